"""C18: repairs do not influence each other - several wheels given to one command, or several
commands sharing directories at the same time, give exactly what each gives alone."""
import os

from awv import common, pol, runner, scen
from awv.wheelread import Wheel
from checks import kinds

CASES_QUICK = 200
CASES_THOROUGH = 4000
LEVEL = "exploration"
RULE = ("batches of 2-4 wheels (binary, pure, refused, damaged kinds mixed; colliding library names and output "
        "names) repaired by one command and one by one; 2-3 simultaneous commands sharing output, temporary and "
        "working directories, stepped operation by operation under a seeded scheduler; outputs must be byte-"
        "identical to those of separate runs; distinct by (kinds, verdicts) and by schedule")
FLOOR = {"batches": 40, "batch_ok": 25, "batch_stops": 15, "outputs_compared": 150, "concurrent": 40,
         "switches": 400, "states_with_output": 500, "pure_in_batch": 8, "in_place": 10, "in_place_same_name": 5, "with_owners": 30}


def case(ctx):
    if ctx.idx % 2:
        concurrent(ctx)
    else:
        batch(ctx)


class Item:
    pass


def items(ctx, n, bad=0.15, arch="x86_64"):
    r = ctx.rng
    out, dirs = [], []
    for i in range(n):
        x = Item()
        if r.random() < bad:
            y = kinds.make(ctx, r.choice(["pure", "pure", "pure", *kinds.KINDS[:4]]), sub=f"w{i}")
            x.kind, x.wheel, x.raw = y.kind, y.wheel, y.raw
        else:
            w = scen.world(r, n_ext=r.choice([0, (1, 3)]), arch=arch if r.random() < 0.75 else r.choice(["i686", "aarch64"]), strip=False, p_script=0.15,
                           name=r.choice([f"pk{i}", f"pk{i}", "pkq"]),
                           locate=r.choice(["allp", "rpath", "runpath"]), p_missing=0,
                           libc=r.choice(["glibc"] * 6 + ["musl"]))
            c = r.random()
            if c < 0.12:
                w.plats = ["any"]
            elif c < 0.3:
                w.plats = [("musllinux_1_2_" if w.libc == "musl" else "manylinux_2_17_") + w.arch]
            if r.random() < bad:
                scen.verdict_mix(r, w, 0.15)
            w.opts = {}
            root = ctx.root / f"w{i}"
            root.mkdir()
            b = scen.materialize(w, root, r)
            dirs += [str(p) for p in b.dirmap.values()]
            x.kind, x.wheel, x.raw = "platform", b.wheel, b.wheel.read_bytes()
            # the wheels' libraries of one name belong to packages of their own
            x.rows = [(p.resolve(), f"libpk{i}x{k}", f"{i}.{k}-1") for k, p in enumerate(b.ext_path) if r.random() < 0.8]
        out.append(x)
    return out, dirs


def options(ctx, dirs, its):
    r = ctx.rng
    env = {"SOURCE_DATE_EPOCH": "1600000000", "AUDITWHEEL_LD_LIBRARY_PATH": ":".join(dirs)}
    rows = [y for x in its for y in getattr(x, "rows", ())]
    if rows and r.random() < 0.5:
        d = common.fake_pm(ctx.root / "pm", r.choice(["dpkg", "dpkg", "rpm", "apk"]), rows)
        env["PATH"] = f"{d}:{runner.BASE_PATH}"
        ctx.count["with_owners"] += 1
    argv = ["repair"]
    if r.random() < 0.15:
        names = [n for p in pol.policies("glibc", "x86_64") if p.prio for n in p.names()]
        argv += ["--plat", r.choice(names)]
        if r.random() < 0.3:
            argv.append("--only-plat")
    if r.random() < 0.6:
        argv.append("--allow-pure-python-wheel")
    for o, p in ((["-L", ".mylibs"], 0.1), (["-z", "1"], 0.2), (["--no-update-tags"], 0.1),
                 (["--exclude", "libq1*"], 0.1)):
        if r.random() < p:
            argv += o
    return env, argv


def alone(ctx, x, env, argv, k):
    out = ctx.root / f"alone{k}"
    tmp = ctx.root / f"t{k}"
    tmp.mkdir(exist_ok=True)
    cwd = ctx.root / f"cwd{k}"
    cwd.mkdir(exist_ok=True)
    res = runner.run_cli([*argv, "-w", str(out), str(x.wheel)], cwd=cwd, tmpdir=tmp, env=env)
    ctx.count["auditwheel_runs"] += 1
    if res.timeout:
        ctx.inconclusive.append("watchdog")
        raise common.Skip
    x.res = res
    x.out = {p.name: p.read_bytes() for p in out.iterdir()} if out.is_dir() else {}
    return x


def batch(ctx):
    r = ctx.rng
    its, dirs = items(ctx, r.randint(2, 4), bad=r.choice([0.1, 0.1, 0.5, 0.8]))
    its.sort(key=lambda x: not x.kind.startswith("pure")) if r.random() < 0.3 else None
    if r.random() < 0.15:
        its.append(r.choice(its))
    env, argv = options(ctx, dirs, its)
    try:
        for k, x in enumerate(its):
            alone(ctx, x, env, argv, k)
    except common.Skip:
        return
    expect, code = {}, True
    for x in its:
        if not x.res.ok:
            code = False
            break
        expect.update(x.out)
    out = ctx.root / "batch"
    tmp = ctx.root / "tb"
    tmp.mkdir()
    files = [x.wheel for x in its]
    names = [f.name for f in files]
    if r.random() < 0.35 and len(set(names)) == len(names) and all(
            not set(x.out) & set(names[i + 1:]) for i, x in enumerate(its)):
        # the wheels are repaired where they are
        out.mkdir()
        files = [out / n for n in names]
        for f, x in zip(files, its):
            f.write_bytes(x.raw)
        expect = {**{n: x.raw for n, x in zip(names, its)}, **expect}
        ctx.count["in_place"] += 1
        ctx.count["in_place_same_name"] += any(n in x.out for n, x in zip(names[:-1], its))
    rel = r.random() < 0.3
    if rel:
        files = [os.path.relpath(f, ctx.root) for f in files]
    res = runner.run_cli([*argv, "-w", "batch" if rel else str(out), *[str(f) for f in files]], cwd=ctx.root,
                         tmpdir=tmp, env=env)
    ctx.count["auditwheel_runs"] += 1
    if res.timeout:
        ctx.inconclusive.append("watchdog")
        return
    got = {p.name: p.read_bytes() for p in out.iterdir()} if out.is_dir() else {}
    ctx.count["batches"] += 1
    ctx.count["batch_ok" if code else "batch_stops"] += 1
    ctx.count["pure_in_batch"] += any(x.kind.startswith("pure") for x in its)
    ctx.seen("batch", [x.kind for x in its], [x.res.ok for x in its], argv[1:])
    det = {"wheels": [(x.kind, x.wheel.name, x.res.rc) for x in its], "argv": argv, "run": res.brief(),
           "first_bad": next((x.res.brief() for x in its if not x.res.ok), None)}
    if ctx.idx < 6:
        ctx.sample = {"wheels": det["wheels"], "argv": argv}
    ctx.check(res.ok == code, f"batch exit {res.rc}, separate exits {[x.res.rc for x in its]}", "status", det)
    ctx.check(set(got) == set(expect),
              f"batch wrote {sorted(got)}, separate runs {sorted(expect)}", "batch-outputs", det)
    for n in sorted(set(got) & set(expect)):
        ctx.count["outputs_compared"] += 1
        ctx.check(got[n] == expect[n], f"{n}: written differently in a batch: "
                  f"{difference(got[n], expect[n], ctx)}", "batch-bytes", det)
    for x in its:
        ctx.check(x.wheel.read_bytes() == x.raw, f"{x.wheel.name} was modified", "input", det)


def difference(a, b, ctx):
    out = []
    for k, d in (("a", a), ("b", b)):
        p = ctx.root / f"diff-{k}-1-py3-none-any.whl"
        p.write_bytes(d)
        try:
            out.append(Wheel(p))
        except Exception as e:  # noqa: BLE001
            return f"unreadable: {e}"
    x, y = out
    return [n for n in sorted(set(x.data) | set(y.data)) if x.data.get(n) != y.data.get(n)][:5]


def concurrent(ctx):
    r = ctx.rng
    n = r.choice([2, 2, 3])
    its, dirs = items(ctx, n, bad=0.08)
    same = r.random() < 0.4
    if same:
        its = [its[0]] * n
    opts = [options(ctx, dirs, its)]
    for _ in range(n - 1):
        opts.append(options(ctx, dirs, its) if r.random() < 0.4 else opts[0])
    jobs, alones = [], []
    shared = ctx.root / "sh"
    (shared / "tmp").mkdir(parents=True)
    out = shared / r.choice(["out", "a/b/out"])
    if r.random() < 0.3:
        out.mkdir(parents=True)
    try:
        for k, x in enumerate(its):
            y = Item()
            y.__dict__.update(x.__dict__)
            alones.append(alone(ctx, y, *opts[k], k))
    except common.Skip:
        return
    for k, x in enumerate(its):
        env, argv = opts[k]
        w = os.path.relpath(out, shared) if r.random() < 0.5 else str(out)
        jobs.append(dict(fn=runner.cli([*argv, "-w", w, str(x.wheel)]), cwd=shared, env=env,
                         tmpdir=shared / "tmp"))
    valid = {}
    for y in alones:
        for nme, d in y.out.items():
            valid.setdefault(nme, set()).add(d)
    partial = []

    def observe(step):
        try:
            names = os.listdir(out)
        except OSError:
            return
        for nme in names:
            p = out / nme
            if nme.endswith(".whl") and p.is_file():
                ctx.count["states_with_output"] += 1
                if p.read_bytes() not in valid.get(nme, ()):
                    partial.append((step, nme))

    ress, sched = runner.run_many(jobs, r, stick=r.choice([0.0, 0.3, 0.7, 0.9, 0.97]), observe=observe)
    ctx.count["auditwheel_runs"] += n
    if any(x.timeout for x in ress):
        ctx.inconclusive.append("watchdog")
        return
    sw = sum(a != b for a, b in zip(sched, sched[1:]))
    ctx.count["concurrent"] += 1
    ctx.count["switches"] += sw
    ctx.count["steps"] += len(sched)
    ctx.seen("concurrent", sched)
    det = {"wheels": [(x.kind, x.wheel.name, x.res.rc) for x in alones], "argv": [o[1] for o in opts],
           "schedule": sched, "runs": [x.brief() for x in ress],
           "ops": [[e[:2] for e in x.events] for x in ress]}
    ctx.check(not partial, f"an incomplete or foreign wheel was visible: {partial[:3]}", "visible-partial", det)
    want = valid
    for k, (x, y) in enumerate(zip(ress, alones)):
        ctx.check(x.ok == y.res.ok, f"command {k} exits {x.rc} beside others, {y.res.rc} alone",
                  "concurrent-status", det)
    got = {}
    for dp, dn, fn in os.walk(out):
        for f in fn:
            p = os.path.join(dp, f)
            got[os.path.relpath(p, out)] = open(p, "rb").read()
        for d in dn:
            got[os.path.relpath(os.path.join(dp, d), out) + "/"] = b""
    ctx.check(set(got) == set(want), f"wrote {sorted(got)}, alone {sorted(want)}", "concurrent-outputs", det)
    for nme in sorted(set(got) & set(want)):
        ctx.count["outputs_compared"] += 1
        ctx.check(got[nme] in want[nme], f"{nme} is not what any of the commands writes alone",
                  "concurrent-bytes", det)
    left = os.listdir(shared / "tmp")
    ctx.check(not left, f"left in the temporary directory: {left}", "leftovers", det)
    for x in its:
        ctx.check(x.wheel.read_bytes() == x.raw, f"{x.wheel.name} was modified", "input", det)
