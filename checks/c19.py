"""C19: wheels that cannot be repaired for the machine they are meant for are refused without any
output; pure wheels are, on request, passed through byte for byte."""
import os

from awv import common, pol, runner, scen
from checks import kinds

CASES_QUICK = 1000
CASES_THOROUGH = 12000
LEVEL = "exploration"
RULE = ("wheels without usable binaries (pure, misnamed, foreign architectures only, shared library in purelib, "
        "malformed names), wheels for another architecture or libc than requested, missing and non-wheel files, x "
        "options and output directories (new, existing, the input's own, with a previous file); outcome compared "
        "with the kind; distinct by (kind, options, directory state)")
FLOOR = {"passed_through": 30, "refused": 200, "pure": 60, "foreign": 40, "purelib": 40, "mismatch": 30,
         "own_dir": 30}
PLATS = [n for p in pol.policies("glibc", "x86_64") if p.prio for n in p.names()]


def case(ctx):
    r = ctx.rng
    k = r.choice([*kinds.KINDS, "pure", "pure", "mismatch", "notfile", "any-binary"])
    ctx.count[k] += 1
    if k == "any-binary":
        any_binary(ctx)
        return
    allow = r.random() < 0.6
    extra = []
    uname = None
    if k == "mismatch":
        x = mismatch(ctx)
        uname, extra = x.uname, x.extra
    elif k == "notfile":
        x = kinds.make(ctx, "pure")
        x.kind = k
    else:
        x = kinds.make(ctx, k)
        uname = None if x.arch in ("x86_64", "i686") else x.arch
    arg = x.wheel
    if k == "notfile":
        arg = x.wheel.parent / r.choice(["absent-1.0-py3-none-any.whl", "dir-1.0-py3-none-any.whl",
                                         "broken-1.0-py3-none-any.whl"])
        if arg.name.startswith("dir"):
            arg.mkdir()
        if arg.name.startswith("broken"):
            arg.write_bytes(x.raw[:r.randrange(len(x.raw))] if r.random() < 0.5 else b"")
    out = x.root / "out"
    how = r.choice(["new", "nested", "exists", "own", "previous"])
    previous = None
    if how == "nested":
        out = x.root / "a/b/out"
    elif how in ("exists", "previous"):
        out.mkdir()
        if how == "previous":
            previous = b"previous"
            (out / x.wheel.name).write_bytes(previous)
    elif how == "own":
        out = x.wheel.parent
        ctx.count["own_dir"] += 1
    for o, p in ((["--strip"], 0.1), (["--no-update-tags"], 0.15), (["--only-plat"], 0.1),
                 (["--disable-isa-ext-check"], 0.1), (["-z", "9"], 0.1)):
        if r.random() < p:
            extra = [*extra, *o]
    env = {"SOURCE_DATE_EPOCH": "1600000000"} if r.random() < 0.5 else {}
    argv = ["repair", *(["--allow-pure-python-wheel"] if allow else []), *extra, "-w", str(out), str(arg)]
    before = {p: p.read_bytes() for p in x.wheel.parent.iterdir() if p.is_file()}
    ctx.tmp.mkdir(exist_ok=True)
    res = runner.run_cli(argv, cwd=x.root, tmpdir=ctx.tmp, env=env, uname=uname)
    ctx.count["auditwheel_runs"] += 1
    ctx.count["events_observed"] += len(res.events)
    if res.timeout:
        ctx.inconclusive.append("watchdog")
        return
    got = {p.name: p.read_bytes() for p in out.iterdir() if p.is_file()} if out.is_dir() else {}
    det = {"kind": k, "how": how, "argv": argv, "wheel": x.wheel.name, "members": getattr(x, "names", None),
           "out": sorted(got), "run": res.brief(), "uname": uname}
    ctx.seen(k, how, allow, extra, x.shape)
    if ctx.idx < 6:
        ctx.sample = {"kind": k, "argv": argv[:-1], "wheel": x.wheel.name, "rc": res.rc}
    if k == "badname" and x.haself and arg.suffix == ".whl":
        # no name an index would accept, but a binary wheel: what becomes of it is not claimed
        return
    good = k == "pure" and allow
    want = {}
    if how == "own":
        want = {p.name: d for p, d in before.items()}
    elif how == "previous":
        want = {x.wheel.name: previous}
    if good:
        ctx.count["passed_through"] += 1
        want[x.wheel.name] = x.raw
    else:
        ctx.count["refused"] += 1
    ctx.check(res.ok == good, f"exit status {res.rc} for a {k} wheel (allow={allow})", "status", det)
    ctx.check(got == want, f"{k}: output directory holds {sorted(got)}, expected {sorted(want)}"
              + (" with other contents" if set(got) == set(want) else ""), "output", det)
    if not good:
        ctx.check(bool(res.err.strip() or res.excmsg), "refused without any message", "silent", det)
    now = {p: p.read_bytes() for p in x.wheel.parent.iterdir() if p.is_file() and p in before}
    ctx.check(now == before, "the input was modified", "input", det)
    ctx.check(not os.listdir(ctx.tmp), f"temporary files left: {os.listdir(ctx.tmp)}", "leftovers", det)


def mismatch(ctx):
    """a good wheel for another machine than the one requested"""
    r = ctx.rng
    c = r.choice(["arch", "arch", "libc"])
    arch = r.choice(["i686", "aarch64", "ppc64le"]) if c == "arch" else "x86_64"
    w = scen.world(r, n_ext=0, arch=arch, libc="glibc" if c == "arch" else "musl", strip=False)
    if c == "libc":
        w.plats = [r.choice(["musllinux_1_1_x86_64", "musllinux_1_2_x86_64"])]
    w.opts = {}
    root = ctx.root / "m"
    root.mkdir()
    b = scen.materialize(w, root, r)
    x = kinds.X()
    x.root, x.wheel, x.raw, x.kind = root, b.wheel, b.wheel.read_bytes(), "mismatch"
    x.uname = None
    x.extra = ["--plat", r.choice(PLATS)]
    x.names = [m[0] for m in b.members]
    x.shape = (c, arch, x.extra[1])
    return x


def any_binary(ctx):
    """binaries in a wheel that says it is pure: repaired as the platform wheel it is"""
    r = ctx.rng
    w = scen.world(r, n_ext=r.choice([0, (1, 2)]), libc="glibc", arch="x86_64", plats=["any"], p_foreign=0,
                   p_static=0, strip=False)
    w.purelib_flag = r.choice(["true", "false"])
    w.opts = {"sde": 1600000000}
    w, b, m = common.build(ctx, w)
    plan = m.plan()
    allow = r.random() < 0.6
    if not plan["ok"]:
        return
    try:
        res = common.repair(ctx, b, argv=[b.argv[0], *(["--allow-pure-python-wheel"] if allow else []),
                                          *b.argv[1:]])
    except common.Skip:
        return
    wh = common.expect_ok(ctx, w, b, m, res)
    if wh is None:
        return
    ctx.seen("any-binary", allow, w.purelib_flag, *w.key())
    det = {"world": w.brief(), "name": wh.filename, "run": res.brief(), "plan": str(plan["tags"])}
    ctx.check(set(wh.plats) == set(plan["tags"]), f"binary wheel tagged {wh.plats}", "any-binary-tags", det)
    ctx.check([v.lower() for v in wh.header_all("Root-Is-Purelib")] == ["false"], "binary wheel still says it is pure",
              "any-binary-purelib", det)
    ctx.check(all(t.endswith(tuple(plan["tags"])) for t in wh.header_all("Tag")), "stale tags", "any-binary-tags",
              det)
