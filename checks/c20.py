"""C20: what is asked for is what is done - however the request is spelled: option, environment
variable, default, order, path form; impossible requests are refused without output."""
import os
import stat

from awv import common, pol, runner, scen

CASES_QUICK = 320
CASES_THOROUGH = 8000
LEVEL = "exploration"
RULE = ("random worlds and settings run twice: spelled out canonically, and in another spelling (environment variables, "
        "contradicting environment overridden by options, short/long/joined/repeated options, shuffled order, defaults "
        "omitted, relative paths, verbosity); outputs compared byte by byte; plus invalid environment values, the "
        "'none' patcher and stand-in patchelf programs of many versions; distinct by (settings, spellings, outcome)")
FLOOR = {"equivalent_runs": 130, "env_used": 60, "env_overridden": 40, "refused_env": 25, "none_patcher": 20,
         "versions": 10, "lief": 2, "outputs_compared": 100}
ENV = {"plat": "AUDITWHEEL_PLAT", "z": "AUDITWHEEL_ZIP_COMPRESSION_LEVEL", "patcher": "AUDITWHEEL_PATCHER"}
OPT = {"plat": ["--plat"], "z": ["-z", "--zip-compression-level"], "patcher": ["--patcher"], "lib_sdir": ["-L", "--lib-sdir"],
       "out": ["-w", "--wheel-dir"], "exclude": ["--exclude"]}
DEFAULT = {"plat": "auto", "patcher": "patchelf", "lib_sdir": ".libs"}
PLATS = [n for p in pol.policies("glibc", "x86_64") if p.prio for n in p.names()]
# patchelf --version -> accepted (>= 0.14.5)
VERSIONS = [("patchelf 0.14.5", True), ("patchelf 0.15.0", True), ("patchelf 0.18.0", True), ("patchelf 1.0", True),
            ("patchelf 0.14.10", True), ("patchelf 0.15", True), ("patchelf 0.17.2.20230101", True), ("patchelf 2", True),
            ("patchelf 0.14.4", False), ("patchelf 0.14.3", False), ("patchelf 0.9", False), ("patchelf 0.14", False),
            ("patchelf 0.13.99", False), ("patchelf 0.12.20200827.8d3a16e", False), ("patchelf", False), ("", False),
            ("patchelf 0", False), ("patchelf 0.1.99", False)]


def case(ctx):
    k = ctx.idx % 8
    if k < 5:
        equivalent(ctx)
    elif k == 5:
        bad_env(ctx)
    elif k == 6:
        none_patcher(ctx)
    else:
        programs(ctx)


def setup(ctx, **kn):
    r = ctx.rng
    kn.setdefault("n_ext", r.choice([0, (1, 3)]))
    w = scen.world(r, libc="glibc", arch="x86_64", strip=False, locate="allp", **kn)
    w.opts = {"sde": 1600000000}
    w, b, m = common.build(ctx, w)
    return w, b, m


def settings(r):
    s = {}
    if r.random() < 0.5:
        s["plat"] = r.choice([*PLATS, *PLATS[-8:], "auto"])
    if r.random() < 0.5:
        s["z"] = str(r.randint(0, 9))
    if r.random() < 0.3:
        s["patcher"] = r.choice(["patchelf", "patchelf", "none"])
    if r.random() < 0.2:
        s["lib_sdir"] = r.choice([".libs", ".mine", "_x"])
    for f in ("--only-plat", "--no-update-tags", "--disable-isa-ext-check"):
        if r.random() < 0.12:
            s[f] = True
    if r.random() < 0.15:
        s["exclude"] = r.sample(["libq1*", "libq0*", "libnone.so", "libQ*"], k=2)
    return s


def canonical(s, b, out):
    argv = []
    for k, v in s.items():
        if k.startswith("--"):
            argv.append(k)
        elif k == "exclude":
            argv += [a for x in v for a in ("--exclude", x)]
        else:
            argv += [OPT[k][-1], v]
    return {}, ["repair", *argv, "--wheel-dir", str(out), str(b.wheel)]


def spelled(ctx, s, b, out):
    r = ctx.rng
    env, groups, how = {}, [], []
    for k in [*DEFAULT, "z"]:
        v = s.get(k)
        e = ENV.get(k)
        if v is None and k in DEFAULT and r.random() < 0.2:
            v = DEFAULT[k]                           # the default spelled out
            how.append("default " + k)
        if v is None:
            continue
        if v == DEFAULT.get(k) and r.random() < 0.3:
            how.append("omitted " + k)
            continue
        if e and r.random() < 0.45:
            env[e] = v
            ctx.count["env_used"] += 1
            how.append("env " + k)
            continue
        other = {"plat": r.choice([*PLATS, "auto"]), "z": str(r.randint(0, 9)), "patcher": r.choice(["none", "lief-patchelf"]),
                 "lib_sdir": ".other"}[k]
        if e and r.random() < 0.45:
            env[e] = other
            ctx.count["env_overridden"] += 1
            how.append("override " + k)
        g = []
        if r.random() < 0.15:
            g += form(r, k, other)
            how.append("repeated " + k)
        groups.append(g + form(r, k, v))
    for k in s:
        if k.startswith("--"):
            groups.append([k])
    # several --exclude keep no order among themselves
    groups += [form(r, "exclude", x) for x in s.get("exclude", ())]
    wheel = str(b.wheel)
    o = str(out)
    if r.random() < 0.4:
        wheel = os.path.relpath(wheel, b.root)
        how.append("relative wheel")
    if out.name == "wheelhouse" and r.random() < 0.7:
        how.append("default dir")
    else:
        groups.append(form(r, "out", os.path.relpath(o, b.root) if r.random() < 0.4 else o))
    r.shuffle(groups)
    pos = r.randint(0, len(groups))
    groups.insert(pos, [wheel])
    flat = [a for g in groups for a in g]
    pre = ["-v"] * r.choice([0, 0, 0, 1, 2])
    if pre:
        how.append("verbose")
    return env, [*pre, "repair", *flat], sorted(how)


def form(r, k, v):
    o = r.choice(OPT[k])
    if o.startswith("--"):
        return [o + "=" + v] if r.random() < 0.5 else [o, v]
    return [o + v] if r.random() < 0.5 else [o, v]


def go(ctx, b, env, argv, **kw):
    ctx.tmp.mkdir(exist_ok=True)
    full = {"SOURCE_DATE_EPOCH": "1600000000", **{k: v for k, v in b.env.items() if "LIBRARY" in k}, **env}
    res = runner.run_cli(argv, cwd=b.root, tmpdir=ctx.tmp, env=full, **kw)
    ctx.count["auditwheel_runs"] += 1
    ctx.count["events_observed"] += len(res.events)
    if res.timeout:
        ctx.inconclusive.append("watchdog")
        raise common.Skip
    return res


def files(d):
    return {p.name: p.read_bytes() for p in d.iterdir()} if d.is_dir() else {}


def equivalent(ctx):
    r = ctx.rng
    w, b, m = setup(ctx)
    s = settings(r)
    out1 = b.root / "o1"
    out2 = b.root / r.choice(["o2", "wheelhouse", "deep/er/o2"])
    env2, argv2, how = spelled(ctx, s, b, out2)
    try:
        a = go(ctx, b, *canonical(s, b, out1))
        c = go(ctx, b, env2, argv2)
    except common.Skip:
        return
    ctx.count["equivalent_runs"] += 1
    ctx.seen(sorted((k, str(v)) for k, v in s.items()), how, a.ok)
    det = {"world": w.brief(), "settings": s, "spelled": argv2, "env": env2, "how": how, "first": a.brief(), "second": c.brief()}
    if ctx.idx < 4:
        ctx.sample = {"settings": s, "spelled": argv2, "env": env2}
    x, y = files(out1), files(out2)
    ctx.check(a.ok == c.ok, f"exit {a.rc} spelled out, {c.rc} as {how}", "status", det)
    ctx.check(sorted(x) == sorted(y), f"wrote {sorted(x)} and {sorted(y)}", "outputs", det)
    ctx.check(a.ok == bool(x), "exit status and output disagree", "status-output", det)
    for n in set(x) & set(y):
        ctx.count["outputs_compared"] += 1
        ctx.check(x[n] == y[n], f"{n} differs between the spellings ({how})", "bytes", det)
    # the requested level is the one used: levels leave different bytes behind
    stray = {p.name for p in b.root.iterdir()} - {"in", "extworld", "o1", out2.relative_to(b.root).parts[0], "out", "tmp"}
    ctx.check(not stray, f"also wrote {stray}", "stray", det)


def bad_env(ctx):
    r = ctx.rng
    w, b, m = setup(ctx)
    k = r.choice(list(ENV))
    v = r.choice({"plat": ["manylinux", "manylinux_2_17", "manylinux_2_17_X86_64", "manylinux_2_17_riscv", "linux_x86_64", "AUTO",
                           "any", "manylinux_2_99_x86_64", "manylinux_2_17_aarch64", " auto", "musllinux_1_2_x86_64"],
                  "z": ["10", "-1", "x", "1.0", "-9", "99999999999", "0x1", "9 9", "best"],
                  "patcher": ["patch", "PATCHELF", "lief", "patchelf ", "none,patchelf", "None"]}[k])
    prev = r.random() < 0.3
    out = b.root / "o1"
    if prev:
        out.mkdir()
        (out / "kept.whl").write_bytes(b"kept")
    try:
        res = go(ctx, b, {ENV[k]: v}, ["repair", "-w", str(out), str(b.wheel)])
        opt = go(ctx, b, {}, ["repair", f"{OPT[k][-1]}={v}", "-w", str(out), str(b.wheel)])
    except common.Skip:
        return
    ctx.count["refused_env"] += 1
    ctx.seen("bad", k, v)
    det = {"var": ENV[k], "value": v, "run": res.brief(), "option": opt.brief()}
    ctx.check(not res.ok, f"{ENV[k]}={v!r} was accepted", "bad-env", det)
    ctx.check(ENV[k] in res.err + res.excmsg, f"the message does not name {ENV[k]}", "bad-env-silent", det)
    ctx.check(not opt.ok, f"{OPT[k][-1]}={v!r} was accepted", "bad-option", det)
    ctx.check(files(out) == ({"kept.whl": b"kept"} if prev else {}), f"wrote {sorted(files(out))}", "bad-env-output", det)


def none_patcher(ctx):
    r = ctx.rng
    w, b, m = setup(ctx, n_ext=r.choice([0, 0, (1, 2)]), p_libpython=0.15)
    plan = m.plan()
    if not plan["ok"]:
        return
    o1, o2 = b.root / "o1", b.root / "o2"
    try:
        a = go(ctx, b, {}, ["repair", "-w", str(o1), str(b.wheel)])
        how = r.choice(["env", "opt"])
        c = go(ctx, b, {ENV["patcher"]: "none"} if how == "env" else {},
               ["repair", *(["--patcher", "none"] if how == "opt" else []), "-w", str(o2), str(b.wheel)])
    except common.Skip:
        return
    ctx.count["none_patcher"] += 1
    touched = bool(plan["touched"])
    ctx.count["none_refused" if touched else "none_passed"] += 1
    ctx.seen("none", how, touched, *w.key())
    det = {"world": w.brief(), "touched": sorted(plan["touched"]), "first": a.brief(), "second": c.brief()}
    x, y = files(o1), files(o2)
    ctx.check(a.ok and len(x) == 1, "not repaired with patchelf", "repair-fails", det)
    if touched:
        ctx.check(not c.ok and not y, f"'none' patcher: exit {c.rc}, wrote {sorted(y)}, although ELF files need patching",
                  "none-accepted", det)
    else:
        ctx.check(c.ok and x == y, f"'none' patcher: exit {c.rc}, wrote {sorted(y)}, although nothing needs patching",
                  "none-differs", det)
    ctx.check(not any(e[0] == "spawn" and "patchelf" in str(e[1]) for e in c.events), "'none' patcher ran patchelf",
              "none-ran", det)


def programs(ctx):
    """the program that is asked for is the one that is run, if it is good enough"""
    r = ctx.rng
    w, b, m = setup(ctx, n_ext=(1, 2))
    if not m.plan()["ok"] or not m.plan()["grafts"]:
        return
    real = common.runner.BASE_PATH
    import shutil

    pe = shutil.which("patchelf", path=real)
    d = b.root / "prog"
    d.mkdir()
    log = b.root / "prog.log"
    which = r.choice(["patchelf", "patchelf", "patchelf", "lief-patchelf", "missing", "missing-lief", "fails"])
    ver, ok = r.choice(VERSIONS)
    name = "lief-patchelf" if "lief" in which else "patchelf"
    if which in ("missing", "missing-lief"):
        ok = False
        path = str(d)
        for t in ("strip", "python3"):
            q = shutil.which(t, path=real)
            if q:
                os.symlink(q, d / t)
        if which == "missing-lief":
            os.symlink(pe, d / "patchelf")
    else:
        body = f'echo "{name} $1" >> {log}\ncase "$1" in --version) echo "{ver}"; exit {1 if which == "fails" else 0};; esac\n'
        (d / name).write_text(f'#!/bin/sh\n{body}exec {pe} "$@"\n')
        (d / name).chmod(0o755)
        other = "patchelf" if name == "lief-patchelf" else "lief-patchelf"
        (d / other).write_text(f'#!/bin/sh\necho "{other} $1" >> {log}\n[ "$1" = --version ] && echo patchelf 0.18.0 && exit 0\n'
                               'exit 9\n')
        (d / other).chmod(0o755)
        path = f"{d}:{real}"
        ok = {"lief-patchelf": True, "fails": False}.get(which, ok)
    for p in d.iterdir():
        if not p.is_symlink():
            os.chmod(p, stat.S_IMODE(p.stat().st_mode) | 0o555)
    o1, o2 = b.root / "o1", b.root / "o2"
    env, arg = {"PATH": path}, []
    if name == "lief-patchelf" or r.random() < 0.3:
        if r.random() < 0.5:
            env[ENV["patcher"]] = name
        else:
            arg = ["--patcher", name]
    try:
        a = go(ctx, b, {}, ["repair", "-w", str(o1), str(b.wheel)])
        c = go(ctx, b, env, ["repair", *arg, "-w", str(o2), str(b.wheel)])
    except common.Skip:
        return
    ctx.count["versions" if which == "patchelf" else "lief" if which == "lief-patchelf" else "unusable"] += 1
    ctx.seen("program", which, ver, arg)
    ran = log.read_text().splitlines() if log.exists() else []
    det = {"which": which, "version": ver, "ran": ran, "first": a.brief(), "second": c.brief(), "world": w.brief()}
    ctx.check(a.ok, "not repaired with the real patchelf", "repair-fails", det)
    ctx.check(c.ok == ok, f"{which} {ver!r}: exit {c.rc}", "program-status", det)
    x, y = files(o1), files(o2)
    if ok:
        ctx.check(x == y, f"another result with {which} {ver!r}", "program-bytes", det)
        ctx.check(bool(ran) and all(ln.startswith(name + " ") for ln in ran), f"ran {ran[:5]}", "program-ran", det)
    else:
        ctx.check(not y, f"wrote {sorted(y)} without a usable patchelf", "program-output", det)
