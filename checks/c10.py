"""C10: auditwheel touches nothing but the wheel it writes and its own temporary files, whatever
the wheel contains; it runs only its tools, on its own copies, and cleans up."""
import os
import posixpath
import shutil

from awv import common, elfgen, runner, scen

CASES_QUICK = 500
CASES_THOROUGH = 5000
LEVEL = "exploration"
RULE = ("every sub-command on ordinary and hostile wheels (archive names and RECORD rows that escape, "
        "symlink members, option-like and shell-special names, path-like library names, read-only "
        "inputs, symlinked TMPDIR, relative paths, refusals); every file-system call and subprocess of "
        "the run is observed and the surrounding tree compared; distinct by (command, hostility, setting)")
FLOOR = {"mutations_observed": 5000, "spawns_observed": 800, "hostile": 80, "hostile_repaired": 25,
         "trees_compared": 180, "cmd:show": 20, "cmd:lddtree": 15, "cmd:repair": 100, "response_files": 5,
         "programs_offered": 20}
ASSUMPTIONS = ["file-system calls CPython does not audit (os.open by C extensions) are seen only "
               "through the before/after comparison of the tree"]
TOOLS = {"patchelf", "strip"}
SHELLS = {"sh", "bash", "dash", "env"}
HOSTILE = ["record_abs", "record_rel", "record_deep", "slip", "abs_member", "symlink_member", "dash",
           "shell", "needed_path", "needed_abs", "needed_dots", "soname_dots", "rpath_evil", "dirlink",
           "long", "response", "programs"]


def case(ctx):
    r = ctx.rng
    cmd = ["repair", "repair", "repair", "show", "lddtree"][ctx.idx % 5]
    if ctx.idx % 10 == 3:
        cmd = "repair"
    hostile = ctx.idx % 2 == 0
    kn = dict(n_ext=(0, 4), p_script=0.3, p_foreign=0.2)
    if hostile:
        kn["n_ext"] = (1, 3)
    if ctx.idx % 20 in (6, 16):
        kn["arch"] = "x86_64"
    w = scen.world(r, **kn)
    if cmd == "lddtree" and w.arch != "x86_64":
        w = scen.world(r, arch="x86_64", libc="glibc", **kn)
    victims = ctx.root / "victims"
    victims.mkdir()
    vic = elfgen.make_elf(arch=w.arch, soname="libvictim.so", needed=_needs(w), payload=b"victim",
                          rpath="/victim/rpath", exports=[("PyInit_victim", 0)])
    for n in ("victim.so", "_v.so", "libvictim.so.1"):
        (victims / n).write_bytes(vic)
        (victims / n).chmod(0o755)
    (victims / "text.txt").write_text("keep me\n")
    kinds = r.sample(HOSTILE, r.choice([1, 1, 2])) if hostile else []
    if ctx.idx % 20 == 6:
        kinds = ["response"]
    elif ctx.idx % 20 == 16:
        kinds = ["programs"]
    for k in kinds:
        make_hostile(r, w, k, victims, ctx)
    if not hostile and r.random() < 0.2:
        o = r.choice([e for e in w.elfs if e["role"] == "ext"])
        o["spec"]["needed"] = [*o["spec"]["needed"], "libqmissing.so.3"]
    w, b, m = common.build(ctx, w)
    expect_ok = not hostile and m.plan()["ok"]
    for p in b.ext_path:
        if r.random() < 0.3:
            os.chmod(p, r.choice([0o444, 0o555, 0o400]))
    # ---- the setting
    cwd = ctx.root / "cw d"
    cwd.mkdir()
    (cwd / "pyproject.toml").write_text("x")
    (cwd / "qpkg").mkdir()
    (cwd / "qpkg" / "__init__.py").write_text("mine\n")
    # same relative names as in the wheel: nothing may be mistaken for the unpacked copy
    for e in w.elfs[:3]:
        p = cwd / e["path"]
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(b.elf_bytes[e["path"]])
    home = ctx.root / "home"
    home.mkdir()
    (home / ".netrc").write_text("secret")
    tmp = ctx.tmp
    setting = r.choice(["plain", "plain", "tmplink", "tmpspace"])
    if setting == "tmplink":
        (ctx.root / "tl").symlink_to(tmp)
    elif setting == "tmpspace":
        tmp = ctx.root / "t m p"
        tmp.mkdir()
    env = dict(b.env, HOME=str(home))
    if setting == "tmplink":
        env["TMPDIR"] = str(ctx.root / "tl")
    if "programs" in kinds:
        # a search path that names the current directory, as a stray colon does
        pth = runner.BASE_PATH.split(":")
        pth.insert(r.choice([len(pth), len(pth), r.randint(0, len(pth))]), r.choice(["", "", ".", "qpkg", "./qpkg"]))
        env["PATH"] = ":".join(pth)
    ro = r.random() < 0.3
    if ro:
        os.chmod(b.wheel, 0o444)
        os.chmod(b.wheel.parent, 0o555)
    argv, out = build_argv(ctx, r, cmd, w, b, cwd)
    roots = [b.root, victims, cwd, home]
    before = common.snapshot(*roots)
    okdirs = parents_to_make(out) if out else set()
    res = runner.run_cli(argv, cwd=cwd, tmpdir=tmp, env=env, uname=common.machine_of(w),
                         trace_reads=False)
    if res.timeout:
        os.chmod(b.wheel.parent, 0o755)
        ctx.inconclusive.append("watchdog")
        return
    ctx.count["auditwheel_runs"] += 1
    ctx.count["cmd:" + cmd] += 1
    ctx.count["hostile"] += bool(hostile)
    ctx.count["hostile_repaired"] += bool(hostile and cmd == "repair" and res.ok)
    ctx.seen(cmd, kinds, setting, ro, res.ok, res.exc)
    if ctx.idx < 4:
        ctx.sample = {"cmd": cmd, "hostile": kinds, "setting": setting, "world": w.brief()}
    det = {"cmd": argv, "hostile": kinds, "setting": setting, "run": res.brief(), "world": w.brief()}
    if expect_ok and cmd == "repair":
        ctx.check(res.ok, "an ordinary repairable wheel is not repaired in this setting", "setting",
                  det)
    if not hostile and cmd == "show":
        ctx.check(res.ok, "show fails in this setting", "setting", det)
    # ---- the trace
    allowed = [os.path.realpath(tmp)] + ([os.path.realpath(out)] if out else [])
    for ev in res.events:
        op, path = ev[0], ev[1]
        if op in runner.MUTATING:
            ctx.count["mutations_observed"] += 1
            if str(path) == "/dev/null":
                continue
            for q in ([path, ev[2]] if op == "rename" else [path]):
                q = _real(q)
                ctx.check(any(q == a or q.startswith(a + "/") for a in allowed)
                          or op == "mkdir" and q in okdirs,
                          f"{op} outside the temporary and output directories: {q}", "mutation", det)
        elif op == "spawn":
            ctx.count["spawns_observed"] += 1
            prog = os.path.basename(ev[1] or (ev[2] or [""])[0])
            args = ev[2]
            exe = shutil.which(ev[1] or args[0], path=runner.BASE_PATH) or ev[1] or args[0]
            ok = not ("/" in exe and _within(_real(posixpath.join(ev[3], exe)),
                                             (str(ctx.root), allowed[0]))) and prog not in SHELLS
            ctx.check(ok, f"runs {args}", "foreign-program", det)
            if prog in TOOLS and "--version" not in args:
                mod = prog == "strip" or not any(a.startswith("--print") for a in args)
                t = _real(posixpath.join(ev[3], args[-1]))
                ctx.check(not mod or t.startswith(allowed[0] + "/"),
                          f"{prog} modifies {t}", "tool-target", det)
        elif op == "net":
            ctx.check(False, f"connects to {path}", "network", det)
        elif op == "dlopen":
            ctx.check(not _within(path, (str(ctx.root), allowed[0])) and "/" not in path,
                      f"loads {path}", "dlopen", det)
    # ---- the state
    ran = victims / "ran"
    ctx.check(not ran.exists(), "runs a program of the wheel: %s" % (ran.read_text() if ran.exists() else ""),
              "foreign-program", det)
    after = common.snapshot(*roots)
    os.chmod(b.wheel.parent, 0o755)
    ctx.count["trees_compared"] += 1
    new = 0
    for p, how in common.diff_snap(before, after):
        rp = _real(p)
        if out and (_within(rp, (os.path.realpath(out),)) or rp in okdirs):
            new += how == "added" and p.endswith(".whl")
            ctx.check(how == "added" and (p.endswith(".whl") or os.path.isdir(p)),
                      f"output directory: {p} {how}", "output-debris", det)
            continue
        ctx.check(False, f"{p[len(str(ctx.root)):]} was {how}", "tree-changed", det)
    if cmd == "repair":
        ctx.check(new <= 1 and (res.ok or not new), f"{new} wheels written, success={res.ok}",
                  "output-count", det)
    left = sorted(os.listdir(tmp))
    ctx.check(not left, f"temporary files left: {left[:3]}", "leftovers", det)
    ctx.check(res.cwd_after == str(cwd), f"working directory left at {res.cwd_after}", "cwd", det)


def _needs(w):
    return [nm for x in w.ext[:1] for nm in x["names"][:1]] or ["libc.so.6"]


def _real(p):
    d, n = os.path.split(str(p))
    return os.path.join(os.path.realpath(d), n)


def _within(p, roots):
    return any(p == a or str(p).startswith(a + "/") for a in roots)


def parents_to_make(out):
    got = set()
    p = out
    while not p.exists():
        got.add(_real(p))
        p = p.parent
    return got


def build_argv(ctx, r, cmd, w, b, cwd):
    if cmd == "lddtree":
        e = r.choice([e for e in w.elfs if e["role"] == "ext"])
        d = b.root / "elf"
        d.mkdir()
        p = d / os.path.basename(e["path"])
        p.write_bytes(b.elf_bytes[e["path"]])
        return ["lddtree", str(p)], None
    wheel = str(b.wheel) if r.random() < 0.6 else os.path.relpath(b.wheel, cwd)
    if cmd == "show":
        return ["show", *(["--json"] if r.random() < 0.5 else []), wheel], None
    argv = b.argv[:-3]
    c = r.random()
    if c < 0.3:
        return [*argv, wheel], cwd / "wheelhouse"
    if c < 0.6:
        return [*argv, "-w", "a/b/out", wheel], cwd / "a" / "b" / "out"
    if c < 0.75:
        tgt = ctx.root / "elsewhere"
        tgt.mkdir()
        (cwd / "olink").symlink_to(tgt)
        return [*argv, "-w", "olink", wheel], tgt
    return [*argv, "-w", str(b.out), wheel], b.out


def make_hostile(r, w, kind, victims, ctx):
    exts = [e for e in w.elfs if e["role"] == "ext"]
    vic = str(victims / r.choice(["victim.so", "_v.so", "libvictim.so.1"]))
    up = "../" * r.choice([3, 6, 12])
    if kind == "record_abs":
        w.extra_record.append([vic, "", ""])
    elif kind == "record_rel":
        w.extra_record.append(["../" * 12 + vic.lstrip("/"), "", ""])
    elif kind == "record_deep":
        w.extra_record.append(["qpkg/../" + "../" * 12 + vic.lstrip("/"), "sha256=xx", "12"])
    elif kind == "slip":
        w.files.append(dict(path=up + str(victims).lstrip("/") + "/slipped.txt", data=b"s", mode=0o644))
    elif kind == "abs_member":
        w.files.append(dict(path=str(victims / "abs.txt"), data=b"s", mode=0o644))
    elif kind == "symlink_member":
        w.files.append(dict(path="qpkg/link.so", data=vic.encode(), mode=0o120777))
    elif kind == "dirlink":
        w.files.append(dict(path="qpkg/ln", data=str(victims).encode(), mode=0o120777))
    elif kind == "dash":
        e = r.choice(exts)
        e["path"] = r.choice(["-evil.so", "--output", "--set-soname", "-o/evil.so", "--remove-rpath.so"])
        w.opts["strip"] = w.arch in ("x86_64", "i686") and r.random() < 0.5
    elif kind == "response":
        # binutils takes an argument @file for the arguments in that file
        e = r.choice(exts)
        n = r.choice(["resp.so", "r", "x.txt", "d/resp.so"])
        e["path"] = "@" + n
        o = r.choice(exts)["path"]
        o = o if " " not in o and "@" not in o else "/usr/bin/true"
        text = r.choice([f"-o {vic} {o}\n", f"{vic}\n", f"--strip-all -o\n{vic}\n{o}\n"])
        w.files.append(dict(path=n, data=text.encode(), mode=0o644))
        w.opts["strip"] = w.arch in ("x86_64", "i686")
        ctx.count["response_files"] += 1
    elif kind == "programs":
        for d in ("", "qpkg/", "bin/"):
            for n in ("rpm", "dpkg", "apk", "apt-file", "strip", "patchelf", "ldd", "tar", "readelf", "file"):
                w.files.append(dict(path=d + n, mode=0o755,
                                    data=f"#!/bin/sh\necho $0 $* >> {victims}/ran\n".encode()))
        w.opts["strip"] = w.arch in ("x86_64", "i686") and r.random() < 0.5
        ctx.count["programs_offered"] += 1
    elif kind == "shell":
        e = r.choice(exts)
        e["path"] = r.choice(["qpkg/$(touch pwned).so", "qpkg/`id`.so", "qpkg/a;b.so", "qpkg/a b.so",
                              "qpkg/a\nb.so", "qpkg/*.so", "qpkg/~.so"])
    elif kind == "needed_path":
        e = r.choice(exts)
        e["spec"]["needed"] = [*e["spec"]["needed"], "../" * 10 + vic.lstrip("/")]
    elif kind == "needed_abs":
        e = r.choice(exts)
        e["spec"]["needed"] = [vic, *e["spec"]["needed"]]
    elif kind == "needed_dots":
        e = r.choice(exts)
        e["spec"]["needed"] = [r.choice(["..", ".", "../victims/victim.so", "-v", "a b", "$ORIGIN/x"]),
                               *e["spec"]["needed"]]
    elif kind == "soname_dots" and w.ext:
        r.choice(w.ext)["spec"]["soname"] = r.choice(["../../../evil.so", "/evil.so", "-v", "a\nb"])
    elif kind == "rpath_evil":
        e = r.choice(exts)
        k = "rpath" if not e["spec"].get("runpath") else "runpath"
        e["spec"][k] = ":".join(x for x in (e["spec"].get(k), str(victims), "$ORIGIN/" + up) if x)
    elif kind == "long":
        w.files.append(dict(path="qpkg/" + "n" * 250, data=b"", mode=0o644))
