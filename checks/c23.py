"""C23: Android wheels are repaired for the platform their tag names, by its own rules."""
import fnmatch
import json
import posixpath

from awv import common, elfgen, elfread, runner, scen
from awv.wheelread import Wheel

CASES_QUICK = 450
CASES_THOROUGH = 9000
LEVEL = "exploration"
RULE = ("generated Android wheels (both supported ABIs, API levels from below to beyond the table) with modules, in-"
        "wheel libraries and graphs of external libraries, located by option and/or environment with look-alikes on "
        "the build machine, shown and repaired; libraries bundled, references and search paths of the output are "
        "checked with bionic's rules against the NDK's stable-API table; distinct by (level, graph shape, options, outcome)")
FLOOR = {"outputs": 150, "grafts": 150, "low_api_refused": 20, "unlocatable": 20, "nothing_grafted": 40,
         "libpython_kept": 60, "levels": 8, "shown": 200, "stable_in_sysroot": 20}

# https://developer.android.com/ndk/guides/stable_apis and PEP 738: library -> first API level
STABLE = {n: 21 for n in ("libandroid.so libc.so libdl.so libEGL.so libGLESv1_CM.so libGLESv2.so libjnigraphics.so "
                          "liblog.so libm.so libmediandk.so libOpenMAXAL.so libOpenSLES.so libz.so "
                          "libcrypto_python.so libssl_python.so libsqlite3_python.so").split()}
STABLE.update({"libcamera2ndk.so": 24, "libvulkan.so": 24, "libaaudio.so": 26, "libsync.so": 26,
               "libneuralnetworks.so": 27})
PY = ["libpython3.13.so", "libpython3.14.so", "libpython3.14t.so"]
ABIS = {"x86_64": "x86_64", "arm64_v8a": "aarch64"}


class W:
    pass


def generate(ctx):
    r = ctx.rng
    w = W()
    w.level = r.choice([21, 22, 23, 24, 24, 24, 25, 26, 27, 28, 30, 33, 35, 19])
    w.abi = r.choice(list(ABIS))
    w.arch = ABIS[w.abi]
    w.plat = f"android_{w.level}_{w.abi}"
    w.name = r.choice(["spam", "Sp_am", "sp.am"])
    w.fn = f"{w.name}-0.1.0-cp313-cp313-{w.plat}.whl"
    w.di = f"{w.name}-0.1.0.dist-info"
    w.libs_dir = w.name + ".libs"
    w.argv = []
    n = r.choice([0, 0, 1, 1, 2, 3, 5])
    w.ext = []
    extname = ["libc++_shared.so", "libomp.so", "libq1.so", "libq-two.so", "libq3.so.2", "libgcc_s.so.1", "libq_5"]
    r.shuffle(extname)
    for i in range(n):
        w.ext.append(dict(name=extname[i], needed=stable(r, w), i=i))
    for i, x in enumerate(w.ext):
        x["needed"] += [y["name"] for y in w.ext[i + 1:] if r.random() < 0.35]
        if r.random() < 0.1 and i:
            x["needed"].append(w.ext[0]["name"])
        if r.random() < 0.15:
            x["needed"].append(r.choice(PY))
    w.missing = set()
    w.elfs = []
    inl = []
    for i in range(r.choice([0, 0, 1, 2])):
        e = dict(path=f"spam/lib/libin{i}.so", soname=f"libin{i}.so", needed=stable(r, w), runpath=None)
        inl.append(e)
    for i in range(r.randint(1, 3)):
        d = r.choice(["", "spam/", "spam/sub/"])
        e = dict(path=f"{d}m{i}.cpython-313-{w.arch}-linux-android.so", soname=None, needed=stable(r, w), runpath=None,
                 init=f"PyInit_m{i}")
        if r.random() < 0.5:
            e["needed"].append(r.choice(PY))
        rp = []
        for y in inl:
            if r.random() < 0.5:
                e["needed"].append(y["soname"])
                rp.append("$ORIGIN/" + posixpath.relpath("spam/lib", d or "."))
        if r.random() < 0.15:
            rp += [r.choice(["/data/build/lib", "$ORIGIN/../../../..", "$ORIGIN/nowhere"])]
        if rp:
            e["runpath"] = ":".join(dict.fromkeys(rp))
        w.elfs.append(e)
    w.elfs += inl
    for e in w.elfs:
        for x in w.ext:
            if r.random() < 0.4:
                e["needed"].append(x["name"])
        if r.random() < 0.05:
            nm = r.choice(["libnowhere.so", "libgcc_s.so.1", "libm.so.6", "libstdc++.so.6"])
            if all(x["name"] != nm for x in w.ext):
                e["needed"].append(nm)
                w.missing.add(nm)
        r.shuffle(e["needed"])
        e["needed"] = list(dict.fromkeys(e["needed"]))
    return w


def stable(r, w):
    out = ["libc.so"] if r.random() < 0.9 else []
    for _ in range(r.choice([0, 1, 2])):
        out.append(r.choice(list(STABLE)))
    return list(dict.fromkeys(out))


def elf(w, e, i):
    vn = []
    if "libc.so" in e["needed"]:
        vn = [("libc.so", ["LIBC", "LIBC_N"][: 1 + i % 2])]
    kw = {}
    if e.get("init"):
        kw = dict(exports=[(e["init"], 0)])
    return elfgen.make_elf(arch=w.arch, soname=e.get("soname", e.get("name")), needed=e["needed"],
                           runpath=None if e.get("rp") else e.get("runpath"), rpath=e.get("runpath") if e.get("rp") else None,
                           verneed=vn, payload=(e.get("path") or e["name"]).encode() + bytes([i]), **kw)


def build(ctx, w):
    r = ctx.rng
    b = W()
    b.root = ctx.root
    b.out = ctx.root / "out"
    ind = ctx.root / "in"
    ind.mkdir()
    b.elf = {e["path"]: elf(w, e, i) for i, e in enumerate(w.elfs)}
    mem = [(p, d, 0o755) for p, d in b.elf.items()] + [
        (f"{w.name}/__init__.py", b"", 0o644),
        (f"{w.di}/METADATA", f"Metadata-Version: 2.1\nName: {w.name}\nVersion: 0.1.0\n".encode(), 0o644),
        (f"{w.di}/WHEEL", f"Wheel-Version: 1.0\nGenerator: q\nRoot-Is-Purelib: false\nTag: cp313-cp313-{w.plat}\n\n".encode(),
         0o644)]
    b.wheel = ind / w.fn
    scen.write_wheel(b.wheel, mem, w.di)
    # external libraries: --ldpaths directories and AUDITWHEEL_LD_LIBRARY_PATH ones
    b.opt, b.envd, b.host = (ctx.root / x for x in ("sysroot", "ndk", "host"))
    other = "aarch64" if w.arch == "x86_64" else "x86_64"
    b.ext = {}
    for d in (b.opt, b.envd, b.host):
        d.mkdir()
    for i, x in enumerate(w.ext):
        data = elf(w, x, 100 + i)
        k = r.choice(["opt", "opt", "env", "both", "wrong-first"])
        if k in ("opt",):
            (b.opt / x["name"]).write_bytes(data)
        if k == "env":
            (b.envd / x["name"]).write_bytes(data)
        if k == "both":                       # the environment is searched first
            (b.envd / x["name"]).write_bytes(data)
            (b.opt / x["name"]).write_bytes(elf(w, x, 150 + i))
        if k == "wrong-first":
            (b.envd / x["name"]).write_bytes(elfgen.make_elf(arch=other, soname=x["name"], needed=[], payload=b"wrong"))
            (b.opt / x["name"]).write_bytes(data)
        b.ext[x["name"]] = data
        (b.host / x["name"]).write_bytes(elfgen.make_elf(arch=w.arch, soname=x["name"], needed=[], payload=b"host"))
    for n in w.missing:                       # only the build machine has it
        (b.host / n).write_bytes(elfgen.make_elf(arch=w.arch, soname=n, needed=[], payload=b"host"))
    b.stub = r.random() < 0.4
    if b.stub:                                # the NDK's own copies of the system libraries
        for n in STABLE:
            (b.opt / n).write_bytes(elfgen.make_elf(arch=w.arch, soname=n, needed=["libc.so"] if n != "libc.so" else [],
                                                    payload=b"stub " + n.encode()))
    b.env = {"LD_LIBRARY_PATH": str(b.host), "SOURCE_DATE_EPOCH": "1600000000",
             "AUDITWHEEL_LD_LIBRARY_PATH": str(b.envd)}
    b.arg = ["--ldpaths", str(b.opt)]
    if not any(b.opt.iterdir()) and r.random() < 0.5:
        b.arg = []
    return b


def plan(w, b, exclude=()):
    if w.level < 21:
        return dict(ok=False, why="level", grafts=[], open=set())
    base = max(lv for lv in (21, 24, 26, 27) if lv <= w.level)
    white = {n for n, lv in STABLE.items() if lv <= base}
    inw = {e["soname"]: e for e in w.elfs if e.get("soname")}
    grafts, missing, per, names = set(), set(), {}, set()
    for e in w.elfs:
        todo, seen = list(e["needed"]), set()
        mine = set()
        while todo:
            n = todo.pop()
            if n in seen or n in white or n.startswith("libpython") or any(fnmatch.fnmatch(n, x) for x in exclude):
                continue
            seen.add(n)
            if n in inw and located(w, e, n):
                todo += inw[n]["needed"]
            elif n in b.ext:
                grafts.add(n)
                mine.add(n)
                todo += next(x["needed"] for x in w.ext if x["name"] == n)
            elif b.stub and n in STABLE:      # newer than the wheel's level: like any other library
                grafts.add(n)
                mine.add(n)
                if n != "libc.so":
                    todo.append("libc.so")
            else:
                missing.add(n)
        per[e["path"]] = mine
        names |= mine
    ok = not missing and not (grafts and w.level < 24)
    return dict(ok=ok, why="missing" if missing else "api" if grafts and w.level < 24 else None, grafts=sorted(grafts),
                missing=sorted(missing), per=per, white=white)


def located(w, e, n):
    here = posixpath.dirname(e["path"])
    for d in (e.get("runpath") or "").split(":"):
        if d.startswith("$ORIGIN"):
            t = posixpath.normpath(posixpath.join("/W", here, "." + d[7:]))
            if t == "/W/spam/lib":
                return True
    return False


def case(ctx):
    r = ctx.rng
    w = generate(ctx)
    # in-wheel libraries an ELF cannot reach by its own search path are not part of this check
    for e in w.elfs:
        e["rp"] = r.random() < 0.1
        e["needed"] = [n for n in e["needed"] if not n.startswith("libin") or located(w, e, n)]
    b = build(ctx, w)
    excl = []
    if w.ext and r.random() < 0.15:
        excl = [r.choice(w.ext)["name"]]
    p = plan(w, b, excl)
    extra = [a for x in excl for a in ("--exclude", x)]
    if r.random() < 0.2:
        extra.append("--strip" if r.random() < 0.3 and w.arch == "x86_64" else "--only-plat")
    det = {"plat": w.plat, "elfs": w.elfs, "ext": w.ext, "exclude": excl, "plan": {k: str(v) for k, v in p.items()},
           "stub": b.stub}
    ctx.seen(w.level, w.abi, p["why"], len(p["grafts"]), len(w.elfs), bool(excl))
    ctx.tmp.mkdir(exist_ok=True)
    res = run(ctx, b, ["repair", *b.arg, *extra, "-w", str(b.out), str(b.wheel)])
    if res is None:
        return
    if ctx.idx < 4:
        ctx.sample = {k: det[k] for k in ("plat", "plan", "ext")}
    det["run"] = res.brief()
    outs = sorted(b.out.iterdir()) if b.out.is_dir() else []
    if not excl and p["why"] != "level":
        show(ctx, w, b, p, det)
    if not p["ok"]:
        ctx.count[{"api": "low_api_refused", "missing": "unlocatable", "level": "levels_refused"}[p["why"]]] += 1
        ctx.check(not res.ok and not outs, f"not refused although {p['why']}", "not-refused", det)
        return
    if not ctx.check(res.ok and [o.name for o in outs] == [w.fn], f"outputs {[o.name for o in outs]}, exit {res.rc}",
                     "repair-fails", det):
        return
    ctx.count["outputs"] += 1
    ctx.count[f"level{w.level}"] += 1
    ctx.count["levels"] = len([k for k in ctx.count if k.startswith("level") and k[5:].isdigit()])
    wh = common.read_output(ctx, outs[0])
    if wh is not None:
        judge(ctx, w, b, p, wh, det, "--strip" in extra)


def run(ctx, b, argv):
    res = runner.run_cli(argv, cwd=ctx.root, tmpdir=ctx.tmp, env=b.env)
    ctx.count["auditwheel_runs"] += 1
    ctx.count["events_observed"] += len(res.events)
    if res.timeout:
        ctx.inconclusive.append("watchdog")
        return None
    return res


def show(ctx, w, b, p, det):
    res = run(ctx, b, ["show", "--json", *b.arg, str(b.wheel)])
    if res is None:
        return
    ctx.count["shown"] += 1
    d = dict(det, show=res.out[-1500:], err=res.err[-500:])
    if not ctx.check(res.ok, "show fails", "show", d):
        return
    j = json.loads(res.out)
    ext = {k: v for k, v in j["external_libs"].items()}
    exp = set(p["grafts"]) | set(p["missing"])
    ctx.check(set(ext) == exp, f"show lists {sorted(ext)}, expected {sorted(exp)}", "show-libs", d)
    ctx.check(all((ext[n] is None) == (n in p["missing"]) for n in set(ext) & exp), "located/not located",
              "show-located", d)
    ctx.check(not any(str(v).startswith((str(b.host), "/lib", "/usr")) for v in ext.values()),
              "a library of the build machine", "show-host", d)
    ctx.check(j["overall_tag"] == (w.plat if not exp else f"linux_{w.arch}"), f"show says {j['overall_tag']}",
              "show-tag", d)


def judge(ctx, w, b, p, wh, det, strip):
    src = Wheel(b.wheel)
    ctx.check(wh.header_all("Tag") == src.header_all("Tag"), f"tags {wh.header_all('Tag')}", "tags", det)
    new = {n: wh.elf(n) for n in wh.data if n.startswith(w.libs_dir + "/")}
    ctx.count["grafts"] += len(new)
    ctx.count["nothing_grafted"] += not new
    ctx.count["stable_in_sysroot"] += b.stub
    want = sorted(n.encode() for n in p["grafts"])
    got = sorted((e.payload or b"?").removeprefix(b"stub ").rstrip(b"\0") if e and (e.payload or b"").startswith(b"stub ")
                 else (e.payload[:-1] if e and e.payload else b"?") for e in new.values())
    # payloads end in the copy's number: the copy of the first directory searched
    ctx.check(got == want, f"bundled {got}, expected {want}", "bundled", det)
    right = {elfread.read_elf(d).payload for d in b.ext.values()}
    ctx.check(all(e.payload in right or e.payload.startswith(b"stub ") for e in new.values() if e and e.payload),
              "a copy from another directory was bundled", "wrong-copy", det)
    for n, e in wh.elfs().items():
        o = elfread.read_elf(src.data[n]) if n in src.data else None
        ctx.check(e.machine == (183 if w.arch == "aarch64" else 62), f"{n}: wrong machine", "machine", det)
        if o and not p["per"].get(n):
            ctx.check(strip or wh.data[n] == src.data[n], f"{n} needs nothing external but was changed", "touched", det)
            continue
        ctx.check(e.rpath is None, f"{n} has a DT_RPATH ({e.rpath}), which Android ignores", "rpath", det)
        base = o or next(elfread.read_elf(d) for d in [*b.ext.values(), *stubs(w, b)]
                         if elfread.read_elf(d).payload == e.payload)
        py = [x for x in base.needed if x.startswith("libpython")]
        ctx.count["libpython_kept"] += bool(py)
        ctx.check([x for x in e.needed if x.startswith("libpython")] == py, f"{n}: libpython {py} became {e.needed}",
                  "libpython", det)
        ctx.check(len(e.needed) == len(base.needed), f"{n}: {base.needed} became {e.needed}", "needs", det)
        here = posixpath.dirname(n)
        dirs = [posixpath.normpath(posixpath.join("/W", here, "." + x[7:]))[3:]
                for x in (e.runpath or "").split(":") if x.startswith("$ORIGIN")]
        ctx.check(all(x.startswith("$ORIGIN") for x in (e.runpath or "$ORIGIN").split(":")),
                  f"{n}: search path {e.runpath}", "runpath", det)
        for x in e.needed:
            if x in p["white"] or x.startswith("libpython") or x in det["exclude"]:
                continue
            ctx.count["resolved"] += 1
            # bionic: only the search path of the needing object counts
            ok = any(posixpath.join(d, x) in wh.data for d in dirs)
            ctx.check(ok, f"{n}: {x} is not in {dirs}", "dangling", det)


def stubs(w, b):
    return [p.read_bytes() for p in b.opt.iterdir()] if b.stub else []
