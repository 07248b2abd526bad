"""C01: a repaired wheel is self-contained - everything every entry-point ELF needs is
in the wheel, provided by every claimed platform, or excluded by the user."""
import posixpath
import shutil

from awv import common, elfgen, loadsim, model, pol, scen
from awv.wheelread import installed

CASES_QUICK = 220
CASES_THOROUGH = 6000
LEVEL = "exploration"
RULE = ("random worlds (wheel layout x architecture x libc x external-library DAG with cycles, "
        "aliases, symlink chains x location mode x RPATH/RUNPATH x options); non-trivial = the wheel "
        "was repaired and at least one library was grafted; distinct by world shape")
ASSUMPTIONS = ["glibc/musl search rules as documented in ld.so(8) for the simulated loads",
               "real loads use this host's glibc 2.39 on x86_64"]
FLOOR = {"loads_simulated": 200, "really_loaded": 60, "resolved_in_wheel": 200}


def case(ctx):
    if ctx.idx % 25 == 24:
        return platlib(ctx)
    real = ctx.idx % 3 == 0
    w, b, m = common.build(ctx, real=real, n_ext=(1, 6))
    plan = m.plan()
    if not plan["ok"]:
        ctx.count["not_repairable"] += 1
        return
    try:
        res = common.repair(ctx, b)
    except common.Skip:
        return
    wh = common.expect_ok(ctx, w, b, m, res)
    if wh is None:
        return
    ctx.sample = w.brief() if ctx.idx < 3 else None
    if plan["grafts"]:
        ctx.seen(*w.key())
    inst = installed(wh)
    tagpols = [pol.by_tag(t, w.arch) for t in plan["tags"]]
    inv = {v: k for k, v in inst.items()}
    ents = []
    for e in m.toplevel():
        if e["role"] == "static":
            continue
        p = e["path"]
        if e["role"] == "script" and p in plan["touched"]:
            cand = [n for n in wh.data if posixpath.basename(n) == posixpath.basename(p)
                    and not n.startswith(w.data + "/") and wh.elf(n) is not None]
            if not ctx.check(len(cand) == 1, f"relocated script {p} not found", "script-relocated",
                             {"world": w.brief(), "members": wh.order}):
                continue
            p = cand[0]
        if not ctx.check(p in inv, f"ELF {p} disappeared from the wheel", "elf-gone", wh.order):
            continue
        ents.append((e, inv[p]))
    for e, ip in ents:
        log, loaded = loadsim.simulate(wh, ip, w.libc)
        ctx.count["loads_simulated"] += 1
        for who, name, hit, dirs in log:
            if hit:
                ctx.count["resolved_in_wheel"] += 1
                continue
            if pol.is_loader(name) or m.excluded(name):
                continue
            ok = all(name in p.white for p in tagpols)
            ctx.check(ok, f"{who} needs {name}: not in the wheel and not provided by "
                      f"{'/'.join(p.name for p in tagpols if name not in p.white)}",
                      "unresolved", {"entry": ip, "searched": dirs, "world": w.brief(),
                                     "needed": wh.elf(inst[who]).needed,
                                     "rpath": wh.elf(inst[who]).rpath})
        # the libraries that load are the ones the original would have loaded
        x, _, _, _ = m.closure(e["spec"], plan["target"])
        want = {b.w.ext[i]["spec"]["payload"] for i in x.values()}
        got = {wh.elf(inst[p]).payload for p in loaded}
        ctx.check(want <= got, f"{ip}: dependencies missing after load: {want - got}",
                  "closure-incomplete", {"world": w.brief(), "log": log})
    if real and w.arch == "x86_64":
        root = ctx.root / "inst"
        rp = loadsim.install_tree(wh, root)
        shutil.rmtree(b.extroot)
        libs = [ip for e, ip in ents if e["role"] in ("ext", "lib")]
        got = loadsim.really_load(root, libs) if libs else {}
        for e, ip in ents:
            ctx.count["really_loaded"] += 1
            if ip in got:
                g = got[ip]
                ctx.check(g["err"] is None, f"ld.so cannot load {ip}: {g['err']}", "dlopen-fails",
                          {"world": w.brief()})
                if g["err"] is None:
                    paths = g["maps"]
            else:
                rc, tr, err = loadsim.trace_exe(rp[ip])
                missing = [n for n, p in tr.items() if p is None]
                ctx.check(rc == 0 and not missing, f"ld.so: {ip} does not find {missing} {err}",
                          "exe-unresolved", {"world": w.brief()})
                paths = [p for p in tr.values() if p]
            x, _, _, _ = m.closure(e["spec"], plan["target"])
            want = {b.w.ext[i]["spec"]["payload"] for i in x.values()}
            seen = set()
            byreal = {str(v): k for k, v in rp.items()}
            for p in paths if (ip not in got or got[ip]["err"] is None) else []:
                p = posixpath.normpath(p)
                if p in byreal:
                    el = wh.elf(inst[byreal[p]])
                    if el is not None:
                        seen.add(el.payload)
                else:
                    ctx.check("extworld" not in p, f"{ip} loaded {p} from outside", "outside", p)
            if ip not in got or got[ip]["err"] is None:
                ctx.check(want <= seen, f"{ip}: ld.so did not map {want - seen}", "not-mapped",
                          {"world": w.brief(), "paths": paths})


def platlib(ctx):
    """modules in NAME.data/platlib, which an installer moves to site-packages.  The single-module
    form of this is a known finding (the RPATH counts from where the archive has the module)."""
    r = ctx.rng
    w = scen.World()
    w.plats = [f"linux_{w.arch}"]
    depth = "/".join(["qpkg", "sub"][:r.randint(0, 2)])
    ext = ctx.root / "ext"
    ext.mkdir()
    (ext / "libplat.so.1").write_bytes(elfgen.make_elf(
        arch=w.arch, soname="libplat.so.1", needed=["libc.so.6"], payload=b"plat"))
    for k, top in enumerate(["", w.data + "/platlib/"]):
        w.elfs.append(dict(path=top + depth + ("/" if depth else "") + f"_p{k}.so", role="ext", mode=0o755,
                           id=k, mod=f"_p{k}", spec=dict(
                               arch=w.arch, needed=["libplat.so.1", "libc.so.6"], payload=b"m%d" % k,
                               exports=[(f"PyInit__p{k}", 0)])))
    root = ctx.root / "c"
    root.mkdir()
    w.locate = "none"
    b = scen.materialize(w, root, r)
    b.argv = ["repair", "-w", str(b.out), str(b.wheel)]
    b.env = {"LD_LIBRARY_PATH": str(ext)}
    try:
        res = common.repair(ctx, b)
    except common.Skip:
        return
    wh = common.expect_ok(ctx, w, b, None, res)
    if wh is None:
        return
    inst = installed(wh)
    for k in (0, 1):
        ip = f"site/{depth}/_p{k}.so".replace("//", "/")
        if not ctx.check(ip in inst, f"ELF {ip} disappeared from the wheel", "elf-gone", wh.order):
            continue
        log, loaded = loadsim.simulate(wh, ip, w.libc)
        ctx.count["platlib_loads"] += 1
        got = {wh.elf(inst[p]).payload for p in loaded}
        ctx.check(b"plat" in got, f"{ip} (from {inst[ip]}) does not find its grafted library once installed",
                  "platlib-layout" if k else "unresolved",
                  {"log": log, "rpath": wh.elf(inst[ip]).rpath, "members": wh.order})
