"""C24: the verdict and the repair are for the architecture and the C library the wheel is really
built for, and files for any other change nothing."""
import json
import os

from awv import common, elfgen, pol, runner, scen
from awv.wheelread import Wheel

CASES_QUICK = 1100
CASES_THOROUGH = 15000
LEVEL = "exploration"
RULE = ("wheels whose name says architecture and C library, one of them or nothing, holding modules, programs "
        "and libraries that tell their C library by one kind of evidence (needed C library or loader, program "
        "interpreter, module file name) or none, besides files for other architectures (ELF headers no tag "
        "stands for included) and C libraries; verdict family, granted family and untouched files compared "
        "with what the files were made for; distinct by (declaration, evidence kinds, foreign kinds, outcome)")
FLOOR = {"verdicts": 500, "repairs": 300, "refused": 80, "foreign_arch": 300, "foreign_libc": 60, "odd_header": 60,
         "by_libc": 150, "by_loader": 40, "by_interp": 60, "by_soabi": 60, "by_host": 15, "contradictory": 30,
         "module_tells_nothing": 30, "told_by_another": 60, "only_foreign": 40, "undeclared_arch": 60, "foreign_kept": 250}
GLIBC_PY = ["cpython-311", "cpython-312", "cpython-313t", "cpython-314d", "cpython-320"]
OTHER_PY = ["cpython-310", "cpython-39", "cpython-38d", "pypy310-pp73", "graalpy241-311-native"]
TRIPLE = {"armv7l": "arm", "i686": "i386", "ppc64le": "powerpc64le"}


def evidence(r, arch, libc, kind, spec):
    """make the file tell its C library in this way (and no other)"""
    if kind == "libc":
        spec["needed"].append("libc.so.6" if libc == "glibc" else elfgen.MUSL_SONAME[arch])
    elif kind == "loader":
        spec["needed"].append(scen.LOADER[arch] if libc == "glibc" else f"ld-musl-{arch}.so.1")
    elif kind == "interp":
        # the directory says nothing
        d = r.choice(["/lib", "/lib64", "/opt/musl-gcc/lib", "/usr/glibc-compat/lib", "/nix/ld-musl-x/lib"])
        spec["interp"] = f"{d}/" + (scen.LOADER[arch] if libc == "glibc" else f"ld-musl-{arch}.so.1")
    return spec


def module_name(r, k, arch, soabi):
    """soabi: glibc, musl, or None (a name that does not tell)"""
    t = TRIPLE.get(arch, arch)
    if soabi == "musl":
        tail = "linux-musleabihf" if arch == "armv7l" else "linux-musl"
        py = r.choice(GLIBC_PY + OTHER_PY[:2])
    elif soabi == "glibc":
        tail = "linux-gnueabihf" if arch == "armv7l" else "linux-gnu"
        py = r.choice(GLIBC_PY)
    else:
        # before Python 3.11, musl builds were named gnu as well; other Pythons follow no rule
        tail = "linux-gnueabihf" if arch == "armv7l" else "linux-gnu"
        py = r.choice(OTHER_PY)
        c = r.random()
        if c < 0.4:
            return f"_q{k}.so"
        if c < 0.6:
            return f"_q{k}.abi3.so"
    return f"_q{k}.{py}-{t}-{tail}.so"


def case(ctx):
    r = ctx.rng
    arch = r.choice(["x86_64", "x86_64", "i686", "aarch64", "armv7l", "ppc64le", "ppc64", "s390x", "riscv64",
                     "loongarch64"])
    libc = "musl" if arch in pol.musl_arches() and r.random() < 0.4 else "glibc"
    others = [a for a in elfgen.ARCHES if a != arch and a not in ("mips64", "armv5l")]
    declare = r.choice(["linux", "linux", "linux", "libc", "any", "any"])
    declared = libc if declare == "libc" else None
    plat = None
    if declare == "any":
        name_plat = "any"
    elif declare == "libc":
        name_plat = r.choice(["musllinux_1_1", "musllinux_1_2"] if libc == "musl" else ["manylinux_2_28",
                                                                                  "manylinux_2_39"]) + "_" + arch
    else:
        name_plat = "linux_" + arch
    if libc == "glibc" and arch != "i686" and r.random() < 0.2:
        plat = r.choice([n for p in pol.policies(libc, arch) if p.prio for n in p.names()])
    mem = [("qpkg/__init__.py", b"", 0o644)]
    good, kinds, refuse = [], [], None
    only_foreign = declare != "any" and r.random() < 0.08
    nothing = r.random() < 0.18
    some = r.random() < 0.35
    for k in range(r.randint(1, 3)):
        role = r.choice(["module", "module", "module", "lib", "program"])
        kind = r.choice(["libc", "libc", "loader", "interp", "soabi"])
        if nothing or some:      # of some files, or of all
            kind = "none" if nothing or r.random() < 0.5 else kind
        if role == "program" and kind == "soabi" or role == "lib" and kind in ("interp", "soabi"):
            kind = "libc"
        spec = dict(arch=arch, needed=[], payload=b"own%d" % k, exports=[(f"f{k}", k)])
        evidence(r, arch, libc, kind, spec)
        if role == "module":
            fn = module_name(r, k, arch, libc if kind == "soabi" else None)
            if kind in ("libc", "loader", "interp") and r.random() < 0.3:
                fn = module_name(r, k, arch, r.choice(["glibc", "musl"]))     # the file itself knows better
            spec["exports"] = [(f"PyInit__q{k}", k)]
        else:
            fn = r.choice([f"libq{k}.so.1", f"libq{k}.so"]) if role == "lib" else f"prog{k}"
            spec["static"] = role == "program" and kind == "none" and r.random() < 0.5
        good.append((f"qpkg/{fn}", role, kind, spec))
    told = [g for g in good if g[2] != "none"]
    mods = [g for g in good if g[1] == "module"]
    ctx.count["told_by_another"] += bool(told) and any(g[2] == "none" for g in mods)
    family = declared or (libc if told else ("glibc" if plat else None))
    if family is None:
        if mods:
            refuse = "module-tells-nothing"
        else:
            family = libc = "glibc"     # that of this machine
            kinds.append("host")
    # a file contradicting itself
    if told and libc in ("glibc", "musl") and arch in elfgen.MUSL_SONAME and r.random() < 0.07:
        g = r.choice(told)
        if g[2] in ("libc", "loader", "interp"):
            evidence(r, arch, "glibc" if libc == "musl" else "musl", r.choice(["libc", "loader"]), g[3])
            r.shuffle(g[3]["needed"])
            refuse = "contradictory"
    # no musllinux platform guarantees the loader under its own name
    musl_loader = libc == "musl" and any(n.startswith("ld-musl") for g in good for n in g[3]["needed"])
    show_refuse = refuse
    if only_foreign:
        good, mods, told = [], [], []
        refuse = show_refuse = "only-foreign"
    elif refuse == "module-tells-nothing":
        show_refuse = refuse
    elif plat and declared is None and not told:
        # only the repair is told
        show_refuse = "module-tells-nothing" if mods else None
    if plat and family and not only_foreign and family != "glibc":
        return
    ext = ctx.root / "ext"
    ext.mkdir()
    foreign = foreign_files(ctx, r, arch, libc, others, ext, only_foreign, declared or (plat and "glibc"),
                            declare == "any")
    # (path, bytes, mode): with nothing declared, the first ELF file decides
    elfs = [(p, elfgen.make_elf(**s), 0o755) for p, _r, _k, s in good]
    r.shuffle(elfs)
    fm = [(p, d, m) for p, _k, d, m in foreign]
    if declare == "any":
        body = elfs + fm
    else:
        body = mem + elfs + fm
        r.shuffle(body)
        mem = []
    name, tail = "qpkg", f"cp312-cp312-{name_plat}"
    meta = [("qpkg-1.dist-info/METADATA", b"Metadata-Version: 2.1\nName: qpkg\nVersion: 1\n", 0o644),
            ("qpkg-1.dist-info/WHEEL", f"Wheel-Version: 1.0\nGenerator: q\nRoot-Is-Purelib: false\nTag: "
             f"{tail}\n".encode(), 0o644)]
    wheel = ctx.root / "in" / f"{name}-1-{tail}.whl"
    wheel.parent.mkdir()
    members = mem + body + meta
    scen.write_wheel(wheel, members, "qpkg-1.dist-info")
    env = {"AUDITWHEEL_LD_LIBRARY_PATH": str(ext)}
    uname = None if arch in ("x86_64", "i686") else arch
    det = {"wheel": wheel.name, "plat": plat, "arch": arch, "libc": libc,
           "own": [(p, ro, k, s.get("needed"), s.get("interp")) for p, ro, k, s in good],
           "foreign": [(p, k) for p, k, _d, _m in foreign], "order": [p for p, _d, _m in members],
           "refuse": (show_refuse, refuse)}
    if ctx.idx < 3:
        ctx.sample = det
    kinds += sorted({k for _p, _r, k, _s in good})
    ctx.seen(declare, arch, libc, bool(plat), kinds, sorted({k for _p, k, _d, _m in foreign}), show_refuse, refuse)
    for k in kinds:
        ctx.count["by_" + k] += 1
    ctx.count["undeclared_arch"] += declare == "any"
    for w in (show_refuse, refuse):
        if w:
            ctx.count[w.replace("-", "_")] += 1
            break

    def go(argv, sub):
        tmp = ctx.root / sub
        tmp.mkdir()
        res = runner.run_cli(argv, cwd=ctx.root, tmpdir=tmp, env=env, uname=uname)
        ctx.count["auditwheel_runs"] += 1
        if res.timeout:
            ctx.inconclusive.append("watchdog")
            return None
        return res
    fam = {"glibc": "manylinux", "musl": "musllinux"}
    if plat and declared is None and any(k == "foreign_libc" for _p, k, _d, _m in foreign):
        show_refuse = None              # which of the two is foreign is only said to the repair
        unsaid = True
    else:
        unsaid = False
    show = go(["show", "--json", str(wheel)], "t1")
    if show is None:
        return
    if unsaid:
        pass
    elif show_refuse:
        ctx.count["refused"] += 1
        ctx.check(not show.ok, f"show gives a verdict on a wheel that is {show_refuse}", "show-not-refused",
                  {**det, "run": show.brief()})
    else:
        sf = declared or (libc if told else "glibc")
        best = max((p for p in pol.policies(sf, arch) if p.prio), key=lambda p: p.prio).name
        try:
            j = json.loads(show.out)
        except ValueError:
            j = {}
        d2 = {**det, "json": j, "run": show.brief()}
        ctx.count["verdicts"] += 1
        ctx.check(show.ok, "show fails", "show-fails", d2)
        over = f"linux_{arch}" if musl_loader else best
        ctx.check(j.get("overall_tag") == over and j.get("sym_tag") == best,
                  f"verdict {j.get('overall_tag')} / {j.get('sym_tag')}, expected {best}", "verdict", d2)
        got = set((j.get("versioned_symbols") or {}))
        ctx.check(not got, f"symbol versions {got} of files for another platform", "foreign-symbols", d2)
    out = ctx.root / "out"
    argv = ["repair", "-w", str(out), *(["--plat", plat] if plat else []), str(wheel)]
    res = go(argv, "t2")
    if res is None:
        return
    outs = sorted(out.glob("*")) if out.is_dir() else []
    det["run"] = res.brief()
    if refuse:
        ctx.check(not res.ok and not outs, f"repaired although the wheel is {refuse}", "not-refused", det)
        return
    if musl_loader:
        return
    best = max((p for p in pol.policies(family, arch) if p.prio), key=lambda p: p.prio)
    if not ctx.check(res.ok and len(outs) == 1, "not repaired", "repair-fails", det):
        return
    ctx.count["repairs"] += 1
    wh = common.read_output(ctx, outs[0])
    if wh is None:
        return
    tags = set(wh.plats)
    want = set(best.names())
    if plat:
        want |= set(pol.by_tag(plat, arch).names())
    want |= {p for p in name_plat.split(".") if not p.startswith("linux_") and p != "any"}
    ctx.check(tags == want, f"granted {sorted(tags)}, expected {sorted(want)}", "tags", det)
    before = {p: (d, m) for p, d, m in members if "dist-info" not in p}
    after = {n: d for n, d in wh.data.items() if "dist-info" not in n}
    ctx.check(set(before) == set(after), f"members {sorted(set(before) ^ set(after))} differ", "members", det)
    for p, _k, d, m in foreign:
        ctx.count["foreign_kept"] += 1
        ctx.check(after.get(p) == d, f"{p}, a file for another platform, was altered", "foreign-touched", det)


def foreign_files(ctx, r, arch, libc, others, ext, only, libc_known, first_decides):
    """files for another architecture or C library, with needs that nothing satisfies or that the
    external directory does -> [(path, kind, bytes, mode)]"""
    out = []
    for i in range(r.randint(1, 3) if only else r.choice([0, 1, 1, 2])):
        c = r.random()
        fl = r.choice(["glibc", "musl"])
        if c < 0.35:
            a, kind = r.choice(others), "foreign_arch"
        elif c < 0.65 or only:
            # mostly the same machine in another mode
            like = [o for o in elfgen.ODD if elfgen.ODD[o][0] == elfgen.ARCHES[arch][0]]
            a, kind = r.choice(like if like and r.random() < 0.6 else list(elfgen.ODD)), "odd_header"
        else:
            if not libc_known or arch not in elfgen.MUSL_SONAME:
                continue
            a, kind, fl = arch, "foreign_libc", "glibc" if libc == "musl" else "musl"
        if fl == "musl" and a not in elfgen.MUSL_SONAME:
            fl = "glibc"
        cl = "libc.so.6" if fl == "glibc" else elfgen.MUSL_SONAME[a]
        needed = r.sample([cl, "libabsent.so.9", f"libf{i}.so.1"], 3)
        s = dict(arch=a, needed=needed, payload=b"foreign%d" % i, rpath=r.choice([None, "/foreign", str(ext)]),
                 verneed=[("libc.so.6", ["GLIBC_2.99"])] if fl == "glibc" else [])
        p = r.choice([f"qpkg/_f{i}.so", f"qpkg/arch/libf{i}x.so.1", f"aaa/_f{i}.cpython-312-x86_64-linux-gnu.so",
                      f"qpkg/bin/f{i}"])
        if r.random() < 0.5:
            s["exports"] = [(f"PyInit__f{i}", 0)]
        (ext / f"libf{i}.so.1").write_bytes(elfgen.make_elf(arch=a, soname=f"libf{i}.so.1", payload=b"fdep",
                                                            needed=[cl]))
        out.append((p, kind, elfgen.make_elf(**s), 0o755))
        ctx.count[kind] += 1
    return out
