"""C22: every platform tag means what it was defined to mean, decision by decision."""
import json
import random

from awv import common, elfgen, pol, runner, scen
from awv.elfgen import MUSL_SONAME
from awv.wheelread import Wheel

CASES_QUICK = 200
CASES_THOROUGH = 200
LEVEL = "exploration"
RULE = ("enumeration: for every architecture each symbol version known to any platform (and invented neighbours), each "
        "library any platform guarantees (and ones none does), each black-listed symbol, each platform with its "
        "aliases, for both libcs - one wheel each, shown or repaired, against the pinned definition of the "
        "platforms; the thorough tier adds pairs of requirements; distinct = requirements decided")
FLOOR = {"sym": 900, "lib": 200, "black": 60, "tags": 80, "musl": 30, "plat_names": 15}
LIBOF = {"GLIBC": "libc.so.6", "GLIBCXX": "libstdc++.so.6", "CXXABI": "libstdc++.so.6", "GCC": "libgcc_s.so.1",
         "ZLIB": "libz.so.1", "LIBATOMIC": "libatomic.so.1"}
INVENTED = {"GLIBC": ["2.42", "2.99", "2.100", "3.0", "2.17.1", "2.2.5.1", "2", "PRIVATE", "2.041"],
            "GLIBCXX": ["3.4.99", "4.0", "3.4.8.1", "3.5"], "CXXABI": ["1.4", "2.0", "1.3.99"],
            "GCC": ["99.0.0", "4.2.1"], "ZLIB": ["9.9"], "LIBATOMIC": ["9.0"]}
NOLIBS = ["libcrypt.so.1", "libssl.so.3", "libncursesw.so.5", "libgomp.so.1", "libgfortran.so.5", "libc.so", "libstdc++.so.5",
          "libm.so.5", "libcc.so.6", "libz.so", "libz.so.2", "libresolv.so", "libGLX.so.0", "libX11.so", "libpanelw.so.5",
          "libc.so.6.1", "xlibc.so.6", "libnss_dns.so.2"]


def items(tier):
    out = []
    for arch in pol.glibc_arches():
        ps = [p for p in pol.policies("glibc", arch) if p.prio]
        vers = {(k, v) for p in ps for k, vs in p.syms.items() for v in vs}
        vers |= {(k, v) for k, vs in INVENTED.items() for v in vs}
        out += [("sym", arch, k, v) for k, v in sorted(vers) if any(k in p.syms for p in ps)]
        libs = sorted({x for p in ps for x in p.white})
        out += [("lib", arch, x, None) for x in [*libs, *NOLIBS, "libmvec.so.1"]]
        if arch in ("x86_64", "s390x", "aarch64"):
            bl = sorted({(k, s) for p in ps for k, ss in p.black.items() for s in ss})
            if arch != "x86_64":
                bl = bl[::5]
            out += [("black", arch, k, s) for k, s in bl]
            out += [("black", arch, k, s + x) for k, s in bl[::7] for x in ("_", "2")]
        out += [("tags", arch, p.base, None) for p in ps]
    for arch in pol.musl_arches():
        out += [("musl", arch, x, None) for x in [None, "libz.so.1", "libc.so", "libssl.so.3", "libstdc++.so.6"]]
    out += [("help", "x86_64", None, None)]
    random.Random(7).shuffle(out)
    return out


_items = {}


def case(ctx):
    tier = ctx.tier if hasattr(ctx, "tier") else "quick"
    if tier not in _items:
        _items[tier] = items(tier)
    ctx.tmp.mkdir(exist_ok=True)
    todo = _items[tier]
    for k, it in enumerate(todo):
        if k % CASES_QUICK == ctx.idx % CASES_QUICK:
            one(ctx, k, *it)
    if tier == "thorough":
        r = ctx.rng
        for k in range(25):
            arch = r.choice(pol.glibc_arches())
            pairs(ctx, 100000 + k, arch)


def wheel(ctx, k, arch, needed, verneed=(), syms=(), libc="glibc", abi="cp312", plat=None):
    lib = "libc.so.6" if libc == "glibc" else MUSL_SONAME[arch]
    need = list(dict.fromkeys([*needed, lib]))
    data = elfgen.make_elf(arch=arch, soname=None, needed=need, verneed=verneed, syms=syms, payload=b"p",
                           exports=[("PyInit__e", 0)])
    d = ctx.root / f"i{k}"
    d.mkdir()
    plat = plat or f"linux_{arch}"
    p = d / f"pkgq-1.0-cp312-cp312-{plat}.whl"
    scen.write_wheel(p, [("pkgq/_e.so", data, 0o755), ("pkgq-1.0.dist-info/METADATA", b"Name: pkgq\nVersion: 1.0\n\n", 0o644),
                         ("pkgq-1.0.dist-info/WHEEL",
                          f"Wheel-Version: 1.0\nRoot-Is-Purelib: false\nTag: cp312-cp312-{plat}\n\n".encode(), 0o644)],
                     "pkgq-1.0.dist-info")
    return d, p


def cli(ctx, argv, cwd):
    res = runner.run_cli(argv, cwd=cwd, tmpdir=ctx.tmp)
    ctx.count["auditwheel_runs"] += 1
    ctx.count["events_observed"] += len(res.events)
    return res


def show(ctx, d, p, what):
    res = cli(ctx, ["show", "--json", "--ldpaths", "", str(p)], d)
    if res.timeout:
        ctx.inconclusive.append("watchdog")
        return None
    det = {"what": what, "out": res.out[-1500:], "err": res.err[-600:]}
    if not ctx.check(res.ok, f"show fails for {what}", "show", det):
        return None
    return json.loads(res.out)


def best(ps, f):
    return max((p for p in ps if not p.prio or f(p)), key=lambda p: p.prio)


def one(ctx, k, kind, arch, a, b):
    ps = pol.policies("glibc", arch)
    what = (kind, arch, a, b)
    ctx.seen(*what)
    ctx.count[kind] += 1
    det = {"what": what}
    if kind == "sym":
        lib = LIBOF[a]
        sym = f"{a}_{b}"
        d, p = wheel(ctx, k, arch, [lib], [(lib, [sym])])
        j = show(ctx, d, p, what)
        if j is None:
            return
        s = best(ps, lambda q: a not in q.syms or b in q.syms[a])
        o = best(ps, lambda q: (a not in q.syms or b in q.syms[a]) and lib in q.white)
        ctx.check(j["sym_tag"] == s.name, f"{sym} on {arch}: {j['sym_tag']}, it is first in {s.name}", "symbol", det)
        ctx.check(j["overall_tag"] == o.name, f"{sym} on {arch}: {j['overall_tag']}, expected {o.name}", "symbol-overall",
                  det)
        ctx.check(j["versioned_symbols"] == {lib: [sym]}, f"reported {j['versioned_symbols']}", "reported", det)
    elif kind == "lib":
        d, p = wheel(ctx, k, arch, [a])
        j = show(ctx, d, p, what)
        if j is None:
            return
        o = best(ps, lambda q: a in q.white)
        ctx.check(j["overall_tag"] == o.name, f"{a} on {arch}: {j['overall_tag']}, guaranteed from {o.name}", "library", det)
        up = {q.name for q in ps if q.prio > o.prio}
        got = {n for n, v in j["policy_upgrades"].items() if v.get("libs_to_eliminate") == [a]}
        ctx.check(got == up, f"{a}: to eliminate for {sorted(got)}, expected {sorted(up)}", "upgrades", det)
    elif kind == "black":
        d, p = wheel(ctx, k, arch, [a], syms=[(b, "glob", "func", False)])
        j = show(ctx, d, p, what)
        if j is None:
            return
        o = best(ps, lambda q: b not in q.black.get(a, ()) and a in q.white)
        ctx.check(j["overall_tag"] == o.name, f"{b} of {a} on {arch}: {j['overall_tag']}, expected {o.name}", "black", det)
    elif kind == "tags":
        q = next(x for x in ps if x.base == a)
        m = tuple(int(x) for x in a.split("_")[1:])
        gl = [v for v in q.syms["GLIBC"] if v[:1].isdigit()]
        lower = [x for x in ps if x.prio > q.prio]
        only = [v for v in gl if not any(v in x.syms["GLIBC"] for x in lower)]
        # PEP 600: manylinux_x_y promises glibc x.y, and no symbol of a later one
        # (CentOS 7 for aarch64 had one later version)
        late = [v for v in gl if tuple(map(int, v.split("."))) > m and (arch, v) != ("aarch64", "2.18")]
        ctx.check(not late, f"{a} allows {late}", "pinned", det)
        if not only:
            return
        v = max(only, key=lambda s: tuple(map(int, s.split("."))))
        d, p = wheel(ctx, k, arch, [], [("libc.so.6", [f"GLIBC_{v}"])])
        res = cli(ctx, ["repair", "-w", "out", str(p)], d)
        outs = sorted((d / "out").iterdir()) if (d / "out").is_dir() else []
        if not ctx.check(res.ok and len(outs) == 1, f"not repaired for {a}_{arch}", "repair", dict(det, run=res.brief())):
            return
        wh = Wheel(outs[0])
        ctx.check(wh.plats == sorted(q.names()), f"granted {wh.plats}, expected {sorted(q.names())}", "tags", det)
        ctx.check(sorted(t.split("-")[-1] for t in wh.header_all("Tag")) == sorted(q.names()),
                  f"WHEEL says {wh.header_all('Tag')}", "tags", det)
    elif kind == "musl":
        mp = pol.policies("musl", arch)
        d, p = wheel(ctx, k, arch, [a] if a else [], libc="musl")
        j = show(ctx, d, p, what)
        if j is None:
            return
        o = best(mp, lambda q: not a or a in q.white)
        ctx.check(j["overall_tag"] == o.name, f"{a} on musl {arch}: {j['overall_tag']}, expected {o.name}", "musl", det)
    elif kind == "help":
        res = cli(ctx, ["repair", "--help"], ctx.root)
        lines = [ln for ln in res.out.splitlines() if ln.startswith("- ")]
        for q in ps:
            ctx.count["plat_names"] += 1
            al = f" (aliased by {', '.join(q.aliases)})" if q.aliases else ""
            ctx.check(f"- {q.name}{al}" in lines, f"help does not offer {q.name}{al}: {lines}", "help", det)
        ctx.check(len(lines) == len(ps), f"help offers {lines}", "help", det)


def pairs(ctx, k, arch):
    r = ctx.rng
    ps = pol.policies("glibc", arch)
    vers = sorted({(x, v) for p in ps for x, vs in p.syms.items() for v in vs})
    pick = r.sample(vers, k=min(len(vers), r.randint(2, 6)))
    libs = sorted({LIBOF[x] for x, _ in pick})
    vn = [(lib, [f"{x}_{v}" for x, v in pick if LIBOF[x] == lib]) for lib in libs]
    d, p = wheel(ctx, k, arch, libs, vn)
    j = show(ctx, d, p, (arch, vn))
    if j is None:
        return
    ctx.count["pairs"] += 1
    ctx.seen(arch, pick)
    o = best(ps, lambda q: q.sym_ok([f"{x}_{v}" for x, v in pick]) and set(libs) <= q.white)
    ctx.check(j["overall_tag"] == o.name, f"{vn} on {arch}: {j['overall_tag']}, expected {o.name}", "pairs",
              {"what": (arch, vn)})
