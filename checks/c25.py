"""C25: members that cannot take part in loading (data, object files, split-off debug information, code
for other machines) change nothing for the rest of the wheel and come out as they went in."""
import json
import posixpath

from awv import common, inert, runner, scen
from awv.wheelread import Wheel

CASES_QUICK = 260
CASES_THOROUGH = 6000
LEVEL = "exploration"
RULE = ("random wheels, each shown and repaired twice - as it is and with 1-5 inert members inserted at random places "
        "of the archive and of RECORD (text/archives/ELF magic under library names, relocatable objects, files made "
        "by objcopy --only-keep-debug with bytes that mimic dynamic tags, device code, other machines); verdict "
        "documents, exit status, file name and every other member must be equal; distinct by (kinds, verdict)")
FLOOR = {"documents_compared": 200, "repaired_pairs": 120, "members_compared": 1500, "inert_carried": 250,
         "kind:obj": 60, "kind:debug": 90, "kind:device": 50, "kind:foreign": 50, "kind:plain": 80,
         "refused_pairs": 8, "bare": 20, "text_compared": 60}


def case(ctx):
    r = ctx.rng
    w = scen.world(r, n_ext=r.choice([0, (1, 3), (1, 4)]), strip=False, p_missing=0.04, p_file=0.2)
    if r.random() < 0.15:
        bare(r, w)
    elif r.random() < 0.5:
        scen.verdict_mix(r, w, r.choice([0.05, 0.2]))
    keep = {k: v for k, v in w.opts.items() if k in ("disable_isa", "lib_sdir", "exclude", "no_update_tags")}
    w.opts = {**keep, "sde": 1600000000}
    common.with_plat(r, w, auto=0.6)
    w, b, m = common.build(ctx, w)
    declared = not any(p == "any" for p in w.plats)
    taken = {posixpath.basename(x[0]) for x in b.members} | set(w.names)
    more, kinds = [], []
    live = any(e["role"] not in ("foreign", "static") for e in w.elfs)
    dirs = sorted({posixpath.dirname(x[0]) for x in b.members}
                  - {w.distinfo} - {d for d in (posixpath.dirname(x[0]) for x in b.members)
                                    if d.endswith("/scripts") or "/purelib" in d})
    dirs += [f"{w.distinfo}/licenses", f"{w.name}-{w.ver}.data/data/share", "AA_first", "zz/last"]
    for i in range(r.randint(1, 5)):
        k, n, d = inert.make(r, w, b, ctx.tmp, elf=declared and live)
        if n in taken:
            n = f"z{i}_{n}"
        taken.add(n)
        more.append((posixpath.join(r.choice(dirs), n), d, r.choice([0o644, 0o755, 0o600, None])))
        kinds.append(k)
        ctx.count["kind:" + k.split(":")[0]] += 1
        ctx.count["kind+" + k] += 1
    members = [x for x in b.members if not x[0].endswith("/")] if r.random() < 0.5 else list(b.members)
    for x in more:
        members.insert(r.randint(0, len(members)), x)
    (b.root / "in2").mkdir()
    wheel2 = b.root / "in2" / w.filename
    scen.write_wheel(wheel2, members, w.distinfo, signed=w.signed, extra_record=w.extra_record,
                     drop_record=w.unlisted, crlf=w.crlf_record)
    out2 = b.root / "out2"
    swap = {str(b.wheel): str(wheel2), str(b.out): str(out2)}
    base = ["--disable-isa-ext-check"] if w.opts.get("disable_isa") else []
    if "--ldpaths" in b.argv:
        i = b.argv.index("--ldpaths")
        base += b.argv[i:i + 2]
    base.append(str(b.wheel))

    def twice(argv):
        return (common.repair(ctx, b, argv=argv), common.repair(ctx, b, argv=[swap.get(a, a) for a in argv]))
    try:
        s1, s2 = twice(["show", "--json", *base])
        t1, t2 = twice(["show", *base]) if r.random() < 0.35 else (None, None)
        r1, r2 = twice(b.argv)
    except common.Skip:
        return
    det = {"world": w.brief(), "inert": [(k, x[0], len(x[1])) for k, x in zip(kinds, more)],
           "without": r1.brief(), "with": r2.brief(), "show": s2.brief()}
    ctx.check(s1.rc == s2.rc, "show succeeds or fails depending on members that take no part", "show-status", det)
    if s1.rc == 0 == s2.rc:
        j1, j2 = doc(s1.out), doc(s2.out)
        ctx.count["documents_compared"] += 1
        ctx.check(j1 == j2 and j1 is not None, "the verdict depends on members that take no part", "verdict",
                  {**det, "json": [s1.out[-1500:], s2.out[-1500:]]})
    if t1 is not None and t1.rc == 0 == t2.rc:
        ctx.count["text_compared"] += 1
        ctx.check(norm(t1.out) == norm(t2.out), "the text of show depends on members that take no part", "text",
                  {**det, "text": [t1.out[-1500:], t2.out[-1500:]]})
    ctx.count["bare"] += "bare" in w.notes and r1.rc == 0
    ctx.seen(tuple(sorted(kinds)), r1.rc, w.arch, w.libc)
    if not ctx.check(r1.rc == r2.rc, "repair succeeds or fails depending on members that take no part", "status", det):
        return
    o1 = sorted(p.name for p in b.out.iterdir()) if b.out.is_dir() else []
    o2 = sorted(p.name for p in out2.iterdir()) if out2.is_dir() else []
    ctx.check(o1 == o2, "the output's name depends on members that take no part", "name", {**det, "names": [o1, o2]})
    if r1.rc or len(o1) != 1 or o1 != o2:
        ctx.count["refused_pairs"] += bool(r1.rc)
        return
    a, z = Wheel(b.out / o1[0]), Wheel(out2 / o2[0])
    ctx.count["repaired_pairs"] += 1
    extra = {x[0]: x[1] for x in more}
    fa = {n for n in a.data if not n.endswith("/")}
    fz = {n for n in z.data if not n.endswith("/")}
    ctx.check(fz - fa == set(extra) and not fa - fz, "other members appear or vanish", "members",
              {**det, "diff": sorted(fa ^ fz - set(extra))[:6]})
    for n in sorted(fa & fz):
        if n == a.record_name:
            continue
        ctx.count["members_compared"] += 1
        ctx.check(a.data[n] == z.data[n], f"{n} depends on members that take no part", "content", det)
    for n, d in extra.items():
        if n in fz:
            ctx.count["inert_carried"] += 1
            ctx.check(z.data[n] == d, f"{n}, which takes no part in loading, was altered", "altered", det)
    ra, rz = ({x[0]: x[1:] for x in y.record_rows()} for y in (a, z))
    ctx.check({k: v for k, v in rz.items() if k not in extra} == ra and set(extra) <= set(rz),
              "RECORD rows of other members differ", "record", det)
    if ctx.idx < 4:
        ctx.sample = {"wheel": w.filename, "inert": det["inert"], "output": o1}


def bare(r, w):
    """only libraries and programs, none of which shows a C library"""
    w.ext.clear(), w.names.clear(), w.decoys.clear()
    w.elfs = [e for e in w.elfs if e["role"] == "foreign"][:1]
    for k in range(r.randint(1, 2)):
        prog = r.random() < 0.4
        w.elfs.append(dict(path=f"qpkg/{'prog' if prog else 'libbare'}{k}{'' if prog else '.so'}", role="inlib", mode=0o755,
                           id=900 + k, mod=None, spec=dict(arch=w.arch, static=prog, soname=None, needed=[],
                                                           payload=b"bare%d" % k, exports=[(f"f{k}", k)])))
    w.notes = {"bare"}


def doc(s):
    try:
        return json.loads(s)
    except ValueError:
        return None


def norm(s):
    """sets are printed in no particular order"""
    return sorted(s.replace(",", " ").replace("{", " ").replace("}", " ").split())
