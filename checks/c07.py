"""C07: `show`'s verdict is exactly the best policy the wheel satisfies (soundness and
precision), and names exactly the evidence that stops it from getting better ones."""
import json

from awv import common, model, pol, scen

CASES_QUICK = 500
CASES_THOROUGH = 15000
LEVEL = "exploration"
RULE = ("random wheels with symbol versions of every policy (and unknown ones), black-listed, UCS2 and "
        "PyFPE symbols (strong, weak, defined, look-alikes), ISA notes, external closures, all "
        "architectures and both libcs; the reported verdict is compared with one recomputed from the "
        "world description; distinct by (evidence kinds, verdicts, architecture)")
FLOOR = {"verdicts": 400, "capped": 150, "sectionless": 1}


def sectionless(ctx):
    """the dynamic loader needs no section headers (strip --strip-section-headers): the verdict must be that of
    the same file with them.  A known finding: symbol versions and symbols are read by section."""
    r = ctx.rng
    got = {}
    for k in ("with", "without"):
        w = scen.World()
        w.plats = [f"linux_{w.arch}"]
        w.locate = "none"
        w.elfs.append(dict(path="qpkg/_s.so", role="ext", mode=0o755, id=0, mod="_s", spec=dict(
            arch=w.arch, needed=["libc.so.6"], verneed=[("libc.so.6", ["GLIBC_2.2.5", "GLIBC_2.34"])],
            payload=b"s", exports=[("PyInit__s", 0)], strip_headers=k == "without")))
        root = ctx.root / k
        root.mkdir()
        b = scen.materialize(w, root, r)
        try:
            res = common.repair(ctx, b, argv=["show", "--json", str(b.wheel)])
        except common.Skip:
            return
        try:
            got[k] = json.loads(res.out)["sym_tag"]
        except ValueError:
            got[k] = res.brief()
    ctx.count["sectionless"] += 1
    ctx.check("2_34" in str(got["with"]), f"verdict {got['with']}", "sym", got)
    ctx.check(got["with"] == got["without"], f"verdict {got['without']} without section headers, {got['with']} with",
              "no-section-headers", got)


def case(ctx):
    if ctx.idx == 7:
        sectionless(ctx)
        return
    r = ctx.rng
    one = r.random() < 0.35
    line = not one and r.random() < 0.12
    w = scen.world(r, n_ext=r.choice([0, 0, 0, (1, 4)]), n_lib=(2, 5) if one else (1, 3), p_file=0.05, strip=False,
                   p_whitelisted=r.choice([0.1, 0.6]), p_libpython=0.03, p_twin=0.6, p_wlname=0.1, p_borrowed=1 if line else 0.2, line=line,
                   n_in=(4, 7) if line else r.choice([(0, 2), (1, 3), (0, 2), (1, 3), (3, 7)]))
    if one:
        scen.verdict_one(r, w)
    else:
        scen.verdict_mix(r, w, r.choice([0.08, 0.15, 0.4]))
    if line and "borrowed" in w.notes:
        w.notes.add("borrowed-line")
    disable = w.opts.get("disable_isa")
    w.opts.clear()
    if disable:
        w.opts["disable_isa"] = True
    w, b, m = common.build(ctx, w)
    argv = ["show", "--json"] + (["--disable-isa-ext-check"] if disable else [])
    if "--ldpaths" in b.argv:
        i = b.argv.index("--ldpaths")
        argv += b.argv[i:i + 2]
    try:
        res = common.repair(ctx, b, argv=[*argv, str(b.wheel)])
    except common.Skip:
        return
    det = {"world": w.brief(), "run": res.brief(), "out": res.out[-1500:],
           "syms": {e["path"]: e["spec"].get("syms") for e in w.elfs if e["spec"].get("syms")}}
    if not ctx.check(res.ok, "show failed on a binary wheel", "show-fails", det):
        return
    try:
        j = json.loads(res.out)
    except ValueError:
        ctx.check(False, "show --json did not print JSON", "json", det)
        return
    c = m.caps()
    over = m.show_overall()
    if ctx.idx < 4:
        ctx.sample = {"wheel": w.filename, "overall": over.name, "notes": sorted(w.notes),
                      "caps": {k: v.name for k, v in c.items()}, "ref": m.ref_best().name}
    ctx.count["verdicts"] += 1
    ctx.count["overall:" + over.base] += 1
    det["caps"] = {k: v.name for k, v in c.items()}
    det["ref"] = m.ref_best().name
    for k, v in c.items():
        if v is not m.real[-1]:
            ctx.count["capped:" + k] += 1
            ctx.count["capped"] += 1
    ctx.seen(sorted(w.notes), over.name, {k: v.name for k, v in c.items()})
    ctx.check(j["overall_tag"] == over.name, f"overall tag {j['overall_tag']}, expected {over.name}",
              "overall", det)
    ctx.check(j["sym_tag"] == c["sym"].name, f"sym tag {j['sym_tag']}, expected {c['sym'].name}",
              "sym", det)
    ctx.check(j["ucs2"] == m.ucs2(), f"ucs2 {j['ucs2']}", "ucs2", det)
    ctx.check(j["pyfpe"] == m.pyfpe(), f"pyfpe {j['pyfpe']}", "pyfpe", det)
    ctx.check(j["unsupported_isa"] == (c["isa"].prio == 0), f"unsupported_isa {j['unsupported_isa']}",
              "isa", det)
    # the symbol versions listed are those of the wheel plus what `sym_tag` would graft
    want = {k: sorted(v) for k, v in m.versions(c["sym"]).items()}
    if c["sym"].prio:
        ctx.check(j["versioned_symbols"] == want,
                  f"versioned_symbols {j['versioned_symbols']} != {want}", "versions", det)
    # every policy above the verdict: exactly what stands in the way
    top = m.real[-1]
    libs = m.libs(top)
    ctx.check({k: v is not None for k, v in j["external_libs"].items()} ==
              {k: v is not None for k, v in libs.items()},
              f"external_libs {j['external_libs']} != {sorted(libs)}", "external-libs", det)
    for k, v in j["external_libs"].items():
        if libs.get(k) is not None:
            # one of the files the name stands for
            may = {str(b.ext_path[i]) for n, i in m.pairs(top, m.toplevel()) if n == k}
            ctx.count["twins"] += len(may) > 1
            ctx.check(v in may, f"{k} located at {v}", "located", det)
    up = j["policy_upgrades"]
    for q in m.real:
        ent = up.get(q.name, {})
        if q.prio <= over.prio:
            ctx.check(q.name not in up, f"{q.name} listed as an upgrade", "upgrade-listed", det)
            continue
        lib, bl = sorted(m.libs(q)), m.blacklist(q)
        ctx.check(ent.get("libs_to_eliminate", []) == lib,
                  f"{q.name}: libs_to_eliminate {ent.get('libs_to_eliminate')} != {lib}",
                  "upgrade-libs", det)
        want = {k: sorted(v) for k, v in bl.items()}
        ctx.check(ent.get("blacklisted_symbols", {}) == want,
                  f"{q.name}: blacklisted {ent.get('blacklisted_symbols')} != {want}",
                  "upgrade-blacklist", det)
    ctx.check(set(up) <= {q.name for q in m.pols}, "unknown policies in policy_upgrades",
              "upgrade-unknown", det)
