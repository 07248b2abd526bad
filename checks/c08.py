"""C08: `repair` grants exactly the tags the wheel can honestly carry: it refuses (and writes
nothing) when the requested platform is out of reach, otherwise every granted tag is true of
the bytes it wrote; --only-plat and aliases mean what they say."""
import posixpath

from awv import common, elfread, model, pol, runner, scen

CASES_QUICK = 420
CASES_THOROUGH = 12000
LEVEL = "exploration"
RULE = ("random wheels with symbol-version, black-list, UCS2, PyFPE and ISA evidence x --plat (every "
        "policy and alias, auto) x --only-plat x --disable-isa-ext-check; refusals must be refusals, "
        "grants are re-evaluated from the output's bytes; distinct by (evidence, requested, verdict)")
FLOOR = {"refused": 60, "granted": 120, "tags_reevaluated": 150, "alias_pairs": 5, "note:isa-mix": 3,
         "note:borrowed": 8, "note:borrowed-line": 8, "note:otherlibc": 15, "note:one:pyfpe": 8,
         "note:one:ucs2": 8, "note:one:isa": 8, "note:one:isa-twin": 10, "note:one:blacklist": 8, "note:one:version": 15}


def case(ctx):
    r = ctx.rng
    one = r.random() < 0.35
    pair = one and r.random() < 0.3
    line = not one and r.random() < 0.12
    w = scen.world(r, n_ext=(1, 4) if pair else r.choice([0, (1, 2), (1, 4)]), n_lib=(2, 5) if one else (1, 3), p_file=0.05, strip=False,
                   p_whitelisted=r.choice([0.1, 0.5]), p_twin=1 if pair else 0.6, p_wlname=0.1, p_borrowed=1 if line else 0.2, line=line,
                   n_in=(4, 7) if line else r.choice([(0, 2), (1, 3), (0, 2), (1, 3), (3, 7)]), arch="x86_64" if pair else r.choice(["x86_64", None, None]),
                   libc=r.choice(["glibc", "glibc", None]) if r.random() < 0.8 else None)
    if one:
        scen.verdict_one(r, w, pair=pair)
    else:
        scen.verdict_mix(r, w, r.choice([0.05, 0.15, 0.3]))
    some = [x for x in w.ext if not x["real"].startswith(("libq", "libQ"))]
    if some and not one and w.arch == "x86_64" and r.random() < 0.25:
        # something fatal and something milder: the milder must not win
        r.choice(some)["spec"]["isa"] = 2
        r.choice([e for e in w.elfs if e["role"] != "foreign"])["spec"]["isa"] = r.choice([1, 2, 4])
        w.notes.add("isa-mix")
    if line and "borrowed" in w.notes:
        w.notes.add("borrowed-line")
    disable = w.opts.get("disable_isa")
    w.opts.clear()
    if disable:
        w.opts["disable_isa"] = True
    common.with_plat(r, w, auto=0.3)
    if r.random() < 0.2:
        scen.foreign_libc(r, w)
    if r.random() < 0.15:
        _break(r, w)
    w.opts["sde"] = 1600000000
    w, b, m = common.build(ctx, w)
    plan = m.plan()
    for n in w.notes:
        ctx.count["note:" + n] += 1
    try:
        res = common.repair(ctx, b)
    except common.Skip:
        return
    req = w.opts.get("plat", "auto")
    if ctx.idx < 4:
        ctx.sample = {"wheel": w.filename, "plat": req, "notes": sorted(w.notes), "ok": plan["ok"],
                      "why": plan.get("why"), "tags": plan.get("tags")}
    ctx.seen(sorted(w.notes), req, w.opts.get("only_plat"), plan["ok"], plan.get("why", "")[:8],
             plan["requested"].name)
    det = {"world": w.brief(), "run": res.brief(), "req": req,
           "plan": {k: str(v) for k, v in plan.items()},
           "caps": {k: v.name for k, v in m.caps().items()},
           "syms": {e["path"]: e["spec"].get("syms") for e in w.elfs if e["spec"].get("syms")}}
    if not plan["ok"]:
        ctx.count["refused"] += 1
        ctx.count["refused:" + plan["why"].split(":")[0]] += 1
        ctx.check(not res.ok, f"wheel labelled {[p.name for p in common.outputs(b)]} despite "
                  f"{plan['why']}", "not-refused", det)
        ctx.check(res.err.strip() or res.excmsg, "refused without any message", "silent-refusal", det)
        return
    wh = common.expect_ok(ctx, w, b, m, res)
    if wh is None:
        return
    ctx.count["granted"] += 1
    got = set(wh.plats) - (set(w.plats) - {f"linux_{w.arch}"})
    ctx.check(got == set(plan["tags"]), f"granted {sorted(got)}, expected {plan['tags']}", "granted",
              det)
    if w.opts.get("only_plat"):
        rq = m.requested()
        if rq is not None:
            ctx.check(got == set(rq.names()), f"--only-plat granted {sorted(got)}", "only-plat", det)
    reevaluate(ctx, m, w, b, wh, sorted(got), det)
    # the other spelling of the same platform
    rq = m.requested()
    if rq is not None and rq.aliases:
        other = [n for n in rq.names() if n != w.opts["plat"]][0]
        ctx.count["alias_pairs"] += 1
        w.opts["plat"] = other
        env, argv = scen.invocation(w, b)
        out2 = b.root / "out2"
        argv[argv.index("-w") + 1] = str(out2)
        try:
            r2 = common.repair(ctx, b, argv=argv, env=env)
        except common.Skip:
            return
        got2 = sorted(out2.glob("*")) if out2.is_dir() else []
        if ctx.check(r2.ok and len(got2) == 1, f"--plat {other} fails where {req} works", "alias", det):
            ctx.check(got2[0].name == wh.filename and got2[0].read_bytes() == wh.raw,
                      f"--plat {req} and --plat {other} differ: {wh.filename} / {got2[0].name}",
                      "alias", det)


def _break(r, w):
    """a dependency nobody can locate: a repair must refuse"""
    objs = [e for e in w.elfs if e["role"] in ("ext", "lib")] + w.ext
    if objs:
        o = r.choice(objs)
        o["spec"]["needed"] = [*o["spec"]["needed"], "libqmissing.so.7"]
        w.notes.add("missing")


def reevaluate(ctx, m, w, b, wh, tags, det):
    elfs = {n: e for n, e in wh.elfs().items()}
    ours = {n: e for n, e in elfs.items() if (e.machine, e.bits, e.le) == elf_machine(w)
            and not ((w.elf_at(n) or {}).get("role") == "foreign")}
    names = {posixpath.basename(n) for n in ours}
    needed_by = {x for e in ours.values() for x in e.needed}
    for t in tags:
        p = pol.by_tag(t, w.arch)
        if not ctx.check(p is not None, f"granted tag {t} is no policy", "unknown-tag", det):
            continue
        ctx.count["tags_reevaluated"] += 1
        for n, e in ours.items():
            vers = {v for lib, vs in e.verneed.items() for v in vs
                    if not (lib.startswith("ld-linux") or lib in ("ld64.so.1", "ld64.so.2"))}
            bad = p.sym_bad(vers)
            ctx.check(not bad, f"{n} needs {bad}, beyond {t}", "output-versions", det)
            top = posixpath.basename(n) not in needed_by
            und = {s[0] for s in e.symbols if not s[3] and s[1] != 2}
            src = w.elf_at(n)
            if top or (src and src["role"] in ("ext", "ext2")):
                hit = {s for lib, syms in p.black.items() if lib in e.needed
                       for s in syms & (und | {"*"})}
                ctx.check(not hit, f"{n} uses {sorted(hit)}, black-listed by {t}", "output-blacklist",
                          det)
            if w.arch == "x86_64" and not w.opts.get("disable_isa") and e.isa and \
                    (top or (n.startswith(w.libs_dir + "/") and src is None)):
                ctx.check(not (e.isa & 0b1110), f"{n} needs ISA level {e.isa:#x} under {t}",
                          "output-isa", det)
            for x in e.needed:
                if pol.is_loader(x) or x in p.white or x in names or m.excluded(x):
                    continue
                ctx.check(False, f"{n} still needs {x}: not in the wheel, not provided by {t}",
                          "output-needed", det)
    ctx.check(not m.ucs2() and not m.pyfpe(), "UCS2/PyFPE wheel got a tag", "output-python-abi", det)


def elf_machine(w):
    from awv.elfgen import ARCHES
    return ARCHES[w.arch][:3]
