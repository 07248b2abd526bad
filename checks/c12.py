"""C12: repairing is idempotent - a repaired wheel repairs to itself wherever and whenever that is
done - and `show` of the output confirms what was granted."""
import json
import shutil

from awv import common, elfgen, pol, runner, scen

CASES_QUICK = 160
CASES_THOROUGH = 5000
LEVEL = "exploration"
RULE = ("random worlds repaired, then the build tree is removed, decoys of every library name are put in "
        "LD_LIBRARY_PATH, and the output is shown and repaired again (same options; automatic platform); "
        "distinct by world shape")
FLOOR = {"second_repairs": 100, "with_grafts": 70, "shown": 60, "scripts": 8}


def case(ctx):
    r = ctx.rng
    w = scen.world(r, n_ext=r.choice([0, (1, 4), (1, 6)]), p_script=0.25, strip=False, p_borrowed=0.15,
                   n_in=r.choice([(0, 2), (0, 2), (2, 6)]))
    w.opts["sde"] = 1600000000
    common.with_plat(r, w, auto=0.45)
    if w.ext and r.random() < 0.15:
        w.opts["exclude"] = [r.choice(w.ext)["names"][0]]
        w.notes.add("exclude")
    w, b, m = common.build(ctx, w)
    plan = m.plan()
    if not plan["ok"]:
        ctx.count["not_repairable"] += 1
        return
    try:
        res = common.repair(ctx, b)
    except common.Skip:
        return
    wh = common.expect_ok(ctx, w, b, m, res)
    if wh is None:
        return
    ctx.seen(*w.key())
    if ctx.idx < 3:
        ctx.sample = w.brief()
    ctx.count["with_grafts"] += bool(plan["grafts"])
    ctx.count["scripts"] += any(e["role"] == "script" and e["path"] in plan["touched"] for e in w.elfs)
    # another machine: nothing of the build host is left, and the names mean other files there
    shutil.rmtree(b.extroot)
    other = ctx.root / "other"
    other.mkdir()
    for nm in {x for y in w.ext for x in [y["real"], *y["names"]]} | \
            {n.split("/")[-1] for n in wh.data if n.startswith(w.libs_dir + "/") and n not in {x[0] for x in b.members}}:
        (other / nm).write_bytes(elfgen.make_elf(arch=w.arch, soname=nm, needed=[], payload=b"decoy"))
    first = b.out / wh.filename
    env = {"SOURCE_DATE_EPOCH": "1600000000", "LD_LIBRARY_PATH": str(other)}
    prev, prevfile = wh, first
    runs = [("same", w.opts.get("plat"), w.opts.get("only_plat"))]
    if r.random() < 0.4:
        runs.append(("auto", None, None))
    det = {"world": w.brief(), "first": wh.order, "plats": wh.plats}
    for k, (how, plat, only) in enumerate(runs):
        out = ctx.root / f"again{k}"
        argv = ["repair", "-w", str(out)]
        if plat:
            argv += ["--plat", plat]
        if only:
            argv.append("--only-plat")
        for o, a in (("lib_sdir", "-L"), ("z", "-z")):
            if w.opts.get(o) is not None:
                argv += [a, str(w.opts[o])]
        if w.opts.get("no_update_tags"):
            argv.append("--no-update-tags")
        for e in w.opts.get("exclude", ()):
            argv += ["--exclude", e]
        try:
            res = common.repair(ctx, b, argv=[*argv, str(prevfile)], env=env)
        except common.Skip:
            return
        outs = sorted(out.glob("*")) if out.is_dir() else []
        d = dict(det, how=how, argv=argv, run=res.brief())
        if not m.live:
            continue
        if not ctx.check(res.ok and len(outs) == 1, f"a repaired wheel cannot be repaired again ({how})",
                         "second-fails", d):
            return
        wh2 = common.read_output(ctx, outs[0], w)
        if wh2 is None:
            return
        ctx.count["second_repairs"] += 1
        compare(ctx, w, prev, wh2, how, d)
        prev, prevfile = wh2, outs[0]
    if not w.opts.get("no_update_tags") and not w.opts.get("disable_isa"):
        show(ctx, w, m, wh, first, env, det)


def compare(ctx, w, a, c, how, det):
    vary = {f"{a.distinfo}/WHEEL", f"{a.distinfo}/RECORD"}
    ctx.check(set(a.data) == set(c.data),
              f"members differ: lost {sorted(set(a.data) - set(c.data))}, "
              f"new {sorted(set(c.data) - set(a.data))}", "members", det)
    ctx.check(sorted(a.dirs) == sorted(c.dirs), "directory entries differ", "members", det)
    for n in sorted(set(a.data) & set(c.data) - vary):
        ctx.count["members_compared"] += 1
        if not ctx.check(a.data[n] == c.data[n], f"{n} changed", "bytes", det):
            return
        ctx.check(a.mode[n] == c.mode[n], f"{n}: mode {oct(a.mode[n])} -> {oct(c.mode[n])}", "mode", det)
    ctx.check(set(c.plats) >= set(a.plats), f"platforms {a.plats} became {c.plats}", "plats-lost", det)
    if how == "same" and w.opts.get("only_plat"):
        ctx.check(set(c.plats) == set(a.plats), f"platforms {a.plats} became {c.plats}", "plats-added",
                  det)
    if a.filename == c.filename:
        ctx.count["fixpoints"] += 1
        ctx.check(a.raw == c.raw, "same members, tags and time, but the archives differ", "archive", det)


def show(ctx, w, m, wh, path, env, det):
    granted = [p for p in m.real if set(p.names()) & set(wh.plats)]
    if not granted:
        return
    res = runner.run_cli(["show", "--json", str(path)], cwd=ctx.root, tmpdir=ctx.tmp, env=env,
                         uname=common.machine_of(w))
    if res.timeout:
        ctx.inconclusive.append("watchdog")
        return
    ctx.count["auditwheel_runs"] += 1
    if not ctx.check(res.ok, "show fails on a repaired wheel", "show-fails", dict(det, run=res.brief())):
        return
    got = json.loads(res.out)
    name = got["overall_tag"]
    p = m.policy_named(name) or pol.by_tag(name, w.arch)
    want = max(granted, key=lambda p: p.prio)
    excl = bool(w.opts.get("exclude"))
    if excl or any(o[0] == "foreign" for o in [(e["role"],) for e in w.elfs]) and p is None:
        return
    ctx.count["shown"] += 1
    ctx.check(p is not None and p.prio >= want.prio,
              f"granted {want.name}, but show says {name}", "show-lower", dict(det, show=got))
