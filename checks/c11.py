"""C11: with SOURCE_DATE_EPOCH set, repairing the same wheel gives the same bytes whatever the
interpreter's hash seed, time zone, temporary directory, working directory, order of
directory listings or start time."""
import os

from awv import common, elfread, runner, scen

CASES_QUICK = 140
CASES_THOROUGH = 3000
LEVEL = "exploration"
RULE = ("random worlds repaired twice in fresh interpreters with different PYTHONHASHSEED, TZ, "
        "TMPDIR, cwd, output directory and order of directory listings, with a package manager answering for the grafted "
        "libraries; both archives must be byte-identical and stamped with the requested time; "
        "distinct by world shape")
FLOOR = {"pairs_compared": 90, "with_sbom": 40, "show_compared": 20, "listing_ordered": 100}
ASSUMPTIONS = ["same umask, same zlib, same patchelf/strip binaries on both sides"]


def case(ctx):
    r = ctx.rng
    w = scen.world(r, n_ext=(1, 6), n_in=(0, 3), p_file=0.15, p_script=0.2, p_large=0.03)
    sde = w.opts["sde"] = r.choice([315532800, 1000000001, 1700000000, 0, 4102444799, 315532799,
                                    1600000000, 4354819199, 4354819201, 99999999999])
    w, b, m = common.build(ctx, w)
    plan = m.plan()
    if not plan["ok"]:
        return
    path = None
    if plan["grafts"] and r.random() < 0.7:
        rows = [(b.ext_path[i].resolve(), f"lib{r.choice('abcdef')}{i}", f"{i}.0-1ubuntu{i}")
                for i in range(len(w.ext)) if r.random() < 0.9]
        d = common.fake_pm(b.root / "pm", "dpkg", rows)
        path = f"{d}:{runner.BASE_PATH}"
        if rows:
            ctx.count["with_sbom"] += 1
    outs = []
    for k in range(2):
        out = b.root / f"out{k}" / ("x" * k or "o")
        tmp = b.root / f"tmp{'t' * k * 3}"
        cwd = b.root / f"cwd{k}"
        tmp.mkdir()
        cwd.mkdir()
        env = dict(b.env, PYTHONHASHSEED=str(r.randrange(1, 1 << 31)),
                   TZ=["UTC", "America/New_York", "Asia/Tokyo"][k])
        if path:
            env["PATH"] = path
        argv = list(b.argv)
        argv[argv.index("-w") + 1] = str(out)
        res = runner.run_fresh(argv, cwd=cwd, tmpdir=tmp, env=env, uname=common.machine_of(w),
                               listing=None if ctx.idx % 3 == 0 else k == 0)
        ctx.count["auditwheel_runs"] += 1
        if res.timeout:
            ctx.inconclusive.append("watchdog")
            return
        got = sorted(out.glob("*")) if out.is_dir() else []
        if not ctx.check(res.ok and len(got) == 1, "a repairable wheel was not repaired",
                         "repair-fails", {"run": res.brief(), "world": w.brief()}):
            return
        outs.append(got[0])
        ctx.count["listing_ordered"] += ctx.idx % 3 != 0
        left = os.listdir(tmp)
        ctx.check(not left and not os.listdir(cwd), f"left behind: {left} {os.listdir(cwd)}",
                  "leftovers", w.brief())
    ctx.seen(*w.key())
    if ctx.idx < 3:
        ctx.sample = {"world": w.brief(), "out": outs[0].name}
    first = outs[0].read_bytes()
    for o in outs[1:]:
        ctx.count["pairs_compared"] += 1
        same = o.read_bytes() == first and o.name == outs[0].name
        ctx.check(same, "two repairs of the same wheel with the same SOURCE_DATE_EPOCH differ: "
                  + ("" if same else describe(outs[0], o)), "bytes-differ", {"world": w.brief()})
    wh = common.read_output(ctx, outs[0], w)
    if wh is not None:
        import time
        want = min(max(time.gmtime(sde)[:6], (1980, 1, 1, 0, 0, 0)), (2107, 12, 31, 23, 59, 59))
        want = (*want[:5], want[5] // 2 * 2)
        bad = [(i.filename, i.date_time) for i in wh.infos if tuple(i.date_time) != want]
        ctx.check(not bad, f"member time stamps {bad[:3]}, expected {want}", "timestamp", w.brief())
    # the verdict is a function of the wheel too
    if ctx.idx % 3 == 0:
        got = []
        for k in range(2):  # noqa
            argv = ["show", "--json"]
            if "--ldpaths" in b.argv:
                i = b.argv.index("--ldpaths")
                argv += b.argv[i:i + 2]
            res = runner.run_fresh([*argv, b.wheel], cwd=b.root, tmpdir=ctx.tmp,
                                   env=dict(b.env, PYTHONHASHSEED=str(r.randrange(1, 1 << 31))))
            if res.timeout:
                return
            got.append(res.out)
        ctx.count["show_compared"] += 1
        ctx.check(got[0] == got[1] and got[0], "show --json differs between two runs", "show-differs",
                  {"world": w.brief(), "out": got})


def describe(a, b):
    from awv.wheelread import Wheel
    if a.name != b.name:
        return f"names {a.name} / {b.name}"
    x, y = Wheel(a), Wheel(b)
    if x.order != y.order:
        return "member order"
    diff = [n for n in x.data if x.data[n] != y.data[n] and n != x.record_name]
    out = []
    for n in diff[:3]:
        ex, ey = x.elf(n), y.elf(n)
        if ex and ey:
            out.append(f"{n} (needed {ex.needed} / {ey.needed})")
        else:
            out.append(n)
    return f"members {out} of {len(diff)}" if diff else "archive metadata only"
