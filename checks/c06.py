"""C06: the output's file name, its WHEEL Tag lines and Root-Is-Purelib agree, and are exactly
the input's tags with the linux/any placeholder replaced by the granted ones."""
from itertools import product

from awv import common, pol, scen

CASES_QUICK = 260
CASES_THOROUGH = 6000
LEVEL = "exploration"
RULE = ("random wheels x input tag sets (linux, any, several platforms, already manylinux, compressed "
        "python/abi tags, build tags, several WHEEL Tag orders) x --plat/--only-plat/"
        "--no-update-tags; distinct by (tag sets, options, world level)")
FLOOR = {"tags_compared": 150, "any_inputs": 10, "multi_plat_inputs": 15, "no_update": 15, "older": 15, "other_lines_kept": 25}


EXTRA = ["X-Long: " + "quite long words " * 12 + "end", "X-Builder: bl\u00e5b\u00e6r \u20ac", "X-Url: https://e.org/" + "x" * 120,
         "X-Folded: one\n two\n\tthree", "X-Twice: a", "X-Twice: b", "X-Colon: a:b: c;d=\"e\"", "X-Empty: ",
         "X-Eight: =?utf-8?q?ab?=", "x-tag-like: cp39-none-linux_x86_64", "Tagger: me"]


def case(ctx):
    r = ctx.rng
    # old enough for more than what is asked for, which has a second name
    older = r.random() < 0.12
    kn = dict(arch="x86_64", libc="glibc", levels=["manylinux_2_5", "manylinux_2_12"]) if older else {}
    w = scen.world(r, n_ext=(0, 3), p_file=0.1, strip=False, **kn)
    a = w.arch
    pols = [p for p in pol.policies(w.libc, a) if p.prio]
    lin = f"linux_{a}"
    names = [n for p in pols for n in p.names()]
    c = r.random()
    if c < 0.45:
        w.plats = [lin]
    elif c < 0.55:
        w.plats = ["any"]
        w.purelib_flag = r.choice(["true", "false", "True"])
    elif c < 0.65:
        w.plats = [r.choice(names)]
        if r.random() < 0.6:
            w.plats = r.choice([[lin, "any"], ["any", *w.plats], [*w.plats, lin, "any"]])
    elif c < 0.85:
        w.plats = r.sample(names, min(len(names), r.randint(1, 3))) + \
            ([lin] if r.random() < 0.6 else [])
        r.shuffle(w.plats)
    else:
        w.plats = r.sample(names, min(len(names), 2))
    w.pytags = r.choice([["cp312"], ["cp39"], ["py2", "py3"], ["cp39", "cp310", "cp311"], ["pp310"],
                         ["py3"]])
    w.abi = r.choice(["cp312", "abi3", "none", "cp39.abi3", "pypy310_pp73"])
    common.with_plat(r, w)
    if older:
        w.opts["plat"] = r.choice([n for p in pols for n in p.names() if p.aliases and p.base != w.level])
        w.opts.pop("only_plat", None)
        ctx.count["older"] += 1
    if r.random() < 0.15:
        w.opts["no_update_tags"] = True
    if r.random() < 0.5:
        w.meta_lines = r.sample(EXTRA, r.randint(1, 4))
    w, b, m = common.build(ctx, w)
    if r.random() < 0.3:
        # the order of Tag lines in WHEEL is the builder's business
        _shuffle_tags(b, w, r)
    plan = m.plan()
    if not plan["ok"]:
        ctx.count["not_repairable"] += 1
        return
    try:
        res = common.repair(ctx, b)
    except common.Skip:
        return
    wh = common.expect_ok(ctx, w, b, m, res)
    if wh is None:
        return
    ctx.seen(w.plats, w.pytags, w.abi, plan["tags"], sorted(map(str, w.opts.items())))
    if ctx.idx < 4:
        ctx.sample = {"in": w.filename, "out": wh.filename, "opts": w.opts}
    det = {"in": w.filename, "out": wh.filename, "opts": w.opts, "granted": plan["tags"],
           "WHEEL": wh.text(f"{w.distinfo}/WHEEL"), "world": w.brief()}
    src = next(d for n, d, _ in b.members if n == f"{w.distinfo}/WHEEL")
    if "any" in w.plats:
        ctx.count["any_inputs"] += 1
    if len(w.plats) > 1:
        ctx.count["multi_plat_inputs"] += 1
    if w.opts.get("no_update_tags"):
        ctx.count["no_update"] += 1
        ctx.check(wh.filename == w.filename, f"--no-update-tags renamed the wheel to {wh.filename}",
                  "no-update-name", det)
        ctx.check(wh.data[f"{w.distinfo}/WHEEL"] == src, "--no-update-tags changed WHEEL",
                  "no-update-wheel", det)
        return
    py, abi, plats = wh.name_tags
    want = sorted((set(w.plats) - {lin, "any"}) | set(plan["tags"]))
    ctx.count["tags_compared"] += len(want)
    ctx.check(sorted(plats) == want and len(set(plats)) == len(plats),
              f"platform tags in the file name are {plats}, expected {want}", "name-plats", det)
    ctx.check(plats == sorted(plats), f"platform tags not sorted: {plats}", "name-order", det)
    ctx.check(wh.filename.rsplit("-", 1)[0] == w.filename.rsplit("-", 1)[0],
              "file name changed beyond its platform tags", "name-prefix", det)
    tags = wh.header_all("Tag")
    ctx.check(len(tags) == len(set(tags)), "duplicate Tag lines in WHEEL", "tag-dup", det)
    exp = {"-".join(t) for t in product(py, abi, plats)}
    ctx.check(set(tags) == exp, f"WHEEL Tag lines {sorted(tags)} do not expand the file name's tags",
              "wheel-tags", det)
    flags = wh.header_all("Root-Is-Purelib")
    if "any" in w.plats:
        ctx.check(len(flags) == 1 and flags[0].lower() == "false",
                  f"Root-Is-Purelib is {flags} in a platform wheel", "purelib", det)
    else:
        ctx.check(flags == [w.purelib_flag], f"Root-Is-Purelib changed to {flags}", "purelib", det)
    def others(d):
        keep, on = [], False
        for ln in d.decode().split("\n"):
            on = on if ln[:1] in (" ", "\t") else not ln.lower().startswith(("tag:", "root-is-purelib:"))
            if on and ln:
                keep.append(ln)
        return keep
    a, c = others(src), others(wh.data[f"{w.distinfo}/WHEEL"])
    ctx.check(sorted(a) == sorted(c), f"unrelated lines of WHEEL became {[x for x in c if x not in a]}, were "
              f"{[x for x in a if x not in c]}", "other-lines", det)
    ctx.count["other_lines_kept"] += bool(getattr(w, "meta_lines", ()))
    ctx.check(wh.header_all("Build") == ([w.build] if w.build else []), "Build header", "build", det)


def _shuffle_tags(b, w, r):
    out = []
    for n, d, mo in b.members:
        if n == f"{w.distinfo}/WHEEL":
            ls = d.decode().splitlines()
            tags = [x for x in ls if x.startswith("Tag:")]
            rest = [x for x in ls if not x.startswith("Tag:") and x]
            r.shuffle(tags)
            d = ("\n".join(rest + tags) + "\n\n").encode()
        out.append((n, d, mo))
    b.members = out
    scen.write_wheel(b.wheel, b.members, w.distinfo, signed=w.signed)
