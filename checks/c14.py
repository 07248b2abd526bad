"""C14: --exclude removes exactly the libraries it names (and what only they pull in) from
consideration; libpython is never bundled and no repaired file keeps needing it."""
import fnmatch
import posixpath

from awv import common, elfread, model, scen

CASES_QUICK = 360
CASES_THOROUGH = 8000
LEVEL = "exploration"
RULE = ("random worlds x --exclude patterns (exact names, wildcards, paths, look-alikes that match nothing, "
        "unlocatable names, in-wheel and system libraries) x libpython names on own files and on external "
        "libraries; bundled set and references of every output compared with a closure model; distinct by "
        "(pattern kinds, effect, world shape)")
FLOOR = {"outputs": 150, "excluded_effective": 50, "excluded_missing": 15, "lookalike": 10, "path_pattern": 20,
         "prefix": 6, "libpython_removed": 50, "libpython_in_graft": 15, "refs_kept": 80}


def case(ctx):
    r = ctx.rng
    w = scen.world(r, n_ext=r.choice([(1, 3), (2, 6)]), p_libpython=0.3, p_ext_libpython=0.25, strip=False,
                   p_cycle=0.1)
    w.opts.pop("no_update_tags", None)
    w.opts["sde"] = 1600000000
    common.with_plat(r, w, auto=0.5)
    kinds = patterns(ctx, w)
    w, b, m = common.build(ctx, w)
    plan = m.plan()
    try:
        res = common.repair(ctx, b)
    except common.Skip:
        return
    det = {"world": w.brief(), "exclude": w.opts.get("exclude"), "kinds": kinds,
           "plan": {k: str(v) for k, v in plan.items()}, "run": res.brief()}
    bare = model.Model(w, b)
    bare.exclude = []
    bplan = bare.plan()
    effect = (plan["ok"], bplan["ok"], len(plan.get("grafts", ())) - len(bplan.get("grafts", ())))
    ctx.seen(sorted(kinds), effect, *w.key())
    if ctx.idx < 3:
        ctx.sample = {k: det[k] for k in ("exclude", "plan")}
    if not plan["ok"]:
        ctx.count["refused"] += 1
        ctx.check(not res.ok and not common.outputs(b),
                  f"not refused although {plan['why']}", "not-refused", det)
        return
    wh = common.expect_ok(ctx, w, b, m, res)
    if wh is None:
        return
    ctx.count["outputs"] += 1
    ctx.count["excluded_effective"] += not bplan["ok"] or bplan["grafts"] != plan["grafts"]
    ctx.count["excluded_missing"] += not bplan["ok"]
    for k in ("lookalike", "path_pattern", "prefix"):
        ctx.count[k] += k in kinds
    original = {x[0] for x in b.members}
    lib = {n: wh.elf(n) for n in wh.data if n.startswith(w.libs_dir + "/") and n not in original}
    got = sorted(e.payload if e else b"?" for e in lib.values())
    want = sorted(elfread.read_elf(b.ext_bytes[i]).payload for i in plan["grafts"])
    ctx.check(got == want, f"bundled {got}, expected {want}", "bundled", det)
    tags = set(wh.plats) - set(w.plats)
    ctx.check(tags == set(plan["tags"]), f"granted {sorted(tags)}, expected {plan['tags']}", "tags", det)
    names = {n for i in plan["grafts"] for n in w.ext[i]["names"]}
    for n, e in wh.elfs().items():
        src, touched = source(w, b, plan, wh, n, e)
        if src is None:
            continue
        if not touched:
            ctx.check(e.needed == src.needed, f"{n}: {src.needed} became {e.needed}", "refs-touched", det)
            continue
        py = [x for x in e.needed if model.is_libpython(x)]
        had = [x for x in src.needed if model.is_libpython(x)]
        keep = [x for x in had if m.excluded(x)]
        ctx.count["libpython_removed"] += bool(had) and not keep
        ctx.count["libpython_in_graft"] += bool(had) and n in lib
        ctx.check(py == keep, f"{n} needs {py}, originally {had}", "libpython", det)
        for x in src.needed:
            if model.is_libpython(x) or x in names and x in plan["renames"]:
                continue
            ctx.count["refs_kept"] += m.excluded(x)
            ctx.check(x in e.needed, f"{n} no longer needs {x}", "ref-lost", det)
        ctx.check(len(e.needed) == len([x for x in src.needed if x not in had or x in keep]),
                  f"{n}: {src.needed} became {e.needed}", "ref-count", det)


def source(w, b, plan, wh, n, e):
    """-> (original ELF, whether repair has to touch it)"""
    if n in b.elf_bytes:
        el = w.elf_at(n)
        return elfread.read_elf(b.elf_bytes[n]), n in plan["touched"] and el["role"] != "foreign"
    for p, d in b.elf_bytes.items():
        if posixpath.basename(p) == posixpath.basename(n) and w.elf_at(p)["role"] == "script":
            return elfread.read_elf(d), True
    for i in plan["grafts"]:
        s = elfread.read_elf(b.ext_bytes[i])
        if s.payload == e.payload:
            return s, True
    return None, None


def patterns(ctx, w):
    r = ctx.rng
    out, kinds = [], set()
    objs = [e for e in w.elfs if e["role"] in ("ext", "lib")] + w.ext
    needed = sorted({n for o in objs for n in o["spec"].get("needed", ())})
    ext = [n for n in needed if w.names.get(n, ("",))[0] == "ext"]
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.choice(["exact", "exact", "wild", "wild", "class", "path", "pathdir", "lookalike", "missing",
                      "missing-wild", "system", "inwheel", "libpython", "all"])
        n = r.choice(ext) if ext else "libnone.so"
        if k == "exact":
            out.append(n)
        elif k == "wild":
            out.append(n.split(".so")[0] + r.choice([".so*", ".so.*", "*"]))
        elif k == "class":
            out.append("lib[qQ]" + n[4:] if n[:4] in ("libq", "libQ") else n)
        elif k == "path":
            t = w.names.get(n)
            if t:
                x = w.ext[t[1]]
                out.append(r.choice([f"*/{x['dir']}/{x['real']}", f"*/{x['real']}"]))
                kinds.add("path_pattern")
        elif k == "pathdir":
            out.append(f"*/extworld/{r.choice(w.dirs)}/*")
            kinds.add("path_pattern")
        elif k == "lookalike":
            cand = r.choice([n[:-1], n + "0", n[3:], n.swapcase(), "?" + n, n.split(".so")[0], "",
                             "./" + n, f"*{n}.bak", f"/usr/lib/{n}"])
            if not any(fnmatch.fnmatch(x, cand) for x in needed):
                out.append(cand)
                kinds.add("lookalike")
        elif k in ("missing", "missing-wild"):
            o = r.choice(objs)
            absent = "libqabsent.so.3"
            near = [x for x in (n.split(".so")[0] + ".so", n[:-1], n.split(".")[0])
                    if len(x) > 4 and x not in w.names and x not in needed and x[:3] == "lib"]
            if k == "missing" and near and r.random() < 0.8:
                absent = r.choice(near)     # another library's name begins with it
                kinds.add("prefix")
                # whichever of the two comes first
                o = r.choice([x for x in objs if n in x["spec"].get("needed", ())] or [o])
            nd = list(o["spec"]["needed"])
            nd.insert(r.randint(0, len(nd)), absent)
            o["spec"]["needed"] = nd
            out.append(absent if k == "missing" else "libqabs*")
            w.notes.add("absent")
        elif k == "system":
            out.append(r.choice(["libc.so.6", "libm.so.6", "lib*.so.*", "ld-linux*"]))
        elif k == "inwheel":
            out.append("libin*")
        elif k == "libpython":
            out.append("libpython3*")
        elif k == "all":
            out.append("lib[!c]*") if r.random() < 0.5 else out.append("*")
        kinds.add(k)
    if out:
        w.opts["exclude"] = out
        w.notes.add("exclude")
    return sorted(kinds)
