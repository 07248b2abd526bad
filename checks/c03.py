"""C03: RPATH hygiene after repair."""
import posixpath

from awv import common, elfread, model, scen

CASES_QUICK = 220
CASES_THOROUGH = 6000
LEVEL = "exploration"
RULE = ("random worlds whose ELF files carry arbitrary RPATH/RUNPATH lists (absolute, "
        "$ORIGIN/${ORIGIN}, escaping the wheel, duplicate, relative, $LIB, nonexistent); every "
        "dynamic section of the output wheel is read; non-trivial = at least one ELF was "
        "repointed; distinct by world shape")
FLOOR = {"repointed": 200, "preserved_entries": 30, "dropped_entries": 100, "grafted_read": 200}


def resolve(entry, here):
    """archive-relative directory an entry points to, or None if it is not inside"""
    e = entry.replace("${ORIGIN}", "\0").replace("$ORIGIN", "\0")
    if e.lstrip("/").startswith("\0"):
        e = e.lstrip("/")                 # "/$ORIGIN" is "//abs/dir": the same directory
    if not e.startswith("\0"):
        return None
    p = posixpath.normpath(posixpath.join("/W", here, "." + e[1:] if e[1:].startswith("/")
                                          else e[1:] or "."))
    if p == "/W":
        return "."
    if p.startswith("/W/"):
        return p[3:]
    return None


def case(ctx):
    w = scen.world(ctx.rng, n_ext=(1, 6), p_garbage_rpath=0.7, p_libpython=0.1)
    hostile(ctx, w)
    w, b, m = common.build(ctx, w)
    plan = m.plan()
    if not plan["ok"]:
        ctx.count["not_repairable"] += 1
        return
    try:
        res = common.repair(ctx, b)
    except common.Skip:
        return
    wh = common.expect_ok(ctx, w, b, m, res)
    if wh is None:
        return
    ctx.sample = w.brief() if ctx.idx < 3 else None
    if plan["grafts"]:
        ctx.seen(*w.key())
    det = {"world": w.brief()}
    original = {x[0] for x in b.members}
    for arc, g in wh.elfs().items():
        d = dict(det, elf=arc, rpath=g.rpath, runpath=g.runpath)
        here = posixpath.dirname(arc) or "."
        if arc not in original and arc.startswith(w.libs_dir + "/"):
            ctx.count["grafted_read"] += 1
            deps = [n for n in g.needed if f"{w.libs_dir}/{n}" in wh.data]
            ctx.check(g.runpath is None, f"{arc} has a RUNPATH {g.runpath}", "graft-runpath", d)
            if deps:
                ctx.check(g.rpath == "$ORIGIN", f"{arc}: RPATH {g.rpath!r} with in-wheel needs {deps}",
                          "graft-rpath", d)
            else:
                ctx.check(g.rpath is None, f"{arc}: RPATH {g.rpath!r} kept though nothing needs it",
                          "graft-rpath-stale", d)
            continue
        e = w.elf_at(arc)
        if e is None and arc not in original:
            # a relocated script binary
            e = next((x for x in w.elfs if x["role"] == "script"
                      and posixpath.basename(x["path"]) == posixpath.basename(arc)), None)
        if e is None or e["path"] not in plan["touched"]:
            src = b.elf_bytes.get(arc)
            if src is not None and not w.opts.get("strip"):
                ctx.check(wh.data[arc] == src, f"{arc} needs nothing external but was changed",
                          "untouched-changed", d)
            continue
        ctx.count["repointed"] += 1
        src = elfread.read_elf(b.elf_bytes[e["path"]])
        ctx.check(g.runpath is None, f"{arc}: DT_RUNPATH {g.runpath!r} instead of DT_RPATH",
                  "runpath-not-rpath", d)
        ents = (g.rpath or "").split(":") if g.rpath is not None else []
        ctx.check(len(ents) == len(set(ents)), f"{arc}: duplicate RPATH entries {ents}", "dup-rpath", d)
        for x in ents:
            ctx.check(resolve(x, here) is not None,
                      f"{arc}: RPATH entry {x!r} leaves the wheel", "escaping-rpath", d)
        old = (src.runpath if src.runpath is not None else src.rpath or "").split(":")
        keep = [x for x in dict.fromkeys(old) if x and resolve(x, here) is not None]
        ctx.count["preserved_entries"] += len(keep)
        ctx.count["dropped_entries"] += len([x for x in old if x]) - len(keep)
        ctx.check(ents[: len(keep)] == keep,
                  f"{arc}: in-wheel RPATH entries {keep} not preserved in order: {ents}",
                  "preserve-rpath", d)
        ctx.check(len(ents) <= len(keep) + 1, f"{arc}: unexpected RPATH entries {ents}", "extra-rpath", d)
        if any(w.names.get(n, ("",))[0] == "ext" for n in src.needed if n in plan["renames"]):
            ctx.check(any(resolve(x, here) == posixpath.normpath(w.libs_dir) for x in ents),
                      f"{arc}: no RPATH entry reaches {w.libs_dir}: {ents}", "libsdir-rpath", d)


def hostile(ctx, w):
    r = ctx.rng
    for e in w.elfs:
        if e["role"] in ("static", "foreign"):
            continue
        s = e["spec"]
        kind = "runpath" if s.get("runpath") else "rpath"
        cur = s.get(kind)
        add = []
        depth = e["path"].count("/")
        if r.random() < 0.5:
            add.append(r.choice(["$ORIGIN/" + "/".join([".."] * depth) if depth else "$ORIGIN",
                                 "$ORIGIN/" + "/".join([".."] * (depth + 1)),
                                 "$ORIGIN/../" * (depth + 1) + "tmp", "${ORIGIN}/sub",
                                 "$ORIGIN/./x/../y", f"$ORIGIN/{'../' * depth}{w.libs_dir}",
                                 "relative/dir", "/usr/lib/$LIB", "/$ORIGIN",
                                 "/home/builder/x/../../..", "lib"]))
        if r.random() < 0.2 and cur:
            add.append(r.choice(cur.split(":")))
        if add:
            s[kind] = ":".join(([cur] if cur else []) + add) if r.random() < 0.5 else \
                ":".join(add + ([cur] if cur else []))
            w.notes.add("rp")
