"""C04: payload conservation - nothing lost, nothing invented, nothing else altered."""
import posixpath
from collections import Counter

from awv import common, elfread, scen

CASES_QUICK = 220
CASES_THOROUGH = 6000
LEVEL = "exploration"
RULE = ("random wheels with odd member names, permissions (incl. zero external_attr), empty files "
        "and directories, .data trees, nested dist-info, foreign-architecture ELF files; each input "
        "member is accounted for in the output byte by byte; distinct by world shape and member mix")
FLOOR = {"members_compared": 2000, "elf_touched": 150, "shims": 15}

HOSTILE_NAMES = ["qpkg/a\tb.txt", "qpkg/tr\u00e4iling .txt", "qpkg/-dash", "qpkg/.hidden", "qpkg/#h",
                 "qpkg/\u65e5\u672c.txt", "qpkg/a'b", "qpkg/x.so.py", "qpkg/RECORD", "qpkg/WHEEL",
                 "qpkg/sub/x.dist-info/WHEEL", "qpkg/\U0001f600", "qpkg/a\\b", "qpkg/%20",
                 "qpkg/$HOME", "qpkg/*.txt", "qpkg/a:b", "qpkg/__pycache__/m.cpython-312.pyc"]


def case(ctx):
    r = ctx.rng
    w = scen.world(r, n_ext=(0, 5), p_file=0.5, p_foreign=0.3, p_script=0.35, p_large=0.06)
    for nm in HOSTILE_NAMES:
        if r.random() < 0.25:
            w.files.append(dict(path=nm, data=nm.encode() * r.randint(0, 3),
                                mode=r.choice([0o644, 0o755, 0o600, 0o640, None, 0o444, 0o777])))
    w.opts.pop("strip", None)
    w, b, m = common.build(ctx, w)
    plan = m.plan()
    if not plan["ok"]:
        ctx.count["not_repairable"] += 1
        return
    try:
        res = common.repair(ctx, b)
    except common.Skip:
        return
    wh = common.expect_ok(ctx, w, b, m, res)
    if wh is None:
        return
    ctx.sample = {"members": [x[0] for x in b.members], "wheel": w.filename} if ctx.idx < 3 else None
    ctx.seen(w.key(), sorted(x[0] for x in b.members))
    det = {"world": w.brief(), "out": wh.order}
    src = {n: (d, mo) for n, d, mo in b.members if not n.endswith("/")}
    ctx.check(not wh.dups and Counter(wh.order).most_common(1)[0][1] == 1,
              f"duplicate archive members {wh.dups}", "dup-members", det)
    # ---- nothing lost
    for n, (d, mo) in src.items():
        if not ctx.check(n in wh.data, f"{n!r} is missing from the repaired wheel", "member-lost", det):
            continue
        ctx.count["members_compared"] += 1
        out = wh.data[n]
        want = 0o644 if mo is None else mo | 0o600
        ctx.check(wh.mode[n] & 0o777 == want,
                  f"{n!r}: permissions {oct(wh.mode[n])}, expected {oct(want)}", "perm", det)
        if n in plan["touched"]:
            ctx.count["elf_touched"] += 1
            e = w.elf_at(n)
            if e["role"] == "script":
                ctx.count["shims"] += 1
                ctx.check(out[:2] == b"#!", f"{n!r}: the launcher is not a script", "shim", det)
                cand = [x for x in wh.data if x not in src
                        and posixpath.basename(x) == posixpath.basename(n)]
                if ctx.check(len(cand) == 1, f"{n!r}: relocated binary not found", "shim-target", det):
                    ctx.check(wh.mode[cand[0]] & 0o777 == want,
                              f"{cand[0]}: permissions {oct(wh.mode[cand[0]])}", "perm", det)
                    out = wh.data[cand[0]]
                else:
                    continue
            a, c = elfread.read_elf(d), elfread.read_elf(out)
            ctx.check(a.payload == c.payload and a.soname == c.soname and a.interp == c.interp
                      and [s[:4] for s in a.symbols] == [s[:4] for s in c.symbols]
                      and len(a.sections) <= len(c.sections) + 1,
                      f"{n!r}: ELF contents changed beyond its references", "elf-content", det)
            continue
        if n == f"{w.distinfo}/WHEEL":
            skip = ("Tag", "Root-Is-Purelib")
            orig = [tuple(x.strip() for x in li.partition(":")[::2]) for li in
                    d.decode().splitlines() if li.strip()]
            ctx.check([x for x in orig if x[0] not in skip] ==
                      [x for x in wh.wheel_headers() if x[0] not in skip],
                      "WHEEL lost or changed a header", "wheel-header", wh.text(n))
            continue
        ctx.check(out == d, f"{n!r}: contents changed", "bytes", det)
    # ---- nothing invented
    extra = set(wh.data) - set(src) - {wh.record_name}
    ok = set()
    grafted = {x for x in extra if x.startswith(w.libs_dir + "/")}
    ctx.check(len(grafted) == len(plan["grafts"]), f"grafted {sorted(grafted)}", "graft-count", det)
    ok |= grafted
    scripts = {posixpath.basename(p) for p in plan["touched"]
               if w.elf_at(p)["role"] == "script"}
    ok |= {x for x in extra if posixpath.basename(x) in scripts and wh.elf(x) is not None}
    ok |= {x for x in extra if x.startswith(w.distinfo + "/sboms/")}
    ctx.check(extra == ok, f"unexpected members {sorted(extra - ok)}", "member-invented", det)
    # ---- directories
    for n, d, mo in b.members:
        if n.endswith("/"):
            ctx.check(n in wh.dirs or any(x.startswith(n) for x in wh.data),
                      f"directory {n!r} lost", "dir-lost", det)
    ctx.check(wh.distinfos == [w.distinfo], f"dist-info directories {wh.distinfos}", "distinfo", det)
