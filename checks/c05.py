"""C05: RECORD of the output lists every member exactly once with its true hash and size, is the
last member, stale signatures are gone."""
import zlib

from awv import common, scen
from awv.wheelread import record_hash
from checks.c04 import HOSTILE_NAMES

CASES_QUICK = 220
CASES_THOROUGH = 6000
LEVEL = "exploration"
RULE = ("random wheels (hostile member names incl. quotes, commas, unicode line separators; signed "
        "wheels; stale RECORD rows; grafts, shims, strip, SBOM); the RECORD of every output wheel is "
        "recomputed from the raw archive; distinct by member-name set")
FLOOR = {"rows_checked": 2000, "signed_inputs": 10, "grafted_rows": 200, "odd_input_record": 40}

SEPARATORS = ["qpkg/ls\u2028x.txt", "qpkg/nel\x85x.txt", "qpkg/vt\x0bx.txt", "qpkg/fs\x1cx.txt",
              "qpkg/nl\nx.txt", "qpkg/cr\rx.txt", "qpkg/\"q\",x.txt"]


def case(ctx):
    r = ctx.rng
    w = scen.world(r, n_ext=(0, 5), p_file=0.4, p_foreign=0.2, p_script=0.25, p_large=0.07)
    for nm in HOSTILE_NAMES + SEPARATORS:
        if r.random() < 0.12:
            w.files.append(dict(path=nm, data=nm.encode() * r.randint(0, 3), mode=0o644))
            if nm in SEPARATORS:
                w.notes.add("separator")
    w.signed = r.random() < 0.3
    if r.random() < 0.3:
        w.notes.add("odd-record")
        for _ in range(r.randint(0, 2)):
            w.extra_record.append(r.choice([[], [], ["qpkg/__init__.py", "sha256=stale", "0"],
                                            [f"{w.distinfo}/METADATA", "", ""]]))
        w.unlisted = [f["path"] for f in w.files if r.random() < 0.2]
        w.crlf_record = r.random() < 0.3
        ctx.count["odd_input_record"] += 1
    w, b, m = common.build(ctx, w)
    if w.signed:
        ctx.count["signed_inputs"] += 1
    plan = m.plan()
    if not plan["ok"]:
        return
    try:
        res = common.repair(ctx, b)
    except common.Skip:
        return
    wh = common.expect_ok(ctx, w, b, m, res)
    if wh is None:
        return
    ctx.sample = {"members": wh.order, "wheel": w.filename} if ctx.idx < 3 else None
    ctx.seen(sorted(wh.order), sorted(str(v) for v in w.opts.items()))
    check_record(ctx, wh, {"world": w.brief(), "out": wh.order})
    ctx.count["grafted_rows"] += len(plan["grafts"])
    # compression as requested
    z = w.opts.get("z")
    if z is not None:
        big = [i for i in wh.infos if i.file_size > 4000 and not i.filename.endswith("/")]
        for zi in big:
            if z == 0:
                ctx.check(zi.compress_size >= zi.file_size, f"{zi.filename} compressed at -z 0",
                          "zlevel", None)
            else:
                ctx.check(zi.compress_size == len(deflate(wh.data[zi.filename], z)),
                          f"{zi.filename}: not deflated at level {z}", "zlevel", None)


def deflate(data, level):
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    return c.compress(data) + c.flush()


def check_record(ctx, wh, det):
    ctx.check(wh.testzip is None, f"bad CRC in {wh.testzip}", "crc", det)
    rows = wh.record_rows()
    names = [x[0] for x in rows if x]
    ctx.check(all(len(x) == 3 for x in rows), "malformed RECORD row", "row-shape", det)
    ctx.check(len(names) == len(set(names)), "duplicate RECORD rows", "row-dup", det)
    ctx.check(set(names) == set(wh.data),
              f"RECORD and archive disagree: only in RECORD {sorted(set(names) - set(wh.data))}, "
              f"only in archive {sorted(set(wh.data) - set(names))}", "row-set", det)
    for x in rows:
        n, h, s = x
        if n not in wh.data:
            continue
        ctx.count["rows_checked"] += 1
        if n == wh.record_name:
            ctx.check(h == "" and s == "", "RECORD hashes itself", "self-hash", det)
            continue
        ctx.check(h == record_hash(wh.data[n]), f"{n!r}: RECORD hash is wrong", "hash", det)
        ctx.check(s == str(len(wh.data[n])), f"{n!r}: RECORD size is wrong", "size", det)
    for n in wh.data:
        ctx.check(not (n.startswith("/") or ".." in n.split("/")), f"unsafe member {n!r}", "unsafe", det)
        ctx.check(not (n.startswith(wh.distinfo + "/RECORD.") and n.endswith((".jws", ".p7s"))),
                  f"stale signature {n}", "signature", det)
    di = [i for i, n in enumerate(wh.order) if n.startswith(wh.distinfo + "/")]
    ctx.check(di == list(range(len(wh.order) - len(di), len(wh.order))),
              "the .dist-info directory is not at the end of the archive", "order", det)
    lastfile = [n for n in wh.order if not n.endswith("/")][-1]
    distfiles = [n for n in wh.order if n.startswith(wh.distinfo + "/") and not n.endswith("/")
                 and n.count("/") == 1]
    ctx.check(distfiles[-1] == wh.record_name, f"RECORD is not last in {wh.distinfo}: {lastfile}",
              "order", det)
