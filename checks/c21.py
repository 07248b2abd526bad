"""C21: the archive written is canonical: what it holds does not depend on how the input archive was
encoded, and it is well-formed, ordered and compressed as asked."""
import csv
import io
import random
import shutil
import struct
import subprocess
import time
import zipfile
import zlib

from awv import common, scen
from awv.wheelread import Wheel

CASES_QUICK = 200
CASES_THOROUGH = 6000
LEVEL = "exploration"
RULE = ("random wheels rewritten by our own zip writer with the same members in another encoding (member order, stored, "
        "rows and quoting of RECORD, deflated at several levels, bzip2, lzma, data descriptors, zip64 records, extra fields, comments, time stamps, prefix bytes, "
        "directory entries) and repaired with every compression level; outputs of the encodings must be identical; "
        "each output's raw records are parsed; distinct by (encoding features, level, world shape)")
FLOOR = {"pairs_compared": 120, "members_parsed": 1500, "recompressed": 1000, "encodings": 150, "levels": 40}
DEFAULT_LEVEL = 6


class Stream(io.RawIOBase):
    """an unseekable sink: zipfile writes data descriptors"""

    def __init__(self, f):
        self.f = f

    def writable(self):
        return True

    def write(self, b):
        self.f.write(b)
        return len(b)


def reencode(r, src, dst):
    """the same members and modes in another archive"""
    with zipfile.ZipFile(src) as z:
        members = [(i, z.read(i)) for i in z.infolist()]
    feats = []

    def f(name, p=0.4):
        if r.random() < p:
            feats.append(name)
            return True
        return False

    if f("shuffled", 0.6):
        r.shuffle(members)
    if f("record rows", 0.5):
        for k, (i, d) in enumerate(members):
            if i.filename.endswith(".dist-info/RECORD") and i.filename.count("/") == 1:
                rows = list(csv.reader(io.StringIO(d.decode(), newline="")))
                r.shuffle(rows)
                buf = io.StringIO(newline="")
                csv.writer(buf, quoting=r.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL]),
                           lineterminator=r.choice(["\n", "\r\n"])).writerows(rows)
                members[k] = i, buf.getvalue().encode()
    files = [i.filename for i, _ in members if not i.filename.endswith("/")]
    if f("direntries", 0.3):
        have = {i.filename for i, _ in members}
        dirs = {"/".join(n.split("/")[:k]) + "/" for n in files for k in range(1, n.count("/") + 1)} - have
        members += [(scen.zinfo(d, 0o755), b"") for d in sorted(dirs)]
        if r.random() < 0.5:
            r.shuffle(members)
    elif f("no direntries", 0.3):
        members = [(i, d) for i, d in members if not i.filename.endswith("/")
                   or not any(n.startswith(i.filename) for n in files)]
    methods = {"same": [zipfile.ZIP_DEFLATED], "stored": [zipfile.ZIP_STORED], "bzip2": [zipfile.ZIP_BZIP2],
               "lzma": [zipfile.ZIP_LZMA],
               "mixed": [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA]}
    how = r.choice(list(methods))
    feats.append(how)
    dirmodes, dosbits = f("directory modes", 0.35), f("dos attributes", 0.3)
    stream, comments, extra, dates, z64 = f("descriptors", 0.3), f("comments"), f("extra"), f("dates", 0.6), f("zip64", 0.25)
    prefix = r.randbytes(r.randint(1, 300)) if not stream and f("prefix", 0.15) else b""
    with open(dst, "wb") as raw:
        raw.write(prefix)
        with zipfile.ZipFile(Stream(raw) if stream else raw, "w") as z:
            if comments:
                z.comment = r.choice([b"x", b"PK\x01\x02" + b"y" * 30, "\u00e9".encode(), b"z" * 500])
            for i, data in members:
                n = zipfile.ZipInfo(i.filename, (r.randint(1980, 2107), r.randint(1, 12), r.randint(1, 28), 1, 2, 4)
                                    if dates else i.date_time)
                n.external_attr = i.external_attr
                n.create_system = i.create_system
                if dirmodes and i.filename.endswith("/"):
                    n.external_attr = r.choice([0, 0x10, 0o40700 << 16, 0o40777 << 16 | 0x10, 0o40555 << 16, 0o40000 << 16,
                                                0o755 << 16, 0o42770 << 16 | 0x10])
                elif dosbits and n.external_attr:
                    # DOS attribute byte, file type and set-id bits: none of these survives
                    n.external_attr |= r.choice([0, 0x20, 0x01, 0x21])
                    if r.random() < 0.4:
                        n.external_attr ^= r.choice([0o100000, 0o4000, 0o2000, 0o1000]) << 16
                if dosbits and r.random() < 0.5:
                    n.create_system = r.choice([0, 3])
                n.compress_type = r.choice(methods[how])
                if extra and r.random() < 0.5:
                    n.extra = struct.pack("<HHBI", 0x5455, 5, 1, r.randrange(1 << 31))
                if comments and r.random() < 0.3:
                    n.comment = b"member comment"
                if i.filename.endswith("/"):
                    n.compress_type = zipfile.ZIP_STORED
                if n.external_attr == 0:           # writestr() would fill it in
                    with z.open(n, "w", force_zip64=z64) as fp:
                        fp.write(data)
                    n.external_attr = 0
                elif z64 and not i.filename.endswith("/"):
                    with z.open(n, "w", force_zip64=True) as fp:
                        fp.write(data)
                else:
                    z.writestr(n, data, compresslevel=r.choice([1, 6, 9]) if how in ("same", "bzip2") else None)
    return feats


def case(ctx):
    r = ctx.rng
    w = scen.world(r, n_ext=r.choice([0, 0, (1, 4)]), p_file=0.5, p_script=0.2, p_foreign=0.2, p_large=0.05)
    w.opts["sde"] = 1600000000
    lvl = r.choice([None, None, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
    w.opts["z"] = lvl
    for k in range(r.randint(1, 3)):
        # something that compresses differently at each level
        g = random.Random(r.random())
        words = [g.randbytes(g.randint(2, 9)) for _ in range(60)]
        w.files.append(dict(path=f"qpkg/data{k}.bin", data=b"".join(g.choice(words) for _ in range(g.randint(500, 4000))), mode=0o644))
    w, b, m = common.build(ctx, w)
    plan = m.plan()
    if not plan["ok"]:
        return
    try:
        res = common.repair(ctx, b)
    except common.Skip:
        return
    wh = common.expect_ok(ctx, w, b, m, res)
    if wh is None:
        return
    det = {"world": w.brief(), "level": lvl}
    wellformed(ctx, wh, w, DEFAULT_LEVEL if lvl is None else lvl, det)
    ctx.count["levels"] += lvl is not None
    # ---- another encoding of the same members
    other = b.root / "in2"
    other.mkdir()
    feats = reencode(r, b.wheel, other / b.wheel.name)
    ctx.count["encodings"] += len(feats)
    ctx.seen(sorted(feats), lvl, *w.key())
    ctx.sample = {"encoding": feats, "level": lvl} if ctx.idx < 3 else None
    argv = [str(other / b.wheel.name) if a == str(b.wheel) else a for a in b.argv]
    out2 = b.root / "out2"
    argv[argv.index("-w") + 1] = str(out2)
    try:
        res = common.repair(ctx, b, argv=argv)
    except common.Skip:
        return
    outs = sorted(out2.glob("*")) if out2.is_dir() else []
    det = dict(det, encoding=feats)
    if not ctx.check(res.ok and len(outs) == 1, f"the same wheel encoded with {feats} was not repaired", "encoding-refused",
                     dict(det, run=res.brief())):
        return
    ctx.count["pairs_compared"] += 1
    ctx.check(outs[0].name == wh.filename, f"named {outs[0].name} / {wh.filename}", "encoding-name", det)
    if not ctx.check(outs[0].read_bytes() == wh.raw, f"the encoding of the input ({feats}) shows in the output", "encoding-bytes", det):
        o = Wheel(outs[0])
        ctx.note = {"order": (o.order, wh.order)}
    if ctx.idx % 4 == 0 and shutil.which("unzip"):
        p = subprocess.run(["unzip", "-tqq", str(outs[0])], capture_output=True, text=True)
        ctx.count["unzip"] += 1
        ctx.check(p.returncode == 0, f"unzip -t: {p.stdout}{p.stderr}"[:300], "unzip", det)


def wellformed(ctx, wh, w, level, det):
    raw = wh.raw
    ctx.check(wh.testzip is None, f"bad CRC of {wh.testzip}", "crc", det)
    # ---- raw records: end of central directory, central headers, local headers
    e = raw.rfind(b"PK\x05\x06")
    disk, cdisk, n1, n2, size, off, clen = struct.unpack("<HHHHIIH", raw[e + 4:e + 22])
    ctx.check(e + 22 + clen == len(raw) and disk == cdisk == 0 and n1 == n2 == len(wh.infos) and off + size == e,
              f"odd end record {(disk, cdisk, n1, n2, size, off, clen)}", "eocd", det)
    pos = 0
    for zi in wh.infos:
        ctx.count["members_parsed"] += 1
        n = zi.filename
        enc = n.encode()
        ctx.check(zi.header_offset == pos, f"{n}: gap before its record", "gap", det)
        sig, ver, flag, meth, t, d, crc, csize, usize, nlen, xlen = struct.unpack("<IHHHHHIIIHH", raw[pos:pos + 30])
        name = raw[pos + 30:pos + 30 + nlen]
        ctx.check(sig == 0x04034b50 and name == enc and (meth, crc, csize, usize) == (zi.compress_type, zi.CRC, zi.compress_size, zi.file_size)
                  and flag == zi.flag_bits, f"{n}: local and central headers disagree", "headers", det)
        ctx.check(bool(flag & 0x800) or enc.isascii(), f"{n}: name not marked as UTF-8", "utf8", det)
        ctx.check(not flag & 0x1, f"{n}: encrypted", "flags", det)
        body = raw[pos + 30 + nlen + xlen:pos + 30 + nlen + xlen + csize]
        pos += 30 + nlen + xlen + csize
        if n.endswith("/"):
            ctx.check(zi.external_attr >> 16 & 0o170000 == 0o40000 and zi.external_attr & 0x10 and usize == 0
                      and zi.external_attr >> 16 & 0o777 == 0o755, f"{n}: directory record {oct(zi.external_attr >> 16)}", "dir-record", det)
            continue
        ctx.check(zi.external_attr >> 16 & 0o170000 == 0o100000, f"{n}: type {oct(zi.external_attr >> 16)}", "file-record", det)
        ctx.check(zi.external_attr >> 16 & 0o7000 == 0, f"{n}: special mode bits {oct(zi.external_attr >> 16)}", "special-bits", det)
        ctx.check(meth in (zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED), f"{n}: method {meth}", "method", det)
        if meth == zipfile.ZIP_DEFLATED:
            ctx.count["recompressed"] += 1
            c = zlib.compressobj(level, zlib.DEFLATED, -15)
            ctx.check(c.compress(wh.data[n]) + c.flush() == body, f"{n}: not compressed at level {level}", "level", det)
        else:
            ctx.check(level == 0 or not wh.data[n], f"{n}: stored although level {level} was asked", "level", det)
    ctx.check(raw[pos:pos + 4] == b"PK\x01\x02", "bytes between the last member and the directory", "gap", det)
    # ---- order: parents first, metadata at the end
    seen = set()
    for n in wh.order:
        par = n.rstrip("/").rsplit("/", 1)[0] + "/" if "/" in n.rstrip("/") else ""
        ctx.check(not par or par in seen, f"{n}: before its directory's record", "dir-first", det)
        ctx.check(n not in seen, f"{n}: twice", "twice", det)
        seen.add(n)
    meta = [n.startswith(w.distinfo + "/") for n in wh.order]
    ctx.check(meta == sorted(meta), "metadata is not last", "metadata-last", dict(det, order=wh.order))
    own = [n for n in wh.order if n.startswith(w.distinfo + "/") and n.count("/") == 1 and n[-1] != "/"]
    ctx.check(own[-1] == wh.record_name, f"last in .dist-info: {own[-1]}", "record-last", det)
    now = {i.date_time for i in wh.infos}
    ctx.check(now == {time.gmtime(1600000000)[:6]}, f"time stamps {sorted(now)[:3]}", "timestamp", det)
