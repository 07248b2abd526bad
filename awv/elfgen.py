"""Write small, valid (x86_64: really loadable) ELF files from a description.

The writer shares no code with auditwheel or pyelftools, so that scenarios can
cover every architecture, symbol version, ISA note, RPATH/RUNPATH shape ... with
no cross compiler.  `patchelf`, `strip` and ld.so all accept the output.
"""
from __future__ import annotations

import hashlib
import struct

# arch -> (e_machine, bits, little endian, e_flags, page, interp, libc soname for musl)
ARCHES = {
    "x86_64": (62, 64, True, 0, 0x1000, "/lib64/ld-linux-x86-64.so.2"),
    "i686": (3, 32, True, 0, 0x1000, "/lib/ld-linux.so.2"),
    "aarch64": (183, 64, True, 0, 0x10000, "/lib/ld-linux-aarch64.so.1"),
    "armv7l": (40, 32, True, 0x05000400, 0x10000, "/lib/ld-linux-armhf.so.3"),
    "ppc64le": (21, 64, True, 2, 0x10000, "/lib64/ld64.so.2"),
    "ppc64": (21, 64, False, 1, 0x10000, "/lib64/ld64.so.1"),
    "s390x": (22, 64, False, 0, 0x1000, "/lib/ld64.so.1"),
    "riscv64": (243, 64, True, 5, 0x1000, "/lib/ld-linux-riscv64-lp64d.so.1"),
    "loongarch64": (258, 64, True, 0x43, 0x10000, "/lib64/ld-linux-loongarch-lp64d.so.1"),
    # never a supported target: used to plant "foreign" ELF files
    "mips64": (8, 64, True, 0x80000007, 0x10000, "/lib64/ld.so.1"),
    "armv5l": (40, 32, True, 0x05000200, 0x10000, "/lib/ld-linux.so.3"),
}
# headers no platform tag stands for
ODD = {
    "x32": (62, 32, True, 0, 0x1000, "/libx32/ld-linux-x32.so.2"),
    "aarch64_be": (183, 64, False, 0, 0x10000, "/lib/ld-linux-aarch64_be.so.1"),
    "arm_softfp": (40, 32, True, 0x05000200, 0x10000, "/lib/ld-linux.so.3"),
    "arm_eabi4": (40, 32, True, 0x04000400, 0x10000, "/lib/ld-linux.so.3"),
    "armeb": (40, 32, False, 0x05000400, 0x10000, "/lib/ld-linux-armhf.so.3"),
    "riscv32": (243, 32, True, 5, 0x1000, "/lib/ld-linux-riscv32-ilp32d.so.1"),
    "loongarch32": (258, 32, True, 0x43, 0x10000, "/lib64/ld.so.1"),
    "s390": (22, 32, False, 0, 0x1000, "/lib/ld.so.1"),
    "ppc": (20, 32, False, 0, 0x10000, "/lib/ld.so.1"),
    "sparc64": (43, 64, False, 0, 0x2000, "/lib64/ld-linux.so.2"),
    "mips64": (8, 64, True, 0x80000007, 0x10000, "/lib64/ld.so.1"),
}
MUSL_SONAME = {
    "x86_64": "libc.musl-x86_64.so.1",
    "i686": "libc.musl-x86.so.1",
    "aarch64": "libc.musl-aarch64.so.1",
    "s390x": "libc.musl-s390x.so.1",
    "ppc64le": "libc.musl-ppc64le.so.1",
    "armv7l": "libc.musl-armv7.so.1",
    "riscv64": "libc.musl-riscv64.so.1",
    "loongarch64": "libc.musl-loongarch64.so.1",
}

DT = dict(NULL=0, NEEDED=1, HASH=4, STRTAB=5, SYMTAB=6, STRSZ=10, SYMENT=11, SONAME=14,
          RPATH=15, RUNPATH=29, VERSYM=0x6FFFFFF0, VERNEED=0x6FFFFFFE, VERNEEDNUM=0x6FFFFFFF,
          FLAGS=30)
STB = dict(local=0, glob=1, weak=2)
STT = dict(notype=0, object=1, func=2)


def elf_hash(name: bytes) -> int:
    h = 0
    for c in name:
        h = (h << 4) + c
        g = h & 0xF0000000
        if g:
            h ^= g >> 24
        h &= ~g & 0xFFFFFFFF
    return h


class _Str:
    def __init__(self):
        self.buf = bytearray(b"\0")
        self.idx = {"": 0}

    def add(self, s):
        if s not in self.idx:
            self.idx[s] = len(self.buf)
            self.buf += s.encode("utf-8", "surrogateescape") + b"\0"
        return self.idx[s]


def make_elf(
    *,
    arch="x86_64",
    soname=None,
    needed=(),
    rpath=None,
    runpath=None,
    interp=None,
    syms=(),
    verneed=(),
    isa=None,
    isa_decoy=(),
    payload=b"",
    osabi=0,
    etype="dyn",
    exports=(),
    flags=None,
    static=False,
    symtab=True,
    symtab_prefix="loc_",
):
    """syms: list of (name, bind, type, defined[, (lib, version)]).
    exports: list of (function name, int32): defined functions; on x86_64 they
    really return that integer.  verneed: list of (lib, [version, ...]).
    isa: value of GNU_PROPERTY_X86_ISA_1_NEEDED; isa_decoy: notes and properties beside it
    that say nothing about what is needed (feature, used, alien, buildid).  static: no dynamic section.
    """
    mach, bits, le, eflags, page, default_interp = ARCHES.get(arch) or ODD[arch]
    if flags is not None:
        eflags = flags
    if interp is True:
        interp = default_interp
    en = "<" if le else ">"
    is64 = bits == 64
    A = 8 if is64 else 4
    P = lambda fmt, *a: struct.pack(en + fmt, *a)  # noqa: E731
    addr = "Q" if is64 else "I"

    dynstr = _Str()
    needed_off = [dynstr.add(n) for n in needed]
    soname_off = dynstr.add(soname) if soname is not None else None
    rpath_off = dynstr.add(rpath) if rpath is not None else None
    runpath_off = dynstr.add(runpath) if runpath is not None else None

    # version indexes
    veridx = {}
    nxt = 2
    for lib, vers in verneed:
        for v in vers:
            veridx[(lib, v)] = nxt
            nxt += 1
    # symbols: (name, bind, type, defined, versym, value-kind)
    allsyms = []
    for name, val in exports:
        allsyms.append((name, 1, 2, True, 1, val))
    for s in syms:
        name, bind, typ, defined = s[:4]
        ver = s[4] if len(s) > 4 and s[4] else None
        vs = veridx[tuple(ver)] if ver else (1 if defined else 1)
        allsyms.append((name, STB[bind], STT[typ], defined, vs, None))

    # ---- code
    text = bytearray()
    codeoff = {}
    for name, _b, _t, defined, _v, val in allsyms:
        if defined:
            codeoff[name] = len(text)
            if arch == "x86_64" and val is not None:
                text += b"\xb8" + struct.pack("<i", val) + b"\xc3"
            else:
                text += b"\xc3" * 4
            while len(text) % 16:
                text += b"\x90"
    if not text:
        text += b"\x90" * 16

    rodata = b"AWV-PAYLOAD:" + payload + b"\0"

    for name, *_ in allsyms:
        dynstr.add(name)
    vn_names = [(dynstr.add(lib), [(v, dynstr.add(v)) for v in vers]) for lib, vers in verneed]

    nsym = len(allsyms) + 1

    # section list: dict(name, type, flags, data, align, entsize, link, info)
    note = b""

    def prop(typ, val):
        return struct.pack(en + "III", typ, 4, val) + (b"\0" * 4 if is64 else b"")

    if "buildid" in isa_decoy:
        note += struct.pack(en + "III", 4, 16, 3) + b"GNU\0" + bytes(range(16))
    if "alien" in isa_decoy:
        d = prop(0xC0008002, 15)
        note += struct.pack(en + "III", 4, len(d), 5) + b"AWV\0" + d
    if isa is not None or {"feature", "used"} & set(isa_decoy):
        pr = prop(0xC0000002, 3) if "feature" in isa_decoy else b""
        if isa is not None:
            pr += prop(0xC0008002, isa)
        if "used" in isa_decoy:
            pr += prop(0xC0010002, 15)
        note += struct.pack(en + "III", 4, len(pr), 5) + b"GNU\0" + pr

    SH = []

    def sec(name, typ, flg, data, align=1, entsize=0, link=0, info=0):
        SH.append(dict(name=name, type=typ, flags=flg, data=bytes(data), align=align,
                       entsize=entsize, link=link, info=info))
        return len(SH)  # section index (null section is 0)

    if note:
        sec(".note.gnu.property", 7, 2, note, 8 if is64 else 4)
    if interp:
        sec(".interp", 1, 2, interp.encode() + b"\0")
    if not static:
        symsz = 24 if is64 else 16
        h_i = sec(".hash", 5, 2, b"\0" * (4 * (2 + 3 + nsym)), A, 4)
        dynsym_i = sec(".dynsym", 11, 2, b"\0" * (symsz * nsym), A, symsz, 0, 1)
        dynstr_i = sec(".dynstr", 3, 2, dynstr.buf)
        SH[h_i - 1]["link"] = dynsym_i
        SH[dynsym_i - 1]["link"] = dynstr_i
        if verneed:
            versym_i = sec(".gnu.version", 0x6FFFFFFF, 2,
                           P("H" * nsym, 0, *[s[4] for s in allsyms]), 2, 2, dynsym_i)
            vd = b""
            for i, (lo, vers) in enumerate(vn_names):
                size = 16 + 16 * len(vers)
                vd += P("HHIII", 1, len(vers), lo, 16, size if i < len(vn_names) - 1 else 0)
                lib = verneed[i][0]
                for j, (v, vo) in enumerate(vers):
                    vd += P("IHHII", elf_hash(v.encode()), 0, veridx[(lib, v)], vo,
                            16 if j < len(vers) - 1 else 0)
            verneed_i = sec(".gnu.version_r", 0x6FFFFFFE, 2, vd, A, 0, dynstr_i, len(verneed))
    text_i = sec(".text", 1, 6, text, 16)
    sec(".rodata", 1, 2, rodata, 16)
    if not static:
        ndyn = len(needed) + 5 + 1 + sum(x is not None for x in (soname, rpath, runpath))
        ndyn += 3 if verneed else 0
        dyn_i = sec(".dynamic", 6, 3, b"\0" * (ndyn * 2 * A), A, 2 * A, dynstr_i)
    else:
        dyn_i = None
        sec(".data", 1, 3, b"\1" * 16, A)
    n_alloc = len(SH)
    sec(".comment", 1, 0x30, b"awv elfgen\0", 1, 1)
    if symtab:
        st = _Str()
        symdata = b"\0" * (24 if is64 else 16)
        for name, b, t, defined, _v, _val in allsyms:
            if is64:
                symdata += P("IBBHQQ", st.add(symtab_prefix + name), t, 0, text_i if defined else 0, 0, 0)
            else:
                symdata += P("IIIBBH", st.add(symtab_prefix + name), 0, 0, t, 0, text_i if defined else 0)
        sy_i = sec(".symtab", 2, 0, symdata, A, 24 if is64 else 16, 0, nsym)
        SH[sy_i - 1]["link"] = sec(".strtab", 3, 0, st.buf)
    shstr = _Str()
    for s in SH:
        shstr.add(s["name"])
    shstr.add(".shstrtab")
    shstr_i = sec(".shstrtab", 3, 0, shstr.buf)

    # ---- layout
    ehsize = 64 if is64 else 52
    phsize = 56 if is64 else 32
    nph = 2 + 1 + (0 if static else 1) + (1 if interp else 0) + (2 if note else 0) + 1
    off = ehsize + phsize * nph
    base = 0x400000 if etype == "exec" else 0
    rw_start = None
    for k, s in enumerate(SH):
        al = max(1, s["align"])
        if k < n_alloc and s["flags"] & 1 and rw_start is None:
            off = (off + 15) // 16 * 16
            rw_start = off
        off = (off + al - 1) // al * al
        s["off"] = off
        if k < n_alloc:
            s["addr"] = base + off + (page if rw_start is not None else 0)
        else:
            s["addr"] = 0
        off += len(s["data"])
    rx_end = rw_start
    rw_end = max(s["off"] + len(s["data"]) for s in SH[:n_alloc])
    shoff = (off + 7) // 8 * 8

    by = {s["name"]: s for s in SH}
    # ---- fill symbols, hash, dynamic
    if not static:
        sd = b"\0" * symsz
        for name, b, t, defined, _v, _val in allsyms:
            value = by[".text"]["addr"] + codeoff[name] if defined else 0
            size = 6 if defined else 0
            shn = text_i if defined else 0
            if is64:
                sd += P("IBBHQQ", dynstr.idx[name], (b << 4) | t, 0, shn, value, size)
            else:
                sd += P("IIIBBH", dynstr.idx[name], value, size, (b << 4) | t, 0, shn)
        by[".dynsym"]["data"] = sd
        nb = 3
        buckets = [0] * nb
        chain = [0] * nsym
        for i, s in enumerate(allsyms, 1):
            if not s[3]:
                continue
            b = elf_hash(s[0].encode()) % nb
            chain[i] = buckets[b]
            buckets[b] = i
        by[".hash"]["data"] = P("II" + "I" * nb + "I" * nsym, nb, nsym, *buckets, *chain)
        dyn = [(DT["NEEDED"], o) for o in needed_off]
        if soname is not None:
            dyn.append((DT["SONAME"], soname_off))
        if rpath is not None:
            dyn.append((DT["RPATH"], rpath_off))
        if runpath is not None:
            dyn.append((DT["RUNPATH"], runpath_off))
        dyn += [(DT["HASH"], by[".hash"]["addr"]), (DT["STRTAB"], by[".dynstr"]["addr"]),
                (DT["SYMTAB"], by[".dynsym"]["addr"]), (DT["STRSZ"], len(dynstr.buf)),
                (DT["SYMENT"], symsz)]
        if verneed:
            dyn += [(DT["VERSYM"], by[".gnu.version"]["addr"]),
                    (DT["VERNEED"], by[".gnu.version_r"]["addr"]),
                    (DT["VERNEEDNUM"], len(verneed))]
        dyn.append((0, 0))
        assert len(dyn) == ndyn, (len(dyn), ndyn)
        by[".dynamic"]["data"] = b"".join(P(addr * 2, a, b) for a, b in dyn)

    ph = []
    PH = lambda t, fl, o, va, sz, al: ph.append((t, fl, o, va, sz, al))  # noqa: E731
    if interp:
        s = by[".interp"]
        PH(3, 4, s["off"], s["addr"], len(s["data"]), 1)
    PH(1, 5, 0, base, rx_end, page)
    PH(1, 6, rw_start, base + rw_start + page, rw_end - rw_start, page)
    if not static:
        s = by[".dynamic"]
        PH(2, 6, s["off"], s["addr"], len(s["data"]), A)
    if note:
        s = by[".note.gnu.property"]
        PH(4, 4, s["off"], s["addr"], len(s["data"]), s["align"])
        PH(0x6474E553, 4, s["off"], s["addr"], len(s["data"]), s["align"])
    PH(0x6474E551, 6, 0, 0, 0, 16)
    assert len(ph) <= nph
    while len(ph) < nph:
        PH(0, 0, 0, 0, 0, 0)

    ident = b"\x7fELF" + bytes([2 if is64 else 1, 1 if le else 2, 1, osabi]) + b"\0" * 8
    et = {"dyn": 3, "exec": 2, "rel": 1}[etype]
    entry = by[".text"]["addr"] if (interp or etype == "exec") else 0
    eh = ident + P("HHI" + addr * 3 + "IHHHHHH", et, mach, 1, entry, ehsize, shoff, eflags,
                   ehsize, phsize, nph, 64 if is64 else 40, len(SH) + 1, shstr_i)
    out = bytearray(shoff)
    out[0:len(eh)] = eh
    o = ehsize
    for t, fl, of, va, sz, al in ph:
        if is64:
            out[o:o + phsize] = P("IIQQQQQQ", t, fl, of, va, va, sz, sz, al)
        else:
            out[o:o + phsize] = P("IIIIIIII", t, of, va, va, sz, sz, fl, al)
        o += phsize
    for s in SH:
        out[s["off"]:s["off"] + len(s["data"])] = s["data"]
    out += b"\0" * (64 if is64 else 40)
    for s in SH:
        f = "IIQQQQIIQQ" if is64 else "IIIIIIIIII"
        out += P(f, shstr.idx[s["name"]], s["type"], s["flags"], s["addr"], s["off"],
                 len(s["data"]), s["link"], s["info"], s["align"], s["entsize"])
    return bytes(out)


def no_sections(data: bytes) -> bytes:
    """without section headers, which only linkers and debuggers need"""
    d = bytearray(data)
    e = "<" if d[5] == 1 else ">"
    at, fmt, cnt = (40, "Q", 58) if d[4] == 2 else (32, "I", 46)
    off = struct.unpack_from(e + fmt, d, at)[0]
    struct.pack_into(e + fmt, d, at, 0)
    struct.pack_into(e + "HHH", d, cnt, 0, 0, 0)
    return bytes(d[:off])


def short_hash(data: bytes) -> str:
    return hashlib.sha256(data).hexdigest()[:8]
