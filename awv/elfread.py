"""Independent ELF reader: sees a file the way ld.so does (program headers and
the dynamic segment), not through section headers.  Shares no code with
auditwheel / pyelftools."""
from __future__ import annotations

import struct
from dataclasses import dataclass, field


class NotElf(Exception):
    pass


@dataclass
class Elf:
    bits: int = 64
    le: bool = True
    machine: int = 0
    etype: int = 0
    osabi: int = 0
    flags: int = 0
    interp: str | None = None
    dynamic: bool = False
    needed: list = field(default_factory=list)
    soname: str | None = None
    rpath: str | None = None
    runpath: str | None = None
    verneed: dict = field(default_factory=dict)   # lib -> [versions]
    symbols: list = field(default_factory=list)   # (name, bind, type, defined, version)
    payload: bytes | None = None
    sections: list = field(default_factory=list)
    isa: int | None = None

    def undefined(self):
        return {s[0] for s in self.symbols if not s[3]}

    def defined(self):
        return {s[0] for s in self.symbols if s[3]}


def read_elf(data: bytes) -> Elf:
    if data[:4] != b"\x7fELF" or len(data) < 52:
        raise NotElf
    e = Elf()
    e.bits = {1: 32, 2: 64}[data[4]]
    e.le = {1: True, 2: False}[data[5]]
    e.osabi = data[7]
    en = "<" if e.le else ">"
    is64 = e.bits == 64
    U = lambda fmt, off: struct.unpack_from(en + fmt, data, off)  # noqa: E731
    if is64:
        (e.etype, e.machine, _v, _entry, phoff, shoff, e.flags, _eh, phs, phn, shs, shn, shx) = \
            U("HHIQQQIHHHHHH", 16)
    else:
        (e.etype, e.machine, _v, _entry, phoff, shoff, e.flags, _eh, phs, phn, shs, shn, shx) = \
            U("HHIIIIIHHHHHH", 16)
    loads = []
    dyn = None
    for i in range(phn):
        o = phoff + i * phs
        if is64:
            t, _fl, off, va, _pa, fsz, _msz, _al = U("IIQQQQQQ", o)
        else:
            t, off, va, _pa, fsz, _msz, _fl, _al = U("IIIIIIII", o)
        if t == 1:
            loads.append((va, off, fsz))
        elif t == 2:
            dyn = (off, fsz, va)
        elif t == 3:
            e.interp = data[off:off + fsz].split(b"\0")[0].decode()
        elif t == 4:
            _notes(e, data, off, fsz, en, is64)

    def v2o(va):
        for v, o, sz in loads:
            if v <= va < v + sz:
                return va - v + o
        raise ValueError(f"address {va:#x} not in any PT_LOAD")

    if shoff:
        for i in range(shn):
            o = shoff + i * shs
            if o + shs > len(data):
                break
            nm, typ = U("II", o)
            if is64:
                _f, ad, of, sz = U("QQQQ", o + 8)
            else:
                _f, ad, of, sz = U("IIII", o + 8)
            e.sections.append([nm, typ, ad, of, sz])
        if 0 < shx < len(e.sections):
            so = e.sections[shx][3]
            for s in e.sections:
                end = data.index(b"\0", so + s[0])
                s[0] = data[so + s[0]:end].decode("latin1")
    k = data.find(b"AWV-PAYLOAD:")
    if k >= 0:
        e.payload = data[k + 12:data.index(b"\0", k + 12)]

    if dyn is None:
        return e
    e.dynamic = True
    tags = []
    step = 16 if is64 else 8
    # the loader uses the virtual address of PT_DYNAMIC
    try:
        doff = v2o(dyn[2])
    except ValueError:
        doff = dyn[0]
    for o in range(doff, doff + dyn[1], step):
        a, b = U("QQ" if is64 else "II", o)
        if a == 0:
            break
        tags.append((a, b))
    d = {}
    for a, b in tags:
        d.setdefault(a, b)
    strtab = v2o(d[5])

    def S(off):
        end = data.index(b"\0", strtab + off)
        return data[strtab + off:end].decode("utf-8", "surrogateescape")

    for a, b in tags:
        if a == 1:
            e.needed.append(S(b))
        elif a == 14:
            e.soname = S(b)
        elif a == 15:
            e.rpath = S(b)
        elif a == 29:
            e.runpath = S(b)
    vernames = {}
    if 0x6FFFFFFE in d and 0x6FFFFFFF in d:
        o = v2o(d[0x6FFFFFFE])
        for _ in range(d[0x6FFFFFFF]):
            _vv, cnt, fo, aux, nx = U("HHIII", o)
            lib = S(fo)
            ao = o + aux
            for _j in range(cnt):
                _h, _fl, other, nm, anx = U("IHHII", ao)
                e.verneed.setdefault(lib, []).append(S(nm))
                vernames[other] = (lib, S(nm))
                if not anx:
                    break
                ao += anx
            if not nx:
                break
            o += nx
    nsym = None
    if 4 in d:
        try:
            _nb, nsym = U("II", v2o(d[4]))
        except (ValueError, struct.error):
            nsym = None
        # s390x uses 64-bit hash entries; a sane nsym is enough for us
        if nsym is not None and (nsym == 0 or nsym > 1 << 20):
            nsym = None
    symsz = 24 if is64 else 16
    if nsym is None:
        for s in e.sections:
            if s[1] == 11:
                nsym = s[4] // symsz
    if nsym and 6 in d:
        so = v2o(d[6])
        vo = v2o(d[0x6FFFFFF0]) if 0x6FFFFFF0 in d else None
        for i in range(1, nsym):
            if is64:
                nm, info, _oth, shn_, _val, _sz = U("IBBHQQ", so + i * symsz)
            else:
                nm, _val, _sz, info, _oth, shn_ = U("IIIBBH", so + i * symsz)
            ver = None
            if vo is not None:
                ver = vernames.get(U("H", vo + 2 * i)[0] & 0x7FFF)
            e.symbols.append((S(nm), info >> 4, info & 15, shn_ != 0, ver))
    return e


def _notes(e, data, off, size, en, is64):
    end = off + size
    al = 8 if is64 else 4
    o = off
    while o + 12 <= end:
        nsz, dsz, typ = struct.unpack_from(en + "III", data, o)
        name = data[o + 12:o + 12 + nsz]
        do = o + 12 + (nsz + 3) // 4 * 4
        if typ == 5 and name == b"GNU\0":
            q = do
            while q + 8 <= do + dsz:
                pt, ps = struct.unpack_from(en + "II", data, q)
                if pt == 0xC0008002 and ps == 4:
                    e.isa = struct.unpack_from(en + "I", data, q + 8)[0]
                q += 8 + (ps + al - 1) // al * al
        o = do + (dsz + al - 1) // al * al
        if nsz == 0 and dsz == 0:
            break
