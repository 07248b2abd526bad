"""Independent reference: dependency closures, policy verdicts and graft sets,
computed from the scenario description (not from auditwheel's code)."""
from __future__ import annotations

import fnmatch
import os
import posixpath
import re

from . import pol

LIBPY = re.compile(r"^libpython\d+\.\d+[a-z]*\.so(\.\d+)*$")
PYFPE = {"PyFPE_jbuf", "PyFPE_dummy", "PyFPE_counter"}


def is_libpython(n):
    return bool(LIBPY.match(n))


class Model:
    def __init__(self, w, b=None):
        self.w = w
        self.pols = pol.policies(w.libc, w.arch)
        self.linux = self.pols[0]
        self.real = [p for p in self.pols if p.prio]
        self.live = [e for e in w.elfs if e["role"] not in ("foreign",)]
        self.exclude = list(w.opts.get("exclude", ()))
        self.b = b

    # ---- names
    def excluded(self, name):
        if any(fnmatch.fnmatch(name, e) for e in self.exclude):
            return True
        t = self.w.names.get(name)
        if t and t[0] == "ext" and self.b is not None and not is_libpython(name):
            return any(fnmatch.fnmatch(str(self.b.ext_path[t[1]]), e) for e in self.exclude)
        return False

    def spec_of(self, name):
        t = self.w.names.get(name)
        if t is None:
            return None
        if t[0] == "ext":
            return self.w.ext[t[1]]["spec"]
        if t[0] == "in":
            return self.w.elf_at(t[1])["spec"]
        return None

    def needed(self, spec):
        return [n for n in spec.get("needed", ()) if not self.excluded(n)]

    def closure(self, spec, p, res=None):
        """names auditwheel must deal with for this ELF under policy p:
        -> (ext indexes by name, missing names, libpython names, in-wheel names)"""
        res = res or {}
        ext, miss, py, inw, seen = {}, set(), set(), set(), set()
        todo = [n for n in self.needed(spec)]
        while todo:
            n = todo.pop()
            if n in seen or pol.is_loader(n) or n in p.white or self.excluded(n):
                continue
            seen.add(n)
            if is_libpython(n):
                py.add(n)
                continue
            t = ("ext", res[n]) if n in res else self.w.names.get(n)
            if t is None:
                miss.add(n)
                continue
            if t[0] == "ext":
                ext[n] = t[1]
                todo += self.needed(self.w.ext[t[1]]["spec"])
                continue
            if t[0] == "in":
                inw.add(n)
            todo += self.needed(self.spec_of(n))
        return ext, miss, py, inw

    def toplevel(self):
        names = {n for e in self.live for n in self.needed(e["spec"])}
        return [e for e in self.live
                if e["role"] in ("ext", "ext2") or posixpath.basename(e["path"]) not in names
                or any(posixpath.basename(e["path"]) in p.white for p in self.real)]

    # ---- policy by policy
    def libs(self, p, elfs=None):
        """sonames not provided by p, over the entry-point ELFs: {name: ext idx or None}"""
        out = {}
        for e in (self.toplevel() if elfs is None else elfs):
            ext, miss, py, _ = self.closure(e["spec"], p, e.get("res"))
            out.update(ext)
            for n in miss | py:
                out[n] = None
        return out

    def pairs(self, p, elfs):
        """(name, ext idx) of every external library found for the ELF files given"""
        return {x for e in elfs for x in self.closure(e["spec"], p, e.get("res"))[0].items()}

    def versions(self, p, grafts=True):
        vs = {}
        specs = [e["spec"] for e in self.live]
        if grafts:
            specs += [self.w.ext[i]["spec"] for i in
                      {v for _, v in self.pairs(p, self.live)}]
        for s in specs:
            for lib, vers in s.get("verneed", ()):
                if lib.startswith("ld-linux") or lib in ("ld64.so.1", "ld64.so.2"):
                    continue
                vs.setdefault(lib, set()).update(vers)
        return vs

    def sym_ok(self, p):
        vs = self.versions(p)
        return p.sym_ok({v for s in vs.values() for v in s})

    def sym_best(self):
        return max([p for p in self.real if self.sym_ok(p)] or [self.linux], key=lambda p: p.prio)

    def blacklist(self, p):
        bad = {}
        for e in self.toplevel():
            need = set(self.needed(e["spec"]))
            und = {s[0] for s in e["spec"].get("syms", ()) if not s[3] and s[1] != "weak"}
            for lib, syms in p.black.items():
                if lib in need:
                    hit = syms & (und | {"*"})
                    if hit:
                        bad.setdefault(lib, set()).update(hit)
        return bad

    def blacklist_best(self):
        return max([p for p in self.real if not self.blacklist(p)] or [self.linux],
                   key=lambda p: p.prio)

    def ucs2(self):
        return any(s[0].startswith("PyUnicodeUCS2_") and not s[3] and s[2] == "func"
                   for e in self.live if e["role"] == "ext2" for s in e["spec"].get("syms", ()))

    def pyfpe(self):
        return any(s[0] in PYFPE and not s[3] and s[2] in ("func", "notype")
                   for e in self.live if e["role"] in ("ext", "ext2")
                   for s in e["spec"].get("syms", ()))

    def isa_bad(self, spec):
        isa = spec.get("isa")
        return self.w.arch == "x86_64" and isa is not None and bool(isa & 0b1110)

    def machine_best(self):
        """highest policy allowed by ISA requirements"""
        best = self.real[-1]
        for e in self.toplevel():
            if self.isa_bad(e["spec"]):
                return self.linux
        for p in self.real:
            for n, i in self.pairs(p, self.toplevel()):
                if self.isa_bad(self.w.ext[i]["spec"]):
                    allowed = [q for q in self.real if n in q.white]
                    cap = max(allowed, key=lambda q: q.prio) if allowed else self.linux
                    if cap.prio < best.prio:
                        best = cap
        return best

    def ref_best(self):
        return max([p for p in self.real if not self.libs(p)] or [self.linux],
                   key=lambda p: p.prio)

    def caps(self):
        top = self.real[-1]
        return {
            "sym": self.sym_best(), "ucs2": self.linux if self.ucs2() else top,
            "pyfpe": self.linux if self.pyfpe() else top, "blacklist": self.blacklist_best(),
            "isa": top if self.w.opts.get("disable_isa") else self.machine_best(),
        }

    def show_overall(self):
        c = self.caps()
        return min([*c.values(), self.ref_best()], key=lambda p: p.prio)

    def policy_named(self, plat):
        """policy for a --plat value or tag (canonical or alias, with arch)"""
        for p in self.real:
            if plat in p.names():
                return p
        return None

    def requested(self):
        plat = self.w.opts.get("plat", "auto")
        if plat == "auto":
            return None
        base = plat[: -len("_" + self.w.arch)] if plat.endswith("_" + self.w.arch) else plat
        return self.policy_named(f"{base}_{self.w.arch}")

    def overall_repair(self):
        c = self.caps()
        best = min(c.values(), key=lambda p: p.prio)
        req = self.requested()
        if req is None:
            n = min(len(self.libs(p)) for p in self.real)
        else:
            n = len(self.libs(req))
        graft = max([p for p in self.real if len(self.libs(p)) <= n] or [self.linux],
                    key=lambda p: p.prio)
        return min(best, graft, key=lambda p: p.prio)

    def plan(self):
        """-> dict(ok, why, requested, target, tags, grafts {ext idx}, noop)"""
        c = self.caps()
        over = self.overall_repair()
        req = self.requested()
        auto = req is None
        if auto:
            req = self.real[0] if over.prio == 0 else over
        for k, v in c.items():
            if req.prio > v.prio:
                return dict(ok=False, why=k, requested=req)
        target = req
        tags = list(req.names())
        if not self.w.opts.get("only_plat") and req.prio < over.prio:
            target = over
            tags = [*over.names(), *tags]
        grafts, miss, py = set(), set(), set()
        renames = {}
        for e in self.live:
            x, m, pyn, _ = self.closure(e["spec"], target, e.get("res"))
            grafts |= set(x.values())
            miss |= m
            py |= pyn
            for n, i in x.items():
                renames[n] = i
        if miss:
            return dict(ok=False, why="missing:" + ",".join(sorted(miss)), requested=req,
                        target=target)
        return dict(ok=True, requested=req, target=target, tags=list(dict.fromkeys(tags)),
                    grafts=grafts, renames=renames, libpython=py,
                    touched={e["path"] for e in self.live
                             if any(self.closure(e["spec"], target, e.get("res"))[k] for k in (0, 2))})


def graft_name(realname, data_sha8):
    base, dot, ext = realname.partition(".")
    if base.endswith("-" + data_sha8):
        return realname
    return f"{base}-{data_sha8}{dot}{ext}"


def expand_tag_set(filename):
    stem = os.path.basename(filename)[:-4]
    parts = stem.split("-")
    py, abi, plat = parts[-3].split("."), parts[-2].split("."), parts[-1].split(".")
    return py, abi, plat
