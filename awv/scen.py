"""Random worlds: a wheel, the external libraries around it, how they are
located, and the options auditwheel is run with.  Everything is decided by the
case's PRNG, so a (property, seed, index) triple replays it."""
from __future__ import annotations

import base64
import csv
import hashlib
import io
import json
import os
import posixpath
import zipfile
from pathlib import Path

from . import elfgen, pol
from .elfgen import ARCHES, MUSL_SONAME, make_elf

LOADER = {a: os.path.basename(v[5]) for a, v in ARCHES.items()}
HOST_GLIBC = ("2_39", 53)
LIBPYTHONS = ["libpython3.12.so.1.0", "libpython3.6m.so.1.0", "libpython3.11.so", "libpython3.13t.so.1.0",
              "libpython3.14td.so.1.0", "libpython2.7.so.1.0", "libpython3.10d.so.12"]
GLIBC_EXTRA = ["libm.so.6", "libpthread.so.0", "libdl.so.2", "librt.so.1", "libutil.so.1"]


def fsid(i):
    return 1000 + i


# names that tools like to skip, to sort apart or to take for something of their own
LITTER = ["qpkg/mod.py~", "qpkg/.hidden", ".toplevel", ".auditwheel-x/f", "qpkg/.gitignore", "qpkg/.git/HEAD", "qpkg/.DS_Store",
          "qpkg/Thumbs.db", "qpkg/m.pyc", "qpkg/__pycache__/n.cpython-312.pyc", "qpkg/#save#", "qpkg/mod.py.orig",
          "qpkg/x.bak", "qpkg/x.tmp", "qpkg/x.swp", "qpkg/core", "qpkg/x.o", "qpkg/libx.a", "qpkg/libx.la", "qpkg/x.egg-link",
          "qpkg/RECORD", "qpkg/WHEEL", "qpkg/METADATA", "RECORD", "WHEEL", "qpkg/x.whl", "qpkg/x.zip", "qpkg/x.tar.gz",
          "qpkg/a b\tc.txt", "qpkg/pct%20.txt", "qpkg/back`tick", "qpkg/dollar$HOME", "qpkg/star*", "qpkg/q?", "qpkg/[x]",
          "qpkg/semi;colon", "qpkg/amp&", "qpkg/eq=", "qpkg/at@v", "qpkg/plus+", "qpkg/tilde~/f", "qpkg/-dash", "qpkg/...",
          "qpkg/..data", "qpkg/x.", "qpkg/trail ", "qpkg/\U0001f40d.txt", "qpkg/e\u0301.txt", "qpkg/\u00e9.txt",
          "qpkg/nb\u00a0sp", "qpkg/\u202ertl", "qpkg/deep/a/b/c/d/e/f/g/h", "qpkg/" + "n" * 200, "qpkg/tests/data.txt", "tests/t.py",
          "qpkg/auditwheel.cdx.json", "qpkg/x.libs/readme.txt", "qpkg/x.dist-info/METADATA", "qpkg/x.data/scripts/s",
          "qpkg/so", "qpkg/x.so.txt", "qpkg/libs", "lib/x.txt", "bin/tool", "etc/ld.so.conf", "proc/self", "qpkg/a\nb.txt"]


class World:
    def __init__(self):
        self.libc = "glibc"
        self.arch = "x86_64"
        self.name = "pkgq"
        self.ver = "1.0"
        self.build = None
        self.pytags = ["cp312"]
        self.abi = "cp312"
        self.plats = ["linux_x86_64"]
        self.purelib_flag = "false"
        self.elfs = []      # dict(path, role, spec, mode, id)
        self.files = []     # dict(path, data(bytes), mode, ...)
        self.ext = []       # dict(dir, real, names, spec, mode, id)
        self.decoys = []    # dict(dir, name, data)
        self.names = {}     # DT_NEEDED name -> ("ext", k) | ("in", path) | ("host",) | ("miss",)
        self.locate = "allp"
        self.opts = {}
        self.level = None   # policy whose symbol versions were drawn from
        self.machine = None
        self.dirs = []      # names of external dirs
        self.direntries = False
        self.signed = False
        self.unlisted = []       # members RECORD does not list
        self.crlf_record = False
        self.extra_record = []   # rows RECORD has although no such member exists
        self.notes = set()

    # ---- names
    @property
    def distinfo(self):
        return f"{self.name}-{self.ver}.dist-info"

    @property
    def data(self):
        return f"{self.name}-{self.ver}.data"

    @property
    def filename(self):
        parts = [self.name, self.ver]
        if self.build:
            parts.append(self.build)
        return "-".join([*parts, ".".join(self.pytags), self.abi, ".".join(self.plats)]) + ".whl"

    @property
    def libs_dir(self):
        return self.name + self.opts.get("lib_sdir", ".libs")

    def elf_at(self, path):
        for e in self.elfs:
            if e["path"] == path:
                return e
        return None

    def brief(self):
        return {
            "wheel": self.filename, "libc": self.libc, "arch": self.arch, "locate": self.locate,
            "level": self.level, "opts": {k: v for k, v in self.opts.items() if v},
            "elfs": [{"path": e["path"], "role": e["role"], "needed": e["spec"].get("needed"),
                      "rpath": e["spec"].get("rpath"), "runpath": e["spec"].get("runpath"),
                      "verneed": e["spec"].get("verneed"), "isa": e["spec"].get("isa"),
                      "mode": oct(e["mode"])} for e in self.elfs],
            "ext": [{"dir": x["dir"], "real": x["real"], "names": x["names"],
                     "needed": x["spec"].get("needed"), "rpath": x["spec"].get("rpath"),
                     "runpath": x["spec"].get("runpath"), "verneed": x["spec"].get("verneed"),
                     "mode": oct(x["mode"])} for x in self.ext],
            "files": [f["path"] for f in self.files], "notes": sorted(self.notes),
        }

    def key(self):
        """shape of the world, for counting distinct cases"""
        return (self.libc, self.arch, self.locate, self.level,
                sorted((e["role"], len(e["spec"].get("needed", ())),
                        bool(e["spec"].get("rpath")), bool(e["spec"].get("runpath")))
                       for e in self.elfs),
                sorted((len(x["names"]), len(x["spec"].get("needed", ()))) for x in self.ext),
                sorted((k, str(v)) for k, v in self.opts.items() if v), sorted(self.notes))


def pick(rng, weighted):
    t = sum(w for _, w in weighted)
    x = rng.random() * t
    for v, w in weighted:
        x -= w
        if x <= 0:
            return v
    return weighted[-1][0]


class Gen:
    """knobs (all optional): libc, arch, n_ext, n_in, n_lib, p_script, p_exe, p_foreign,
    p_libpython, p_whitelisted, p_garbage_rpath, p_cycle, p_missing, locate, real (must be
    loadable on this host), opts (forced), p_files, levels."""

    def __init__(self, rng, **kn):
        self.r = rng
        self.kn = kn
        self.w = World()
        self.ids = 0

    def k(self, name, default):
        v = self.kn.get(name, default)
        if isinstance(v, tuple):
            return self.r.randint(*v)
        return v

    def p(self, name, default):
        return self.r.random() < self.kn.get(name, default)

    def nid(self):
        self.ids += 1
        return self.ids

    # ------------------------------------------------------------------
    def generate(self):
        r, w = self.r, self.w
        real = self.kn.get("real", False)
        w.libc = self.kn.get("libc") or ("glibc" if real else pick(r, [("glibc", 85), ("musl", 15)]))
        if self.kn.get("arch"):
            w.arch = self.kn["arch"]
        elif real:
            w.arch = "x86_64"
        else:
            al = pol.glibc_arches() if w.libc == "glibc" else pol.musl_arches()
            al = [a for a in al if a in ARCHES]
            w.arch = pick(r, [(a, 12 if a == "x86_64" else 1.5 if a == "aarch64" else 1)
                              for a in al])
        self.pols = pol.policies(w.libc, w.arch)
        lv = [p for p in self.pols if p.prio]
        if real:
            lv = [p for p in lv if p.prio >= HOST_GLIBC[1]]
        want = self.kn.get("levels")
        if want:
            lv = [p for p in lv if p.base in want] or lv
        self.level = r.choice(lv)
        w.level = self.level.base
        self._dist()
        self._extdirs()
        self._extlibs()
        self._inlibs()
        self._exts()
        self._scripts()
        self._twins()
        self._borrowed()
        self._foreign()
        self._files()
        self._options()
        return w

    def _dist(self):
        r, w = self.r, self.w
        w.name = r.choice(["pkgq", "Pkg_Q", "q.dotted", "q1_2", "pkgq", "x"])
        w.name = self.kn.get("name", w.name)
        w.ver = r.choice(["1.0", "2.0.post1", "0.1.dev3", "1.0+cu12.1", "2024.1", "1.0rc1"])
        w.build = r.choice([None, None, None, "1", "3b"])
        w.pytags = r.choice([["cp312"], ["cp312"], ["cp39", "cp310"], ["py3"], ["pp310"]])
        w.abi = r.choice(["cp312", "abi3", "none", "cp312.abi3" if False else "cp312"])
        w.plats = [f"linux_{w.arch}"]
        if "plats" in self.kn:
            w.plats = self.kn["plats"]
        w.purelib_flag = "false"
        w.direntries = r.random() < 0.4
        w.signed = r.random() < 0.15

    def _extdirs(self):
        r, w = self.r, self.w
        w.locate = self.kn.get("locate") or pick(
            r, [("allp", 4), ("llp", 2), ("ldpaths", 2), ("rpath", 3), ("runpath", 3), ("mixed", 2)])
        w.dirs = [f"d{i}" for i in range(r.randint(1, 3))]
        if r.random() < 0.15:
            w.dirs.append("d with space")

    def libc_needed(self, k=None):
        r, w = self.r, self.w
        if w.libc == "musl":
            return [MUSL_SONAME[w.arch]]
        out = ["libc.so.6"]
        for n in GLIBC_EXTRA:
            if r.random() < 0.15:
                out.append(n)
        if r.random() < 0.1:
            out.append(LOADER[w.arch])
        r.shuffle(out)
        return out

    def libc_verneed(self, level=None):
        """symbol versions allowed by `level` (so never more recent than it)"""
        r, w = self.r, self.w
        if w.libc == "musl":
            return []
        level = level or self.level
        vs = sorted(level.syms.get("GLIBC", ()))
        vs = [v for v in vs if v[0].isdigit()]
        if not vs:
            return []
        n = min(len(vs), r.choice([1, 1, 2, 3]))
        got = r.sample(vs, n)
        if r.random() < 0.4:
            # the newest the level allows: forces exactly this policy
            top = max(vs, key=lambda s: [int(x) for x in s.split(".")])
            if top not in got:
                got.append(top)
        return [("libc.so.6", ["GLIBC_" + g for g in got])]

    # ------------------------------------------------------------------
    def _extlibs(self):
        r, w = self.r, self.w
        n = self.k("n_ext", (0, 5))
        self.chain = bool(n) and self.p("p_chain", 0.15)
        if self.chain:
            n = max(n, r.randint(3, 8))
            w.notes.add("chain")
        for i in range(n):
            style = r.randrange(8)
            j = r.randint(0, 3)
            soname = [f"libq{i}.so.{j}", f"libq{i}.so", f"libq{i}-2.5.so.0", f"libq{i}_x+y.so.1",
                      f"libq.{i}.so.1", f"libq{i}.so.{j}", f"libQ{i}.so.{j}.5",
                      r.choice([f"libqld-linux{i}.so.1", f"libqlibpython3.{i}.so.1"])][style]
            rv = r.randrange(5)
            realname = {0: soname, 1: soname, 2: soname + ".2.0", 3: f"libq{i}real-9.9.so",
                        4: soname + ".7"}[rv]
            names = [soname]
            if rv == 4 and r.random() < 0.5:
                # a second name for the same file, used by other objects
                names.append(f"libq{i}alias.so")
            links = list(dict.fromkeys(names))
            x = dict(dir=r.choice(w.dirs), real=realname, names=links,
                     chain=(r.random() < 0.2 and realname != soname),
                     mode=r.choice([0o644, 0o755, 0o755, 0o444, 0o555, 0o600]), id=self.nid())
            x["spec"] = dict(arch=w.arch, soname=r.choice([soname, soname, soname, None]),
                             needed=[], verneed=[], exports=[(f"awv_x{i}", fsid(x["id"]))],
                             payload=f"ext{i}".encode())
            w.ext.append(x)
            for nm in links:
                w.names[nm] = ("ext", i)
        for i, x in enumerate(w.ext):
            deps = [j for j in range(i + 1, n) if r.random() < 0.4]
            if self.chain:
                deps = [i + 1] if i + 1 < n else []
            if self.p("p_cycle", 0.08) and i:
                deps.append(r.randrange(i))
            if self.p("p_extin", 0.0):
                pass
            need = [r.choice(w.ext[j]["names"]) for j in deps]
            if w.libc == "musl" or r.random() < 0.85:
                need += self.libc_needed()
                if "libc.so.6" in need:
                    x["spec"]["verneed"] = self.libc_verneed()
            if self.p("p_ext_libpython", 0.04):
                need.append(r.choice(LIBPYTHONS))
                w.notes.add("ext-libpython")
            r.shuffle(need)
            x["spec"]["needed"] = need
            if self.p("p_ext_whitelisted", 0.1):
                self._add_whitelisted(x["spec"])
            # versioned dependency on another external library: its .gnu.version_r entry
            # must follow the rename
            if deps and r.random() < self.kn.get("p_verdep", 0.25):
                j = r.choice(deps)
                nm = next(nn for nn in need if w.names.get(nn) == ("ext", j))
                x["spec"]["verneed"] = x["spec"]["verneed"] + [(nm, [f"LIBQ{j}_1.0"])]
                w.notes.add("verdep")
            x["deps"] = deps
        for i, x in enumerate(w.ext):
            self._rpaths_for(x["spec"], [w.ext[j]["dir"] for j in x["deps"]], x["dir"])

    def _rpaths_for(self, spec, dirs, own_dir=None, inwheel=(), force_rpath=False):
        """RPATH/RUNPATH so that `dirs` (external) and `inwheel` ($ORIGIN-relative) are
        reachable, as the location mode requires.  '@d@' is replaced by the real dir."""
        r, w = self.r, self.w
        entries = list(inwheel)
        loc = w.locate
        if loc in ("rpath", "runpath") or (loc == "mixed" and r.random() < 0.5):
            for d in dict.fromkeys(dirs):
                if own_dir == d and r.random() < 0.6:
                    entries.append(r.choice(["$ORIGIN", "${ORIGIN}", "$ORIGIN/"]))
                elif own_dir is not None and r.random() < 0.3:
                    entries.append(f"$ORIGIN/../{d}")
                else:
                    entries.append(f"@{d}@")
        if self.p("p_garbage_rpath", 0.25):
            for _ in range(r.randint(1, 3)):
                entries.insert(r.randint(0, len(entries)), r.choice(
                    ["/usr/lib", "/nonexistent/x", "/opt/q/lib64", "$ORIGIN/../../..", "$ORIGIN",
                     "/usr/lib/$LIB", "$ORIGIN/nonexist"]))
            if entries and r.random() < 0.4:
                entries.insert(r.randint(0, len(entries)), r.choice(entries))
            if r.random() < 0.25:
                # many places inside the wheel, the first ones named again at the end
                more = [f"$ORIGIN/s{i}" for i in range(r.randint(4, 9))]
                entries += more + r.sample(more[:4], r.randint(1, 3))
        if not entries:
            return
        kind = loc if loc in ("rpath", "runpath") else r.choice(["rpath", "runpath"])
        if force_rpath:
            kind = "rpath"
        spec[kind] = ":".join(entries)

    def _add_whitelisted(self, spec):
        r, w = self.r, self.w
        if w.libc == "musl":
            spec["needed"] = spec["needed"] + ["libz.so.1"]
            return
        c = r.choice(["libz.so.1", "libexpat.so.1", "libmvec.so.1", "libstdc++.so.6",
                      "libgcc_s.so.1", "libresolv.so.2"])
        if self.kn.get("real") and c not in ("libz.so.1", "libstdc++.so.6", "libgcc_s.so.1",
                                             "libresolv.so.2"):
            c = "libz.so.1"
        if c in ("libexpat.so.1", "libmvec.so.1"):
            # not whitelisted by every policy: must then be grafted, so provide one
            self._provide(c)
        spec["needed"] = spec["needed"] + [c]
        self.w.notes.add("wl:" + c)
        if c == "libstdc++.so.6" and r.random() < 0.7:
            vs = sorted(self.level.syms.get("GLIBCXX", ()))
            vs = [v for v in vs if v[0].isdigit()]
            if vs:
                spec["verneed"] = list(spec["verneed"]) + [(c, ["GLIBCXX_" + r.choice(vs)])]

    def _provide(self, soname):
        r, w = self.r, self.w
        if soname in w.names:
            return
        x = dict(dir=w.dirs[0], real=soname, names=[soname], chain=False, mode=0o755, id=self.nid(),
                 deps=[])
        x["spec"] = dict(arch=w.arch, soname=soname, needed=["libc.so.6"],
                         verneed=self.libc_verneed(), payload=soname.encode(),
                         exports=[(f"awv_w{x['id']}", fsid(x["id"]))])
        w.names[soname] = ("ext", len(w.ext))
        w.ext.append(x)

    # ------------------------------------------------------------------
    def _inlibs(self):
        r, w = self.r, self.w
        n = self.k("n_in", (0, 2))
        self.inlibs = []
        for i in range(n):
            d = r.choice([w.name.replace(".", "_").lower() + "pkg/lib", "qpkg", "qpkg/_vendored",
                          w.name + ".libs", "."])
            if d.endswith("_vendored"):
                d += r.choice(["", "/a/b c/d/e"])
            fn = r.choice([f"libin{i}.so", f"libin{i}.so.1", f"libin{i}-abcd1234.so.2",
                           f"libin0.so.{i + 3}"])
            if i < 3 and self.w.libc == "glibc" and self.p("p_wlname", 0.0):
                # the wheel's own copy of a library every platform guarantees
                fn = ["libz.so.1", "libgcc_s.so.1", "libresolv.so.2"][i % 3]
                w.notes.add("wlname")
            path = posixpath.normpath(posixpath.join(d, fn))
            e = dict(path=path, role="lib", mode=r.choice([0o755, 0o644, 0o555]), id=self.nid())
            e["spec"] = dict(arch=w.arch, soname=fn, needed=[], verneed=[],
                             exports=[(f"awv_i{i}", fsid(e["id"]))], payload=f"in{i}".encode())
            w.names[fn] = ("in", path)
            self.inlibs.append(e)
            w.elfs.append(e)
        for i, e in enumerate(self.inlibs):
            deps = [self.inlibs[j] for j in range(i + 1, n) if r.random() < 0.4]
            if self.kn.get("line"):
                # one long chain, each link knows only the next
                deps = self.inlibs[i + 1:i + 2]
            xs = [j for j in range(len(w.ext)) if r.random() < 0.3]
            if self.chain:
                xs = []
            self._wire(e, deps, xs, libc=r.random() < 0.8)

    def _wire(self, e, inl, xs, libc=True, force_rpath=False):
        r, w = self.r, self.w
        spec = e["spec"]
        need = [os.path.basename(x["path"]) for x in inl] + [r.choice(w.ext[j]["names"]) for j in xs]
        if libc:
            need += self.libc_needed()
        r.shuffle(need)
        spec["needed"] = need
        if "libc.so.6" in need:
            spec["verneed"] = self.libc_verneed()
        xdeps = [j for j in xs if w.ext[j]["real"].startswith(("libq", "libQ"))]
        if xdeps and r.random() < self.kn.get("p_verdep", 0.25):
            j = r.choice(xdeps)
            nm = next(nn for nn in need if w.names.get(nn) == ("ext", j))
            spec["verneed"] = list(spec["verneed"]) + [(nm, [f"LIBQ{j}_1.0"])]
            w.notes.add("verdep")
        here = posixpath.dirname(e["path"]) or "."
        rel = []
        for x in inl:
            there = posixpath.dirname(x["path"]) or "."
            rp = posixpath.relpath(there, here)
            rel.append("$ORIGIN" if rp == "." else f"$ORIGIN/{rp}")
        self._rpaths_for(spec, [w.ext[j]["dir"] for j in xs], None, list(dict.fromkeys(rel)),
                         force_rpath)

    def _exts(self):
        r, w = self.r, self.w
        n = self.k("n_lib", (1, 3))
        tag = f"cpython-312-{w.arch}-linux-gnu" if w.libc == "glibc" else \
            f"cpython-312-{w.arch}-linux-musl"
        self.extmods = []
        for i in range(n):
            d = r.choice(["qpkg", "qpkg/sub", "qpkg/sub/deep", "."])
            if d.endswith("deep"):
                d += r.choice(["", "/and/deeper/still"])
            mod = f"_e{i}"
            fn = mod + r.choice([".so", ".abi3.so", f".{tag}.so"])
            e = dict(path=posixpath.normpath(posixpath.join(d, fn)), role="ext", mod=mod,
                     mode=r.choice([0o755, 0o644, 0o755, 0o555]), id=self.nid())
            e["spec"] = dict(arch=w.arch, soname=r.choice([None, fn]), needed=[], verneed=[],
                             exports=[(f"PyInit_{mod}", 0), (f"awv_m{i}", fsid(e["id"]))],
                             syms=[("PyArg_ParseTuple", "glob", "func", False)] if not
                             self.kn.get("real") else [], payload=f"mod{i}".encode())
            w.elfs.append(e)
            inl = [x for x in self.inlibs if r.random() < 0.6]
            xs = [j for j in range(len(w.ext)) if r.random() < (0.6 if i == 0 else 0.35)]
            if self.chain:
                xs = [0] if w.ext and i == 0 else []
            if i == 0 and w.ext and not xs and r.random() < 0.8:
                xs = [r.randrange(len(w.ext))]
            self._wire(e, inl, xs)
            if self.p("p_whitelisted", 0.3):
                self._add_whitelisted(e["spec"])
            if self.p("p_libpython", 0.1):
                nm = r.choice(LIBPYTHONS)
                k = r.randint(0, len(e["spec"]["needed"]))
                e["spec"]["needed"] = e["spec"]["needed"][:k] + [nm] + e["spec"]["needed"][k:]
                w.notes.add("libpython")
            self.extmods.append(e)
        # objects found only through _add_whitelisted's provided library need its directory
        self._reach_provided()

    def _reach_provided(self):
        """rpath modes: give every object an entry for the dirs of what it needs."""
        w = self.w
        if w.locate not in ("rpath", "runpath", "mixed"):
            return
        for o in [*w.elfs, *w.ext]:
            for n in o["spec"].get("needed", ()):
                t = w.names.get(n)
                if t and t[0] == "ext" and n in ("libexpat.so.1", "libmvec.so.1"):
                    kind = "runpath" if o["spec"].get("runpath") else \
                        "rpath" if o["spec"].get("rpath") else \
                        ("runpath" if w.locate == "runpath" else "rpath")
                    ent = f"@{w.ext[t[1]]['dir']}@"
                    cur = o["spec"].get(kind)
                    if not cur or ent not in cur:
                        o["spec"][kind] = f"{cur}:{ent}" if cur else ent

    def _scripts(self):
        r, w = self.r, self.w
        for i in range(r.choice([1, 1, 2]) if self.p("p_script", 0.2) else 0):
            fn = r.choice([f"tool{i}", f"tool-{i}.x", f"tool{i}_y"])
            e = dict(path=f"{w.data}/scripts/{fn}", role="script", mode=r.choice([0o755, 0o775]),
                     id=self.nid())
            e["spec"] = dict(arch=w.arch, soname=None, needed=[], verneed=[], payload=b"script",
                             interp=True, exports=[(f"awv_s{i}", 1)])
            if w.libc == "musl":
                e["spec"]["interp"] = f"/lib/ld-musl-{w.arch}.so.1"
            w.elfs.append(e)
            xs = [j for j in range(len(w.ext)) if r.random() < 0.5]
            self._wire(e, [], xs)
            w.notes.add("script")
        if self.p("p_exe", 0.15):
            e = dict(path=r.choice(["qpkg/bin/qexe"] * 3 + ["qpkg/tool.txt", "qpkg/qexe.pyc", "qpkg/q.json"]),
                     role="exe", mode=0o755, id=self.nid())
            e["spec"] = dict(arch=w.arch, soname=None, needed=[], verneed=[], payload=b"exe",
                             interp=True, exports=[("awv_exe", 1)])
            if w.libc == "musl":
                e["spec"]["interp"] = f"/lib/ld-musl-{w.arch}.so.1"
            w.elfs.append(e)
            xs = [j for j in range(len(w.ext)) if r.random() < 0.4]
            self._wire(e, [], xs)
            w.notes.add("exe")

    def _twins(self):
        """another file for a name some ELF file needs directly, found first by it alone"""
        r, w = self.r, self.w
        if not self.p("p_twin", 0.0) or w.locate not in ("rpath", "runpath"):
            return
        cand = [(e, n) for e in self.extmods for n in e["spec"]["needed"] if w.names.get(n, ("", 0))[0] == "ext"]
        r.shuffle(cand)
        for e, n in cand[:r.randint(1, 2)]:
            orig = w.ext[w.names[n][1]]
            if len(orig["names"]) > 1 or not orig["real"].startswith(("libq", "libQ")) or e.get("res"):
                continue
            d = f"t{len(w.dirs)}"
            w.dirs.append(d)
            x = dict(dir=d, real=orig["real"], names=list(orig["names"]), chain=False, mode=0o755, id=self.nid(), deps=[])
            x["spec"] = dict(arch=w.arch, soname=orig["spec"]["soname"], needed=self.libc_needed(), verneed=[],
                             payload=f"twin{x['id']}".encode(), exports=list(orig["spec"]["exports"]))
            if "libc.so.6" in x["spec"]["needed"]:
                x["spec"]["verneed"] = self.libc_verneed(r.choice([q for q in self.pols if q.prio]))
            e["res"] = {n: len(w.ext)}
            w.ext.append(x)
            kind = "runpath" if e["spec"].get("runpath") else "rpath" if e["spec"].get("rpath") else w.locate
            cur = e["spec"].get(kind)
            e["spec"][kind] = f"@{d}@" + (":" + cur if cur else "")
            w.notes.add("twin")

    def _borrowed(self):
        """libraries of the wheel that only find each other thanks to the RPATH of a module"""
        r, w = self.r, self.w
        if not self.p("p_borrowed", 0.0) or any(e.get("res") for e in self.extmods):
            return
        byname = {posixpath.basename(e["path"]): e for e in self.inlibs}

        def reach(e, seen):
            for n in e["spec"]["needed"]:
                t = w.names.get(n)
                o = byname.get(n) or (w.ext[t[1]] if t and t[0] == "ext" else None)
                if o is not None and id(o) not in seen:
                    seen[id(o)] = o
                    reach(o, seen)
            return seen

        dirs = list(dict.fromkeys(posixpath.dirname(e["path"]) or "." for e in self.inlibs))
        # a library no module needs must do on its own
        used = {i for e in self.extmods for i in reach(e, {})}
        got = {i for e in self.inlibs if id(e) not in used for i in [id(e), *reach(e, {})]}
        for e in self.extmods:
            mine = [x for x in reach(e, {}).values() if "path" in x]
            if not mine:
                continue
            here = posixpath.dirname(e["path"]) or "."
            rel = [posixpath.relpath(d, here) for d in dirs]
            own = e["spec"].pop("rpath", None) or e["spec"].pop("runpath", None)
            e["spec"].pop("runpath", None)
            e["spec"]["rpath"] = ":".join([*([own] if own else []),
                                           *("$ORIGIN" if d == "." else f"$ORIGIN/{d}" for d in rel)])
            for x in mine:
                k = x["spec"]
                if k.get("runpath") or id(x) in got:
                    continue
                left = [d for d in k.pop("rpath", "").split(":") if d and not d.startswith("$ORIGIN")]
                if left:
                    k["rpath"] = ":".join(left)
                got.add(id(x))
                w.notes.add("borrowed")

    def _foreign(self):
        r, w = self.r, self.w
        if self.p("p_foreign", 0.15):
            others = [a for a in ARCHES if a != w.arch]
            a = r.choice(others)
            e = dict(path=r.choice(["qpkg/data/foreign.so", "qpkg/aaa_foreign.so",
                                    "zz/foreign-tool"]), role="foreign", mode=0o644, id=self.nid())
            e["spec"] = dict(arch=a, soname="foreign.so", needed=["libnothere.so.9", "libc.so.6"],
                             verneed=[("libc.so.6", ["GLIBC_2.99"])], payload=b"foreign",
                             rpath="/foreign/rpath")
            w.elfs.append(e)
            w.notes.add("foreign")
        if self.p("p_static", 0.05):
            e = dict(path="qpkg/data/static_tool", role="static", mode=0o755, id=self.nid())
            e["spec"] = dict(arch=w.arch, static=True, etype="exec", payload=b"static")
            w.elfs.append(e)
            w.notes.add("static")

    def _files(self):
        r, w = self.r, self.w
        w.files.append(dict(path="qpkg/__init__.py", data=b"x = 1\n", mode=0o644))
        pool = [
            ("qpkg/data.bin", bytes(r.getrandbits(8) for _ in range(r.randint(0, 300))), 0o644),
            ("qpkg/sp ace/fi,le.txt", b"a,b\n", 0o644),
            ("qpkg/quo\"te.txt", b"q", 0o640),
            ("qpkg/\u00fcml\u00e4ut.txt", "\u00fc".encode(), 0o644),
            ("qpkg/Data.bin", b"not data.bin", 0o644),
            ("qpkg/DATA.bin", b"neither", 0o644),
            ("qpkg/empty", b"", 0o600),
            ("qpkg/run.sh", b"#!/bin/sh\necho hi\n", 0o755),
            ("qpkg/crlf.txt", b"a\r\nb\r\n", 0o664),
            ("qpkg/not_elf.so", b"\x7fEL not really", 0o755),
            ("qpkg/elf.py", b"\x7fELF but python\n", 0o644),
            (f"{w.data}/data/share/q.conf", b"[q]\n", 0o644),
            (f"{w.data}/scripts/textscript", b"#!python\nprint(1)\n", 0o755),
            (f"{w.data}/headers/q.h", b"#define Q\n", 0o644),
            ("toplevel.py", b"t = 1\n", 0o644),
            (f"{w.distinfo}/entry_points.txt", b"[console_scripts]\nq = qpkg:x\n", 0o644),
            (f"{w.distinfo}/licenses/LICENSE", b"MIT\n", 0o644),
            ("qpkg/other.dist-info/RECORD", b"nested,,\n", 0o644),
            (f"qpkg/_v/{w.distinfo}/RECORD", b"nested,,\n", 0o644),
            (f"qpkg/_v/{w.distinfo}/WHEEL", b"Tag: nested\n", 0o644),
            (f"qpkg/_v/{w.distinfo}/RECORD.jws", b"nested", 0o644),
            ("qpkg/RECORD.jws", b"payload", 0o644),
            ("qpkg/zeroattr.txt", b"zero\n", None),
            ("qpkg/ro.txt", b"ro\n", 0o444),
            ("qpkg/big.txt", b"lorem ipsum " * 500, 0o644),
        ]
        for path, data, mode in pool:
            if r.random() < self.kn.get("p_file", 0.3):
                w.files.append(dict(path=path, data=data, mode=mode))
        if r.random() < self.kn.get("p_file", 0.3):
            for path in r.sample(LITTER, r.randint(1, 6)):
                w.files.append(dict(path=path, data=path.encode(), mode=r.choice([0o644, 0o644, 0o600, 0o755])))
        if r.random() < self.kn.get("p_file", 0.3):
            w.files.append(dict(path="qpkg/emptydir/", data=b"", mode=0o755, isdir=True))
        if r.random() < self.kn.get("p_large", 0.0):
            n = r.choice([65536, 131073, (1 << 20) - 1, (1 << 20) + 1, 3 << 20, (8 << 20) + 5])
            w.files.append(dict(path="qpkg/large.bin", data=r.randbytes(n) if r.random() < 0.5 else
                                bytes([r.randrange(256)]) * n, mode=0o644))
            w.notes.add("large")
            if w.elfs and r.random() < 0.5:
                r.choice(w.elfs)["spec"]["payload"] += r.randbytes(r.choice([70000, 1100000, 2500000]))

    def _options(self):
        r, w = self.r, self.w
        o = {}
        if r.random() < 0.15:
            o["lib_sdir"] = r.choice([".mylibs", "_libs", ".libs-x", "_q.libs"])
        if r.random() < 0.2:
            o["z"] = r.choice([0, 1, 6, 9])
        if r.random() < self.kn.get("p_strip", 0.1) and w.arch in ("x86_64", "i686") and self.kn.get("strip", True):
            o["strip"] = True
        if r.random() < 0.3:
            o["sde"] = r.choice([315532800, 1000000000, 1700000000, 0, 4102444799])
        if r.random() < 0.1:
            o["no_update_tags"] = True
        o.update(self.kn.get("opts", {}))
        w.opts = o


# ----------------------------------------------------------------------
def zinfo(path, mode, date=(2020, 2, 3, 4, 5, 6)):
    zi = zipfile.ZipInfo(path, date)
    if mode is not None:
        zi.external_attr = (mode if mode > 0o7777 else 0o100000 | mode) << 16
    if path.endswith("/"):
        zi.external_attr = ((0o40000 | (mode or 0o755)) << 16) | 0x10
    zi.compress_type = zipfile.ZIP_DEFLATED
    return zi


def record_line(path, data):
    h = base64.urlsafe_b64encode(hashlib.sha256(data).digest()).rstrip(b"=").decode()
    return [path, f"sha256={h}", str(len(data))]


def wheel_metadata(w):
    tags = [f"{p}-{a}-{pl}" for p in w.pytags for a in w.abi.split(".") for pl in w.plats]
    return ("Wheel-Version: 1.0\nGenerator: awv (1.0)\n" + "".join(x + "\n" for x in getattr(w, "meta_lines", ())) +
            f"Root-Is-Purelib: {w.purelib_flag}\n" + "".join(f"Tag: {t}\n" for t in tags)
            + (f"Build: {w.build}\n" if w.build else "") + "\n")


def write_wheel(path, members, distinfo, *, extra_record=(), drop_record=(), signed=False,
                order=None, crlf=False):
    """members: list of (arcname, data, mode|None).  RECORD is generated last."""
    rows = []
    with zipfile.ZipFile(path, "w") as z:
        for arc, data, mode in members:
            zi = zinfo(arc, mode)
            z.writestr(zi, data)
            if mode is None:
                zi.external_attr = 0      # writestr() fills it in; the directory is written last
            if not arc.endswith("/") and arc not in drop_record:
                rows.append(record_line(arc, data))
        if signed:
            z.writestr(zinfo(f"{distinfo}/RECORD.jws", 0o644), b'{"sig": "x"}')
            z.writestr(zinfo(f"{distinfo}/RECORD.p7s", 0o644), b"p7s")
        rows += [list(x) for x in extra_record]
        rows.append([f"{distinfo}/RECORD", "", ""])
        buf = io.StringIO(newline="")
        csv.writer(buf, lineterminator="\r\n" if crlf else "\n").writerows(rows)
        z.writestr(zinfo(f"{distinfo}/RECORD", 0o644), buf.getvalue().encode())


class Built:
    pass


def elf_bytes(spec, dirmap):
    s = dict(spec)
    for k in ("rpath", "runpath"):
        if s.get(k):
            for d, p in dirmap.items():
                s[k] = s[k].replace(f"@{d}@", str(p))
    bare = s.pop("strip_headers", False)
    return elfgen.no_sections(make_elf(**s)) if bare else make_elf(**s)


def materialize(w: World, root: Path, rng=None):
    """Write the external world and the wheel under root; -> Built."""
    b = Built()
    b.w = w
    b.root = root
    b.extroot = root / "extworld"
    b.extroot.mkdir()
    b.dirmap = {d: b.extroot / d for d in w.dirs}
    for d in b.dirmap.values():
        d.mkdir()
    b.ext_bytes = []
    b.ext_path = []
    for x in w.ext:
        data = elf_bytes(x["spec"], b.dirmap)
        d = b.dirmap[x["dir"]]
        real = d / x["real"]
        real.write_bytes(data)
        for nm in x["names"]:
            if nm == x["real"]:
                continue
            p = d / nm
            if x.get("chain"):
                mid = d / (nm + ".mid")
                os.symlink(x["real"], mid)
                os.symlink(mid.name, p)
            else:
                os.symlink(x["real"], p)
        os.chmod(real, x["mode"])
        b.ext_bytes.append(data)
        b.ext_path.append(real)
    for dc in w.decoys:
        (b.dirmap[dc["dir"]] / dc["name"]).write_bytes(dc["data"])
    b.members = []
    b.elf_bytes = {}
    for f in w.files:
        b.members.append((f["path"], f["data"], f["mode"]))
    for e in w.elfs:
        data = elf_bytes(e["spec"], b.dirmap)
        b.elf_bytes[e["path"]] = data
        b.members.append((e["path"], data, e["mode"]))
    if rng is not None:
        rng.shuffle(b.members)
    meta = [(f"{w.distinfo}/METADATA",
             f"Metadata-Version: 2.1\nName: {w.name}\nVersion: {w.ver}\n\nd\u00e9sc\n".encode(), 0o644),
            (f"{w.distinfo}/WHEEL", wheel_metadata(w).encode(), 0o644)]
    b.members += meta
    if w.direntries:
        dirs = sorted({posixpath.dirname(m[0]) + "/" for m in b.members
                       if posixpath.dirname(m[0]) and not m[0].endswith("/")})
        b.members = [(d, b"", 0o755) for d in dirs] + b.members
    (root / "in").mkdir()
    b.wheel = root / "in" / w.filename
    write_wheel(b.wheel, b.members, w.distinfo, signed=w.signed, extra_record=w.extra_record,
                drop_record=w.unlisted, crlf=w.crlf_record)
    b.out = root / "out"
    b.env, b.argv = invocation(w, b)
    return b


def invocation(w, b):
    env, argv = {}, ["repair"]
    o = w.opts
    alldirs = ":".join(str(p) for p in b.dirmap.values())
    if w.locate in ("allp", "mixed"):
        env["AUDITWHEEL_LD_LIBRARY_PATH"] = alldirs
    elif w.locate == "llp":
        env["LD_LIBRARY_PATH"] = alldirs
    elif w.locate == "ldpaths":
        argv += ["--ldpaths", alldirs]
    if o.get("plat"):
        argv += ["--plat", o["plat"]]
    if o.get("only_plat"):
        argv.append("--only-plat")
    if o.get("lib_sdir"):
        argv += ["-L", o["lib_sdir"]]
    if o.get("z") is not None:
        argv += ["-z", str(o["z"])]
    if o.get("strip"):
        argv.append("--strip")
    if o.get("no_update_tags"):
        argv.append("--no-update-tags")
    if o.get("disable_isa"):
        argv.append("--disable-isa-ext-check")
    for e in o.get("exclude", ()):
        argv += ["--exclude", e]
    if o.get("sde") is not None:
        env["SOURCE_DATE_EPOCH"] = str(o["sde"])
    argv += ["-w", str(b.out), str(b.wheel)]
    return env, argv


def world(rng, **kn):
    return Gen(rng, **kn).generate()


def dump_world(w):
    return json.dumps(w.brief(), default=str)


# ----------------------------------------------------------------------
def verdict_mix(rng, w, p=0.35):
    """Mutate a world so that every kind of policy evidence occurs: symbol versions that are too
    recent or unknown, black-listed undefined symbols, ISA needs, UCS2, PyFPE - and look-alikes
    of each that must not count."""
    r = rng
    pols = [q for q in pol.policies(w.libc, w.arch) if q.prio]
    live = [e for e in w.elfs if e["role"] not in ("foreign", "static")]
    exts = [e for e in live if e["role"] == "ext"]

    def need(spec, lib):
        if lib not in spec["needed"]:
            spec["needed"] = [*spec["needed"], lib]

    def addver(spec, lib, v):
        need(spec, lib)
        vn = [(a, list(b)) for a, b in spec.get("verneed", ())]
        for a, b in vn:
            if a == lib:
                if v not in b:
                    b.append(v)
                break
        else:
            vn.append((lib, [v]))
        spec["verneed"] = vn

    def addsym(e, name, bind="glob", typ="func", defined=False):
        e["spec"]["syms"] = [*e["spec"].get("syms", ()), (name, bind, typ, defined)]

    objs = live + [x for x in w.ext if x["real"].startswith(("libq", "libQ"))]
    if w.libc == "glibc":
        for _ in range(r.choice([0, 1, 1, 2]) if r.random() < 0.6 else 0):
            o = r.choice(objs)
            lib, pre = r.choice([("libc.so.6", "GLIBC"), ("libc.so.6", "GLIBC"),
                                 ("libm.so.6", "GLIBC"), ("libstdc++.so.6", "GLIBCXX"),
                                 ("libstdc++.so.6", "CXXABI"), ("libgcc_s.so.1", "GCC"),
                                 ("libz.so.1", "ZLIB")])
            q = r.choice(pols)
            vs = sorted(q.syms.get(pre, ()))
            odd = [v for v in vs if not v[0].isdigit()]        # GLIBC_ABI_DT_RELR, CXXABI_TM_1, ...
            if odd and r.random() < 0.3:
                addver(o["spec"], lib, f"{pre}_{r.choice(odd)}")
            elif vs and r.random() < 0.8:
                addver(o["spec"], lib, f"{pre}_{r.choice(vs)}")
            else:
                addver(o["spec"], lib, r.choice([f"{pre}_2.99", f"{pre}_PRIVATE", f"{pre}_99.1"]))
            w.notes.add("ver:" + pre)
        if r.random() < 0.15:
            o = r.choice(objs)
            addver(o["spec"], "libc.so.6", r.choice(["FOO_1.0", "Qlib_2", "NOUNDERSCORE"]))
            w.notes.add("ver:unknown-prefix")
        if r.random() < 0.15:
            addver(r.choice(objs)["spec"], LOADER[w.arch], "GLIBC_2.99")
            w.notes.add("ver:loader")
    q = r.choice(pols)
    lib = r.choice(sorted(q.black))
    for e in r.sample(live, min(len(live), r.choice([1, 1, 2]))) if r.random() < p and exts else ():
        need(e["spec"], lib) if r.random() < 0.85 else None
        for s in r.sample(sorted(q.black[lib]), min(len(q.black[lib]), r.randint(1, 2))):
            c = r.random()
            if s == "*":
                continue
            if c < 0.65:
                addsym(e, s, typ=r.choice(["func", "notype", "object"]))
            elif c < 0.8:
                addsym(e, s, bind="weak")
            elif c < 0.9:
                addsym(e, s, defined=True)
            else:
                addsym(e, s + "_x")
        w.notes.add("blacklist:" + lib)
    if r.random() < p:
        for _ in range(r.choice([1, 1, 2, 3])):
            # libraries that only some policies guarantee count too
            some = [x for x in w.ext if not x["real"].startswith(("libq", "libQ"))]
            o = r.choice(some if some and r.random() < 0.4 else objs)
            o["spec"]["isa"] = r.choice([1, 2, 3, 4, 7, 8, 15])
            w.notes.add("isa")
        some = [x for x in w.ext if not x["real"].startswith(("libq", "libQ"))]
        if some and r.random() < 0.6:
            r.choice(some)["spec"]["isa"] = 2
            r.choice(live)["spec"]["isa"] = r.choice([1, 2, 4])
            w.notes.add("isa-mix")
        isa_decoys(r, w, [e for e in [*live, *w.ext] if r.random() < 0.3])
        if r.random() < 0.25:
            w.opts["disable_isa"] = True
    if r.random() < p and exts:
        e = r.choice(exts)
        if r.random() < 0.7:
            e["role"] = "ext2"
            e["spec"]["exports"] = [(r.choice([f"init{e['mod']}", f"_cffi_pypyinit_{e['mod']}"]), 0)
                                    if n.startswith("PyInit_") else (n, v)
                                    for n, v in e["spec"]["exports"]]
            w.notes.add("py2")
        c = r.random()
        if c < 0.5:
            addsym(e, "PyUnicodeUCS2_AsUTF8String")
        elif c < 0.7:
            addsym(e, "PyUnicodeUCS4_AsUTF8String")
        elif c < 0.85:
            addsym(e, "PyUnicodeUCS2_Format", defined=True)
        w.notes.add("ucs")
    if r.random() < p * 0.6 and live:
        e = r.choice(live)
        c = r.random()
        nm = r.choice(["PyFPE_jbuf", "PyFPE_dummy", "PyFPE_counter"])
        if c < 0.7:
            addsym(e, nm, typ=r.choice(["func", "notype"]))
        elif c < 0.85:
            addsym(e, nm, defined=True)
        else:
            addsym(e, "PyFPE_other")
        w.notes.add("pyfpe")
    return w


def verdict_one(rng, w, kind=None, pair=False):
    """Exactly one kind of evidence, in one of several objects, in an otherwise portable wheel: the
    verdict hangs on that object alone, wherever it stands among the others."""
    r = rng
    live = [e for e in w.elfs if e["role"] not in ("foreign", "static")]
    exts = [e for e in live if e["role"] == "ext"]
    objs = live + [x for x in w.ext if x["real"].startswith(("libq", "libQ"))]
    if len(exts) < 2:
        return w
    pols = sorted((q for q in pol.policies(w.libc, w.arch) if q.prio), key=lambda q: q.prio)
    kinds = ["pyfpe", "ucs2", "blacklist"] + (["isa"] if w.arch == "x86_64" else []) + \
        (["version"] * 2 if w.libc == "glibc" else [])
    one = r.choice(exts)

    twins = [x for x in w.ext if x["dir"].startswith("t")]
    if twins and pair and "isa" in kinds:
        kinds += ["isa"] * 4
    kind = kind or r.choice(kinds)
    if twins and (pair or r.random() < 0.6):
        real = r.choice(twins)["real"]
        objs = [x for x in w.ext if x["real"] == real]

    def addsym(e, name, typ="func"):
        e["spec"]["syms"] = [*e["spec"].get("syms", ()), (name, "glob", typ, False)]

    if kind == "pyfpe":
        addsym(one, r.choice(["PyFPE_jbuf", "PyFPE_dummy", "PyFPE_counter"]),
               r.choice(["func", "notype"]))
    elif kind == "ucs2":
        for e in exts:
            if e is one or r.random() < 0.6:
                e["role"] = "ext2"
                e["spec"]["exports"] = [
                    (r.choice([f"init{e['mod']}", f"_cffi_pypyinit_{e['mod']}"]), 0)
                    if n.startswith("PyInit_") else (n, v) for n, v in e["spec"]["exports"]]
        addsym(one, r.choice(["PyUnicodeUCS2_AsUTF8String", "PyUnicodeUCS2_Format",
                              "PyUnicodeUCS2_FromObject"]))
    elif kind == "isa":
        o = r.choice(objs)
        o["spec"]["isa"] = r.choice([1, 2, 3, 4, 7, 8, 15])
        isa_decoys(r, w, [o] if r.random() < 0.6 else objs)
        if o in w.ext and any(x is not o and x["real"] == o["real"] for x in w.ext):
            w.notes.add("one:isa-twin")
    elif kind == "blacklist":
        q = r.choice(pols)
        lib = r.choice(sorted(q.black))
        need = one["spec"]["needed"]
        if lib not in need:
            need = list(need)
            need.insert(r.choice([0, len(need)]), lib)
            one["spec"]["needed"] = need
        some = sorted(x for x in q.black[lib] if x != "*")
        if some:
            addsym(one, r.choice(some), r.choice(["func", "notype", "object"]))
    elif kind == "version":
        o = r.choice(objs)
        # what some policy has and the next stricter one has not
        i = r.randrange(len(pols))
        lib, pre = r.choice([("libc.so.6", "GLIBC"), ("libm.so.6", "GLIBC"),
                             ("libstdc++.so.6", "GLIBCXX"), ("libstdc++.so.6", "CXXABI"),
                             ("libgcc_s.so.1", "GCC"), ("libz.so.1", "ZLIB")])
        if r.random() < 0.35:
            # a version with a name rather than a number
            some = [(k, p, x) for k, q in enumerate(pols) for p in q.syms for x in q.syms[p]
                    if not x[0].isdigit() and (k + 1 == len(pols) or x not in pols[k + 1].syms.get(p, ()))]
            if some:
                i, pre, _ = r.choice(some)
                lib = {"GLIBC": "libc.so.6", "GCC": "libgcc_s.so.1"}.get(pre, "libstdc++.so.6")
        have = set(pols[i].syms.get(pre, ()))
        edge = have - set(pols[i + 1].syms.get(pre, ())) if i + 1 < len(pols) else have
        odd = sorted(x for x in edge if not x[0].isdigit())
        v = r.choice((odd if r.random() < 0.8 else ()) or sorted(edge or have) or ["2.99"])
        if lib not in o["spec"]["needed"]:
            o["spec"]["needed"] = [*o["spec"]["needed"], lib]
        vn = [(a, list(b)) for a, b in o["spec"].get("verneed", ())]
        for a, b in vn:
            if a == lib:
                b.append(f"{pre}_{v}") if f"{pre}_{v}" not in b else None
                break
        else:
            vn.append((lib, [f"{pre}_{v}"]))
        o["spec"]["verneed"] = vn
    w.notes.add("one:" + kind)
    return w


def isa_decoys(r, w, objs):
    """notes that look like a need for a more recent CPU"""
    if w.arch == "x86_64":
        for o in objs:
            o["spec"]["isa_decoy"] = r.sample(["feature", "used", "used", "alien", "buildid"], r.randint(1, 3))
            w.notes.add("isa-decoy")


def foreign_libc(rng, w):
    """An ELF file of the right architecture for the other C library: ignored when the platform
    asked for says which one the wheel is for."""
    r = rng
    if w.libc not in ("glibc", "musl") or w.arch not in MUSL_SONAME or w.opts.get("plat", "auto") == "auto":
        return
    musl = w.libc == "glibc"
    e = dict(path=r.choice(["qpkg/data/otherlibc-tool", "qpkg/aaa_otherlibc", "zz/otherlibc.so.1"]),
             role="foreign", mode=0o755, id=900)
    libc = MUSL_SONAME[w.arch] if musl else "libc.so.6"
    e["spec"] = dict(arch=w.arch, needed=r.sample([libc, "libnothere.so.9", "libzz.so.1"], 3),
                     payload=b"otherlibc", rpath="/foreign/rpath",
                     verneed=[] if musl else [("libc.so.6", ["GLIBC_2.99"])])
    if r.random() < 0.6:
        e["spec"]["interp"] = f"/lib/ld-musl-{w.arch}.so.1" if musl else "/lib64/" + LOADER[w.arch]
    w.elfs.insert(r.randint(0, len(w.elfs)), e)
    w.notes.add("otherlibc")
