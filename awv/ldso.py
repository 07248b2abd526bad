"""What glibc's dynamic loader would load: the documented search rules (ld.so(8)) as a model over a
real directory tree, and the real loader itself for x86_64."""
from __future__ import annotations

import errno
import os
import subprocess

from .elfread import NotElf, read_elf

GNUISH = {0, 3}


def _dirs(s, origin):
    out = []
    for e in (s or "").split(":"):
        if not e:
            continue
        out.append(e.replace("${ORIGIN}", origin).replace("$ORIGIN", origin))
    return out


class Names(dict):
    def __init__(self):
        super().__init__()
        self.lenient = set()


def every(o, r):
    out = _dirs(r.elf.runpath, os.path.dirname(r.path))
    while o is not None:
        out += _dirs(o.elf.rpath, os.path.dirname(o.path))
        o = o.loader
    return out


class Obj:
    def __init__(self, path, data):
        self.path = path
        self.data = data
        self.elf = read_elf(data)
        self.loader = None

    def rpath(self):
        if self.elf.runpath is not None:
            return []
        return _dirs(self.elf.rpath, os.path.dirname(self.path))

    def runpath(self):
        return _dirs(self.elf.runpath, os.path.dirname(self.path))


def compatible(a, b):
    return (a.bits, a.le, a.machine) == (b.bits, b.le, b.machine) and (
        a.osabi == b.osabi or {a.osabi, b.osabi} <= GNUISH)


def load(path):
    with open(path, "rb") as f:
        return Obj(path, f.read())


def resolve(root, env=(), conf=(), ignore=(), origin_real=False):
    """-> {name: path as found or None} in load order (breadth first).  `ignore`: names that are
    not followed (the C library).  names.lenient: those found only through `conf` although a
    search path that does not apply to the object (an ancestor's) has a candidate."""
    r = load(root)
    objs = [r]
    names = Names()
    k = 0
    while k < len(objs):
        o = objs[k]
        k += 1
        for n in o.elf.needed:
            if n in names or n in ignore:
                continue
            dirs = []
            if o.elf.runpath is None:
                a = o
                while a is not None:
                    dirs += a.rpath()
                    a = a.loader
            dirs += list(env) + o.runpath()
            nconf = len(dirs)
            dirs += list(conf)
            names[n] = None
            for i, d in enumerate(dirs):
                p = os.path.join(d, n)
                try:
                    c = load(p)
                except OSError as e:
                    if e.errno == errno.ELOOP:
                        break       # "exists, but something went wrong": ld.so gives up
                    continue
                except NotElf:
                    continue
                if compatible(r.elf, c.elf):
                    names[n] = p
                    if i >= nconf and any(os.path.exists(os.path.join(x, n)) for x in every(o, r)):
                        names.lenient.add(n)
                    if origin_real:
                        c.path = os.path.realpath(p)
                    c.loader = o
                    objs.append(c)
                    break
            if names[n] is None and r.elf.interp and os.path.exists(
                    os.path.join(os.path.dirname(r.elf.interp), n)):
                names.lenient.add(n)
    return names


def real(root, env="", timeout=30, cwd="/"):
    """the same question put to this host's ld.so"""
    e = {"PATH": "/usr/bin:/bin"}
    if env:
        e["LD_LIBRARY_PATH"] = env
    p = subprocess.run(["/lib64/ld-linux-x86-64.so.2", "--list", root], env=e, cwd=cwd,
                       capture_output=True, timeout=timeout, check=False)
    out = {}
    for line in p.stdout.decode(errors="replace").splitlines():
        line = line.strip()
        if "=>" in line:
            n, _, t = line.partition("=>")
            t = t.strip().rsplit(" (0x", 1)[0].strip()
            out[n.strip()] = None if t.startswith("not found") else os.path.join(cwd, t)
        else:
            # found in the current directory: its path is its name
            t = line.rsplit(" (0x", 1)[0].strip()
            if "/" not in t and os.path.exists(os.path.join(cwd, t)):
                out[t] = os.path.join(cwd, t)
    return p.returncode, out, p.stderr.decode(errors="replace")
