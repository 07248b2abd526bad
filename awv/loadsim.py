"""What the dynamic loader would do in the installed tree (glibc, musl, bionic
search rules), and - on x86_64 - what it really does."""
from __future__ import annotations

import json
import os
import posixpath
import subprocess
import sys
from pathlib import Path

from .wheelread import installed


def expand(entries, here, lib="lib64", platform="x86_64"):
    out = []
    for e in (entries or "").split(":"):
        if not e:
            continue
        if "$ORIGIN" in e or "${ORIGIN}" in e:
            e = e.replace("${ORIGIN}", here).replace("$ORIGIN", here)
            out.append(posixpath.normpath(e))
        else:
            out.append("!" + e)          # not inside the installed tree
    return out


def simulate(wheel, entry, libc="glibc"):
    """Load `entry` (installed path). -> list of (loader path, needed name,
    resolved installed path or None, searched dirs)"""
    inst = installed(wheel)
    files = set(inst)
    loaded = {}                 # path -> loader path
    names = {}                  # soname / name -> path
    log = []

    def elf(p):
        return wheel.elf(inst[p])

    def rpath_dirs(p):
        e = elf(p)
        here = posixpath.dirname(p)
        if libc == "musl":
            return expand(e.rpath or "", here) + expand(e.runpath or "", here)
        if e.runpath is not None:
            return []
        return expand(e.rpath or "", here)

    def runpath_dirs(p):
        e = elf(p)
        if libc == "musl" or e.runpath is None:
            return []
        return expand(e.runpath, posixpath.dirname(p))

    loaded[entry] = None
    q = [entry]
    while q:
        p = q.pop(0)
        e = elf(p)
        for n in e.needed:
            if n in names:
                log.append((p, n, names[n], ["already loaded"]))
                continue
            dirs = []
            if libc == "bionic":
                dirs = expand(e.runpath or "", posixpath.dirname(p))
            elif libc == "musl":
                a = p
                while a:
                    dirs += rpath_dirs(a)
                    a = loaded[a]
            else:
                if e.runpath is None:
                    a = p
                    while a:
                        dirs += rpath_dirs(a)
                        a = loaded[a]
                dirs += runpath_dirs(p)
            hit = None
            for d in dirs:
                c = posixpath.normpath(posixpath.join(d, n))
                if c in files and elf(c) is not None and elf(c).machine == e.machine \
                        and elf(c).bits == e.bits:
                    hit = c
                    break
            log.append((p, n, hit, dirs))
            if hit:
                names[n] = hit
                if hit not in loaded:
                    loaded[hit] = p
                    if elf(hit).soname:
                        names.setdefault(elf(hit).soname, hit)
                    q.append(hit)
    return log, loaded


HELPER = r"""
import ctypes, json, os, sys
site = sys.argv[1]
out = {}
for ent in sys.argv[2:]:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        res = {"err": None, "maps": []}
        try:
            ctypes.CDLL(os.path.join(site, ent), mode=os.RTLD_NOW)
        except OSError as e:
            res["err"] = str(e)
        m = set()
        with open("/proc/self/maps") as f:
            for line in f:
                p = line.rstrip("\n").split(None, 5)
                if len(p) == 6 and p[5].startswith("/"):
                    m.add(p[5])
        res["maps"] = sorted(m)
        os.write(w, json.dumps(res).encode()); os._exit(0)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 65536)
        if not c: break
        buf += c
    _, st = os.waitpid(pid, 0)
    out[ent] = json.loads(buf) if buf else {"err": "crash %r" % st, "maps": []}
print(json.dumps(out))
"""


def install_tree(wheel, root: Path):
    """really lay the wheel out under root; -> {installed path: real path}"""
    real = {}
    for ip, arc in installed(wheel).items():
        p = root / ip
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(wheel.data[arc])
        os.chmod(p, (wheel.mode[arc] & 0o777) or 0o644)
        real[ip] = p
    return real


def really_load(root: Path, entries, timeout=60):
    """dlopen each entry in a fresh forked process, with no library search
    environment.  -> {entry: {"err", "maps"}}"""
    env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "HOME": str(root)}
    r = subprocess.run([sys.executable, "-I", "-S", "-c", HELPER, str(root), *entries],
                       env=env, cwd="/", capture_output=True, timeout=timeout, check=False)
    if r.returncode != 0:
        raise RuntimeError("load helper: " + r.stderr.decode()[-500:])
    return json.loads(r.stdout)


def trace_exe(path: Path, timeout=60):
    """ld.so's own view of an executable (no code of it runs). -> {name: path|None}"""
    r = subprocess.run(["/lib64/ld-linux-x86-64.so.2", "--list", str(path)],
                       env={"PATH": "/usr/bin:/bin"},
                       cwd="/", capture_output=True, timeout=timeout, check=False)
    out = {}
    for line in r.stdout.decode(errors="replace").splitlines():
        line = line.strip()
        if "=>" in line:
            n, _, t = line.partition("=>")
            t = t.strip().rsplit(" (0x", 1)[0].strip()
            out[n.strip()] = None if t.startswith("not found") else t
    return r.returncode, out, r.stderr.decode(errors="replace")
