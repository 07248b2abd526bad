"""The definition of the platform tags, pinned in awv/policies (a published tag never
changes its meaning), read by our own code."""
from __future__ import annotations

import functools
import json
from dataclasses import dataclass
from pathlib import Path

from .elfgen import MUSL_SONAME

POLDIR = Path(__file__).resolve().parent / "policies"
FILES = {"glibc": "manylinux-policy.json", "musl": "musllinux-policy.json",
         "android": "android-policy.json"}
PREFIX = {"glibc": "manylinux", "musl": "musllinux", "android": "android"}


@dataclass(frozen=True)
class Pol:
    base: str
    name: str
    aliases: tuple
    prio: int
    syms: dict
    white: frozenset
    black: dict

    def names(self):
        return (self.name, *self.aliases)

    def sym_ok(self, versions):
        """versions: iterable of 'GLIBC_2.5'-like names."""
        return not self.sym_bad(versions)

    def sym_bad(self, versions):
        bad = []
        for v in versions:
            pre, _, rest = v.partition("_")
            if pre in self.syms and rest not in self.syms[pre]:
                bad.append(v)
        return sorted(bad)


def raw(libc):
    return json.loads((POLDIR / FILES[libc]).read_text())


@functools.lru_cache
def policies(libc, arch):
    """ascending priority, linux first; musl: only the latest known one (the host
    is glibc); android: all of them (the wheel's API level selects one)."""
    out = []
    for p in raw(libc):
        if p["name"] == "linux":
            out.append(Pol("linux", f"linux_{arch}", (), 0, {}, frozenset(), {}))
            continue
        if arch not in p["symbol_versions"]:
            continue
        white = set(p["lib_whitelist"])
        if libc == "musl" and "libc.so" in white:
            white.discard("libc.so")
            white.add(MUSL_SONAME[arch])
        out.append(Pol(p["name"], f"{p['name']}_{arch}",
                       tuple(f"{a}_{arch}" for a in p["aliases"]), p["priority"],
                       {k: frozenset(v) for k, v in p["symbol_versions"][arch].items()},
                       frozenset(white),
                       {k: frozenset(v) for k, v in p["blacklist"].items()}))
    out.sort(key=lambda p: p.prio)
    if libc == "musl":
        out = out[:2]
    return tuple(out)


def by_tag(tag, arch):
    """the policy a platform tag (canonical or alias) claims; None for linux/any."""
    for libc in ("glibc", "musl"):
        pols = list(policies(libc, arch))
        if libc == "musl":
            pols = [p for p in _all("musl", arch)]
        for p in pols:
            if p.prio and tag in p.names():
                return p
    return None


@functools.lru_cache
def _all(libc, arch):
    out = []
    for p in raw(libc):
        if p["name"] == "linux" or arch not in p["symbol_versions"]:
            continue
        white = set(p["lib_whitelist"])
        if libc == "musl" and "libc.so" in white:
            white.discard("libc.so")
            white.add(MUSL_SONAME[arch])
        out.append(Pol(p["name"], f"{p['name']}_{arch}",
                       tuple(f"{a}_{arch}" for a in p["aliases"]), p["priority"],
                       {k: frozenset(v) for k, v in p["symbol_versions"][arch].items()},
                       frozenset(white),
                       {k: frozenset(v) for k, v in p["blacklist"].items()}))
    return tuple(out)


def is_loader(name):
    return name.startswith("ld-linux") or name in ("ld64.so.1", "ld64.so.2")


def glibc_arches():
    seen = []
    for p in raw("glibc"):
        for a in p["symbol_versions"]:
            if a not in seen:
                seen.append(a)
    return sorted(seen)


def musl_arches():
    return sorted([p for p in raw("musl") if p["name"] != "linux"][-1]["symbol_versions"])
