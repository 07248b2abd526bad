"""Shared by the checks: build a world, run the repair, read the result."""
from __future__ import annotations

import os
from pathlib import Path

from . import model, pol, runner, scen
from .wheelread import Wheel


class Run:
    pass


def build(ctx, w=None, sub="c", **kn):
    root = ctx.root / sub
    root.mkdir()
    if w is None:
        w = scen.world(ctx.rng, **kn)
    live = [e for e in w.elfs if e["role"] != "foreign"]
    if "any" in w.plats and w.opts.get("plat", "auto") == "auto" and live:
        # nothing says which machine the wheel is for but the first binary of it
        w.elfs = live
    b = scen.materialize(w, root, ctx.rng)
    return w, b, model.Model(w, b)


def machine_of(w):
    """what uname must say for --plat choices to include this architecture"""
    return None if w.arch in ("x86_64", "i686") else w.arch


def with_plat(rng, w, *, auto=0.4, only=0.3):
    """choose --plat among what this host's command line would offer for the wheel"""
    if w.arch == "i686" or w.libc != "glibc" or rng.random() < auto:
        return
    names = [n for p in pol.policies(w.libc, w.arch) if p.prio for n in p.names()]
    w.opts["plat"] = rng.choice(names)
    if rng.random() < only:
        w.opts["only_plat"] = True


def repair(ctx, b, *, argv=None, env=None, tmp=None, **kw):
    tmp = tmp or ctx.tmp
    tmp.mkdir(exist_ok=True)
    kw.setdefault("uname", machine_of(b.w))
    kw.setdefault("cwd", b.root)
    r = runner.run_cli(argv or b.argv, tmpdir=tmp,
                       env=b.env if env is None else env, **kw)
    ctx.count["auditwheel_runs"] += 1
    ctx.count["events_observed"] += len(r.events)
    if r.timeout:
        ctx.inconclusive.append("watchdog")
        raise Skip
    return r


class Skip(Exception):
    pass


def outputs(b):
    return sorted(b.out.glob("*")) if b.out.is_dir() else []


def expect_ok(ctx, w, b, m, res, mech="repair-fails"):
    """a repair the model says must succeed -> the output Wheel, or None (violation)."""
    outs = outputs(b)
    if not ctx.check(res.ok and len(outs) == 1,
                     "a repairable wheel was not repaired", mech,
                     {"run": res.brief(), "outputs": [p.name for p in outs], "world": w.brief()}):
        return None
    return read_output(ctx, outs[0], w)


def read_output(ctx, path, w=None):
    try:
        wh = Wheel(path)
        bad = None if wh.distinfo and wh.record_name in wh.data else "no dist-info/RECORD"
        if bad is None:
            wh.record_rows(), wh.wheel_headers()
    except Exception as e:  # noqa: BLE001
        bad = f"{type(e).__name__}: {e}"
    if not ctx.check(bad is None, f"the written wheel is not readable: {bad}", "unreadable-output",
                     {"file": path.name, "world": w.brief() if w else None}):
        return None
    return wh


def snapshot(*roots):
    """relative path -> (type, mode, content hash, mtime) of every file below roots"""
    import hashlib
    out = {}
    for root in roots:
        root = Path(root)
        for dp, dn, fn in os.walk(root):
            for n in dn + fn:
                p = os.path.join(dp, n)
                st = os.lstat(p)
                if os.path.islink(p):
                    out[p] = ("l", os.readlink(p))
                elif os.path.isdir(p):
                    out[p] = ("d", st.st_mode & 0o7777)
                else:
                    with open(p, "rb") as f:
                        out[p] = ("f", st.st_mode & 0o7777, hashlib.sha256(f.read()).hexdigest(),
                                  st.st_mtime_ns)
    return out


def diff_snap(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append((k, "removed" if k not in b else "added" if k not in a else "changed"))
    return out


# ---- stand-in package managers ------------------------------------------------
DPKG = r'''#!/bin/sh
map="$0.map"
case "$1" in
  --version) echo "dpkg stand-in"; exit 0;;
  -S) while IFS='|' read -r p name ver; do
        if [ "$p" = "$2" ]; then echo "$name: $2"; exit 0; fi
      done < "$map"; echo "dpkg-query: no path found matching pattern $2" >&2; exit 1;;
  -s) while IFS='|' read -r p name ver; do
        if [ "$name" = "$2" ]; then
          printf 'Package: %s\nStatus: install ok installed\nVersion: %s\n' "$name" "$ver"; exit 0; fi
      done < "$map"; exit 1;;
esac
exit 2
'''
RPM = r'''#!/bin/sh
map="$0.map"
if [ "$1" = --version ]; then echo "RPM version 4"; exit 0; fi
for last; do :; done
while IFS='|' read -r p name ver rel; do
  if [ "$p" = "$last" ]; then printf '%s %s %s x86_64' "$name" "$ver" "$rel"; exit 0; fi
done < "$map"
echo "file $last is not owned by any package"; exit 1
'''
APK = r'''#!/bin/sh
map="$0.map"
if [ "$1" = --version ]; then echo "apk-tools 2"; exit 0; fi
for last; do :; done
while IFS='|' read -r p name ver; do
  if [ "$p" = "$last" ]; then echo "$last is owned by $name-$ver"; exit 0; fi
done < "$map"
echo "ERROR: $last: Could not find owner package" >&2; exit 1
'''
APT_FILE = r'''#!/bin/sh
map="$0.map"
case "$1" in --version) exit 2;; esac
while IFS= read -r q || [ -n "$q" ]; do
  while IFS='|' read -r p name ver; do
    case "$p" in *"$q"*) echo "$name: $p";; esac
  done < "$map"
done
'''
APT = r'''#!/bin/sh
map="${0%/apt}/apt-file.map"
case "$1" in --version) echo apt 2; exit 0;; esac
for last; do :; done
while IFS='|' read -r p name ver; do
  if [ "$name" = "$last" ]; then printf 'Package: %s\nVersion: %s\nPriority: optional\n' "$name" "$ver"; exit 0; fi
done < "$map"
exit 100
'''
STUBS = {"dpkg": DPKG, "rpm": RPM, "apk": APK}


def fake_pm(dir_, kind, rows):
    """rows: (real path, name, version[, release]); -> the directory to put first on PATH.
    The other managers are masked, so that exactly this one answers."""
    dir_.mkdir(parents=True, exist_ok=True)
    for k, body in STUBS.items():
        p = dir_ / k
        p.write_text(body if k == kind else "#!/bin/sh\nexit 1\n")
        p.chmod(0o755)
    (dir_ / f"{kind}.map").write_text("".join("|".join(map(str, r)) + "\n" for r in rows))
    for k, body in (("apt-file", APT_FILE), ("apt", APT)):
        p = dir_ / k
        p.write_text(body if kind == "apt-file" else "#!/bin/sh\nexit 1\n")
        p.chmod(0o755)
    return dir_
