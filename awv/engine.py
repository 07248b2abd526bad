"""Parallel driver, verdicts, evidence, known findings, replay."""
from __future__ import annotations

import argparse
import fcntl
import importlib
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from pathlib import Path

from . import runner

VERIF = Path(__file__).resolve().parent.parent
QUICK_BUDGET = 600.0
THOROUGH_BUDGET = 6 * 3600.0
NPROC = int(os.environ.get("AWV_JOBS", "8"))


class Ctx:
    """What a case gets: its PRNG, a private scratch directory, counters."""

    def __init__(self, prop, seed, tier, idx, root):
        self.prop, self.seed, self.tier, self.idx = prop, seed, tier, idx
        self.rng = random.Random(f"{prop}/{seed}/{idx}")
        self.root = Path(root)
        self.tmp = self.root / "tmp"
        self.tmp.mkdir(parents=True)
        self.count = Counter()
        self.distinct = Counter()
        self.violations = []
        self.inconclusive = []
        self.sample = None

    def violation(self, what, mechanism, detail=None):
        self.violations.append({"what": what, "mechanism": mechanism, "detail": detail,
                                "idx": self.idx})

    def check(self, cond, what, mechanism, detail=None):
        """One monitor evaluation."""
        self.count["oracle_evaluations"] += 1
        self.count["eval:" + mechanism] += 1
        if not cond:
            self.violation(what, mechanism, detail)
        return bool(cond)

    def seen(self, *key):
        self.distinct[runner.dump(key)] += 1


def _worker(k, n, cases, modname, prop, seed, tier, root, outpath):
    end = time.monotonic() + (QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET)
    try:
        mod = importlib.import_module(modname)
        with open(outpath, "wb") as out:
            while True:
                idx = _next(outpath, cases)
                if idx is None:
                    break
                if time.monotonic() > end:
                    os._exit(96)          # out of time: reported, never a verdict
                d = Path(root) / f"w{k}" / f"c{idx}"
                d.mkdir(parents=True)
                ctx = Ctx(prop, seed, tier, idx, d)
                err = None
                try:
                    mod.case(ctx)
                except Exception:  # noqa: BLE001
                    err = traceback.format_exc()[-3000:]
                for x in runner.SPUN:
                    ctx.check(False, x, "endless", None)
                runner.SPUN.clear()
                pickle.dump((idx, ctx.count, ctx.distinct, ctx.violations, ctx.inconclusive,
                             ctx.sample, err), out)
                out.flush()
                _rmtree(d)
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(98)
    os._exit(0)


def _next(outpath, cases):
    """the next case not yet taken by any worker"""
    fd = os.open(os.path.join(os.path.dirname(outpath), "next"), os.O_RDWR | os.O_CREAT, 0o600)
    try:
        fcntl.flock(fd, fcntl.LOCK_EX)
        n = int(os.pread(fd, 20, 0) or b"0")
        if n >= len(cases):
            return None
        os.pwrite(fd, b"%d" % (n + 1), 0)
        return cases[n]
    finally:
        os.close(fd)


def _rmtree(d):
    d = str(d)
    assert "awv-" in d, d
    for dp, dn, _fn in os.walk(d):
        for x in dn:
            p = os.path.join(dp, x)
            if not os.path.islink(p):
                try:
                    os.chmod(p, 0o700)
                except OSError:
                    pass
    shutil.rmtree(d, ignore_errors=True)


def drop_privileges():
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(runner.UNPRIV_UID)
        os.setuid(runner.UNPRIV_UID)
    assert os.getuid() != 0


def run_cases(modname, prop, seed, tier, cases):
    """-> list of per-case tuples, in case order."""
    base = tempfile.mkdtemp(prefix=f"awv-{prop}-", dir="/tmp")
    os.chmod(base, 0o711)
    work = Path(base) / "work"
    work.mkdir()
    outd = Path(base) / "out"
    outd.mkdir()
    if os.getuid() == 0:
        os.chown(work, runner.UNPRIV_UID, runner.UNPRIV_UID)
        os.chown(outd, runner.UNPRIV_UID, runner.UNPRIV_UID)
    n = min(NPROC, max(1, len(cases)))
    pids = []
    results = []
    try:
        sys.stdout.flush()
        sys.stderr.flush()
        for k in range(n):
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    drop_privileges()
                    os.umask(0o022)
                    os.environ["HOME"] = str(work)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    os._exit(98)
                _worker(k, n, cases, modname, prop, seed, tier, str(work), str(outd / f"{k}.pkl"))
            pids.append(pid)
        bad = []
        for k, pid in enumerate(pids):
            _, st = os.waitpid(pid, 0)
            if st != 0:
                bad.append((k, st))
        for k in range(n):
            p = outd / f"{k}.pkl"
            if p.exists():
                with open(p, "rb") as f:
                    while True:
                        try:
                            results.append(pickle.load(f))
                        except EOFError:
                            break
        results.sort(key=lambda r: r[0])
        return results, bad
    finally:
        for pid in pids:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        _rmtree(base)


def load_known():
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return json.loads(p.read_text())["findings"]


def _preload(argv):
    """compile awv/faultio.c and start again with it loaded"""
    import subprocess

    so = os.environ.pop("AWV_FAULTIO", None)
    if so:
        os.environ.pop("LD_PRELOAD", None)
        shutil.rmtree(os.path.dirname(so))      # it is mapped
        if runner.faultio() is None:
            raise SystemExit("faultio is not loaded")
        return
    d = tempfile.mkdtemp(prefix="awv-fio-")
    so = os.path.join(d, "faultio.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so,
                    str(VERIF / "awv" / "faultio.c"), "-ldl"], check=True)
    os.environ.update(AWV_FAULTIO=so, LD_PRELOAD=so)
    os.execv(sys.executable, [sys.executable, "-B", "-m", "awv.engine",
                              *(sys.argv[1:] if argv is None else argv)])


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--idx", type=int, action="append")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop
    t0 = time.time()
    if a.replay:
        r = json.loads(Path(a.replay).read_text())
        a.seed, a.tier, a.idx = r["seed"], r["tier"], [r["idx"]]
    runner.setup_import()
    sys.path.insert(0, str(VERIF))
    modname = f"checks.{prop.lower()}"
    mod = importlib.import_module(modname)
    if getattr(mod, "FAULTIO", False):
        _preload(argv)
    ncases = a.cases or (mod.CASES_QUICK if a.tier == "quick" else mod.CASES_THOROUGH)
    cases = a.idx if a.idx else list(range(ncases))
    if hasattr(mod, "prepare"):
        mod.prepare(a.tier, a.seed)
    results, bad = run_cases(modname, prop, a.seed, a.tier, cases)

    count, distinct = Counter(), Counter()
    violations, inconcl, samples, errors = [], [], [], []
    for idx, c, d, v, inc, s, err in results:
        count.update(c)
        distinct.update(d)
        violations += v
        inconcl += [(idx, x) for x in inc]
        if err:
            errors.append((idx, err))
        if s is not None and len(samples) < 4:
            samples.append(s)

    known = {k["mechanism"]: k for k in load_known()
             if k["property"] == prop and k["status"] == "known"}
    fresh = [v for v in violations if v["mechanism"] not in known]
    hit = sorted({v["mechanism"] for v in violations if v["mechanism"] in known})
    for m in sorted(known):
        # every listed finding is announced; say whether this run reproduced it
        print(f"KNOWN-FINDING: property={prop} {known[m]['what']} "
              f"[{'reproduced' if m in hit else 'not exercised'} in this run]")
    reports = []
    outdir = VERIF / "out" / "violations" / prop
    if fresh:
        outdir.mkdir(parents=True, exist_ok=True)
        bymech = {}
        for v in fresh:
            bymech.setdefault(v["mechanism"], []).append(v)
        for m, vs in bymech.items():
            v = vs[0]
            name = "".join(ch if ch.isalnum() or ch in "-_" else "_" for ch in m)[:60]
            p = outdir / f"seed{a.seed}-{a.tier}-{v['idx']}-{name}.json"
            p.write_text(json.dumps(
                {"property": prop, "seed": a.seed, "tier": a.tier, "idx": v["idx"],
                 "mechanism": m, "what": v["what"], "detail": v["detail"], "occurrences": len(vs),
                 "replay_cmd": f"cd /verif && bin/check {prop} --replay {p}"},
                indent=1, default=str))
            reports.append((p, v, len(vs)))

    wall = time.time() - t0
    floor = {}
    if not a.idx and not a.cases:
        floor = getattr(mod, "FLOOR", {})
    unreached = {k: (count[k], n) for k, n in floor.items() if count[k] < n}
    nrun = len(results)
    cov = {
        "evaluations": nrun,
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE,
        "samples": samples or [{"note": "no sample recorded"}],
        "observed": {k: v for k, v in sorted(count.items())},
        "inconclusive_cases": len(inconcl),
        "harness_errors": len(errors),
        "known_findings_reproduced": hit,
    }
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": a.seed, "level": mod.LEVEL, "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(fresh),
    }
    if not a.replay and not a.idx:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop}.json").write_text(
            json.dumps(ev, indent=1, default=str) + "\n")
    print(f"{prop} tier={a.tier} seed={a.seed}: {nrun} cases, {len(distinct)} distinct, "
          f"{count['oracle_evaluations']} monitor evaluations, {wall:.1f}s")
    if a.v:
        for k, v in sorted(count.items()):
            print(f"   {k} = {v}")
    for idx, e in errors[:3]:
        print(f"HARNESS-ERROR case {idx}:\n{e}")
    for idx, x in inconcl[:5]:
        print(f"inconclusive case {idx}: {x}")
    if reports:
        for p, v, n in reports:
            print(f"VIOLATION property={prop} replay={p}")
            print(f"   [{v['mechanism']}] x{n}: {v['what']}")
            if a.v and v["detail"] is not None:
                print("   " + json.dumps(v["detail"], default=str)[:3000])
        return 1
    if bad:
        print(f"INCONCLUSIVE: workers died: {bad}")
        return 2
    if errors:
        print(f"INCONCLUSIVE: {len(errors)} harness errors")
        return 2
    if unreached:
        print(f"INCONCLUSIVE: monitors under-exercised (seen, required): {unreached}")
        return 2
    if len(inconcl) > max(2, nrun // 20):
        print(f"INCONCLUSIVE: {len(inconcl)} inconclusive cases")
        return 2
    print(f"HELD property={prop} on everything explored")
    return 0


if __name__ == "__main__":
    sys.exit(main())
