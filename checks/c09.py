"""C09: a repair that fails, is refused, interrupted or killed at any point leaves no trace: no
partial or unrepaired wheel, nothing else altered, and a later run succeeds."""
import errno
import os
import signal
import zipfile
from pathlib import Path

from awv import common, runner, scen
from checks import kinds

CASES_QUICK = 200
CASES_THOROUGH = 3000
LEVEL = "fault_enumeration"
RULE = ("one fault per run at an enumerated point of the traced repair: every file-system call or "
        "subprocess start fails (ENOSPC/EIO/EACCES), is interrupted (KeyboardInterrupt) or is where "
        "the process is killed; any call that puts bytes into a file is cut short by a kill or a "
        "full disk; plus file-size limits, patchelf/strip failing at their n-th call, "
        "refusals, missing libraries and damaged wheels; pre-existing outputs vary; distinct by "
        "(fault kind, operation, phase)")
FLOOR = {"faults_fired": 900, "kills": 300, "raises": 300, "size_limits": 90, "tool_failures": 70,
         "refusals": 12, "damaged": 15, "retries": 60, "data_kills": 150, "data_disk_full": 80, "cases_enumerated_fully": 1,
         "pure_cases": 8, "pure_faults": 60}
FAULTIO = True
OPS = ("write", "rename", "remove", "rmtree", "mkdir", "meta", "spawn", "chdir", "mkdtemp", "read")
CLEANUP = ("remove", "rmtree", "chdir")


def case(ctx):
    c = ctx.idx % 8
    if c == 0:
        return refusal(ctx)
    if c == 1:
        return damaged(ctx)
    if c == 5 and ctx.idx % 16 == 5:
        return faults(ctx, False, pure=True)
    full = ctx.idx in (2, 11) or (ctx.tier == "thorough" and ctx.idx % 10 == 2)
    faults(ctx, full)


# ---------------------------------------------------------------- state around a run
def prepare_out(ctx, b, w, name=None):
    """the output directory before the run: absent, empty, or with files in it"""
    r = ctx.rng
    c = r.random()
    if c < 0.25:
        return "absent"
    b.out.mkdir(parents=True)
    if c < 0.4:
        return "empty"
    (b.out / "other-1.0-py3-none-any.whl").write_bytes(b"other")
    (b.out / "notes.txt").write_bytes(b"notes")
    if name and c < 0.75:
        (b.out / name).write_bytes(b"an older wheel of the same name")
        return "old"
    return "others"


def run(ctx, b, env=None, argv=None, **kw):
    try:
        return common.repair(ctx, b, env=env, argv=argv, **kw)
    except common.Skip:
        return None


def check_after(ctx, b, before, res, final, det, *, fired=None, kill=False, early=()):
    """final: bytes a complete run writes, by name ({} when none can)."""
    after = common.snapshot(b.root)
    mech = "killed-" if kill else "failed-"
    outs = {}
    rel = str(b.out) + os.sep
    clean_fault = fired and (fired[1] in CLEANUP or any(
        e[0] == "rmtree" for e in res.events[:res.events.index(fired)]))
    for p, how in common.diff_snap(before, after):
        if p == str(b.out):
            continue
        if p.startswith(rel):
            outs[p[len(rel):]] = how
            continue
        ctx.check(False, f"{p[len(str(b.root)):]} {how} by a run that did not succeed",
                  mech + "touched", det)
    left = sorted(os.listdir(ctx.tmp))
    publish_ok = kill or clean_fault
    for n, how in outs.items():
        p = b.out / n
        if n in final and how in ("added", "changed") and (publish_ok or n in early) and p.is_file() and \
                p.read_bytes() == final[n]:
            ctx.count["complete_output_at_fault"] += 1
            continue
        if (kill or clean_fault) and how == "added" and not (n.endswith(".whl") and "/" not in n):
            # an unfinished file under another name is the best such a process can do
            continue
        ctx.check(False, f"output directory: {n} {how}" +
                  (f" ({p.stat().st_size} bytes)" if p.is_file() else ""), mech + "output", det)
    ctx.check(True, "", mech + "state-compared")
    if not kill:
        ctx.check(not left or clean_fault, f"temporary files left: {left[:3]}", "failed-leftovers", det)
        ctx.check(res.cwd_after == str(b.root) or clean_fault,
                  f"working directory left at {res.cwd_after}", "failed-cwd", det)
    return left


def scrub(ctx, b, before):
    """back to the state before the run, for the next fault"""
    import shutil
    for d in list(ctx.tmp.iterdir()):
        shutil.rmtree(d, ignore_errors=True) if d.is_dir() else d.unlink()
    if b.out.exists():
        for p in list(b.out.iterdir()):
            if str(p) not in before:
                shutil.rmtree(p, ignore_errors=True) if p.is_dir() else p.unlink()
        if str(b.out) not in before:
            b.out.rmdir()


def again_as_before(ctx, b, before, state, final):
    """the state before the faulty run again -> its snapshot"""
    import shutil
    if str(b.out) not in before and b.out.exists():
        shutil.rmtree(b.out)
    if b.out.exists():
        for n in final:
            (b.out / n).unlink(missing_ok=True)
            if state == "old":
                (b.out / n).write_bytes(b"an older wheel of the same name")
    scrub(ctx, b, before)
    return common.snapshot(b.root)


# ---------------------------------------------------------------- injected faults
def pure_wheels(ctx, b):
    """one to three pure wheels in place of the wheel of a scenario -> their names"""
    r = ctx.rng
    wheels = []
    for i in range(r.choice([1, 1, 2, 3])):
        x = kinds.make(ctx, "pure", sub=f"c/pure{i}")
        if x.wheel.name in [p.name for p in wheels]:
            continue
        if r.random() < 0.6:
            with zipfile.ZipFile(x.wheel, "a") as z:
                z.writestr("qpkg/big.dat", r.randbytes(r.choice([3000, 300000, 3000000])))
        wheels.append(x.wheel)
    b.wheel.unlink()
    b.wheel = wheels[0]
    b.argv = [*b.argv[:-1], "--allow-pure-python-wheel", *map(str, wheels)]
    return wheels


def faults(ctx, full, pure=False):
    r = ctx.rng
    kn = dict(n_ext=(1, 3), p_file=0.08, p_script=0.3, strip=r.random() < 0.3)
    if full:
        kn.update(n_ext=(1, 1), n_in=0, n_lib=1, p_file=0.02, arch="x86_64", libc="glibc")
    w = scen.world(r, **kn)
    w.opts["sde"] = 1600000000
    w, b, m = common.build(ctx, w)
    early = set()
    if pure:
        wheels = pure_wheels(ctx, b)
        early = {p.name for p in wheels[:-1]}
    elif not m.plan()["ok"]:
        return
    root = str(ctx.root)
    base = run(ctx, b, trace_reads=True, iofault=dict(match=root))
    if base is None:
        return
    if pure:
        final = {p.name: p.read_bytes() for p in wheels}
        got = {p.name: p.read_bytes() for p in b.out.iterdir()} if b.out.is_dir() else {}
        if not ctx.check(base.ok and got == final, "pure wheels are not passed through on request",
                         "pure", {"run": base.brief()}):
            return
        ctx.count["pure_cases"] += 1
        out = b.out / wheels[-1].name
    else:
        if common.expect_ok(ctx, w, b, m, base) is None:
            return
        out = common.outputs(b)[0]
        final = {out.name: out.read_bytes()}
    import shutil
    shutil.rmtree(b.out)
    state = prepare_out(ctx, b, w, out.name)
    before = common.snapshot(b.root)
    pts = []
    seq = {}
    for ev in base.events:
        if ev[0] not in OPS or (ev[0] != "spawn" and root not in str(ev[1])):
            continue
        k = seq[ev[0]] = seq.get(ev[0], 0) + 1
        pts.append((ev[0], k))
    if ctx.idx < 12:
        ctx.sample = {"world": w.brief(), "points": len(pts), "state": state}
    plan = []
    if full:
        ctx.count["cases_enumerated_fully"] += 1
        for op, k in pts:
            plan += [("raise", op, k), ("kill", op, k)]
        plan += [("interrupt", op, k) for op, k in pts[::3]]
        # data writes are many (patchelf, zip): evenly spread ones, each with either fault
        step = max(1, base.iowrites // (400 if ctx.tier == "thorough" else 24))
        plan += [(r.choice(["io-kill", "io-full"]), "data", k)
                 for k in range(r.randint(1, step), base.iowrites + 1, step)]
    else:
        for _ in range(6):
            op, k = r.choice(pts)
            plan.append((r.choice(["raise", "raise", "kill", "kill", "interrupt"]), op, k))
        plan += [("fsize", 0, 0)] * 1 + [("tool", 0, 0)] * (not pure)
        # the later half are the writes of the new archive
        for kind in ("io-kill", "io-kill", "io-full"):
            k = r.randint(1, base.iowrites) if r.random() < 0.5 else \
                r.randint(base.iowrites // 2 + 1, base.iowrites)
            plan.append((kind, "data", k))
    for kind, op, k in plan:
        det = {"fault": (kind, op, k), "world": w.brief(), "state": state}
        if kind in ("raise", "kill", "interrupt"):
            f = dict(kind=kind, ops={op}, at=k, errno=r.choice([errno.ENOSPC, errno.EIO,
                                                               errno.EACCES]))
            if op != "spawn":
                f["match"] = root
            res = run(ctx, b, fault=f, trace_reads=op == "read")
        elif kind.startswith("io-"):
            res = run(ctx, b, iofault=dict(match=root, at=k, how=kind[3:]))
        elif kind == "fsize":
            size = max([len(v) for v in final.values()] + [len(x) for x in b.elf_bytes.values()])
            lim = r.randint(0, size - 1) if r.random() < 0.7 else r.randint(0, 3000)
            det["fsize"] = lim
            res = run(ctx, b, fsize=lim)
        else:
            env, n = failing_tool(r, b, w)
            det["tool"] = n
            res = run(ctx, b, env=env)
        if res is None:
            return
        det["run"] = res.brief()
        fired = next((e for e in res.events if e[0] == "FAULT"), None)
        killed = res.signal == signal.SIGKILL
        if kind in ("raise", "interrupt") and fired is None or \
                kind in ("kill", "io-kill") and not killed or kind == "io-full" and not res.iofired:
            ctx.count["fault_not_reached"] += 1
            before = again_as_before(ctx, b, before, state, final)
            continue
        ctx.count["faults_fired"] += 1
        ctx.count[{"raise": "raises", "kill": "kills", "interrupt": "interrupts", "tool":
                   "tool_failures", "fsize": "size_limits", "io-kill": "data_kills",
                   "io-full": "data_disk_full"}[kind]] += 1
        ctx.seen(kind, op, phase(fired, k, base.iowrites if op == "data" else seq.get(op, 1)),
                 state, res.exc or "")
        if res.ok:
            # the fault was survivable: the result must be the complete one
            got = {p.name: p.read_bytes() for p in common.outputs(b) if p.name in final}
            ctx.check(got == final, "a run that hit a fault reports success without the complete "
                      f"wheel ({sorted(got)})", "false-success", det)
            before = again_as_before(ctx, b, before, state, final)
            continue
        if not killed:
            ctx.check(res.err.strip() or res.excmsg, "a failing run says nothing", "silent", det)
        check_after(ctx, b, before, res, final, det, fired=fired, kill=killed, early=early)
        ctx.count["pure_faults"] += pure
        if r.random() < (0.06 if full else 0.25):
            # whatever the failed run left behind, the next one must work
            tmp2 = ctx.root / "tmp-retry"
            again = run(ctx, b, tmp=tmp2)
            if again is None:
                return
            ctx.count["retries"] += 1
            got = b.out / out.name
            ctx.check(again.ok and got.is_file() and got.read_bytes() == final[out.name],
                      "repair does not succeed after an earlier failed run", "no-recovery",
                      {**det, "again": again.brief()})
        before = again_as_before(ctx, b, before, state, final)


def phase(fired, k, n):
    return (fired or ("", "", ""))[1], 4 * k // (n + 1)


TOOL = """#!/bin/sh
n=$(cat "{cnt}" 2>/dev/null || echo 0)
n=$((n+1))
echo $n > "{cnt}"
if [ "$n" = "{at}" ]; then {how}; fi
exec {real} "$@"
"""


def failing_tool(r, b, w):
    """patchelf (or strip) that fails, or is killed, at its n-th call"""
    name = "strip" if w.opts.get("strip") and r.random() < 0.4 else "patchelf"
    real = {"strip": "/usr/bin/strip", "patchelf": "/opt/venv/bin/patchelf"}[name]
    d = b.root.parent / f"bin{r.getrandbits(40):x}"
    d.mkdir()
    at = r.randint(1, 3 if name == "strip" else 6)
    how = r.choice(["exit 1", "kill -9 $$", 'for l; do :; done; [ -f "$l" ] && : > "$l"; exit 1', "exit 127"])
    cnt = b.root.parent / f"cnt{d.name}"
    (d / name).write_text(TOOL.format(cnt=cnt, at=at, how=how, real=real))
    (d / name).chmod(0o755)
    return dict(b.env, PATH=f"{d}:{runner.BASE_PATH}"), (name, at, how)


# ---------------------------------------------------------------- refusals
def refusal(ctx):
    r = ctx.rng
    w = scen.world(r, n_ext=(1, 3), p_file=0.1, strip=False)
    c = r.choice(["missing", "missing", "verdict", "patcher", "toolmissing", "badwheel"])
    argv2 = []
    env2 = {}
    if c == "missing":
        objs = [e for e in w.elfs if e["role"] in ("ext", "lib")] + w.ext
        o = r.choice(objs)
        o["spec"]["needed"] = [*o["spec"]["needed"], "libqmissing.so.7"]
    elif c == "verdict":
        scen.verdict_mix(r, w, 0.5)
        common.with_plat(r, w, auto=0.2)
    elif c == "patcher":
        argv2 = ["--patcher", r.choice(["none", "lief-patchelf"])]
    elif c == "toolmissing":
        env2 = {"PATH": "/nonexistent"}
    w, b, m = common.build(ctx, w)
    if c == "badwheel":
        argv2 = [str(b.root / "in" / "absent-1.0-py3-none-linux_x86_64.whl")]
    if c in ("missing", "verdict") and m.plan()["ok"]:
        return
    state = prepare_out(ctx, b, w, w.filename if r.random() < 0.5 else None)
    before = common.snapshot(b.root)
    argv = [b.argv[0], *argv2, *b.argv[1:]]
    if c == "badwheel":
        argv = [*b.argv[:-1], *argv2]
    res = run(ctx, b, argv=argv, env={**b.env, **env2})
    if res is None:
        return
    det = {"refusal": c, "world": w.brief(), "run": res.brief(), "state": state}
    if res.ok:
        grafts = m.plan().get("grafts")
        if c in ("patcher", "toolmissing") and not grafts:
            return
        ctx.check(False, f"reports success ({c})", "false-success", det)
        return
    ctx.count["refusals"] += 1
    ctx.seen("refusal", c, state, res.exc)
    check_after(ctx, b, before, res, {}, det)


# ---------------------------------------------------------------- damaged input
def damaged(ctx):
    r = ctx.rng
    w = scen.world(r, n_ext=(0, 2), p_file=0.15, strip=False)
    w, b, m = common.build(ctx, w)
    kind = r.choice(["truncate", "flip", "norecord", "nowheel", "twodist", "ghost", "empty", "notzip",
                     "elfgarbage", "elfcut", "blankrecord", "badname", "dupmember", "dirout"])
    p = b.wheel
    raw = p.read_bytes()
    if kind == "truncate":
        p.write_bytes(raw[:r.randrange(len(raw))])
    elif kind == "flip":
        x = bytearray(raw)
        for _ in range(r.choice([1, 3, 20])):
            x[r.randrange(len(x))] ^= 1 << r.randrange(8)
        p.write_bytes(bytes(x))
    elif kind == "empty":
        p.write_bytes(b"")
    elif kind == "notzip":
        p.write_bytes(b"not a zip file at all" * 30)
    elif kind in ("norecord", "nowheel", "twodist", "ghost", "elfgarbage", "elfcut", "blankrecord",
                  "dupmember"):
        rewrite(r, p, w, kind)
    elif kind == "badname":
        q = p.with_name(r.choice(["nodashes.whl", "a-b.whl", "pkgq-1.0-cp312-linux_x86_64.whl",
                                  "pkgq-x-cp312-cp312-linux_x86_64.whl",
                                  w.filename[:-4] + ".zip"]))
        p.rename(q)
        b.wheel = q
        b.argv[-1] = str(q)
    elif kind == "dirout":
        b.out.write_bytes(b"a file where the output directory should be")
    state = prepare_out(ctx, b, w, None) if kind != "dirout" else "file"
    before = common.snapshot(b.root)
    res = run(ctx, b)
    if res is None:
        return
    ctx.count["damaged"] += 1
    ctx.seen("damaged", kind, res.ok, res.exc, state)
    det = {"damage": kind, "world": w.brief(), "run": res.brief(), "state": state}
    if res.ok:
        ctx.count["damaged_tolerated"] += 1
        new = [q for q in common.outputs(b) if str(q) not in before]
        for q in new:
            try:
                bad = zipfile.ZipFile(q).testzip()
            except Exception as e:  # noqa: BLE001
                bad = repr(e)
            ctx.check(bad is None, f"reports success but {q.name} is damaged: {bad}",
                      "false-success", det)
        return
    check_after(ctx, b, before, res, {}, det)


def rewrite(r, p, w, kind):
    src = zipfile.ZipFile(p)
    items = [(i, src.read(i)) for i in src.infolist()]
    src.close()
    elfs = [k for k, (i, d) in enumerate(items) if d[:4] == b"\x7fELF"]
    rec = next(k for k, (i, d) in enumerate(items) if i.filename == f"{w.distinfo}/RECORD")
    if kind == "norecord":
        del items[rec]
    elif kind == "nowheel":
        items = [x for x in items if x[0].filename != f"{w.distinfo}/WHEEL"]
    elif kind == "twodist":
        items.insert(0, (scen.zinfo("zz-9.dist-info/METADATA", 0o644), b"Name: zz\n"))
    elif kind == "ghost":
        i, d = items[rec]
        items[rec] = (i, b"qpkg/ghost.so,sha256=x,3\n" + d)
    elif kind == "blankrecord":
        i, d = items[rec]
        items[rec] = (i, b"\n" + d)
    elif kind == "elfgarbage":
        k = r.choice(elfs)
        i, d = items[k]
        x = bytearray(d)
        for _ in range(r.choice([1, 5, 60])):
            x[r.randrange(16, len(x))] = r.randrange(256)
        items[k] = (i, bytes(x))
    elif kind == "elfcut":
        k = r.choice(elfs)
        i, d = items[k]
        items[k] = (i, d[:r.randrange(4, len(d))])
    elif kind == "dupmember":
        items.insert(r.randrange(rec), items[r.randrange(len(items))])
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with zipfile.ZipFile(p, "w") as z:
            for i, d in items:
                z.writestr(i, d)
