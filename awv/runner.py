"""Run the real auditwheel CLI (or any callable) in a forked, unprivileged,
resource-limited child while an audit-hook monitor records what it does.

The monitor is `sys.addaudithook`: CPython reports every file open, rename,
unlink, mkdir, chmod, chdir and subprocess start, whatever auditwheel function
makes it, so the trace does not depend on how auditwheel is written.  The same
hook is the fault injector: raising from it makes exactly that call fail, and
SIGKILL from it is a crash at exactly that point.
"""
from __future__ import annotations

import errno
import io
import json
import os
import pickle
import resource
import select
import signal
import struct
import sys
import tempfile
import time
import traceback
from pathlib import Path

REPO_SRC = "/repo/src"
BASE_PATH = "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin"
UNPRIV_UID = 61234
# generous watchdog: firing is inconclusive (never a violation)
WATCHDOG = 100.0
# processor time a single run gets: the workloads need well under two seconds, so using all of it
# is a run that does not end (independent of how busy the machine is): a violation
CPU_LIMIT = 30
SPUN = []           # runs that hit it, collected by the engine after every case

FS_EVENTS = {
    "open", "os.rename", "os.remove", "os.unlink", "os.mkdir", "os.rmdir", "os.chmod",
    "os.chown", "os.link", "os.symlink", "os.truncate", "os.utime", "os.chdir",
    "shutil.rmtree", "shutil.move", "os.mkfifo", "os.setxattr",
    "subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork",
    "tempfile.mkdtemp", "tempfile.mkstemp", "socket.connect", "ctypes.dlopen",
}
_WR = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def setup_import():
    """Import auditwheel from /repo's working tree (never a stale .pyc)."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-awv-pycache"
    if REPO_SRC in sys.path:
        sys.path.remove(REPO_SRC)
    sys.path.insert(0, REPO_SRC)
    import auditwheel

    assert auditwheel.__file__.startswith(REPO_SRC + "/"), auditwheel.__file__
    import auditwheel.main  # noqa: F401
    import auditwheel.repair  # noqa: F401
    import auditwheel.wheel_abi  # noqa: F401


def norm_event(event, args):
    """-> (op, path, extra) with op in a small vocabulary, or None."""
    try:
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int):
                return None
            if isinstance(flags, int) and flags & _WR:
                return ("write", _abs(path), mode or "")
            if isinstance(mode, str) and any(c in mode for c in "wax+"):
                return ("write", _abs(path), mode)
            return ("read", _abs(path), mode or "")
        if event in ("os.rename", "shutil.move", "os.link"):
            return ("rename", _abs(args[0]), _abs(args[1]))
        if event == "os.symlink":
            return ("write", _abs(args[1]), "symlink")
        if event in ("os.remove", "os.unlink", "os.rmdir"):
            return ("remove", _abs(args[0], args[1] if len(args) > 1 else -1), "")
        if event == "shutil.rmtree":
            return ("rmtree", _abs(args[0]), "")
        if event == "os.mkdir":
            return ("mkdir", _abs(args[0]), "")
        if event in ("os.chmod", "os.chown", "os.truncate", "os.utime", "os.mkfifo", "os.setxattr"):
            return ("meta", _abs(args[0]), event)
        if event == "os.chdir":
            return ("chdir", _abs(args[0]), "")
        if event in ("subprocess.Popen", "os.exec", "os.posix_spawn"):
            a = args[1] if event == "subprocess.Popen" else args[1]
            return ("spawn", os.fsdecode(args[0]) if not isinstance(args[0], int) else "",
                    [os.fsdecode(x) for x in a], os.getcwd())
        if event == "os.system":
            return ("spawn", "sh", [os.fsdecode(args[0])], os.getcwd())
        if event == "tempfile.mkdtemp":
            return ("mkdtemp", _abs(args[0]), "")
        if event == "ctypes.dlopen":
            return ("dlopen", str(args[0]), "")
        if event == "socket.connect":
            return ("net", repr(args[1]), "")
    except Exception as e:  # noqa: BLE001  (an event we cannot normalise is kept raw)
        return ("raw", event, repr(e))
    return None


def _abs(p, dir_fd=-1):
    if isinstance(p, int):
        try:
            return os.readlink(f"/proc/self/fd/{p}")
        except OSError:
            return f"<fd {p}>"
    p = os.fsdecode(p)
    if not os.path.isabs(p):
        if isinstance(dir_fd, int) and dir_fd >= 0:
            try:
                p = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), p)
            except OSError:
                pass
        else:
            p = os.path.join(os.getcwd(), p)
    return os.path.normpath(p)


MUTATING = ("write", "rename", "remove", "rmtree", "mkdir", "meta")


class Result:
    __slots__ = ("rc", "exc", "excmsg", "out", "err", "events", "timeout", "signal", "value",
                 "wall", "cwd_after", "iowrites", "iofired")

    def __init__(self):
        self.rc = None
        self.exc = None
        self.excmsg = ""
        self.out = ""
        self.err = ""
        self.events = []
        self.timeout = False
        self.signal = None
        self.value = None
        self.wall = 0.0
        self.cwd_after = None
        self.iowrites = 0
        self.iofired = False

    @property
    def ok(self):
        return self.exc is None and self.rc in (0, None) and self.signal is None and not self.timeout

    def brief(self):
        return {
            "rc": self.rc, "exc": self.exc, "excmsg": self.excmsg[-600:], "signal": self.signal,
            "timeout": self.timeout, "stderr_tail": self.err[-600:],
        }


def run_child(fn, *, cwd, env, tmpdir, trace=True, fault=None, fsize=None, uname=None,
              delay=None, watchdog=WATCHDOG, sync=None, trace_reads=False, iofault=None, etc=None):
    """Fork, set up the environment, run fn() under the monitor; -> Result.

    fault: None or dict(kind="raise"|"kill", ops=set, at=k[, match=substr][, errno=..]):
           at the k-th event whose op is in ops (and path contains match).
    iofault: dict(match=dir[, at=k, how="kill"|"full"]): at the k-th call writing data below dir.
    etc: directory to take the place of /etc where the loader's configuration is read.
    fsize: RLIMIT_FSIZE for the child and its subprocesses (write faults).
    """
    h = _start(fn, cwd, env, tmpdir, trace, fault, fsize, uname, delay, sync, trace_reads,
               iofault=iofault, etc=etc)
    return _collect(h, watchdog)


def _start(fn, cwd, env, tmpdir, trace=True, fault=None, fsize=None, uname=None, delay=None, sync=None,
           trace_reads=False, gate=None, job="", iofault=None, etc=None):
    logd = Path(tmpdir).parent
    outp = logd / f".out.{os.getpid()}{job}"
    r, w = os.pipe()
    t0 = time.monotonic()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            os.setsid()
            import weakref

            weakref.finalize._registry.clear()   # the parent's finalizers are not ours
            fd = os.open(outp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            fde = os.open(str(outp) + "e", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(fd, 1)
            os.dup2(fde, 2)
            null = os.open(os.devnull, os.O_RDONLY)
            os.dup2(null, 0)
            sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", 0, closefd=False), encoding="utf-8",
                                          errors="backslashreplace", write_through=True)
            sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", 0, closefd=False), encoding="utf-8",
                                          errors="backslashreplace", write_through=True)
            os.environ.clear()
            os.environ.update({"PATH": BASE_PATH, "HOME": str(tmpdir), "TMPDIR": str(tmpdir),
                               "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
                               "PYTHONDONTWRITEBYTECODE": "1"})
            os.environ.update(env)
            tempfile.tempdir = None
            os.chdir(cwd)
            os.umask(0o022)
            if uname is not None:
                _fake_machine(uname)
            if fsize is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            limits()
            events = []
            payload = {"rc": None, "exc": None, "excmsg": "", "events": events, "value": None,
                       "cwd": None}
            state = {"on": bool(trace or fault or delay or gate), "n": 0, "busy": False}
            if state["on"]:
                if fault and "ops" in fault:
                    fault = dict(fault, ops=frozenset(fault["ops"]))

                def hook(event, args):
                    if not state["on"] or state["busy"] or event not in FS_EVENTS:
                        return
                    state["busy"] = True
                    try:
                        ev = norm_event(event, args)
                    finally:
                        state["busy"] = False
                    if ev is None:
                        return
                    if ev[0] != "read" or trace_reads:
                        events.append(ev)
                    if fault and ev[0] in fault["ops"] and fault.get("match", "") in str(ev[1]):
                        state["n"] += 1
                        if state["n"] == fault["at"]:
                            if fault["kind"] == "kill":
                                os.kill(os.getpid(), signal.SIGKILL)
                                time.sleep(60)
                            events.append(("FAULT", ev[0], ev[1]))
                            if fault["kind"] == "interrupt":
                                raise KeyboardInterrupt
                            en = fault.get("errno", errno.ENOSPC)
                            raise OSError(en, os.strerror(en), str(ev[1]))
                    if gate and ev[0] in gate["ops"]:
                        os.write(gate["ask"], b"?")
                        os.read(gate["go"], 1)
                    if delay and ev[0] in delay["ops"]:
                        time.sleep(delay["s"])

                sys.addaudithook(hook)
            if sync is not None:
                sync()
            lib = faultio() if iofault or etc else None
            if etc:
                lib.awv_etc(os.fsencode(etc))
            if lib is not None and iofault:
                lib.awv_arm(os.fsencode(iofault["match"]), iofault.get("at", -1),
                            {None: 0, "kill": 1, "full": 2}[iofault.get("how")])
            try:
                payload["value"] = fn()
                payload["rc"] = 0
            except SystemExit as e:
                payload["rc"] = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                payload["exc"] = None
            except BaseException as e:  # noqa: BLE001
                payload["rc"] = 1
                payload["exc"] = type(e).__name__
                payload["excmsg"] = "".join(traceback.format_exception(e))[-2500:]
            state["on"] = False
            try:
                payload["cwd"] = os.getcwd()
            except OSError as e:
                payload["cwd"] = f"<{e}>"
            # run finalizers (TemporaryDirectory) as an interpreter exit would
            import gc

            gc.collect()
            _run_finalizers()
            if lib is not None:
                lib.awv_disarm()
                lib.awv_etc(None)
                payload["io"] = (lib.awv_count(), bool(lib.awv_fired()))
            blob = pickle.dumps(payload)
            sys.stdout.flush()
            sys.stderr.flush()
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack("<Q", len(blob)) + blob)
        except BaseException:  # noqa: BLE001
            try:
                os.write(2, traceback.format_exc().encode())
            finally:
                os._exit(97)
        os._exit(0)
    os.close(w)
    return pid, r, outp, t0


def faultio():
    """the preloaded data-write fault injector (awv/faultio.c), None when it is not loaded"""
    import ctypes

    lib = ctypes.CDLL(None)
    try:
        lib.awv_count.restype = ctypes.c_long
        lib.awv_etc.argtypes = [ctypes.c_char_p]
        lib.awv_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
    except AttributeError:
        return None
    return lib


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))


def _collect(h, watchdog):
    pid, r, outp, t0 = h
    res = Result()
    buf = bytearray()
    deadline = time.monotonic() + watchdog
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            res.timeout = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 1.0))
        if rl:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            buf += chunk
            if len(buf) >= 8 and len(buf) - 8 >= struct.unpack_from("<Q", buf)[0]:
                break
    os.close(r)
    if res.timeout:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        res.signal = os.WTERMSIG(status)
        if res.signal == signal.SIGXCPU:
            SPUN.append(f"a run did not end within {CPU_LIMIT} s of processor time")
    elif os.WEXITSTATUS(status) == 97:
        res.exc = "HarnessError"
    if len(buf) >= 8:
        d = pickle.loads(bytes(buf[8:]))
        res.rc, res.exc, res.excmsg = d["rc"], d["exc"], d["excmsg"]
        res.events, res.value, res.cwd_after = d["events"], d["value"], d["cwd"]
        res.iowrites, res.iofired = d.get("io", (0, False))
    for attr, p in (("out", outp), ("err", Path(str(outp) + "e"))):
        try:
            setattr(res, attr, p.read_text(errors="replace"))
            p.unlink()
        except OSError:
            pass
    if res.exc == "HarnessError":
        raise RuntimeError("child harness error: " + res.err[-2000:])
    res.wall = time.monotonic() - t0
    return res


def run_many(jobs, rng, *, gate_ops=MUTATING + ("mkdtemp", "spawn"), stick=0.5, watchdog=WATCHDOG,
             observe=None):
    """Run several children at once, one step at a time: each stops before every operation in
    gate_ops until the scheduler (rng) lets it go on, so the interleaving is the seed's.
    observe(step) is called while all of them are stopped.
    jobs: dicts of _start's arguments.  -> (results, schedule) with schedule = string of job numbers."""
    kids = []
    for k, j in enumerate(jobs):
        ask_r, ask_w = os.pipe()
        go_r, go_w = os.pipe()
        h = _start(**j, gate=dict(ops=frozenset(gate_ops), ask=ask_w, go=go_r), job=f".{k}")
        os.close(ask_w)
        os.close(go_r)
        kids.append(dict(h=h, ask=ask_r, go=go_w, state="run"))
    deadline = time.monotonic() + watchdog
    sched = []
    last = None
    while True:
        # wait until every child is either at its gate or finished
        while any(c["state"] == "run" for c in kids):
            run = {c["ask"]: c for c in kids if c["state"] == "run"}
            fin = {c["h"][1]: c for c in kids if c["state"] == "run"}
            rl, _, _ = select.select([*run, *fin], [], [], 0.5)
            for fd in rl:
                if fd in fin:
                    fin[fd]["state"] = "done"
            for fd in rl:
                if fd in run and run[fd]["state"] == "run":
                    run[fd]["state"] = "wait" if os.read(fd, 1) else "done"
            if time.monotonic() > deadline:
                break
        if observe is not None:
            observe(len(sched))
        waiting = [k for k, c in enumerate(kids) if c["state"] == "wait"]
        if not waiting or time.monotonic() > deadline:
            break
        k = last if last in waiting and rng.random() < stick else rng.choice(waiting)
        last = k
        sched.append(str(k))
        kids[k]["state"] = "run"
        os.write(kids[k]["go"], b"!")
    for c in kids:
        if c["state"] == "wait":
            os.close(c["go"])
            c["go"] = None
    res = []
    for c in kids:
        res.append(_collect(c["h"], max(1.0, deadline - time.monotonic())))
        for fd in (c["ask"], c["go"]):
            if fd is not None:
                os.close(fd)
    return res, "".join(sched)


def _run_finalizers():
    import weakref

    try:
        weakref.finalize._exitfunc()
    except Exception:  # noqa: BLE001
        pass


def _fake_machine(machine):
    import platform

    platform.machine = lambda: machine
    real = os.uname

    def uname():
        u = real()
        return os.uname_result((u.sysname, u.nodename, u.release, u.version, machine))

    os.uname = uname
    platform._uname_cache = None if hasattr(platform, "_uname_cache") else None


def cli(argv):
    """A callable running `auditwheel *argv` exactly as the console script does."""

    def fn():
        import logging

        for h in list(logging.root.handlers):
            logging.root.removeHandler(h)
        sys.argv = ["auditwheel", *map(str, argv)]
        from auditwheel.main import main

        rc = main()
        if rc:
            raise SystemExit(rc)
        return None

    return fn


def run_cli(argv, *, cwd, tmpdir, env=None, **kw):
    return run_child(cli(argv), cwd=cwd, env=env or {}, tmpdir=tmpdir, **kw)


def dump(obj):
    return json.dumps(obj, default=lambda o: sorted(o) if isinstance(o, (set, frozenset))
                      else (o.hex() if isinstance(o, bytes) else str(o)), sort_keys=True)


LISTING = """
import os
_sd, _ld, _rev = os.scandir, os.listdir, %r
class _S:
    def __init__(self, *a):
        with _sd(*a) as it:
            self.l = iter(sorted(it, key=lambda e: e.name, reverse=_rev))
    def __iter__(self): return self
    def __next__(self): return next(self.l)
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass
os.scandir = _S
os.listdir = lambda *a: sorted(_ld(*a), reverse=_rev)
"""


def run_fresh(argv, *, cwd, tmpdir, env=None, uname=None, watchdog=WATCHDOG, umask=0o022,
              prog=("-m", "auditwheel"), stdin=None, listing=None):
    """The same CLI in a brand-new interpreter (hash randomisation, module state, env parsing).
    listing: True/False: directories are listed in ascending/descending order of names."""
    import subprocess

    e = {"PATH": BASE_PATH, "HOME": str(tmpdir), "TMPDIR": str(tmpdir), "LANG": "C.UTF-8",
         "LC_ALL": "C.UTF-8"}
    e.update(env or {})
    # byte code compiled by this very run of the check, never one lying about in /repo
    pyc = os.path.join(os.environ.get("HOME", str(tmpdir)), "awv-pyc")
    pre = []
    # a generated library must not be loaded by the interpreter itself
    llp = e.pop("LD_LIBRARY_PATH", None)
    if uname or llp or listing is not None:
        code = ((LISTING % (not listing) if listing is not None else "") + "import os,platform,sys,runpy\n"
                + (f"platform.machine=lambda:{uname!r}\n" if uname else "")
                + (f"os.environ['LD_LIBRARY_PATH']={llp!r}\n" if llp else "") +
                "sys.argv=['auditwheel',*sys.argv[1:]]\n"
                "runpy.run_module('auditwheel',run_name='__main__',alter_sys=False)\n")
        pre = ["-c", code]
    res = Result()
    t0 = time.monotonic()
    try:
        p = subprocess.run([sys.executable, "-X", f"pycache_prefix={pyc}",
                            *(pre or prog), *map(str, argv)], cwd=cwd, env=e, timeout=watchdog,
                           stdin=subprocess.DEVNULL, capture_output=True, umask=umask, preexec_fn=limits)
        res.rc = p.returncode if p.returncode >= 0 else None
        res.signal = -p.returncode if p.returncode < 0 else None
        if res.signal == signal.SIGXCPU:
            SPUN.append(f"a run did not end within {CPU_LIMIT} s of processor time")
        res.out, res.err = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        res.timeout = True
    res.wall = time.monotonic() - t0
    return res
