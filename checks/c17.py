"""C17: programs in a wheel's scripts directory behave the same after the repair: what is installed
under their name runs them with the same arguments, environment, streams, directory and outcome."""
import os
import re
import shutil
import stat
import subprocess
from pathlib import Path

from awv import common, elfread, runner, scen
from awv.wheelread import Wheel, installed

CASES_QUICK = 130
CASES_THOROUGH = 3000
LEVEL = "exploration"
RULE = ("wheels with 1-4 compiled programs (0-2 external libraries each, chained), shell and Python scripts under "
        "ordinary and awkward names are repaired; input and output are installed into fresh virtual "
        "environments and every script is launched in several ways (path, PATH, relative, link, moved "
        "environment) with random arguments, environment, input, descriptors, directory and outcome (status, "
        "signal); the programs report what they see; distinct by (name, library graph, way of launching, outcome)")
FLOOR = {"launches": 350, "shimmed_launches": 200, "untouched_scripts": 60, "signals": 20, "stdin": 40, "linked": 20,
         "no_exec_bit": 3}
PROG = r"""
#include <dirent.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
EXTERN
extern char **environ;
static void hex(const char *k, const char *s, size_t n) {
    printf("%s ", k);
    while (n--) printf("%02x", (unsigned char)*s++);
    putchar('\n');
}
int main(int argc, char **argv) {
    char buf[70000];
    size_t n;
    int fds[64], nf = 0, i;
    for (i = 0; i < 64; i++) { struct stat st; if (fstat(i, &st) == 0) fds[nf++] = i; }
    for (i = 0; i < argc; i++) hex("arg", argv[i], strlen(argv[i]));
    for (char **e = environ; *e; e++) hex("env", *e, strlen(*e));
    if (getcwd(buf, sizeof buf)) hex("cwd", buf, strlen(buf));
    for (i = 0; i < nf; i++) printf("fd %d\n", fds[i]);
    printf("tty %d%d%d\n", isatty(0), isatty(1), isatty(2));
    mode_t m = umask(0); umask(m);
    printf("umask %o\n", (unsigned)m);
    printf("ids %d %d\n", (int)getpid(), (int)getppid());
    printf("id PROGID\n");
    VALUE
    n = fread(buf, 1, sizeof buf, stdin);
    hex("stdin", buf, n);
    fflush(stdout);
    fprintf(stderr, "diag\n");
    for (i = 1; i < argc; i++) {
        if (!strncmp(argv[i], "exit=", 5)) return atoi(argv[i] + 5);
        if (!strncmp(argv[i], "kill=", 5)) raise(atoi(argv[i] + 5));
    }
    return 0;
}
"""
NAMES = ["prog", "prog-tool", "prog.exe", "my prog", "it's", 'do"uble', "b\\slash", "pr\u00f6g", "{x}", "%s", "a.b.c",
         "prog,1", "$HOME", "\\x41", "r\\n", "x" * 100, "prog.so", "-q", "\u65e5\u672c"]
_cache = {}


def compiled(graph, tag):
    """-> (program, [(soname, bytes)]) for a library graph; linked for real once per process"""
    key = (graph, tag)
    if key in _cache:
        return _cache[key]
    import tempfile

    d = Path(tempfile.mkdtemp())
    try:
        libs = {"none": [], "one": ["a"], "chain": ["a", "b"], "two": ["a", "c"]}[graph]
        made = []
        val = {"a": 10, "b": 20, "c": 30}

        def cc(args):
            subprocess.run(["gcc", "-O0", "-fno-ident", *args], check=True, cwd=d, capture_output=True)
        for x in reversed(libs):
            dep = x == "a" and graph == "chain"
            (d / f"{x}.c").write_text(f"int fn_b(void); int fn_{x}(void){{return {val[x]}"
                                      + ("+fn_b()" if dep else "") + ";}")
            so = f"libqs{x}.so.1"
            cc(["-shared", "-fPIC", f"{x}.c", "-o", so, f"-Wl,-soname,{so}",
                *(["-L.", "-l:libqsb.so.1"] if dep else [])])
            made.append((so, (d / so).read_bytes()))
        direct = [x for x in libs if not (graph == "chain" and x == "b")]
        src = PROG.replace("EXTERN", "\n".join(f"int fn_{x}(void);" for x in direct)).replace("PROGID", tag)
        src = src.replace("VALUE", "".join(f'printf("value {x} %d\\n", fn_{x}());' for x in direct))
        (d / "p.c").write_text(src)
        cc(["p.c", "-o", "p", "-L.", "-Wl,--allow-shlib-undefined", *[f"-l:libqs{x}.so.1" for x in direct]])
        _cache[key] = ((d / "p").read_bytes(), made)
    finally:
        shutil.rmtree(d)
    return _cache[key]


def venv(root):
    (root / "bin").mkdir(parents=True)
    os.symlink("/usr/bin/python3", root / "bin/python")
    (root / "lib/python3.12/site-packages").mkdir(parents=True)
    (root / "pyvenv.cfg").write_text("home = /usr/bin\ninclude-system-site-packages = false\n")
    return root


def install(wh, root):
    """what an installer does with a wheel"""
    for ip, arc in installed(wh).items():
        top, _, rest = ip.partition("/")
        base = {"site": root / "lib/python3.12/site-packages", "bin": root / "bin", "data": root / "data"}[top]
        p = base / rest
        p.parent.mkdir(parents=True, exist_ok=True)
        data = wh.data[arc]
        mode = 0o755 if wh.mode[arc] & 0o111 else 0o644
        if top == "bin" and data.startswith(b"#!python"):
            data = b"#!" + os.fsencode(root / "bin/python") + data[8:]
        p.write_bytes(data)
        os.chmod(p, mode)


class S:
    pass


def case(ctx):
    r = ctx.rng
    w = scen.World()
    w.name = r.choice(["pkgq", "Pkg_Q", "q.dotted", "q_1"])
    w.ver = r.choice(["1.0", "0.1.dev3", "1!2.0+l.x"])
    w.opts = {"sde": 1600000000}
    if r.random() < 0.3:
        w.opts["lib_sdir"] = r.choice([".mylibs", ".l-i.b"])
    if r.random() < 0.2:
        w.opts["strip"] = True
    scripts, libs = [], {}
    names = r.sample(NAMES, k=r.randint(1, 4))
    for i, nm in enumerate(names):
        s = S()
        s.name = nm
        s.kind = r.choice(["elf"] * 5 + ["sh", "py"]) if i else "elf"
        s.mode = r.choice([0o755, 0o755, 0o755, 0o775, 0o700, 0o711, 0o555, 0o555, 0o711, 0o644])
        s.graph = None
        if s.kind == "elf":
            s.graph = r.choice(["one", "one", "chain", "two", "none"] if i else ["one", "chain", "two"])
            s.data, ls = compiled(s.graph, f"P{i}")
            libs.update(ls)
        elif s.kind == "sh":
            s.data = b'#!/bin/sh\nprintf "%s\\n" "$@"; pwd; cat; exit 3\n'
        else:
            s.data = b'#!python\nimport sys, os\nprint(sys.argv[1:], os.getcwd(), sys.stdin.read())\nsys.exit(4)\n'
        w.files.append(dict(path=f"{w.data}/scripts/{nm}", data=s.data, mode=s.mode))
        scripts.append(s)
    w.files.append(dict(path=f"{w.name}/__init__.py", data=b"", mode=0o644))
    if r.random() < 0.3:
        w.files.append(dict(path=f"{w.name}.scripts/README", data=b"mine", mode=0o644))
    w.direntries = r.random() < 0.3
    b = scen.materialize(w, ctx.root, r)
    d = b.extroot / "d0"
    d.mkdir()
    for so, data in libs.items():
        (d / so).write_bytes(data)
        os.chmod(d / so, 0o755)
    envs = {k: v for k, v in b.env.items() if "LIBRARY" not in k}
    res = common.repair(ctx, b, env={**envs, "LD_LIBRARY_PATH": str(d)})
    outs = common.outputs(b)
    det = {"scripts": [(s.name, s.kind, s.graph, oct(s.mode)) for s in scripts], "wheel": w.filename,
           "opts": w.opts, "run": res.brief()}
    if not ctx.check(res.ok and len(outs) == 1, "a repairable wheel was not repaired", "repair-fails", det):
        return
    wh = common.read_output(ctx, outs[0])
    if wh is None:
        return
    if ctx.idx < 3:
        ctx.sample = det["scripts"]
    orig = Wheel(b.wheel)
    shims(ctx, w, wh, orig, scripts, det)
    before, after = venv(ctx.root / "va"), venv(ctx.root / "vb")
    install(orig, before)
    install(wh, after)
    plan = []
    for s in scripts:
        for _ in range(r.choice([1, 2]) if s.kind == "elf" else 1):
            plan.append((s, launch_plan(r, ctx)))
    seen = [run(ctx, before, s, p, str(d)) for s, p in plan]
    shutil.rmtree(b.extroot)             # the machine the wheel is used on has none of this
    if r.random() < 0.3:
        # an environment on another file system path, reached through a link
        real = ctx.root / "elsewhere"
        os.rename(after, real)
        os.symlink(real, after)
        ctx.count["relocated"] += 1
    for (s, p), want in zip(plan, seen):
        got = run(ctx, after, s, p, str(d))
        ctx.seen(s.name, s.graph, p.how, p.outcome)
        ctx.count["launches"] += 1
        ctx.count["shimmed_launches"] += s.graph not in (None, "none")
        ctx.count["signals"] += p.outcome.startswith("kill")
        ctx.count["stdin"] += bool(p.stdin)
        ctx.count["linked"] += p.how == "link"
        dd = dict(det, script=s.name, how=p.how, args=p.args, before=want, after=got)
        for k in want:
            ctx.check(got.get(k) == want[k], f"{s.name!r}: {k} was {want[k]!r:.300}, is {got.get(k)!r:.300}",
                      "differs-" + k, dd)


def shims(ctx, w, wh, orig, scripts, det):
    """what is in the scripts directory"""
    for s in scripts:
        arc = f"{w.data}/scripts/{s.name}"
        if not ctx.check(arc in wh.data, f"the script {s.name!r} is gone", "script-gone", det):
            continue
        if s.graph in (None, "none"):
            ctx.count["untouched_scripts"] += 1
            ctx.check((wh.data[arc] == s.data or w.opts.get("strip") and s.kind == "elf")
                      and stat.S_IMODE(wh.mode[arc]) == s.mode | 0o600,
                      f"{s.name!r} needs no external library but was changed", "needless", det)
            continue
        ctx.count["no_exec_bit"] += not s.mode & 0o100
        ctx.check(stat.S_IMODE(wh.mode[arc]) == s.mode | 0o600, f"{s.name!r}: mode {s.mode:o} became {wh.mode[arc]:o}",
                  "mode", det)
        moved = [n for n in wh.data if n not in orig.data and n.endswith("/" + s.name) and wh.elf(n)]
        ctx.check(len(moved) == 1, f"{s.name!r}: program moved to {moved}", "moved", det)
    ctx.check(all(wh.data.get(n) == d for n, d in orig.data.items() if "/README" in n), "README lost", "others", det)
    ctx.check(not any(n.startswith(w.data + "/scripts/") and n not in orig.data for n in wh.data),
              "something was added to the scripts directory", "extra-script", det)


class P:
    pass


def launch_plan(r, ctx):
    p = P()
    p.how = r.choice(["path", "path", "PATH", "relative", "link", "otherlink"])
    args = []
    for _ in range(r.choice([0, 1, 3, 6])):
        args.append(r.choice([b"", b"a", b"two words", b"--help", b"-c", b"-", b"--", b"\xff\xfe", b"\xc3\xa9", b"a\nb",
                              b"'q'", b'"', b"\\", b"*", b"$HOME", b"x" * 3000, b"-m", b"--version", b"=", b"%s"]))
    p.outcome = r.choice(["", "", "exit=0", "exit=1", "exit=2", "exit=77", "exit=255", "kill=9", "kill=15", "kill=6",
                          "kill=2"])
    if p.outcome:
        args.insert(r.randint(0, len(args)), p.outcome.encode())
    p.args = args
    p.stdin = r.choice([b"", b"", b"line\n", b"\x00\xff" * 50, b"y" * 65000])
    p.env = {}
    for _ in range(r.randint(0, 4)):
        k, v = r.choice([("LANG", "C"), ("LANG", "C.UTF-8"), ("LC_ALL", "C"), ("TZ", "Asia/Tokyo"), ("Q", ""), ("Q2", "a=b"),
                         ("PYTHONDONTWRITEBYTECODE", "1"), ("PYTHONHASHSEED", "3"), ("PYTHONSAFEPATH", "1"),
                         ("QBIN", "\udcff"), ("QNL", "a\nb"), ("PYTHONUNBUFFERED", "1"), ("PYTHONOPTIMIZE", "2"), ("_", "/x")])
        p.env[k] = v
    p.umask = r.choice([0o022, 0o077, 0])
    p.nfd = r.choice([0, 0, 1, 3])
    p.cwd = r.choice(["root", "bin", "site", "slash"])
    return p


def plain(ctx, v):
    """the two environments under one name"""
    root = os.fsencode(ctx.root)
    v = v.replace(root, b"ROOT").replace(root[1:], b"ROOT")
    return re.sub(rb"\b(va|vb|elsewhere)/", b"@/", re.sub(rb"\b(va|vb|elsewhere)$", b"@", v))


def run(ctx, env, s, p, llp):
    binp = env / "bin" / s.name
    cwd = {"root": ctx.root, "bin": env / "bin", "site": env / "lib/python3.12/site-packages", "slash": Path("/")}[p.cwd]
    path = f"{env}/bin:/usr/bin:/bin"
    first = str(binp)
    if p.how == "PATH":
        first = s.name
    elif p.how == "relative":
        first = os.path.relpath(binp, cwd)
        first = first if "/" in first else "./" + first
    elif p.how in ("link", "otherlink"):
        d = ctx.root / "links"
        d.mkdir(exist_ok=True)
        ln = d / (s.name if p.how == "link" else "renamed")
        if ln.is_symlink():
            ln.unlink()
        os.symlink(binp, ln)
        first = str(ln)
    fds, devs = [], []
    for k in range(p.nfd):
        fds.append(os.open("/dev/null", os.O_RDONLY))
    full = {"PATH": path, "HOME": str(ctx.root), "LD_LIBRARY_PATH": llp, **p.env}
    exe = str(binp) if p.how == "PATH" else first

    def pre():
        os.umask(p.umask)
    if p.how == "PATH" and not os.access(binp, os.X_OK):
        p.how, exe, first = "path", str(binp), str(binp)
    try:
        pr = subprocess.Popen([first, *p.args], executable=exe, env={os.fsencode(k): os.fsencode(v) for k, v in full.items()},
                              cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              pass_fds=fds, preexec_fn=pre)
    except OSError as e:
        return {"error": f"{type(e).__name__} {e.errno}"}
    finally:
        for f in fds:
            os.close(f)
    try:
        out, err = pr.communicate(p.stdin, timeout=60)
    except subprocess.TimeoutExpired:
        pr.kill()
        pr.communicate()
        ctx.inconclusive.append("launch watchdog")
        return {}
    o = {"outcome": pr.returncode, "stderr": plain(ctx, err).decode(errors="backslashreplace")[-600:]}
    if s.kind != "elf":
        o["out"] = plain(ctx, out).hex()
        return o
    o.update(args=[], env=[], fds=[], other=[])
    for line in out.decode(errors="replace").splitlines():
        k, _, v = line.partition(" ")
        if k in ("arg", "env", "cwd", "stdin"):
            v = bytes.fromhex(v)
            v = plain(ctx, v)
            v = v.decode(errors="backslashreplace")
        if k == "arg":
            o["args"].append(v)
        elif k == "env":
            if v != "LC_CTYPE=C.UTF-8":     # the interpreter's locale coercion (PEP 538)
                o["env"].append(v)
        elif k == "fd":
            o["fds"].append(v)
        elif k == "ids":
            pid, ppid = v.split()
            o["same process"] = int(pid) == pr.pid
            o["same parent"] = int(ppid) == os.getpid()
        else:
            o["other"].append((k, v))
    # how the kernel hands over the name of an interpreted file: the path it was found at
    if o["args"] and p.how == "PATH":
        o["args"][0] = o["args"][0].rsplit("/", 1)[-1]
    o["env"].sort()
    return o
