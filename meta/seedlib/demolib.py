"""Helpers for the demonstrations: small real ELF files (gcc), wheels, and the real CLI."""
import base64, csv, hashlib, io, os, re, shutil, subprocess, sys, tempfile, zipfile
from pathlib import Path

PY = "/opt/venv/bin/python"
TMP = Path(tempfile.mkdtemp(prefix="awdemo-"))
import atexit
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))


def so(path, soname=None, body="", needs=(), rpath=None, runpath=None, exe=False, extra=()):
    """needs: paths of libraries to link with"""
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    cmd = ["gcc", "-O0", "-x", "c", "-", "-o", str(path), "-Wl,--no-as-needed",
           "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy"]
    cmd += [] if exe else ["-shared", "-fPIC"]
    if soname:
        cmd.append(f"-Wl,-soname,{soname}")
    for n in needs:
        cmd += ["-x", "none", str(n)]
    if rpath:
        cmd += ["-Wl,--disable-new-dtags", f"-Wl,-rpath,{rpath}"]
    if runpath:
        cmd += ["-Wl,--enable-new-dtags", f"-Wl,-rpath,{runpath}"]
    cmd += list(extra)
    subprocess.run(cmd, input=(body or "int awd_x(void){return 1;}\n"), text=True, check=True)
    return path


def ext(path, needs=(), body="", **kw):
    mod = Path(path).name.split(".")[0]
    b = f"#include <stdio.h>\nvoid *PyInit_{mod}(void){{puts(\"x\");return 0;}}\n" + body
    return so(path, body=b, needs=needs, **kw)


def wheel(path, members, distinfo="demo-1.0.dist-info", tags=("cp312-cp312-linux_x86_64",),
          pure="false", record_extra=(), modes=None, extra_meta=""):
    """members: {arcname: bytes or Path}"""
    modes = modes or {}
    rows = []
    meta = {f"{distinfo}/METADATA": b"Metadata-Version: 2.1\nName: demo\nVersion: 1.0\n",
            f"{distinfo}/WHEEL": (f"Wheel-Version: 1.0\nGenerator: demo\nRoot-Is-Purelib: {pure}\n"
                                  + "".join(f"Tag: {t}\n" for t in tags) + extra_meta + "\n").encode()}
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    with zipfile.ZipFile(path, "w") as z:
        for arc, data in {**members, **meta}.items():
            if isinstance(data, Path):
                data = data.read_bytes()
            zi = zipfile.ZipInfo(arc, (2020, 1, 1, 0, 0, 0))
            zi.external_attr = (0o100000 | modes.get(arc, 0o644)) << 16
            if arc.endswith("/"):
                zi.external_attr = (0o40755 << 16) | 0x10
            z.writestr(zi, data)
            if not arc.endswith("/"):
                h = base64.urlsafe_b64encode(hashlib.sha256(data).digest()).rstrip(b"=").decode()
                rows.append([arc, "sha256=" + h, str(len(data))])
        rows += [list(r) for r in record_extra]
        rows.append([f"{distinfo}/RECORD", "", ""])
        buf = io.StringIO(newline="")
        csv.writer(buf, lineterminator="\n").writerows(rows)
        z.writestr(f"{distinfo}/RECORD", buf.getvalue())
    return path


def aw(*argv, env=None, cwd=None, check=False, pre=""):
    e = {"PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", "HOME": str(TMP), "TMPDIR": str(TMP),
         "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": "/repo/src"}
    e.update(env or {})
    cmd = [PY, "-m", "auditwheel"]
    if pre:
        cmd = [PY, "-c", pre + "\nimport sys,runpy\nsys.argv=['auditwheel',*sys.argv[1:]]\n"
               "runpy.run_module('auditwheel',run_name='__main__')\n"]
    p = subprocess.run([*cmd, *map(str, argv)], env=e, cwd=cwd or TMP, text=True,
                       capture_output=True, timeout=240)
    if check and p.returncode:
        print(p.stdout, p.stderr)
        raise SystemExit("auditwheel failed where it should succeed")
    return p


def repair(whl, *opts, env=None, out=None, **kw):
    """-> Path of the single output wheel"""
    out = Path(out or TMP / "out")
    p = aw("repair", *opts, "-w", out, whl, env=env, check=True, **kw)
    got = sorted(out.glob("*.whl"))
    assert len(got) == 1, (got, p.stderr)
    return got[0]


def dyn(data_or_path):
    if isinstance(data_or_path, bytes):
        f = TMP / "dyn.so"
        f.write_bytes(data_or_path)
        data_or_path = f
    out = subprocess.run(["readelf", "-dW", str(data_or_path)], text=True, capture_output=True,
                         check=True).stdout
    d = {"needed": re.findall(r"\(NEEDED\).*\[(.*)\]", out),
         "soname": (re.findall(r"\(SONAME\).*\[(.*)\]", out) or [None])[0],
         "rpath": (re.findall(r"\(RPATH\).*\[(.*)\]", out) or [None])[0],
         "runpath": (re.findall(r"\(RUNPATH\).*\[(.*)\]", out) or [None])[0]}
    return d


def fail(msg):
    print("DEMO FAIL:", msg)
    sys.exit(1)
