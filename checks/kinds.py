"""Wheels that are no (valid) platform wheels, of several kinds."""
from awv import common, elfgen, runner, scen


KINDS = ["pure", "pure-misnamed", "foreign", "purelib", "badname"]


class X:
    pass


def choose(r, platform=0.0, among=KINDS):
    return "platform" if r.random() < platform else r.choice(among)


def make(ctx, k, sub="k", dir_=None):
    """pure: no ELF, tagged any; pure-misnamed: no ELF, tagged linux; foreign: only ELF files of
    another architecture; purelib: a shared library below purelib; badname: no wheel file name"""
    r = ctx.rng
    x = X()
    x.kind = k
    x.root = ctx.root / sub
    x.root.mkdir(exist_ok=True)
    name = r.choice(["pkgq", "Pkg_Q", "q.dotted"])
    ver = r.choice(["1.0", "0.1.dev3"])
    arch = x.arch = r.choice(["x86_64", "x86_64", "aarch64", "i686", "ppc64le"])
    mem = [(f"{name}/__init__.py", b"x = 1\n", 0o644)]
    plat = f"linux_{arch}"
    if k == "pure":
        plat = "any"
    if r.random() < 0.5:
        mem += [("qpkg/looks_like.so", r.choice([b"", b"\x7fEL", b"text", b"MZ\x90" + bytes(99)]), 0o755)]
    if r.random() < 0.3:
        mem += [(f"{name}-{ver}.data/purelib/m.py", b"", 0o644),
                (f"{name}-{ver}.data/scripts/s", b"#!python\n", 0o755)]
    if r.random() < 0.3:
        mem += [("qpkg/\u00fcml,\u00e4ut.txt", b"u", 0o600)]

    def elf(a):
        return elfgen.make_elf(arch=a, soname=None, needed=["libc.so.6"],
                               verneed=[("libc.so.6", ["GLIBC_2.17"])], payload=b"k",
                               exports=[("PyInit__k", 0)])
    if k == "foreign":
        base = {"i686": "x86_64", "x86_64": "i686"}
        for i in range(r.randint(1, 3)):
            a = r.choice([a for a in ("x86_64", "aarch64", "i686", "ppc64le", "s390x", "riscv64", "armv7l")
                          if a != arch])
            if r.random() < 0.3:
                a = base.get(arch, a)
            mem.append((f"qpkg/_k{i}.so", elf(a), 0o755))
    if k == "purelib":
        deep = r.choice(["", "qpkg/", "qpkg/", "qpkg/sub/", "qpkg/a/b/c/"])
        mem.append((f"{name}-{ver}.data/purelib/{deep}_k.so", elf(arch), 0o755))
        if r.random() < 0.5:
            mem.append(("qpkg/_ok.so", elf(arch), 0o755))
    di = f"{name}-{ver}.dist-info"
    tag = f"py3-none-{plat}"
    mem += [(f"{di}/METADATA", f"Metadata-Version: 2.1\nName: {name}\nVersion: {ver}\n".encode(), 0o644),
            (f"{di}/WHEEL", f"Wheel-Version: 1.0\nGenerator: q\nRoot-Is-Purelib: "
             f"{'true' if k.startswith('pure') else 'false'}\nTag: {tag}\n\n".encode(), 0o644)]
    fn = f"{name}-{ver}-{tag}.whl"
    if k == "badname":
        fn = r.choice([f"{name}.whl", f"{name}-{ver}-py3-any.whl", "archive.zip",
                       f"{name}-{ver}-py3-none-{plat}.zip"])
        x.haself = r.random() < 0.5
        if x.haself:
            mem.append(("qpkg/_k.so", elf(arch), 0o755))
    d = dir_ or (x.root / "in")
    d.mkdir(exist_ok=True)
    x.wheel = d / fn
    scen.write_wheel(x.wheel, mem, di, signed=r.random() < 0.1)
    x.names = [n for n, _, _ in mem]
    x.shape = (k, arch, len(mem), plat)
    x.raw = x.wheel.read_bytes()
    return x


def run(ctx, x, argv, **kw):
    ctx.tmp.mkdir(exist_ok=True)
    res = runner.run_cli(argv, cwd=x.root, tmpdir=ctx.tmp,
                         uname=None if x.arch in ("x86_64", "i686") else x.arch, **kw)
    ctx.count["auditwheel_runs"] += 1
    ctx.count["events_observed"] += len(res.events)
    if res.timeout:
        ctx.inconclusive.append("watchdog")
        raise common.Skip
    return res
