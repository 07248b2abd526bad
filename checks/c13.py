"""C13: libraries are located the way the dynamic loader would locate them, skipping files of
another architecture; --ldpaths and the two path variables have their documented places."""
import glob
import json
import os
import subprocess

from awv import common, elfgen, elfread, ldso, loadsim, runner, scen
from awv.wheelread import installed

CASES_QUICK = 1200
CASES_THOROUGH = 12000
LEVEL = "exploration"
RULE = ("trees of directories holding competing copies of the same library names (different content, "
        "wrong class/machine decoys, symlinks) with RPATH/RUNPATH/$ORIGIN/environment/--ldpaths "
        "combinations; lddtree's answers and the libraries really grafted are compared with the loader "
        "rules and, on x86_64, with the real ld.so; distinct by competition and search-path shape")
FLOOR = {"names_resolved": 600, "contested": 250, "real_ldso": 60, "decoy_present": 80, "dead_links": 200, "empty_runpath": 20,
         "loader_aside": 25, "grafts_compared": 60,
         "mode:conf": 70, "mode:musl": 35, "real_ldconfig": 40, "in_default_dirs": 60, "linked_dirs": 400, "sibling_decoys": 100, "relative_dirs": 80, "current_directory": 40,
         "same_name_in_wheel": 20, "mode:chain": 80, "inherited": 100, "mode:llp": 40, "mode:ldpaths": 40, "mode:rpath": 40}
LIBC = "libc.so.6"


def via(r, dirs, d):
    """sometimes by way of another directory"""
    if r.random() < 0.8:
        return d
    o = r.choice(dirs)
    return o + "/" + os.path.relpath(os.path.realpath(d), os.path.realpath(o))


def listed(r, ctx, t, ds):
    """a list of directories for the environment or an option: (text, directories)"""
    ent, out = [], []
    for d in ds:
        c = r.random()
        ent.append(os.path.relpath(os.path.realpath(d), os.path.realpath(t.cwd)) if c < 0.15
                   else via(r, t.dirs, d))
        out.append(os.path.join(t.cwd, ent[-1]))
        ctx.count["relative_dirs"] += c < 0.15
    if r.random() < 0.2:
        i = r.choice([0, len(ent), r.randint(0, len(ent))])
        ent.insert(i, "")
        out.insert(i, t.cwd)
        t.here = True
    return ":".join(ent), out


def spec_paths(r, dirs, n, origin=0.3, here=None):
    ent = []
    for d in r.sample(dirs, min(len(dirs), r.randint(1, n))):
        if here is not None and r.random() < origin:
            # from where the object really lies; sometimes as the names have it, which may lead nowhere
            rel = os.path.relpath(os.path.realpath(d), os.path.realpath(here)) \
                if r.random() < 0.9 else os.path.relpath(d, here)
            ent.append(r.choice(["$ORIGIN", "${ORIGIN}"]) + ("" if rel == "." else "/" + rel))
        else:
            ent.append(via(r, dirs, d) + r.choice(["", "", "/", "/."]))
    if r.random() < 0.3:
        ent.insert(r.randint(0, len(ent)), "/nonexistent/lib")
    if r.random() < 0.2:
        ent.append(ent[0])
    return ":".join(ent)


FAULTIO = True
# same machine, another word size or byte order
SIBLING = {"x86_64": "x32", "aarch64": "aarch64_be", "armv7l": "armeb", "riscv64": "riscv32",
           "loongarch64": "loongarch32", "s390x": "s390", "ppc64le": "ppc64", "ppc64": "ppc64le"}


def case(ctx):
    try:
        t = tree(ctx)
    except common.Skip:
        return
    if ctx.idx % 3 == 2:
        grafting(ctx, t)
    else:
        lookup(ctx, t)


class T:
    pass


def musl_path(r, t, etc):
    """musl's path file: directories between colons or newlines"""
    etc.mkdir()
    order = r.sample(t.dirs, r.randint(1, len(t.dirs)))
    if r.random() < 0.3:
        order.insert(r.randint(0, len(order)), "/nonexistent/lib")
    sep = r.choice([":", "\n", "\n", None])
    text = order[0]
    for d in order[1:]:
        text += (sep or r.choice([":", "\n", "\n\n", ":\n"])) + d
    a = {"i686": "i386", "armv7l": "armhf"}.get(t.arch, t.arch)
    (etc / f"ld-musl-{a}.path").write_text(text + r.choice(["", "\n", "\n"]))
    return order


def chain(ctx):
    """a line of libraries, each in a directory of its own (and some also elsewhere): what one of them
    needs is found by the DT_RPATH of somebody further up, while those between have their own"""
    r = ctx.rng
    t = T()
    arch = t.arch = r.choice(["x86_64"] * 5 + [a for a in elfgen.ARCHES if a not in ("mips64", "armv5l")])
    t.mode = "chain"
    ext = t.ext = ctx.root / "ext"
    ext.mkdir()
    n = r.randint(3, 6)
    dirs = t.dirs = [str(ext / f"s{i}") for i in range(n + 2)]
    for d in dirs:
        os.mkdir(d)
    t.duds = t.empty = t.contested = t.decoy = 0
    names = t.names = [f"libc13q{i}.so.1" for i in range(n)]
    t.deps = {i: [i + 1] if i + 1 < n else [] for i in range(n)}
    t.env, t.argv, t.envdirs, t.conf, t.etc = {}, [], [], [], None
    t.libc, t.here, t.cwd = LIBC, False, str(ctx.root)
    # who holds the way to library i: -1 is the module itself
    above = [-1] + [r.choice([-1, -1, r.randint(-1, i - 1)]) for i in range(1, n)]
    paths = {k: [dirs[i] for i in range(n) if above[i] == k] for k in range(-1, n)}
    for k, ps in paths.items():
        if k >= 0 and not ps and r.random() < 0.7:
            ps.append(r.choice(dirs[n:]))
        elif r.random() < 0.4:
            ps.append(r.choice(dirs[n:]))
        r.shuffle(ps)
    t.root = ":".join(paths[-1])

    def lib(i, tag):
        s = dict(arch=arch, soname=names[i], needed=[names[j] for j in t.deps[i]] + [LIBC],
                 payload=f"{names[i]}#{tag}".encode(), exports=[(f"x{i}", 1)])
        if paths[i]:
            s["rpath"] = ":".join(paths[i])
        return s

    ctx.count["inherited"] += sum(above[i] < i - 1 and any(paths[k] for k in range(above[i] + 1, i))
                                  for i in range(1, n))
    for i in range(n):
        for d in [dirs[i]] + [x for x in dirs if x != dirs[i] and r.random() < 0.15]:
            with open(os.path.join(d, names[i]), "wb") as f:
                f.write(elfgen.make_elf(**lib(i, os.path.basename(d))))
            t.contested += d != dirs[i]
    ctx.count["mode:chain"] += 1
    ctx.count["contested"] += t.contested
    return t


def conf_dirs(path):
    """the directories of a loader configuration file, as ldconfig reads it: comments and blanks out,
    "include" takes several patterns, each expanded in order of names"""
    out = []
    with open(path) as f:
        for line in f:
            line = line.split("#", 1)[0].strip()
            w = line.split()
            if w[:1] == ["include"] and len(w) > 1:
                for pat in w[1:]:
                    for p in sorted(glob.glob(os.path.join(os.path.dirname(path), pat))):
                        out += conf_dirs(p)
            elif line:
                out.append(line.rstrip("/"))
    return out


def write_conf(r, t, etc):
    """spread the directories over configuration files"""
    etc.mkdir()
    order = [d for d in t.dirs if r.random() < 0.85] or t.dirs[:1]
    r.shuffle(order)

    def line(d):
        return (r.choice(["", "", "", "  ", "\t"]) + d + r.choice(["", "", "/", "  ", "\t"])
                + r.choice(["", "", "", "# " + r.choice(t.dirs), "  # see " + t.dirs[0], "#"]))

    def noise():
        return r.choice(["", "# " + r.choice(t.dirs), "   ", "#", "/nonexistent/lib", "\t# include *.conf",
                         "#include ld.so.conf.d/*.conf", "include ld.so.conf.d/none-*.conf"])

    def text(ls):
        out = []
        for x in ls:
            while r.random() < 0.35:
                out.append(noise())
            out.append(x)
        return "\n".join(out) + r.choice(["\n", "\n", "", "\n\n", "\n# end"])

    sub = etc / "ld.so.conf.d"
    sub.mkdir()
    k = r.randint(0, len(order))
    main, rest = [line(d) for d in order[:k]], order[k:]
    main += ["/lib/x86_64-linux-gnu", "/usr/lib/x86_64-linux-gnu"]
    r.shuffle(main)
    files = {}
    for d in rest:
        files.setdefault(r.choice(["a", "b", "c", "zz", "10-x", "2-y"]) + ".conf", []).append(line(d))
    deep = {}
    if files and r.random() < 0.4:
        # one file includes others
        os.mkdir(sub / "more")
        n = r.choice(sorted(files))
        for i, ln in enumerate(files[n]):
            deep[f"more/{r.choice('pq')}{i}.list"] = [ln]
        files[n] = [r.choice(["include more/*.list", "include more/p*.list more/q*.list"])]
    every_ = list({**files, **deep}.items())
    r.shuffle(every_)
    for n, ls in every_:
        (sub / n).write_text(text(ls))
    if r.random() < 0.3:
        (sub / "old.conf.bak").write_text("".join(d + "\n" for d in t.dirs))
    if files:
        inc = r.choice(["include ld.so.conf.d/*.conf", "include ld.so.conf.d/*.conf",
                        "include  ld.so.conf.d/*.conf", "include\tld.so.conf.d/*.conf",
                        "include ld.so.conf.d/[0-9]*.conf ld.so.conf.d/[a-z]*.conf",
                        "\n".join("include ld.so.conf.d/" + n for n in r.sample(sorted(files), len(files))),
                        f"include {etc}/ld.so.conf.d/*.conf"])
        main.insert(r.randint(0, len(main)), inc)
    (etc / "ld.so.conf").write_text(text(main))
    return conf_dirs(str(etc / "ld.so.conf"))


def ldconfig(t, etc):
    """{name: file} of the cache the real ldconfig makes of it"""
    cache = etc.parent / "cache"
    p = subprocess.run(["/sbin/ldconfig", "-X", "-i", "-f", str(etc / "ld.so.conf"), "-C", str(cache)],
                       capture_output=True, text=True, timeout=60, check=False)
    q = subprocess.run(["/sbin/ldconfig", "-C", str(cache), "-p"], capture_output=True, text=True,
                       timeout=60, check=False)
    out = {}
    for ln in q.stdout.splitlines()[1:]:
        a, _, f = ln.strip().partition(" => ")
        nm, _, flags = a.partition(" (")
        if "libc6,x86-64" in flags:
            out.setdefault(nm, f)
    return out, p.stderr


def defaults(ctx, r, t, libspec, dirs):
    """libraries in the system's own directories (the preloaded shim has them in etc/sys)"""
    top = t.etc / "sys"
    out = []
    for d in dirs:
        p = top / d[1:]
        p.parent.mkdir(parents=True, exist_ok=True)
        if os.path.islink(d):
            os.symlink(os.readlink(d), p)
        elif not p.is_dir():
            p.mkdir(parents=True)
        out.append(str(p))
    real = sorted({os.path.realpath(p) for p in out})
    for i, nm in enumerate(t.names):
        if r.random() < 0.4:
            # in one of them only: their order is the distribution's
            d = r.choice(real)
            with open(os.path.join(d, nm), "wb") as f:
                f.write(elfgen.make_elf(**libspec(i, d)))
            ctx.count["in_default_dirs"] += 1
    return out


def first(me, nm, dirs):
    for d in dirs:
        try:
            e = elfread.read_elf(open(os.path.join(d, nm), "rb").read())
        except (OSError, elfread.NotElf):
            continue
        if ldso.compatible(me, e):
            return os.path.join(d, nm)
    return None


def tree(ctx):
    """directories with competing copies of libraries, and how they are to be found"""
    if ctx.idx % 7 == 4:
        return chain(ctx)
    r = ctx.rng
    t = T()
    arch = t.arch = r.choice(["x86_64"] * 5 + [a for a in elfgen.ARCHES if a not in ("mips64", "armv5l")])
    mode = t.mode = r.choice(["rpath", "rpath", "runpath", "llp", "allp", "llp+allp", "ldpaths", "mixed",
                              "mixed", "mixed"])
    t.etc = None
    if ctx.idx % 7 == 1:
        mode = t.mode = "conf" if ctx.idx % 3 != 1 else "musl"
    if mode == "musl":
        arch = t.arch = r.choice(["x86_64", "x86_64", "aarch64", "i686", "armv7l", "ppc64le", "s390x"])
        t.libc = "libc.musl-" + {"i686": "x86", "armv7l": "armv7"}.get(arch, arch) + ".so.1"
    else:
        t.libc = LIBC
    ext = t.ext = ctx.root / "ext"
    ext.mkdir()
    nd = r.randint(2, 5)
    dirs = t.dirs = [str(ext / f"s{i}") for i in range(nd)]
    t.cwd = str(ctx.root)
    for i, d in enumerate(dirs):
        if r.random() < 0.3:
            real = ext / f"v{i}" / "lib"
            real.mkdir(parents=True)
            os.symlink(r.choice([str(real), f"v{i}/lib"]), d)
            ctx.count["linked_dirs"] += 1
        else:
            os.mkdir(d)
    t.duds = t.empty = 0
    n = r.randint(2, 5)
    names = t.names = [f"libc13q{i}.so.1" for i in range(n)]
    deps = t.deps = {i: [j for j in range(i + 1, n) if r.random() < 0.5] for i in range(n)}
    if r.random() < 0.15 and n > 1:
        deps[n - 1].append(0)
    serial = 0
    t.contested = t.decoy = 0

    def libspec(i, here):
        nonlocal serial
        serial += 1
        s = dict(arch=arch, soname=names[i], needed=[names[j] for j in deps[i]] + [t.libc],
                 payload=f"{names[i]}#{serial}".encode(), exports=[(f"x{i}", serial)])
        if mode in ("rpath", "mixed") and r.random() < (0.5 if mode == "mixed" else 0.6):
            s["rpath"] = spec_paths(r, dirs, nd, here=here)
        if mode in ("runpath", "mixed") and r.random() < (0.35 if mode == "mixed" else 0.9):
            s["runpath"] = spec_paths(r, dirs, nd, here=here)
        elif "rpath" in s and r.random() < 0.2:
            s["runpath"] = ""       # present: the DT_RPATH does not count
            t.empty += 1
        return s

    for i in range(n):
        k = min(nd, r.choice([1, 2, 2, 3]))
        where = r.sample(dirs, k)
        t.contested += k > 1
        for d in where:
            c = r.random()
            p = os.path.join(d, names[i])
            if c < 0.15 and mode != "musl":
                other = r.choice([a for a in elfgen.ARCHES if a != arch and not
                                  same_machine(a, arch)])
                if arch in SIBLING and r.random() < 0.5:
                    other = SIBLING[arch]
                    ctx.count["sibling_decoys"] += 1
                data = elfgen.make_elf(arch=other, soname=names[i], payload=b"decoy", needed=[LIBC])
                t.decoy += 1
            elif c < 0.2 and mode not in ("conf", "musl"):
                data = elfgen.make_elf(**libspec(i, d), osabi=r.choice([3, 9]))
            else:
                data = elfgen.make_elf(**libspec(i, d))
            if r.random() < 0.25:
                sub = ext / f"real{serial}-{i}-{len(os.listdir(ext))}" / r.choice(["", "x", "x/y"])
                sub.mkdir(parents=True)
                (sub / f"libimpl{i}.so.1.4").write_bytes(data)
                to = str(sub / f"libimpl{i}.so.1.4")
                if r.random() < 0.5:
                    to = os.path.relpath(to, os.path.realpath(d))
                    trap = os.path.normpath(os.path.join(d, to))
                    if not os.path.exists(trap) and trap.startswith(str(ext)) and r.random() < 0.5:
                        # where the link would lead if names were all there is to a path
                        os.makedirs(os.path.dirname(trap), exist_ok=True)
                        with open(trap, "wb") as f:
                            f.write(elfgen.make_elf(**libspec(i, d)))
                os.symlink(to, p)
            else:
                with open(p, "wb") as f:
                    f.write(data)
        if len(where) < nd and r.random() < 0.25:
            # a name that leads nowhere: the loader cannot open it and looks further
            d = r.choice([d for d in dirs if d not in where])
            p = os.path.join(d, names[i])
            c = r.randrange(4) if mode not in ("conf", "musl") else 0
            if c == 0:
                os.symlink("gone.so", p)
            elif c == 1:
                os.symlink(names[i], p)
            elif c == 2:
                os.symlink("./" + names[i], p)
            else:
                os.symlink(names[i] + ".b", p)
                os.symlink(names[i], p + ".b")
            t.duds += 1
    env, t.argv = {}, []
    t.env = env
    envdirs, conf, first_dirs = [], [], []
    t.here = False
    order = r.sample(dirs, r.randint(1, nd))
    if mode in ("llp", "llp+allp") or mode == "mixed" and r.random() < 0.5:
        env["LD_LIBRARY_PATH"], envdirs = listed(r, ctx, t, order)
    if mode in ("allp", "llp+allp") or mode == "mixed" and r.random() < 0.25:
        o2 = r.sample(dirs, r.randint(1, nd))
        env["AUDITWHEEL_LD_LIBRARY_PATH"], o2 = listed(r, ctx, t, o2)
        envdirs = o2 + envdirs
        first_dirs = o2
    if mode == "ldpaths" or mode == "mixed" and r.random() < 0.2:
        o3 = r.sample(dirs, r.randint(1, nd))
        o3, conf = listed(r, ctx, t, o3)
        t.argv = ["--ldpaths", o3]
        # the option replaces the system's configuration and LD_LIBRARY_PATH
        envdirs = first_dirs
    if mode == "conf":
        t.etc = ctx.root / "etc"
        conf = write_conf(r, t, t.etc)
        if arch == "x86_64":
            cache, err = ldconfig(t, t.etc)
            me = elfread.read_elf(elfgen.make_elf(arch=arch, soname="x"))
            want = {nm: first(me, nm, conf) for nm in names}
            got = {nm: cache.get(nm) for nm in names}
            if {k: v and os.path.realpath(v) for k, v in want.items()} != \
                    {k: v and os.path.realpath(v) for k, v in got.items()}:
                ctx.inconclusive.append(f"model and ldconfig differ: {want} {got} {err[-300:]}")
                raise common.Skip
            ctx.count["real_ldconfig"] += 1
        conf = conf + defaults(ctx, r, t, libspec, ["/lib", "/lib64", "/usr/lib", "/usr/lib64"])
        if r.random() < 0.2:
            env["LD_LIBRARY_PATH"] = ":".join(order)
            envdirs = order
        if r.random() < 0.15:
            t.argv = ["--ldpaths", ":".join(order)]
            conf, envdirs = order, []
    if mode == "musl":
        t.etc = ctx.root / "etc"
        if r.random() < 0.7:
            conf = musl_path(r, t, t.etc)
        else:
            t.etc.mkdir()
            conf = defaults(ctx, r, t, libspec, ["/lib", "/usr/local/lib", "/usr/lib"])
        if r.random() < 0.2:
            env["LD_LIBRARY_PATH"] = ":".join(order)
            envdirs = order
    if t.here:
        ctx.count["current_directory"] += 1
        for i in r.sample(range(n), r.randint(0, n)):
            with open(os.path.join(t.cwd, names[i]), "wb") as f:
                f.write(elfgen.make_elf(**libspec(i, t.cwd)))
    t.envdirs, t.conf = envdirs, conf
    ctx.count["mode:" + mode] += 1
    ctx.count["contested"] += t.contested
    ctx.count["dead_links"] += t.duds
    ctx.count["decoy_present"] += t.decoy > 0
    return t


def rootspec(r, t, k=0, interp=False):
    names, nd = t.names, len(t.dirs)
    if t.mode == "chain":
        return dict(arch=t.arch, needed=[names[0], LIBC], rpath=t.root, payload=b"root%d" % k,
                    exports=[(f"PyInit__c13{k}", 0)])
    root = dict(arch=t.arch, needed=[names[j] for j in range(len(names)) if j == k % len(names)
                                     or r.random() < 0.4] + [t.libc],
                payload=b"root%d" % k, exports=[(f"PyInit__c13{k}", 0)])
    r.shuffle(root["needed"])
    if t.mode in ("rpath", "mixed") and r.random() < 0.8:
        root["rpath"] = spec_paths(r, t.dirs, nd)
    if t.mode == "runpath" or t.mode == "mixed" and r.random() < 0.4:
        root["runpath"] = spec_paths(r, t.dirs, nd)
    elif "rpath" in root and r.random() < 0.15:
        root["runpath"] = ""
        t.empty += 1
    if t.mode == "musl":
        if r.random() < 0.3:
            root["interp"] = "/lib/ld-musl-%s.so.1" % t.arch
    elif interp and t.conf and r.random() < 0.5:
        # a program whose loader sits next to candidates: searched last
        root["interp"] = os.path.join(r.choice(t.dirs), os.path.basename(elfgen.ARCHES[t.arch][5]))
    return root


def detail(t, **kw):
    if t.etc:
        kw["etc"] = {str(p.relative_to(t.etc)): p.read_text() for p in sorted(t.etc.rglob("*")) if p.is_file() and "sys" not in p.relative_to(t.etc).parts}
    return {"mode": t.mode, "arch": t.arch, "env": t.env, "argv": t.argv,
            "tree": {os.path.relpath(os.path.join(dp, f), t.ext):
                     _show(os.path.join(dp, f))
                     + (" -> " + os.readlink(os.path.join(dp, f))
                        if os.path.islink(os.path.join(dp, f)) else "")
                     for dp, _, fn in os.walk(t.ext) for f in fn}, **kw}


def llp(t):
    return ":".join(filter(None, (t.env.get("AUDITWHEEL_LD_LIBRARY_PATH"), t.env.get("LD_LIBRARY_PATH"))))


def oracle(ctx, t, rootp):
    """-> the loader's answer, or None when the rules do not settle it"""
    want = ldso.resolve(str(rootp), t.envdirs, t.conf, {t.libc})
    if want.lenient:
        ctx.count["beyond_the_rules"] += 1
        return None
    if t.arch == "x86_64" and not t.conf and None not in want.values():
        _rc, got, err = ldso.real(str(rootp), llp(t), cwd=t.cwd)
        ctx.count["real_ldso"] += 1
        real = {k: v for k, v in got.items() if k in t.names}
        # the model is only trusted where the real loader agrees with it
        ok = {k: os.path.realpath(v) for k, v in want.items()} == \
            {k: os.path.realpath(v) if v else None for k, v in real.items()}
        if not ok and "OS ABI invalid" not in err:
            ctx.inconclusive.append(f"model and ld.so differ: {want} {real} {err}")
            return None
    return want


def lookup(ctx, t):
    r = ctx.rng
    rootp = ctx.root / "elf" / "_c13.so"
    rootp.parent.mkdir()
    rb = elfgen.make_elf(**rootspec(r, t, interp=True))
    rootp.write_bytes(rb)
    want = oracle(ctx, t, rootp)
    if want is None:
        return
    t.interp = elfread.read_elf(rb).interp or ""
    ctx.count["empty_runpath"] += t.empty > 0
    ctx.count["loader_aside"] += elfread.read_elf(rb).interp is not None
    res = runner.run_cli(["lddtree", *t.argv, str(rootp)], cwd=ctx.root, tmpdir=ctx.tmp, env=t.env,
                         etc=t.etc)
    if res.timeout:
        ctx.inconclusive.append("watchdog")
        return
    ctx.count["auditwheel_runs"] += 1
    det = detail(t, root=_show(rb), want=want, run=res.brief())
    if not ctx.check(res.ok, "lddtree fails", "lddtree-fails", det):
        return
    try:
        tree = json.loads(res.err[res.err.index("{"):res.err.rindex("}") + 1])
    except ValueError:
        ctx.check(False, "lddtree prints no JSON", "lddtree-output", det)
        return
    libs = tree["libraries"]
    ctx.seen(t.mode, t.arch, t.contested, t.decoy, len(want),
             tuple(sorted(len(v) for v in t.deps.values())))
    if ctx.idx < 3:
        ctx.sample = {k: det[k] for k in ("mode", "arch", "env", "argv", "want")}
    for nm, path in want.items():
        if nm not in libs and path is None:
            continue
        if not ctx.check(nm in libs, f"{nm} is needed but not listed", "not-listed", det):
            return
        got = libs[nm]["realpath"]
        ctx.count["names_resolved"] += 1
        if path is None:
            # the loader would not find it: what auditwheel makes of it is not claimed here
            ctx.count["not_found_by_loader"] += 1
            return
        same = same_file(t, got, path)
        ctx.check(same, f"{nm}: the loader uses {path}, auditwheel {got}", "wrong-file",
                  dict(det, got={k: v["realpath"] for k, v in libs.items()}))
        if not same:
            return
        el = elfread.read_elf(open(path, "rb").read())
        ctx.check(libs[nm]["needed"] == el.needed and same_file(t, libs[nm]["path"], path),
                  f"{nm}: reported needs {libs[nm]['needed']}, found at {libs[nm]['path']}",
                  "wrong-entry", det)
    extra = set(libs) - set(want) - {t.libc} - {os.path.basename(elfgen.ARCHES[t.arch][5]), os.path.basename(t.interp)}
    ctx.check(not extra, f"lists {extra}, which nothing loaded needs", "invented", det)


def same_file(t, a, b):
    try:
        if a is not None and t.etc and os.path.normpath(a).lstrip("/").startswith(("lib", "usr/l")):
            a = str(t.etc / "sys" / os.path.normpath(a).lstrip("/"))
        return a is not None and os.path.samefile(os.path.join(t.cwd, a), b)
    except OSError:
        return False


def grafting(ctx, t):
    """several modules, each with its own idea of where the libraries are"""
    r = ctx.rng
    w = scen.World()
    w.arch = t.arch
    w.plats = [f"linux_{t.arch}"]
    inst = ctx.root / "inst"
    roots = []
    for k in range(r.randint(1, 3)):
        spec = rootspec(r, t, k)
        path = f"qpkg/_c13{k}.so"
        w.elfs.append(dict(path=path, role="ext", mode=0o755, spec=spec, id=k, mod=f"_c13{k}"))
        p = inst / path
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(elfgen.make_elf(**spec))
        roots.append(p)
    if t.here or r.random() < 0.1:
        # the root of the wheel is nobody's current directory
        nm = r.choice(t.names)
        w.elfs.append(dict(path=nm, role="lib", mode=0o755, id=9, mod=None, spec=dict(
            arch=t.arch, soname=nm, needed=[LIBC], payload=b"wheel's own", exports=[("x", 0)])))
        ctx.count["same_name_in_wheel"] += 1
    wants = [oracle(ctx, t, p) for p in roots]
    if any(x is None or None in x.values() for x in wants):
        ctx.count["not_found_by_loader"] += 1
        return
    # a library reached by two modules that resolve its needs differently has no one answer
    seen = {}
    for x in wants:
        for nm, p in x.items():
            e = elfread.read_elf(open(p, "rb").read())
            m = {n: elfread.read_elf(open(x[n], "rb").read()).payload for n in e.needed if n != LIBC}
            if seen.setdefault(e.payload, m) != m:
                ctx.count["ambiguous"] += 1
                return
    root = ctx.root / "c"
    root.mkdir()
    w.locate = "none"
    b = scen.materialize(w, root, r)
    b.argv = ["repair", *t.argv, "-w", str(b.out), str(b.wheel)]
    b.env = t.env
    try:
        res = common.repair(ctx, b, etc=t.etc, cwd=t.cwd)
    except common.Skip:
        return
    det = detail(t, roots=[_show(p.read_bytes()) for p in roots], want=wants)
    wh = common.expect_ok(ctx, w, b, None, res)
    if wh is None:
        return
    ctx.seen("graft", t.mode, t.arch, t.contested, t.decoy, len(roots))
    ctx.count["divergent"] += len({tuple(sorted((k, os.path.realpath(v)) for k, v in x.items()))
                                   for x in wants}) > 1
    for e, x in zip(w.elfs, wants):
        log, loaded = loadsim.simulate(wh, "site/" + e["path"])
        inst_ = installed(wh)
        got = sorted(wh.elf(inst_[p]).payload for p in loaded if p != "site/" + e["path"])
        want = sorted(elfread.read_elf(open(p, "rb").read()).payload for p in x.values())
        ctx.count["grafts_compared"] += len(want)
        bad = [(a, n) for a, n, hit, _ in log if hit is None and n != LIBC]
        ctx.check(got == want and not bad,
                  f"{e['path']}: the original loads {want}, the repaired one {got}, unresolved {bad}",
                  "wrong-graft", dict(det, log=log))


def same_machine(a, b):
    x, y = elfgen.ARCHES[a], elfgen.ARCHES[b]
    return x[:3] == y[:3]


def _show(data):
    if isinstance(data, str):
        if not os.path.exists(data):
            return "dead link"
        with open(data, "rb") as f:
            data = f.read()
    e = elfread.read_elf(data)
    return f"{e.payload} m{e.machine} needed={e.needed} rpath={e.rpath} runpath={e.runpath} osabi={e.osabi}"
