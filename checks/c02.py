"""C02: each grafted library is a faithful, uniquely (content-)named copy of its source, and
every reference to it - DT_NEEDED, DT_SONAME, version needs - follows the rename."""
import hashlib
import os
import posixpath

from awv import common, elfgen, elfread, model, scen, wheelread

CASES_QUICK = 220
CASES_THOROUGH = 6000
LEVEL = "exploration"
RULE = ("random worlds with external library DAGs (cycles, aliases of one file, symlink chains, "
        "read-only sources, odd file names, same soname in several directories, versioned "
        "dependencies between libraries, libpython); non-trivial = at least one grafted library "
        "compared with its source; distinct by world shape")
FLOOR = {"grafts_compared": 300, "references_checked": 500, "builds_compared": 35, "collisions": 3,
         "own_strip_checked": 30, "moved_strip_checked": 6,
         "lone_strip_checked": 6}


def symset(e):
    return sorted((n, b, t, d) for n, b, t, d, _v in e.symbols)


def case(ctx):
    r = ctx.rng
    if ctx.idx % 40 == 13:
        return collide(ctx)
    if ctx.idx % 8 == 5:
        return builds(ctx)
    kn = dict(n_ext=(1, 6), p_libpython=0.2, p_cycle=0.2, p_verdep=0.4)
    if r.random() < 0.15:
        kn.update(p_script=1, p_strip=0.8, arch="x86_64")
    elif r.random() < 0.1:
        # nothing to bundle, perhaps something to strip
        kn.update(n_ext=0, p_strip=0.8)
    w = scen.world(ctx.rng, **kn)
    hostile(ctx, w)
    w, b, m = common.build(ctx, w)
    plan = m.plan()
    if not plan["ok"]:
        ctx.count["not_repairable"] += 1
        return
    before = common.snapshot(b.extroot)
    try:
        res = common.repair(ctx, b)
    except common.Skip:
        return
    wh = common.expect_ok(ctx, w, b, m, res)
    if wh is None:
        return
    ctx.sample = w.brief() if ctx.idx < 3 else None
    if plan["grafts"]:
        ctx.seen(*w.key())
    det = {"world": w.brief(), "members": wh.order}
    ctx.check(common.diff_snap(before, common.snapshot(b.extroot)) == [],
              "the source libraries on the build host were modified", "source-modified", det)

    sha8 = {i: hashlib.sha256(b.ext_bytes[i]).hexdigest()[:8] for i in plan["grafts"]}
    newname = {i: model.graft_name(w.ext[i]["real"], sha8[i]) for i in plan["grafts"]}
    expect = {f"{w.libs_dir}/{newname[i]}" for i in plan["grafts"]}
    original = {mm[0] for mm in b.members}
    got = {n for n in wh.data if n.startswith(w.libs_dir + "/") and n not in original}
    ctx.check(got == expect, f"grafted files {sorted(got)} != {sorted(expect)}", "graft-set", det)
    rename = {n: newname[i] for n, i in plan["renames"].items()}

    def mapped(names):
        return [rename.get(n, n) for n in names if not model.is_libpython(n)]

    for i in plan["grafts"]:
        arc = f"{w.libs_dir}/{newname[i]}"
        if arc not in wh.data:
            continue
        ctx.count["grafts_compared"] += 1
        src = elfread.read_elf(b.ext_bytes[i])
        g = wh.elf(arc)
        if not ctx.check(g is not None, f"{arc} is not an ELF file", "graft-not-elf", det):
            continue
        d = dict(det, lib=arc)
        ctx.check(g.payload == src.payload, f"{arc} is a copy of the wrong library", "graft-content", d)
        ctx.check(g.soname == newname[i], f"{arc}: DT_SONAME {g.soname!r}", "graft-soname", d)
        ctx.check(symset(g) == symset(src), f"{arc}: symbols differ from the source", "graft-symbols", d)
        ctx.check((g.machine, g.bits, g.le, g.isa, g.flags) ==
                  (src.machine, src.bits, src.le, src.isa, src.flags),
                  f"{arc}: machine/flags differ from the source", "graft-machine", d)
        ctx.check(g.needed == mapped(src.needed),
                  f"{arc}: DT_NEEDED {g.needed} != {mapped(src.needed)}", "graft-needed", d)
        want = {}
        for lib, vs in src.verneed.items():
            want.setdefault(rename.get(lib, lib), []).extend(vs)
        ctx.check(g.verneed == want, f"{arc}: version needs {g.verneed} != {want}",
                  "graft-verneed", d)
        ctx.count["references_checked"] += len(g.needed) + len(g.verneed)
        ctx.check(wh.mode[arc] & 0o200 and wh.mode[arc] & 0o400, f"{arc} mode {oct(wh.mode[arc])}",
                  "graft-writable", d)
        ctx.check(wh.mode[arc] & 0o777 == (w.ext[i]["mode"] | 0o600),
                  f"{arc} mode {oct(wh.mode[arc])}, source {oct(w.ext[i]['mode'])}", "graft-mode", d)
        stripped = not any(s[0] == ".symtab" for s in g.sections)
        ctx.check(stripped == bool(w.opts.get("strip")), f"{arc}: stripped={stripped}", "graft-strip", d)

    # the wheel's own ELF files
    for e in m.live:
        if e["role"] in ("static", "foreign"):
            continue
        p = e["path"]
        src = elfread.read_elf(b.elf_bytes[p])
        if e["role"] == "script" and p in plan["touched"]:
            cand = [n for n in wh.data if posixpath.basename(n) == posixpath.basename(p)
                    and not n.startswith(w.data + "/")]
            p = cand[0] if cand else p
        if not ctx.check(p in wh.data and wh.elf(p) is not None, f"{p} gone", "own-elf-gone", det):
            continue
        g = wh.elf(p)
        d = dict(det, elf=p)
        # names this very ELF sees renamed: its closure's direct needs
        own = {n for n in src.needed if n in rename}
        want = [rename[n] if n in own else n for n in src.needed if not model.is_libpython(n)]
        ctx.check(g.needed == want, f"{p}: DT_NEEDED {g.needed} != {want}", "own-needed", d)
        wantv = {}
        for lib, vs in src.verneed.items():
            wantv.setdefault(rename.get(lib, lib) if lib in src.needed else lib, []).extend(vs)
        ctx.check(g.verneed == wantv, f"{p}: version needs {g.verneed} != {wantv}", "own-verneed", d)
        ctx.check(g.payload == src.payload and symset(g) == symset(src) and g.interp == src.interp,
                  f"{p}: contents changed beyond its references", "own-content", d)
        ctx.check(g.soname == src.soname, f"{p}: DT_SONAME changed", "own-soname", d)
        if any(x[0] == ".symtab" for x in src.sections):
            kept = any(x[0] == ".symtab" for x in g.sections)
            ctx.check(kept == (not w.opts.get("strip")), f"{p}: --strip={bool(w.opts.get('strip'))}, "
                      f"symbol table kept={kept}", "own-strip", d)
            ctx.count["own_strip_checked"] += bool(w.opts.get("strip"))
            ctx.count["lone_strip_checked"] += bool(w.opts.get("strip")) and not plan["grafts"]
            ctx.count["moved_strip_checked"] += bool(w.opts.get("strip")) and p != e["path"]
        ctx.count["references_checked"] += len(g.needed)


def hostile(ctx, w):
    r = ctx.rng
    if r.random() < 0.15 and len(w.ext) >= 2:
        # two external names with byte-identical contents (vendored twice)
        a, c = w.ext[0], w.ext[1]
        if not c["deps"] and not a["deps"]:
            c["spec"] = dict(a["spec"])
            w.notes.add("identical-content")
    if r.random() < 0.12 and w.ext:
        x = r.choice(w.ext)
        # source already carries an unrelated hash-like suffix
        base, _, ext = x["real"].partition(".")
        if x["names"] and x["real"] not in x["names"]:
            x["real"] = f"{base}-deadbeef.{ext}"
            w.notes.add("hashlike-name")
    if r.random() < 0.05 and w.ext:
        x = r.choice(w.ext)
        if x["real"] not in x["names"]:
            x["real"] = x["real"].replace(".so", "").replace(".", "_")   # no dot at all
            w.notes.add("dotless-name")


def builds(ctx):
    """several builds of one library, same name and size, differing in a byte or two somewhere; every
    module must get the very build it was linked with"""
    r = ctx.rng
    w = scen.World()
    w.plats = [f"linux_{w.arch}"]
    ext = ctx.root / "ext"
    size = r.choice([20, 5000, 65500, 70000, 300000, 1100000, 2200000])
    fill = bytes([r.randrange(65, 90)]) * size
    variants = [fill]
    for _ in range(r.randint(1, 2)):
        v = bytearray(r.choice(variants))
        at = r.choice([0, size // 2, size - 1, size - 1, r.randrange(size)])
        v[at] = 97 + (v[at] - 96) % 26 if v[at] > 96 else 97 + r.randrange(26)
        variants.append(bytes(v))
    files = []
    for k in range(r.randint(2, 4)):
        v = r.choice(variants)
        d = ext / f"b{k}"
        d.mkdir(parents=True)
        data = elfgen.make_elf(arch=w.arch, soname="libbuild.so.1", needed=["libc.so.6"], payload=v)
        real = d / "libbuild.so.1"
        if r.random() < 0.4:
            real = d / r.choice(["libbuild.so.1.0", "libbuild.so.1.2.3"])
            (d / "libbuild.so.1").symlink_to(real.name)
        real.write_bytes(data)
        files.append((real, data, v))
        w.elfs.append(dict(path=f"qpkg/_b{k}.so", role="ext", mode=0o755, id=k, mod=f"_b{k}", spec=dict(
            arch=w.arch, needed=["libbuild.so.1", "libc.so.6"], payload=b"m%d" % k,
            rpath=str(d), exports=[(f"PyInit__b{k}", 0)])))
    root = ctx.root / "c"
    root.mkdir()
    w.locate = "none"
    b = scen.materialize(w, root, r)
    b.argv = ["repair", "-w", str(b.out), str(b.wheel)]
    b.env = {}
    try:
        res = common.repair(ctx, b)
    except common.Skip:
        return
    wh = common.expect_ok(ctx, w, b, None, res)
    if wh is None:
        return
    ctx.seen("builds", size, len(variants), len(files), tuple(sorted(variants.index(v) for _, _, v in files)))
    want = {}
    for k, (real, data, v) in enumerate(files):
        nm = model.graft_name(real.name, hashlib.sha256(data).hexdigest()[:8])
        want[nm] = v
        e = wh.elf(f"qpkg/_b{k}.so")
        det = {"member": e.needed, "source": str(real), "members": wh.order}
        ctx.check(e.needed == [nm, "libc.so.6"], f"_b{k}.so needs {e.needed}, linked with the build named {nm}",
                  "build-needed", det)
        arc = f"{w.libs_dir}/{nm}"
        if ctx.check(arc in wh.data, f"{arc} is not there", "build-gone", det):
            ctx.check(wh.elf(arc).payload == v, f"{arc} is not the build {real}", "build-content", det)
        ctx.count["builds_compared"] += 1
    got = {n for n in wh.data if n.startswith(w.libs_dir + "/") and not n.endswith("/")}
    ctx.check(got == {f"{w.libs_dir}/{n}" for n in want}, f"grafted {sorted(got)}", "build-set", wh.order)


def twins(r, arch, name):
    """two libraries whose SHA-256 digests start with the same 32 bits"""
    mark = b"=COLLIDE-"
    data = elfgen.make_elf(arch=arch, soname=name, needed=["libc.so.6"], payload=mark + bytes(12))
    at = data.index(mark) + len(mark)
    head = hashlib.sha256(data[:at])
    seen = {}
    while True:
        v = b"%012x" % r.getrandbits(48)
        h = head.copy()
        h.update(v + data[at + 12:])
        k = h.digest()[:4]
        if k in seen and seen[k] != v:
            return [(data[:at] + x + data[at + 12:], mark + x) for x in (seen[k], v)]
        seen[k] = v


def collide(ctx):
    """the distinguishing part of the names of grafted copies is 32 bits long: two libraries that
    agree in it must not be taken for one another"""
    r = ctx.rng
    w = scen.World()
    w.plats = [f"linux_{w.arch}"]
    name = r.choice(["libtwo.so.1", "libtwo.so", "libtwo.so.1.2"])
    pair = twins(r, w.arch, name)
    for k, (data, _) in enumerate(pair):
        d = ctx.root / "ext" / f"c{k}"
        d.mkdir(parents=True)
        (d / name).write_bytes(data)
        if ctx.idx % 80 == 13:
            # as package builds do that set every time stamp
            os.utime(d / name, (1600000000, 1600000000))
        w.elfs.append(dict(path=f"qpkg/_c{k}.so", role="ext", mode=0o755, id=k, mod=f"_c{k}", spec=dict(
            arch=w.arch, needed=[name, "libc.so.6"], payload=b"m%d" % k, rpath=str(d),
            exports=[(f"PyInit__c{k}", 0)])))
    root = ctx.root / "c"
    root.mkdir()
    w.locate = "none"
    b = scen.materialize(w, root, r)
    b.argv = ["repair", "-w", str(b.out), str(b.wheel)]
    b.env = {}
    try:
        res = common.repair(ctx, b)
    except common.Skip:
        return
    ctx.count["collisions"] += 1
    ctx.seen("collide", name, res.ok)
    outs = common.outputs(b)
    if not res.ok:
        # it may refuse, but not write anything
        ctx.check(not outs and (res.err.strip() or res.excmsg), "a refused wheel was written", "collision", res.brief())
        return
    wh = wheelread.Wheel(outs[0])
    for k, (_, payload) in enumerate(pair):
        e = wh.elf(f"qpkg/_c{k}.so")
        got = [wh.elf(f"{w.libs_dir}/{n}").payload for n in e.needed if n.startswith("libtwo")]
        ctx.check(got == [payload], f"_c{k}.so gets {got}, linked with {payload}: names with equal digests are mixed up",
                  "collision", {"needed": e.needed, "members": wh.order})
