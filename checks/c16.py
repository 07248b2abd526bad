"""C16: the bill of materials names exactly the owners of the libraries that were bundled."""
import hashlib
import json
import os
import re
from urllib.parse import parse_qs, unquote

from awv import common, runner, scen

CASES_QUICK = 260
CASES_THOROUGH = 6000
LEVEL = "exploration"
RULE = ("random worlds whose external libraries are owned by packages of stand-in dpkg, rpm, apk and apt-file "
        "databases (dashes, epochs, tildes and plus signs in names and versions; unowned libraries; owners of "
        "libraries that are not bundled; look-alike paths); the written document is compared with the owners of the "
        "bundled files; distinct by (manager, owned/unowned counts, world shape)")
FLOOR = {"documents": 110, "components": 200, "no_document": 25, "linked_dirs": 30, "earlier_documents": 10, "unowned": 40, "same_name_same_owner": 6, "not_bundled_owned": 40,
         "kind:dpkg": 30, "kind:rpm": 30, "kind:apk": 30, "kind:apt-file": 30}
NAMES = ["libq{}", "libq-{}", "lib-q-dev{}", "libstdc++{}", "q{}-2d", "libq{}.0-0t64", "gtk+{}.0", "q{}-1.2-compat"]
VERS = {"dpkg": ["1.2.3-4ubuntu1", "2:1.0~rc1-1", "1.0+dfsg-2", "5"],
        "apt-file": ["1.2.3-4ubuntu1", "2:1.0~rc1-1", "1.0+dfsg-2"],
        "rpm": ["4.4.20|4.el8_6", "1.0~rc1|1.fc40", "2_1+git|0.3.el9"],
        "apk": ["5.2.26-r0", "1.0_rc1-r12", "3.1.4-r10", "20240101-r2"]}
TYPES = {"dpkg": "deb", "apt-file": "deb", "rpm": "rpm", "apk": "apk"}


def distro():
    for line in open("/etc/os-release"):
        m = re.match(r'ID="?([^"\n]*)"?$', line)
        if m:
            return m.group(1)
    return None


def case(ctx):
    r = ctx.rng
    w = scen.world(r, n_ext=(1, 6), p_file=0.1, p_script=0.2, p_whitelisted=0.1,
                   **(dict(p_twin=1, locate=r.choice(["rpath", "runpath"])) if r.random() < 0.45 else {}))
    if r.random() < 0.25:
        w.opts["exclude"] = [r.choice(w.ext)["names"][0]]
        w.notes.add("exclude")
    common.with_plat(r, w, auto=0.6)
    old = None
    if r.random() < 0.15:
        old = json.dumps({"bomFormat": "CycloneDX", "x": r.random()}).encode()
        # of another tool, or of a repair that bundled something else
        oldname = r.choice(["other.cdx.json", "auditwheel.cdx.json", "auditwheel.cdx.json"])
        w.files.append(dict(path=f"{w.distinfo}/sboms/{oldname}", data=old, mode=0o644))
        ctx.count["earlier_documents"] += oldname[:5] == "audit"
    w, b, m = common.build(ctx, w)
    plan = m.plan()
    if not plan["ok"]:
        return
    kind = r.choice(list(TYPES))
    if r.random() < 0.3:
        # the package manager knows files by their real paths
        for d in b.dirmap.values():
            if r.random() < 0.7:
                os.rename(d, str(d) + "-1.0")
                os.symlink(d.name + "-1.0", d)
                ctx.count["linked_dirs"] += 1
    owned, rows = {}, []
    p_own = r.choice([0.0, 0.5, 0.8, 1.0])
    for i, p in enumerate(b.ext_path):
        if r.random() < p_own:
            nm = r.choice(NAMES).format(r.choice([i, i, 7]))
            ver = r.choice(VERS[kind])
            same = [owned[k][0] for k in owned if b.ext_path[k].name == p.name]
            if same and r.random() < 0.7:
                nm = r.choice(same)         # one package, two files of the same name
                ctx.count["same_name_same_owner"] += i in plan["grafts"]
            prev = [x[2] for x in rows if x[1] == nm]
            ver = prev[0] if prev else ver         # one version of a package is installed
            rows.append((os.path.realpath(p), nm, ver))
            owned[i] = (nm, ver.replace("|", "-"))
            ctx.count["not_bundled_owned"] += i not in plan["grafts"]
            if r.random() < 0.3:
                q = os.path.realpath(p)
                rows.append((q + r.choice(["-gdb.py", ".1", ".debug"]), "other-" + nm.replace("+", ""),
                             r.choice(VERS[kind])))
                rows.append(("/usr/share/gdb/auto-load" + q + "-gdb.py", "yet-another", r.choice(VERS[kind])))
        else:
            ctx.count["unowned"] += i in plan["grafts"]
    r.shuffle(rows)
    d = common.fake_pm(b.root / "pm", kind, rows)
    env = dict(b.env, PATH=f"{d}:{runner.BASE_PATH}")
    try:
        res = common.repair(ctx, b, env=env)
    except common.Skip:
        return
    wh = common.expect_ok(ctx, w, b, m, res)
    if wh is None:
        return
    ctx.count["kind:" + kind] += 1
    want = {i: owned[i] for i in plan["grafts"] if i in owned}
    new = sorted(a for a in wh.data if a.startswith(f"{w.distinfo}/sboms/") and not a.endswith("/")
                 and (old is None or a != f"{w.distinfo}/sboms/{oldname}"))
    arc = new[0] if new else "-"
    det = {"world": w.brief(), "rows": rows, "kind": kind, "want": want, "run": res.brief(),
           "doc": wh.data.get(arc, b"").decode(errors="replace")[:3000]}
    ctx.seen(kind, len(want), len(plan["grafts"]), len(owned), *w.key())
    if ctx.idx < 3:
        ctx.sample = {k: det[k] for k in ("kind", "rows", "want")}
    if old is not None:
        ctx.check(wh.data.get(f"{w.distinfo}/sboms/{oldname}") == old,
                  f"another bill of materials ({oldname}) was touched", "other-sbom", det)
    ctx.check(len(new) < 2, f"several documents: {new}", "several", det)
    if old is None:
        ctx.check(not new or arc.endswith("/auditwheel.cdx.json"), f"the document is {arc}", "name", det)
    if not want:
        ctx.count["no_document"] += 1
        ctx.check(arc not in wh.data, "a bill of materials without any known owner", "invented", det)
        return
    if not ctx.check(arc in wh.data, "no bill of materials", "missing", det):
        return
    ctx.count["documents"] += 1
    try:
        doc = json.loads(wh.data[arc])
        judge(ctx, w, b, wh, doc, want, kind, det, arc)
    except (ValueError, KeyError, TypeError, IndexError) as e:
        ctx.check(False, f"not a CycloneDX document: {type(e).__name__} {e}", "format", det)


def judge(ctx, w, b, wh, doc, want, kind, det, arc):
    ctx.check(doc["bomFormat"] == "CycloneDX" and doc["specVersion"] == "1.4" and doc["version"] == 1,
              "wrong format or version", "format", det)
    me = doc["metadata"]["component"]
    ctx.check(any(t.get("name") == "auditwheel" for t in doc["metadata"]["tools"]), "tool not named", "format",
              det)
    ctx.check((me["name"], me["version"]) == (w.name, w.ver), f"describes {me['name']} {me['version']}",
              "subject", det)
    purl, _, q = me["purl"].partition("?")
    ctx.check(unquote(purl) == f"pkg:pypi/{w.name}@{w.ver}" and
              parse_qs(q, strict_parsing=True).get("file_name") == [wh.filename],
              f"purl {me['purl']} does not name the written wheel {wh.filename}", "subject-purl", det)
    comps = doc["components"]
    refs = [c["bom-ref"] for c in comps]
    ctx.check(len(refs) == len(set(refs)), "bom-refs are not unique", "refs", det)
    mine = [c for c in comps if c["bom-ref"] == me["bom-ref"]]
    libs = [c for c in comps if c["bom-ref"] != me["bom-ref"]]
    ctx.check(mine == [me], "the wheel is not among the components exactly once", "subject", det)
    ctx.count["components"] += len(libs)
    got = sorted((c["type"], c["name"], c["version"]) for c in libs)
    exp = sorted(("library", n, v) for n, v in want.values())
    ctx.check(got == exp, f"components {got}, the bundled libraries belong to {exp}", "components", det)
    dis = distro()
    for c in libs:
        p = f"pkg:{TYPES[kind]}/{dis}/{c['name']}@{c['version']}"
        ctx.check(unquote(c["purl"]) == p and not re.search(r"[+:~ ]", c["purl"][4:].replace("~", "")),
                  f"purl {c['purl']} != {p}", "purl", det)
    deps = {d["ref"]: d.get("dependsOn", []) for d in doc["dependencies"]}
    ctx.check(len(deps) == len(doc["dependencies"]) and set(deps) == set(refs) and
              sorted(deps[me["bom-ref"]]) == sorted(c["bom-ref"] for c in libs) and
              not any(v for k, v in deps.items() if k != me["bom-ref"]),
              "dependencies do not link the wheel to each library", "dependencies", det)
    rec = {row[0]: row[1] for row in wh.record_rows()}
    import base64
    dig = base64.urlsafe_b64encode(hashlib.sha256(wh.data[arc]).digest()).rstrip(b"=").decode()
    ctx.check(rec.get(arc) == "sha256=" + dig, "the document is not in RECORD", "record", det)
