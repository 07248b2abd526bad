"""C15: `show` says the same thing in text and JSON, the JSON is one schema-valid document, and the
exit status tells whether the file is a platform wheel - for every kind of wheel."""
import ast
import json
import re
from pathlib import Path

from awv import common, scen
from checks import kinds

CASES_QUICK = 260
CASES_THOROUGH = 8000
LEVEL = "exploration"
RULE = ("random wheels of every kind (platform with all sorts of evidence, pure, only foreign binaries, binaries "
        "in purelib, unparsable names) shown as JSON, as text and as verbose text; the documents are parsed and "
        "compared with each other, with the shipped schema and with a model; distinct by (kind, verdict, evidence)")
FLOOR = {"texts_compared": 130, "schema_checked": 200, "pure": 10, "foreign": 8, "upgrade_texts": 100,
         "versions_compared": 100}
SCHEMA = Path("/repo/src/auditwheel/show-schema.json")


def case(ctx):
    r = ctx.rng
    k = kinds.choose(r, platform=0.7)
    ctx.count[k] += 1
    if k != "platform":
        other(ctx, k)
        return
    one = r.random() < 0.35
    w = scen.world(r, n_ext=r.choice([0, (1, 4)]), n_lib=(2, 5) if one else (1, 3), p_file=0.05, strip=False, p_whitelisted=0.4,
                   p_libpython=0.05)
    if one:
        scen.verdict_one(r, w)
    else:
        scen.verdict_mix(r, w, r.choice([0.08, 0.2, 0.35]))
    w.opts = {"disable_isa": True} if w.opts.get("disable_isa") else {}
    w, b, m = common.build(ctx, w)
    base = ["--disable-isa-ext-check"] if w.opts else []
    if "--ldpaths" in b.argv:
        i = b.argv.index("--ldpaths")
        base += b.argv[i:i + 2]
    base.append(str(b.wheel))
    try:
        js = common.repair(ctx, b, argv=["show", "--json", *base])
        tx = common.repair(ctx, b, argv=["show", *base])
        vb = common.repair(ctx, b, argv=["-v", "show", *base])
    except common.Skip:
        return
    det = {"world": w.brief(), "json": js.out[-2500:], "text": tx.out[-2500:], "verbose": vb.out[-2500:],
           "err": js.err[-500:]}
    if not ctx.check(js.ok and tx.ok and vb.ok, "show fails on a platform wheel", "status", det):
        return
    j = parse(ctx, js.out, det)
    if j is None:
        return
    ctx.check(j.get("wheel") == w.filename and j.get("pure") is False, "wrong wheel name or kind",
              "identity", det)
    over = m.show_overall()
    ctx.seen(k, over.name, sorted(w.notes))
    paras = all_paras(vb.out)
    compare(ctx, w, m, j, paras, det)
    short = all_paras(tx.out)
    stop = j["pyfpe"] or j["ucs2"] or j["unsupported_isa"] or j["sym_tag"] != m.real[-1].name
    if not stop:
        ctx.check(len(short) == len(paras), "plain text stops early although nothing constrains the wheel",
                  "short", det)
    ctx.check(paras[:len(short)] == short or norm(paras[:len(short)]) == norm(short),
              "plain and verbose text differ", "verbose-differs", det)


def norm(paras):
    """paragraphs with sets in canonical order"""
    return [re.sub(r"\{[^}]*\}", lambda x: "".join(sorted(x.group())), p) for p in paras]


def all_paras(out):
    return [" ".join(p.split()) for p in re.split(r"\n\s*\n", out) if p.strip()]


def compare(ctx, w, m, j, paras, det):
    ctx.count["texts_compared"] += 1
    text = "\n".join(paras)
    has = lambda s: s in text  # noqa: E731
    ctx.check(paras[0] == f'{w.filename} is consistent with the following platform tag: "{j["overall_tag"]}".',
              "text and JSON disagree on the platform", "tag", det)
    for key, words in (("pyfpe", "uses the PyFPE_jbuf function"), ("ucs2", "narrow unicode (UCS2)"),
                       ("unsupported_isa", "depends on unsupported ISA extensions")):
        ctx.check(has(words) == j[key], f"text and JSON disagree on {key}", key, det)
    mt = re.search(r"in these system-provided shared libraries: (.*)$", text, re.M)
    got = {}
    if mt:
        for lib, vs in re.findall(r"([^\s{},]+) with versions (\{[^}]*\})", mt.group(1)):
            got[lib] = sorted(ast.literal_eval(vs))
        ctx.count["versions_compared"] += 1
    ctx.check(got == j["versioned_symbols"] and has("references no external versioned symbols") == (not got),
              f"text lists versions {got}", "versions", det)
    mt = re.search(r'This constrains the platform tag to "([^"]*)"', text)
    want = None if j["sym_tag"] == m.real[-1].name else j["sym_tag"]
    ctx.check((mt.group(1) if mt else None) == want, f"text says constrained to {mt and mt.group(1)}",
              "constrained", det)
    low = m.libs(m.real[0])
    mt = re.search(r"libraries are required by the wheel:\s*(\{.*?\})", text, re.S)
    if mt:
        try:
            libs = json.loads(mt.group(1))
        except ValueError:
            libs = {"?": "?"}
        ctx.check(set(libs) == set(low) and all((libs[k] is None) == (low[k] is None) for k in libs),
                  f"text lists libraries {sorted(libs)}, expected {sorted(low)}", "libs", det)
    else:
        ctx.check(not low and has("requires no external shared libraries"),
                  f"text says no external libraries, expected {sorted(low)}", "libs", det)
    up = {}
    i = 0
    while i < len(paras):
        mt = re.match(r"In order to achieve the tag platform tag '([^']*)' the following (shared library|"
                      r"black-listed symbol) dependencies will need to be eliminated:(.*)$", paras[i])
        if mt and mt.group(2).startswith("shared"):
            up.setdefault(mt.group(1), {})["libs_to_eliminate"] = paras[i + 1].split(", ")
        elif mt:
            bl = {}
            while i + 1 < len(paras) and paras[i + 1].startswith("From "):
                i += 1
                lib, _, syms = paras[i][5:].partition(": ")
                bl[lib] = syms.split(", ")
            up.setdefault(mt.group(1), {})["blacklisted_symbols"] = bl
        i += 1
    ctx.count["upgrade_texts"] += len(up)
    over = m.show_overall()
    want = {}
    for q in m.real:
        if q.prio > over.prio:
            ent = {"libs_to_eliminate": sorted(m.libs(q)),
                   "blacklisted_symbols": {k: sorted(v) for k, v in m.blacklist(q).items()}}
            if any(ent.values()):
                want[q.name] = {k: v for k, v in ent.items() if v}
    ctx.check(want == j["policy_upgrades"] or j["overall_tag"] != over.name,
              "the JSON does not say what stands between the wheel and the better platforms",
              "upgrades-true", dict(det, want=want, got=j["policy_upgrades"]))
    ctx.check(up == j["policy_upgrades"], "text and JSON disagree on what to eliminate", "upgrades",
              dict(det, parsed=up))


def parse(ctx, out, det):
    try:
        j = json.loads(out)
    except ValueError:
        ctx.check(False, "show --json does not print exactly one JSON document", "json", det)
        return None
    ctx.count["schema_checked"] += 1
    schema = json.loads(SCHEMA.read_text())
    bad = validate(j, schema, schema)
    ctx.check(bad is None, f"show --json violates the schema: {bad}", "schema", det)
    return j


TYPES = {"object": dict, "string": str, "boolean": bool, "array": list, "null": type(None)}


def validate(v, s, root):
    if "$ref" in s:
        o = root
        for part in s["$ref"].split("/")[1:]:
            o = o[part]
        return validate(v, o, root)
    if "oneOf" in s:
        res = [validate(v, x, root) for x in s["oneOf"]]
        return None if res.count(None) == 1 else f"matches {res.count(None)} alternatives: {res}"
    if "const" in s and (v != s["const"] or type(v) is not type(s["const"])):
        return f"{v!r} is not {s['const']!r}"
    if "type" in s:
        ts = s["type"] if isinstance(s["type"], list) else [s["type"]]
        if not any(isinstance(v, TYPES[t]) for t in ts):
            return f"{v!r} is no {ts}"
    if isinstance(v, dict):
        for k in s.get("required", ()):
            if k not in v:
                return f"{k} is missing"
        for k, x in v.items():
            sub = s.get("properties", {}).get(k, s.get("additionalProperties"))
            if sub is False:
                return f"{k} is not allowed"
            if isinstance(sub, dict):
                bad = validate(x, sub, root)
                if bad:
                    return f"{k}: {bad}"
    if isinstance(v, list) and "items" in s:
        for x in v:
            bad = validate(x, s["items"], root)
            if bad:
                return bad
    return None


def other(ctx, k):
    x = kinds.make(ctx, k)
    for allow in (False, True):
        argv = ["show", *(["--allow-pure-python-wheel"] if allow else []), str(x.wheel)]
        try:
            js = kinds.run(ctx, x, ["show", "--json", *argv[1:]])
            tx = kinds.run(ctx, x, argv)
        except common.Skip:
            return
        det = {"kind": k, "allow": allow, "wheel": x.wheel.name, "members": x.names, "json": js.out[-1500:],
               "text": tx.out[-800:], "err": js.err[-800:], "rc": (js.rc, tx.rc)}
        good = allow and k == "pure"
        ctx.seen(k, allow, x.shape)
        if k == "badname" and x.haself:
            continue
        ctx.check(js.ok == good and tx.ok == good, f"exit status {js.rc}/{tx.rc} for a {k} wheel", "status",
                  det)
        ctx.check("is consistent with" not in tx.out, "a platform is claimed", "claimed", det)
        if k in ("pure", "pure-misnamed", "foreign"):
            j = parse(ctx, js.out, det)
            if j is None:
                return
            ctx.check(j.get("wheel") == x.wheel.name, "wrong wheel name", "identity", det)
            ctx.check((j.get("pure") is True) == good and ("error" in j) == (not good),
                      f"{k}: reported as {j}", "kind", det)
        elif js.out.strip():
            j = parse(ctx, js.out, det)
            ctx.check(j is None or "error" in j, f"{k}: reported as {j}", "kind", det)
