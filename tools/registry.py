"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json: python3 tools/registry.py"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, level_note=None, na=None, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  level_note=level_note, na=na, state=state, observe=observe))


TB = ("Exhaustive exploration of the specification within the bounds given; the binding to the code covers the "
      "operation sequences replayed (every specification transition within the bounds, plus seeded ones). Trusts TLC, "
      "spec/Real.java, the driver's projection and the compiler. ")

exec(open(os.path.join(VERIF, "tools", "properties.py")).read())


def main():
    built = {p["id"] for p in P if os.path.exists(os.path.join(VERIF, "checks", p["id"] + ".py"))}
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]} if p["state"] else {}),
                            **({"observe_at": list(p["observe"])} if p["observe"] else {}),
                            "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
           "hooks": {"guard": "none", "enable": "no hooks: the drivers in /verif/harness use the public API only", "source_commits": []},
           "checks": [], "not_applicable": [],
           "notes": "TLA+ checked with TLC; see DESIGN.md. known-findings.json lists genuine defects."}
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        if p["na"] or p["id"] not in built:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"] or "no check built yet"})
            continue
        man["checks"].append({
            "property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"],
            "thorough_cmd": "python3 checks/%s.py" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "TLA+ specification checked with TLC; TLC-generated and seeded operation sequences replayed into "
                         "the real code, recorded traces checked against the specification with TLC",
            "level": "model_checking", "level_note": TB + (p["level_note"] or "")})
    json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    try:
        import jsonschema
        S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for line in open(os.path.join(VERIF, "properties.jsonl")):
            jsonschema.validate(json.loads(line), S)
        jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    except ImportError:
        pass
    print(len(P), "properties;", len(man["checks"]), "claimed")


main()
