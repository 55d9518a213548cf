#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from the tables below"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MF = "syncanysql/calculaters/mysql_funcs/"
PROPS, NA = [], []


def P(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    PROPS.append((dict(id=id, title=title, statement=statement,
                       quantifier={"over": over, "text": text}, why_tests_cant=why,
                       anchors=dict(files=files, mechanism=[{"name": n, "where": w} for n, w in mech],
                                    **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                                    **({"observe_at": observe} if observe else {}))), technique, note))


def N(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech, None, None)
    NA.append((id, reason))


exec(open(os.path.join(HERE, "tools", "props.py")).read())


def main():
    ids = [p[0]["id"] for p in PROPS]
    assert len(ids) == len(set(ids))
    na = {i for i, _ in NA}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
        for p, _, _ in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            fp.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for p, tech, note in PROPS:
        if p["id"] in na:
            continue
        assert os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")), p["id"]
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
                       "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": tech, "level": "other",
                       "level_note": note})
    man = {"version": 1, "setup_cmd": "python3 -m compileall -q sa checks run.py >/dev/null 2>&1 || true",
           "checks": checks, "not_applicable": [{"property": i, "reason": r} for i, r in NA],
           "notes": "Static analysis only: every check parses /repo's current source (stdlib ast) and decides rules on "
                    "an abstract interpretation or a syntax/type resolution of it; nothing of /repo is imported or run. "
                    "No hooks are needed."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(man, fp, indent=1, ensure_ascii=False)
        fp.write("\n")
    design(man)


def design(man):
    import ast
    import glob
    checks = {c["property"]: c for c in man["checks"]}
    tool = lambda n: open(os.path.join(HERE, "tools", n)).read()
    out = [tool("design_head.md"), "## Properties and how they are decided\n\n"]
    for p, _, note in sorted(PROPS, key=lambda p: p[0]["id"]):
        if p["id"] not in checks:
            continue
        doc = ast.get_docstring(ast.parse(open(os.path.join(HERE, "checks", p["id"].lower() + ".py")).read()))
        doc = doc.split("\n", 1)[-1].strip()
        out.append("### %s %s\n\n%s\n\nEnumerated: %s.  %s\n\n" % (p["id"], p["title"], doc, p["quantifier"]["text"], note))
    out.append("## Not applicable\n\n")
    for i, r in NA:
        out.append("- %s: %s\n" % (i, r))
    out.append("\n## Planted bugs (seeded/) and the checks that catch them\n\n| bug | caught by | needs |\n|---|---|---|\n")
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(f))
        out.append("| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"].replace("|", "\\|")))
    out.append("\nEach is caught by the check of its property (vcheck).\n\n")
    out.append(tool("design_tail.md"))
    out.append("\n## Repairs in /repo (`fix:` commits)\n\n")
    for x in json.load(open(os.path.join(HERE, "known_findings.json"))).get("fixed", []):
        out.append("- " + x + "\n")
    with open(os.path.join(HERE, "DESIGN.md"), "w") as fp:
        fp.write("".join(out))


main()
