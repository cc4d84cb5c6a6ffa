"""Writes DESIGN.md from the checks, the findings file and the catch tables."""
import ast
import json
import os
import re
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(os.path.join(ROOT, "tools", "design_head.md")).read()
WHY = {}
key = None
for line in open(os.path.join(ROOT, "tools", "design_why.md")):
    m = re.match(r"^## (C\d\d)\s*$", line)
    if m:
        key = m.group(1)
        WHY[key] = ""
    elif key:
        WHY[key] += line
TAIL = open(os.path.join(ROOT, "tools", "design_tail.md")).read()


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            nm = n.targets[0].id
            if nm in ("RULE", "ASSUMPTIONS", "LEVEL"):
                out[nm] = ast.literal_eval(n.value)
            elif nm == "KINDS":
                out[nm] = [(ast.literal_eval(c.args[0]), ast.literal_eval(c.args[3]), ast.literal_eval(c.args[4]))
                           for c in n.value.elts]
    return out


def wrap(s):
    return textwrap.fill(re.sub(r"\s+", " ", s).strip(), 88)


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    secs = []
    for p in props:
        c = consts(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))
        kinds = ", ".join("%s %d/%d" % k for k in c["KINDS"])
        s = ["### %s %s" % (p["id"], p["title"]), ""]
        s += ["*Level:* %s. *Cases (quick/thorough):* %s." % (c["LEVEL"], kinds), ""]
        s += ["*Workload and monitors.* " + wrap(c["RULE"].split(" distinct_nontrivial")[0]), ""]
        s += [WHY.get(p["id"], "").strip(), ""]
        if c.get("ASSUMPTIONS"):
            s += ["*Assumes:* " + wrap("; ".join(c["ASSUMPTIONS"])) + ".", ""]
        secs.append("\n".join(s))
    kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
    f = ["## Findings", "", "Recorded, not repaired (the check prints `KNOWN-FINDING` and still reports any other violation):", ""]
    for k in kf["known"]:
        f.append("- %s `%s`: %s" % (k["property"], k["key"], k["what"]))
    f += ["", "Repaired in /repo, one `fix:` commit each (suppress nothing):", ""]
    for k in kf["fixed"]:
        f.append("- " + k.replace("fixed: ", ""))
    cat = ["## Planted changes and what catches them", ""]
    path = os.path.join(ROOT, "tools", "catches.json")
    rows = json.load(open(path)) if os.path.exists(path) else {}
    cat += ["| change | property | needs | caught by its check (quick tier) |", "|---|---|---|---|"]
    dirs = {d: os.path.join(ROOT, s, d) for s in ("seeded", "seeded_more") for d in os.listdir(os.path.join(ROOT, s))}
    for d in sorted(dirs):
        m = json.load(open(os.path.join(dirs[d], "meta.json")))
        cat.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), rows.get(d, "not run")))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(
        HEAD + "\n## Properties\n\n" + "\n".join(secs) + "\n" + "\n".join(f) + "\n\n" + "\n".join(cat) + "\n\n" + TAIL)


main()
