"""Write DESIGN.md: python3-vt tools/mkdesign.py (reads the harnesses as text, evidence and seeds)."""
import ast, json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda p: open(os.path.join(V, p)).read()
out = [R("tools/design/head.md")]
consts = {}
for l in R("properties.jsonl").splitlines():
    p = json.loads(l); i = p["id"]
    tree = ast.parse(R(f"props/{i}.py"))
    c = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS"):
            try: c[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError: pass
    try: e = json.load(open(os.path.join(V, f"tools/design/cost.json"))).get(i)
    except OSError: e = None
    out.append(f"### {i}: {p['title']}\n\n{p['statement']}\n\n"
        f"*Decided by* symbolic execution of {', '.join('`'+m['name']+'` ('+m['where']+')' for m in p['anchors']['mechanism'])}; oracle: the harness `props/{i}.py`, at {', '.join(p['anchors']['observe_at'])}. "
        f"*Bounds (quick; thorough where named):* {c.get('BOUNDS','')}. *Outside:* {c.get('OUTSIDE','')}." + (f" *Assumed:* {'; '.join(c['ASSUMPTIONS'])}." if c.get('ASSUMPTIONS') else "")
        + f" *Why tests cannot:* {p['why_tests_cant']}." + (f" *Cost of a quick run:* {e}." if e else "") + "\n\n")
out.append(R("tools/design/tail.md"))
caught = json.load(open(os.path.join(V, "tools/design/caught.json")))
out.append("| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n")
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(d + "/meta.json")); s = os.path.basename(d)
    out.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(s) or 'none'} |\n")
out.append("\n## Defects found in zigpy\n\nRepaired by a `fix:` commit unless marked *known* (`known_findings.jsonl`).\n\n")
for l in R("known_findings.jsonl").splitlines():
    f = json.loads(l)
    w = f["what"]
    if f["status"] == "fixed": w = w.split(" ", 3)[3] + " (" + w.split(" ")[2] + ")"
    out.append(f"* {f['id']} {f['property']}{' *known*' if f['status'] != 'fixed' else ''}: {w}\n")
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
