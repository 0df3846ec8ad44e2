"""Write properties.jsonl and MANIFEST.json from the property texts in tools/meta/*.py.

    python3 tools/mkmeta.py
"""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), note="", claim=True):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(
            files=files.split(),
            state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=None),
        _note=note, _claim=claim))


def not_applicable(id, reason):
    NOT_APPLICABLE.append(dict(property=id, reason=reason))


NOTE = ("Bounded symbolic execution of the real source (rewritten at import, regenerated on every run): z3 decides every branch and "
        "assertion for all values within the bounds named in the evidence; nothing is claimed outside them. Trusted: z3, the engine's "
        "models of Python built-ins (cross-checked each run by re-running solver-chosen samples on the uninstrumented code). ")

for f in sorted(glob.glob(os.path.join(V, "tools", "meta", "*.py"))):
    exec(compile(open(f).read(), f, "exec"), dict(prop=prop, not_applicable=not_applicable))

PROPS.sort(key=lambda p: p["id"])
assert len({p["id"] for p in PROPS}) == len(PROPS)
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in PROPS:
        o.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
checks = []
for p in PROPS:
    if not p["_claim"]:
        continue
    assert os.path.exists(os.path.join(V, "props", p["id"] + ".py")), p["id"]
    checks.append(dict(
        property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json", technique="symbolic execution of the real Python source with z3 (bounded), replayed on the real code",
        level="model_checking", level_note=NOTE + p["_note"]))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=NOT_APPLICABLE,
         notes="Engine in symx/, one harness per property in props/. ./check ID [--tier quick|thorough]; ./replay.sh FILE re-runs a reported counterexample on the real code.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks")
