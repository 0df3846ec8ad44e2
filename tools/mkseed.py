"""mkseed.py SPEC.py: write seeded/<id>/ from dict(id, property, edits=[(file, old, new)], demo, needs, breaks) objects."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed-")
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", t + "/r"], check=True)
    for f, old, new in s["edits"]:
        p = f"{t}/r/{f}"
        c = open(p).read()
        assert c.count(old) == 1, (s["id"], f, c.count(old), old)
        open(p, "w").write(c.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=t + "/r", capture_output=True, text=True, check=True).stdout)
    shutil.rmtree(t)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/sh\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
