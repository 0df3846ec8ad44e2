"""Development helper for planted bugs (never used by a check).

  seed.py verify ID...        demo passes on the tree, fails with the patch, tests still pass
  seed.py catch ID... [-p P]  run the property's check against a patched copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r, check=True)
    return d, r


def env(r):
    return dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8", TZ="UTC")


def demo(i, r):
    return subprocess.run(["bash", f"{V}/seeded/{i}/demo.sh"], cwd=r, env=env(r), capture_output=True, text=True, timeout=300)


def verify(i):
    d, r = copy()
    try:
        a = demo(i, r)
        if a.returncode:
            return f"demo fails on the clean tree: {a.stdout[-500:]}{a.stderr[-800:]}"
        subprocess.run(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=r, check=True)
        b = demo(i, r)
        if b.returncode == 0:
            return "demo passes with the patch"
        x = os.path.join(d, "j.xml")
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--ignore=tests/ota/test_ota_providers.py",
                        f"--basetemp={d}/t", "-o", "junit_family=xunit2", f"--junitxml={x}", "tests"], cwd=r, env=env(r), capture_output=True)
        bad = [f"{c.get('classname')}::{c.get('name')}" for c in ET.parse(x).iter("testcase")
               if c.find("failure") is not None or c.find("error") is not None]
        n = len(list(ET.parse(x).iter("testcase")))
        st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        hit = [t for t in bad if any(s.endswith(t.split("::")[-1]) for s in st)]
        if hit or n < 800:
            return f"tests fail ({n} ran): {hit[:5]}"
        return "OK: " + (b.stderr or b.stdout).strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def catch(i, p=None):
    d, r = copy()
    try:
        subprocess.run(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=r, check=True)
        p = p or json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        o = subprocess.run(["./check", p], cwd=V, env=dict(os.environ, ZIGPY_REPO=r, SYMX_EVIDENCE=d), capture_output=True, text=True)
        return f"exit {o.returncode}\n" + o.stdout[-1500:] + o.stderr[-500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[2:]
    p = None
    if "-p" in a:
        k = a.index("-p")
        p = a[k + 1]
        del a[k:k + 2]
    if a == ["all"]:
        a = sorted(os.listdir(f"{V}/seeded"))
    from concurrent.futures import ThreadPoolExecutor
    if sys.argv[1] == "verify":
        with ThreadPoolExecutor(4) as ex:
            for i, res in zip(a, ex.map(verify, a)):
                print(i, res, flush=True)
    else:
        for i in a:
            print("==", i, catch(i, p), flush=True)
