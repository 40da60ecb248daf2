"""Author's tool: turns a description of a change (python file with PROPERTY, EDITS, NEEDS, BREAKS, DEMO)
into /verif/seeded/<id>, after confirming build, stable tests and demonstration in a scratch copy.
No check uses it."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0: the property holds in the demonstrated situation; nonzero: it is broken
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def plant(src):
    ns = {}
    exec(open(src).read(), ns)
    bid = os.path.splitext(os.path.basename(src))[0]
    t = tempfile.mkdtemp(prefix="plant-", dir="/tmp"); os.chmod(t, 0o755)
    try:
        r = os.path.join(t, "repo")
        sh("cp", "-a", "/repo", r)
        d = os.path.join(t, "demo")
        os.mkdir(d)
        shutil.copy(os.path.join(V, "tools/demolib.py"), d)
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/demo.py", "w").write(ns["DEMO"].lstrip())
        a = sh("bash", d + "/demo.sh", cwd=r, timeout=300)
        if a.returncode != 0:
            return bid, "demo fails on the unchanged tree:\n" + a.stdout + a.stderr
        for f, old, new in ns["EDITS"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return bid, f"{s.count(old)} matches in {f}: {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", r, "diff").stdout
        b = sh("bash", d + "/demo.sh", cwd=r, timeout=300)
        if b.returncode == 0:
            return bid, "demo passes with the change:\n" + b.stdout + b.stderr
        ts = open("/opt/vp/test.sh").read().replace("/repo", r)
        open(t + "/test.sh", "w").write(ts)
        x = sh("bash", t + "/test.sh", t + "/o.json")
        o = json.load(open(t + "/o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        p = set(o["passed"]) if isinstance(o.get("passed"), list) else {k for k, v in o.items() if v == "passed"}
        miss = [x for x in base if x not in p]
        if miss:
            return bid, f"tests fail: {miss}"
        out = os.path.join(V, "seeded", bid)
        shutil.rmtree(out, True)
        os.makedirs(out)
        for f in os.listdir(d):
            if os.path.isfile(os.path.join(d, f)):
                shutil.copy(os.path.join(d, f), out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(out + "/meta.json", "w"), indent=1)
        return bid, "ok: " + ((b.stdout + b.stderr).strip().splitlines() or [f"exit {b.returncode}"])[-1][:150]
    finally:
        shutil.rmtree(t, True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        for b, m in ex.map(plant, sys.argv[1:]):
            print(f"{b}: {m}", flush=True)
