"""Development aid: plant one bug in /repo, record it under seeded/, try tests, demo and checks, and undo it.

usage: plant.py SPEC.py [--checks C01,C02] [--no-tests]; SPEC defines ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python text), FILES {name: text}, PRE (shell)."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# run with cwd /repo after build.sh
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo/target/vp/pymod PYTHONDONTWRITEBYTECODE=1
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" || exit 99
%s
/opt/vp/venv/bin/python "$here/demo.py" "$scratch"
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    checks = ns["PROP"].split(",") if "--checks" not in sys.argv else sys.argv[sys.argv.index("--checks") + 1].split(",")
    d = os.path.join(V, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout, "repo dirty"
    try:
        for f, a, b in ns["EDITS"]:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        with open(d + "/demo.sh", "w") as f:
            f.write(DEMO_SH % ns.get("PRE", ""))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
        for k, t in ns.get("FILES", {}).items():
            open(os.path.join(d, k), "w").write(t)
        json.dump({"property": ns["PROP"].split(",")[0], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            print("BUILD FAILED", r.stderr[-3000:])
            return
        if "--no-tests" not in sys.argv:
            sh("bash /opt/vp/test.sh /tmp/plant_out.json")
            ok = set(json.load(open("/tmp/plant_out.json"))["passed"])
            miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
            print("tests missing", len(miss), miss[:3])
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        print("demo with patch: rc", r.returncode, (r.stdout + r.stderr)[-300:].strip())
        for c in checks:
            r = sh("VERIF_SEED=1 VERIF_TIER=quick ./check %s" % c, cwd=V)
            print("check", c, "rc", r.returncode, "|", "\n   ".join([x[:220] for x in (r.stdout + r.stderr).strip().splitlines()[-5:]]))
    finally:
        sh("git -C /repo checkout -- .")
    if "--no-base" not in sys.argv:
        sh("bash /opt/vp/build.sh")
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        print("demo without patch: rc", r.returncode, (r.stdout + r.stderr)[-300:].strip())


main()
