"""plant.py SPEC.py: confirm a planted bug in a scratch copy of /repo and keep it in seeded/.

SPEC.py defines id, property, needs, breaks, edits=[(file, old, new)], demo (python source)."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(path):
    ns = {}
    exec(open(path).read(), ns)
    assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip()
    d = os.path.join(V, "seeded", ns["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(ns["demo"])
    open(d + "/demo.sh", "w").write('#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    r0 = sh("sh %s/demo.sh" % d, cwd="/repo")
    ok = r0.returncode == 0
    if not ok:
        print("demo fails on the clean tree", (r0.stdout + r0.stderr)[-600:])
    try:
        for f, old, new in ns["edits"]:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        r1 = sh("sh %s/demo.sh" % d, cwd="/repo")
        if r1.returncode == 0:
            ok = False
            print("demo passes with the bug")
        sh("bash /opt/vp/test.sh /tmp/w/out.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open("/tmp/w/out.json"))
        good = base["stable"]
        missing = [t for t in good if t not in res.get("passed", [])]
        if missing:
            ok = False
            print("tests broken:", missing[:5])
        for pr in ([ns["property"]] + ns.get("also", [])):
            c = sh("bin/check %s --tier quick" % pr, cwd=V)
            lines = (c.stdout + c.stderr).strip().split("\n")
            print("check %s: exit %d" % (pr, c.returncode), "|", "; ".join(
                x for x in lines if "VIOLATION" in x)[:200], "|", lines[-1][:150])
    finally:
        sh("git -C /repo checkout -- .")
    if ok:
        open(d + "/patch.diff", "w").write(diff)
        print("kept", ns["id"])
    else:
        shutil.rmtree(d)
        print("DROPPED", ns["id"])


for a in sys.argv[1:]:
    main(a)
