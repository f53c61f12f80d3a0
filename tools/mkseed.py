#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: writes and validates planted bugs.
SPEC.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new)], demo (Python 2 source), files (of jy/
that the demo needs: with any, it runs on the stand-ins), needs, breaks. A seed is kept when it builds, the stable tests
pass with it, and its demo passes without and fails with it. Then the check of its property is run with the bug."""
import json, os, shutil, subprocess, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
R = "/repo"
PLAIN = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
exec timeout 280 bash /opt/vp/jy.sh "$D/demo.py"
'''
HEAVY = '''#!/bin/bash
# Jython as in /opt/vp/jy.sh, with the stand-ins beside this file (virtual clock, in-memory network) first on the path
D=$(cd "$(dirname "$0")" && pwd)
J=/usr/share/java
export JYTHONPATH=$D:$D/shim:/opt/jysite:/repo PYTHONDONTWRITEBYTECODE=1 PRIVCOUNT_DIRECTORY=/repo LC_ALL=C.UTF-8
unset PYTHONPATH PYTHONHOME
exec timeout 280 /usr/bin/java -XX:+UseSerialGC -Xss16m -Djava.net.preferIPv4Stack=true \\
    -cp $J/jython.jar:$J/bcprov.jar:$J/bcpkix.jar:$J/bcutil.jar \\
    -Dpython.home=/usr/share/jython -Dpython.executable=/usr/bin/jython -Dpython.cachedir.skip=true \\
    org.python.util.jython -B "$D/demo.py"
'''
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo is not clean"
for s in ns["SEEDS"]:
    if want and s["id"] not in want:
        continue
    d = os.path.join(V, "seeded", s["id"])
    ok = True
    why = ""
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(old) == 1, "%s: %d matches in %s: %r" % (s["id"], t.count(old), f, old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(HEAVY if s.get("files") else PLAIN)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        for x in (["world.py", "shim"] if s.get("files") else []) + [x for x in s.get("files", []) if x != "world.py"]:
            src = os.path.join(V, "jy", x)
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(d, x))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            ok, why = False, "build: " + b.stdout[-500:] + b.stderr[-500:]
        dm = sh("bash %s/demo.sh" % d, cwd=R)
        if ok and dm.returncode == 0:
            ok, why = False, "demo passes with the bug"
        bad = dm.stdout[-300:] + dm.stderr[-600:]
        if ok:
            sh("bash /opt/vp/test.sh /tmp/seeds/out.json")
            o = json.load(open("/tmp/seeds/out.json"))
            passed = set(o.get("passed", []))
            if stable - passed:
                ok, why = False, "tests: %s" % sorted(stable - passed)[:5]
        c = sh("VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py %s" % s["property"], cwd=V) if ok else None
    finally:
        sh("git -C /repo checkout -- .")
        sh("find /repo -name '*.class' -delete")
    dm = sh("bash %s/demo.sh" % d, cwd=R)
    if ok and dm.returncode:
        ok, why = False, "demo fails without the bug: " + dm.stdout[-500:] + dm.stderr[-800:]
    if not ok:
        shutil.rmtree(d, ignore_errors=True)
        print("REJECTED", s["id"], why, flush=True)
        continue
    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION property=" + s["property"])]
    print("KEPT", s["id"], "CAUGHT" if c.returncode == 1 and v else "MISSED rc=%d" % c.returncode,
          "| demo:", bad.strip().splitlines()[-1][:150] if bad.strip() else "", flush=True)
    if not (c.returncode == 1 and v):
        print(c.stdout[-600:], c.stderr[-600:])
    sh("git -C /repo status --porcelain")
