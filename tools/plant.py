#!/usr/bin/env python3
"""Plants a bug described in a file:  plant.py BUGFILE [ID ...]   (BUGFILE defines a list BUGS)
Every bug is confirmed in a scratch copy: it has to apply, build, pass the tests and fail its demonstration,
which has to pass on the unchanged tree; then it is kept under /verif/seeded and the check is run against the copy."""
import json, os, subprocess, sys, tempfile, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, "..", "seeded")
BASE = "4deb2af"
SH = '''#!/bin/bash
# run in the root of the repository; exit 0: behaves as documented
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$d/demo.py"
'''
ENV = dict(os.environ, HOME="/root", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           MPLCONFIGDIR="/tmp/mplc", PYTHONWARNINGS="ignore")


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plant(b):
    out = []
    w = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", w], check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            n = b.get("count", 1)
            if s.count(old) != n:
                return b["id"], "BAD: text occurs %d times in %s" % (s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], w).stdout
        for f in {e[0] for e in b["edits"]}:
            blame = run(["git", "blame", "-s", "--", f], "/repo").stdout.splitlines()
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", run(["git", "diff", "-U0", "--", f], w).stdout, re.M):
                for k in range(int(m.group(1)), int(m.group(1)) + int(m.group(2) or 1)):
                    if not blame[k - 1].startswith("^" + BASE[:7]):
                        out.append("line %s:%d is not original" % (f, k))
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        good = run(["bash", os.path.join(d, "demo.sh")], "/repo")
        bad = run(["bash", os.path.join(d, "demo.sh")], w)
        if good.returncode:
            out.append("BAD: demo fails on the unchanged tree: " + good.stdout[-800:])
        if not bad.returncode:
            out.append("BAD: demo does not fail with the patch")
        else:
            out.append("demo: " + bad.stdout.strip()[-150:])
        r = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o",
                 "python_files=test_*.py int_test_*.py", "test"], w, env=ENV)
        m = re.search(r"(\d+) passed", r.stdout)
        if r.returncode or not m or int(m.group(1)) != 164:
            out.append("BAD: tests: " + "\n".join(x for x in r.stdout.splitlines() if "FAILED" in x or "passed" in x))
        for p in b.get("checks", [b["property"]]):
            c = run([os.path.join(HERE, "..", "bin", "check"), p], os.path.join(HERE, ".."),
                    env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=os.path.join(w, "ev"), VERIF_SEED="1", VERIF_TIER="quick"))
            out.append("check %s exit %d  %s" % (p, c.returncode, " ".join(
                x.strip() for x in c.stdout.splitlines()[1:] if "VIOLATION" not in x)[:300]))
    finally:
        subprocess.run(["rm", "-rf", w])
    return b["id"], "\n    ".join(out)


if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    bugs = [b for b in g["BUGS"] if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for i, o in ex.map(plant, bugs):
            print(i, "\n   ", o, flush=True)
