#!/usr/bin/env python3
"""Runs the checks against every planted bug (in scratch copies): score.py [-j N] [ID ...]"""
import json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, "..", "seeded")


def one(i):
    p = json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", w], check=True)
        a = subprocess.run(["git", "apply", os.path.join(SEEDED, i, "patch.diff")], cwd=w)
        if a.returncode:
            return i, p, "DOES NOT APPLY"
        ev = os.path.join(w, "ev")
        c = subprocess.run([os.path.join(HERE, "..", "bin", "check"), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=ev))
        return i, p, ("caught: " if c.returncode == 1 else "MISSED: " if c.returncode == 0 else "ERROR: ") + " | ".join(
            x.strip() for x in c.stdout.splitlines()[1:] if "VIOLATION" not in x)[:250]
    finally:
        subprocess.run(["rm", "-rf", w])


ids = [a for a in sys.argv[1:]] or sorted(os.listdir(SEEDED))
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ids):
        print("%-24s %s %s" % r, flush=True)
