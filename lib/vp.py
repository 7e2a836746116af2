"""Plumbing: environment, TLC, evidence, verdicts."""
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
TLA = "/opt/veriftools/tla/tla2tools.jar"
MODS = "/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class Machinery(Exception):
    """The checking machinery itself failed: neither verdict can be given."""


def scratch():
    return tempfile.mkdtemp(prefix="vchk-")


def classes():
    """Compiled overrides of spec operators (java/*.java), built on demand."""
    out = os.path.join(VERIF, "build", "classes")
    srcs = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    want = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    mark = os.path.join(out, "mark")
    if not os.path.exists(mark) or open(mark).read() != want:
        os.makedirs(out, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="fx-", dir=os.path.join(VERIF, "build"))
        subprocess.run(["javac", "-d", tmp, "-cp", TLA, *srcs], check=True)
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(out, f))
        os.rmdir(tmp)
        with open(mark, "w") as f:
            f.write(want)
    return out


def tlc(module, cfg=None, env=None, args=(), workers="auto", timeout=800, cwd=None, heap="6g"):
    """Run TLC; returns (exit code, output)."""
    spec = cwd or os.path.join(VERIF, "spec")
    meta = scratch()
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-cp",
           ":".join([classes(), TLA, MODS]), "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg", *args, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on " + module)
    finally:
        subprocess.run(["rm", "-rf", meta])
    return p.returncode, p.stdout


def stats(out):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if not m:
        m = re.findall(r"The number of states generated: ([\d,]+)()", out)
        return (int(m[-1][0].replace(",", "")), 0) if m else (0, 0)
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def printed(out, tag):
    """JSON values printed by the specification with a tag."""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag + ' '):
            res.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return res


def replay(episodes, workdir, timeout=800):
    """Check episodes against the specification. Returns (verdicts, stats)."""
    log = os.path.join(workdir, "log.ndjson")
    vs, left, total = {}, list(range(len(episodes))), [0, 0]
    for _ in range(5):
        with open(log, "w") as f:
            for i in left:
                f.write(json.dumps(episodes[i], separators=(",", ":")) + "\n")
        rc, out = tlc("Replay", env={"LOG": log}, timeout=timeout)
        for v in printed(out, "VERDICT"):
            vs[left[v["ep"] - 1]] = v
        total = [a + b for a, b in zip(total, stats(out))]
        if rc == 0 and len(vs) == len(episodes):
            break
        # an answer without the form that it has to have: the state in which it could not be evaluated names the episode
        at = out.rfind("Error: The error occurred when TLC was evaluating")
        ep = re.findall(r"/\\ ep = (\d+)", out[:at]) if at >= 0 else []
        line = re.findall(r"/\\ l = (\d+)", out[:at]) if at >= 0 else []
        if not ep or not line:
            missing = [i + 1 for i in range(len(episodes)) if i not in vs][:3]
            raise Machinery("trace specification failed (exit %d, %d of %d verdicts, missing %s)\n%s" % (
                rc, len(vs), len(episodes), missing,
                "\n".join(x for x in out.splitlines() if not x.startswith('"VERDICT'))[:2500] + "\n...\n" + out[-4000:]))
        vs[left[int(ep[-1]) - 1]] = {"bad": [[int(line[-1]), "driver could not compare the answer"]], "cnt": 0}
        left = [i for i in left if i not in vs]
        if not left:
            break
    return [vs.get(i, {"bad": [], "cnt": 0}) for i in range(len(episodes))], tuple(total)
