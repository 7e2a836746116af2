"""Runs the check of one property: scenarios are executed on the real code, recorded and judged by the
trace specification; model configurations are checked by TLC; evidence is written."""
import contextlib
import json
import os
import re
import sys
import time
import traceback

import vp


class Ctx:
    def __init__(self, pid, only=None):
        import gen
        self.pid, self.only = pid, only
        self.t0 = time.time()
        self.eps = []
        self.models = []
        self.states = self.transitions = 0
        self.G = gen.Gen
        self.notes = []

    def scale(self, quick, thorough):
        if vp.THOROUGH:
            return thorough
        return 2 * quick if isinstance(quick, int) and quick >= 10 else quick

    def gen(self, *key):
        """a generator that depends on the seed, the property and the key"""
        import zlib
        return self.G([vp.SEED, zlib.crc32(self.pid.encode()), *[zlib.crc32(str(k).encode()) for k in key]])

    @contextlib.contextmanager
    def episode(self, *key):
        import ex
        import numpy as np
        tag = self.pid + ":" + ":".join(str(k) for k in key)
        g = self.gen(*key)
        np.random.seed(int(g.r.integers(2**31)))
        e = ex.Ep(tag)
        if self.only and tag != self.only:
            e.off = True
        try:
            yield e, g
        except vp.Machinery:
            raise
        except Exception as x:                      # the code behaved in a way the driver cannot work with
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            e.log("fact", c="driver " + type(x).__name__ + " " + str(x)[:80], ok=False)
        if not (self.only and tag != self.only):
            self.eps.append(e.record())

    def faulty(self, module, cfg, *invariants):
        """A model with a deliberate fault: TLC has to find that one of the invariants is violated."""
        t = time.time()
        rc, out = vp.tlc(module, cfg, timeout=300, heap="4g")
        if not any("Invariant %s is violated" % i in out for i in invariants):
            raise vp.Machinery("model %s/%s does not show its fault (exit %d)\n%s" % (module, cfg, rc, out[-3000:]))
        gen, dist = vp.stats(out)
        self.models.append({"model": module, "config": cfg, "fault": "found", "generated": gen,
                            "wall_s": round(time.time() - t, 2)})

    def model(self, module, cfg, minimum=1, simulate=None, depth=None, env=None, timeout=600, args=(), heap="6g"):
        """Check a model configuration with TLC; any error is one of the specification, not of the code."""
        a = list(args)
        if simulate:
            a += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(vp.SEED)]
        t = time.time()
        rc, out = vp.tlc(module, cfg, env=env, args=a, timeout=timeout, heap=heap, workers=1 if simulate else "auto")
        gen, dist = vp.stats(out)
        if rc != 0 or gen < minimum:
            raise vp.Machinery("model %s/%s failed (exit %d)\n%s" % (module, cfg, rc, out[-5000:]))
        self.states += dist or gen
        self.transitions += gen
        self.models.append({"model": module, "config": cfg, "generated": gen, "distinct": dist,
                            "simulated": bool(simulate), "wall_s": round(time.time() - t, 2)})
        return out


def known(pid):
    """known-findings: lines  finding: property=<id> match=<regular expression on tag|clause>  <what fails>"""
    res = []
    p = os.path.join(vp.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def sample(e):
    """a recorded episode made readable, shortened"""
    import num
    ev = []
    for x in e["ev"][:12]:
        s = json.dumps({k: v for k, v in num.decs(x).items() if v not in ("", [])})
        ev.append(s if len(s) < 260 else s[:260] + "...")
    return {"tag": e["tag"], "events": len(e["ev"]), "first": ev}


def main(pid, only=None):
    import checks
    c = checks.CHECKS[pid]
    ctx = Ctx(pid, only)
    c["run"](ctx)
    t1 = time.time()
    work = vp.scratch()
    try:
        verdicts, (gen, dist) = vp.replay(ctx.eps, work) if ctx.eps else ([], (0, 0))
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)
    t2 = time.time()
    rel = re.compile("^(?:" + "|".join(c["clauses"]) + r"|exception .*|driver .*)$")
    finds, other, hidden = [], {}, []
    for v, e in zip(verdicts, ctx.eps):
        for l, cl in v["bad"]:
            if rel.match(cl):
                key = e["tag"] + "|" + cl
                k = [d for r, d in known(pid) if r.search(key)]
                (hidden if k else finds).append((e, l, cl, k))
            else:
                other.setdefault(cl, []).append("%s@%d" % (e["tag"], l))
    compared = sum(v["cnt"] for v in verdicts)
    kinds = {}
    for e in ctx.eps:
        for x in e["ev"]:
            kinds[x["k"]] = kinds.get(x["k"], 0) + 1
    if not only and compared < c.get("floor", 1):
        raise vp.Machinery("only %d comparisons were made" % compared)
    ev = {"property": pid, "tier": "thorough" if vp.THOROUGH else "quick", "seed": vp.SEED,
          "level": "model_checking",
          "coverage": {
              "states": ctx.states + dist, "transitions": ctx.transitions + gen,
              "traces_validated_against_impl": len(ctx.eps),
              "recorded_calls": sum(kinds.values()), "calls_by_kind": kinds,
              "comparisons": compared, "models": ctx.models,
              "samples": [sample(e) for e in ctx.eps[:3]] or [m for m in ctx.models[:3]]},
          "assumptions": c.get("assumptions", []),
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(finds)}
    os.makedirs(vp.EVIDENCE, exist_ok=True)
    if not only:
        with open(os.path.join(vp.EVIDENCE, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d episodes, %d calls, %d comparisons, %d model states; record %.1fs judge %.1fs" % (
        pid, len(ctx.eps), sum(kinds.values()), compared, ctx.states, t1 - ctx.t0, t2 - t1))
    for cl, n in sorted(other.items()):
        print("NOTE: %d deviations of other properties: %s, first %s" % (len(n), cl, n[0]))
        if os.environ.get("VERIF_DEBUG"):
            t, l = n[0].rsplit("@", 1)
            evs = next(e for e in ctx.eps if e["tag"] == t)["ev"]
            import num
            print("\n".join(json.dumps(num.decs(x)) for x in evs[:int(l)]))
    for d in sorted({k[0] for _, _, _, k in hidden}):
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    if not finds:
        return 0
    import num
    e, l, cl, _ = finds[0]
    path = os.path.join(vp.EVIDENCE, pid + ".violation.json")
    try:
        calls = num.decs(e["ev"][:l])
    except Exception:                               # never lose a verdict for the sake of its presentation
        calls = e["ev"][:l]
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": vp.SEED, "tier": ev["tier"], "tag": e["tag"], "clause": cl,
                   "event": l, "rerun": "VERIF_SEED=%d VERIF_TIER=%s bin/check %s '%s'" % (vp.SEED, ev["tier"], pid, e["tag"]),
                   "all": [[x["tag"], y, z] for x, y, z, _ in finds[:200]],
                   "calls": calls}, f, indent=1)
    seen = {}
    for x, y, z, _ in finds:
        seen.setdefault(z, []).append("%s@%d" % (x["tag"], y))
    for z, w in seen.items():
        print("  %s: %d times, first %s" % (z, len(w), w[0]))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
    except vp.Machinery as x:
        print("ERROR", x)
        sys.exit(2)
