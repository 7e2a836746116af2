"""Setup and self-test: the compiled evaluation of the arithmetic modules gives what their definitions say."""
import json
import math
import os
import random
import re
import shutil
import sys

import vp
from num import M30, MAX

ONE = 1 << 90


def cook(i):
    i = max(-MAX, min(MAX, i))
    return [i >> 90, (i >> 60) & M30, (i >> 30) & M30, i & M30]


def raw(l):
    return (((l[0] << 30) + l[1] << 30) + l[2] << 30) + l[3]


clamp = lambda i: max(-MAX, min(MAX, i))
mul = lambda a, b: clamp(a * b // ONE)
div = lambda a, b: clamp((MAX if a >= 0 else -MAX) if b == 0 else a * ONE // b if b > 0 else -a * ONE // -b)
PI = 3 * ONE + 141592653 * ONE // 10**9 + 589793238 * ONE // 10**18 + 462643383 * ONE // 10**27


def trig(x, first):
    two = mul(2 * ONE, PI)
    n = clamp(div(x, two) + ONE // 2) // ONE * ONE
    r = clamp(x - mul(n, two))
    x2, acc = mul(r, r), 0
    t, k = (r, 1) if first else (ONE, 0)
    while True:
        acc = clamp(acc + t)
        if k > 41:
            return acc
        t = clamp(-div(mul(t, x2), (k + 1) * (k + 2) * ONE))
        k += 2


def main():
    r = random.Random(vp.SEED)

    def num(big=True):
        c = r.random()
        if c < 0.15:
            return r.choice((0, ONE, -ONE, 2 * ONE, ONE // 2, -ONE // 2, 1, -1, 3, MAX, -MAX))
        s = r.choice((2.0**-60, 1e-6, 1.0, 1.0, 10.0, 1e4) + ((2e9,) if big else ()))
        return int(r.uniform(-s, s) * 2**60) << 30 | r.getrandbits(30)
    vec = lambda n=3: [num(False) for _ in range(n)]
    cases = []
    for _ in range(400):
        u, v = vec(), vec()
        if all(abs(t) < 2**60 for t in u):
            u[0] = ONE
        m, n = [vec(4) for _ in range(3)], [vec(4) for _ in range(3)]
        a = vec()
        if r.random() < 0.5 and abs(a[0]) > ONE >> 20:      # (almost) a double root
            a[2] = a[1] * a[1] // (4 * a[0]) + r.randint(-1, 1) * r.getrandbits(r.choice((1, 10, 40, 60)))
        cases.append({"x": num(), "y": num(), "u": u, "v": v, "m": m, "n": n, "a": a,
                      "f": {"q": vec(), "l": vec(), "c": num(False)},
                      "p": r.randint(-10**9, 10**9), "q": r.choice((-7, 3, 10**9)), "e": r.randint(0, 20)})

    def out(o):
        if isinstance(o, list):
            return [out(i) for i in o]
        if isinstance(o, dict):
            return {k: out(i) if k not in ("p", "q", "e") or isinstance(i, list) else i for k, i in o.items()}
        return cook(o)
    work = vp.scratch()
    try:
        for f in ("Fx", "Lin", "Geom", "SelfTest"):
            t = open(os.path.join(vp.VERIF, "spec", f + ".tla")).read()
            open(os.path.join(work, f + ".tla"), "w").write(t)
            if f in ("Lin", "Geom"):
                t = re.sub(r"MODULE " + f + r"\b", "MODULE Ref" + f, t).replace("EXTENDS Lin", "EXTENDS RefLin")
                open(os.path.join(work, "Ref" + f + ".tla"), "w").write(t)
        shutil.copy(os.path.join(vp.VERIF, "spec", "SelfTest.cfg"), work)
        log = os.path.join(work, "log.ndjson")
        with open(log, "w") as f:
            for c in cases:
                f.write(json.dumps(out(c)) + "\n")
        rc, text = vp.tlc("SelfTest", env={"LOG": log}, cwd=work, workers=1, args=["-workers", "1"])
        res = vp.printed(text, "CASE")
        if rc != 0 or len(res) != len(cases):
            print(text[-3000:])
            sys.exit("self-test: TLC failed")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    bad = 0
    for c, o in zip(cases, res):
        x, y, fx = c["x"], c["y"], o["fx"]
        want = {"add": clamp(x + y), "sub": clamp(x - y), "opp": clamp(-x), "mul": mul(x, y), "div": div(x, y),
                "sqrt": clamp(math.isqrt(x * ONE)) if x > 0 else 0, "dot": clamp(sum(a * b for a, b in zip(c["u"], c["v"])) // ONE),
                "sin": trig(x, True), "cos": trig(x, False),
                "rat": clamp(c["p"] * ONE // c["q"] if c["q"] > 0 else -c["p"] * ONE // -c["q"]), "dec": clamp(c["p"] * ONE // 10**c["e"])}
        wrong = [k for k, w in want.items() if raw(fx[k]) != w]
        wrong += [k for k, w in (("lt", x < y), ("le", x <= y), ("floor", x // ONE)) if fx[k] != w]
        wrong += [k for k, w in o["same"].items() if not w]
        if abs(x) < 1000 * ONE and (abs(raw(fx["sin"]) / ONE - math.sin(x / ONE)) > 1e-12 or abs(raw(fx["cos"]) / ONE - math.cos(x / ONE)) > 1e-12):
            wrong.append("trig")
        if wrong:
            bad += 1
            if bad < 4:
                print(wrong, c["x"] / ONE, c["y"] / ONE)
    if bad:
        sys.exit("self-test: %d of %d cases differ" % (bad, len(cases)))
    print("self-test: %d cases" % len(cases))


main()
