"""Exchange of numbers with the specification (module Fx): 4 limbs, 90 fractional bits."""
import math

M30 = (1 << 30) - 1
MAX = 2147483647 << 90


def enc(x):
    """A float as a list of limbs; non finite values are 5 element lists."""
    x = float(x)
    if not math.isfinite(x):
        return [0, 0, 0, 0, 1 if x > 0 else 2 if x < 0 else 3]
    m, e = math.frexp(x)
    i = int(m * 9007199254740992.0)
    e += 90 - 53
    i = i << e if e >= 0 else i >> -e
    i = max(-MAX, min(MAX, i))
    return [i >> 90, (i >> 60) & M30, (i >> 30) & M30, i & M30]


def encv(v):
    return [enc(x) for x in v]


def dec(l):
    if len(l) == 5:
        return {1: math.inf, 2: -math.inf, 3: math.nan}[l[4]]
    return l[0] + l[1] / 2.0**30 + l[2] / 2.0**60 + l[3] / 2.0**90


def decs(x):
    """Nested lists with numbers made readable (for messages)."""
    if isinstance(x, list):
        if all(type(i) is int for i in x) and (
                len(x) == 4 and all(0 <= i <= M30 for i in x[1:]) or
                len(x) == 5 and x[:4] == [0, 0, 0, 0] and x[4] in (1, 2, 3)):
            return round(dec(x), 9)
        return [decs(i) for i in x]
    if isinstance(x, dict):
        return {k: decs(v) for k, v in x.items()}
    return x
