"""C19: kbnsum."""
from fractions import Fraction

import numpy as np

from vf import long
from vf.layouts import Placed, describe, run_modes

NAN, PINF, NINF = 2000000001, 2000000000, -2000000000
ASSUMPTIONS = [
    "Terms have two magnitudes whose parts fit in the running sum and its compensation; overflow of the sum is "
    "outside the property.",
]


def models(tier, seed):
    big = tier == "thorough"
    cfg = ("CONSTANTS P = 4 Q = 8 His = {%s} Los = {%s} MaxLen = %d Shift = 3 Specials = %s\nSPECIFICATION Spec\n"
           "INVARIANTS Exact Compensated Emitted\n")
    return [dict(name="two", module="KBNLoop", cfg=cfg % ("2,4,5", "2,3,4,6", 6 if big else 5, "FALSE")),
            dict(name="special", module="KBNLoop", cfg=cfg % ("2,4", "2,4", 5 if big else 4, "TRUE"))] + [long.laws(tier)]


def traces(tier):
    return [dict(stream="kbn", module="KBNSum", failures="KBNFailures"), long.TRACE]


BIG = dict(f=2.0 ** 40, d=2.0 ** 90, g=np.longdouble(2) ** 120)
MANT = dict(f=24, d=53, g=64)


def nearest(char, hi, lo, s):
    """hi*BIG + lo times 2^s, correctly rounded to the type."""
    big = int(BIG[char])
    v = hi * big + lo
    p = MANT[char]
    a = abs(v)
    e = max(0, a.bit_length() - p)
    q, r = a >> e, a & ((1 << e) - 1)
    half = 1 << (e - 1) if e else 0
    if e and (r > half or (r == half and q & 1)):
        q += 1
    w = np.longdouble(q >> 32) * np.longdouble(2) ** 32 + np.longdouble(q & 0xffffffff)
    return (-1 if v < 0 else 1) * w * np.longdouble(2) ** (e + s)


def place(d, char):
    """The exponent of the unit: near 0 or anywhere in the range of the type, subnormal numbers included."""
    if d.rng.integers(2):
        return int(d.rng.integers(-20, 20))
    fi = np.finfo(char)
    lo, hi = fi.minexp - MANT[char] + 1, fi.maxexp - 1 - int(BIG[char]).bit_length() - 12
    return int(d.rng.choice([lo + int(d.rng.integers(60)), hi, int(d.rng.integers(lo, hi))]))


def drive(d):
    import ufunclab as ul
    long.c19(d, ul)
    for name in ("two", "special"):
        groups = {}
        for c in d.cases(name):
            groups.setdefault(len(c["x"]), []).append(c)
        for n, cs in sorted(groups.items()):
            if not d.thorough and len(cs) > 8000:
                cs = [cs[k] for k in d.rng.permutation(len(cs))[:8000]]
            for char in "fdg":
                s = place(d, char)
                sp = {NAN: np.nan, PINF: np.inf, NINF: -np.inf}
                term = {}

                def num(t):
                    t = tuple(t)
                    if t not in term:
                        term[t] = sp[t[0]] if t[0] in sp else nearest(char, t[0], t[1], s)
                    return term[t]
                X = np.array([[num(t) for t in c["x"]] for c in cs], dtype=char).reshape(len(cs), n)
                E = np.array([num(c["out"]) for c in cs], dtype=char)

                def check(mode, rows, res):
                    d.replayed += len(rows)
                    r = np.asarray(res[0])
                    ok = (r == E[rows]) | (np.isnan(r) & np.isnan(E[rows]))
                    for b in np.flatnonzero(~ok)[:1]:
                        d.violation("sum", dict(dtype=char, layout=mode, x=repr(X[rows[b]]), got=repr(r[b]),
                                                expected=repr(E[rows[b]])))
                run_modes(d, "kbnsum", ul.kbnsum, [X], [((), char)], check, singles=20)
            d.cover("replay " + name, len(cs))
        d.sample(cs[-1])
    longer(d, ul)
    small_errors(d, ul)


def longer(d, ul):
    """Long sequences: the parts of the result recovered exactly, judged by the trace specification."""
    for t in range(800 if d.thorough else 200):
        char = "fdg"[t % 3]
        n = int(d.rng.choice([1, 3, 8, 9, 20, 64, 100, 257]))
        hi = d.rng.integers(-3, 4, size=n)
        lo = d.rng.integers(-9, 10, size=n)
        which = d.rng.integers(2, size=n)
        x2 = [[int(h), 0] if w else [0, int(q)] for h, q, w in zip(hi, lo, which)]
        order = d.rng.integers(4)
        if order == 1:
            x2.sort()
        elif order == 2:
            x2.sort(reverse=True)
        H, L = sum(v[0] for v in x2), sum(v[1] for v in x2)
        if H:            # cancel the large parts so that the small ones show
            x2 += [[-1 if H > 0 else 1, 0]] * abs(H)
            x2 = [x2[k] for k in d.rng.permutation(len(x2))]
        s = place(d, char)
        x = np.array([nearest(char, a, b, s) for a, b in x2], dtype=char)
        if d.rng.integers(8) == 0:
            k = int(d.rng.integers(len(x)))
            x[k] = d.rng.choice([np.inf, -np.inf, np.nan])
            x2[k] = [NAN if np.isnan(x[k]) else PINF if x[k] > 0 else NINF, 0]
        px = Placed(x, d.rng)
        d.begin("kbnsum %s" % describe([px.view]))
        r = ul.kbnsum(px.view) if d.rng.integers(2) else ul.kbnsum(np.stack([px.view, px.view[::-1]], axis=1), axis=0)[
            int(d.rng.integers(2))]
        r = np.ldexp(np.longdouble(r), -s)
        out = [NAN, 0] if r != r else [PINF if r > 0 else NINF, 0] if np.isinf(r) else \
            [0, int(r)] if abs(r) < 2 ** 29 and r == int(r) else [1, 1]
        d.emit("kbn", dict(k="sum", x=x2, out=out, type=char, r=repr(r)))


def small_errors(d, ul):
    """Random data: within a few units of the exact sum of the values, however ill conditioned."""
    for t in range(300 if d.thorough else 100):
        for char in "fd":
            n = int(d.rng.integers(2, 60))
            x = (d.rng.standard_normal(n) * 10.0 ** d.rng.integers(-3, 7, size=n)).astype(char)
            x = np.concatenate([x, -x[d.rng.permutation(n)[:n // 2]]])[d.rng.permutation(n + n // 2)]
            fi = np.finfo(char)
            x = np.ldexp(x, int(d.rng.choice([0, fi.maxexp - 40, fi.minexp + 4])))
            exact = sum((Fraction(float(v)) for v in x), Fraction(0))
            d.begin("kbnsum %s" % describe([x]))
            r = ul.kbnsum(x)
            eps = Fraction(float(fi.eps))
            tot = sum((abs(Fraction(float(v))) for v in x), Fraction(0))
            err = abs(Fraction(float(r)) - exact)
            tol = 2 * eps * abs(exact) + 8 * n * n * eps * eps * tot
            d.emit("kbn", dict(k="near", clause="accuracy", got=0 if err <= tol else 1, want=0, type=char, n=n,
                               x=repr(x.tolist()) if err > tol else "", err=repr(float(err)), tol=repr(float(tol))))
    for char in "fdg":
        d.begin("kbnsum empty")
        for s in ((0,), (3, 0)):
            r = ul.kbnsum(np.zeros(s, dtype=char))
            d.expect(np.shape(r) == s[:-1] and np.all(r == 0), "empty", lambda: repr(r))
