"""C12: unwrap and fillnan1d."""
import numpy as np

from vf import long
from vf.conc import as_ints, intern, ladder, scale
from vf.layouts import run_modes

ASSUMPTIONS = [
    "unwrap: the period is positive, data and period are integers times a power of two and exact in "
    "the type and have differences that do not overflow; at exactly half a period either neighbour is accepted.",
    "fillnan1d: interpolated values are compared within rounding; between exact integers exactly.",
]
NAN, PINF, NINF = 2000000001, 2000000000, -2000000000


def models(tier, seed):
    big = tier == "thorough"
    return [dict(name="unwrap", module="UnwrapLoop",
                 cfg="CONSTANTS Xs = {%s} Halves = {%s} MaxLen = %d\nSPECIFICATION Spec\n"
                     "INVARIANTS WholePeriods SmallSteps Congruent Emitted\n"
                     % ("0,5,8,9,10,11,13,16" if big else "0,8,9,11,13,18", "1,2,3,7" if big else "2,3", 4)),
            dict(name="fill", module="FillLoop",
                 cfg="CONSTANTS Values = {0,2,3,7} MaxLen = %d\nSPECIFICATION Spec\n"
                     "INVARIANTS FillsAll Emitted\nPROPERTY Stable\n" % (7 if big else 6))] + [long.laws(tier)]


def traces(tier):
    return [dict(stream="signals", module="Signals", failures="SignalFailures"), long.TRACE]


def drive(d):
    import ufunclab as ul
    long.c12(d, ul)
    unwrap_cases(d, ul)
    fill_cases(d, ul)
    record(d, ul)


def decode(rows, s, char):
    a = np.array(rows, dtype=float)
    out = np.array([[float(v) if abs(v) < 10 ** 9 else np.nan if v == NAN else np.inf if v > 0 else -np.inf
                     for v in r] for r in rows], dtype=float).reshape(a.shape)
    return (out * s).astype(char)


def unwrap_cases(d, ul):
    allowed = {}
    for c in d.cases("unwrap"):
        allowed.setdefault((tuple(c["x"]), c["half"]), []).append(c["y"])
    g = {}
    for (x, half), ys in allowed.items():
        g.setdefault(len(x), []).append((x, half, ys))
    for n, cs in sorted(g.items()):
        if not d.thorough and len(cs) > 4000:
            cs = [cs[k] for k in d.rng.permutation(len(cs))[:4000]]
        for char in "fdg":
            s = scale(d.rng, char, 8, -16)
            X = decode([c[0] for c in cs], s, char).reshape(len(cs), n)
            P = np.array([2 * c[1] * s for c in cs], dtype=char)
            alts = max(len(c[2]) for c in cs)
            Y = [decode([c[2][min(k, len(c[2]) - 1)] for c in cs], s, char).reshape(len(cs), n)
                 for k in range(alts)]

            def check(mode, rows, res):
                d.replayed += len(rows)
                r = res[0]
                ok = np.zeros(len(rows), dtype=bool)
                for y in Y:
                    e = y[rows]
                    ok |= ((r == e) | (np.isnan(r) & np.isnan(e))).all(axis=1)
                for k in np.flatnonzero(~ok)[:1]:
                    d.violation("unwrap", dict(call="unwrap", dtype=char, layout=mode, x=repr(X[rows[k]]),
                                               period=repr(P[rows[k]]), got=repr(r[k]),
                                               allowed=[repr(y[rows[k]]) for y in Y]))
            run_modes(d, "unwrap", ul.unwrap, [X, P], [((n,), char)], check)
            d.cover("replay unwrap", len(cs))
    d.sample(dict(fn="unwrap", x=cs[-1][0], half=cs[-1][1], allowed=cs[-1][2]))


def fill_cases(d, ul):
    g = {}
    for c in d.cases("fill"):
        g.setdefault(len(c["x"]), []).append(c)
    for n, cs in sorted(g.items()):
        if not d.thorough and len(cs) > 4000:
            cs = [cs[k] for k in d.rng.permutation(len(cs))[:4000]]
        num = np.array([c["num"] for c in cs], dtype=float).reshape(len(cs), n)
        den = np.array([c["den"] for c in cs], dtype=float).reshape(len(cs), n)
        num[num > 1e9] = np.nan
        for char in "fdg":
            s = scale(d.rng, char, 30, 64)
            X = decode([c["x"] for c in cs], s, char).reshape(len(cs), n)
            E = num * s / den
            keep = ~np.isnan(X)

            def check(mode, rows, res):
                d.replayed += len(rows)
                r, e = res[0], E[rows]
                tol = 3e-7 if char == "f" else 1e-15 if char == "d" else 1e-15
                with np.errstate(all="ignore"):
                    ok = (np.abs(r - e) <= tol * np.abs(s) * 8) | (np.isnan(r) & np.isnan(e))
                ok &= ~keep[rows] | (r == X[rows])
                for k in np.flatnonzero(~ok.all(axis=1))[:1]:
                    d.violation("fillnan1d", dict(call="fillnan1d", dtype=char, layout=mode, x=repr(X[rows[k]]),
                                                  got=repr(r[k]), expected=repr(e[k])))
            run_modes(d, "fillnan1d", ul.fillnan1d, [X], [((n,), char)], check)
            d.cover("replay fillnan1d", len(cs))
            inplace = X.copy()
            d.begin("fillnan1d in place n=%d" % n)
            ul.fillnan1d(inplace, out=inplace)
            check("in place", np.arange(len(cs)), [inplace])
    d.sample(dict(fn="fillnan1d", case=cs[-1]))


def code(a, s):
    return as_ints(np.asarray(a), 1 / np.longdouble(s))


def record(d, ul):
    lens = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 128, 129, 257, 500]
    for char in "fdg":
        t = np.dtype(char).type
        for n in lens * (5 if d.thorough else 2):
            half = int(d.rng.choice([1, 2, 3, 5, 180, 1000]))
            style = int(d.rng.integers(4))
            if style == 0:
                x = d.rng.integers(-8 * half, 8 * half + 1, size=n)
            elif style == 1:                       # a ramp, wrapped
                x = np.arange(n) * int(d.rng.integers(0, half + 1)) % (2 * half) - half
            elif style == 2:                       # jumps of many periods
                x = d.rng.integers(-3, 4, size=n) + 2 * half * d.rng.integers(-50, 51, size=n)
            else:                                  # random walk with steps up to half a period, wrapped
                x = np.cumsum(d.rng.integers(-half, half + 1, size=n)) % (2 * half)
            s = scale(d.rng, char, 6, 0, 40)
            X = (x * s).astype(char)
            xi = [int(v) for v in x]
            if n and d.rng.integers(3) == 0:
                k = int(d.rng.integers(n))
                v, c = [(np.nan, NAN), (np.inf, PINF), (-np.inf, NINF)][int(d.rng.integers(3))]
                X[k], xi[k] = v, c
            d.begin("unwrap %s x=%r period=%r" % (char, X[:60], 2 * half * s))
            y = ul.unwrap(X, t(2 * half * s))
            d.emit("signals", dict(fn="unwrap", dtype=char, x=xi, half=half, y=code(y, s)))
            # jumps of very many periods: only the remainders matter
            p = 2 ** int(d.rng.integers(1, 5))
            top = {"f": 22, "d": 51, "g": 61}[char] - 6
            rem = d.rng.integers(-2 * p, 2 * p, size=n)
            turns = [0] + [int(d.rng.integers(-2 ** b, 2 ** b)) for b in d.rng.integers(1, top, size=max(n - 1, 0))]
            X = np.array([t(int(r)) + t(k) * t(p) for r, k in zip(rem, turns)], dtype=char).reshape(n)
            s = t(scale(d.rng, char, 6, 0, 100))
            d.begin("unwrap %s x=%r period=%r" % (char, X[:60], p * s))
            y = ul.unwrap(X * s, t(p) * s)
            d.emit("signals", dict(fn="unwrap", dtype=char, x=[int(v) for v in rem], half=p // 2, y=code(y, s)))
            # fillnan1d: gaps whose slope is an integer
            y = [int(d.rng.integers(-50, 51))] if n else []
            while len(y) < n:
                g = int(d.rng.choice([1, 1, 1, 2, 3, 4, 5, 9, 30]))
                y += [NAN] * (g - 1) + [max(-10 ** 5, min(10 ** 5, [v for v in y if v != NAN][-1]
                                                           + g * int(d.rng.integers(-9, 10))))]
            y = y[:n]
            v = [q for q in y]
            for _ in range(2):                     # gaps at the ends
                if n and d.rng.integers(2):
                    k = int(d.rng.integers(0, min(n, 6)))
                    for j in range(k):
                        v[j if _ else n - 1 - j] = NAN
            # interpolated values must be exact integers: keep only such gaps
            idx = [i for i, q in enumerate(v) if q != NAN]
            for a, b in zip(idx, idx[1:]):
                if (v[b] - v[a]) % (b - a):
                    for j in range(a + 1, b):
                        v[j] = v[a]
            X = np.array([np.nan if q == NAN else q * s for q in v], dtype=char).reshape(n)
            if d.rng.integers(2):
                b = np.full((n, 3), np.nan, dtype=char)
                b[:, 1] = X[::-1]
                X = b[::-1, 1]
            d.begin("fillnan1d %s x=%r" % (char, X[:60]))
            r = ul.fillnan1d(X)
            d.emit("signals", dict(fn="fillnan1d", dtype=char, x=v, y=code(r, s)))
            # arbitrary values, including the extremes of the type: kept, and between neighbours
            lad = ladder(char, 8, int(d.rng.integers(5)), d.rng)
            if char == "g":
                lad = np.array([q for q in lad if abs(q) < np.finfo("g").max / 4] or [t(0)], dtype="g")
            q = lad[d.rng.integers(0, len(lad), size=n)]
            gaps = d.rng.random(n) < d.rng.choice([0.1, 0.5, 0.9])
            X = np.where(gaps, t(np.nan), q).astype(char)
            d.begin("fillnan1d %s x=%r" % (char, X[:60]))
            r = ul.fillnan1d(X)
            if r.shape != X.shape:
                d.violation("fillnan1d-shape", dict(got=r.shape))
                continue
            ok = ~np.isnan(r)
            rx, rr = intern(np.where(gaps, lad[0], X), np.where(ok, r, lad[0]))
            rx = [NAN if g else int(w) for g, w in zip(gaps, rx)]
            rr = [NAN if not o else int(w) for o, w in zip(ok, rr)]
            d.emit("signals", dict(fn="fill-keep", dtype=char, x=rx, y=rr))
            if np.isfinite(q).all() and not gaps.all():
                # a filled value within rounding of a neighbour counts as equal to it
                known = np.flatnonzero(~gaps)
                lo = np.searchsorted(known, np.arange(n), side="right") - 1
                a = X[known[np.maximum(lo, 0)]]
                b = X[known[np.minimum(lo + 1, len(known) - 1)]]
                r2 = np.where(ok, r, lad[0])
                tol = 16 * np.finfo(char).eps * np.maximum(np.abs(a), np.abs(b))
                for e in (a, b):
                    r2 = np.where(gaps & (np.abs(r2 - e) <= tol), e, r2)
                rx, rr = intern(np.where(gaps, lad[0], X), r2)
                rx = [NAN if g else int(w) for g, w in zip(gaps, rx)]
                rr = [NAN if not o else int(w) for o, w in zip(ok, rr)]
                d.emit("signals", dict(fn="fill-range", dtype=char, x=rx, y=rr))
