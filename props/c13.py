"""C13: linear_interp1d."""
from fractions import Fraction

import numpy as np

from vf.conc import as_ints, intern, ladder
from vf.guard import guarded
from vf.layouts import describe, run_modes

ASSUMPTIONS = [
    "xp is strictly increasing and without NaN.",
    "The differences of neighbouring elements of xp and of fp do not overflow.",
    "Values between grid points are compared within rounding of the type, at grid points exactly.",
]
NAN = 2000000001


def models(tier, seed):
    big = tier == "thorough"
    return [dict(name="interp", module="InterpLoop",
                 cfg="CONSTANTS Grid = {%s} MaxN = %d Batch = %d FpSel <- Fp3\nSPECIFICATION Spec\n"
                     "INVARIANTS Bracket Right Clamped Emitted\nPROPERTY Shrinks\n"
                     % ("0,1,3,4,7" if big else "0,1,3,4", 5 if big else 4, 2))]


def traces(tier):
    return [dict(stream="interp", module="Interp", failures="InterpFailures")]


def close(y, e, scale, char):
    tol = (3e-6 if char == "f" else 1e-13) * scale
    with np.errstate(all="ignore"):
        return (np.abs(y - e) <= tol) | (np.isnan(y) & np.isnan(e))


def drive(d):
    import ufunclab as ul
    g = {}
    for c in d.cases("interp"):
        g.setdefault((len(c["xp"]), len(c["x"])), []).append(c)
    for (n, nb), cs in sorted(g.items()):
        if not d.thorough and len(cs) > 4000:
            cs = [cs[k] for k in d.rng.permutation(len(cs))[:4000]]
        for char in "ffdd":
            batches(d, ul, char, n, nb, cs)
        d.sample(dict(case=cs[-1]))
    record(d, ul)


def report(d, clause, char, mode, x, xp, fp, got, exp):
    d.violation(clause, dict(call="linear_interp1d", dtype=char, layout=mode, x=repr(x), xp=repr(xp), fp=repr(fp),
                             got=repr(got), expected=repr(exp)))


def batches(d, ul, char, n, nb, cs):
    s, f = 2.0 ** int(d.rng.integers(-12, 12)), 2.0 ** int(d.rng.integers(-12, 12))
    if d.rng.integers(2):       # anywhere in the range of the type, with the grid exact and no difference that overflows
        lo, hi = (-145, 118) if char == "f" else (-1070, 1010)
        s, f = 2.0 ** int(d.rng.integers(lo, hi)), 2.0 ** int(d.rng.integers(lo + 50, hi))
        if d.rng.integers(2):   # a slope that no type holds
            s, f = 2.0 ** (lo + int(d.rng.integers(9))), 2.0 ** (hi - int(d.rng.integers(9)))
    off = int(d.rng.integers(-3, 4)) * 4 * s
    XP = (np.array([c["xp"] for c in cs], dtype=float).reshape(len(cs), n) * s + off).astype(char)
    FP = (np.array([c["fp"] for c in cs], dtype=float).reshape(len(cs), n) * f).astype(char)
    x = np.array([c["x"] for c in cs], dtype=float)
    x[x > 1e9] = np.nan
    X = (x * s + off).astype(char)
    num = np.array([c["num"] for c in cs], dtype=float)
    num[num > 1e9] = np.nan
    E = num * f / np.array([c["den"] for c in cs], dtype=float)
    at = (X[:, :, None] == XP[:, None, :]).any(axis=2) if n else np.zeros(X.shape, bool)
    scale = 40 * f

    def judge(mode, rows, cols, y):
        d.replayed += y.size
        e = E[rows][:, cols] if cols is not None else E[rows]
        if y.shape != e.shape:
            d.violation("linear_interp1d-shape", dict(got=y.shape, expected=e.shape))
            return
        a = at[rows][:, cols] if cols is not None else at[rows]
        ok = close(y, e, scale, char) & (~a | (y == e))
        for k in np.argwhere(~ok)[:1]:
            r = rows[k[0]]
            report(d, "linear_interp1d", char, mode, X[r], XP[r], FP[r], y[k[0]], E[r])

    # each row its own grid and one query
    def check(mode, rows, res):
        judge(mode, rows, [0], res[0].reshape(len(rows), 1))
    run_modes(d, "linear_interp1d", ul.linear_interp1d, [X[:, 0], XP, FP], [((), char)], check)
    # every query of a row in the order of the case, shared grid
    d.begin("linear_interp1d batch n=%d" % n)
    judge("shared grid", np.arange(len(cs)), None, ul.linear_interp1d(X, XP[:, None, :], FP[:, None, :]))
    for k in d.rng.permutation(len(cs))[:60]:
        # all queries on one grid: values from several fp at once (x and xp shared: the special path)
        fps = np.stack([FP[k], FP[k] * 2, -FP[k], np.zeros(n, dtype=char)])
        w = np.array([1, 2, -1, 0])
        for j in range(nb):
            a, b, c = guarded([X[k, j], XP[k], fps], d.rng)
            if d.rng.integers(2):
                big = np.full((n, 4, 2), 77, dtype=char)
                big[:, :, 1] = fps.T
                c = big[:, :, 1].T
            d.begin("linear_interp1d shared x and xp: %s" % describe([a, b, c]))
            y = ul.linear_interp1d(a, b, c)
            judge_special(d, char, X[k, j], XP[k], fps, y, E[k, j] * w, at[k, j], scale)
            out = np.full(9, 5, dtype=char)
            d.begin("linear_interp1d shared x and xp, out=: %s" % describe([a, b, c]))
            ul.linear_interp1d(a, b, c, out=out[1::2])
            judge_special(d, char, X[k, j], XP[k], fps, out[1::2], E[k, j] * w, at[k, j], scale)
            d.expect((out[::2] == 5).all(), "write-outside-output", lambda: dict(args=describe([a, b, c])))
    d.cover("replay", len(cs))
    # a grid that broadcasts against x and fp
    k = int(d.rng.integers(len(cs)))
    fps = np.stack([FP[k], FP[k] * 2, -FP[k]])
    y = ul.linear_interp1d(X[k], XP[k], fps[:, None, :])
    for i, w in enumerate((1, 2, -1)):
        for j in range(nb):
            if not close(y[i, j], E[k, j] * w, 2 * scale, char):
                report(d, "linear_interp1d", char, "broadcast", X[k, j], XP[k], fps[i], y[i, j], E[k, j] * w)


def judge_special(d, char, x, xp, fps, y, e, at, scale):
    d.replayed += 4
    if y.shape != e.shape:
        d.violation("linear_interp1d-shape", dict(got=y.shape, expected=e.shape))
        return
    ok = close(y, e, 2 * scale, char) & (~at | (y == e))
    if not ok.all():
        report(d, "linear_interp1d", char, "shared x and xp", x, xp, fps, y, e)


def chord(x, x0, x1, f0, f1):
    x, x0, x1, f0, f1 = (Fraction(float(v)) for v in (x, x0, x1, f0, f1))
    return float(f0 + (f1 - f0) * (x - x0) / (x1 - x0))


def record(d, ul):
    lens = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 256, 300]
    for char in "fd":
        for n in lens * (4 if d.thorough else 2):
            # integer data: the values at integer queries are integers
            gaps = d.rng.choice([1, 2, 4, 8], size=max(n - 1, 0))
            xp = np.concatenate([[int(d.rng.integers(-20, 20))], gaps]).cumsum()[:n]
            fp = d.rng.integers(-40, 41, size=n) * 8
            lo, hi = (int(xp[0]), int(xp[-1])) if n else (0, 0)
            x = d.rng.integers(lo - 3, hi + 4, size=40)
            x = np.concatenate([x, d.rng.choice(xp, 8) if n else [0], [lo, hi, lo - 1, hi + 1]]).astype(float)
            x[d.rng.integers(0, len(x), size=2)] = np.nan
            x = x[d.rng.permutation(len(x))]
            if d.rng.integers(2):
                x = np.sort(x)[::int(d.rng.choice([-1, 1]))]
            a, b, c = guarded([x.astype(char), xp.astype(char), fp.astype(char)], d.rng)
            if d.rng.integers(3) == 0:
                b = b[::-1].copy()[::-1]
                c = np.stack([c, c * 0 + 1e9], 1)[:, 0]
            d.begin("linear_interp1d %s n=%d %s" % (char, n, describe([a, b, c])))
            y = ul.linear_interp1d(a, b, c)
            d.emit("interp", dict(fn="exact", dtype=char, x=[NAN if v != v else int(v) for v in x],
                                  xp=[int(v) for v in xp], fp=[int(v) for v in fp], y=as_ints(y)))
            # one query against many fp (the special path) must be the same function
            if n:
                q = float(d.rng.choice(x))
                fps = d.rng.integers(-40, 41, size=(int(d.rng.integers(1, 5)), n)) * 8
                d.begin("linear_interp1d special n=%d x=%r" % (n, q))
                y = ul.linear_interp1d(np.array(q, dtype=char), xp.astype(char), fps.astype(char))
                for r, v in zip(fps, y):
                    d.emit("interp", dict(fn="exact", dtype=char, x=[NAN if q != q else int(q)],
                                          xp=[int(w) for w in xp], fp=[int(w) for w in r], y=as_ints(v)))
            # arbitrary values, judged through ranks
            if n > 65:
                continue
            lad = ladder(char, n + 6, int(d.rng.choice([1, 2, 3])), d.rng)
            pick = np.sort(d.rng.permutation(n + 6)[:n])
            xp = lad[pick]
            fp = (d.rng.standard_normal(n) * 10.0 ** int(d.rng.integers(-3, 4))).astype(char)
            inf = float(np.inf)
            xs = np.concatenate([lad, (lad[1:] + lad[:-1]) / 2, [np.nan, inf, -inf]]).astype(char)
            xs = xs[d.rng.permutation(len(xs))][:12]
            special = n > 2 and d.rng.integers(4) == 0
            if special:       # a grid value that is not finite is returned as it is
                fp[d.rng.integers(n)] = [inf, -inf, np.nan][int(d.rng.integers(3))]
            d.begin("linear_interp1d ranks %s" % describe([xs, xp, fp]))
            ys = ul.linear_interp1d(xs, xp, fp)
            ys2 = [ul.linear_interp1d(v, xp, fp[None])[0] for v in xs]
            xr, xpr = intern(np.where(np.isnan(xs), 0, xs), xp)
            mag = np.abs(fp[np.isfinite(fp)]).max(initial=1e-300)
            for y0 in (ys, ys2):
                for v, r, y in zip(xs, xr, y0):
                    at = [bool(y == w or (y != y and w != w)) for w in fp]
                    on = []
                    for i in range(n - 1):
                        fin = np.isfinite([fp[i], fp[i + 1], v]).all()
                        if not fin:
                            on.append(True if np.isfinite(v) else False)
                        else:
                            # rounding of the slope is amplified by the length of the segment
                            on.append(bool(close(y, chord(v, xp[i], xp[i + 1], fp[i], fp[i + 1]), 8 * mag, char)))
                    d.emit("interp", dict(fn="ranks", dtype=char, x=NAN if v != v else int(r), xp=xpr.tolist(),
                                          at=at, on=on, isnan=bool(y != y)))
