"""C24: limits, direction, continuity and identities of the smooth special functions."""
from fractions import Fraction

import numpy as np

from vf.layouts import run_modes

LD = np.longdouble
CLIP = 10 ** 9
ASSUMPTIONS = [
    "TLC has no real numbers: values are handed to the specification in units in the last place, "
    "and both sides of an identity are evaluated in extended precision by the driver.",
    "Slacks are 8 to 64 units in the last place, times the condition of the formula the function is defined by.",
    "Values where the definition is an indeterminate form (swish at -inf, pow1pm1 with y = 0 at inf) are outside the property.",
]
INVS = "INVARIANTS Ordered OnePiece Changes JoinServed Special Directed Emitted\n"


def models(tier, seed):
    mon = ("CONSTANTS Slopes = {0,1,3} Curv = {0,1} Jumps = {0,%s} N = %d E = %d Use = %d\nSPECIFICATION Spec\n"
           "INVARIANTS Sound Complete Direction Reverse\n")
    n = 8 if tier == "thorough" else 6
    return [dict(name="walk", module="CurveWalk", cfg="CONSTANTS Skip = FALSE\nSPECIFICATION Spec\n" + INVS),
            dict(name="gap", module="CurveWalk", cfg="CONSTANTS Skip = TRUE\nSPECIFICATION Spec\n" + INVS, refutes=True),
            dict(name="monitor", module="CurveMonitor", cfg=mon % ("18,20", n, 1, 2), emits=False),
            dict(name="tight", module="CurveMonitor", cfg=mon % ("18,20", 6, 2, 1), emits=False, refutes=True)]


def traces(tier):
    return [dict(stream="curves", module="Curves", failures="CurveFailures")]


def fun(ul, fn):
    if fn in ("cdf", "sf", "logcdf", "logsf"):
        return getattr(ul.normal, fn)
    if fn == "exponential":
        return ul.semivar.exponential
    return getattr(ul, fn)


PAR2 = ("swish", "hyperbolic_ramp", "exponential_ramp", "pow1pm1", "yeo_johnson", "inv_yeo_johnson")
RAMPS = ("hyperbolic_ramp", "exponential_ramp")
SEMI = (0.25, 2.0, 3.0)      # nugget, sill, range


class Fn:
    """A function with its shape parameter bound, as the specification sees it."""

    def __init__(self, ul, fn, p, first):
        self.fn, self.p, self.ul = fn, p, fun(ul, fn)
        self.par = float(Fraction(*p))
        self.lo = self.edge(first["lo"])
        self.hi = self.edge(first["hi"])
        self.turns = [[float(Fraction(*b)) for b in t["at"]] for t in first["turns"]]
        self.at = first["at"] or {}
        self.joins = []
        t = [t[0] for t in self.ul.types]
        self.types = [c for c in "fdg" if c in t] if fn != "logfactorial" else ["l", "i"]

    def edge(self, q):
        return q[0] * np.inf if q[1] == 0 else q[0] / q[1]

    def scale(self):          # points of the ramps are in units of a
        return self.par if self.fn in RAMPS and self.par > 0 else 1.0

    def call(self, x, char):
        x = np.asarray(x, dtype=char)
        if self.fn in PAR2:
            r = self.ul(x, np.dtype(char).type(LD(self.p[0]) / self.p[1]))
        elif self.fn == "exponential":
            r = self.ul(x, *[np.dtype(char).type(v) for v in SEMI])
        else:
            r = self.ul(x)
        return np.asarray(r)

    def parval(self, char):
        return LD(np.dtype(char).type(LD(self.p[0]) / self.p[1]))

    def cond(self, x):
        """How much the formula of the definition magnifies the rounding of its arguments."""
        x = np.abs(np.asarray(x, dtype=LD))
        p = abs(self.par)
        one = np.ones_like(x)
        if self.fn == "swish":
            return one + p * x
        if self.fn == "exponential_ramp":
            return one + (x / p if p else 0)
        if self.fn in ("cdf", "sf", "erfcx", "logcdf", "logsf"):
            return one + x * x
        if self.fn == "pow1pm1":
            return one + p * np.abs(np.log1p(np.asarray(x, dtype=LD))) + p * 40 * (x > 0.9)
        if self.fn == "yeo_johnson":
            return one + (p + 2) * np.log1p(x)
        if self.fn == "inv_yeo_johnson":
            return one + self.inv_cond(x)
        return one

    def inv_cond(self, x):
        out = np.zeros_like(x)
        for lam in (self.par, 2 - self.par):
            if lam:
                u = np.maximum(1 - abs(lam) * x, LD(1e-300)) if lam < 0 else 1 + lam * x
                out = np.maximum(out, np.abs(np.log(u) / lam) + x / u)
            else:
                out = np.maximum(out, x)
        return out


def load(d, ul):
    fs = {}
    first = [c for c in d.cases("walk")]
    for c in first:
        if c["i"] == 0:
            fs[c["fn"], tuple(c["p"])] = Fn(ul, c["fn"], c["p"], c)
    for c in first:
        if c["i"] > 0:
            fs[c["fn"], tuple(c["p"])].joins.append((c["i"], Fraction(*c["join"])))
    for f in fs.values():
        f.joins = [q for _, q in sorted(f.joins)]
    return fs


def drive(d):
    import ufunclab as ul
    import ufunclab.semivar  # noqa: F401
    fs = load(d, ul)
    for f in fs.values():
        special(d, f)
    for f in fs.values():
        if f.fn != "logfactorial" and not (f.fn in RAMPS and f.par == 0):      # integers; a corner
            walks(d, f)
        runs(d, f)
    d.cover("functions with parameters", len(fs))
    identities(d, ul, fs)
    with np.errstate(all="ignore"):
        for char in "fdg":
            extremes(d, ul, fs, char)
    sequences(d, ul)
    layouts(d, ul, fs)


def classes(f, v, x, char):
    """The classes of the specification to which the value v belongs."""
    out = {"any"}
    v = LD(v)
    e = float(np.finfo(char).eps) * 8

    def near(t):
        t = LD(t)
        return abs(v - t) <= e * abs(t)
    if v != v:
        return {"any", "nan"}
    for name, t in (("0", 0), ("1", 1), ("1/2", 0.5), ("1/4", 0.25), ("-1", -1), ("-log 2", -np.log(LD(2))),
                    ("par", f.parval(char)), ("nugget", SEMI[0]), ("sill", SEMI[1])):
        if v == LD(t) if t == 0 else near(t):
            out.add(name)
    if np.isinf(v):
        out.add("+inf" if v > 0 else "-inf")
    lam = f.parval(char)
    if f.fn == "yeo_johnson" and (lam < 0 or lam > 2):
        if near(-1 / lam if lam < 0 else 1 / (2 - lam)):
            out.add("limit")
    return out


def special(d, f):
    for char in f.types:
        if f.fn == "logfactorial":
            pts = {"below": [-1, -2, np.iinfo(np.dtype(char)).min], "zero": [0, 1]}
        else:
            tiny = np.finfo(char).tiny
            lo, hi = f.lo, f.hi
            sub = np.nextafter(np.dtype(char).type(0), np.dtype(char).type(1))
            pts = {"nan": [np.nan, -np.nan], "zero": [0.0], "-zero": [-0.0], "+inf": [np.inf], "-inf": [-np.inf],
                   "below": [-np.inf, lo - abs(lo) * 1e-3 - 1e-30, lo - 1, lo * 3 - 5] + ([-sub, -tiny] if lo == 0 else []),
                   "above": [np.inf, hi * 1.001, hi + 1], "low edge": [lo], "high edge": [hi]}
            if f.fn == "loggamma1p":
                pts["zero"] = [0.0, 1.0]
        for at, want in f.at.items():
            for x in pts.get(at, []):
                if f.fn == "inv_yeo_johnson" and at in ("low edge", "high edge") and abs(f.par) not in (0.5, 1, 2, 2.5, 4):
                    continue
                d.begin("%s(%r; %r) %s" % (f.fn, x, f.p, char))
                got = f.call([x], char)[0]
                d.replayed += 1
                have = classes(f, got, x, "d" if f.fn == "logfactorial" else char)
                d.expect(have & set(want), f.fn + "-value", lambda: dict(
                    fn=f.fn, parameter=f.p, x=repr(x), at=at, dtype=char, got=repr(got), allowed=want))
        # NaN parameter
        if f.fn in PAR2 and f.fn != "swish":
            r = f.ul(np.array([0.5, -0.5], dtype=char), np.dtype(char).type(np.nan))
            d.expect(np.isnan(r).all(), f.fn + "-nan-parameter", lambda: repr(r))
        if f.fn in RAMPS:
            r = f.ul(np.array([-1, 0, 2.5], dtype=char), np.dtype(char).type(-0.5))
            d.expect(np.isnan(r).all(), f.fn + "-negative-parameter", lambda: repr(r))
    d.sample(dict(fn=f.fn, p=f.p, at=f.at), 2)


def bounds(f, char):
    """The part of the domain where values and their neighbours are finite and normal."""
    big = dict(f=80.0, d=600.0, g=10000.0).get(char, 0)
    tail = dict(f=8.0, d=35.0, g=140.0).get(char, 0)
    lo, hi = -1e6, 1e6
    if f.fn in ("logistic", "logistic_deriv", "log_logistic"):
        lo, hi = -big, big if f.fn != "logistic" else 1e6
        if f.fn == "log_logistic":
            lo = -1e6
    elif f.fn == "swish":
        lo, hi = (-big / 4, 1e6) if f.par > 0 else (-1e6, big / 4) if f.par < 0 else (-1e6, 1e6)
    elif f.fn == "exponential_ramp":
        lo, hi = -big * f.scale(), 1e6
    elif f.fn == "expint1":
        lo, hi = 0, big
    elif f.fn == "logexpint1":
        lo, hi = 0, 1e6
    elif f.fn == "cdf":
        lo = -tail
    elif f.fn == "sf":
        hi = tail
    elif f.fn == "logcdf":
        hi = tail * 0.9
    elif f.fn == "logsf":
        lo = -tail * 0.9
    elif f.fn == "erfcx":
        lo = -dict(f=9.0, d=26.0, g=106.0)[char]
    elif f.fn == "loggamma1p":
        lo = -1
    elif f.fn == "exponential":
        lo = 0
    elif f.fn in ("yeo_johnson", "pow1pm1"):
        lo, hi = -1e4 if f.fn == "yeo_johnson" else -1, 1e4
    elif f.fn == "inv_yeo_johnson":
        lo, hi = max(f.lo, -1e3 if f.par != 2 else -20), min(f.hi, 1e3 if f.par != 0 else 20)
        if f.par > 2:
            lo *= 0.99
        if f.par < 0:
            hi *= 0.99
    return lo, hi


def spread(d, f, char, n):
    """Points of the domain: many magnitudes on both sides of every join, and uniform between them."""
    lo, hi = bounds(f, char)
    s = f.scale()
    u = d.rng.uniform(-12, 12, n) * s
    m = 2.0 ** d.rng.uniform(-30, 18, n) * d.rng.choice([-1, 1], n) * s
    x = np.concatenate([u, m, d.rng.uniform(lo, hi, n // 2) if hi - lo < 3e4 else d.rng.uniform(-900, 900, n // 2)])
    if np.isfinite(f.lo):       # magnitudes of the distance from the edge
        x = np.concatenate([x, f.lo + 2.0 ** d.rng.uniform(-12, 8, n)])
    if np.isfinite(f.hi):
        x = np.concatenate([x, f.hi - 2.0 ** d.rng.uniform(-12, 8, n)])
    x = x.astype(char)
    return x[(x > lo) & (x < hi)]


def walks(d, f):
    n = 160 if d.thorough else 40
    for char in f.types:
        fi = np.finfo(char)
        bits = fi.nmant
        lo, hi = bounds(f, char)
        c = [float(q) * f.scale() for q in f.joins] + [0.0]
        if f.fn == "erfcx":
            c += [5.0, 50.0, 100.0]
        if f.fn in ("logcdf", "logsf"):
            c += [-1.0, 1.0]
        if f.fn == "loggamma1p":
            c += [1.0, -0.999, -0.9]
        if f.fn in ("yeo_johnson", "pow1pm1", "inv_yeo_johnson"):
            c += [1.0, -1.0, 0.5]
        c = np.array(c, dtype=char)
        c = np.concatenate([c, spread(d, f, char, n)[:: 2]])
        c = c[(c > lo) & (c < hi)]
        h = np.where(c == 0, LD(2) ** -(bits + 8), np.abs(c.astype(LD)) * LD(2) ** -(bits // 2 + 1))
        h = LD(2) ** np.floor(np.log2(h)) * (1 if f.fn != "pow1pm1" else LD(0.125))
        k = np.arange(-8, 9)
        X0 = c.astype(LD)
        floor = 1.0 if f.fn in ("loggamma1p", "logexpint1") else 0.0     # zeros of the function
        limit = LD(2) ** (bits // 2 - 4)
        left = np.arange(len(c))
        for step in range(40):
            X = (X0[left, None] + k * h[left, None]).astype(char)
            d.begin("%s walk %r %s" % (f.fn, f.p, char))
            V = f.call(X, char).astype(LD)
            with np.errstate(all="ignore"):
                top = np.maximum(np.abs(V).max(axis=1), np.where(np.abs(X0[left]) > 0.1, floor, 0))
                unit = LD(fi.eps) * top * f.cond(X0[left])
                unit = np.where(unit > 0, unit, LD(fi.smallest_subnormal))
                W = (V - V[:, 8:9]) / unit[:, None]
                span = np.where(V[:, 8] == 0, 0, np.abs(W[:, [0, 16]]).max(axis=1))
                # bends do not change when a line is taken away
                W = np.rint(W - (k / LD(16)) * (W[:, 16:] - W[:, :1]))
            wide = (span > limit) & (h[left] > 4 * LD(fi.eps) * np.abs(X0[left])) & (step < 39)
            exact = (X.astype(LD) == X0[left, None] + k * h[left, None]).all(axis=1)
            for b in np.flatnonzero(~wide):
                if not exact[b] or X[b].min() <= f.lo or X[b].max() >= f.hi or span[b] > 4 * limit:
                    continue
                if not d.expect(np.isfinite(V[b]).all(), f.fn + "-finite", lambda: dict(
                        fn=f.fn, p=f.p, dtype=char, x=repr(X[b][~np.isfinite(V[b])][0]))):
                    continue
                w = np.clip(W[b], -CLIP // 4, CLIP // 4)
                d.emit("curves", dict(k="walk", fn=f.fn, p=f.p, type=char, x=repr(X0[left[b]]), h=repr(h[left[b]]),
                                      v=[int(t) for t in w]))
            left = left[wide]
            if not len(left):
                break
            h = h.copy()
            h[left] /= 2
        d.cover("walks " + f.fn, len(c))


def runs(d, f):
    n = 400 if d.thorough else 150
    for char in f.types:
        if f.fn == "logfactorial":
            x = np.unique(np.concatenate([np.arange(0, 300), np.rint(2.0 ** d.rng.uniform(0, 30 if char == "i" else 61, n))
                                          .astype(np.int64)])).astype(char)
            eps = np.finfo("d").eps
        else:
            lo, hi = bounds(f, char)
            x = spread(d, f, char, n)
            j = np.array([float(q) * f.scale() for q in f.joins] + [0.0], dtype=char)
            j = j[(j >= lo) & (j <= hi)]
            one = np.dtype(char).type(np.inf)
            near = [j]
            for _ in range(3):
                near = [np.nextafter(near[0], -one)] + near + [np.nextafter(near[-1], one)]
            x = np.unique(np.concatenate([x] + near))
            x = x[(x > lo) & (x < hi)]
            eps = np.finfo(char).eps
        cuts = [(-np.inf, f.turns[0][0]), (f.turns[0][1], np.inf)] if f.turns else [(-np.inf, np.inf)]
        for st, (a, b) in enumerate(cuts):
            y = x[(x >= a) & (x <= b)]
            d.begin("%s chain %r %s" % (f.fn, f.p, char))
            v = f.call(y, char).astype(LD)
            if not d.expect(np.isfinite(v).all(), f.fn + "-finite", lambda: dict(
                    fn=f.fn, p=f.p, dtype=char, x=repr(y[~np.isfinite(v)][0]), got=repr(v[~np.isfinite(v)][0]))):
                continue
            m = np.maximum(np.abs(v[1:]), np.abs(v[:-1]))
            if f.fn in ("loggamma1p", "logexpint1"):
                m = np.maximum(m, 1)
            m = np.maximum(m * f.cond(y[1:]), LD(np.finfo(char if f.fn != "logfactorial" else "d").tiny))
            s = np.clip(np.rint((v[1:] - v[:-1]) / (LD(eps) * m)), -CLIP, CLIP)
            for q in range(0, len(s), 64):
                d.emit("curves", dict(k="runs", fn=f.fn, p=f.p, type=char, stretch=st, x0=repr(y[q]), x1=repr(y[min(q + 64, len(y) - 1)]),
                                      s=[int(t) for t in s[q: q + 64]]))


# -- identities -------------------------------------------------------------------------------------------------------

def gauss(n):
    """Nodes and weights on [0, 1] in extended precision."""
    x = np.polynomial.legendre.leggauss(n)[0].astype(LD)
    for _ in range(4):
        p0, p1 = np.ones_like(x), x.copy()
        for k in range(2, n + 1):
            p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
        dp = n * (x * p1 - p0) / (x * x - 1)
        x = x - p1 / dp
    return (x + 1) / 2, 1 / ((1 - x * x) * dp * dp)


GX, GW = gauss(24)


def integral(g, a, h):
    t = a[:, None] + h[:, None] * GX
    return (g(t) * GW).sum(axis=1) * h


def real_part(x, y):
    """log|1 + x + iy|, from exact arithmetic."""
    out = []
    for a, b in zip(x, y):
        a, b = Fraction(float(a)), Fraction(float(b))
        q = a * a + 2 * a + b * b
        n = LD(q.numerator >> max(0, q.numerator.bit_length() - 900)) if abs(q.numerator).bit_length() <= 900 else None
        if n is None:
            sh = abs(q.numerator).bit_length() - 900
            n = LD(float(q.numerator // 2 ** sh)) * LD(2) ** sh if sh < 16000 else LD(0)
        t = ratio(q)
        out.append(np.log1p(t) / 2)
    return np.array(out, dtype=LD)


def ratio(q):
    """A fraction as the nearest extended number."""
    if q == 0:
        return LD(0)
    s = q.denominator.bit_length() - abs(q.numerator).bit_length() + 80
    n = int(q * Fraction(2) ** s)
    hi = n >> 40
    return (LD(hi) * LD(2) ** 40 + LD(n - (hi << 40))) * LD(2) ** -s


def emit(d, fn, ident, char, err, scale, x):
    eps = LD(np.finfo(char).eps)
    with np.errstate(all="ignore"):
        e = np.asarray(err, dtype=LD)
        s = np.asarray(scale, dtype=LD) * eps
        floor = LD(np.finfo(char).tiny)
        u = np.where(e == 0, LD(0), np.abs(e) / np.maximum(s, floor))
    u = np.where(np.isnan(u), LD(CLIP), np.minimum(np.ceil(u), CLIP))
    w = int(np.argmax(u))
    d.calls += u.size
    d.cover("identity " + fn + " " + ident, u.size)
    d.emit("curves", dict(k="identity", fn=fn, id=ident, type=char, ulps=int(u.flat[w]),
                          x=repr(np.asarray(x).reshape(u.shape[0], -1)[np.unravel_index(w, u.shape)[0]].tolist()) if u.size else ""))


def identities(d, ul, fs):
    n = 600 if d.thorough else 200
    for char in "fdg":
        d.begin("identities " + char)
        with np.errstate(all="ignore"):
            plain(d, ul, fs, char, n)
            for f in fs.values():
                if f.fn in PAR2:
                    param(d, ul, f, char, n)
    for char in "FD":
        d.begin("log1p " + char)
        complex_log(d, ul, char, n)


def get(d, fs, fn, char, n):
    f = fs[fn, (1, 1)]
    x = spread(d, f, char, n)
    return x, x.astype(LD), f


def plain(d, ul, fs, char, n):
    L = lambda f, x: np.asarray(f(np.asarray(x, dtype=char))).astype(LD)      # noqa: E731
    E = lambda fn, ident, err, scale, x: emit(d, fn, ident, char, err, scale, x)   # noqa: E731
    x, X, f = get(d, fs, "logistic", char, n)
    p, q = L(ul.logistic, x), L(ul.logistic, -x)
    E("logistic", "complement", p + q - 1, np.ones_like(p), x)
    m = np.abs(X) < 40
    E("logistic", "odds", (p - q * np.exp(X))[m], (p * (1 + np.abs(X) / 64))[m], x[m])
    dv = L(ul.logistic_deriv, x)
    E("logistic_deriv", "product", dv - p * q, p * q, x)
    E("logistic_deriv", "even", dv - L(ul.logistic_deriv, -x), dv, x)
    x, X, f = get(d, fs, "log_logistic", char, n)
    a, b = L(ul.log_logistic, x), L(ul.log_logistic, -x)
    E("log_logistic", "difference", a - b - X, np.maximum(np.abs(a), np.abs(b)), x)
    m = np.abs(X) < 40
    E("log_logistic", "exponential", (np.exp(a) - L(ul.logistic, x))[m], (L(ul.logistic, x) * (1 + np.abs(a)))[m], x[m])
    E("log_logistic", "tail", (np.expm1(a) + L(ul.logistic, -x))[m & (x > 0)], L(ul.logistic, -x)[m & (x > 0)], x[m & (x > 0)])

    x, X, f = get(d, fs, "expint1", char, n)
    y = (X + np.minimum(X / 4, 2)).astype(char)
    H = y.astype(LD) - X
    a, b = L(ul.expint1, x), L(ul.expint1, y)
    m = (y < bounds(f, char)[1])
    E("expint1", "integral", (a - b - integral(lambda t: np.exp(-t) / t, X, H))[m], (a * (1 + X * (char == "g")))[m], x[m])
    lo = np.exp(-X) * np.log1p(2 / X) / 2
    hi = np.exp(-X) * np.log1p(1 / X)
    E("expint1", "bounds", np.maximum(0, np.maximum(lo - a, a - hi))[m], a[m], x[m])
    x, X, f = get(d, fs, "logexpint1", char, n)
    lg = L(ul.logexpint1, x)
    m = (x < bounds(fs["expint1", (1, 1)], char)[1])
    E("logexpint1", "exponential", (np.exp(lg) - L(ul.expint1, x))[m], (L(ul.expint1, x) * (1 + np.abs(lg)))[m], x[m])
    # convergents of the continued fraction enclose exp(x)*E1(x) = 1/(x + 1/(1 + 1/(x + 2/(1 + ...))))
    m = x > 3
    e1, e2 = fraction(X[m], 80), fraction(X[m], 81)
    lo, hi = np.log(np.minimum(e1, e2)) - X[m], np.log(np.maximum(e1, e2)) - X[m]
    E("logexpint1", "bracket", np.maximum(0, np.maximum(lo - lg[m], lg[m] - hi)), np.abs(lg[m]) + X[m], x[m])

    if char != "g":
        x, X, f = get(d, fs, "debye1", char, n)
        a = L(ul.debye1, x)
        E("debye1", "reflection", L(ul.debye1, -x) - a - X / 2, np.maximum(np.abs(X), 1) * 1 + np.abs(a), x)
        m = x > 0
        xx, h = X[m], np.minimum(X[m] / 4, 1)
        y = (xx + h).astype(char)
        h = y.astype(LD) - xx
        g = integral(lambda t: t / np.expm1(t), xx, h)
        b = L(ul.debye1, y)
        E("debye1", "integral", y * b - xx * a[m] - g, y.astype(LD) * b, x[m])
        t = (2.0 ** d.rng.uniform(-60, -8, n)).astype(char)
        T = t.astype(LD)
        E("debye1", "origin", L(ul.debye1, t) - (1 - T / 4 + T * T / 36 - T ** 4 / 3600), np.ones_like(T), t)
        x, X, f = get(d, fs, "loggamma1p", char, n)
        a = L(ul.loggamma1p, x)
        y = (x + 1).astype(char)
        m = (y.astype(LD) == X + 1)
        b = L(ul.loggamma1p, y)
        s = np.maximum(1, np.maximum(np.abs(a), np.abs(b)))
        E("loggamma1p", "recurrence", (b - a - np.log1p(X))[m], s[m], x[m])
        # log G(z) + log G(z + 1/2) = (1 - 2z) log 2 + log(pi)/2 + log G(2z), z = 1 + x
        y, w = (x + np.dtype(char).type(0.5)), (2 * x + 1)
        m = (y.astype(LD) == X + LD(0.5)) & (w.astype(LD) == 2 * X + 1) & (x > -0.45)
        c = L(ul.loggamma1p, w)
        b = L(ul.loggamma1p, y)
        pi = np.arctan2(LD(0), LD(-1))
        r = a + b + (1 + 2 * X) * np.log(LD(2)) - np.log(pi) / 2 - c
        E("loggamma1p", "duplication", r[m], (np.maximum(np.abs(c), 1))[m], x[m])
        t = (2.0 ** d.rng.uniform(-60, -12, n) * d.rng.choice([-1, 1], n)).astype(char)
        T = t.astype(LD)
        gam = LD("0.57721566490153286060651209008240243")
        z3 = LD("1.2020569031595942853997381615114500")
        ser = T * (-gam + T * (pi * pi / 12 + T * (-z3 / 3 + T * pi ** 4 / 360)))
        E("loggamma1p", "origin", L(ul.loggamma1p, t) - ser, np.abs(ser), t)
        k = np.unique(np.concatenate([np.arange(2, 400), np.rint(2.0 ** d.rng.uniform(1, 22, n)).astype(int)]))
        E("loggamma1p", "integers", L(ul.loggamma1p, k.astype(char)) - ul.logfactorial(k).astype(LD), np.maximum(1, ul.logfactorial(k)), k)
    if char == "d":
        k = np.concatenate([np.arange(1, 2000), np.rint(2.0 ** d.rng.uniform(5, 61, n)).astype(np.int64)])
        a, b = ul.logfactorial(k).astype(LD), ul.logfactorial(k - 1).astype(LD)
        E("logfactorial", "recurrence", a - b - np.log(k.astype(LD)), np.maximum(a, 1) / 4, k)
        k = np.arange(1, 100000 if not d.thorough else 1000000)
        a = ul.logfactorial(k).astype(LD)
        E("logfactorial", "sum", a - np.cumsum(np.log(k.astype(LD))), np.maximum(a, 1) / 4, k)
        # the closed form: Robbins' bounds for large k
        k = np.rint(2.0 ** d.rng.uniform(17, 60, n)).astype(np.int64)
        K = k.astype(LD)
        a = ul.logfactorial(k).astype(LD)
        s = (K + LD(0.5)) * np.log(K) - K + np.log(2 * np.arctan2(LD(0), LD(-1))) / 2
        E("logfactorial", "sum", np.maximum(0, np.maximum(s + 1 / (12 * K + 1) - a, a - s - 1 / (12 * K))), a / 4, k)
        for t in "bhilBHIL":
            v = np.arange(0, 127, dtype=t)
            if t == "L":
                continue
            E("logfactorial", "types", ul.logfactorial(v).astype(LD) - ul.logfactorial(np.arange(127)), np.ones(127), v)

    normal = ul.normal
    x, X, f = get(d, fs, "cdf", char, n)
    c, s = L(normal.cdf, x), L(normal.sf, x)
    E("cdf", "complement", c + s - 1, np.ones_like(c), x)
    E("sf", "mirror", s - L(normal.cdf, -x), s, x)
    m = x < 0
    xx, h = X[m], -1 / (4 + np.abs(X[m])) + 0 * X[m]
    y = (xx + h).astype(char)
    h = xx - y.astype(LD)
    yy = y.astype(LD)
    m2 = y > -dict(f=8.0, d=35.0, g=140.0)[char]
    pdf = integral(lambda t: np.exp(-t * t / 2), yy, h) / np.sqrt(2 * np.arctan2(LD(0), LD(-1)))
    E("cdf", "integral", (c[m] - L(normal.cdf, y) - pdf)[m2], (c[m] * (1 + xx * xx))[m2], x[m][m2])
    x, X, f = get(d, fs, "logcdf", char, n)
    lc = L(normal.logcdf, x)
    m = (np.abs(x) < dict(f=8.0, d=35.0, g=140.0)[char])
    E("logcdf", "exponential", (np.exp(lc) - L(normal.cdf, x))[m], (L(normal.cdf, x) * (1 + X * X))[m], x[m])
    m &= x > -1
    E("logcdf", "tail", (np.expm1(lc) + L(normal.sf, x))[m], (L(normal.sf, x) * (1 + X * X))[m], x[m])
    m = x < -1
    t = X[m] / np.sqrt(LD(2))
    tt = (-t).astype(char)
    E("logcdf", "erfcx", lc[m] - (np.log(L(ul.erfcx, tt) / 2) - X[m] ** 2 / 2), np.abs(lc[m]) + 1, x[m])
    E("logsf", "mirror", L(normal.logsf, x) - L(normal.logcdf, -x), np.ones_like(X), x)

    x, X, f = get(d, fs, "erfcx", char, n)
    a = L(ul.erfcx, x)
    h = (1 / (1 + np.abs(X)))
    y = (X + h).astype(char)
    h = y.astype(LD) - X
    rhs = 2 / np.sqrt(np.arctan2(LD(0), LD(-1))) * integral(lambda t: np.exp(-(2 * X[:, None] + t) * t), 0 * X, h)
    b = L(ul.erfcx, y) * np.exp(-(2 * X + h) * h)
    E("erfcx", "integral", a - b - rhs, np.maximum(np.abs(a), np.maximum(np.abs(b), np.abs(rhs))) * (1 + X * X * (x < 0)), x)
    E("erfcx", "reflection", (a + L(ul.erfcx, -x) - 2 * np.exp(X * X))[x < 0], (2 * np.exp(X * X) * (1 + X * X))[x < 0], x[x < 0])

    # semivariogram
    h1, h2 = (2.0 ** d.rng.uniform(-12, 5, (2, n))).astype(char)
    nug, sill, rg = [v.astype(char) for v in (d.rng.integers(0, 16, n) / 16, d.rng.integers(17, 64, n) / 16, 2.0 ** d.rng.integers(-6, 7, n))]
    h1, h2 = h1 * rg, h2 * rg
    e = ul.semivar.exponential
    N, S, H1, H2 = [v.astype(LD) for v in (nug, sill, h1, h2)]
    hs = (h1 + h2).astype(char)
    ex = hs.astype(LD) == H1 + H2
    a, b, c = [np.asarray(e(v, nug, sill, rg)).astype(LD) for v in (h1, h2, hs)]
    E("exponential", "memoryless", ((S - a) * (S - b) - (S - c) * (S - N))[ex], (S * S)[ex], h1[ex])
    g = np.asarray(e(h1, np.zeros_like(nug), np.ones_like(sill), rg)).astype(LD)
    E("exponential", "affine", a - (N + (S - N) * g), S, h1)
    E("exponential", "affine", g + np.expm1(-3 * H1 / rg.astype(LD)), np.ones_like(S), h1)


def fraction(x, depth):
    """A convergent of exp(x)*E1(x)."""
    t = np.zeros_like(x)
    for k in range(depth, 0, -1):
        m = (k + 1) // 2
        t = m / ((1 if k % 2 else x) + t)
    return 1 / (x + t)


def param(d, ul, f, char, n):
    fn = f.fn
    x = spread(d, f, char, n)
    if fn == "inv_yeo_johnson":
        x = spread(d, f, char, n)
    X = x.astype(LD)
    p = f.parval(char)
    P = np.dtype(char).type(p)
    V = lambda z, q=P: np.asarray(f.ul(np.asarray(z, dtype=char), np.dtype(char).type(q))).astype(LD)    # noqa: E731
    E = lambda ident, err, scale, z: emit(d, fn, ident, char, err, scale, z)    # noqa: E731
    if fn == "swish":
        r = V(x)
        s = X / (1 + np.exp(-p * X))
        E("ratio", r - s, np.abs(s) * (1 + np.abs(p * X)), x)
    elif fn in RAMPS:
        r, q = V(x), V(-x)
        E("difference", r - q - X, np.maximum(r, q), x)
        k = LD(2) ** d.rng.integers(-8, 9)
        E("homogeneous", V((X * k).astype(char), p * k) - k * r, k * r, x)
        if p == 0:
            E("product" if fn == "hyperbolic_ramp" else "power", r - np.maximum(X, 0), np.zeros_like(X), x)
        elif fn == "hyperbolic_ramp":
            E("product", r * q - p * p, p * p + 0 * X, x)
        else:
            m = np.abs(X / p) < 60
            ln2 = np.log(LD(2))
            E("power", (np.expm1(r / p * ln2) - LD(2) ** (X / p))[m], (LD(2) ** (X / p) * (1 + np.abs(X / p)) + 0 * r)[m], x[m])
    elif fn == "pow1pm1":
        r = V(x)
        c = f.cond(x) + 0
        m = np.isfinite(r)
        lg = np.log1p(X)
        with np.errstate(all="ignore"):
            E("logarithm", (np.expm1(p * lg) - r)[m], (np.abs(r) * (1 + np.abs(p * lg)))[m], x[m])
        y = x[np.abs(x) < 20]
        Y = y.astype(LD)
        for q, v in ((0, 0 * Y), (1, Y), (2, Y * (2 + Y)), (3, Y * (3 + Y * (3 + Y))), (-1, -Y / (1 + Y)), (0.5, Y / (1 + np.sqrt(1 + Y)))):
            E("rational", V(y, q) - v, np.abs(v) * (1 + abs(q) * np.abs(np.log1p(Y))) + (LD(0) if q else 0), y)
        a, b = V(y, 0.75), V(y, p - LD(0.75))
        c = V(y)
        lgy = np.abs(np.log1p(Y)) * (2 + abs(p))
        E("powers", a + b + a * b - c, (np.abs(a) + np.abs(b) + np.abs(a * b) + np.abs(c)) * (1 + lgy), y)
        if p:
            m = np.abs(p * np.log1p(Y)) < 4
            z = V(y)[m].astype(char)
            w = V(z, 1 / p)
            E("inverse", w - Y[m], np.maximum(np.abs(Y[m]), (1 + Y[m]) * np.abs(np.log1p(Y[m]))) * (3 + 60 * (1 + 1 / abs(p)) * (np.abs(z) > 0.5))
              + (0 if LD(np.dtype(char).type(1 / p)) == 1 / p else (1 + Y[m]) * np.abs(np.log1p(Y[m])) * abs(p) * 4), y[m])
    elif fn == "yeo_johnson":
        r = V(x)
        m = np.abs(x) < 1e3
        lg = (1 + (abs(p) + 2) * np.log1p(np.abs(X)))
        E("reflection", V(-x, 2 - p) + r, np.abs(r) * lg, x)
        A = np.abs(X)

        def pos(a, lam):     # of a nonnegative argument
            return np.log1p(a) if lam == 0 else np.expm1(lam * np.log1p(a)) / lam
        e = np.where(X >= 0, pos(A, p), -pos(A, 2 - p))
        E("powers", r - e, np.abs(e) * lg, x)
        for q, v in ((1, X), (2, np.where(X >= 0, A * (A + 2) / 2, -np.log1p(A))), (0, np.where(X >= 0, np.log1p(A), -A * (A + 2) / 2)),
                     (-1, np.where(X >= 0, A / (1 + A), -A * (3 + A * (3 + A)) / 3)), (3, np.where(X >= 0, A * (3 + A * (3 + A)) / 3, -A / (1 + A)))):
            E("rational", (V(x, q) - v)[m], (np.abs(v) * (1 + 4 * np.log1p(A)))[m], x[m])
        for q in (0, 2):
            m = np.finfo(char).nmant
            for dq in [1, -1, 3] + [float(v) for v in d.rng.choice([-1, 1], 4) * 2.0 ** d.rng.uniform(1, m - 4, 4)]:
                t = LD(np.dtype(char).type(q + dq * LD(2) ** -(m - 3)))
                e = np.where(X >= 0, pos(A, t), -pos(A, 2 - t))
                E("near lambda", V(x, t) - e, np.abs(e) * (1 + 4 * np.log1p(A)), x)
    elif fn == "inv_yeo_johnson":
        c = 1 + f.inv_cond(np.abs(X))
        r = V(x)
        m = np.isfinite(r) & (c < 1e4)
        E("reflection", (V(-x, 2 - p) + r)[m], (np.abs(r) * (2 + c))[m], x[m])

        def fwd(z, lam):
            a = np.abs(z)
            g = lambda a, la: np.log1p(a) if la == 0 else np.expm1(la * np.log1p(a)) / la     # noqa: E731
            return np.where(z >= 0, g(a, lam), -g(a, 2 - lam))
        slope = (1 + np.abs(r)) ** np.where(r >= 0, p - 1, 1 - p)
        # forward in extended precision, back in x
        E("round trip", ((fwd(r, p) - X) / slope)[m], (np.abs(r) * (1 + c))[m], x[m])
        y = np.clip(x, -6, 6)
        Y = y.astype(LD)
        m = np.finfo(char).nmant
        for q, dq in [(q, v) for q in (0, 2) for v in [1.0, -1.0] + [float(v) for v in 2.0 ** d.rng.uniform(1, m - 8, 2)]]:
            t = LD(np.dtype(char).type(q + dq * LD(2) ** -(m - 3)))
            s = V(y, t)
            sl = (1 + np.abs(s)) ** np.where(s >= 0, t - 1, 1 - t)
            E("near lambda", (fwd(s, t) - Y) / sl, np.abs(s) * (1 + 8 * np.abs(Y)) + np.abs(Y) / sl, y)


# -- the ends of the type's range --------------------------------------------------------------------------------------

PI = np.arctan2(LD(0), LD(-1))
GAMMA = LD("0.57721566490153286060651209008240243")
LN2 = np.log(LD(2))


def magnitudes(d, char, n):
    """Positive numbers of every binade; for extended precision those whose square has a binade."""
    fi = np.finfo(char)
    if char == "g":
        return (LD(2) ** d.rng.uniform(-8000, 8000, n).astype(LD)).astype(char)
    x = LD(2) ** d.rng.uniform(float(np.log2(LD(fi.smallest_subnormal))), fi.maxexp - 1e-3, n).astype(LD)
    near = [fi.max, fi.max / 2, np.nextafter(fi.max, 0 * fi.max), fi.tiny, fi.smallest_subnormal, fi.tiny / 2, fi.tiny * 4]
    return np.concatenate([x.astype(char), np.array(near, dtype=char)])


def extremes(d, ul, fs, char):
    """Each function against its definition, or the first terms of its expansion, over the whole range of the type."""
    n = 3000 if d.thorough else 800
    fi = np.finfo(char)
    d.begin("extremes " + char)
    m = magnitudes(d, char, n)
    M = m.astype(LD)
    x = m * d.rng.choice([-1, 1], len(m)).astype(char)
    X = x.astype(LD)
    y = d.rng.permutation(x)
    Y = y.astype(LD)
    a = d.rng.permutation(m)
    A = a.astype(LD)
    one = np.ones_like(X)
    T = np.dtype(char).type

    def E(fn, got, exp, scale, x, where=True, floor=0):
        """Where the value overflows, so must the result (or be next to it)."""
        got = np.asarray(got).astype(LD)
        k = np.isfinite(X) & np.isfinite(exp) & where
        if char == "g":          # no wider type in which to evaluate
            k &= np.abs(exp) < LD(2) ** 16000
        over = np.abs(exp) > LD(fi.max) * (1 - 16 * LD(fi.eps))
        err = np.where(over, np.where((np.sign(got) == np.sign(exp)) & (np.abs(got) > LD(fi.max) * LD(0.99)), LD(0), LD(np.inf)), got - exp)
        scale = np.where(over, one, np.maximum(scale, floor * LD(fi.tiny) / LD(fi.eps)))
        err = np.where(err != err, LD(np.inf), err)
        emit(d, fn, "extreme", char, err[k], scale[k], x[k])

    neg = X < 0
    ex = np.exp(-np.abs(X))
    big, small = np.abs(X) > 1e9, np.abs(X) < LD(2) ** -40
    e = np.where(neg, ex, one) / (1 + ex)
    E("logistic", ul.logistic(x), e, e * (1 + np.abs(X) * neg), x)
    e = ex / (1 + ex) ** 2
    E("logistic_deriv", ul.logistic_deriv(x), e, e * (1 + np.abs(X)), x)
    e = np.minimum(X, 0) - np.log1p(ex)
    E("log_logistic", ul.log_logistic(x), e, np.abs(e) * (1 + X * ~neg), x)
    Z = X * Y
    e = np.where(Z < 0, X * np.exp(Z), X) / (1 + np.exp(-np.abs(Z)))
    # the factor logistic(beta*x) may underflow
    E("swish", ul.swish(x, y), e, np.abs(e) * (1 + np.abs(Z)), x, floor=1 + np.abs(X))
    s = np.hypot(X, 2 * A)
    e = np.where(neg, 2 * A * (A / (s - X)), (X + s) / 2)
    E("hyperbolic_ramp", ul.hyperbolic_ramp(x, a), e, e, x, floor=1)
    Z = np.abs(X / A)
    e = np.maximum(X, 0) + A * np.log1p(LD(2) ** -Z) / LN2
    E("exponential_ramp", ul.exponential_ramp(x, a), e, e * (1 + Z * neg), x, floor=1 + A)
    ms = M < LD(2) ** -40
    E("expint1", ul.expint1(m), np.where(ms, -np.log(M) - GAMMA + M, 0), np.where(ms, -np.log(M), 0), m, ms | (M > 12000))
    mb = M > LD(2) ** 33
    e = np.where(ms, np.log(-np.log(M) - GAMMA + M), -M - np.log(M) + np.log1p(-1 / M))
    E("logexpint1", ul.logexpint1(m), e, np.abs(e) + 1, m, ms | mb)
    if char != "g":
        mb = M > 60
        e = np.where(mb, PI * PI / 6 / M, 1 - M / 4 + M * M / 36)
        E("debye1", ul.debye1(m), e, e, m, ms | mb)
        E("debye1", ul.debye1(-m), e + M / 2, e + M / 2, m, ms | mb)
        mb = M > LD(2) ** 24
        e = np.where(ms, -M * GAMMA + PI * PI / 12 * M * M, (M + LD(0.5)) * np.log(M) - M + np.log(2 * PI) / 2 + 1 / (12 * M))
        E("loggamma1p", ul.loggamma1p(m), e, np.abs(e), m, ms | mb)
        E("loggamma1p", ul.loggamma1p(-m), M * GAMMA + PI * PI / 12 * M * M, M, m, ms)
    nm = ul.normal
    c = np.sqrt(2 * PI)
    e = np.where(big, np.where(neg, LD(0), one), LD(0.5) + X / c)
    E("cdf", nm.cdf(x), e, one, x, big | small)
    E("sf", nm.sf(-x), e, one, x, big | small)
    e = np.where(big, np.where(neg, -X * (X / 2) - np.log(np.abs(X)) - np.log(c), LD(0)), np.log(LD(0.5)) + np.log1p(2 * X / c))
    E("logcdf", nm.logcdf(x), e, np.abs(e), x, big | small, floor=1)
    E("logsf", nm.logsf(-x), e, np.abs(e), x, big | small, floor=1)
    e = np.where(big, np.where(neg, LD(np.inf), 1 / (np.abs(X) * np.sqrt(PI))), 1 - 2 * X / np.sqrt(PI))
    E("erfcx", ul.erfcx(x), e, e, x, (big & ~neg) | small)
    r = ul.erfcx(x[big & neg])
    d.expect((r == np.inf).all(), "erfcx-value", lambda: dict(x="below -1e9", dtype=char, got=repr(r[r != np.inf][0])))
    k = X > -1
    lg = Y * np.log1p(np.where(k, X, 0))
    e = np.expm1(lg)
    E("pow1pm1", ul.pow1pm1(x, y), e, np.abs(e) * (1 + np.abs(lg)), x, k)
    if char != "g":
        for lam in [Y, a.astype(LD) / LD(2) ** 4] + [one * LD(q) for q in (0, 0.5, 1, 2, 3, -1)]:
            lam = lam.astype(char).astype(LD)
            la = np.where(neg, 2 - lam, lam)
            l1 = np.log1p(np.abs(X))
            v = np.where(la == 0, l1, np.expm1(la * l1) / np.where(la == 0, one, la))
            e = np.where(neg, -v, v)
            E("yeo_johnson", ul.yeo_johnson(x, lam.astype(char)), e, np.abs(e) * (1 + (np.abs(la) + np.abs(lam)) * l1), x)
            ins = 1 + la * np.abs(X)
            l1 = np.log1p(np.where(ins > 0, la * np.abs(X), 0))
            t = np.where(la == 0, np.abs(X), l1 / np.where(la == 0, one, la))
            e = np.where(neg, -1, 1) * np.expm1(t)
            E("inv_yeo_johnson", ul.inv_yeo_johnson(x, lam.astype(char)), e, np.abs(e) * (1 + 4 * np.abs(t) + np.abs(X / ins)), x, ins > 0.01)
    h, r = m, a
    nug, sill = T(0.25), T(2)
    e = LD(0.25) - LD(1.75) * np.expm1(-3 * M / A)
    E("exponential", ul.semivar.exponential(h, nug, sill, r), e, e, h, (M < LD(fi.max) / 4))


def complex_log(d, ul, char, n):
    re = "f" if char == "F" else "d"
    eps = np.finfo(re).eps
    kinds = []
    th = d.rng.uniform(-np.pi, np.pi, n)
    rad = 1 + d.rng.choice([0, 1e-3, 1e-8, 1e-12, 0.3, 3, 100], n) * d.rng.choice([-1, 1], n)
    z = rad * np.exp(1j * th) - 1
    kinds.append(z)
    kinds.append(2.0 ** d.rng.uniform(-40, 3, n) * np.exp(1j * th))
    kinds.append(2.0 ** d.rng.uniform(-20, 20, n) * d.rng.choice([-1, 1], n) + 1j * 2.0 ** d.rng.uniform(-20, 20, n))
    ed = [-2.2, 0.2, 1.2, -1.2, 0.4]
    kinds.append(np.array([complex(a + s, b) for a in (-2.2, 0.2) for b in (-1.2, -0.4, 0.4, 1.2, 0.1) for s in (-1e-6, 0, 1e-6)]))
    y = d.rng.uniform(-1.15, 1.15, 4 * n)       # |x*(2+x) + y*y| next to 0.4
    q = d.rng.choice([0.4, -0.4], 4 * n) * (1 + d.rng.choice([-1e-3, 1e-3, 1e-6, -1e-6], 4 * n)) - y * y + 1
    ok = q > 0
    kinds.append((-1 + np.sqrt(np.abs(q)) * d.rng.choice([-1, 1], 4 * n))[ok] + 1j * y[ok])
    z = np.concatenate(kinds).astype(char)
    x, y = z.real, z.imag
    X, Y = x.astype(LD), y.astype(LD)
    R = real_part(x, y)
    A = np.arctan2(Y, X + 1)
    for fn in ("log1p_doubledouble", "log1p_theorem4"):
        f = getattr(ul, fn)
        w = f(z)
        wr, wi = w.real.astype(LD), w.imag.astype(LD)
        c = f(np.conj(z))
        emit(d, fn, "conjugate", re, np.abs(c.real - w.real).astype(LD) + np.abs(c.imag + w.imag), np.abs(w), z)
        if fn == "log1p_doubledouble":
            far = np.abs(R)
            emit(d, fn, "real part", re, wr - R, far + (0 if re == "d" else LD(0)), z)
            emit(d, fn, "argument", re, wi - A, np.abs(A), z)
        else:
            emit(d, fn, "normwise", re, np.hypot(wr - R, wi - A), np.hypot(R, A), z)
        t = np.concatenate([2.0 ** d.rng.uniform(-50, 20, n), -2.0 ** d.rng.uniform(-50, -0.01, n)]).astype(re)
        w = f((t + 0j).astype(char))
        e = np.log1p(t.astype(LD))
        emit(d, fn, "real line", re, np.abs(w.real - e) + np.abs(w.imag), np.abs(e), t)
        for v, want in ((0j, 0j), (complex(np.inf, 0), complex(np.inf, 0)), (complex(np.nan, 0), None), (complex(0, np.nan), None),
                        (complex(0, np.inf), complex(np.inf, np.pi / 2)), (-1 + 0j, complex(-np.inf, 0)),
                        (complex(-np.inf, 0), complex(np.inf, np.pi)), (complex(0, -np.inf), complex(np.inf, -np.pi / 2))):
            d.begin("%s %r" % (fn, v))
            r = complex(f(np.array([v], dtype=char))[0])
            d.replayed += 1
            ok = (np.isnan(r.real) or np.isnan(r.imag)) if want is None else \
                (r.real == want.real and abs(r.imag - want.imag) <= 4 * eps * abs(want.imag))
            d.expect(ok, fn + "-value", lambda: dict(fn=fn, z=repr(v), dtype=char, got=repr(r), expected=repr(want)))


# -- functions of sequences --------------------------------------------------------------------------------------------

def sequences(d, ul):
    for t in range(120 if d.thorough else 40):
        for char in "fdg":
            n = int(d.rng.choice([1, 2, 3, 4, 8, 33, 1000]))
            d.begin("softmax %s %d" % (char, n))
            x = (d.rng.standard_normal(n) * d.rng.choice([1e-3, 1, 20])).astype(char)
            X = x.astype(LD)
            s = ul.softmax(x).astype(LD)
            emit(d, "softmax", "sum", char, [s.sum() - 1], [LD(1 + n / 8)], [0])
            j = int(d.rng.integers(n))
            i = int(np.argmax(s))
            e = s[i] * np.exp(X - X[i])
            emit(d, "softmax", "ratios", char, s - e, np.maximum(s, e) * (1 + np.abs(X - X.max())), x)
            big = np.dtype(char).type(2.0 ** int(d.rng.integers(4, 12)) * d.rng.choice([-1, 1]))
            y = x + big
            m = y - big
            emit(d, "softmax", "shift", char, ul.softmax(y).astype(LD) - ul.softmax(m), np.full(n, LD(n / 8 + 1)) * ul.softmax(m), x)
            p = d.rng.permutation(n)
            emit(d, "softmax", "permutation", char, ul.softmax(x[p]).astype(LD) - s[p], s[p] * (1 + n / 8), x)
            # elements that have no part: minus infinity, anywhere, beside others of any size
            for v in (y, x, m):
                z = list(v)
                for _ in range(int(d.rng.integers(1, 4))):
                    z.insert([0, len(z), int(d.rng.integers(len(z) + 1))][int(d.rng.integers(3))], -np.inf)
                z = np.array(z, dtype=char)
                d.begin("softmax %s %r" % (char, z))
                e = np.zeros(len(z), dtype=LD)
                e[z != -np.inf] = ul.softmax(v)
                emit(d, "softmax", "absent", char, ul.softmax(z).astype(LD) - e, e * (1 + n / 8), z)
            # weights of a Dirichlet distribution
            n = int(d.rng.choice([1, 2, 3, 5, 16, 100]))
            x = (2.0 ** d.rng.uniform(-6, 8, n)).astype(char)
            X = x.astype(LD)
            wide = np.zeros((n, 3), dtype=char)
            wide[:, 1] = x
            d.begin("multivariate_logbeta %s %d" % (char, n))
            b = LD(ul.multivariate_logbeta(x))
            b2 = LD(ul.multivariate_logbeta(wide[:, 1]))
            lg = (np.abs(X) + 1) * (1 + np.abs(np.log(X)))
            tot = X.sum()
            sc = [lg.sum() + (tot + 1) * (1 + np.abs(np.log(tot)))]
            emit(d, "multivariate_logbeta", "permutation", char, [LD(ul.multivariate_logbeta(x[d.rng.permutation(n)])) - b], sc, [0])
            emit(d, "multivariate_logbeta", "permutation", char, [b2 - b], sc, [0])
            y = x.copy()
            y[j % n] += 1
            if LD(y[j % n]) == X[j % n] + 1:
                r = LD(ul.multivariate_logbeta(y)) - b - np.log(X[j % n] / tot)
                emit(d, "multivariate_logbeta", "recurrence", char, [r], sc, [0])
            emit(d, "multivariate_logbeta", "one", char, [LD(ul.multivariate_logbeta(x[:1]))], [0 * tot], [0])
            a, c = int(d.rng.integers(1, 30)), int(d.rng.integers(1, 30))
            F = ul.logfactorial
            e = LD(F(a - 1)) + LD(F(c - 1)) - LD(F(a + c - 1))      # in double precision
            sc = [(LD(F(a + c)) + 1) * max(1, np.finfo("d").eps / np.finfo(char).eps)]
            r = LD(ul.multivariate_logbeta(np.array([a, c], dtype=char)))
            emit(d, "multivariate_logbeta", "pair", char, [r - e], sc, [0])
            r = LD(ul.multivariate_logbeta(np.array([a, c], dtype=char)[::-1]))
            emit(d, "multivariate_logbeta", "pair", char, [r - e], sc, [0])
    inf, nan = np.inf, np.nan
    for char in "fdg":
        for x, e in (([inf, 0], [1, 0]), ([0, inf, 5], [0, 1, 0]), ([inf, inf], [nan, nan]), ([nan, 1], [nan, nan]), ([1, nan, inf], [nan] * 3),
                     ([-inf, 0], [0, 1]), ([-inf, -inf], [nan, nan]), ([3], [1]), ([-inf, 2, inf], [0, 0, 1]), ([], []),
                     ([-inf], [nan]), ([inf], [1]), ([-inf, 1e4, -inf], [0, 1, 0]), ([0, 0], [.5, .5]), ([-1e4, -1e4, -1e4, -1e4], [.25] * 4)):
            d.begin("softmax %r" % (x,))
            x = np.array(x, dtype=char)
            w = np.zeros((len(x), 2), dtype=char)
            w[:, 1] = x
            for v in (x, w[:, 1], x[::-1]):
                r = ul.softmax(v)
                ee = np.array(e)[::-1] if v is not x and v.base is x else np.array(e)
                d.replayed += 1
                d.expect(np.array_equal(r, ee, equal_nan=True), "softmax-value", lambda: dict(x=repr(v), got=repr(r), expected=repr(ee)))
        r = ul.multivariate_logbeta(np.array([nan, 1], dtype=char))
        d.expect(np.isnan(r), "multivariate_logbeta-nan", lambda: repr(r))


def layouts(d, ul, fs):
    """The value does not depend on the layout of the arguments."""
    for f in fs.values():
        if f.fn == "logfactorial":
            continue
        for char in f.types:
            x = spread(d, f, char, 12)
            e = f.call(x, char)

            def check(mode, rows, res):
                d.replayed += len(rows)
                r = np.asarray(res[0])
                for b in np.flatnonzero(~((r == e[rows]) | (np.isnan(r) & np.isnan(e[rows]))))[:1]:
                    d.violation(f.fn + "-layout", dict(x=repr(x[rows[b]]), layout=mode, dtype=char, got=repr(r[b]), expected=repr(e[rows[b]])))
            args = [x]
            if f.fn in PAR2:
                args.append(np.full_like(x, f.parval(char)))
            elif f.fn == "exponential":
                args += [np.full_like(x, v) for v in SEMI]
            run_modes(d, f.fn, f.ul, args, [((), char)], check, singles=2)
