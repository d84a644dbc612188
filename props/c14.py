"""C14: step functions, pulses, dead zone, semivariograms, nan_to_num, squares and hypot3."""
import numpy as np

from vf.conc import intern, ladder, scale as anywhere
from vf.layouts import Placed, describe, run_modes

NAN, PINF, NINF = 2000000001, 2000000000, -2000000000
ASSUMPTIONS = [
    "Inside ramps values are compared within rounding, elsewhere exactly.",
    "Where breakpoints coincide either of the values documented for that point is accepted; "
    "NaN arguments of step and deadzone, and NaN with coinciding breakpoints, are outside the property.",
    "Breakpoints of ramps are finite where the ramp itself is evaluated.",
]
FNS = ["step", "linearstep", "smoothstep3", "smoothstep5", "trapezoid_pulse", "deadzone", "linear", "parabolic",
       "spherical", "nan_to_num"]
RAMPS = ("linearstep", "smoothstep3", "smoothstep5")
SEMI = ("linear", "parabolic", "spherical")
ARGS = dict(step=["a", "flow", "fa", "fhigh"], deadzone=["low", "high"], nan_to_num=["replacement"],
            trapezoid_pulse=["a", "b", "c", "d", "amp"])


def models(tier, seed):
    big = tier == "thorough"
    out = []
    for fn in FNS:
        mb = (3 if big else 2) if fn == "trapezoid_pulse" else 4 if fn in ("step", "deadzone") or big else 3
        if fn == "smoothstep5":
            mb = 2
        out.append(dict(name="sweep-" + fn, module="SweepLoop", workers=2,
                        cfg='CONSTANTS Fn = "%s" MaxBreak = %d ValSel = 7\nSPECIFICATION Spec\n'
                            'INVARIANTS Bounded Monotone Defined Emitted\n' % (fn, mb)))
    return out


def traces(tier):
    return [dict(stream="piecewise", module="Piecewise", failures="PiecewiseFailures")]


def order_args(fn, x, p, v):
    """Arguments in the order of the call."""
    if fn in SEMI:                    # h, nugget, sill, range
        return [x, v[0], v[1], p[0]]
    return [x] + list(p) + list(v)


def func(ul, fn):
    return getattr(ul.semivar, fn) if fn in SEMI else getattr(ul, fn)


def special(a):
    a = np.array(a, dtype=float)
    a[a == NAN] = np.nan
    a[a == PINF] = np.inf
    a[a == NINF] = -np.inf
    return a


def drive(d):
    import ufunclab as ul
    import ufunclab.semivar  # noqa: F401
    for fn in FNS:
        sweeps(d, ul, fn, list(d.cases("sweep-" + fn)))
    inverse(d, ul)
    regions(d, ul)
    squares(d, ul)
    exponential(d, ul)


def sweeps(d, ul, fn, cs):
    f = func(ul, fn)
    line = special(cs[0]["x"])
    k = 3 if any(len(a) > 1 for c in cs for a in c["num"]) else 1
    num = np.array([[[a[min(j, len(a) - 1)] if a else 0 for a in c["num"]] for c in cs] for j in range(k)], dtype=float)
    den = np.array([[[a[min(j, len(a) - 1)] if a else 1 for a in c["den"]] for c in cs] for j in range(k)], dtype=float)
    anyv = np.array([[not a for a in c["num"]] for c in cs])
    flat = np.array([c["flat"] for c in cs])
    num = special(num)
    p = np.array([c["p"] for c in cs], dtype=float).reshape(len(cs), -1)
    v = np.array([c["v"] for c in cs], dtype=float).reshape(len(cs), -1)
    for char in "fdg":
        eps = float(np.finfo(char).eps)
        for rep in range(2):
            s = anywhere(d.rng, char, 8)
            w = anywhere(d.rng, char, 8) if fn not in ("deadzone", "nan_to_num") else s
            off = int(d.rng.integers(-4, 5)) * s if fn not in SEMI and fn != "nan_to_num" and rep else 0.0
            X = np.tile(line * s + off, (len(cs), 1)).astype(char)
            P = [np.repeat((p[:, j] * s + off)[:, None], len(line), 1).astype(char) for j in range(p.shape[1])]
            V = [np.repeat((v[:, j] * w)[:, None], len(line), 1).astype(char) for j in range(v.shape[1])]
            A = [a.reshape(-1) for a in order_args(fn, X, P, V)]
            E = [(num[j] * w / den[j]).reshape(-1) for j in range(k)]
            fl, an = flat.reshape(-1), anyv.reshape(-1)
            scale = 30 * w

            def check(mode, rows, res):
                d.replayed += len(rows)
                r = res[0]
                if r.shape != rows.shape:
                    d.violation(fn + "-shape", dict(got=r.shape))
                    return
                ok = an[rows].copy()
                with np.errstate(all="ignore"):
                    for e in E:
                        e = e[rows]
                        exact = (r == e) | (np.isnan(r) & np.isnan(e))
                        near = np.abs(r - e) <= 16 * eps * scale if rep == 0 else np.abs(r - e) <= 64 * eps * scale
                        ok |= exact | (near & ~fl[rows])
                for b in np.flatnonzero(~ok)[:1]:
                    d.violation(fn, dict(call=fn, dtype=char, layout=mode, args=[repr(a[rows[b]]) for a in A],
                                         got=repr(r[b]), expected=[repr(e[rows[b]]) for e in E]))
            run_modes(d, fn, f, A, [((), char)], check)
            d.cover("replay " + fn, len(cs) * len(line))
    d.sample(dict(fn=fn, p=cs[-1]["p"], v=cs[-1]["v"]))


def inverse(d, ul):
    """invsmoothstep3 undoes smoothstep3 on the cases of its model, and is nan outside."""
    cs = [c for c in d.cases("sweep-smoothstep3") if c["p"][0] < c["p"][1]]
    for turn, char in enumerate("fdgfdg"):
        args, exp, exact = [], [], []
        s, w = anywhere(d.rng, char, 8, 4), anywhere(d.rng, char, 8, -4)
        if turn > 2:       # end values whose difference has no reciprocal
            w = np.longdouble(2.0) ** (np.finfo(char).minexp - int(d.rng.integers(5, 8)))
        for c in cs:
            a, b = (v * s for v in c["p"])
            fa, fb = (v * w for v in c["v"])
            for x, num, den in zip(c["x"], c["num"], c["den"]):
                if abs(x) > 10 ** 9 or not num:
                    continue
                x, y = x * s, num[0] * w / den[0]
                if fa == fb:
                    args.append((y, a, b, fa, fb)), exp.append(np.nan), exact.append(False)
                elif x <= a or x >= b:
                    args.append((y, a, b, fa, fb)), exp.append(a if x <= a else b), exact.append(True)
                else:
                    args.append((y, a, b, fa, fb)), exp.append(x), exact.append(False)
            if fa != fb:
                for y in (max(fa, fb) + w, min(fa, fb) - w / 2, np.inf, -np.inf, np.nan):
                    args.append((y, a, b, fa, fb)), exp.append(np.nan), exact.append(False)
        A = [np.array(col, dtype=char) for col in zip(*args)]
        E, X = np.array(exp), np.array(exact)

        def check(mode, rows, res):
            d.replayed += len(rows)
            r, e = res[0], E[rows]
            tol = 2e-3 if char == "f" else 1e-7
            with np.errstate(all="ignore"):
                ok = (r == e) | (np.isnan(r) & np.isnan(e)) | (~X[rows] & (np.abs(r - e) <= tol * 10 * s))
            for b in np.flatnonzero(~ok)[:1]:
                d.violation("invsmoothstep3", dict(dtype=char, layout=mode, args=[repr(a[rows[b]]) for a in A],
                                                   got=repr(r[b]), expected=repr(e[b])))
        run_modes(d, "invsmoothstep3", ul.invsmoothstep3, A, [((), char)], check)
        d.cover("replay invsmoothstep3", len(args))
        # round trip on a fine chain, both directions of the step
        for fa, fb, a, b in ((0, 1, 0, 1), (3, -2, -1, 4), (-1, 5, 10, 11)):
            x = np.linspace(a, b, 201).astype(char)
            y = ul.smoothstep3(x, *np.array([a, b, fa, fb], dtype=char))
            z = ul.invsmoothstep3(y, *np.array([a, b, fa, fb], dtype=char))
            d.replayed += 1
            t = np.sqrt(float(np.finfo(char).eps)) * 8 * (b - a)
            d.expect(np.all(np.abs(z - x) <= t), "invsmoothstep3-roundtrip",
                     lambda: dict(dtype=char, args=(a, b, fa, fb), x=repr(x[np.abs(z - x) > t][:3]),
                                  got=repr(z[np.abs(z - x) > t][:3])))


CONST = dict(step=["flow", "fa", "fhigh"], trapezoid_pulse=["amp"], nan_to_num=["replacement"])


def regions(d, ul):
    """Arbitrary breakpoints, extreme values included: the region decides the value."""
    n = 3000 if d.thorough else 500
    for char in "fdg":
        t = np.dtype(char).type
        for fn in FNS:
            f = func(ul, fn)
            nb = dict(step=1, trapezoid_pulse=4, linear=1, parabolic=1, spherical=1, nan_to_num=0).get(fn, 2)
            nv = dict(step=3, trapezoid_pulse=1, deadzone=0, nan_to_num=1).get(fn, 2)
            for _ in range(n // 5):
                lad = ladder(char, 7, int(d.rng.integers(5)), d.rng)
                if fn in SEMI:
                    lad = np.unique(np.abs(lad))
                m = len(lad)
                br = d.rng.integers(0, m, size=nb)
                if d.rng.integers(5):
                    br = np.sort(br)
                if fn == "deadzone":
                    br = np.sort(br)
                vals = ladder(char, 3, int(d.rng.integers(1, 4)), d.rng)[d.rng.permutation(3)][:nv]
                xs = list(range(m)) + ([NAN] if fn not in ("step", "deadzone") else [])
                zero = int(np.flatnonzero(lad == 0)[0]) if (lad == 0).any() else None
                X = np.array([t(np.nan) if r == NAN else lad[r] for r in xs], dtype=char)
                args = order_args(fn, X, list(lad[br]), list(vals))
                d.begin("%s %s %r" % (fn, char, args))
                ys = f(*args)
                for r, x, y in zip(xs, X, ys):
                    # ranks: 0 for zero where zero matters (semivariograms)
                    sh = (zero if zero is not None else -1) if fn in SEMI else 0
                    p = [int(b) - sh for b in br]
                    if fn in SEMI and zero is None:
                        p = [q + 1 - 0 for q in (int(b) for b in br)]
                        rr = r if r == NAN else int(r) + 1
                    else:
                        rr = r if r == NAN else int(r) - sh
                    d.emit("piecewise", dict(k="region", fn=fn, dtype=char, p=p, x=rr,
                                             holds=holds(fn, x, lad[br], vals, y, t), args=[repr(a) for a in args[1:]],
                                             xv=repr(x), y=repr(y)))
        # chains: monotone within rounding and bounded
        for fn in RAMPS + SEMI + ("exponential", "deadzone", "trapezoid_pulse"):
            f = getattr(ul.semivar, fn) if fn in SEMI + ("exponential",) else getattr(ul, fn)
            for _ in range(40 if d.thorough else 8):
                a, b, c, e = np.sort(d.rng.uniform(-5, 5, size=4)).astype(char)
                v = d.rng.uniform(-3, 3, size=2).astype(char)
                if fn == "linearstep" and d.rng.integers(2):       # end values whose difference leaves the type
                    v = v / np.abs(v) * (np.finfo(t).max * d.rng.uniform(0.5, 0.95, size=2).astype(char))
                if fn in SEMI + ("exponential",):
                    a = t(0)
                    b = t(abs(b) + t(0.01))
                xs = np.sort(np.concatenate([d.rng.uniform(float(a) - 1, float(b) + 1, 200).astype(char),
                                             np.linspace(a, b, 50).astype(char), [a, b], np.nextafter([a, b], t(9)),
                                             np.nextafter([a, b], t(-9))]).astype(char))
                if fn in SEMI + ("exponential",):
                    xs = np.concatenate([xs[xs >= 0], [t(np.inf)]]).astype(char)
                    y = f(xs, v[0], v[1], b)
                elif fn == "deadzone":
                    y = f(xs, a, b)
                    v = np.array([xs[0] - a, xs[-1] - b], dtype=char)
                elif fn == "trapezoid_pulse":
                    xs = np.unique(np.concatenate([xs[xs <= b], [b]]))
                    y = f(xs, a, b, c, e, v[1])
                    v = np.array([0, v[1]], dtype=char)
                else:
                    y = f(xs, a, b, v[0], v[1])
                if not np.isfinite(y).all():
                    d.violation(fn + "-chain-nan", dict(dtype=char, x=repr(xs[~np.isfinite(y)][:3])))
                    continue
                tol = t(32) * np.finfo(char).eps * max(t(3), np.abs(v).max())
                # neither the unit of the argument and the breakpoints nor the unit of the values matters
                big = np.finfo(char).maxexp - 8
                g, w = np.ldexp(t(1), d.rng.integers(-big, big, size=2))
                w = min(w, t(1)) if np.abs(v).max() > 9 else w          # the end values are near the limit already
                z = {"deadzone": lambda: f(xs * g, a * g, b * g) / g,
                     "trapezoid_pulse": lambda: f(xs * g, a * g, b * g, c * g, e * g, v[1] * w) / w}.get(
                         fn, (lambda: f(xs * g, v[0] * w, v[1] * w, b * g) / w) if fn in SEMI + ("exponential",) else
                         (lambda: f(xs * g, a * g, b * g, v[0] * w, v[1] * w) / w))()
                bad = ~(np.abs(z - y) <= tol)
                d.expect(not bad.any(), fn + "-unit",
                         lambda: dict(dtype=char, units=repr((g, w)), x=repr(xs[bad][:3]), breaks=repr((a, b, c, e)),
                                      values=repr(v), got=repr(z[bad][:3]), expected=repr(y[bad][:3])))
                up = bool(v[0] <= v[1])
                q = merge(y, tol, up)
                rk, lo, hi = intern(q, np.array([v.min() - tol], dtype=char), np.array([v.max() + tol], dtype=char))
                d.emit("piecewise", dict(k="chain", fn=fn, up=up, y=rk.tolist(), args=[repr(q) for q in (a, b, v)]))
                rk, lo, hi = intern(y, np.array([v.min() - tol], dtype=char), np.array([v.max() + tol], dtype=char))
                d.emit("piecewise", dict(k="bounds", fn=fn, y=rk.tolist(), lo=int(lo[0]), hi=int(hi[0])))


def merge(y, tol, up):
    """A value that falls back by no more than tol counts as equal to the extreme so far."""
    out = np.array(y)
    for k in range(1, len(out)):
        b = out[k - 1] - out[k] if up else out[k] - out[k - 1]
        if 0 < b <= tol:
            out[k] = out[k - 1]
    return out


def holds(fn, x, br, v, y, t):
    eq = lambda c: bool(y == c or (y != y and c != c))   # noqa: E731
    h = []
    if fn in SEMI and 0 < br[0] < np.finfo(t).tiny * 1e12:
        h += ["nugget", "ramp"]        # a slope that leaves the type
    if y != y:
        h.append("nan")
    if y == 0:
        h.append("zero")
    if fn == "step":
        h += [n for n, c in zip(("flow", "fa", "fhigh"), v) if eq(c)]
    elif fn == "nan_to_num":
        h += [n for n, c in (("replacement", v[0]), ("x", x)) if eq(c) and bool(np.signbit(c) == np.signbit(y))]
    elif fn == "deadzone":
        h += [n for n, c in (("below", x - br[0]), ("above", x - br[1])) if eq(c)]
    elif fn == "trapezoid_pulse":
        if eq(v[0]):
            h.append("amp")
        for nme, i in (("rise", 0), ("fall", 2)):
            span = br[i + 1] - br[i]
            if not np.isfinite(span) or between(y, t(0), v[0]):
                h.append(nme)
    else:
        names = ("nugget", "sill") if fn in SEMI else ("fa", "fb")
        h += [n for n, c in zip(names, v) if eq(c)]
        if fn not in SEMI and eq((v[0] + v[1]) / 2):
            h.append("mid")
        span = br[0] if fn in SEMI else br[1] - br[0]
        # a ramp over a range whose length, or a power of it, leaves the type is not judged
        if not np.isfinite(span) or between(y, v[0], v[1]):
            h.append("ramp")
    return h


def between(y, a, b):
    lo, hi = min(a, b), max(a, b)
    tol = 32 * np.finfo(type(y)).eps * max(abs(lo), abs(hi))
    return bool(lo - tol <= y <= hi + tol)


def squares(d, ul):
    for char in "fdg":
        t = np.dtype(char).type
        ct = {"f": "F", "d": "D", "g": "G"}[char]
        v = np.concatenate([np.arange(-40, 41), d.rng.integers(-2000, 2001, size=40)])
        for fn in ("abs_squared", "abssq"):
            f = getattr(ul, fn)
            X = v.astype(char)
            Z = (v + 1j * v[d.rng.permutation(len(v))]).astype(ct)
            for data in (X, Z):
                for view, nm in ((data, "contig"), (data[::-1], "reversed"), (np.stack([data, data * 0 + 5], 1)[:, 0], "strided"),
                                 (data[:1], "one"), (data[:3], "three")):
                    out = np.zeros(2 * len(view), dtype=char)
                    for mode in ("ret", "out"):
                        d.begin("%s %s %s" % (fn, data.dtype.char, nm))
                        r = f(view) if mode == "ret" else f(view, out=out[::2])
                        d.replayed += len(view)
                        d.expect(r.dtype == np.dtype(char), fn + "-dtype", lambda: dict(got=str(r.dtype)))
                        for z, y in zip(view, r):
                            d.emit("piecewise", dict(k="squares", fn=fn, x=[int(z.real), int(np.imag(z))] if data is Z else [int(z)],
                                                     y=int(y) if y == np.rint(y) and abs(y) < 1e9 else -1))
                        d.expect((out[1::2] == 0).all(), "write-outside-output", fn)
            # few elements, contiguous or not
            for _ in range(80):
                data = X if d.rng.integers(4) == 0 else Z
                view = data[d.rng.permutation(len(data))[:int(d.rng.integers(0, 9))]]
                out = np.zeros(view.shape, dtype=char)
                A, B = (Placed(q, d.rng) if d.rng.integers(2) else None for q in (view, out))
                a, b = A.view if A else view, B.view if B else out
                d.begin("%s %s out strides %s" % (fn, describe([a]), b.strides))
                f(a, out=b)
                d.replayed += len(view)
                d.expect(B is None or B.guards_intact(), "write-outside-output", fn)
                for z, y in zip(view, b):
                    d.emit("piecewise", dict(k="squares", fn=fn, x=[int(z.real), int(np.imag(z))] if data is Z else [int(z)],
                                             y=int(y) if y == np.rint(y) and abs(y) < 1e9 else -1))
            inf, nan = t(np.inf), t(np.nan)
            for x, e in ((inf, inf), (-inf, inf), (t(0), t(0)), (-t(0), t(0)), (nan, nan)):
                y = f(x)
                d.expect(y == e or (y != y and e != e), fn + "-special", lambda: dict(dtype=char, x=repr(x), got=repr(y)))
        # hypot3: quadruples of integers in every order and sign
        quads = [(1, 2, 2, 3), (2, 3, 6, 7), (1, 4, 8, 9), (4, 4, 7, 9), (2, 6, 9, 11), (6, 6, 7, 11), (3, 4, 12, 13),
                 (2, 5, 14, 15), (0, 3, 4, 5), (0, 0, 7, 7), (0, 0, 0, 0), (12, 15, 16, 25), (8, 9, 12, 17)]
        import itertools
        for q in quads:
            for perm in set(itertools.permutations(q[:3])):
                sg = d.rng.choice([-1, 1], size=3)
                for e in (0, -20, 20, (np.finfo(char).maxexp - 12), (np.finfo(char).minexp + 12)):
                    s = t(2.0) ** int(e)
                    a = [t(int(w * g)) * s for w, g in zip(perm, sg)]
                    d.begin("hypot3 %s %r" % (char, a))
                    y = ul.hypot3(*a)
                    rel = abs(y / s - q[3])
                    d.emit("piecewise", dict(k="squares", fn="hypot3", x=[int(w) for w in perm],
                                             y=q[3] ** 2 if rel <= 16 * np.finfo(char).eps * q[3] else -1, got=repr(y)))
        inf, nan = t(np.inf), t(np.nan)
        for pos in range(3):
            for v0 in (inf, -inf):
                for other in (t(1), nan, inf, -inf, t(0)):
                    a = [other] * 3
                    a[pos] = v0
                    y = ul.hypot3(*a)
                    d.replayed += 1
                    d.expect(y == inf, "hypot3-inf", lambda: dict(dtype=char, args=repr(a), got=repr(y)))
            a = [t(1), t(2), t(3)]
            a[pos] = nan
            y = ul.hypot3(*a)
            d.expect(y != y, "hypot3-nan", lambda: dict(dtype=char, args=repr(a), got=repr(y)))


def exponential(d, ul):
    for char in "fdg":
        t = np.dtype(char).type
        eps = float(np.finfo(char).eps)
        for _ in range(60 if d.thorough else 15):
            n, s = d.rng.uniform(-3, 3, size=2).astype(char)
            r = t(d.rng.uniform(0.1, 5))
            h = np.concatenate([[0], d.rng.uniform(0, 20, 50), [np.inf]]).astype(char)
            d.begin("exponential %s %r" % (char, (n, s, r)))
            y = ul.semivar.exponential(h, n, s, r)
            e = n.astype("g") + (s.astype("g") - n) * -np.expm1(-3 * h.astype("g") / r)
            d.replayed += len(h)
            ok = np.abs(y - e) <= 32 * eps * 6
            d.expect(ok.all() and y[0] == n, "exponential",
                     lambda: dict(dtype=char, h=repr(h[~ok][:3]), nugget=repr(n), sill=repr(s), range=repr(r),
                                  got=repr(y[~ok][:3]), expected=repr(e[~ok][:3])))
        y = ul.semivar.exponential(t(np.nan), t(1), t(2), t(3))
        d.expect(y != y, "exponential-nan", "")
