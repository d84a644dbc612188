"""C17: meanvar, mad, rmad and gini."""
import numpy as np

from vf import long
from vf.conc import arrange, as_int, scale
from vf.layouts import Placed, describe, run_modes

PINF, ODD = 2000000000, 2000000003
ASSUMPTIONS = [
    "Results are compared within rounding of the data's scale; data with infinities and NaN (other than "
    "propagation through meanvar), ddof >= n, and sums or squares that overflow are outside the property.",
]


def models(tier, seed):
    big = tier == "thorough"
    cfg = ("CONSTANTS Data = {%s} Lens = {%s} Shift = 2\nSPECIFICATION Spec\n"
           "INVARIANTS Prefix Pairs OrderFree ShiftFree Emitted\n")
    return [dict(name="small", module="WelfordLoop", cfg=cfg % ("0,1,2,3,5,7", "1,2,3,4")),
            dict(name="longer", module="WelfordLoop", cfg=cfg % ("1,2,3,5" if big else "1,3,5", "5,6"))] + [long.laws(tier)]


def traces(tier):
    return [dict(stream="disp", module="Dispersion", failures="DispersionFailures"), long.TRACE]


def val(f):
    if f[0] == ODD:
        return np.longdouble("nan")
    if f[0] == PINF:
        return np.longdouble("inf")
    return np.longdouble(f[0]) / np.longdouble(f[1])


def drive(d):
    import ufunclab as ul
    long.c17(d, ul)
    for name in ("small", "longer"):
        replay(d, ul, name)
    larger(d, ul)
    forms(d, ul)
    offsets(d, ul)
    special(d, ul)


def compare(d, fn, X, exp, tol, info):
    def check(mode, rows, res):
        d.replayed += len(rows)
        r = np.asarray(res[0])
        with np.errstate(all="ignore"):
            e = exp[rows]
            t = tol[rows]
            ok = (r == e) | (np.isnan(r) & np.isnan(e)) | (np.abs(r - e) <= t)
        ok = ok.reshape(len(rows), -1).all(axis=1)
        for b in np.flatnonzero(~ok)[:1]:
            d.violation(fn, dict(call=fn, layout=mode, x=repr(X[rows[b]]), info=info, got=repr(r[b]),
                                 expected=repr(e[b])))
    return check


def replay(d, ul, name):
    groups = {}
    for c in d.cases(name):
        groups.setdefault(len(c["x"]), []).append(c)
    for n, cs in sorted(groups.items()):
        base = np.array([c["x"] for c in cs]).reshape(len(cs), n)
        mean = np.array([val(c["mean"]) for c in cs])
        for char in "bBhHiIlLfdg":
            ints = np.dtype(char).kind in "iu"
            lo = base.min() if ints and np.dtype(char).kind == "u" else 0
            off = -int(lo)
            s = 1 if ints else scale(d.rng, char, 6, 64, 20, half=True)
            X = ((base + off) * s).astype(char)
            out = "d" if ints else char
            eps = float(np.finfo(out).eps)
            for dd in range(min(3, n)):
                var = np.array([val(c["var"][dd]) for c in cs]) * np.longdouble(s) ** 2
                E = np.stack([(mean + off) * s, var], axis=1)
                tol = np.full((len(cs), 2), 64 * eps * 10, dtype="g")
                tol[:, 0] *= s
                tol[:, 1] *= 10 * s * s
                run_modes(d, "meanvar", ul.meanvar, [X, np.full(len(cs), dd)], [((2,), out)],
                          compare(d, "meanvar", X, E, tol, dict(ddof=dd, dtype=char)), singles=3)
            if char not in "fdg":
                continue
            s = scale(d.rng, char, 6, 64, 20)
            X = ((base + off) * s).astype(char)
            for u in (0, 1):
                for fn, sc in (("mad", s), ("rmad", 1), ("gini", 1)):
                    E = np.array([val(c[fn][u]) for c in cs]) * sc
                    if fn != "mad":
                        Z = (base * s).astype(char)
                    else:
                        Z = X
                    if fn == "rmad":
                        E = np.array([2 * val(c["gini"][u]) for c in cs])
                    with np.errstate(all="ignore"):
                        tol = 64 * eps * (np.abs(np.nan_to_num(E)) + (sc if fn == "mad" else 0))
                    run_modes(d, fn, getattr(ul, fn), [Z, np.full(len(cs), bool(u))], [((), char)],
                              compare(d, fn, Z, E, tol, dict(unbiased=u, dtype=char)), singles=3)
        d.cover("replay " + name, len(cs))
    d.sample(cs[-1])


def larger(d, ul):
    """Longer integer data whose sums are exact: recovered as integers for the trace specification."""
    for t in range(1500 if d.thorough else 400):
        n = int(d.rng.choice([1, 2, 4, 8, 16, 32, 64, 128, int(d.rng.integers(1, 150))]))
        x = arrange(d.rng.integers(-40, 41, size=n), d.rng)
        char = "hilfdg"[int(d.rng.integers(6))]
        px = Placed(x.astype(char), d.rng)
        dd = 0
        d.begin("meanvar %s" % describe([px.view]))
        m, v = ul.meanvar(px.view, dd)
        rnd = lambda q: as_int(np.rint(q) if abs(q - np.rint(q)) < 0.2 else q)   # noqa: E731
        d.emit("disp", dict(k="mv", x=x.tolist(), type=char, mean=rnd(np.longdouble(m) * n),
                            var=rnd(np.longdouble(v) * n * n) if char != "f" or n <= 16 else
                            int(n * (x * x).sum() - x.sum() ** 2)))
        for u in (False, True):
            if u and n == 1:
                continue
            c = char if char in "fdg" else "d"
            px = Placed(x.astype(c), d.rng)
            d.begin("mad %s" % describe([px.view]))
            q = np.longdouble(ul.mad(px.view, u)) * n * (n - 1 if u else n)
            d.emit("disp", dict(k="mad", x=x.tolist(), type=c, unbiased=u,
                                mad=rnd(q) if c != "f" or n <= 16 else
                                int(np.abs(x[:, None] - x[None]).sum())))


def near(a, b, tol):
    with np.errstate(all="ignore"):
        return bool((abs(a - b) <= tol) or a == b or (a != a and b != b))


def forms(d, ul):
    for t in range(300 if d.thorough else 80):
        for char in "fdg":
            eps = float(np.finfo(char).eps)
            n = int(d.rng.integers(2, 40))
            x = d.rng.standard_normal(n).astype(char) * np.dtype(char).type(float(d.rng.choice([1e-3, 1, 1e4])))
            if d.rng.integers(2):
                x = x[d.rng.integers(0, n, size=n)]        # ties
            sc = float(np.abs(x).max())
            perm = d.rng.permutation(n)
            u = bool(d.rng.integers(2))
            d.begin("dispersion forms %s" % describe([x]))
            tol = 200 * eps * n
            full = np.abs(x[:, None].astype("g") - x[None]).sum() / (n * ((n - 1) if u else n))
            mad = ul.mad(x, u)
            for clause, a, b, tl in [
                    ("mad-order", mad, ul.mad(x[perm], u), tol * sc), ("mad-pairs", mad, full, tol * sc),
                    ("mad-scale", mad * 4, ul.mad(x * 4, u), tol * sc * 4),
                    ("mad-scale", mad, ul.mad(-x, u), tol * sc),
                    ("rmad", ul.rmad(x, u), 2 * ul.gini(x, u), 4 * eps * abs(ul.rmad(x, u))),
                    ("rmad-mean", ul.rmad(abs(x) + sc, u) * ul.meanvar(abs(x) + sc, 0)[0], ul.mad(abs(x) + sc, u),
                     tol * sc),
                    ("mean-order", ul.meanvar(x, 1)[0], ul.meanvar(x[perm], 1)[0], tol * sc),
                    ("variance-order", ul.meanvar(x, 1)[1], ul.meanvar(x[perm], 1)[1], tol * sc * sc),
                    ("ddof", ul.meanvar(x, 1)[1] * (n - 1), ul.meanvar(x, 0)[1] * n, tol * sc * sc * n),
                    ("ddof", ul.meanvar(x, -2)[1] * (n + 2), ul.meanvar(x, 0)[1] * n, tol * sc * sc * n)]:
                d.emit("disp", dict(k="same", clause=clause, r=[0, 0 if near(a, b, tl) else 1], type=char,
                                    x=repr(x.tolist()), values=[repr(a), repr(b)], unbiased=u))


def offsets(d, ul):
    """A large common offset leaves the variance and mad accurate."""
    for char, e in (("f", 10), ("d", 28), ("g", 30)):
        for t in range(60 if d.thorough else 20):
            n = int(d.rng.integers(2, 30))
            x = d.rng.integers(-8, 9, size=n)
            x[0], x[-1] = -9, 9
            off = 2.0 ** e * int(d.rng.choice([-1, 1]))
            y = (x + off).astype(char)
            d.begin("offset %s" % describe([y]))
            m, v = ul.meanvar(y, 1)
            want = np.var(x.astype("g"), ddof=1)
            mad = ul.mad(y, True)
            wmad = np.abs(x[:, None] - x[None]).sum() / (n * (n - 1))
            mt = 1e-3 if char == "d" else 0.05 if char == "f" else 1e-3
            d.emit("disp", dict(k="same", clause="offset-variance", r=[0, 0 if near(v, want, 1e-2 * want) else 1],
                                type=char, n=n, values=[repr(v), repr(want)]))
            d.emit("disp", dict(k="same", clause="offset-mean", r=[
                0, 0 if near(np.longdouble(m) - np.longdouble(off), np.longdouble(x.mean()),
                             (n + 4) * np.finfo(char).eps * abs(off)) else 1], type=char, n=n, values=[repr(m)]))
            if n <= 8:
                d.emit("disp", dict(k="same", clause="offset-mad", r=[0, 0 if near(mad, wmad, mt * wmad * n) else 1],
                                    type=char, n=n, values=[repr(mad), repr(wmad)]))
    for char in "bBhHiIlL":           # the ends of the integer types
        ii = np.iinfo(char)
        for x in ([ii.min, ii.max], [ii.max] * 3, [ii.max, ii.max - 2], [ii.min, ii.min + 2, ii.min + 4],
                  [ii.min, ii.max, ii.min, ii.max]):
            a = np.array(x, dtype=char)
            d.begin("meanvar extremes %s" % describe([a]))
            m, v = ul.meanvar(a, 0)
            xs = [int(q) for q in x]
            em = sum(xs) / len(xs)
            ev = sum((q - sum(xs) / len(xs)) ** 2 for q in xs) / len(xs)
            big = max(abs(q) for q in xs)
            d.expect(near(m, em, 8 * 2.3e-16 * big) and near(v, ev, 64 * 2.3e-16 * big * big), "extremes",
                     lambda: dict(x=repr(a), got=[repr(m), repr(v)], expected=[em, ev]))


def special(d, ul):
    for char in "fdg":
        for x in ([np.nan, 1, 2], [1, np.nan], [1, 2, np.nan], [np.nan]):
            d.begin("meanvar nan")
            r = ul.meanvar(np.array(x, dtype=char), 0)
            d.expect(np.isnan(r).all(), "nan", lambda: dict(x=repr(x), got=repr(r)))
        d.begin("meanvar one")
        r = ul.meanvar(np.array([[3.], [5.]], dtype=char), [0, 1])
        d.expect(r[0, 0] == 3 and r[1, 0] == 5 and r[0, 1] == 0 and np.isnan(r[1, 1]), "one-element", repr(r))
    for name, args in [("meanvar", (np.zeros((2, 0)), 0)), ("mad", (np.zeros(0), True)), ("gini", (np.zeros(0), True)),
                       ("rmad", (np.zeros(0), False))]:
        d.begin(name + " empty")
        try:
            getattr(ul, name)(*args)
            d.violation("empty-accepted", name)
        except ValueError:
            pass
    x = d.rng.integers(0, 9, size=(3, 4, 5))
    for ax in (0, 1, 2, -1):
        d.begin("axis")
        m = np.moveaxis(x, ax, -1)
        a = ul.meanvar(x, 1, axes=[ax, (), -1])
        b = ul.meanvar(np.ascontiguousarray(m), 1)
        d.expect(np.allclose(a, b, rtol=1e-14, atol=0), "axis", "meanvar")
        c = ul.mad(x, True, axis=ax)
        e = ul.mad(np.ascontiguousarray(m).astype(float), True)
        d.expect(np.allclose(c, e, rtol=1e-14, atol=0), "axis", "mad")
    d.begin("ddof broadcast")
    a = ul.meanvar(x[0, 0], [0, 1, 2])
    d.expect(all(np.allclose(a[k], ul.meanvar(x[0, 0], k)) for k in range(3)), "broadcast", "meanvar")
