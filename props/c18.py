"""C18: pearson_corr and wjaccard."""
import numpy as np

from vf import long
from vf.conc import arrange, as_int, scale
from vf.layouts import Placed, describe, run_modes

ODD, NAN = 2000000003, 2000000001
ASSUMPTIONS = ["Results are compared within rounding.", "wjaccard of data with negative values, or whose sums overflow, is outside the property."]


def models(tier, seed):
    big = tier == "thorough"
    cfg = ("CONSTANTS Data = {%s} Lens = {%s}\nSPECIFICATION Spec\n"
           "INVARIANTS Right Jaccard Bounded Symmetric Emitted\n")
    return [dict(name="small", module="CorrLoop", cfg=cfg % ("0,1,2,5", "1,2,3")),
            dict(name="longer", module="CorrLoop", cfg=cfg % ("0,1,3" if big else "0,1", "4,5"))] + [long.laws(tier)]


def traces(tier):
    return [dict(stream="corr", module="Corr", failures="CorrFailures"), long.TRACE]


def drive(d):
    import ufunclab as ul
    long.c18(d, ul)
    for name in ("small", "longer"):
        replay(d, ul, name)
    larger(d, ul)
    forms(d, ul)
    flat(d, ul)
    special(d, ul)


def replay(d, ul, name):
    groups = {}
    for c in d.cases(name):
        groups.setdefault(len(c["x"]), []).append(c)
    for n, cs in sorted(groups.items()):
        if not d.thorough and len(cs) > 3000:
            cs = [cs[k] for k in d.rng.permutation(len(cs))[:3000]]
        bx, by = (np.array([c[k] for c in cs]).reshape(len(cs), n) for k in "xy")
        g = lambda k: np.array([c[k] for c in cs], dtype="g")   # noqa: E731
        with np.errstate(all="ignore"):
            corr = g("cov") / np.sqrt(g("vx") * g("vy"))
            wj = g("lo") / g("hi")
        for char in "bBhHiIlLfdg":
            ints = np.dtype(char).kind in "iu"
            if ints:
                ii = np.iinfo(char)
                m = 1
                o = int(d.rng.choice([0, min(100, ii.max - 5)]))
                if n > 2 or d.rng.integers(2):
                    hi = min(ii.max, 2 ** 52) - 5
                    o2 = int(d.rng.choice([0, hi]))
                else:
                    o2 = 0
                X, Y = (bx + o).astype(char), (by + o2).astype(char)
                if ii.min < 0 and d.rng.integers(2):
                    X = (bx + max(ii.min, -2 ** 52)).astype(char)
                J = max(1, min(ii.max // 5, 2 ** 50))
                JX, JY = bx.astype(char) * np.dtype(char).type(J), by.astype(char) * np.dtype(char).type(J)
            else:
                m = scale(d.rng, char, 30, 20, 20)
                X = (bx * m + m * int(d.rng.integers(-3, 4))).astype(char)
                Y = (by / m - 1 / m).astype(char)
                JX, JY = (bx * m).astype(char), (by * m).astype(char)
            out = "d" if ints else char
            eps = float(np.finfo(out).eps)
            # a large offset against a spread of at least 1: rounding of the mean matters
            amp = max(abs(int(v)) for v in (X.max(), X.min(), Y.max(), Y.min())) if ints else 0
            big = amp * eps * 64

            def cmp(fn, exp, A, B, tol):
                def check(mode, rows, res):
                    d.replayed += len(rows)
                    r = np.asarray(res[0])
                    if r.dtype != np.dtype(out):
                        d.violation("dtype", dict(call=fn, dtype=char, got=str(r.dtype)))
                    with np.errstate(all="ignore"):
                        e = exp[rows]
                        ok = (np.isnan(r) & np.isnan(e)) | (np.abs(r - e) <= tol)
                    for b in np.flatnonzero(~ok)[:1]:
                        d.violation(fn, dict(call=fn, dtype=char, layout=mode, x=repr(A[rows[b]]), y=repr(B[rows[b]]),
                                             got=repr(r[b]), expected=repr(e[b])))
                return check
            if n >= 2 and big < 0.2:
                run_modes(d, "pearson_corr", ul.pearson_corr, [X, Y], [((), out)],
                          cmp("pearson_corr", corr, X, Y, 64 * eps + big), singles=4)
            if char != "g":
                for A, B in (JX, JY), (bx.astype(char), by.astype(char)):
                    run_modes(d, "wjaccard", ul.wjaccard, [A, B], [((), out)], cmp("wjaccard", wj, A, B, 16 * eps),
                              singles=4)
        d.cover("replay " + name, len(cs))
    d.sample(cs[-1])


def larger(d, ul):
    for t in range(500 if d.thorough else 140):
        n = int(d.rng.choice([2, 3, 4, 5, 8, 16, 17, 64]))
        char = "bBhHiIlLfdg"[int(d.rng.integers(11))]
        x, y = d.rng.integers(0, 30, size=(2, n))
        if d.rng.integers(4) == 0:
            y = x * int(d.rng.integers(1, 3)) + int(d.rng.integers(5))
        if d.rng.integers(6) == 0:
            x[:] = x[0]
        if d.rng.integers(2):
            x = arrange(x, d.rng)
        px, py = Placed(x.astype(char), d.rng), Placed(y.astype(char), d.rng)
        d.begin("pearson_corr, wjaccard %s" % describe([px.view, py.view]))
        r = np.longdouble(ul.pearson_corr(px.view, py.view))
        L = np.longdouble
        v = lambda a, b: n * int((a * b).sum()) - int(a.sum()) * int(b.sum())   # noqa: E731
        q = r * np.sqrt(L(v(x, x)) * L(v(y, y)))
        tol = 0.2 if char != "f" else 3e-5 * max(1, abs(v(x, y)), np.sqrt(float(v(x, x)) * float(v(y, y))))
        z = v(x, y) if abs(q - v(x, y)) <= tol else as_int(np.rint(q))
        d.emit("corr", dict(k="corr", x=x.tolist(), y=y.tolist(), type=char, out=z if q == q else NAN, r=repr(r)))
        if char != "g":
            r = np.longdouble(ul.wjaccard(px.view, py.view))
            q = r * int(np.maximum(x, y).sum())
            d.emit("corr", dict(k="wj", x=x.tolist(), y=y.tolist(), type=char, r=repr(r),
                                out=NAN if q != q else as_int(np.rint(q) if abs(q - np.rint(q)) < 0.01 else q)))
        d.expect(px.unchanged() and py.unchanged(), "input-modified", "corr")


def forms(d, ul):
    for t in range(300 if d.thorough else 80):
        for char in "fdg":
            eps = float(np.finfo(char).eps)
            n = int(d.rng.integers(2, 40))
            x, y = d.rng.standard_normal((2, n)).astype(char)
            x *= np.dtype(char).type(float(d.rng.choice([1e-6, 1, 1e6, 1e15])))
            tol = 300 * eps
            d.begin("corr forms %s" % describe([x, y]))
            perm = d.rng.permutation(n)
            r = ul.pearson_corr(x, y)
            a = np.dtype(char).type(2.0) ** np.dtype(char).type(int(d.rng.integers(-10, 10)))
            for clause, p, q in [("symmetric", r, ul.pearson_corr(y, x)), ("order", r, ul.pearson_corr(x[perm], y[perm])),
                                 ("scale", r, ul.pearson_corr(x * a, y / a)), ("negate", r, -ul.pearson_corr(-x, y)),
                                 ("one", 1, ul.pearson_corr(x, x * a)), ("one", -1, ul.pearson_corr(y, 3 - y * a))]:
                d.emit("corr", dict(k="same", clause="corr-" + clause, r=[0, 0 if abs(p - q) <= tol else 1], type=char,
                                    x=repr(x.tolist()), y=repr(y.tolist()), values=[repr(p), repr(q)]))
            k = lambda v: int(np.clip(np.rint(float(v) * 1e6), -1e8, 1e8))   # noqa: E731
            d.emit("corr", dict(k="bounds", lo=-1000000, hi=1000000, r=k(r), type=char))
            if char == "g":
                continue
            u, v = abs(x), abs(y) * abs(x).max()
            r = ul.wjaccard(u, v)
            for clause, p, q in [("symmetric", r, ul.wjaccard(v, u)), ("order", r, ul.wjaccard(u[perm], v[perm])),
                                 ("scale", r, ul.wjaccard(u * a, v * a)), ("one", 1, ul.wjaccard(u, u)),
                                 ("zero", 0, ul.wjaccard(u, u * 0)), ("half", 0.5, ul.wjaccard(u, u * 2))]:
                d.emit("corr", dict(k="same", clause="wjaccard-" + clause, r=[0, 0 if abs(p - q) <= tol else 1], type=char,
                                    x=repr(u.tolist()), y=repr(v.tolist()), values=[repr(p), repr(q)]))
            d.emit("corr", dict(k="bounds", lo=0, hi=1000000, r=k(r), type=char))


def flat(d, ul):
    """A variation that is tiny beside the mean, yet exact."""
    for char in "fdgilL":
        t = np.dtype(char).type
        isint = char in "ilL"
        mant = 31 if char == "i" else np.finfo("d" if isint else char).nmant
        for _ in range(60 if d.thorough else 20):
            n = int(d.rng.choice([2, 4]))
            e = int(d.rng.choice([mant - 5, mant - 7, mant - 10, 10]))
            x, y = (n * d.rng.integers(0, 4, size=(2, n)))
            off = int(d.rng.choice([1, -1])) * 2 ** e if char != "L" else 2 ** e
            X, Y = (x.astype(char) + t(off)), (y.astype(char) + t(off // 4))
            d.begin("corr flat %s" % describe([X, Y]))
            c = "d" if isint else char
            a, b = ul.pearson_corr(X, Y), ul.pearson_corr(x.astype(c), y.astype(c))
            out = [("shift", a, b), ("shift", ul.pearson_corr(Y, X), b)]
            m = int(d.rng.integers(2, 30))
            z = d.rng.integers(0, 9, size=m)
            Z = z.astype(char) + t(off)
            one = 1 if len(set(z.tolist())) > 1 else np.nan
            out += [("one", ul.pearson_corr(Z, Z), one)] if one == 1 else []
            if not isint:
                out += [("one", ul.pearson_corr(Z, -Z), -one)] if one == 1 else []
                out += [("one", ul.pearson_corr(Z * 4, Z / 2), one)] if one == 1 else []
            for clause, p, q in out:
                same = bool(abs(p - q) <= 300 * np.finfo("d" if isint else char).eps or (p != p and q != q))
                d.emit("corr", dict(k="same", clause="corr-flat-" + clause, r=[0, 0 if same else 1], type=char,
                                    x=repr(X.tolist()), y=repr(Y.tolist()), z=repr(Z.tolist()), values=[repr(p), repr(q)]))


def special(d, ul):
    for char in "fdg":
        for bad in (np.nan, np.inf, -np.inf):
            for n in (2, 3, 5):
                for pos in range(n):
                    x, y = d.rng.integers(0, 9, size=(2, n)).astype(char)
                    x[-1] += 10
                    y[0] += 10
                    z = x.copy()
                    z[pos] = bad
                    d.begin("corr special %s" % describe([z, y]))
                    d.expect(np.isnan(ul.pearson_corr(z, y)) and np.isnan(ul.pearson_corr(y, z)), "corr-special",
                             lambda: dict(x=repr(z), y=repr(y), got=repr(ul.pearson_corr(z, y))))
                    if char != "g" and bad != -np.inf:
                        w, w2 = ul.wjaccard(z, y), ul.wjaccard(y, z)
                        want = np.nan if bad != bad else 0
                        d.expect(all(q == want or (q != q and want != want) for q in (w, w2)), "wjaccard-special",
                                 lambda: dict(x=repr(z), y=repr(y), got=[repr(w), repr(w2)], expected=want))
                    if char != "g":
                        w = ul.wjaccard(z, z) if bad > 0 or bad != bad else np.nan
                        d.expect(np.isnan(w), "wjaccard-special", lambda: dict(x=repr(z), got=repr(w)))
    # no overflow in the accumulation
    for char in "bBhHiIlL":
        hi = np.iinfo(char).max
        n = 200
        x, y = np.full(n, hi, dtype=char), np.full(n, hi, dtype=char)
        y[::2] = 0
        d.begin("wjaccard at the limit %s" % char)
        r = ul.wjaccard(x, y)
        d.expect(abs(r - 0.5) < 1e-12, "wjaccard-overflow", lambda: dict(dtype=char, got=repr(r)))
        x = np.zeros(n, dtype=char)
        x[1::2] = hi
        d.begin("corr at the limit %s" % char)
        r, q = ul.pearson_corr(x, x), ul.pearson_corr(x, (hi - x).astype(char))
        d.expect(abs(r - 1) < 1e-12 and abs(q + 1) < 1e-12, "corr-overflow", lambda: dict(dtype=char, got=repr([r, q])))
        lo = np.iinfo(char).min
        x = np.array([lo, hi, 0], dtype=char)
        r = ul.pearson_corr(x, x)
        d.expect(abs(r - 1) < 1e-12, "corr-overflow", lambda: dict(dtype=char, got=repr(r)))
    for char in "bBhHiIlLfdg":
        for z in (0, 1):
            d.begin("pearson_corr of %d elements" % z)
            try:
                ul.pearson_corr(np.zeros((3, z), dtype=char), np.zeros((3, z), dtype=char))
                d.violation("short-accepted", dict(n=z, dtype=char))
            except ValueError:
                pass
        if char != "g":
            d.begin("wjaccard of 0 elements")
            try:
                ul.wjaccard(np.zeros(0, dtype=char), np.zeros(0, dtype=char))
                d.violation("short-accepted", dict(n=0, dtype=char))
            except ValueError:
                pass
    x, y = d.rng.integers(0, 9, size=(2, 3, 1, 6))
    y = y.reshape(1, 3, 6)
    d.begin("corr broadcast")
    for f in (ul.pearson_corr, ul.wjaccard):
        r = f(x, y)
        e = np.array([[f(x[i, 0].copy(), y[0, j].copy()) for j in range(3)] for i in range(3)])
        d.expect(np.allclose(r, e, rtol=1e-14, atol=1e-14, equal_nan=True), "broadcast", f.__name__)
        s = f(np.moveaxis(x, -1, 0).copy(), np.moveaxis(y, -1, 0).copy(), axis=0)
        d.expect(np.allclose(s, e, rtol=1e-14, atol=1e-14, equal_nan=True), "axis", f.__name__)
