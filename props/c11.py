"""C11: sosfilter, sosfilter_ic, sosfilter_ic_contig."""
import numpy as np

from vf import long
from vf.conc import as_ints, scale as anywhere
from vf.layouts import describe, run_modes, same

ASSUMPTIONS = [
    "sos[:, 3] (a0) is 1, as SciPy requires; data of the exact comparisons are integers scaled by "
    "powers of two and small enough to be exact in the type.",
    "sosfilter_ic_contig is given C-contiguous arrays only, as its documentation demands.",
    "Chunk equality on arbitrary floats is judged to within rounding (relative to the largest value).",
]


def models(tier, seed):
    big = tier == "thorough"
    cfg = ("CONSTANTS Xs = {%s} MaxLen = %d MaxSections = %d ZeroState = %s MaxCuts = %d\nSPECIFICATION Spec\n"
           "INVARIANTS StateSpace Difference Emitted\nPROPERTY Causal\n")
    return [dict(name="rest", module="CascadeLoop", cfg=cfg % ("0,3,4,5" if big else "2,4,5", 4, 2, "TRUE", 0)),
            dict(name="state", module="CascadeLoop", cfg=cfg % ("1,4", 3 if big else 2, 2, "FALSE", 1)),
            dict(name="three", module="CascadeLoop", cfg=cfg % ("4,5" if big else "4", 3, 3, "TRUE", 0))] + [long.laws(tier)]


def traces(tier):
    return [dict(stream="sos", module="Sections", failures="SectionsFailures"), long.TRACE]


def full(sos, m):
    """<<b0, b1, b2, a1, a2>> -> rows of 6 with a0 = 1."""
    s = np.asarray(sos, dtype=float).reshape(len(sos), m, 5)
    return np.concatenate([s[..., :3], np.ones(s.shape[:2] + (1,)), s[..., 3:]], axis=2)


def report(d, clause, char, mode, got, exp, what):
    if got.shape != exp.shape:
        d.violation(clause + "-shape", dict(got=got.shape, expected=exp.shape))
        return
    s = same(got, exp).reshape(got.shape[0], -1).all(axis=1)
    for k in np.flatnonzero(~s)[:1]:
        d.violation(clause, dict(call=clause, dtype=char, layout=mode, got=repr(got[k]), expected=repr(exp[k]),
                                 **{n: repr(v[k]) for n, v in what.items()}))


def drive(d):
    import ufunclab as ul
    long.c11(d, ul)
    for name in ("rest", "state", "three"):
        g = {}
        for c in d.cases(name):
            g.setdefault((len(c["sos"]), tuple(c["cuts"])), []).append(c)
        for (m, cuts), cs in sorted(g.items()):
            if not d.thorough and len(cs) > 1500:
                cs = [cs[k] for k in d.rng.permutation(len(cs))[:1500]]
            replay(d, ul, m, cuts, cs)
        d.sample(dict(model=name, case=cs[-1]))
    shared(d, ul)
    record(d, ul)


def replay(d, ul, m, cuts, cs):
    n = len(cs[0]["x"])
    sos = full([c["sos"] for c in cs], m)
    x, y = (np.array([c[k] for c in cs], dtype=float).reshape(len(cs), n) for k in "xy")
    zi, zf = (np.array([c[k] for c in cs], dtype=float).reshape(len(cs), m, 2) for k in ("zi", "zf"))
    for char in "fdg":
        s = anywhere(d.rng, char, 10, -16, 40)
        S, X, Y, ZI, ZF = sos.astype(char), (x * s).astype(char), (y * s).astype(char), \
            (zi * s).astype(char), (zf * s).astype(char)
        if not zi.any():
            def check(mode, rows, res):
                d.replayed += len(rows)
                report(d, "sosfilter", char, mode, res[0], Y[rows], dict(sos=S[rows], x=X[rows]))
            for _ in range(2):
                run_modes(d, "sosfilter", ul.sosfilter, [S, X], [((n,), char)], check, singles=3)
            d.cover("replay sosfilter", len(cs))
        edges = [0] + list(cuts) + [n]
        for fn, modes in (("sosfilter_ic", None), ("sosfilter_ic_contig", ["contig", "single"])):
            st = ZI
            f = getattr(ul, fn)
            for a, b in zip(edges, edges[1:]):
                def check(mode, rows, res, a=a, b=b, st=st):
                    d.replayed += len(rows)
                    what = dict(sos=S[rows], x=X[rows, a:b], zi=st[rows])
                    report(d, fn, char, mode, res[0], Y[rows, a:b], what)
                    if b == n:
                        report(d, fn + "-state", char, mode, res[1], ZF[rows], what)
                run_modes(d, fn, f, [S, np.ascontiguousarray(X[:, a:b]), st], [((b - a,), char), ((m, 2), char)],
                          check, modes=modes, singles=3)
                st = f(S, np.ascontiguousarray(X[:, a:b]), st)[1]
                d.cover("replay " + fn, len(cs))
        # in place: the state array is updated by each call, the signal overwritten
        st, Xc, Sc = ZI.copy(), X.copy(), S.copy()
        for a, b in zip(edges, edges[1:]):
            d.begin("sosfilter_ic in place m=%d %s" % (m, char))
            ul.sosfilter_ic(Sc, Xc[:, a:b], st, out=(Xc[:, a:b], st))
            d.replayed += len(cs)
        report(d, "sosfilter_ic-inplace", char, "in place", Xc, Y, dict(sos=S, x=X, zi=ZI))
        report(d, "sosfilter_ic-inplace-state", char, "in place", st, ZF, dict(sos=S, x=X, zi=ZI))


def shared(d, ul):
    """One filter for many signals, many filters for one signal, and a0 of any sign of 1."""
    sos = full([[[1, -1, 2, 1, -1], [2, 1, -3, -1, 2]], [[0, 1, -1, 1, 3], [1, 0, 0, 2, 0]],
                [[2, 0, 0, 0, 0], [0, 0, 2, 0, 0]]], 2)
    x = d.rng.integers(-3, 4, size=(4, 6)).astype(float)
    z = d.rng.integers(-3, 4, size=(3, 2, 2)).astype(float)
    for char in "fdg":
        S, X, Z = sos.astype(char), x.astype(char), z.astype(char)
        for f, ic in ((ul.sosfilter, 0), (ul.sosfilter_ic, 1), (ul.sosfilter_ic_contig, 1)):
            d.begin("%s broadcast %s" % (f.__name__, char))
            a = f(S[:, None], X, *([Z[:, None]] if ic else []))
            a = a[0] if ic else a
            for i in range(3):
                for j in range(4):
                    b = f(S[i], X[j], *([Z[i]] if ic else []))
                    b = b[0] if ic else b
                    d.replayed += 1
                    d.expect(np.array_equal(a[i, j], b), f.__name__ + "-broadcast",
                             lambda: dict(dtype=char, args=describe([S[i], X[j], Z[i]]), got=repr(a[i, j]),
                                          single=repr(b)))


def exact_run(sos, zi, x, limit):
    """Python-integer run, to stop before values leave the exact range."""
    z = [list(v) for v in zi]
    for n, v in enumerate(x):
        big = abs(v)
        for c, s in zip(sos, z):
            yv = c[0] * v + s[0]
            terms = [c[0] * v, c[1] * v, c[2] * v, c[3] * yv, c[4] * yv, s[1] + c[1] * v, yv]
            s[0], s[1] = s[1] + c[1] * v - c[3] * yv, c[2] * v - c[4] * yv
            big = max([big] + [abs(t) for t in terms] + [abs(t) for t in s])
            v = yv
        if big > limit:
            return n
    return len(x)




def record(d, ul):
    lens = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 32, 33, 63, 64, 65, 129, 300]
    for char in "fdg":
        t = np.dtype(char).type
        limit = 1 << 22 if char == "f" else 1 << 29
        for n0 in lens * (5 if d.thorough else 2):
            m = int(d.rng.choice([0, 1, 1, 2, 2, 3, 4, 6]))
            style = int(d.rng.integers(3))
            sos = d.rng.integers(-2, 3, size=(m, 5)) if style else \
                np.stack([d.rng.integers(-3, 4, size=m), d.rng.integers(-3, 4, size=m), d.rng.integers(-3, 4, size=m),
                          d.rng.integers(-1, 2, size=m), d.rng.integers(0, 2, size=m)], 1) if m else np.zeros((0, 5), int)
            sos = [[int(v) for v in r] for r in sos]
            zi = [[int(v) for v in r] for r in d.rng.integers(-4, 5, size=(m, 2))]
            x = [int(v) for v in d.rng.integers(-5, 6, size=n0)]
            if style == 2:
                x = [v if k < 3 else 0 for k, v in enumerate(x)]
            for fn in ("sosfilter", "sosfilter_ic", "sosfilter_ic_contig"):
                z0 = [[0, 0]] * m if fn == "sosfilter" else zi
                n = exact_run(sos, z0, x, limit)
                s = anywhere(d.rng, char, 8, 0, 40 if char == "f" else 80)
                S = full([sos], m)[0].astype(char)
                X = (np.array(x[:n], dtype=float) * s).astype(char)
                Z = (np.array(z0, dtype=float).reshape(m, 2) * s).astype(char)
                if fn != "sosfilter_ic_contig" and d.rng.integers(2):
                    b = np.zeros((n, 2), dtype=char)
                    b[:, 1] = X[::-1]
                    X = b[::-1, 1]
                d.begin("%s %s %s" % (fn, char, describe([S, X, Z])))
                if fn == "sosfilter":
                    y = ul.sosfilter(S, X)
                    d.emit("sos", dict(fn=fn, dtype=char, sos=sos, x=x[:n], y=as_ints(y, 1 / s)))
                else:
                    y, zf = getattr(ul, fn)(S, X, Z)
                    d.emit("sos", dict(fn=fn, dtype=char, sos=sos, x=x[:n], zi=z0, y=as_ints(y, 1 / s),
                                       zf=[as_ints(r, 1 / s) for r in zf]))
            # stable filters on arbitrary floats: chunks against one call
            m = int(d.rng.integers(0, 4))
            r, th = d.rng.uniform(0, 0.9, size=m), d.rng.uniform(0, np.pi, size=m)
            S = np.stack([d.rng.standard_normal(m), d.rng.standard_normal(m), d.rng.standard_normal(m), np.ones(m),
                          -2 * r * np.cos(th), r * r], 1).astype(char)
            X = d.rng.standard_normal(n0).astype(char)
            Z = d.rng.standard_normal((m, 2)).astype(char)
            k = int(d.rng.integers(0, 4))
            cp = [0] + sorted(int(v) for v in d.rng.integers(0, n0 + 1, size=k)) + [n0]
            for fn in ("sosfilter_ic", "sosfilter_ic_contig"):
                d.begin("%s chunks %r %s" % (fn, cp, describe([S, X, Z])))
                y, zf = getattr(ul, fn)(S, X, Z)
                parts, st = [], Z
                for p, q in zip(cp, cp[1:]):
                    yy, st = getattr(ul, fn)(S, np.ascontiguousarray(X[p:q]), st)
                    parts.append(yy)
                scale = max(1.0, float(np.abs(y).max(initial=0)), float(np.abs(zf).max(initial=0)))
                tol = (1e-3 if char == "f" else 1e-9) * scale
                # a value equal to the reference within tol gets the reference's code
                ref = np.arange(n0)
                whole = ref.tolist()
                pl = []
                for (p, q), yy in zip(zip(cp, cp[1:]), parts):
                    okv = np.abs(yy - y[p:q]) <= tol
                    pl.append([int(i) if o else -1 for i, o in zip(ref[p:q], okv)])
                okf = (np.abs(st - zf) <= tol).reshape(-1)
                d.emit("sos", dict(fn="chunks", of=fn, whole=whole, parts=pl, wfinal=list(range(2 * m)),
                                   pfinal=[i if o else -1 for i, o in enumerate(okf)]))
            # sosfilter is sosfilter_ic from rest
            d.begin("sosfilter from rest %s" % describe([S, X]))
            y = ul.sosfilter(S, X)
            w = ul.sosfilter_ic(S, X, np.zeros((m, 2), dtype=char))[0]
            ok = np.abs(y - w) <= (1e-3 if char == "f" else 1e-9) * max(1.0, float(np.abs(w).max(initial=0)))
            d.emit("sos", dict(fn="chunks", of="sosfilter", whole=list(range(n0)), wfinal=[], pfinal=[],
                               parts=[[i if o else -1 for i, o in enumerate(ok)]]))
