"""C20: vnorm, rms, vdot, cross2, cross3, tri_area, tri_area_indexed."""
from fractions import Fraction

import numpy as np

from vf import long
from vf.conc import as_int, scale
from vf.layouts import Placed, describe, run_modes

NAN, PINF, ODD = 2000000001, 2000000000, 2000000003
ASSUMPTIONS = [
    "Results are compared within rounding; a triangle's area within the error of its squared sides.",
    "NaN orders of vnorm, complex numbers with both an infinite and a NaN part, and overflow of rms and vdot, "
    "and integer results that do not fit the type, are outside the property.",
]


def models(tier, seed):
    big = tier == "thorough"
    return [dict(name="norm", module="NormLoop",
                 cfg="CONSTANTS Mods = {0,1,2,5,13,%d,%d} Orders = {1,2,3,4,%d} MaxLen = %d\nSPECIFICATION Spec\n"
                     "INVARIANTS Right Bounded Powers Emitted\n" % (PINF, NAN, PINF, 5 if big else 4))] + [
        dict(name=name, module="AreaCases",
             cfg="CONSTANTS Kind = \"%s\" Data = {%s} Dim = %d NPts = %d Shift = 2\nSPECIFICATION Spec\n"
                 "INVARIANTS Lagrange Anti Symmetric HeronAgrees Emitted\n" % (kind, data, dim, pts))
        for name, kind, data, dim, pts in [
            ("vec2", "vec", "0,1,2,3,5,7", 2, 0), ("vec3", "vec", "0,2,3,7" if big else "0,2,5", 3, 0),
            ("tri1", "tri", "0,1,2,3,5,7", 1, 3), ("tri2", "tri", "0,2,3,5" if big else "0,2,5", 2, 3),
            ("tri3", "tri", "2,3", 3, 3), ("idx", "idx", "2,4", 2, 3), ("idx4", "idx", "2,5", 1, 4)]] + [long.laws(tier)]


def traces(tier):
    return [dict(stream="geom", module="Geometry", failures="GeometryFailures"), long.TRACE]


def drive(d):
    import ufunclab as ul
    long.c20(d, ul)
    norms(d, ul)
    vectors(d, ul)
    areas(d, ul)
    larger(d, ul)
    chains(d, ul)
    extremes(d, ul)
    objects(d, ul)


def val(r):
    if r["num"] in (NAN, ODD):
        return np.longdouble("nan")
    if r["num"] == PINF:
        return np.longdouble("inf")
    return (np.longdouble(r["num"]) / r["den"]) ** (np.longdouble(1) / r["p"])


# a complex (or signed real) number of each modulus
PARTS = {0: [(0, 0)], 1: [(1, 0), (0, 1), (-1, 0), (0, -1)], 2: [(2, 0), (0, -2)], 5: [(3, 4), (-4, 3), (5, 0), (4, -3)],
         13: [(5, 12), (-12, -5), (0, 13)], PINF: [(np.inf, 0), (-np.inf, 2), (1, np.inf)],
         NAN: [(np.nan, 0), (np.nan, 1), (1, np.nan)]}


def pick(d, m, cplx):
    c = PARTS[m]
    a, b = c[int(d.rng.integers(len(c)))]
    if cplx:
        return complex(a, b)
    r = np.nan if m == NAN else np.inf if m == PINF else m
    return float(r) * (1 if d.rng.integers(2) else -1)


def compare(d, fn, args, exp, tol, char, ok2=None):
    def check(mode, rows, res):
        d.replayed += len(rows)
        r = np.asarray(res[0])
        with np.errstate(all="ignore"):
            e = exp[rows]
            ok = (r == e) | (np.isnan(r) & np.isnan(e)) | (np.abs(r - e) <= (tol if np.isscalar(tol) else tol[rows]))
        if ok.ndim > 1:
            ok = ok.reshape(len(rows), -1).all(axis=1)
        for b in np.flatnonzero(~ok)[:1]:
            d.violation(fn, dict(call=fn, dtype=char, layout=mode, args=[repr(a[rows[b]]) for a in args], got=repr(r[b]),
                                 expected=repr(e[b])))
    return check


def norms(d, ul):
    groups = {}
    for c in d.cases("norm"):
        groups.setdefault(len(c["m"]), []).append(c)
    for n, cs in sorted(groups.items()):
        if not d.thorough and len(cs) > 3000:
            cs = [cs[k] for k in d.rng.permutation(len(cs))[:3000]]
        E = np.array([val(c["norm"]) for c in cs])
        R = np.array([val(c["rms"]) for c in cs])
        rok = np.flatnonzero([c["rms"]["num"] != ODD for c in cs])
        for char in "fdgFDG":
            cplx = char in "FDG"
            out = char.lower()
            eps = float(np.finfo(out).eps)
            s = scale(d.rng, out, 20, 64, 20)
            X = np.array([[pick(d, m, cplx) for m in c["m"]] for c in cs], dtype=char).reshape(len(cs), n)
            X = np.array(X * s, dtype=char)
            if cplx:            # keep the special parts as they are
                for b, c in enumerate(cs):
                    for j, m in enumerate(c["m"]):
                        if m in (PINF, NAN):
                            X[b, j] = pick(d, m, True)
            P = np.array([np.inf if c["p"] == PINF else c["p"] for c in cs], dtype=out)
            tol = 64 * eps * np.abs(np.nan_to_num(E.astype("g"), posinf=0)) * s
            run_modes(d, "vnorm", ul.vnorm, [X, P], [((), out)], compare(d, "vnorm", [X, P], E * s, tol, char), singles=6)
            if n and len(rok):
                s = scale(d.rng, out, 20, 32, 20, half=True)
                A = np.array([[pick(d, m, cplx) for m in cs[k]["m"]] for k in rok], dtype=char).reshape(len(rok), n)
                special = ~np.isfinite(A)
                A = np.where(special, A, np.array(A * s, dtype=char))
                run_modes(d, "rms", ul.rms, [A], [((), out)],
                          compare(d, "rms", [A], R[rok] * s, 64 * eps * np.nan_to_num(R[rok], posinf=0) * s, char), singles=6)
            powers(d, ul, char, cs, E)
        d.cover("replay norm", len(cs))
    for n in (1, 3):
        for char in "fdgFDG":
            for p in (0, -1, -np.inf):
                d.begin("vnorm order %r" % p)
                r = ul.vnorm(np.ones(n, dtype=char), p)
                d.expect(np.isnan(r), "order", lambda: dict(p=p, got=repr(r)))
    d.sample(cs[-1])


def powers(d, ul, char, cs, E):
    """vnorm(x^k, p/k) = vnorm(x, p)^k: small orders, and elements that spread over the whole range of the type."""
    out = char.lower()
    fi = np.finfo(out)
    # the longest exponents that keep the norm and its elements normal numbers
    keep = [b for b, c in enumerate(cs) if c["p"] != PINF and 0 < E[b] < np.inf]
    if not keep:
        return
    span = (fi.maxexp - fi.minexp - 20) * np.log(2.0)
    top = span / np.log(np.maximum(E[keep].astype(float), 2))
    k = np.ceil(top * d.rng.choice([1, 0.98, 0.7, 0.3], size=len(keep)) - 2).astype("g")
    s = np.longdouble(2) ** (fi.minexp + 8)
    m = np.array([cs[b]["m"] for b in keep], dtype="g")
    X = (np.where(m > 0, m, 0) ** k[:, None] * s)
    if char in "FDG":
        X = X * np.array([1, -1, 1j, -1j], dtype="G")[d.rng.integers(0, 4, size=m.shape)]
    else:
        X = X * d.rng.choice([1, -1], size=m.shape)
    X = X.astype(char)
    P = (np.array([cs[b]["p"] for b in keep]) / k).astype(out)
    e = E[keep] ** k * s
    d.begin("vnorm powers %s" % describe([X, P]))
    run_modes(d, "vnorm", ul.vnorm, [X, P], [((), out)],
              compare(d, "vnorm-powers", [X, P], e, 64 * float(fi.eps) * (k + 8) * e, char), singles=6)
    d.cover("powers", len(keep))


def vectors(d, ul):
    for name, fn, key in (("vec2", "cross2", "c2"), ("vec3", "cross3", "c3")):
        cs = list(d.cases(name))
        u, v = (np.array([c[k] for c in cs]) for k in "uv")
        E, dot = np.array([c[key] for c in cs]), np.array([c["dot"] for c in cs])
        core = () if fn == "cross2" else (3,)
        for char in "ilfdg":
            s = 1 if char in "il" else scale(d.rng, char, 10, 64, 20, half=True)
            m = int(d.rng.choice([1, 1, 1000])) if char in "il" else 1
            U, V = (u * s * m).astype(char), (v * s).astype(char)
            run_modes(d, fn, getattr(ul, fn), [U, V], [(core, char)],
                      compare(d, fn, [U, V], E * s * s * m, 0 if char in "il" else 1e-5 * s * s if char == "f" else 1e-13 * s * s,
                              char), singles=10)
            if char in "fdg":
                run_modes(d, "vdot", ul.vdot, [U, V], [((), char)],
                          compare(d, "vdot", [U, V], dot * s * s, 1e-5 * s * s if char == "f" else 1e-13 * s * s, char),
                          singles=10)
        d.cover("replay " + name, len(cs))
        wide(d, getattr(ul, fn), fn, cs, key)
    for n in (0, 1):
        d.begin("vdot %d" % n)
        r = ul.vdot(np.full((2, n), 3.), np.full(n, 2.))
        d.expect((r == 6 * n).all() and r.shape == (2,), "vdot", lambda: repr(r))


def wide(d, f, fn, cs, key):
    """The cross product of integers that no floating point type holds: exact while the result fits the type."""
    for char in "il":
        bits = 31 if char == "i" else 63
        out = []
        for c in [cs[k] for k in d.rng.permutation(len(cs))[:300]]:
            # u = a P + r, v = b Q + s with odd P, Q: the entries are exact in Python
            r = int(d.rng.integers(6, bits - 8))
            P, Q = 2 ** r - 1, 2 ** (bits - 6 - r) + 1
            g = [int(q) for q in d.rng.integers(-1, 2, 6)]
            u = [int(q) * P + e if r < bits - 8 else int(q) * P for q, e in zip(c["u"], g)]
            v = [int(q) * Q + e if r > 12 else int(q) * Q for q, e in zip(c["v"], g[3:])]
            if d.rng.integers(2):       # nearly parallel: the result fits the type, if not its terms
                k = int(d.rng.integers(-3, 4))
                s = [int(q) for q in d.rng.integers(-20, 21, 3)]
                u = [int(q) * P // 3 + e for q, e in zip(c["u"], g)]
                v = [k * a + b for a, b in zip(u, s)]
            if fn == "cross2":
                e = [u[0] * v[1] - u[1] * v[0]]
            else:
                e = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
            if max(abs(q) for q in u + v + e) < 2 ** bits:
                out.append((u, v, e))
        U, V, E = (np.array([o[k] for o in out], dtype=char) for k in range(3))
        for A, B in ((U, V), (Placed(U, d.rng).view, V), (Placed(U, d.rng).view, Placed(V, d.rng).view)):
            d.begin("%s wide %s" % (fn, describe([A, B])))
            r = f(A, B).reshape(E.shape)
            d.replayed += len(E)
            for b in np.flatnonzero((r != E).any(axis=1))[:1]:
                d.violation(fn + "-wide", dict(call=fn, dtype=char, u=repr(U[b]), v=repr(V[b]), got=repr(r[b]), expected=repr(E[b])))
        d.cover("wide integers", len(out))


def area_tol(pts, char, s):
    """Bound of the error of the square of the area: rounding of the squared sides times the largest one."""
    side2 = max(1.0, float(np.max(np.abs(pts)) * 2) ** 2 * np.shape(pts)[-1])
    return 64 * float(np.finfo(char).eps) * side2 * side2 * s ** 4


def areas(d, ul):
    for name in ("tri1", "tri2", "tri3", "idx", "idx4"):
        cs = list(d.cases(name))
        if not d.thorough and len(cs) > 3000:
            cs = [cs[k] for k in d.rng.permutation(len(cs))[:3000]]
        pts = np.array([c["pts"] for c in cs])
        idx = np.array([c["idx"] for c in cs])
        a4 = np.array([np.nan if c["area4"] == NAN else c["area4"] for c in cs], dtype="g")
        for char in "fdg":
            s = scale(d.rng, char, 6, 64, 30, half=True)
            off = 2.0 ** 3 * s * int(d.rng.integers(-1, 2))
            P = (pts * s + off).astype(char)
            tol = np.array([area_tol(p, char, 1) for p in pts])
            E = a4 / 4

            def check(fn, args):
                def f(mode, rows, res):
                    d.replayed += len(rows)
                    r = np.asarray(res[0]).astype("g") / (s * s)
                    with np.errstate(all="ignore"):
                        ok = (np.isnan(r) & np.isnan(E[rows])) | ((np.abs(r * r - E[rows]) <= tol[rows]) & (r >= 0))
                    for b in np.flatnonzero(~ok)[:1]:
                        d.violation(fn, dict(call=fn, dtype=char, layout=mode, args=[repr(a[rows[b]]) for a in args],
                                             got=repr(res[0][b]), expected=repr(np.sqrt(E[rows[b]]) * s * s)))
                return f
            run_modes(d, "tri_area_indexed", ul.tri_area_indexed, [P, idx], [((), char)],
                      check("tri_area_indexed", [P, idx]), singles=10)
            if name.startswith("tri"):
                run_modes(d, "tri_area", ul.tri_area, [P], [((), char)], check("tri_area", [P]), singles=10)
        d.cover("replay " + name, len(cs))
    big = 2 ** 40
    P = d.rng.standard_normal((5, 2))
    for i in ([0, 1, big], [-big, 1, 2], [0, 2 ** 63 - 1, 2], [-2 ** 63, 0, 1], [0, 1, 5], [0, 1, -6]):
        d.begin("tri_area_indexed %r" % i)
        r = ul.tri_area_indexed(P, i)
        d.expect(np.isnan(r), "index-range", lambda: dict(i=i, got=repr(r)))
    d.begin("tri_area_indexed without points")
    d.expect(np.isnan(ul.tri_area_indexed(np.zeros((0, 2)), [0, 0, 0])), "index-range", "no points")


def larger(d, ul):
    rnd = lambda q, t=0.3: as_int(np.rint(q) if abs(q - np.rint(q)) < t else q)    # noqa: E731
    for t in range(400 if d.thorough else 100):
        n = int(d.rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 100]))
        char = "fdg"[t % 3]
        u, v = d.rng.integers(-9, 10, size=(2, n))
        pu, pv = Placed(u.astype(char), d.rng), Placed(v.astype(char), d.rng)
        a = [pu.view, pv.view] if d.rng.integers(2) else [pu.view, v.astype(char)]
        d.begin("vdot, vnorm, rms %s" % describe(a))
        d.emit("geom", dict(k="vdot", u=u.tolist(), v=v.tolist(), out=rnd(ul.vdot(*a)), type=char))
        q = np.longdouble(ul.vnorm(pu.view, 2))
        d.emit("geom", dict(k="sumsq", fn="vnorm", u=u.tolist(), out=rnd(q * q), type=char, r=repr(q)))
        q = np.longdouble(ul.rms(pu.view))
        d.emit("geom", dict(k="sumsq", fn="rms", u=u.tolist(), out=rnd(q * q * n), type=char, r=repr(q)))
        z = (u + 1j * v).astype(char.upper())
        pz = Placed(z, d.rng)
        both = np.concatenate([u, v]).tolist()
        for fn, q in (("vnorm", ul.vnorm(pz.view, 2)), ("rms", np.longdouble(ul.rms(pz.view)) * np.sqrt(np.longdouble(n))),
                      ("rms", np.longdouble(ul.rms(z)) * np.sqrt(np.longdouble(n)))):
            q = np.longdouble(q)
            d.emit("geom", dict(k="sumsq", fn=fn, u=both, out=rnd(q * q), type=char.upper(), r=repr(q)))
        # vectors of two and three dimensions
        u, v = d.rng.integers(-3000, 3001, size=(2, 3))
        ch = "ilfdg"[t % 5]
        d.begin("cross %r %r" % (u, v))
        d.emit("geom", dict(k="cross3", u=u.tolist(), v=v.tolist(), type=ch,
                            out=[as_int(q) for q in ul.cross3(Placed(u.astype(ch), d.rng).view,
                                                              Placed(v.astype(ch), d.rng).view)]) if ch != "f" else
               dict(k="cross3", u=(u % 50).tolist(), v=(v % 50).tolist(), type=ch,
                    out=[as_int(q) for q in ul.cross3((u % 50).astype(ch), (v % 50).astype(ch))]))
        if ch != "f":
            d.emit("geom", dict(k="cross2", u=u[:2].tolist(), v=v[:2].tolist(), type=ch,
                                out=as_int(ul.cross2(u[:2].astype(ch), v[:2].astype(ch)))))
        # points in n dimensions
        m, k = int(d.rng.integers(1, 7)), int(d.rng.integers(1, 7))
        P = d.rng.integers(-6, 7, size=(m, k))
        idx = d.rng.integers(-m - 1, m + 1, size=3)
        c = "dg"[t % 2]
        pp, pi = Placed(P.astype(c), d.rng), Placed(idx, d.rng)
        d.begin("tri_area_indexed %s" % describe([pp.view, pi.view]))
        r = np.longdouble(ul.tri_area_indexed(pp.view, pi.view))
        d.emit("geom", dict(k="area", pts=P.tolist(), idx=idx.tolist(), type=c, out=NAN if r != r else rnd(4 * r * r, 0.01),
                            r=repr(r)))
        # the same with each axis in a unit of its own: a right triangle, so that the area
        # is the product of the scales; the area itself stays well inside the type
        c = "fdg"[t % 3]
        big = np.finfo(c).maxexp
        area = int(d.rng.integers(-big + 16, big - 16))
        s1 = int(d.rng.integers(max(-big + 24, area - big + 16), min(big - 16, area + big - 24)))
        s2 = area - s1
        u, v = (int(q) for q in d.rng.integers(1, 5, size=2))
        if abs(s1 - s2) > 8:
            u, v = (u + u % 2) & ~1 if u != 3 else 4, 2 if v < 3 else 4        # long sides are exact
        P = np.array([[0, 0], [u, 0], [0, v]])[d.rng.permutation(3)]
        Q = np.ldexp(P.astype(c), np.array([s1, s2]))
        d.begin("tri_area needle %s" % describe([Q]))
        r = np.ldexp(np.longdouble(ul.tri_area(Q)), -area)
        d.emit("geom", dict(k="area", pts=P.tolist(), idx=[0, 1, 2], type=c, scales=[s1, s2],
                            out=NAN if r != r else rnd(4 * r * r, 0.01), r=repr(r)))
    x = d.rng.integers(-5, 6, size=(3, 4, 2)).astype(float)
    d.begin("axes")
    d.expect(np.allclose(ul.vnorm(x, 2, axis=0), np.sqrt((x * x).sum(0)), rtol=1e-14), "axis", "vnorm")
    d.expect(np.allclose(ul.rms(x, axis=1), np.sqrt((x * x).mean(1)), rtol=1e-14), "axis", "rms")
    d.expect(np.array_equal(ul.cross3(x, x[::-1, ::-1], axis=0),
                            np.cross(x, x[::-1, ::-1], axisa=0, axisb=0, axisc=0)), "axis", "cross3")
    y = d.rng.integers(-5, 6, size=(5, 1, 3))
    z = d.rng.integers(-5, 6, size=(4, 3))
    d.begin("broadcast")
    d.expect(np.array_equal(ul.cross3(y, z), np.cross(y, z)), "broadcast", "cross3")
    r = ul.vnorm(x[:, :, None, :], [1, 2, np.inf])
    e = np.stack([abs(x).sum(-1), np.sqrt((x * x).sum(-1)), abs(x).max(-1)], -1)
    d.expect(r.shape == e.shape and np.allclose(r, e, rtol=1e-14), "broadcast", lambda: repr((r, e)))
    P = d.rng.integers(-5, 6, size=(6, 3)).astype(float)
    I = d.rng.integers(-6, 6, size=(7, 2, 3))      # noqa: E741
    r = ul.tri_area_indexed(P, I)
    e = ul.tri_area(P[I])
    d.expect(np.allclose(r, e, rtol=1e-12, atol=1e-12), "indexed-agrees", lambda: repr((r, e)))


def chains(d, ul):
    """Norms decrease with the order and are at least the maximum; triangles are symmetric."""
    for t in range(200 if d.thorough else 60):
        for char in "fdgFDG":
            out = char.lower()
            eps = float(np.finfo(out).eps)
            n = int(d.rng.integers(1, 20))
            x = d.rng.standard_normal(n)
            if char in "FDG":
                x = x + 1j * d.rng.standard_normal(n)
            x = x.astype(char)
            s = np.dtype(out).type(2) ** np.dtype(out).type(int(d.rng.integers(-60, 60)))
            ps = np.array([0.5, 1, 1.0000001, 1.5, 2, 3, 10, 100, np.inf], dtype=out)
            d.begin("vnorm chain %s" % describe([x]))
            r = ul.vnorm(x * s, ps) / s
            # merge what is within rounding
            v = np.concatenate([r, [abs(x).max()]]).astype("g")
            k = merge(v, 400 * eps * n)
            d.emit("geom", dict(k="chain", r=k[:-1], lo=k[-1], type=char, x=repr(x.tolist()), values=repr(r.tolist())))
            e = np.array([(np.abs(x).astype("g") ** q).sum() ** (np.longdouble(1) / q) for q in ps[:-1]])
            d.expect((abs(r[:-1] - e) <= 400 * eps * n * e).all(), "vnorm-fractional",
                     lambda: dict(dtype=char, x=repr(x), p=repr(ps), got=repr(r), expected=repr(e)))
        for char in "fdg":
            k = int(d.rng.integers(1, 6))
            P = d.rng.standard_normal((3, k)).astype(char)
            flat = d.rng.integers(3) == 0
            if flat:
                P[2] = P[0] + (P[1] - P[0]) * np.dtype(char).type(d.rng.choice([-2, 0, 0.5, 1, 3]))
            d.begin("tri_area %s" % describe([P]))
            r = [ul.tri_area(P[list(p)]) for p in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))]
            side = max(float(((P[i].astype("g") - P[j]) ** 2).sum()) for i, j in ((0, 1), (0, 2), (1, 2)))
            tol = 64 * float(np.finfo(char).eps) * side ** 2
            A = [np.longdouble(q) ** 2 for q in r]
            d.expect(max(A) - min(A) <= tol, "area-symmetry", lambda: dict(P=repr(P), got=repr(r)))
            if k == 1 or flat:
                d.expect(max(A) <= 8 * tol, "area-collinear", lambda: dict(P=repr(P), got=repr(r)))
            g = np.longdouble(2.0) ** int(d.rng.integers(-8, 9))
            q = ul.tri_area((P * g).astype(char))
            d.expect(abs(np.longdouble(q) / g ** 2 - r[0]) <= 1e-3 * r[0] + np.sqrt(tol), "area-scale",
                     lambda: dict(P=repr(P), got=repr((q, r[0]))))


def merge(v, tol):
    order = np.argsort(v, kind="stable")
    out = np.zeros(len(v), dtype=int)
    for a, b in zip(order[:-1], order[1:]):
        out[b] = out[a] + (0 if v[b] - v[a] <= tol * abs(v[b]) else 1)
    return out.tolist()


def extremes(d, ul):
    """Elements near the limits of the type do not overflow or underflow the norm."""
    for char in "fdg":
        fi = np.finfo(char)
        eps = float(fi.eps)
        for base in (fi.max / 32, fi.max / 1024, fi.tiny * 4, fi.tiny * 2.0 ** 40, np.sqrt(fi.max), np.sqrt(fi.tiny)):
            for cplx in (False, True):
                x = np.array([3, -4, 12], dtype=char)
                if cplx:
                    x = np.array([3j, 4, -12], dtype=char.upper())
                x = x * np.dtype(char).type(base)
                for p, e in ((1, 19), (2, 13), (np.inf, 12), (3, np.longdouble(27 + 64 + 1728) ** (np.longdouble(1) / 3))):
                    d.begin("vnorm extremes %s p=%r" % (describe([x]), p))
                    r = np.longdouble(ul.vnorm(x, np.dtype(char).type(p))) / np.longdouble(base)
                    d.expect(abs(r - e) <= 64 * eps * e, "vnorm-scale",
                             lambda: dict(x=repr(x), p=p, got=repr(r), expected=repr(e)))


class Num:
    """A number with its own arithmetic."""

    def __init__(self, v):
        self.v = v

    def __mul__(self, o):
        return Num(self.v * o.v)

    def __sub__(self, o):
        return Num(self.v - o.v)

    def __eq__(self, o):
        return isinstance(o, Num) and self.v == o.v

    def __repr__(self):
        return "Num(%r)" % self.v


class Mat:
    """A 2 x 2 matrix: the product does not commute."""

    def __init__(self, m):
        self.m = m

    def __mul__(self, o):
        (a, b, c, e), (p, q, r, s) = self.m, o.m
        return Mat((a * p + b * r, a * q + b * s, c * p + e * r, c * q + e * s))

    def __sub__(self, o):
        return Mat(tuple(x - y for x, y in zip(self.m, o.m)))


def matrices(d, ul):
    def of(rows):
        a = np.empty((len(rows), 3), dtype=object)
        for i, r in enumerate(rows):
            for j, v in enumerate(r):
                a[i, j] = Mat(tuple(v))
        return a
    for _ in range(60 if d.thorough else 12):
        u, v = d.rng.integers(-4, 5, size=(2, 4, 3, 4)).tolist()
        pu, pv = Placed(of(u), d.rng), Placed(of(v), d.rng)
        d.begin("cross3, cross2 of matrices u=%r v=%r" % (u, v))
        r = ul.cross3(pu.view, pv.view)
        s = ul.cross2(pu.view[:, :2], pv.view[:, :2])
        for i in range(4):
            d.emit("geom", dict(k="mcross3", u=u[i], v=v[i], out=[list(w.m) for w in r[i]]))
            d.emit("geom", dict(k="mcross2", u=u[i][:2], v=v[i][:2], out=list(s[i].m)))


def objects(d, ul):
    matrices(d, ul)
    for t in range(200 if d.thorough else 60):
        kind = t % 3
        u, v = d.rng.integers(-9, 10, size=(2, 4, 3)).tolist()
        w = [lambda q: int(q) * 10 ** 25 + 1, lambda q: Fraction(int(q), 7), lambda q: Num(int(q))][kind]
        U = np.array([None] * 12, dtype=object).reshape(4, 3)
        V = U.copy()
        for i in range(4):
            for j in range(3):
                U[i, j], V[i, j] = w(u[i][j]), w(v[i][j])
        pu, pv = Placed(U, d.rng), Placed(V, d.rng)
        d.begin("cross3, cross2 objects kind %d" % kind)
        r = ul.cross3(pu.view, pv.view)
        s = ul.cross2(pu.view[:, :2], pv.view[:, 1:])
        for i in range(4):
            a, b = U[i], V[i]
            e = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
            d.expect(list(r[i]) == e, "cross3-object", lambda: dict(u=repr(a), v=repr(b), got=repr(r[i]), expected=repr(e)))
            f = a[0] * b[2] - a[1] * b[1]
            d.expect(s[i] == f, "cross2-object", lambda: dict(u=repr(a), v=repr(b), got=repr(s[i]), expected=repr(f)))
            d.replayed += 2
