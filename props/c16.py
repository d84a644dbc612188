"""C16: gmean, hmean, pmean and the weighted forms."""
import numpy as np

from vf import long
from vf.conc import intern
from vf.layouts import Placed, describe, run_modes

NAN, PINF, NINF, ODD = 2000000001, 2000000000, -2000000000, 2000000003
ASSUMPTIONS = [
    "Values that are not exact are compared within rounding, which grows as 1/|p| for small |p|.",
    "Elements of weight 0 with p = +-inf, weights that sum to 0 or to more than the largest number, and hmean of data whose reciprocals cancel are "
    "outside the property.",
]


def models(tier, seed):
    big = tier == "thorough"
    cfg = ("CONSTANTS Data = {%s} Ps = {%s} Lens = {%s} MaxW = %d Shift = %d\nSPECIFICATION Spec\n"
           "INVARIANTS Right Repeats Bounded Harmonic Powers Emitted\n")
    inf, nan = str(PINF), str(NAN)
    allp = "0,1,2,3,4,5,6,999,%s,%s" % (inf, nan)
    return [dict(name="special", module="MeansScan", cfg=cfg % ("0,1,2,3,5,%s,%s" % (inf, nan), allp,
                                                                "1,2,3" if not big else "1,2,3,4", 0, 1)),
            dict(name="weighted", module="MeansScan", cfg=cfg % ("0,1,2,4,%s" % inf, "1,2,3,4,5,999,%s" % inf,
                                                                 "1,2,3", 3 if big else 2, 0)),
            dict(name="plain", module="MeansScan", cfg=cfg % ("1,2,3,4", "1,2,3,4,5", "4,5" if big else "4", 0, 0))] + [long.laws(tier)]


def traces(tier):
    return [dict(stream="means", module="Means", failures="MeansFailures"), long.TRACE]


def arr(v, char):
    a = np.array(v, dtype="g")
    a[a == NAN] = np.nan
    a[a == PINF] = np.inf
    a[a == NINF] = -np.inf
    return a.astype(char)


def value(m):
    if m["k"] == "const":
        v = m["v"]
        return np.longdouble({NAN: np.nan, PINF: np.inf, NINF: -np.inf}.get(v, v))
    s = -1 if (m["num"] < 0) != (m["den"] < 0) else 1
    return s * (np.longdouble(abs(m["num"])) / np.longdouble(abs(m["den"]))) ** (np.longdouble(1) / m["p"])


def close(r, e, tol):
    with np.errstate(all="ignore"):
        return (r == e) | (np.isnan(r) & np.isnan(e)) | (np.abs(r - e) <= tol * np.abs(e))


def drive(d):
    import ufunclab as ul
    long.c16(d, ul)
    for name in ("special", "weighted", "plain"):
        replay(d, ul, name)
    chains(d, ul)
    forms(d, ul)
    errors(d, ul)


def replay(d, ul, name):
    groups = {}
    for c in d.cases(name):
        groups.setdefault(len(c["x"]), []).append(c)
    for n, cs in sorted(groups.items()):
        if not d.thorough and len(cs) > 4000:
            cs = [cs[k] for k in d.rng.permutation(len(cs))[:4000]]
        pm = np.array([value(c["pm"]) for c in cs])
        hm = np.array([value(c["hm"]) for c in cs])
        hok = np.array([not (c["hm"]["k"] == "const" and c["hm"]["v"] == ODD) for c in cs])
        # 1/inf and 1/-1 do not cancel, but data with both signs and infinities are left out
        p = np.array([c["p"] for c in cs])
        for char in "fdg":
            eps = float(np.finfo(char).eps)
            fi = np.finfo(char)
            s = np.longdouble(2.0) ** [int(d.rng.integers(-20, 20)), int(fi.maxexp) - 9, int(fi.minexp) - 2,
                                       int(fi.minexp) - fi.nmant + 3][int(d.rng.integers(4))]
            X = (arr([c["x"] for c in cs], "g").reshape(len(cs), n) * s).astype(char)
            ws = 2.0 ** int(d.rng.integers(-3, 4))
            W = (np.array([c["w"] for c in cs]).reshape(len(cs), n) * ws).astype(char)
            P = arr(p, char)
            # the logarithms are rounded before they are added
            slack = eps * (64 + (p == 0) * 8 * float(np.abs(np.log(s))))
            ok1 = hok
            if s < fi.tiny:             # the reciprocals of zero and of tiny negative values are infinite and cancel
                ok1 = hok & np.array([not (min(c["x"]) < 0 and 0 in c["x"]) for c in cs])
            plain = np.array([set(c["w"]) <= {1} for c in cs])

            def cmp(fn, exp, sel, mask=None):
                def check(mode, rows, res):
                    d.replayed += len(rows)
                    r = np.asarray(res[0])
                    if r.dtype != np.dtype(char) or r.shape != rows.shape:
                        d.violation("dtype", dict(call=fn, got=str(r.dtype), shape=str(r.shape)))
                        return
                    e = exp[sel[rows]] * s
                    ok = close(r, e, slack[sel[rows]]) | (np.abs(r - e) <= 2 * fi.smallest_subnormal)
                    if mask is not None:
                        ok |= ~mask[sel[rows]]
                    for b in np.flatnonzero(~ok)[:1]:
                        i = sel[rows[b]]
                        d.violation(fn, dict(call=fn, dtype=char, layout=mode, x=repr(X[i]), w=repr(W[i]), p=repr(P[i]),
                                             got=repr(r[b]), expected=repr(e[b])))
                return check

            every = np.arange(len(cs))
            pl = np.flatnonzero(plain)
            run_modes(d, "pmeanw", ul.pmeanw, [X, W, P], [((), char)], cmp("pmeanw", pm, every), singles=10)
            run_modes(d, "pmean", ul.pmean, [X[pl], P[pl]], [((), char)], cmp("pmean", pm, pl), singles=10)
            z = np.flatnonzero(p == 0)
            if len(z):
                run_modes(d, "gmeanw", ul.gmeanw, [X[z], W[z]], [((), char)], cmp("gmeanw", pm, z), singles=10)
                z = np.flatnonzero((p == 0) & plain)
                run_modes(d, "gmean", ul.gmean, [X[z]], [((), char)], cmp("gmean", pm, z), singles=10)
            z = np.flatnonzero(p == p[0])
            run_modes(d, "hmeanw", ul.hmeanw, [X[z], W[z]], [((), char)], cmp("hmeanw", hm, z, ok1), singles=10)
            z = z[plain[z]]
            if len(z):
                run_modes(d, "hmean", ul.hmean, [X[z]], [((), char)], cmp("hmean", hm, z, ok1), singles=10)
        d.cover("replay " + name, len(cs))
    d.sample(dict(model=name, case=cs[-1]))


def ranks(v, tol):
    """Ranks of values that merge what is within tol (relative, one per value)."""
    v = np.asarray(v, dtype="g")
    order = np.argsort(v, kind="stable")
    out = np.zeros(len(v), dtype=int)
    r = 0
    for a, b in zip(order[:-1], order[1:]):
        if not (v[b] - v[a] <= max(tol[a], tol[b]) * abs(v[b]) or v[a] == v[b]):
            r += 1
        out[b] = r
    return out


EXPS = [-np.inf, -300., -40., -7., -3., -2., -1.5, -1., -0.5, -0.25, -1e-2, -1e-4, -1e-5, -3e-6, -1e-6, -1e-8, 0., 1e-8,
        1e-6, 1.9e-6, 2.1e-6, 1e-5, 1e-4, 1e-2, 0.25, 0.5, 1., 1.5, 2., 3., 7., 40., 300., np.inf]


def powers(d, n, char, k):
    """Powers of 2 anywhere in the range of the type; their k-th powers are in the range, too."""
    top = int(np.finfo(char).maxexp) // k - 8
    e = d.rng.integers(-top, top, n) if d.rng.integers(2) else d.rng.choice([-top, top, -top + 3], n)
    return (np.longdouble(2) ** e.astype("g")).astype(char)


def chains(d, ul):
    for t in range(240 if d.thorough else 60):
        for char in "fdg":
            eps = float(np.finfo(char).eps)
            n = int(d.rng.choice([2, 3, 5, 8, 17, 50]))
            spread = float(d.rng.choice([0.1, 1, 5]))
            x = np.exp(d.rng.standard_normal(n) * spread).astype(char)
            wide = t % 3 == 0
            if wide:                    # over the whole range of the type
                fi = np.finfo(char)
                x = powers(d, n, char, 1)
                if d.rng.integers(2):
                    x *= (1 + d.rng.random(n)).astype(char)
            cond = (n + 8) * np.abs(np.log(np.asarray(x, "g"))).max() if wide else 0
            w = d.rng.integers(1, 5, size=n).astype(char)
            ps = np.array([q for q in EXPS if char != 'f' or not 2e-6 < abs(q) < 0.1], dtype=char)
            weighted = bool(d.rng.integers(2))
            d.begin("pmean%s chain %s" % ("w" if weighted else "", describe([x, w])))
            r = ul.pmeanw(x, w, ps) if weighted else ul.pmean(x, ps)
            with np.errstate(all="ignore"):
                ip = np.where(np.isfinite(ps) & (np.abs(ps) > 2e-6), 1 / np.abs(ps), 0)
            tol = eps * (64 + 2 * (n + 8) * ip + cond)
            v = np.concatenate([np.asarray(r, dtype="g"), [x.min(), x.max()]])
            if not np.isfinite(v).all():
                d.violation("not-finite", dict(dtype=char, x=repr(x), w=repr(w), weighted=weighted, got=repr(r)))
                continue
            h = np.abs(v) * np.concatenate([tol, [eps, eps]]) / 2
            a, b = intern(v - h, v + h)
            d.emit("means", dict(k="chain", a=a[:-2].tolist(), b=b[:-2].tolist(), lo=int(a[-2]), hi=int(b[-1]), type=char,
                                 weighted=weighted, x=repr(x.tolist()), w=repr(w.tolist()),
                                 values=repr(np.asarray(r).tolist())))


def forms(d, ul):
    """The same mean, written differently."""
    for t in range(300 if d.thorough else 80):
        for char in "fdg":
            fi = np.finfo(char)
            eps = float(fi.eps)
            n = int(d.rng.integers(1, 12))
            x = np.exp(d.rng.standard_normal(n)).astype(char)
            w = d.rng.integers(1, 4, size=n).astype(char)
            p = float(d.rng.choice([-3, -1, -0.5, 0, 0.5, 1, 2, 5, -np.inf, np.inf]))
            perm = d.rng.permutation(n)
            rep = np.repeat(x, w.astype(int))
            x0 = np.concatenate([x, [100, 0.01]]).astype(char)
            w0 = np.concatenate([w, [0, 0]]).astype(char)
            cst = np.full(n, x[0])
            d.begin("means forms %s p=%r" % (describe([x, w]), p))
            sets = [("order", [ul.pmeanw(x, w, p), ul.pmeanw(x[perm], w[perm], p)]),
                    ("order", [ul.pmean(x, p), ul.pmean(x[perm], p)]),
                    ("order", [ul.hmeanw(x, w), ul.hmeanw(x[perm], w[perm]), ul.hmean(rep)]),
                    ("order", [ul.gmeanw(x, w), ul.gmeanw(x[perm], w[perm]), ul.gmean(rep)]),
                    ("weights-as-counts", [ul.pmeanw(x, w, p), ul.pmean(rep, p)]),
                    ("weight-scale", [ul.pmeanw(x, w, p), ul.pmeanw(x, w * 4, p)]),
                    ("p=0", [ul.gmean(x), ul.pmean(x, 0)]),
                    ("p=-1", [ul.hmean(x), ul.pmean(x, -1)]),
                    ("p=-1", [ul.hmeanw(x, w), ul.pmeanw(x, w, -1)]),
                    ("p=0", [ul.gmeanw(x, w), ul.pmeanw(x, w, 0)]),
                    ("constant", [x[0], ul.gmean(cst), ul.hmean(cst), ul.pmean(cst, p), ul.gmeanw(cst, w),
                                  ul.hmeanw(cst, w), ul.pmeanw(cst, w, p)])]
            if np.isfinite(p):
                sets += [("weight-0", [ul.pmeanw(x, w, p), ul.pmeanw(x0, w0, p)]),
                         ("weight-0", [ul.hmeanw(x, w), ul.hmeanw(x0, w0)]),
                         ("weight-0", [ul.gmeanw(x, w), ul.gmeanw(x0, w0)])]
            for c in (fi.max, fi.tiny, fi.smallest_subnormal * 5):
                c = np.full(n, c)
                sets.append(("constant", [c[0], ul.hmean(c), ul.pmean(c, p), ul.hmeanw(c, w), ul.pmeanw(c, w, p)]))
            if np.isfinite(p):
                for c in (fi.max, fi.tiny, fi.smallest_subnormal * 5):
                    x1, w1 = np.append(x, c), np.append(w, w[0] * 0)
                    sets += [("weight-0", [ul.pmeanw(x, w, p), ul.pmeanw(x1, w1, p)]),
                             ("weight-0", [ul.hmeanw(x, w), ul.hmeanw(x1, w1)])]
            for c in (fi.max / 64, fi.tiny * 64):    # heavy weights, light weights
                sets += [("weight-scale", [ul.pmeanw(x, w, p), ul.pmeanw(x, w * (c / n), p)]),
                         ("weight-scale", [ul.hmeanw(x, w), ul.hmeanw(x, w * (c / n))])]
            y = powers(d, n, char, 4)
            for q in (1e-7, 4.5e-7, -4e-7, 9e-7, 1.9e-6, 1e-3, -0.125, 0.5, 3.):
                k = int(d.rng.choice([2, 4]))
                q = np.dtype(char).type(q)
                a, b = np.longdouble(ul.pmean(y ** k, q)), np.longdouble(ul.pmean(y, q * k)) ** k
                a2, b2 = np.longdouble(ul.pmeanw(y ** k, w, q)), np.longdouble(ul.pmeanw(y, w, q * k)) ** k
                tol = eps * (64 + 64 / abs(q) * (abs(q) * k > 2e-6)
                             + 4 * (n + 8) * k * np.abs(np.log(y.astype("g"))).max())
                for a, b in ((a, b), (a2, b2)):
                    if np.isfinite(a) and np.isfinite(b) and tol < 0.01:
                        d.emit("means", dict(k="same", clause="power", r=[int(z) for z in ranks([a, b], [tol, tol])], type=char,
                                             p=repr(q), x=repr(y.tolist()), w=repr(w.tolist()), values=repr([a, b, k])))
            big = np.array([np.finfo(char).max / 2, np.finfo(char).max / 2, np.finfo(char).max / 4], dtype=char)
            for q in (1, 2, 3, -2, 0.5, 40):
                small = big * (char == "g" and np.longdouble(2) ** -16000 or np.dtype(char).type(2) ** -(
                    120 if char == "f" else 1000))
                k = (big / small)[0]
                sets.append(("scale", [ul.pmean(big, q), ul.pmean(small, q) * k]))
            for clause, v in sets:
                kk = ranks([np.longdouble(z) for z in v], [eps * 2e3] * len(v)) if np.isfinite(
                    np.array(v, dtype="g")).all() else list(range(len(v)))
                d.emit("means", dict(k="same", clause=clause, r=[int(z) for z in kk], type=char, p=repr(p),
                                     x=repr(x.tolist()), w=repr(w.tolist()), values=repr(v)))


def errors(d, ul):
    e = np.zeros((3, 0))
    for name, args in [("gmean", (e,)), ("hmean", (e,)), ("pmean", (e, 2.)), ("gmeanw", (e, e)), ("hmeanw", (e, e)),
                       ("pmeanw", (e, e, 1.))]:
        d.begin("%s of no elements" % name)
        try:
            getattr(ul, name)(*args)
            d.violation("empty-accepted", name)
        except ValueError:
            pass
    x = d.rng.integers(1, 9, size=(4, 5)).astype(float)
    px = Placed(x, d.rng)
    for name in ("gmean", "hmean"):
        d.begin(name + " axis")
        a, b = getattr(ul, name)(px.view, axis=0), getattr(ul, name)(np.ascontiguousarray(x.T))
        d.expect(close(a, b, 1e-14).all(), "axis", name)
    d.begin("pmean broadcast")
    r = ul.pmean(px.view[:, None], np.array([-1., 0, 1, 2]))
    e = np.array([[ul.pmean(x[i].copy(), q) for q in (-1., 0, 1, 2)] for i in range(4)])
    d.expect(close(r, e, 1e-14).all(), "broadcast", "pmean")
