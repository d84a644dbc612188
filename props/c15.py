"""C15: gendot."""
import gc

import numpy as np

from vf import long
from vf.conc import bits_ids
from vf.layouts import Placed, describe, run_modes, same

ASSUMPTIONS = [
    "The loops of the two ufuncs are trusted; the composition, the choice of loops, the identity, "
    "the checks of the arguments and the lifetime of the result are what is verified.",
    "Datetime loops and loops of object arrays are not exercised.",
]
NUM = "bBhHiIlLqQefdgFDG"


def models(tier, seed):
    big = tier == "thorough"
    cfg = ("CONSTANTS PFns = {%s} SFns = {%s} Data = {%s} MaxLen = %d\nSPECIFICATION Spec\n"
           "INVARIANTS Reduced Partial Emitted\n")
    q = lambda s: ",".join('"%s"' % v for v in s.split())   # noqa: E731
    sums = "add multiply subtract minimum maximum kbnsum argmax argmin peaktopeak all_same"
    return [dict(name="num", module="DotLoop",
                 cfg=cfg % (q("add multiply subtract minimum maximum"), q(sums), "0,1,3,4" if big else "0,1,4",
                            3 if big else 2)),
            dict(name="long", module="DotLoop",
                 cfg=cfg % (q("multiply subtract"), q("subtract maximum argmax"), "1,4", 4)),
            dict(name="bool", module="DotLoop",
                 cfg=cfg % (q("equal not_equal less logical_and logical_or logical_xor"),
                            q("logical_and logical_or logical_xor equal add multiply minimum maximum argmax all_same"),
                            "1,2,3" if big else "1,2", 3)),
            long.laws(tier)]


def traces(tier):
    return [dict(stream="gendot", module="GenDot", failures="GenDotFailures"), long.TRACE]


def get(ul, name):
    return getattr(ul, name) if name in ("kbnsum", "argmax", "argmin", "peaktopeak", "all_same") else getattr(np, name)


def drive(d):
    import ufunclab as ul
    types(d, ul)
    arguments(d, ul)
    lifetime(d, ul)
    cases(d, ul)
    folds(d, ul)
    long.c15(d, ul)


def expected(char, p, s, cs):
    """Expected values in the output type (wrapping as the type does)."""
    out = []
    for c in cs:
        out.append(c["out"])
    return out


def cases(d, ul):
    g = {}
    for name in ("num", "long", "bool"):
        for c in d.cases(name):
            g.setdefault((c["p"], c["s"], len(c["x"])), []).append(c)
    cache = {}
    for (p, s, n), cs in sorted(g.items()):
        if (p, s) not in cache:
            cache[p, s] = ul.gendot(get(ul, p), get(ul, s))
        f = cache[p, s]
        chars = [t for t in f.types if t[0] == t[1] and t[0] in NUM + "?"]
        if not d.thorough:
            chars = [chars[k] for k in sorted(d.rng.permutation(len(chars))[:5])]
        for t in chars:
            char, och = t[0], t[-1]
            use = cs if d.thorough or len(cs) < 200 else [cs[k] for k in d.rng.permutation(len(cs))[:200]]
            if char == "?":
                if p not in ("logical_and", "logical_or", "logical_xor", "equal", "not_equal"):
                    continue
                use = [c for c in use if set(c["x"] + c["y"]) <= {0, 1}]
            if char in "BHILQ":
                use = [c for c in use if min(c["x"] + c["y"] + [0]) >= 0]
                if p == "subtract":         # wraps: the order of the products changes
                    use = [c for c in use if all(a >= b for a, b in zip(c["x"], c["y"]))]
            if not use:
                continue
            X = np.array([c["x"] for c in use]).reshape(len(use), n).astype(char)
            Y = np.array([c["y"] for c in use]).reshape(len(use), n).astype(char)
            raw = [c["out"] for c in use]
            if raw[0] == 2000000003:
                try:
                    d.begin("gendot(%s, %s) of no elements" % (p, s))
                    r = f(X, Y)
                    d.violation("empty-no-error", dict(prodfunc=p, sumfunc=s, types=t, got=repr(r[:1])))
                except ValueError:
                    pass
                d.replayed += len(use)
                continue
            if np.dtype(och).kind in "iu":
                bits = 8 * np.dtype(och).itemsize
                E = np.array([v % (1 << bits) for v in raw], dtype=np.uint64).astype("u%d" % (bits // 8)).view(
                    np.dtype(och))
            else:
                E = np.array(raw).astype(och)

            def check(mode, rows, res):
                d.replayed += len(rows)
                r = res[0]
                if r.dtype != np.dtype(och):
                    d.violation("dtype", dict(prodfunc=p, sumfunc=s, types=t, got=str(r.dtype)))
                    return
                ok = same(r, E[rows])
                for b in np.flatnonzero(~ok)[:1]:
                    d.violation("value", dict(prodfunc=p, sumfunc=s, types=t, layout=mode, x=repr(X[rows[b]]),
                                              y=repr(Y[rows[b]]), got=repr(r[b]), expected=repr(E[rows[b]])))
            run_modes(d, "gendot(%s, %s) %s" % (p, s, t), f, [X, Y], [((), och)], check, singles=3)
            d.cover("replay", len(use))
            d.cover("type " + t)
    d.sample(dict(p=p, s=s, case=cs[-1]))
    # longer rows and broadcasting: judged by the trace specification
    names = sorted(cache)
    for n in (1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 257, 1000):
        for _ in range(12 if d.thorough else 4):
            p, s = names[int(d.rng.integers(len(names)))]
            f = cache[p, s]
            chars = [t for t in f.types if t[0] == t[1] and t[0] in "ilqd"]
            if not chars or "multiply" == s:
                continue
            t = chars[int(d.rng.integers(len(chars)))]
            x, y = d.rng.integers(-4, 5, size=(2, n))
            if p in ("logical_and", "logical_or", "logical_xor"):
                x, y = x % 2, y % 2
            px, py = Placed(x.astype(t[0]), d.rng), Placed(y.astype(t[1]), d.rng)
            d.begin("gendot(%s, %s) %s %s" % (p, s, t, describe([px.view, py.view])))
            r = f(px.view, py.view)
            d.emit("gendot", dict(k="value", p=p, s=s, x=x.tolist(), y=y.tolist(), types=t, out=int(r)))
    x = d.rng.integers(-3, 4, size=(3, 1, 4))
    y = d.rng.integers(-3, 4, size=(2, 4))
    f = ul.gendot(np.subtract, np.maximum)
    d.begin("gendot broadcast")
    r = f(x, y)
    for i in range(3):
        for j in range(2):
            d.emit("gendot", dict(k="value", p="subtract", s="maximum", x=x[i, 0].tolist(), y=y[j].tolist(),
                                  types="ll->l", out=int(r[i, j])))


def loops_of(u):
    out = []
    for t in u.types:
        a, b = t.replace(" ", "").split("->")
        out.append([list(a), b])
    return out


def binary_ufuncs():
    seen, out = set(), []
    for n in sorted(dir(np)):
        u = getattr(np, n)
        if isinstance(u, np.ufunc) and u.signature is None and u.nin == 2 and u.nout == 1 and id(u) not in seen:
            seen.add(id(u))
            out.append(u)
    return out


def reductions(ul):
    out = binary_ufuncs()
    for n in dir(ul):
        u = getattr(ul, n)
        if isinstance(u, np.ufunc) and u.signature == "(n)->()":
            out.append(u)
    return out


def state(u):
    return (u.__name__, u.nin, u.nout, u.ntypes, list(u.types), u.identity, u.signature, u.__doc__)


def types(d, ul):
    ps, ss = binary_ufuncs(), reductions(ul)
    pairs = [(p, s) for p in ps for s in ss]
    if not d.thorough:
        pairs = [pairs[k] for k in d.rng.permutation(len(pairs))[:450]]
    for p, s in pairs:
        before = state(p), state(s)
        d.begin("gendot(%s, %s)" % (p.__name__, s.__name__))
        f = ul.gendot(p, s)
        d.expect((state(p), state(s)) == before, "ufuncs-changed", lambda: (p.__name__, s.__name__))
        d.expect(isinstance(f, np.ufunc) and f.nin == 2 and f.nout == 1
                 and f.signature.replace(" ", "") == "(n),(n)->()"
                 and f.__name__ == "gendot_%s_%s" % (p.__name__, s.__name__), "attributes",
                 lambda: (p.__name__, s.__name__, f.__name__, f.signature))
        d.emit("gendot", dict(k="types", pl=loops_of(p), sl=loops_of(s), nin=s.nin, types=loops_of(f),
                              p=p.__name__, s=s.__name__))
        i = s.identity
        for t in f.types[:3] + f.types[-2:]:
            if set(t) & set("mMO"):
                continue
            x, y = np.zeros((2, 0), dtype=t[0]), np.zeros((2, 0), dtype=t[1])
            store = np.ones((2, 3), dtype=t[-1])
            step = int(d.rng.integers(3))         # a column, a row, or a new array
            try:
                r = f(x, y, signature=t, **{} if step == 0 else dict(out=store[:, 1] if step == 1 else store[1, ::-2]))
            except ValueError:
                d.expect(i is None, "empty-error", lambda: (p.__name__, s.__name__, t))
                continue
            e = None if i is None else np.array(i).astype(t[-1])
            left = np.array([[1, 0, 1], [1, 0, 1]] if step == 1 else [[1, 1, 1], [0, 1, 0]], dtype=bool)
            d.expect(step == 0 or (store[left] == np.ones((), dtype=t[-1])).all(), "identity-place",
                     lambda: dict(prodfunc=p.__name__, sumfunc=s.__name__, types=t, got=repr(store)))
            d.expect(i is not None and r.shape == (2,) and r.dtype == np.dtype(t[-1]) and same(r, e).all(), "identity",
                     lambda: dict(prodfunc=p.__name__, sumfunc=s.__name__, types=t, got=repr(r), expected=repr(e)))
    d.cover("pairs of ufuncs", len(pairs))


def arguments(d, ul):
    good = np.multiply
    bad_both = [None, 3, "add", len, lambda a, b: a, np.add.reduce, np.sin, np.divmod, np.matmul, ul.minmax, ul.softmax,
                ul.first, ul.mad, ul.cross2, ul.pearson_corr, np.frompyfunc(lambda a: a, 1, 1), ul.argminmax,
                ul.tri_area, ul.fillnan1d, ul.multivariate_logbeta if False else ul.max_argmax, ul.vnorm, ul.cross3]
    bad_prod = bad_both + [ul.kbnsum, ul.argmax, ul.gmean, ul.peaktopeak]
    for side, lst in (("prodfunc", bad_prod), ("sumfunc", bad_both)):
        for b in lst:
            for use in range(2):
                d.begin("gendot with %s=%r" % (side, b))
                try:
                    a = (b, good) if side == "prodfunc" else (good, b)
                    f = ul.gendot(*a) if use else ul.gendot(prodfunc=a[0], sumfunc=a[1])
                    d.violation("argument-accepted", dict(side=side, value=repr(b), got=repr(f)))
                except (TypeError, ValueError, AttributeError):
                    pass
                d.replayed += 1
    # still usable, custom name and docstring
    for nm, doc in (("dot2", "Some doc."), ("x" * 300, "y" * 5000), ("n", "")):
        f = ul.gendot(np.multiply, np.add, name=nm, doc=doc)
        d.expect(f.__name__ == nm and (doc in (f.__doc__ or "") or not doc), "name-doc",
                 lambda: dict(name=nm, got=f.__name__, doc=repr(f.__doc__)[:200]))
        d.expect(f([1, 2, 3], [4, 5, 6]) == 32, "value", "multiply/add")


def lifetime(d, ul):
    """Many compositions alive and dropped in any order; each stays what it was."""
    ops = [(np.multiply, np.add), (np.minimum, np.maximum), (np.subtract, np.maximum), (np.logical_and, np.logical_or),
           (np.add, np.minimum), (np.multiply, ul.kbnsum), (np.subtract, ul.argmax)]
    live = {}
    x, y = np.array([3, -1, 4, 1]), np.array([2, 7, -1, 8])
    z = [x * y, np.minimum(x, y), x - y, np.logical_and(x, y), x + y, (x * y).astype(float), x - y]
    want = [z[0].sum(), z[1].max(), z[2].max(), z[3].any(), z[4].min(), z[5].sum(), z[6].argmax()]
    for step in range(400):
        k = int(d.rng.integers(30))
        if k in live and d.rng.integers(2):
            live.pop(k)
            if step % 37 == 0:
                gc.collect()
        else:
            j = int(d.rng.integers(len(ops)))
            d.begin("gendot lifetime")
            live[k] = (ul.gendot(*ops[j], name="f%d_%d" % (k, j), doc="doc %d" % k), j)
        for k2 in list(live)[:4]:
            f, j = live[k2]
            d.begin("gendot lifetime call")
            r = f(x, y)
            d.replayed += 1
            d.expect(r == want[j] and f.__name__ == "f%d_%d" % (k2, j), "lifetime",
                     lambda: dict(step=step, got=repr(r), want=repr(want[j]), name=f.__name__))


def sample_values(d, char, n, p):
    k = np.dtype(char).kind
    if k == "b":
        return d.rng.integers(0, 2, size=n).astype(bool)
    if k == "u":
        return d.rng.integers(0, 6, size=n).astype(char)
    if k == "i":
        v = d.rng.integers(-5, 6, size=n)
        if p in ("power", "left_shift", "right_shift", "bitwise_left_shift", "bitwise_right_shift", "ldexp", "pow"):
            v = abs(v)
        return v.astype(char)
    if k == "c":
        return (d.rng.integers(-3, 4, size=n) + 1j * d.rng.integers(-3, 4, size=n)).astype(char)
    return (d.rng.integers(-12, 13, size=n) / 4).astype(char)


EXACT = {"add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "remainder", "mod", "fmod", "maximum",
         "minimum", "fmax", "fmin", "copysign", "nextafter", "heaviside", "equal", "not_equal", "less", "less_equal",
         "greater", "greater_equal", "logical_and", "logical_or", "logical_xor", "ldexp", "all_same", "vmin", "argmin",
         "argmax"}


def fold(z, s, sig, blur=lambda v: v):
    if s.nin == 1:
        return s(z, signature=sig)
    acc = z[0]
    for v in z[1:]:
        acc = blur(s(acc, v, signature=sig)) if s.__name__ not in EXACT and np.dtype(sig[-1]).kind in "fc" else s(acc, v, signature=sig)
    return acc


def folds(d, ul):
    """Any pair of NumPy's binary ufuncs, every composed loop: step-by-step reduction with the same loops."""
    ps, ss = binary_ufuncs(), reductions(ul)
    pairs = [(p, s) for p in ps for s in ss]
    pairs = [pairs[k] for k in d.rng.permutation(len(pairs))[:1500 if d.thorough else 220]]
    for p, s in pairs:
        f = ul.gendot(p, s)
        ok_types = [t for t in f.types if not set(t) & set("mMOSUV")]
        if not ok_types:
            continue
        L = [(a, b) for a in p.types for b in s.types]
        for t in [ok_types[k] for k in d.rng.permutation(len(ok_types))[:3]]:
            # the loops this composition is made of
            cand = [(a, b) for a, b in L if a[:2] == t[:2] and b[-1] == t[-1] and set(b.split("->")[0]) == {a[-1]}
                    and (s.nin == 1 or b[-1] == a[-1])]
            if len(cand) != 1:
                continue
            a, b = cand[0]
            n = int(d.rng.choice([1, 2, 3, 5, 9]))
            x, y = sample_values(d, t[0], (4, n), p.__name__), sample_values(d, t[1], (4, n), p.__name__)
            if p.__name__ in ("power", "pow", "left_shift", "right_shift", "bitwise_left_shift", "bitwise_right_shift", "ldexp") \
                    and np.dtype(t[1]).kind == "i":
                y = abs(y)
            if s.nin == 2 and s.__name__ in ("power", "pow") and np.dtype(t[-1]).kind == "i":
                continue
            try:
                want = np.array([fold(p(x[i], y[i], signature=a), s, b) for i in range(4)])
                noisy = a[-1] in "efdgFDG" and (p.__name__ not in EXACT or s.__name__ not in EXACT or a[-1] in "FDG")
                others = []
                if noisy:      # how far roundings of the loops' own results can carry
                    e = float(np.finfo(a[-1]).eps) * 8
                    for _ in range(6):
                        def blur(v):
                            return (v * (1 + e * d.rng.choice([-1, 1], size=np.shape(v)))).astype(a[-1])
                        others.append([fold(blur(p(x[i], y[i], signature=a)), s, b, blur) for i in range(4)])
                others = np.array(others)
            except Exception:
                continue
            px, py = Placed(x, d.rng), Placed(y, d.rng)
            d.begin("gendot(%s, %s) signature %s: %s" % (p.__name__, s.__name__, t, describe([px.view, py.view])))
            try:
                got = f(px.view, py.view, signature=t)
            except Exception as e:
                d.violation("call-failed", dict(prodfunc=p.__name__, sumfunc=s.__name__, types=t, error=repr(e)))
                continue
            with np.errstate(all="ignore"):
                close = same(got, want)
                if got.dtype.kind in "fc":
                    eps = np.finfo(got.dtype).eps * 64
                    close |= np.abs(got - want) <= eps * np.abs(want)
                    if noisy:
                        spread = np.abs(others - want).max(axis=0)
                        close |= np.abs(got - want) <= 4 * spread
                        # a jump within rounding: nothing to compare with
                        close |= ~(spread <= 1e-2 * np.abs(want)) & ~same(others, want).all(axis=0)
                elif noisy:
                    close |= ~same(others, want).all(axis=0)
                got = np.where(close, want, got)
            ids = bits_ids(got, want)
            d.emit("gendot", dict(k="fold", p=p.__name__, s=s.__name__, types=t, got=ids[0].tolist(),
                                  want=ids[1].tolist(), x=repr(x.tolist()), y=repr(y.tolist())))
            d.cover("fold " + t)
