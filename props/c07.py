"""C07: bincount."""
import numpy as np

from vf import long
from vf.layouts import Placed

ASSUMPTIONS = [
    "Weights are integers whose sums are exact in the weight type.",
    "The abstract values -1 and m+1 stand for every value below 0 and above m; they are realized "
    "by the extremes of the dtype and random values of that region.",
    "The default m of an empty array is outside the property.",
]
ICHARS = "bBhHiIlLqQ"
WCHARS = "bBhHiIlLfdFD"


def models(tier, seed):
    inv = "SPECIFICATION Spec\nINVARIANTS Accumulated Emitted\nPROPERTY Monotone\n"
    t = tier == "thorough"
    return [dict(name="one", module="HistogramLoop",
                 cfg="CONSTANTS MS = {0,1,3} MaxLen = %d Calls = 1\n" % (5 if t else 4) + inv),
            dict(name="many", module="HistogramLoop",
                 cfg="CONSTANTS MS = {2} MaxLen = %d Calls = %d\n" % ((2, 3) if t else (2, 2)) + inv)] + [long.laws(tier)]


def traces(tier):
    return [dict(stream="bincount", module="Histogram", failures="HistogramFailures", heap="6g"), long.TRACE]


def outside(char, m, low, rng):
    ii = np.iinfo(char)
    if low:
        if ii.min == 0:
            return None
        return int(rng.choice([-1, int(ii.min), int(ii.min) + 1, -2, -m - 1 if m < 100 else -3]))
    hi = int(ii.max)
    cand = [hi, hi - 1, hi // 2 + 1, m + 1, 2 * m + 3]
    if char in "LQ":
        cand += [2 ** 63, 2 ** 64 - 1, 2 ** 63 + 1]
    cand = [c for c in cand if m <= c <= hi]
    return int(cand[int(rng.integers(len(cand)))])


def concrete(xs, m, char, rng):
    """Abstract values of the model -> values of the dtype (m+1: far above, -1: below)."""
    out = []
    for v in xs:
        if v == -1:
            o = outside(char, m, True, rng)
            v = m + 1 if o is None else o
        elif v > m:
            v = outside(char, m, False, rng)
        out.append(v)
    return np.array(out, dtype=char)


def weights_for(n, wchar):
    return np.array([2 ** i for i in range(n)], dtype=wchar)


def scale_for(n, m, wchar, rng):
    """A factor that makes the weights fill their type, with sums that are still exact."""
    top = {"f": 2 ** 24, "F": 2 ** 22, "d": 2 ** 53, "D": 2 ** 51}.get(wchar)
    top = np.iinfo(wchar).max if top is None else top
    top = int(top) // 2 ** (n * 2 + 1) - 100 * (m + 1)
    return 1 if top < 4 else max(1, top - 2 * int(rng.integers(min(top // 2, 2 ** 40))) | 1)


def drive(d):
    import ufunclab as ul
    long.c07(d, ul)
    for name in ("one", "many"):
        cs = list(d.cases(name))
        for char in ICHARS:
            cap = 4000 if d.thorough else 500
            for k in d.rng.permutation(len(cs))[:cap]:
                history(d, ul, cs[k], char)
    defaults(d, ul)
    errors(d, ul)
    record(d, ul)


def history(d, ul, c, char):
    """Replays a history of calls on one out array, weighted (each weight type) or repeated."""
    m = c["m"]
    rng = d.rng
    weighted = bool(rng.integers(3))
    wchar = WCHARS[int(rng.integers(len(WCHARS)))]
    start = np.array([100 * (b + 1) for b in range(m)])
    scale = 1
    if weighted and wchar in "bB":
        start = start // 100
    base = int(start[0] * 0) if m else 0
    odt = np.dtype(wchar if weighted else np.intp)
    q = int(rng.integers(6))
    if q == 0:
        odt = odt.newbyteorder()
    elif q == 1 and odt.char in "lf":
        odt = np.dtype({"l": "id"[int(rng.integers(2))], "f": "d"}[odt.char])
    elif weighted and q > 2:
        scale = scale_for(max([len(xs) for xs in c["calls"]] + [0]), m, wchar, rng)
    steps = [int(rng.choice([1, 1, -1, 2, -2, 3]))]
    po = Placed(start.astype(odt), rng, steps=steps, order=[0])
    out = po.view
    for xs, snap in zip(c["calls"], c["outs"]):
        x = concrete(xs, m, char, rng)
        if weighted:
            w = (weights_for(len(xs), object) * scale).astype(wchar)
            if wchar in "FD":
                w = w * w.dtype.type(1 - 3j)
        else:       # a repetition stands for a weight
            w = None
            reps = [2 ** i for i in range(len(xs))]
            x = np.repeat(x, reps)
            if x.size and rng.integers(2):
                x = x[rng.permutation(x.size)]
        px = Placed(x, rng, steps=[int(rng.choice([1, 1, -1, 2, 3]))], order=[0])
        d.begin("bincount(%r, %d, weights=%r, out=%r)" % (px.view, m, w, out))
        r = ul.bincount(px.view, m, weights=w, out=out)
        d.replayed += 1
        want = np.array(snap) - (np.array([100 * (b + 1) for b in range(m)]) if m else 0) if m else np.array([])
        if wchar in "FD" and weighted:
            want = want * (1 - 3j)
        want = np.array([v * scale + s for v, s in zip(want.tolist(), start.tolist())], dtype=object)
        if weighted and rng.integers(4) == 0 and wchar == "f" and scale == 1:      # types without a loop of their own
            y = ul.bincount(px.view, m, weights=w.astype("e"))
            z = ul.bincount(px.view, m, weights=w.astype(">f8"))
            d.expect(y.dtype == np.dtype("e") and np.array_equal(y, z), "weights-type",
                     lambda: dict(x=repr(x), m=m, weights=repr(w), got=repr((y, z))))
        good = r is out and out.shape == want.shape and bool(np.all(out == want))
        d.expect(good, "history", lambda: dict(
            dtype=char, weights=repr(w), m=m, x=x.tolist(), got=np.array(out).tolist().__repr__(),
            expected=repr(want.tolist()), calls=c["calls"]))
        d.expect(po.guards_intact() and px.unchanged(), "write-outside-output",
                 lambda: dict(dtype=char, m=m, x=x.tolist(), stride=out.strides))
        # the gufuncs themselves, on an out array of their own type between guards
        g = ul.bincount._bincountw if weighted else ul.bincount._bincount
        gdt = np.dtype(wchar if weighted else np.intp)
        pg = Placed(np.zeros(m, dtype=gdt), rng, steps=[int(rng.choice([1, 1, -1, 2]))], order=[0], fill=gdt.type(5))
        d.begin("_bincount%s(%r, out=%r)" % ("w" if weighted else "", px.view, pg.view))
        args = (px.view, w.astype(wchar)) if weighted else (px.view,)
        g(*args, out=pg.view)
        add = [scale * sum((2 ** i) for i, v in enumerate(xs) if v == b) for b in range(m)]
        if weighted and wchar in "FD":
            add = [v * (1 - 3j) for v in add]
        d.expect(pg.view.tolist() == add, "gufunc-history", lambda: dict(
            dtype=char, weights=repr(w), m=m, x=x.tolist(), got=repr(pg.view), expected=repr(add)))
        d.expect(pg.guards_intact(), "write-outside-output",
                 lambda: dict(gufunc=g.__name__, dtype=char, m=m, x=x.tolist(), weights=repr(w)))
    # one fresh call: starts from zero
    if c["calls"]:
        xs = c["calls"][0]
        x = concrete(xs, m, char, rng)
        w = weights_for(len(xs), wchar) if weighted else None
        d.begin("bincount(%r, %d, weights=%r)" % (x, m, w))
        r = ul.bincount(x, m) if w is None else ul.bincount(x, m, weights=w)
        want = [sum((2 ** i if weighted else 1) for i, v in enumerate(xs) if v == b) for b in range(m)]
        d.replayed += 1
        d.expect(r.tolist() == want and r.dtype == (np.dtype(wchar) if weighted else np.intp), "fresh",
                 lambda: dict(dtype=char, wdtype=wchar if weighted else None, m=m, x=x.tolist(),
                              got=repr(r), expected=want))
    d.cover("histories " + char)
    d.sample(dict(dtype=char, weights=wchar if weighted else None, case=c))


def defaults(d, ul):
    """The default number of bins is one more than the largest value."""
    rng = d.rng
    for char in ICHARS:
        ii = np.iinfo(char)
        tops = [0, 1, 2, 5, 30] + ([127, 126] if char != "B" else [127, 128, 254, 255]) + \
            ([255, 256, 1000, 32767] if char not in "bB" else []) + ([65535] if char in "HiIlLqQ" else [])
        for top in tops:
            for neg in (False, True):
                n = int(rng.integers(1, 6))
                x = rng.integers(0, top + 1, size=n)
                x[int(rng.integers(n))] = top
                if neg and ii.min < 0:
                    x[int(rng.integers(n))] = -1
                x = x.astype(char)
                want = [0] * max(int(x.max()) + 1, 0)
                for v in x.tolist():
                    if v >= 0:
                        want[v] += 1
                d.begin("bincount(%r)" % x)
                r = ul.bincount(x)
                d.replayed += 1
                d.expect(r.tolist() == want, "default-m", lambda: dict(dtype=char, x=x.tolist(), got=repr(r)[:300]))
        # many elements, few of them large, with and without weights
        for top in [t for t in (3, 100, 127, 255, 1000, 32767, 65535, 100003) if t <= ii.max]:
            for n in (int(rng.integers(20, 64)), int(rng.integers(65, 300)), int(rng.integers(1000, 5000))):
                x = rng.integers(0, min(4, top) + 1, size=n)
                x[int(rng.integers(n))] = top
                x = x.astype(char)
                w = rng.integers(0, 4, size=n)
                u, inv = np.unique(x, return_inverse=True)
                got = [ul.bincount(x), ul.bincount(x, weights=w.astype(WCHARS[2 + int(rng.integers(len(WCHARS) - 2))]))]
                for r, ww in zip(got, (np.ones(n, dtype=int), w)):
                    want = np.zeros(top + 1, dtype=int)
                    for k, v in enumerate(u):
                        want[int(v)] = int(ww[inv == k].sum())
                    d.replayed += 1
                    d.expect(r.shape == want.shape and bool((r == want.astype(r.dtype)).all()), "default-m",
                             lambda: dict(dtype=char, n=n, top=top, weighted=ww is w, got_shape=r.shape))
        if ii.min < 0:
            d.begin("bincount negative")
            r = ul.bincount(np.array([-1, ii.min, -5], dtype=char))
            d.expect(r.shape == (0,), "default-m", lambda: dict(dtype=char, got=repr(r)))


def errors(d, ul):
    cases = [
        ("float x", lambda: ul.bincount(np.array([1.0, 2.0])), ValueError),
        ("bool x", lambda: ul.bincount(np.array([True, False])), ValueError),
        ("negative m", lambda: ul.bincount(np.array([1, 2]), -1), ValueError),
        ("float m", lambda: ul.bincount(np.array([1, 2]), 2.5), ValueError),
        ("axis too large", lambda: ul.bincount(np.array([1, 2]), 3, axis=1), ValueError),
        ("axis too small", lambda: ul.bincount(np.array([1, 2]), 3, axis=-2), ValueError),
        ("0-d", lambda: ul.bincount(np.array(3), 5), ValueError),
        ("out shape", lambda: ul.bincount(np.array([1, 2]), 3, out=np.zeros(4, dtype=np.intp)), ValueError),
        ("out shape 2", lambda: ul.bincount(np.array([1, 2]), 3, out=np.zeros((1, 3), dtype=np.intp)), ValueError),
        ("out shape w", lambda: ul.bincount(np.array([1, 2]), 3, weights=[1.0, 2], out=np.zeros(4)), ValueError),
        ("weights length", lambda: ul.bincount(np.array([1, 2]), 3, weights=[1.0, 2, 3]), ValueError),
        ("weights batch", lambda: ul.bincount(np.zeros((2, 3), int), 3, weights=np.ones((3, 3))), ValueError),
    ]
    for name, f, exc in cases:
        d.begin("bincount error: " + name)
        d.replayed += 1
        try:
            r = f()
        except exc:
            continue
        except Exception as e:
            d.violation("error-type", dict(case=name, got=repr(e)))
            continue
        d.violation("no-error", dict(case=name, got=repr(r)))


def enc(a):
    """Array of exact small integers -> ints, anything else -> a sentinel."""
    out = []
    for v in np.asarray(a).reshape(-1).tolist():
        v = float(v)
        out.append(int(v) if v == int(v) and abs(v) <= 10**9 else 2000000003) if v == v and abs(v) < 1e18 \
            else out.append(2000000003)
    return out


def record(d, ul):
    rng = d.rng
    shapes = [(1,), (2,), (5,), (40,), (0,), (2, 3), (3, 0), (0, 3), (1, 4), (4, 1), (2, 3, 2), (3, 1, 2), (2, 2, 2, 2), (3, 7)]
    for rep in range(6 if d.thorough else 2):
        for char in ICHARS:
            for shape in shapes + [(int(rng.integers(100, 600)),)]:
                nd = len(shape)
                axis = int(rng.integers(-nd, nd))
                m = int(rng.choice([0, 1, 2, 3, 5, 9]))
                if len(shape) == 1 and shape[0] > 50:
                    m = int(rng.choice([3, 17, 64, 65, 100]))
                flat = []
                for _ in range(int(np.prod(shape))):
                    t = int(rng.integers(10))
                    v = None
                    if t == 0:
                        v = outside(char, m, True, rng)
                    elif t == 1:
                        v = outside(char, m, False, rng)
                    elif t == 2 and m <= np.iinfo(char).max:
                        v = m
                    if v is None:
                        v = int(rng.integers(0, max(m, 1)))
                    flat.append(v)
                x = np.array(flat, dtype=char).reshape(shape)
                axn = axis % nd
                weighted = rng.integers(2) == 1
                w, wshape, wl = None, [], []
                bshape = tuple(s for k, s in enumerate(shape) if k != axn)
                wchar = WCHARS[int(rng.integers(len(WCHARS)))]
                if weighted and x.size:
                    ws = list(shape)
                    for k in range(nd):
                        if k != axn and rng.integers(3) == 0:
                            ws[k] = 1
                    w = rng.integers(0, 3 if wchar in "bB" else 50, size=ws).astype(wchar)
                    if wchar in "FD":
                        w = w + 1j * rng.integers(0, 50, size=ws)
                        w = w.astype(wchar)
                    wshape = ws
                elif weighted:
                    weighted = False
                oshape = bshape[:axn] + (m,) + bshape[axn:]
                odt = np.dtype(wchar) if weighted else np.dtype(np.intp)
                fresh = rng.integers(3) == 0
                default = bool(rng.integers(4) == 0) and x.size > 0 and int(x.max()) < 200
                if default:         # no m: one more than the largest value of the whole array
                    m = max(int(x.max()) + 1, 0)
                    oshape = bshape[:axn] + (m,) + bshape[axn:]
                before = np.zeros(oshape, dtype=odt) if fresh else \
                    rng.integers(0, 4, size=oshape).astype(odt)
                if not fresh and rng.integers(4) == 0:
                    before = before.astype(odt.newbyteorder() if rng.integers(2) else
                                           {"l": "i", "d": "f"}.get(odt.char, odt.char))
                po = Placed(before, rng)
                px = Placed(x, rng)
                pw = Placed(w, rng) if weighted else None
                d.begin("bincount x=%r m=%d axis=%d weights=%r before=%r" % (x, m, axis, w, before))
                kw = dict(axis=axis)
                if weighted:
                    kw["weights"] = pw.view
                try:
                    if fresh:
                        r = ul.bincount(px.view, None if default else m, **kw)
                    else:
                        r = ul.bincount(px.view, None if default else m, out=po.view, **kw)
                        d.expect(r is po.view, "out-not-returned", dict(shape=shape))
                        d.expect(po.guards_intact(), "write-outside-output",
                                 lambda: dict(x=repr(x), m=m, axis=axis))
                except Exception as e:
                    d.violation("raised", dict(x=repr(x), m=m, axis=axis, weights=repr(w), error=repr(e)))
                    continue
                d.expect(px.unchanged() and (pw is None or pw.unchanged()), "input-modified", dict(shape=shape))
                xv = [max(-10**9, min(10**9, v)) for v in (int(q) for q in x.reshape(-1).tolist())]
                parts = [(lambda a: a.real), (lambda a: a.imag)] if odt.kind == "c" else [lambda a: a]
                for part in parts:
                    d.emit("bincount", dict(
                        dtype=char, xshape=list(shape), x=xv, wshape=[int(s) for s in wshape],
                        w=enc(part(w)) if weighted else [], axis=axis, m=-1 if default else m,
                        before=enc(part(before)), after=enc(part(np.array(r))), oshape=list(r.shape)))
