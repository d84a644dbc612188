"""C08: one_hot, convert_to_base, nextn_greater, nextn_less."""
import numpy as np

from vf.layouts import Placed

ASSUMPTIONS = [
    "convert_to_base is judged for k >= 0, base >= 2 and digits that fit in the default int "
    "output; other bases only for their error.",
    "The neighbours that nextn_* returns are compared with NumPy's nextafter; their lattice is C09.",
]
ICHARS = "bBhHiIlLqQ"


def models(tier, seed):
    t = tier == "thorough"
    return [dict(name="place", module="PlaceLoop",
                 cfg="CONSTANTS MaxDim = %d Sizes = {0,1,2%s} Counts = {0,1,3}\nSPECIFICATION Spec\n"
                     "INVARIANTS OwnRow Complete Emitted\nPROPERTY WriteOnce\n" % (3 if t else 2, ",3")),
            dict(name="digits", module="DigitLoop",
                 cfg="CONSTANTS Numbers = {%s} Bases = {2,3,5,7,10,16} NDigits = {0,1,2,3,5}\n"
                     "SPECIFICATION Spec\nINVARIANTS Expansion InBase Modulo BigAgrees Emitted\n"
                     % ",".join(map(str, list(range(130 if t else 64)) + [100, 126, 127])))]


def traces(tier):
    return [dict(stream="place", module="Placement", failures="PlacementFailures")]


def limbs(n):
    out = []
    while n:
        out.append(n % 4096)
        n //= 4096
    return out


def drive(d):
    import ufunclab as ul
    places(d, ul)
    digits(d, ul)
    errors(d, ul)
    record(d, ul)


def outcome(f):
    try:
        return f(), None
    except Exception as e:      # judged by the caller
        return None, e


def places(d, ul):
    rng = d.rng
    cs = list(d.cases("place"))
    for c in cs:
        bshape, n, axis = tuple(c["bshape"]), c["n"], c["axis"]
        size = int(np.prod(bshape))
        oshape = tuple(c["oshape"])
        char = ICHARS[int(rng.integers(len(ICHARS)))]
        fchar = "fdg"[int(rng.integers(3))]
        # batch elements with distinct results
        k = (np.arange(size) % max(n, 1) if n > 0 else np.zeros(size)).astype(char)
        if size and n > 0 and char in "bhilq" and rng.integers(2):
            k[int(rng.integers(size))] = -1
        if size and rng.integers(2):
            k[int(rng.integers(size))] = np.iinfo(char).max
        num = (np.arange(size) * 7 + 3).astype(char) % 100
        num = num.astype(char)
        fx = (np.arange(size) - 1.5).astype(fchar)
        base = 5
        nxt = {}
        for name, to in (("nextn_greater", np.inf), ("nextn_less", -np.inf)):
            cols, v = [], fx
            for _ in range(max(n, 0)):
                v = np.nextafter(v, fx.dtype.type(to))
                cols.append(v)
            nxt[name] = cols
        funcs = [
            ("one_hot", k, lambda a, **kw: ul.one_hot(a, n, axis=axis, **kw), np.dtype(char),
             lambda i, p: 1 if int(k[i]) == p else 0),
            ("convert_to_base", num, lambda a, **kw: ul.convert_to_base(a, np.array(base, dtype=char), n, axis=axis, **kw),
             np.dtype(int), lambda i, p: (int(num[i]) // base ** p) % base),
            ("nextn_greater", fx, lambda a, **kw: ul.nextn_greater(a, n, axis=axis, **kw), fx.dtype,
             lambda i, p: nxt["nextn_greater"][p][i]),
            ("nextn_less", fx, lambda a, **kw: ul.nextn_less(a, n, axis=axis, **kw), fx.dtype,
             lambda i, p: nxt["nextn_less"][p][i]),
        ]
        for name, flat, f, odt, val in funcs:
            a = flat.reshape(bshape)
            pa = Placed(a, rng) if a.ndim and rng.integers(2) else None
            arg = pa.view if pa else a
            det = dict(call=name, dtype=str(a.dtype), shape=bshape, n=n, axis=axis)
            d.begin("%s %r" % (name, det))
            r, err = outcome(lambda: f(arg))
            d.replayed += 1
            if not c["ok"]:
                d.expect(isinstance(err, ValueError), "no-error",
                         lambda: dict(det, got=repr(r), error=repr(err)))
                continue
            if err is not None:
                d.violation("raised", dict(det, error=repr(err)))
                continue
            exp = np.array([val(i, p) for i, p in c["cells"]], dtype=odt).reshape(oshape)
            good = r.shape == oshape and r.dtype == odt and bool(np.array_equal(r, exp))
            d.expect(good, name + "-placement", lambda: dict(det, got=repr(r), expected=repr(exp)))
            # the same into out=, inside guard cells
            o = np.full(oshape, 9, dtype=odt)
            m = int(rng.integers(3))
            po = Placed(o, rng, steps=[None, [-1] * o.ndim, [1] * o.ndim][m], order=[None, range(o.ndim), None][m])
            r, err = outcome(lambda: f(arg, out=po.view))
            if err is not None:
                d.violation("raised", dict(det, out=True, error=repr(err)))
                continue
            d.expect(r is po.view and bool(np.array_equal(r, exp)), name + "-out",
                     lambda: dict(det, got=repr(r), expected=repr(exp), strides=po.view.strides))
            d.expect(po.guards_intact() and (pa is None or pa.unchanged()), "write-outside-output", det)
            # a wrong out shape
            wrong = [s for s in (oshape + (1,), oshape[:-1], tuple(reversed(oshape)),
                                 tuple(s + 1 for s in oshape), (1,) + oshape)
                     if s != oshape]
            s = wrong[int(rng.integers(len(wrong)))]
            r, err = outcome(lambda: f(arg, out=np.zeros(s, dtype=odt)))
            d.expect(isinstance(err, ValueError), "wrong-out-accepted",
                     lambda: dict(det, out_shape=s, got=repr(r), error=repr(err)))
        d.cover("placements")
    d.sample(dict(case={k: v for k, v in cs[-1].items()}))


def digits(d, ul):
    rng = d.rng
    by = {}
    for c in d.cases("digits"):
        by.setdefault(c["n"], []).append(c)
    for char in ICHARS:
        top = np.iinfo(char).max
        for n, cs in by.items():
            cs = [c for c in cs if c["k"] <= top and c["base"] <= top]
            k = np.array([c["k"] for c in cs], dtype=char)
            b = np.array([c["base"] for c in cs], dtype=char)
            exp = np.array([c["ds"] for c in cs], dtype=int).reshape(len(cs), n)
            pk, pb = Placed(k, rng), Placed(b, rng)
            po = Placed(np.full((len(cs), n), -5), rng)
            d.begin("convert_to_base digits %s n=%d" % (char, n))
            for how, r in (("plain", ul.convert_to_base(k, b, n)),
                           ("strided", ul.convert_to_base(pk.view, pb.view, n, out=po.view)),
                           ("axis0", ul.convert_to_base(k, b, n, axis=0).T)):
                d.replayed += len(cs)
                ok = r.shape == exp.shape and bool((r == exp).all())
                if not ok and r.shape == exp.shape:
                    j = int(np.argwhere((r != exp).any(axis=1))[0][0])
                    d.violation("digits", dict(dtype=char, how=how, case=cs[j], got=r[j].tolist()))
                d.expect(r.shape == exp.shape, "digits-shape", lambda: dict(got=r.shape))
            d.expect(po.guards_intact() and pk.unchanged() and pb.unchanged(), "write-outside-output", dict(dtype=char))
            # broadcasting of k against base
            ks, bs = np.unique(k), np.unique(b)
            r = ul.convert_to_base(ks[:, None], bs, n)
            tab = {(c["k"], c["base"]): c["ds"] for c in cs}
            exp2 = np.array([[tab[int(q), int(w)] for w in bs] for q in ks], dtype=int).reshape(len(ks), len(bs), n)
            d.expect(r.shape == exp2.shape and bool((r == exp2).all()), "digits-broadcast",
                     lambda: dict(dtype=char, n=n))
            r = ul.convert_to_base(ks[:, None], bs, n, axis=1)
            e3 = np.moveaxis(exp2, -1, 1)
            d.expect(r.shape == e3.shape and bool((r == e3).all()), "digits-broadcast",
                     lambda: dict(dtype=char, n=n, axis=1))
    d.cover("digit cases", sum(map(len, by.values())))


def errors(d, ul):
    i3 = np.arange(3)
    cases = [
        ("base 0", lambda: ul.convert_to_base(7, 0, 3)),
        ("base 0 in a batch", lambda: ul.convert_to_base(np.array([7, 8]), np.array([2, 0]), 3)),
        ("ndigits float", lambda: ul.convert_to_base(7, 2, 3.0)),
        ("ndigits negative", lambda: ul.convert_to_base(7, 2, -1)),
        ("one_hot float k", lambda: ul.one_hot(1.0, 3)),
        ("one_hot bool k", lambda: ul.one_hot(np.array([True]), 3)),
        ("one_hot float n", lambda: ul.one_hot(1, 3.0)),
        ("one_hot negative n", lambda: ul.one_hot(1, -3)),
        ("nextn_greater int", lambda: ul.nextn_greater(i3, 2)),
        ("nextn_less int", lambda: ul.nextn_less(i3, 2)),
        ("nextn_greater half", lambda: ul.nextn_greater(i3.astype(np.float16), 2)),
        ("nextn_less complex", lambda: ul.nextn_less(i3.astype(complex), 2)),
        ("nextn_greater float n", lambda: ul.nextn_greater(1.5, 2.0)),
        ("nextn_less negative n", lambda: ul.nextn_less(1.5, -1)),
        ("broadcast", lambda: ul.convert_to_base(np.arange(3), np.array([2, 3]), 2)),
    ]
    for b in "bhilqBHILQ":
        cases.append(("base 0 " + b, lambda b=b: ul.convert_to_base(np.array(7, b), np.array(0, b), 2)))
    for name, f in cases:
        d.begin("error case " + name)
        d.replayed += 1
        r, err = outcome(f)
        d.expect(isinstance(err, ValueError), "no-error", lambda: dict(case=name, got=repr(r), error=repr(err)))
    # after an error the function works
    r = ul.convert_to_base(7, 2, 3)
    d.expect(r.tolist() == [1, 1, 1], "after-error", repr(r))


def record(d, ul):
    """Values of every magnitude of every type, judged with big naturals."""
    rng = d.rng
    for char in ICHARS:
        top = int(np.iinfo(char).max)
        ks = [0, 1, top, top - 1, top // 2, top // 3]
        bs = [2, 3, 10, min(top, 255), min(top, 256), min(top, 2 ** 63 - 1), top // 2 + 1, min(top, 2 ** 31)]
        pairs = [(k, b) for k in ks for b in bs if 2 <= b < 2 ** 63]
        for _ in range(200 if d.thorough else 40):
            bits = int(rng.integers(1, top.bit_length() + 1))
            k = int.from_bytes(rng.bytes(8), "little") % (2 ** bits)
            bb = int(rng.integers(2, min(top.bit_length(), 63) + 1))
            b = max(2, int.from_bytes(rng.bytes(8), "little") % (2 ** bb))
            pairs.append((min(k, top), min(b, top, 2 ** 63 - 1)))
        for k, b in pairs:
            n = int(rng.choice([0, 1, 2, 3, 5, 9, 20, 64]))
            d.begin("convert_to_base(%s %d, %d, %d)" % (char, k, b, n))
            r = ul.convert_to_base(np.array(k, dtype=char), np.array(b, dtype=char), n)
            ds = [int(v) for v in r.tolist()]
            d.emit("place", dict(fn="convert_to_base", dtype=char, k=limbs(k), base=limbs(b),
                                 digits=[limbs(v) if v >= 0 else [-1] for v in ds],
                                 top=limbs(k // b ** n)))
        for n in (0, 1, 2, 7, 8, 9, 31, 32, 33, 64, 100, 127, 128, 129, 300):
            for k in {-1, 0, n - 1, n, n // 2, top, int(np.iinfo(char).min), top // 2 + 1, 127, 128 - 256}:
                if not np.iinfo(char).min <= k <= top:
                    continue
                d.begin("one_hot(%s %d, %d)" % (char, k, n))
                r = ul.one_hot(np.array(k, dtype=char), n)
                d.emit("place", dict(fn="one_hot", dtype=char, k=k if 0 <= k < n else -1, n=n,
                                     out=[int(v) for v in r.tolist()]))
