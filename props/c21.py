"""C21: which types and shapes each function takes, and what it returns for them."""
import builtins

import numpy as np

from vf.catalog import catalog
from vf.layouts import describe, same

ASSUMPTIONS = [
    "NumPy's own rules of safe conversion and of choosing a loop; np.can_cast is compared with the model's table.",
    "The published table is spec/LoopTable.tla, written down from the documentation and the code at the pinned commit.",
    "For float16 and the integers, a function of floating-point numbers gives the result for the converted values.",
]
TYPES = "?bBhHiIlLqQefdgFDGOMm"


def models(tier, seed):
    big = tier == "thorough"
    inv = "SPECIFICATION Spec\nINVARIANTS Right Sound Own NoBoxing Distinct Listed Emitted\n"
    inv2 = "SPECIFICATION Spec\nINVARIANTS Right Results Listed Emitted\n"
    return [
        dict(name="types", module="DispatchScan", cfg="CONSTANTS Lo = 1 Hi = 99 Fault = \"none\"\n" + inv),
        dict(name="boxing", module="DispatchScan", refutes=True, cfg="CONSTANTS Lo = 2 Hi = 2 Fault = \"object\"\n" + inv),
        dict(name="shapes", module="ShapeBind",
             cfg="CONSTANTS Sizes = {0,1,2%s} Odd = {0,1,2,5} Many = %d Fault = \"none\"\n" % (",3" if big else "", 4 if big else 3)
                 + inv2),
        dict(name="stretch", module="ShapeBind", refutes=True,
             cfg="CONSTANTS Sizes = {1,3} Odd = {1,2} Many = 3 Fault = \"one\"\n" + inv2)]


def traces(tier):
    return [dict(stream="types", module="Dispatch", failures="DispatchFailures"),
            dict(stream="shapes", module="Shapes", failures="ShapeFailures")]


def small(kind, char, shape, rng, name=""):
    """Data that every type represents: small numbers that are not negative."""
    n = int(np.prod(shape, dtype=int))
    r = {"op": (0, 6), "kind": (0, 4), "bool": (0, 2), "ddof": (0, 2), "index": (0, 2), "small": (0, 4), "count": (0, 20),
         "base": (2, 5), "pos": (1, 7), "unit": (0, 2), "zero": (0, 1), "one": (2, 4), "low": (0, 1), "high": (1, 4),
         "power": (1, 4), "order": (1, 3), "x": (0, 5), "sorted": (0, 5), "sos": (0, 3)}[kind]
    v = rng.integers(r[0], r[1], n).reshape(shape)
    if kind == "sos" and shape and shape[-1] > 3:
        v[..., 3] = 1
    if kind == "sorted":
        v = np.sort(v, axis=-1) if shape else v
        if name == "linear_interp1d" and shape:
            v = v + np.arange(shape[-1])
    return v


def to(v, char):
    """v in the type char; '?' keeps what is not zero."""
    if char in "Mm":
        return v.astype("l").astype(char + "8[s]")
    if char == "O":
        o = np.empty(v.shape, dtype=object)
        for k in np.ndindex(v.shape):
            o[k] = int(v[k])
        return o
    return v.astype(char)


def attempt(d, what, call):
    d.begin(what)
    try:
        r = call()
    except Exception as e:          # noqa: BLE001
        return next((q for q in ("TypeError", "ValueError") if isinstance(e, getattr(builtins, q))), type(e).__name__), []
    return "", list(r) if isinstance(r, tuple) else [r]


def drive(d):
    fns = {f.name: f for f in catalog(gendots=False)}
    listed(d, fns)
    types(d, fns)
    random_types(d, fns)
    shapes(d, fns)
    random_shapes(d, fns)
    counts(d, fns)
    agreement(d, fns)


def listed(d, fns):
    """The functions of the table are those of the library, and declare the published loops."""
    d.tables = {}
    for c in d.cases("types"):
        if "tab" in c:
            d.tables[c["t"]] = c
            cast = c["cast"]
    bad = [(a, b) for a in TYPES for b in TYPES if cast[a][b] != np.can_cast(np.dtype(a), np.dtype(b))]
    d.expect(not bad, "numpy-conversion", lambda: dict(pairs=bad))
    for f in fns.values():
        d.expect(any(f.name in c["names"] for c in d.tables.values()), "not-in-table", lambda: dict(name=f.name))
    have = set(fns)
    for c in d.tables.values():
        for n in c["names"]:
            d.expect(n in have, "function-missing", lambda: dict(name=n))


def shape_for(f, sz, outer=()):
    return [tuple(outer) + f.core(c, sz) for c in f.cin]


SPECIAL = {"bincount", "bincountw", "convert_to_base", "one_hot", "nextn_greater", "nextn_less"}


def invoke(f, ul, args, out=None):
    """Call a function, the wrappers with a fixed size."""
    kw = {} if out is None else dict(out=out[0] if len(out) == 1 else tuple(out))
    if f.name == "bincount":
        return ul.bincount(args[0], 4, **kw)
    if f.name == "bincountw":
        return ul.bincount(args[0], 4, args[1], **kw)
    if f.name == "convert_to_base":
        return ul.convert_to_base(args[0], args[1], 4, **kw)
    if f.name in SPECIAL:
        return getattr(ul, f.name)(args[0], 4, **kw)
    return f.f(*args, **kw)


def wrote(o, before):
    return any(x.tobytes() != b for x, b in zip(o, before))


def poisoned(shapes, chars):
    o = []
    for s, c in zip(shapes, chars):
        a = np.empty(s, dtype=c)
        a[...] = "poison" if c == "O" else a.dtype.type(77) if c != "?" else True
        o.append(a)
    return o


def types(d, fns):
    import ufunclab as ul
    conv = 0
    for c in d.cases("types"):
        if "tab" in c:
            continue
        tab = d.tables[c["t"]]
        names = tab["names"]
        if not d.thorough and len(names) > 5:
            names = [names[k] for k in sorted(d.rng.permutation(len(names))[:4])]
        for nm in names:
            if nm not in fns:
                continue
            f = fns[nm]
            w = c["w"][tab["names"].index(nm)]
            sz = {q: 3 for q in f.dims}
            shp = shape_for(f, sz, (1,) if "O" in c["a"] else ())
            raw = [small(k, "d", s, d.rng, nm) for k, s in zip(f.kinds, shp)]
            if "?" in c["a"] and nm == "convert_to_base":
                raw[1][...] = 1
            args = [to(v, t) for v, t in zip(raw, c["a"])]
            # dates among objects: the objects decide
            if w and any(t in "Mm" for t in c["a"]):
                continue
            if "O" in c["a"] and (nm == "convert_to_base" or set(c["a"]) & set("FDG")):
                continue
            err, r = attempt(d, "%s %s" % (nm, describe(args)), lambda: invoke(f, ul, args))
            det = lambda: dict(call=nm, types=c["a"], got=err or [x.dtype.char for x in map(np.asarray, r)], expected=w)   # noqa
            if not w:
                if not d.expect(err in ("TypeError", "ValueError"), "type-not-refused", det):
                    continue
                core = [f.core(q, sz) for q in f.cout]
                out = poisoned(core, [p for p in (f.loops[0][1])])
                before = [x.tobytes() for x in out]
                err, r = attempt(d, "%s out= %s" % (nm, describe(args)), lambda: invoke(f, ul, args, out))
                d.expect(err in ("TypeError", "ValueError"), "type-not-refused", det)
                d.expect(not wrote(out, before), "written-on-error", det)
                d.replayed += 1
                continue
            if not d.expect(not err, "type-refused", det):
                continue
            d.replayed += 1
            got = [getattr(x, "dtype", np.dtype("O")).char for x in r]
            d.expect(got == w, "type-of-result", det)
            if c["in"] and c["in"] != c["a"] and nm not in SPECIAL:
                conv += 1
                use = [a.astype(t) for a, t in zip(args, c["in"])]
                e2, r2 = attempt(d, "%s %s" % (nm, describe(use)), lambda: invoke(f, ul, use))
                d.expect(not e2 and all(np.array_equal(x, y) or bool(np.all(same(x, y))) for x, y in zip(r, r2)),
                         "converted-result", lambda: dict(call=nm, types=c["a"], loop=c["in"], args=describe(args),
                                                          got=repr(r), expected=repr(r2)))
    d.cover("calls with converted arguments", conv)


def record_types(d, f, t, a, fns):
    import ufunclab as ul
    sz = {q: 2 for q in f.dims}
    raw = [small(k, "d", s, d.rng, f.name) for k, s in zip(f.kinds, shape_for(f, sz, (2,)))]
    if f.name == "convert_to_base":
        raw[1][...] = 1
    args = [to(v, q) for v, q in zip(raw, a)]
    err, r = attempt(d, "%s %s" % (f.name, describe(args)), lambda: invoke(f, ul, args))
    d.emit("types", dict(t=t, name=f.name, a=a, r=[getattr(x, "dtype", np.dtype("O")).char for x in r], err=err, wrote=False))


def random_types(d, fns):
    """Every argument of any type, and Python numbers do not appear: TLC decides."""
    for t, c in d.tables.items():
        for nm in c["names"]:
            f = fns.get(nm)
            if f is None or len(f.kinds) < 2:
                continue
            for _ in range(120 if d.thorough else 25):
                a = [str(x) for x in d.rng.choice(list("?bBhHiIlLqQefdgFDGO"), len(f.kinds))]
                if "O" in a and (nm == "convert_to_base" or set(a) & set("FDG")):      # the elements decide
                    continue
                if d.rng.integers(2):
                    a = [x if d.rng.integers(3) else str(d.rng.choice(list("?bBhf"))) for x in a]
                record_types(d, f, t, a, fns)
    d.cover("functions of several arguments with random types")


def shapes(d, fns):
    sigs = {}
    for c in d.cases("shapes"):
        if "names" in c:
            sigs[c["g"]] = c["names"]
    for f in fns.values():
        d.expect(f.outdims or any(f.name in n for n in sigs.values()), "not-in-table", lambda: dict(name=f.name))
    d.sigs = sigs
    for c in d.cases("shapes"):
        if "names" in c:
            continue
        names = [n for n in sigs[c["g"]] if n in fns]
        if not d.thorough and len(names) > 3:
            names = [names[k] for k in d.rng.permutation(len(names))[:2]]
        for nm in names:
            one_shape(d, fns[nm], c)


def one_shape(d, f, c):
    nm = f.name
    shp = [tuple(s) for s in c["s"]]
    if nm == "tri_area_indexed" and (len(shp[0]) < 2 or shp[0][-2] < 2):
        return          # no point for the indices to refer to
    i, o = f.loops[int(d.rng.integers(len(f.loops)))]
    args = [to(small(k, t, s, d.rng, nm), t) for k, t, s in zip(f.kinds, i, shp)]
    err, r = attempt(d, "%s %s" % (nm, describe(args)), lambda: f.f(*args))
    if c["free"]:
        return
    det = lambda: dict(call=nm, types=i, shapes=shp, got=err or [np.shape(x) for x in r], expected=c["out"] if c["ok"] else "ValueError")  # noqa
    d.replayed += 1
    if c["ok"]:
        if d.expect(not err, "shape-refused", det):
            d.expect([list(np.shape(x)) for x in r] == c["out"], "shape-of-result", det)
        return
    d.expect(err == "ValueError", "shape-not-refused", det)
    if d.rng.integers(2) or f.outdims:
        ids = {}
        for q, s in zip(f.cin, shp):
            for k, v in enumerate(reversed(q)):
                if k < len(s):
                    ids.setdefault(v, s[len(s) - 1 - k])
        outer = max((s[:max(len(s) - len(q), 0)] for q, s in zip(f.cin, shp)), key=len)
        out = poisoned([tuple(outer) + tuple(v if isinstance(v, int) else ids.get(v, 1) for v in q) for q in f.cout], o)
        before = [x.tobytes() for x in out]
        err, r = attempt(d, "%s out= %s" % (nm, describe(args)), lambda: f.call(args, out=tuple(out)))
        d.expect(err == "ValueError", "shape-not-refused", det)
        d.expect(not wrote(out, before), "written-on-error", det)


def random_shapes(d, fns):
    """Arbitrary shapes near those of the signature: TLC decides."""
    for g, names in d.sigs.items():
        for nm in names:
            f = fns.get(nm)
            if f is None:
                continue
            for _ in range(60 if d.thorough else 12):
                sz = {q: int(d.rng.choice([0, 1, 2, 3, 4])) for q in f.dims}
                outer = tuple(int(v) for v in d.rng.choice([1, 2, 3], int(d.rng.integers(0, 3))))
                shp = []
                for q in f.cin:
                    s = list(outer[int(d.rng.integers(len(outer) + 1)):]) + list(f.core(q, sz))
                    for k in range(len(s)):
                        if not d.rng.integers(8):
                            s[k] = int(d.rng.choice([0, 1, 2, 3, 6]))
                    if s and not d.rng.integers(10):
                        s.pop(int(d.rng.integers(len(s))))
                    shp.append(tuple(s))
                if nm == "tri_area_indexed" and (len(shp[0]) < 2 or shp[0][-2] < 2):
                    continue
                i, o = f.loops[int(d.rng.integers(len(f.loops)))]
                args = [to(small(k, t, s, d.rng, nm), t) for k, t, s in zip(f.kinds, i, shp)]
                err, r = attempt(d, "%s %s" % (nm, describe(args)), lambda: f.f(*args))
                d.emit("shapes", dict(g=g, s=[list(s) for s in shp], r=[list(np.shape(x)) for x in r], err=err, wrote=False))


def counts(d, fns):
    """Too few or too many arguments."""
    for f in fns.values():
        if f.name in SPECIAL:
            continue
        sz = {q: 3 for q in f.dims}
        args = [to(small(k, t, s, d.rng, f.name), t) for k, t, s in zip(f.kinds, f.loops[0][0], shape_for(f, sz))]
        for a in (args[:-1], args + [np.zeros(())] * (f.nout + 1)):
            err, r = attempt(d, "%s with %d arguments" % (f.name, len(a)), lambda: f.f(*a))
            d.expect(err == "TypeError", "argument-count", lambda: dict(call=f.name, n=len(a), got=err or repr(r)))


def agreement(d, fns):
    """A value that several types represent gives the same result in each."""
    for f in fns.values():
        if f.name in ("issnan", "next_less", "next_greater", "nextn_less", "nextn_greater", "convert_to_base", "bincount",
                      "bincountw", "one_hot"):
            continue
        for rep in range(12 if d.thorough else 4):
            sz = {q: int(d.rng.integers(2, 7)) for q in f.dims}
            raw = [small(k, "d", (5,) + f.core(c, sz), d.rng, f.name) for k, c in zip(f.kinds, f.cin)]
            res = []
            for i, o in f.loops:
                args = [to(v, t) for v, t in zip(raw, i)]
                err, r = attempt(d, "%s %s" % (f.name, describe(args)), lambda: f.f(*args))
                if d.expect(not err, "type-refused", lambda: dict(call=f.name, types=i, err=err)):
                    res.append((i, o, [np.asarray(x) for x in r]))
            ref = [x for x in res if "d" in x[0] or "D" in x[0]] or res
            if not ref:
                continue
            i0, o0, r0 = ref[-1]
            for i, o, r in res:
                tol = 5e-5 if set(i + o) & set("fFe") else 1e-9
                for x, y in zip(r, r0):
                    x, y = x.astype("D"), y.astype("D")
                    with np.errstate(all="ignore"):
                        ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol * (1 + np.abs(y)))
                    d.expect(bool(np.all(ok)), "types-disagree",
                             lambda: dict(call=f.name, types=[i, i0], args=[v.tolist() for v in raw], got=repr(x), other=repr(y)))
    d.cover("agreement of loops", 1)
