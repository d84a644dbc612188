"""C22: object arrays: results, exceptions of the elements, and references."""
import sys

import numpy as np

from vf.layouts import Placed

ASSUMPTIONS = [
    "Elements do not replace the elements of the arrays while they are compared.",
    "An object compared with itself may be taken as equal without asking it (Python's rule for containers).",
]
FNS = ["argmin", "argmax", "minmax", "argminmax", "min_argmin", "max_argmax", "peaktopeak", "all_same", "ordered", "first",
       "argfirst", "searchsortedl", "searchsortedr", "cross2", "cross3"]
QF = ",".join('"%s"' % f for f in FNS)
OPS = ["LT", "LE", "EQ", "NE", "GT", "GE"]


def models(tier, seed):
    big = tier == "thorough"
    base = "CONSTANTS Fns = {%s} Data = {%s} Lens = {%s} Rows = %d MaxOps = %d TheOps = {%s} Targets = {2} Fault = \"%s\"\n" \
           "SPECIFICATION Spec\nINVARIANTS Right Stops NoResult Balanced Few Emitted\n"
    return [dict(name="one", module="ObjectCall",
                 cfg=base % (QF, "1,2,3", "1,2,3,4" if big else "1,2,3", 1, 9, ",".join('"%s"' % o for o in OPS), "none")),
            dict(name="two", module="ObjectCall",
                 cfg=base % (QF, "1,2,3" if big else "1,3", "2,3", 2, 18 if big else 10, '"LT", "GE"', "none")),
            dict(name="goon", module="ObjectCall", refutes=True, cfg=base % (QF, "1,3", "2", 2, 4, '"LT"', "goon")),
            dict(name="leak", module="ObjectCall", refutes=True, cfg=base % ('"cross2","cross3"', "1,3", "2", 2, 4, '"LT"', "leak"))]


def traces(tier):
    return [dict(stream="calls", module="Objects", failures="ObjectFailures")]


class Boom(Exception):
    pass


class World:
    """Counts the operations of the elements, and raises at one of them."""
    made = fault = alive = 0
    raised = None
    truth = False

    def op(self):
        self.made += 1
        if self.made == self.fault:
            self.raised = self.kind("operation %d" % self.made)
            raise self.raised

    def answer(self, v):
        return Truth(v) if self.truth else v


W = World()


class Truth:
    """What a comparison returns, when it is not a bool."""

    def __init__(self, v):
        self.v = v
        W.alive += 1

    def __del__(self):
        W.alive -= 1

    def __bool__(self):
        W.op()
        return self.v


class V:
    """An element of an array."""

    def __init__(self, v, temp=False):
        self.v, self.temp = v, temp
        W.alive += temp

    def __del__(self):
        W.alive -= self.temp

    def __lt__(self, o):
        W.op()
        return W.answer(self.v < o.v)

    def __le__(self, o):
        W.op()
        return W.answer(self.v <= o.v)

    def __gt__(self, o):
        W.op()
        return W.answer(self.v > o.v)

    def __ge__(self, o):
        W.op()
        return W.answer(self.v >= o.v)

    def __eq__(self, o):
        W.op()
        return W.answer(self.v == o.v)

    def __ne__(self, o):
        W.op()
        return W.answer(self.v != o.v)

    __hash__ = object.__hash__

    def __sub__(self, o):
        W.op()
        return V(self.v - o.v, True)

    def __mul__(self, o):
        W.op()
        return V(self.v * o.v, True)


HOLDS = {"minmax": [(2, "O")], "min_argmin": [(0, "O"), (0, "l")], "max_argmax": [(0, "O"), (0, "l")], "peaktopeak": [(0, "O")],
         "first": [(0, "O")], "cross2": [(0, "O")], "cross3": [(3, "O")], "argminmax": [(2, "l")], "all_same": [(0, "?")],
         "ordered": [(0, "?")]}


def places(arrays, loose, objs):
    """How many places of the arrays and the list hold each object."""
    c = {}
    for a in arrays:
        if a.dtype.kind == "O":
            for o in a.reshape(-1):
                c[id(o)] = c.get(id(o), 0) + 1
    for o in loose:
        c[id(o)] = c.get(id(o), 0) + 1
    return [c.get(id(o), 0) for o in objs]


def objarr(rows):
    a = np.empty(np.shape(rows), dtype=object)
    for k in np.ndindex(a.shape):
        v = rows
        for q in k:
            v = v[q]
        a[k] = V(v)
    return a


def call(d, ul, fn, op, t, rows, fault, mode, truth, kind):
    """One call of the implementation; returns what is recorded of it."""
    rng = d.rng
    x = objarr(rows)
    ops = {"op": np.int8(OPS.index(op))}
    if fn in ("cross2", "cross3"):
        y = objarr([list(reversed(r)) for r in rows])
        args = [x, y]
    elif fn in ("argfirst", "searchsortedl", "searchsortedr", "first"):
        args = [x] + ([ops["op"]] if "first" in fn else []) + [np.array(V(t), dtype=object)]
        if fn == "first":
            args.append(np.array(V(-77), dtype=object))
        if "strided" in mode:
            args[-1] = objarr([args[-1][()].v] * len(rows))
    elif fn == "ordered":
        args = [x, ops["op"]]
    else:
        args = [x]
    bufs = []
    if "strided" in mode:
        for j, a in enumerate(args):
            if getattr(a, "dtype", None) == object and a.ndim:
                p = Placed(a, rng, fill=V(1000))
                bufs.append(p.mem)
                args[j] = p.view
    if "single" in mode:
        args = [a[0] if a.ndim and j == 0 or fn.startswith("cross") else a for j, a in enumerate(args)]
    out = None
    kw = {}
    outs = []
    if "out" in mode:
        for c, ch in HOLDS.get(fn, [(0, "l")]):
            o = np.empty((len(rows),) + ((c,) if c else ()), dtype=ch)
            if ch == "O":
                for q in np.ndindex(o.shape):
                    o[q] = V(500)
                p = Placed(o, rng, fill=V(1001))
                bufs.append(p.mem)
                o = p.view
            else:
                o[...] = 1
            outs.append(o)
        kw = dict(out=outs[0] if len(outs) == 1 else tuple(outs))
    arrays = [a for a in args if isinstance(a, np.ndarray)] + bufs + outs
    arrays = list({id(a): a for a in arrays}.values())
    owned = [a for a in arrays if a.base is None or a.size == 0]
    owned = list({id(q): q for q in [a if a.base is None else base(a) for a in arrays]}.values())
    objs = list({id(o): o for a in owned if a.dtype.kind == "O" for o in a.reshape(-1)}.values())
    o = a = p = q = y = x = None
    pl0 = places(owned, [], objs)
    rc0 = [sys.getrefcount(v) for v in objs]
    W.made, W.fault, W.raised, W.truth, W.kind, W.alive = 0, fault, None, truth, kind, 0
    err, res = "", []
    d.begin("%s op=%s t=%s rows=%s fault=%d %s" % (fn, op, t, rows, fault, mode))
    try:
        res = getattr(ul, fn)(*args, **kw)
        res = list(res) if isinstance(res, tuple) else [res]
    except BaseException as e:          # noqa: BLE001
        err = "own" if e is W.raised else "other"
        e.__traceback__ = e.__context__ = e.__cause__ = None
        if W.raised is not None:
            W.raised.__traceback__ = W.raised.__context__ = None
        e = None
    W.raised = None
    made, W.fault = W.made, 0
    held = [v for v in res if isinstance(v, np.ndarray) and not any(v is b for b in outs)]
    loose = [v for v in res if isinstance(v, V)]
    pl1 = places(owned + held, loose + loose, objs) if loose else places(owned + held, [], objs)
    v = None
    rc1 = [sys.getrefcount(v) for v in objs]
    v = None
    if loose:       # held by res and by loose
        pass
    unbal = sum((b - a) != (n - m) for a, b, m, n in zip(rc0, rc1, pl0, pl1))
    val = []
    if not err:
        n = 1 if "single" in mode else len(rows)
        for k in range(n):
            r = []
            for f in res:
                g = f if "single" in mode else f[k]
                for z in np.atleast_1d(np.asarray(g)).reshape(-1) if not isinstance(g, V) else [g]:
                    r.append(z.v if isinstance(z, V) else int(z))
                    z = None
                g = None
            val.append(r)
    f = r = None
    for b in owned + held:
        if b.dtype.kind == "O":
            b[...] = None
    res = held = loose = b = None
    alive = W.alive
    return dict(fn=fn, op=op, t=t, x=[list(q) for q in (rows[:1] if "single" in mode else rows)], fault=fault, made=made, err=err,
                unbalanced=int(unbal), alive=alive, out=val, mode=mode, truth=bool(truth))


def base(a):
    while a.base is not None:
        a = a.base
    return a


KINDS = [Boom, ValueError, StopIteration, KeyError, ZeroDivisionError, IndexError, TypeError, AttributeError, OverflowError, NotImplementedError,
         MemoryError, RecursionError, FloatingPointError, KeyboardInterrupt]


def explore(d, ul, fn, op, t, rows, modes):
    """A call without fault, then one with a fault at each of its operations."""
    for mode in modes:
        truth = bool(d.rng.integers(3) == 0)
        kind = KINDS[int(d.rng.integers(len(KINDS)))]
        e = call(d, ul, fn, op, t, rows, 0, mode, truth, kind)
        d.emit("calls", e)
        d.replayed += 1
        total = e["made"]
        pick = range(1, total + 1) if total <= 24 else sorted(int(v) + 1 for v in d.rng.choice(total, 24, replace=False))
        for m in pick:
            d.emit("calls", call(d, ul, fn, op, t, rows, m, mode, truth, kind))
            d.replayed += 1


def drive(d):
    import ufunclab as ul
    cs = list(d.cases("one")) + list(d.cases("two"))
    d.cover("model cases", len(cs))
    by = {}
    for c in cs:
        by.setdefault(c["fn"], []).append(c)
    for fn, group in sorted(by.items()):
        lim = 1500 if d.thorough else 70
        if len(group) > lim:
            group = [group[k] for k in d.rng.permutation(len(group))[:lim]]
        for c in group:
            ms = ["batch", "batch out", "batch strided", "batch strided out"] + (["single"] if len(c["x"]) == 1 else [])
            explore(d, ul, fn, c["op"], c["t"], c["x"], [ms[int(k)] for k in d.rng.permutation(len(ms))[:2]])
    larger(d, ul)
    everyday(d, ul)
    d.sample(cs[-1])


def larger(d, ul):
    """Longer rows and batches."""
    for fn in FNS:
        for _ in range(40 if d.thorough else 5):
            n = {"cross2": 2, "cross3": 3}.get(fn, int(d.rng.integers(1, 12)))
            rows = d.rng.integers(0, 4, (int(d.rng.integers(1, 6)), n)).tolist()
            if fn.startswith("searchsorted"):
                rows = [sorted(r) for r in rows]
            if fn in ("all_same", "ordered") and d.rng.integers(2):
                rows = [sorted(r) if fn == "ordered" else [2] * n for r in rows]
            explore(d, ul, fn, OPS[int(d.rng.integers(6))] if fn in ("ordered", "first", "argfirst") else "LT",
                    int(d.rng.integers(0, 4)), rows, ["batch", "batch strided out"])
    d.cover("larger", 1)


def everyday(d, ul):
    """Objects that are not made for the test: big integers, fractions, strings, tuples, and mixtures that do not compare."""
    from fractions import Fraction
    data = [[10 ** 30 + k for k in (3, 1, 4, 1, 5)], [Fraction(k, 7) for k in (3, 1, 4, 1, 5)], ["pear", "fig", "plum", "fig", "quince"],
            [(3, "a"), (1, "b"), (4, "c"), (1, "b"), (5, "e")], [2.5, float("inf"), -1.0, True, 3]]
    for vals in data:
        x = np.empty(5, dtype=object)
        for k, v in enumerate(vals):
            x[k] = v
        s = sorted(vals)
        lo, hi = s[0], s[-1]
        for fn, want in [("argmin", vals.index(lo)), ("argmax", vals.index(hi)), ("minmax", [lo, hi]),
                         ("argminmax", [vals.index(lo), vals.index(hi)]), ("min_argmin", [lo, vals.index(lo)]),
                         ("max_argmax", [hi, vals.index(hi)]), ("all_same", False), ("searchsortedl", s.index(vals[0]))]:
            d.begin("%s of %r" % (fn, vals))
            if fn == "searchsortedl":
                q = np.empty(5, dtype=object)
                for k, v in enumerate(s):
                    q[k] = v
                t = np.empty((), dtype=object)
                t[()] = vals[0]
                r = ul.searchsortedl(q, t)
            else:
                r = getattr(ul, fn)(x)
            got = list(r) if isinstance(r, (tuple, np.ndarray)) and fn != "all_same" else r
            d.expect(got == want, "object-" + fn, lambda: dict(call=fn, x=repr(vals), got=repr(got), expected=repr(want)))
            d.replayed += 1
    mixed = np.array([1, "a", 2], dtype=object)
    for fn in ("argmin", "argmax", "minmax", "argminmax", "min_argmin", "max_argmax", "peaktopeak"):
        for a in (mixed, np.array([mixed, [1, 2, 3]], dtype=object)):
            d.begin("%s of a mixture" % fn)
            try:
                r = getattr(ul, fn)(a)
                err = None
            except Exception as e:      # noqa: BLE001
                err = e
            d.expect(type(err) is TypeError and "not supported between" in str(err), "exception-replaced",
                     lambda: dict(call=fn, x=repr(a), got=repr(err)))
    d.cover("everyday objects", len(data))
