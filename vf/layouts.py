"""Realize logical arrays in memory layouts, with guard cells around every element."""
import numpy as np

from .guard import guarded


def poison(dtype, rng):
    dt = np.dtype(dtype)
    if dt.kind == "f":
        return dt.type([np.nan, 1.25e19, -77.25, 1234.5][int(rng.integers(4))])
    if dt.kind == "c":
        return dt.type([complex(1.25e19, -3.5e17), complex(1234.5, -77.25)][int(rng.integers(2))])
    if dt.kind == "b":
        return bool(rng.integers(2))
    if dt.kind == "O":
        return "poison"
    return dt.type([0x55, 0x2a, 0, 1][int(rng.integers(4))])


class Placed:
    """A logical array placed inside a larger buffer of poison."""

    def __init__(self, a, rng, steps=None, order=None, fill=None):
        a = np.asarray(a)
        nd = a.ndim
        if steps is None:
            unit = rng.integers(4) == 0       # neighbours in memory, in either direction
            steps = [int(rng.choice([-1, 1] if unit else [-3, -2, -1, 1, 2, 3])) for _ in range(nd)]
        if order is None:
            order = list(rng.permutation(nd)) if rng.integers(3) else list(range(nd))
        self.steps, self.order = steps, [int(k) for k in order]
        fill = poison(a.dtype, rng) if fill is None else fill
        pad = [int(rng.integers(1, 4)) for _ in range(nd)]
        shape = [0] * nd
        sl = [None] * nd
        for ax in range(nd):
            g, n = abs(steps[ax]), a.shape[ax]
            shape[ax] = pad[ax] + max(n, 0) * g + 2
            idx = slice(pad[ax], pad[ax] + n * g, g)
            sl[ax] = idx
        mem = np.empty([shape[k] for k in self.order], dtype=a.dtype)
        mem[...] = fill
        inv = np.argsort(self.order) if nd else []
        view = mem.transpose(inv) if nd else mem
        view = view[tuple(sl)]
        for ax in range(nd):
            if steps[ax] < 0:
                view = np.flip(view, ax)
        view[...] = a
        self.mem, self.view = mem, view
        mask = np.zeros(mem.shape, dtype=bool)
        mv = mask.transpose(inv) if nd else mask
        mv = mv[tuple(sl)]
        mv[...] = True
        self.mask = mask
        self.before = self.snapshot()

    def snapshot(self):
        if self.mem.dtype.kind == "O":
            return [id(v) for v in self.mem.reshape(-1)]
        return self.mem.tobytes()

    def unchanged(self):
        return self.snapshot() == self.before

    def guards_intact(self):
        """No cell other than the elements of the view has changed."""
        now = self.snapshot()
        if now == self.before:
            return True
        if self.mem.dtype.kind == "O":
            m = self.mask.reshape(-1)
            return all(b == c or m[k] for k, (b, c) in enumerate(zip(self.before, now)))
        sz = self.mem.dtype.itemsize
        b = np.frombuffer(self.before, dtype=np.uint8).reshape(-1, sz)
        c = np.frombuffer(now, dtype=np.uint8).reshape(-1, sz)
        diff = (b != c).any(axis=1)
        return not (diff & ~self.mask.reshape(-1)).any()


def describe(args):
    return "; ".join("%s%s strides=%s %s" % (np.asarray(a).dtype.char, np.shape(a),
                                             np.asarray(a).strides,
                                             np.array2string(np.asarray(a), threshold=40,
                                                             max_line_width=200)
                                             if np.asarray(a).size <= 64 else "...")
                     for a in args)


def modes_for(d, extra=()):
    return ["contig", "strided", "out", "mixed", "small", "single"] + list(extra)


def run_modes(d, name, func, args, outs, check, modes=None, singles=6, kw=None, prefill=None):
    """Call func on a batch in several layouts.

    args: arrays, each with the same leading batch length N (core dims follow).
    outs: list of (core shape, dtype) of the outputs.
    check(mode, rows, results): results is a list of arrays for the batch rows `rows`.
    """
    rng = d.rng
    kw = kw or {}
    args = [np.asarray(a) for a in args]
    n = args[0].shape[0]
    rows = np.arange(n)
    for mode in modes or modes_for(d):
        if mode == "contig":
            d.begin("%s contiguous %s" % (name, describe(args)))
            r = func(*args, **kw)
            check(mode, rows, list(r) if isinstance(r, tuple) else [r])
        elif mode == "strided":
            pl = [Placed(a, rng) for a in args]
            d.begin("%s strided %s" % (name, describe([p.view for p in pl])))
            r = func(*[p.view for p in pl], **kw)
            check(mode, rows, list(r) if isinstance(r, tuple) else [r])
            d.expect(all(p.unchanged() for p in pl), "input-modified",
                     lambda: dict(call=name, mode=mode, args=describe([p.view for p in pl])))
        elif mode == "out":
            pl = [Placed(a, rng) for a in args]
            po = []
            for (core, dt) in outs:
                o = np.zeros((n,) + tuple(core), dtype=dt)
                if prefill is not None:
                    o[...] = prefill
                po.append(Placed(o, rng))
            d.begin("%s out= %s" % (name, describe([p.view for p in pl])))
            out = tuple(p.view for p in po)
            r = func(*[p.view for p in pl], out=out if len(out) > 1 else out[0], **kw)
            check(mode, rows, [p.view for p in po])
            rr = r if isinstance(r, tuple) else (r,)
            d.expect(all(a is b.view for a, b in zip(rr, po)), "out-not-returned",
                     lambda: dict(call=name))
            d.expect(all(p.guards_intact() for p in po), "write-outside-output",
                     lambda: dict(call=name, args=describe([p.view for p in pl]),
                                  out=[(p.view.shape, p.view.strides) for p in po]))
            d.expect(all(p.unchanged() for p in pl), "input-modified",
                     lambda: dict(call=name, mode=mode, args=describe([p.view for p in pl])))
        elif mode == "mixed":     # some arguments contiguous, some not
            pl = [Placed(a, rng) if rng.integers(2) else None for a in args]
            use = [p.view if p else np.ascontiguousarray(a).reshape(a.shape) for p, a in zip(pl, args)]
            k2 = {}
            po = []
            if outs and rng.integers(2):
                po = [np.zeros((n,) + tuple(core), dtype=dt) for core, dt in outs]
                if prefill is not None:
                    for o in po:
                        o[...] = prefill
                pp = [Placed(o, rng) if rng.integers(2) else None for o in po]
                po = [p.view if p else o for p, o in zip(pp, po)]
                k2 = dict(out=tuple(po) if len(po) > 1 else po[0])
            d.begin("%s mixed %s" % (name, describe(use)))
            r = func(*use, **k2, **kw)
            check(mode, rows, list(r) if isinstance(r, tuple) else [r])
            d.expect(all(p is None or p.unchanged() for p in pl), "input-modified",
                     lambda: dict(call=name, mode=mode, args=describe(use)))
        elif mode == "small":     # a few rows, each array contiguous or not
            for _ in range(8 if d.thorough else 5):
                k = int(rng.choice([2, 2, 3, 4, 5, 8]))
                if k > n:
                    continue
                pick = np.sort(rng.choice(n, k, replace=False))
                pl = [Placed(a[pick], rng) if rng.integers(2) else None for a in args]
                use = [p.view if p else np.ascontiguousarray(a[pick]) for p, a in zip(pl, args)]
                po = [np.zeros((k,) + tuple(core), dtype=dt) for core, dt in outs]
                if prefill is not None:
                    for o in po:
                        o[...] = prefill
                pp = [Placed(o, rng) if rng.integers(2) else None for o in po]
                po = [p.view if p else o for p, o in zip(pp, po)]
                k2 = dict(out=tuple(po) if len(po) > 1 else po[0]) if po else {}
                d.begin("%s few rows %s out strides %s" % (name, describe(use), [o.strides for o in po]))
                r = func(*use, **k2, **kw)
                check(mode, pick, list(r) if isinstance(r, tuple) else [r])
                d.expect(all(p is None or p.unchanged() for p in pl), "input-modified",
                         lambda: dict(call=name, mode=mode, args=describe(use)))
                d.expect(all(p is None or p.guards_intact() for p in pp), "write-outside-output",
                         lambda: dict(call=name, mode=mode, args=describe(use)))
        elif mode == "single":
            pick = rows if n <= singles else np.sort(rng.choice(rows, singles, replace=False))
            for k in pick:
                a1 = guarded([a[k] for a in args], rng)
                d.begin("%s single, against a guard page %s" % (name, describe(a1)))
                r = func(*a1, **kw)
                r = list(r) if isinstance(r, tuple) else [r]
                rr = []
                for v in r:
                    w = np.empty((1,) + np.shape(v), dtype=getattr(v, "dtype", object))
                    w[0] = v
                    rr.append(w)
                check(mode, np.array([k]), rr)


def same(got, exp):
    """Elementwise equality, NaN equal to NaN."""
    got, exp = np.asarray(got), np.asarray(exp)
    if got.dtype.kind == "O" or exp.dtype.kind == "O":
        f = [(a == b) or (a != a and b != b) for a, b in zip(got.reshape(-1), exp.reshape(-1))]
        return np.array(f, dtype=bool).reshape(got.shape)
    r = got == exp
    if got.dtype.kind in "fc" and exp.dtype.kind in "fc":
        r = r | (np.isnan(got) & np.isnan(exp))
    return r
