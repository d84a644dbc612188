"""C02: the outcome of a call depends on its own arguments only, whatever other calls are made before, during or beside it."""
import os
import pickle
import sys
import threading

import numpy as np

from vf.catalog import Wrapped, catalog
from vf.cells import close, keys
from vf.layouts import same

ASSUMPTIONS = [
    "Outcomes are compared as bit patterns; floating-point rows of a batch are compared within rounding, since the position "
    "in a batch may select another order of evaluation.",
    "Calls that run at the same time interleave under control at comparisons of objects, and freely (a stress test) in loops "
    "that release the interpreter lock.",
]

FAULTS = "CONSTANTS Scratch = \"%s\" Threads = {%s} NCalls = %d Len0 = %d MaxDepth = %d\nSPECIFICATION Spec\n" \
         "INVARIANTS Isolated Proper Emitted\n"


def models(tier, seed):
    big = tier == "thorough"
    m = [("nest", "1", 4, 3 if big else 2, 3), ("two", "1,2", 3, 2, 2), ("long2", "1,2", 2, 4 if big else 3, 2),
         ("three", "1,2,3", 3, 1, 2)]
    if big:
        m.append(("two4", "1,2", 4, 1, 2))
    return [dict(name=n, module="IsolationLoop", cfg=FAULTS % (("local",) + tuple(r))) for n, *r in m] + [
        dict(name="fault-static", module="IsolationLoop", cfg=FAULTS % ("static", "1", 2, 2, 2), refutes=True),
        dict(name="fault-lent", module="IsolationLoop", cfg=FAULTS % ("lent", "1", 2, 2, 1), refutes=True),
        dict(name="fault-reused", module="IsolationLoop", cfg=FAULTS % ("reused", "1", 2, 2, 1), refutes=True)]


def traces(tier):
    return [dict(stream="isolation", module="Isolation", failures="IsolationFailures")]


# -- calls --------------------------------------------------------------------
HOOK = threading.local()


class Probe:
    """A number whose operations give way to other calls."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def _op(self, o, r):
        h = getattr(HOOK, "f", None)
        if h is not None:
            h()
        if self.v is None or o.v is None:
            raise KeyError("bomb")
        return r(self.v, o.v)

    def __lt__(self, o): return self._op(o, lambda a, b: a < b)
    def __le__(self, o): return self._op(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._op(o, lambda a, b: a > b)
    def __ge__(self, o): return self._op(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._op(o, lambda a, b: a == b)
    def __ne__(self, o): return self._op(o, lambda a, b: a != b)
    def __sub__(self, o): return self._op(o, lambda a, b: Probe(a - b))
    def __mul__(self, o): return self._op(o, lambda a, b: Probe(a * b))
    def __hash__(self): return 0
    def __repr__(self): return "Probe(%r)" % self.v


class Call:
    """wrapped_out: with an out= of the wrapper; given "own", the wrapper makes the result."""

    def __init__(self, f, loop, args, outshapes, wrapped_out):
        self.f, self.loop, self.args, self.outshapes, self.wrapped_out = f, loop, args, outshapes, wrapped_out
        self.label = "%r %s %s" % (f, loop[0], ["own"] + [s[-1] for s, _ in outshapes] if wrapped_out == "own" else "")

    def raw(self):
        if self.wrapped_out == "own":
            r = self.f.call(list(self.args), None, n=self.outshapes[0][0][-1])
            return r if isinstance(r, tuple) else (r,)
        out = None
        if self.wrapped_out:
            out = tuple(np.zeros(s, dtype=ch) for s, ch in self.outshapes)
        r = self.f.call(list(self.args), out)
        return r if isinstance(r, tuple) else (r,)

    def kept(self):
        """The results of a call, or its error."""
        try:
            return self.raw()
        except Exception as e:
            return [("error", type(e).__name__)]

    def outcome(self):
        return self.read(self.kept())

    @staticmethod
    def read(r):
        if isinstance(r, list):
            return r
        o = []
        for v in r:
            if not isinstance(v, np.ndarray):
                w = np.empty((), dtype=object) if isinstance(v, (Probe, bool)) or v is None else None
                if w is not None:
                    w[()] = v
                    v = w
            a = np.asarray(v)
            o += [("shape", a.dtype.str) + a.shape] + ([("Probe", repr(q)) for q in a.reshape(-1)] if a.dtype.kind == "O" else keys(a))
        return o

    def key(self):
        k = []
        for a in self.args:
            a = np.asarray(a)
            k += [("shape",) + a.shape] + ([("Probe", repr(q)) for q in a.reshape(-1)] if a.dtype.kind == "O" else keys(a))
        return k

    def __repr__(self):
        return "%s %s->%s %r" % (self.f, self.loop[0], self.loop[1], list(self.args))


def make_call(f, loop, rng, sz=None, rows=(), bombs=True, own=False, edge=None):
    sz = sz or f.sizes(rng)
    args = []
    bomb = bombs and rng.integers(8) == 0
    for j, (ch, c) in enumerate(zip(loop[0], f.cin)):
        a = f.data(j, ch, tuple(rows) + f.core(c, sz), rng, sz)
        if ch == "O":
            small = np.empty(a.shape, dtype=object)
            for k, q in np.ndenumerate(a):
                small[k] = Probe(int(q) % 7)
            if f.kinds[j] == "sorted" and a.ndim:
                small = np.sort(small, axis=-1)
            if bomb and small.size:
                small.reshape(-1)[int(rng.integers(small.size))] = Probe(None)
            a = small
        if edge is not None and ch in "fdgFDG" and c and f.kinds[j] == "x" and a.size:
            a[..., 0 if edge != 0 or rng.integers(2) else slice(None)] = edge
        args.append(a)
    return Call(f, loop, args, [(tuple(rows) + f.core(c, sz), ch) for c, ch in zip(f.cout, loop[1])],
                "own" if f.outdims and own else bool(f.outdims))


def make_twin(call, rng):
    """A call that differs in one element."""
    js = [j for j, (k, a) in enumerate(zip(call.f.kinds, call.args)) if k not in ("sorted", "sos") and a.size > 1]
    if not js:
        return None
    args = [a.copy() for a in call.args]
    a = args[js[int(rng.integers(len(js)))]].reshape(-1)
    i, j = rng.choice(a.size, 2, replace=False)
    a[i] = a[j] if rng.integers(2) else a[i] if a.dtype.kind == "O" else a[i] + a.dtype.type(1)
    return Call(call.f, call.loop, args, call.outshapes, call.wrapped_out)


def first_outcome(call):
    """The outcome of the call as the first call of a process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as p:
                pickle.dump(call.outcome(), p)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as p:
        data = p.read()
    _, st = os.waitpid(pid, 0)
    if st != 0:
        return [("crash", st)]
    return pickle.loads(data)


class Ids:
    def __init__(self):
        self.d = {}

    def one(self, k):
        return self.d.setdefault(k, len(self.d) + 1)

    def __call__(self, ks):
        return [self.one(k) for k in ks]


# -- schedules ------------------------------------------------------------------
class Schedule:
    """Runs calls so that they begin, pause and end in the order of a history."""

    def __init__(self, h, calls, d):
        self.h, self.calls, self.d = h, calls, d
        self.i = 0
        self.cond = threading.Condition()
        self.done, self.result, self.stuck = [], {}, False

    def turn(self, t):
        with self.cond:
            while self.i < len(self.h) and self.h[self.i]["t"] != t and not self.stuck:
                if not self.cond.wait(60):
                    self.stuck = True
            return None if self.i >= len(self.h) or self.stuck else self.h[self.i]

    def advance(self):
        with self.cond:
            self.done.append(self.h[self.i])
            self.i += 1
            self.cond.notify_all()

    def call(self, t, c):
        self.advance()
        old = getattr(HOOK, "f", None)
        HOOK.f = lambda: self.step(t)
        self.result[c] = self.calls[c].outcome()
        HOOK.f = old
        while True:
            e = self.turn(t)
            if e is None:
                return
            if e["a"] == "begin":
                self.call(t, e["c"])
                continue
            self.advance()
            if e["a"] == "end":
                return

    def step(self, t):
        while True:
            e = self.turn(t)
            if e is None or e["a"] == "end":
                return
            if e["a"] == "step":
                self.advance()
                return
            self.call(t, e["c"])

    def thread(self, t):
        while True:
            e = self.turn(t)
            if e is None:
                return
            self.call(t, e["c"])

    def run(self):
        ts = sorted({e["t"] for e in self.h})
        if len(ts) == 1:
            self.thread(ts[0])
        else:
            th = [threading.Thread(target=self.thread, args=(t,), daemon=True) for t in ts]
            for q in th:
                q.start()
            for q in th:
                q.join(120)
        return not self.stuck and self.i == len(self.h)


def drive(d):
    fns = catalog()
    rng = d.rng
    # a pool of calls, with their outcomes in processes of their own: made before anything else is called
    pool, by_fn = [], {}
    per = 7 if d.thorough else 3
    for f in fns:
        loops = f.loops if len(f.loops) <= 20 else [f.loops[k] for k in rng.permutation(len(f.loops))[:12]]
        for loop in loops:
            sizes = None
            for k in range(per + (2 if "O" in loop[0] else 0)):     # some of the same sizes
                sizes = f.sizes(rng, 24) if k == 1 else f.sizes(rng) if sizes is None or k == 4 else sizes
                pool.append(make_call(f, loop, rng, dict(sizes), own=k > 0))
                by_fn.setdefault(f.name, []).append(len(pool) - 1)
            twin = make_twin(pool[by_fn[f.name][-1 if per < 5 else -2]], rng)
            if twin is not None:
                pool.append(twin)
                by_fn[f.name].append(len(pool) - 1)
            # long data that begin or end with what takes a path of its own
            if any(ch in "fdgFDG" for ch in loop[0]) and f.dims:
                for v in (np.nan, np.inf, 0.0) if d.thorough or len(loops) < 8 else ((np.nan, np.inf, 0.0)[int(rng.integers(3))],):
                    pool.append(make_call(f, loop, rng, {q: int(rng.integers(9, 25)) for q in f.dims}, edge=v))
                    by_fn[f.name].append(len(pool) - 1)
    first = []
    for c in pool:
        d.begin("first call of a process: %r" % c)
        first.append(first_outcome(c))
    for c, o in zip(pool, first):
        d.expect(o[0][0] != "crash", "crash", lambda: dict(call=repr(c), status=o[0]))
    d.cover("calls with reference outcomes", len(pool))
    objs = [k for k, c in enumerate(pool) if "O" in c.loop[0]]
    schedules(d, pool, first, by_fn, objs)
    walks(d, pool, first, by_fn)
    refills(d, pool, first)
    makers(d, pool, first, by_fn)
    batches(d, fns)
    parallel(d, fns)


def emit(d, h, used, results, pool, first, ctxs):
    ids = Ids()
    calls = [dict(fn=pool[u].label, args=ids(pool[u].key()), out=ids(r), ctx=x)
             for u, r, x in zip(used, results, ctxs)]
    refs = [dict(fn=pool[u].label, args=ids(pool[u].key()), out=ids(first[u])) for u in sorted(set(used))]
    bad = [dict(call=repr(pool[u]), got=repr(r), first=repr(first[u])) for u, r in zip(used, results) if r != first[u]]
    d.emit("isolation", dict(k="history", h=h, calls=calls, refs=refs, bad=[str(b)[:1500] for b in bad[:2]]))


def schedules(d, pool, first, by_fn, objs):
    rng = d.rng
    for name in ("nest", "two", "long2", "three") + (("two4",) if d.thorough else ()):
        cs = list(d.cases(name))
        cap = 4000 if d.thorough else 500
        for k in rng.permutation(len(cs))[:cap]:
            h = cs[k]["h"]
            n = max(e["c"] for e in h)
            used = {}
            # a call that gives way to others has to compare objects; the others are of any type, often the same function
            a = int(objs[int(rng.integers(len(objs)))])
            for c in range(1, n + 1):
                q = int(rng.integers(4))
                if q == 0:
                    used[c] = int(rng.integers(len(pool)))
                elif q == 1:
                    used[c] = int(objs[int(rng.integers(len(objs)))])
                else:
                    same = [u for u in by_fn[pool[a].f.name] if "O" in pool[u].loop[0]] if rng.integers(2) else by_fn[pool[a].f.name]
                    used[c] = int(same[int(rng.integers(len(same)))])
            s = Schedule(h, {c: pool[u] for c, u in used.items()}, d)
            d.begin("history %r of %r" % ([(e["t"], e["a"], e["c"]) for e in h], {c: pool[u] for c, u in used.items()}))
            ok = s.run()
            if not d.expect(ok, "history-not-completed", lambda: dict(h=h, calls=[repr(pool[u]) for u in used.values()])):
                return
            d.replayed += 1
            ctx = "nested-call" if name == "nest" else "concurrent-call"
            order = sorted(used)
            emit(d, s.done, [used[c] for c in order], [s.result[c] for c in order], pool, first, [ctx] * len(order))
        d.cover("schedules " + name, min(len(cs), cap))


def walks(d, pool, first, by_fn):
    """Long histories of calls made one after the other."""
    rng = d.rng
    names = sorted(by_fn)
    for t in range(600 if d.thorough else 120):
        n = 30
        focus = names[t % len(names)]
        used = []
        for _ in range(n):
            q = int(rng.integers(3))
            if q == 0:
                used.append(int(rng.integers(len(pool))))
            else:
                c = by_fn[focus]
                used.append(int(c[int(rng.integers(len(c)))]))
        res, h, kept = [], [], []
        for k, u in enumerate(used):
            c = Call(pool[u].f, pool[u].loop, [np.array(a) for a in pool[u].args], pool[u].outshapes, pool[u].wrapped_out)
            d.begin("after %d calls: %r" % (k, c))
            kept.append((c, c.kept()))
            res.append(c.read(kept[-1][1]))
            h += [dict(t=1, a="begin", c=k + 1), dict(t=1, a="end", c=k + 1)]
        emit(d, h, used, res, pool, first, ["earlier-calls"] * n)
        # the results are read again, when all the calls have been made
        d.begin("results read later")
        emit(d, h, used, [c.read(r) for c, r in kept], pool, first, ["later-calls"] * n)
        # and when the arguments have been written to
        for c, _ in kept:
            for a in c.args:
                a[...] = None if a.dtype.kind == "O" else np.zeros(1, a.dtype)[0] if rng.integers(2) else a.reshape(-1)[::-1].reshape(a.shape)
        emit(d, h, used, [c.read(r) for c, r in kept], pool, first, ["later-writes"] * n)
    d.cover("walks", t + 1)


def refills(d, pool, first):
    """Calls on the same arrays, whose contents change between the calls."""
    rng = d.rng
    like = {}
    for k, c in enumerate(pool):
        like.setdefault((c.f.name, c.loop, tuple(a.shape for a in c.args), str(c.outshapes), c.wrapped_out), []).append(k)
    for g in like.values():
        if len(g) < 2:
            continue
        c = pool[g[0]]
        bufs = [a.copy() for a in c.args]
        used, res, h = [], [], []
        for k in range(12 if d.thorough else 6):
            used.append(g[k % len(g)] if k < len(g) else int(g[int(rng.integers(len(g)))]))
            for b, a in zip(bufs, pool[used[-1]].args):
                b[...] = a
            d.begin("on arrays used before: %r" % pool[used[-1]])
            res.append(Call(c.f, c.loop, bufs, c.outshapes, c.wrapped_out).outcome())
            h += [dict(t=1, a="begin", c=k + 1), dict(t=1, a="end", c=k + 1)]
        emit(d, h, used, res, pool, first, ["earlier-contents"] * len(used))
        d.cover("refills")


def makers(d, pool, first, by_fn):
    """Functions made by gendot keep their meaning while others are made."""
    import ufunclab as ul
    rng = d.rng
    made = [n for n in by_fn if n.startswith("gendot")]
    keep = []
    funcs = [np.add, np.subtract, np.multiply, np.minimum, np.maximum, np.logical_and, np.logical_or, np.equal, np.less, np.hypot]
    sums = [np.add, np.minimum, np.maximum, np.logical_or, np.logical_and, np.multiply, ul.kbnsum, ul.rms, ul.gmean]
    for t in range(100 if d.thorough else 30):
        used, res, h = [], [], []
        for k in range(8):
            p, s = funcs[int(rng.integers(len(funcs)))], sums[int(rng.integers(len(sums)))]
            try:
                g = ul.gendot(p, s, name="g%d" % len(keep), doc="x" * 50)
                keep.append(g if rng.integers(2) else None)
                g(np.ones(3), np.ones(3))
            except (ValueError, TypeError):
                pass
            c = by_fn[made[int(rng.integers(len(made)))]]
            used.append(int(c[int(rng.integers(len(c)))]))
            d.begin("after making gendots: %r" % pool[used[-1]])
            res.append(pool[used[-1]].outcome())
            h += [dict(t=1, a="begin", c=k + 1), dict(t=1, a="end", c=k + 1)]
        emit(d, h, used, res, pool, first, ["functions-made-meanwhile"] * 8)


def batches(d, fns):
    """Each row of a batch gives what it gives alone."""
    rng = d.rng
    for f in fns:
        for loop in f.loops:
            if f.group == "bincountw" and rng.integers(4) and not d.thorough:
                continue
            for t in range(6 if d.thorough else 2):
                sz = f.sizes(rng, 24 if rng.integers(4) == 0 else 4)
                n = int(rng.choice([2, 3, 5, 9]))
                if "O" not in loop[0] and t == 0 and rng.integers(4) == 0:
                    n = int(rng.choice([33, 65]))
                c = make_call(f, loop, rng, sz, (n,), bombs=False)
                if n > 3:                           # some rows alike
                    for a in c.args:
                        a[n - 1] = a[0]
                d.begin("batch %r" % c)
                try:
                    r = c.raw()
                except ValueError:
                    continue
                ids = Ids()
                rows = []
                bad = None
                for k in range(n):
                    one = Call(f, loop, [a[k] for a in c.args], [(s[1:], ch) for s, ch in c.outshapes], c.wrapped_out)
                    d.begin("row by itself %r" % one)
                    e = one.raw()
                    got, alone = [], []
                    for p, q in zip(r, e):
                        g, al = row_keys(p[k], q, c)
                        got += g
                        alone += al
                    if got != alone and bad is None:
                        bad = "row %d of %d: %r: got %r, alone %r" % (k, n, one, [p[k] for p in r], e)
                    rows.append(dict(out=ids(got), alone=ids(alone)))
                d.emit("isolation", dict(k="batch", fn=f.name, loop="%s->%s" % loop, rows=rows, bad=str(bad)[:1500]))
        d.cover("batches")


def row_keys(p, q, c):
    p, q = np.asarray(p), np.asarray(q)
    if p.dtype.kind == "O" or q.dtype.kind == "O":
        f = lambda a: [repr(v) for v in a.reshape(-1)]          # noqa: E731
        return f(p), f(q)
    if p.dtype.kind in "fc":
        p = p.copy()
        for i in np.ndindex(p.shape):
            if p[i] != q[i] and close(p[i], q[i], 8.0, p.dtype.char):
                p[i] = q[i]
    return keys(p), keys(q)


def parallel(d, fns):
    """The same and different functions in several threads at once, in loops that release the lock."""
    rng = d.rng
    numeric = [(f, loop) for f in fns if not isinstance(f, Wrapped) for loop in f.loops if "O" not in loop[0]]
    per = {}
    for f, loop in numeric:
        per.setdefault(f.name, []).append((f, loop))
    names = sorted(per)
    nthreads = 4
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-4)
    for name in names:
        for t in range(6 if d.thorough else 2):
            jobs = []
            f, loop = per[name][int(rng.integers(len(per[name])))]
            for k in range(nthreads):
                g, lp = (f, loop) if k < 3 else numeric[int(rng.integers(len(numeric)))]
                sz = g.sizes(rng, 30 if rng.integers(2) else 6)
                for q in sz:
                    sz[q] = max(sz[q], g.minlen)
                small = make_call(g, lp, rng, sz, (200 + 37 * k,), bombs=False)
                n = len(small.args[0]) if small.args else 1
                m = 1 + 80000 // max(1, sum(np.size(a) for a in small.args))
                m = max(m, 4)
                args = [np.concatenate([a] * m) for a in small.args]
                jobs.append(Call(g, lp, args, [((n * m,) + s[1:], ch) for s, ch in small.outshapes], small.wrapped_out))
            refs = []
            for c in jobs:
                d.begin("alone: %r" % c.f)
                refs.append(parts(c))
            got = [[] for _ in jobs]
            start = threading.Barrier(nthreads)

            def work(k):
                np.seterr(all="ignore")
                start.wait()
                for _ in range(8 if not d.thorough else 30):
                    got[k].append(parts(jobs[k]))
            d.begin("in %d threads: %s" % (nthreads, [repr(c.f) + c.loop[0] for c in jobs]))
            th = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(nthreads)]
            for q in th:
                q.start()
            for q in th:
                q.join(300)
            calls, h, n, odd = [], [], 0, 0
            for k, c in enumerate(jobs):
                for r in got[k]:
                    n += 1
                    ok = len(r) == len(refs[k]) and all(p.shape == q.shape and bool(np.all(same(p, q))) for p, q in zip(r, refs[k]))
                    odd += not ok
                    calls.append(dict(fn="job%d" % k, args=[k], out=[k if ok else 100 + odd], ctx="parallel-call"))
                    h += [dict(t=k + 1, a="begin", c=n), dict(t=k + 1, a="end", c=n)]
            d.emit("isolation", dict(k="history", h=h, calls=calls, bad=[repr(c.f) + " " + c.loop[0] for c in jobs],
                                     refs=[dict(fn="job%d" % k, args=[k], out=[k]) for k in range(nthreads)]))
    sys.setswitchinterval(old)
    d.cover("functions in parallel", len(names))


def parts(c):
    try:
        return [np.asarray(v) for v in c.raw()]
    except Exception as e:
        return [np.array([type(e).__name__])]
