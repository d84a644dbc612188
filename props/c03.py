"""C03: first and argfirst."""
import numpy as np

from vf import long, relobj
from vf.conc import ladder, realize, rank_of
from vf.layouts import run_modes, same

ASSUMPTIONS = [
    "Only order and equality of elements matter; ranks stand for values, realized by several "
    "ladders per dtype. NaN is a separate abstract value, used with the float dtypes only.",
    "Operators outside LT..GE are outside the property.",
]
CHARS = "bBhHiIlLfdgO"
NAN = 2000000001


def models(tier, seed):
    n = 4 if tier == "thorough" else 3
    inv = "SPECIFICATION Spec\nINVARIANTS NoneBefore Right Complement Emitted\n"
    return [dict(name="scan", module="FirstScan",
                 cfg="CONSTANTS Ranks = {0,1,2} MaxLen = %d\n" % n + inv),
            dict(name="scan4", module="FirstScan",
                 cfg="CONSTANTS Ranks = {0,1} MaxLen = %d\n" % (n + 2) + inv)] + [long.laws(tier)]


def traces(tier):
    return [dict(stream="first", module="First", failures="FirstFailures"), long.TRACE]


class Logged:
    """An element that counts the comparisons made with it."""
    log = []

    def __init__(self, r, pos=None):
        self.r, self.pos = r, pos

    def _c(self, name, o, v):
        if self.pos is not None:
            Logged.log.append(self.pos)
        elif getattr(o, "pos", None) is not None:
            Logged.log.append(o.pos)
        return v

    def __lt__(self, o): return self._c("LT", o, self.r < o.r)
    def __le__(self, o): return self._c("LE", o, self.r <= o.r)
    def __gt__(self, o): return self._c("GT", o, self.r > o.r)
    def __ge__(self, o): return self._c("GE", o, self.r >= o.r)
    def __eq__(self, o): return self._c("EQ", o, self.r == o.r)
    def __ne__(self, o): return self._c("NE", o, self.r != o.r)
    __hash__ = None


def drive(d):
    import ufunclab as ul
    long.c03(d, ul)
    ops = {n: getattr(ul.op, n) for n in ("LT", "LE", "EQ", "NE", "GT", "GE")}
    d.expect(len({int(v) for v in ops.values()}) == 6, "op-values", lambda: repr(ops))
    groups = {}
    for src in ("scan", "scan4"):
        for c in d.cases(src):
            groups.setdefault(len(c["x"]), []).append(c)
    for char in CHARS:
        isf = char in "fdg"
        for variant in ((0, 1, 2, 3) if d.thorough else (0, int(d.rng.integers(1, 4)))) + ((4,) if isf else ()):
            lad = ladder(char, 4, variant, d.rng)
            for n, cs in sorted(groups.items()):
                cs = [c for c in cs if isf or (c["t"] != NAN and NAN not in c["x"])]
                if len(cs) > (20000 if d.thorough else 1500):
                    cs = [cs[k] for k in d.rng.permutation(len(cs))[:20000 if d.thorough else 1500]]
                replay(d, ul, ops, char, lad, n, cs)
    replay_logged(d, ul, ops, groups)
    record(d, ul, ops)
    related(d, ul, ops)


def replay(d, ul, ops, char, lad, n, cs):
    nan = NAN if char in "fdg" else None
    sh = int(d.rng.integers(2))      # which end of the ladder is left for `otherwise`
    x = np.array([c["x"] for c in cs], dtype=np.int64).reshape(len(cs), n)
    t = np.array([c["t"] for c in cs], dtype=np.int64)
    xr = np.where(x == NAN, NAN, x + sh)
    tr = np.where(t == NAN, NAN, t + sh)
    o = np.where(d.rng.integers(0, 3, size=len(cs)) > 0, 3 * (1 - sh), d.rng.integers(0, 4, size=len(cs)))
    X, T, O = realize(xr, lad, char, nan), realize(tr, lad, char, nan), realize(o, lad, char)
    op = np.array([ops[c["op"]] for c in cs], dtype=np.int8)
    arg = np.array([c["res"] for c in cs])
    er = np.array([xr[k][a] if a >= 0 else o[k] for k, a in enumerate(arg)])
    E = realize(er, lad, char, nan)
    for fn, args, exp, dt in (("argfirst", [X, op, T], arg, np.intp),
                              ("first", [X, op, T, O], E, E.dtype)):
        def check(mode, rows, res):
            d.replayed += len(rows)
            g = res[0]
            if g.shape != exp[rows].shape:
                d.violation(fn + "-shape", dict(call=fn, got=g.shape))
                return
            s = same(g, exp[rows])
            for b in np.argwhere(~s)[:1]:
                k = rows[b[0]]
                d.violation(fn, dict(call=fn, dtype=char, layout=mode, op=cs[k]["op"],
                                     x=repr(list(X[k])), t=repr(T[k]), otherwise=repr(O[k]),
                                     got=repr(g[b[0]]), expected=repr(exp[k])))
        run_modes(d, fn, getattr(ul, fn), args, [((), dt)], check)
    d.cover("replay n=%d" % n, len(cs))
    d.sample(dict(dtype=char, case=cs[-1], x=repr(list(X[-1])), t=repr(T[-1])))


def replay_logged(d, ul, ops, groups):
    """Objects: the comparisons made are exactly those with the elements up to the match."""
    for n, cs in groups.items():
        cs = [c for c in cs if c["t"] != NAN and NAN not in c["x"]]
        for k in d.rng.permutation(len(cs))[:150]:
            c = cs[k]
            x = np.empty(n, dtype=object)
            for i, r in enumerate(c["x"]):
                x[i] = Logged(r, i)
            t, o = Logged(c["t"]), Logged(9)
            for fn in ("argfirst", "first"):
                Logged.log = []
                d.begin("%s object %r" % (fn, c))
                if fn == "argfirst":
                    got = int(ul.argfirst(x, ops[c["op"]], t))
                    good = got == c["res"]
                else:
                    got = ul.first(x, ops[c["op"]], t, o)
                    good = got is (x[c["res"]] if c["res"] >= 0 else o)
                d.replayed += 1
                d.expect(good, fn + "-object", lambda: dict(call=fn, case=c, got=repr(got)))
                want = list(range(c["compared"]))
                d.expect(Logged.log == want, fn + "-comparisons",
                         lambda: dict(call=fn, case=c, compared=list(Logged.log), expected=want))


def record(d, ul, ops):
    lens = [0, 1, 2, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]
    names = sorted(ops)
    for char in CHARS:
        isf = char in "fdg"
        for n in lens * (4 if d.thorough else 2) + [int(d.rng.integers(300, 3000))]:
            nr = int(d.rng.choice([3, 6, 20]))
            lad = ladder(char, nr, int(d.rng.integers(5)), d.rng)
            t = int(d.rng.integers(0, nr))
            op = names[int(d.rng.integers(6))]
            # mostly mismatches, so that the first match is anywhere
            pool = [r for r in range(nr) if not dict(LT=r < t, LE=r <= t, EQ=r == t, NE=r != t,
                                                      GT=r > t, GE=r >= t)[op]]
            r = d.rng.choice(pool, size=n) if pool and d.rng.integers(4) else d.rng.integers(0, nr, size=n)
            r = r.astype(np.int64)
            if n and d.rng.integers(4):
                r[int(d.rng.integers(n)):] = d.rng.integers(0, nr)
            if isf and n and d.rng.integers(2):
                r[d.rng.integers(0, n, size=1 + n // 8)] = NAN
            o = int(d.rng.integers(0, nr))
            X = realize(r, lad, char, NAN if isf else None)
            if d.rng.integers(2):
                big = np.empty((n, 3), dtype=X.dtype)
                big[...] = np.asarray(lad[o] if char != "O" else 0, dtype=X.dtype)
                big[:, 1] = X
                X = big[:, 1]
            for fn in ("argfirst", "first"):
                d.begin("%s dtype=%s n=%d op=%s t=%r x=%r" % (fn, char, n, op, lad[t], X[:100]))
                if fn == "argfirst":
                    out = int(ul.argfirst(X, ops[op], lad[t]))
                else:
                    v = ul.first(X, ops[op], lad[t], lad[o])
                    out = NAN if isf and v != v else rank_of(v, lad)
                d.emit("first", dict(fn=fn, dtype=char, op=op, t=t, o=o, x=[int(v) for v in r],
                                     out=out, compared=0))


def related(d, ul, ops):
    """Objects related in any way: the first that is related to the target, in that order."""
    for _ in range(1500 if d.thorough else 200):
        k = int(d.rng.integers(2, 6))
        rel, objs = relobj.items(k, d.rng, float(d.rng.choice([0.1, 0.3, 0.5])))
        n = int(d.rng.integers(0, 7))
        for op in ops:
            xs = [int(v) for v in d.rng.integers(0, k, n)]
            t, o = (int(v) for v in d.rng.integers(0, k, 2))
            x = relobj.array([objs[v] for v in xs])
            d.begin("first of related objects op=%s x=%r t=%d rel=%r" % (op, xs, t, rel[op]))
            d.emit("first", dict(fn="argfirst", op=op, rel=rel[op], x=xs, t=t, o=o,
                                 out=int(ul.argfirst(x, ops[op], objs[t]))))
            r = ul.first(x, ops[op], objs[t], objs[o])
            d.emit("first", dict(fn="first", op=op, rel=rel[op], x=xs, t=t, o=o, out=getattr(r, "k", -9)))
    d.cover("objects related in any way")
