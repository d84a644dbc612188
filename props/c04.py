"""C04: minmax, argmin, argmax, argminmax, min_argmin, max_argmax, peaktopeak."""
import numpy as np

from vf import long
from vf.conc import ladder, realize, rank_of
from vf.layouts import run_modes, same

ASSUMPTIONS = [
    "Only the order of the elements matters, so ranks stand for values (realized by several "
    "strictly increasing value ladders per dtype, including the extremes of the dtype).",
    "Sequences that contain NaN are outside the property.",
]
CHARS = "bBhHiIlLqQfdgO"
FUNCS = ["argmin", "argmax", "minmax", "argminmax", "min_argmin", "max_argmax", "peaktopeak"]
PTP = dict(zip("bhilBHIL", "BHILBHIL"))


def models(tier, seed):
    r, n = (3, 6) if tier == "thorough" else (3, 5)
    return [dict(name="scan", module="ExtremaScan",
                 cfg="CONSTANTS Ranks = {%s} MaxLen = %d\nSPECIFICATION Spec\n"
                     "INVARIANTS RunningIsExtremum Consistent Emitted\n"
                     % (",".join(map(str, range(r + 1))), n))] + [long.laws(tier)]


def traces(tier):
    return [dict(stream="extrema", module="Extrema", failures="ExtremaFailures"), long.TRACE]


def drive(d):
    import ufunclab as ul
    long.c04(d, ul)
    by_len = {}
    for c in d.cases("scan"):
        by_len.setdefault(len(c["x"]), []).append(c)
    for char in CHARS:
        for variant in ((0, 1, 2, 3) if d.thorough or char in "fdO" else (0, 1 + int(d.rng.integers(3)))) + \
                ((4,) if char in "fdg" else ()):
            lad = ladder(char, 4, variant, d.rng)
            for n, cs in sorted(by_len.items()):
                if n == 5 and not d.thorough:
                    cs = [cs[k] for k in d.rng.permutation(len(cs))[:300]]
                replay(d, ul, char, lad, n, cs, strings=(char == "O" and variant == 3))
    record(d, ul)
    ties(d, ul)


def expected(fn, char, lad, cs):
    """Outputs expected for the cases of the model."""
    def vals(key):
        return [lad[c[key]] for c in cs]

    def idx(key):
        return np.array([c[key] for c in cs])

    def arr(v):
        if char == "O":
            a = np.empty(len(v), dtype=object)
            a[:] = v
            return a
        return np.array(v, dtype=char)

    if fn == "argmin":
        return [idx("amn")]
    if fn == "argmax":
        return [idx("amx")]
    if fn == "minmax":
        return [np.stack([arr(vals("mn")), arr(vals("mx"))], 1)]
    if fn == "argminmax":
        return [np.stack([idx("amn"), idx("amx")], 1)]
    if fn == "min_argmin":
        return [arr(vals("mn")), idx("amn")]
    if fn == "max_argmax":
        return [arr(vals("mx")), idx("amx")]
    hi, lo = vals("mx"), vals("mn")
    if char in PTP:
        return [np.array([int(a) - int(b) for a, b in zip(hi, lo)], dtype=PTP[char])]
    return [arr([a - b for a, b in zip(hi, lo)])]


def replay(d, ul, char, lad, n, cs, strings):
    x = realize([c["x"] for c in cs], lad, char)
    for fn in FUNCS:
        if fn == "peaktopeak" and (char in "qQ" or strings):
            continue
        f = getattr(ul, fn)
        exp = expected(fn, char, lad, cs)
        core = [(2,)] if fn in ("minmax", "argminmax") else [()] * len(exp)
        dts = [e.dtype if e.dtype.kind == "O" or fn in ("minmax", "peaktopeak") else e.dtype
               for e in exp]
        outs = list(zip(core, dts))

        def check(mode, rows, res):
            d.replayed += len(rows)
            ok = len(res) == len(exp)
            for g, e in zip(res, exp):
                e = e[rows]
                if not ok or g.shape != e.shape:
                    ok = False
                    break
                s = same(g, e)
                if not s.all():
                    bad = int(np.argwhere(~s.reshape(len(rows), -1).all(axis=1))[0][0])
                    d.violation(fn, dict(call=fn, dtype=char, layout=mode,
                                         x=repr(list(x[rows[bad]])), got=repr(g[bad]),
                                         expected=repr(e[bad])))
            d.expect(ok, fn + "-shape", lambda: dict(call=fn, dtype=char, mode=mode,
                                                     got=[g.shape for g in res]))
        run_modes(d, fn, f, [x], outs, check)
        d.cover("replay " + fn, len(cs))
    d.sample(dict(dtype=char, x=repr(list(x[-1])), case=cs[-1]))


def record(d, ul):
    """Longer sequences: the recorded results are judged by the trace specification."""
    lens = [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 31, 32, 33, 50, 63, 64, 65, 100, 127,
            128, 129, 200, 255, 256, 257]
    reps = 3 if d.thorough else 1
    long = [500, 513, 1000, 1025, 2049]
    for char in CHARS:
        for n in lens * reps + (long if d.thorough else [long[int(d.rng.integers(5))]]):
            nr = min(int(d.rng.choice([2, 3, 5, 20, 100])), max(n, 2))
            lad = ladder(char, nr, 1 if char == "O" else int(d.rng.integers(5)) if n % 2 else 1, d.rng)
            style = int(d.rng.integers(4))
            r = d.rng.integers(0, nr, size=n)
            if style == 1:
                r = np.sort(r)
            elif style == 2:
                r = np.sort(r)[::-1]
            elif style == 3:     # the extremum occurs once, anywhere
                r = np.clip(r, 1, max(1, nr - 2))
                r[int(d.rng.integers(n))] = 0
                r[int(d.rng.integers(n))] = nr - 1
            x = realize(r, lad, char)
            step = int(d.rng.choice([1, 1, -1, 2, -3]))
            big = np.repeat(x, abs(step)) if char != "O" else np.array(
                [v for v in x for _ in range(abs(step))] + [None], dtype=object)[:-1]
            xs = big[::abs(step)]
            if step < 0:
                big = big[::-1]
                xs = big[::step][:n]
                xs = np.flip(np.flip(x).copy())
            for fn in FUNCS:
                if fn == "peaktopeak" and char in "qQ":
                    continue
                with np.errstate(all="ignore"):
                    consecutive = char != "O" and all(
                        (int(b) - int(a) if char not in "fdg" else b - a) == 1 for a, b in zip(lad, lad[1:]))
                if fn == "peaktopeak" and not consecutive:
                    continue
                d.begin("%s n=%d dtype=%s step=%d x=%r" % (fn, n, char, step, x[:200]))
                res = getattr(ul, fn)(xs)
                if fn in ("argmin", "argmax"):
                    out = [int(res)]
                elif fn == "argminmax":
                    out = [int(v) for v in res]
                elif fn == "minmax":
                    out = [rank_of(v, lad) for v in res]
                elif fn == "peaktopeak":
                    out = [int(res)] if res == res and abs(float(res)) < 1e9 else [2000000003]
                else:
                    out = [rank_of(res[0], lad), int(res[1])]
                d.emit("extrema", dict(fn=fn, dtype=char, step=step, x=[int(v) for v in r],
                                       out=out))


class Twin:
    """Objects that are equal to others of their rank."""
    __hash__ = None

    def __init__(self, r):
        self.r = r

    def __lt__(self, o): return self.r < o.r
    def __gt__(self, o): return self.r > o.r
    def __le__(self, o): return self.r <= o.r
    def __ge__(self, o): return self.r >= o.r
    def __eq__(self, o): return self.r == o.r


def ties(d, ul):
    """Equal elements that can be told apart: zeros of both signs, objects."""
    for _ in range(600 if d.thorough else 120):
        n = int(d.rng.choice([2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 100]))
        top = int(d.rng.integers(2))        # the zeros are the least, or the greatest
        r = (d.rng.random(n) < 0.3).astype(int)
        for char in "fdgO":
            if char == "O":
                kind = int(d.rng.integers(3))
                mk = (Twin, lambda v: (float(v), bool(v), int(v))[int(d.rng.integers(3))], lambda v: int(v) + 10 ** 20)[kind]
                x = np.empty(n, dtype=object)
                x[:] = [mk(v if not top else v - 1) if kind != 1 else mk(v) for v in r]
                rank = [int(v) for v in r]
            else:
                x = np.where(r == 0, 0.0, -7.0 if top else 7.0).astype(char)
                x[(r == 0) & (d.rng.random(n) < 0.5)] = -0.0
                rank = [int(v) if not top else 1 - int(v) for v in r]
            step = int(d.rng.choice([1, 1, 2, -1]))
            xs = np.repeat(x, 2)[::2] if step == 2 else x[::-1].copy()[::-1] if step == -1 else x
            for fn in ("minmax", "min_argmin", "max_argmax"):
                d.begin("%s with ties dtype=%s x=%r" % (fn, char, x))
                res = getattr(ul, fn)(xs)
                got = list(res) if fn == "minmax" else [res[0]]
                which = [[i for i, v in enumerate(x) if (v is g if char == "O" else v == g and np.signbit(v) == np.signbit(g))]
                         for g in got]
                d.emit("extrema", dict(fn=fn, dtype=char, step=step, x=rank, which=which))
    d.cover("ties")
