"""Makes calls with vf/alloc.cpp loaded, and says what they left behind.  stdin: one JSON job per line; stdout: one JSON answer per line."""
import array
import contextlib
import ctypes
import gc
import io
import json
import os
import sys

import numpy as np

L = ctypes.CDLL(None)
for _n in ("vf_blocks", "vf_left", "vf_requests"):
    getattr(L, _n).restype = ctypes.c_long
L.vf_arm.argtypes = [ctypes.c_long]
DTYPES = [np.dtype(c) for c in "?bBhHiIlLqQefdgFDGO"]


class Sequence:
    """Numbers in memory that does not grow."""

    def __init__(self):
        self.a, self.n = array.array("q", [0] * 64), 0

    def add(self, f):
        self.a[self.n] = f()
        self.n += 1

    def list(self):
        return [int(v) for v in self.a[:self.n]]


def refs(things):
    t = 0
    for x in things:
        t += sys.getrefcount(x)
    return t


def things_of(args):
    out = list(DTYPES)
    for a in args:
        if isinstance(a, np.ndarray):
            out.append(a)
            if a.dtype.kind == "O":
                seen = set()
                for v in a.reshape(-1):
                    if id(v) not in seen:
                        seen.add(id(v))
                        out.append(v)
    return out


def attempt(f):
    try:
        f()
        return ""
    except Exception as e:
        return type(e).__name__


def steady(f, things, reps=1, warm=3, times=6):
    """f, done again and again, when nothing is refused."""
    for _ in range(warm * reps):
        attempt(f)
    b, r, o = Sequence(), Sequence(), Sequence()
    most = 0
    for _ in range(times):
        L.vf_arm(0)
        for _ in range(reps):
            attempt(f)
        L.vf_disarm()
        gc.collect()          # also empties the lists of free objects
        most = max(most, int(L.vf_requests()))
        b.add(L.vf_blocks)
        r.add(lambda: refs(things))
        o.add(L.vf_left)
    return dict(k="steady", blocks=b.list(), refs=r.list(), own=o.list(), reps=reps), most


def suspect(ev):
    up = lambda s, n: all(y >= x + n for x, y in zip(s, s[1:]))          # noqa: E731
    return up(ev["blocks"], 1) or up(ev["refs"], 1) or up(ev["refs"][::-1], 1)


def outcome(f):
    try:
        return "", f(True)
    except Exception as e:
        return type(e).__name__, None


def faulted(f, things, fail, base, kept, reps=1, warm=2, times=4):
    """f(True) gives what can be compared; its fail-th request is refused each time."""
    b, r, o = Sequence(), Sequence(), Sequence()
    err, hit, same = [None] * times, [None] * times, [None] * times
    one = lambda: f(False)          # noqa: E731
    for k in range(-warm, times):
        for _ in range(reps):
            L.vf_arm(fail)
            attempt(one)
            L.vf_disarm()
        gc.collect()          # also empties the lists of free objects
        if k >= 0:
            hit[k] = bool(L.vf_requests() >= fail)
            b.add(L.vf_blocks)
            r.add(lambda: refs(things))
            o.add(L.vf_left)
    for k in range(times):
        L.vf_arm(fail)
        err[k], v = outcome(f)
        L.vf_disarm()
        same[k] = v == kept
    e, v = outcome(f)
    return dict(k="fault", fail=fail, blocks=b.list(), refs=r.list(), own=o.list(), reps=reps, err=err, hit=hit, same=same, base=base,
                after=e == base and v == kept)


class Jobs:
    def __init__(self):
        import ufunclab as ul
        from vf.catalog import catalog
        import props.c02 as c02
        self.ul, self.c02 = ul, c02
        self.fns = {repr(f): f for f in catalog()}

    def call(self, job):
        """f(compare) and the things whose references are counted."""
        rng = np.random.default_rng(job["seed"])
        f = self.fns[job["fn"]]
        loop = tuple(job["loop"])
        sz = f.sizes(rng, job.get("top", 4))
        if job.get("least"):
            sz = {q: max(n, job["least"]) for q, n in sz.items()}
        if job.get("zero"):
            sz[job["zero"]] = 0
        c = self.c02.make_call(f, loop, rng, sz, tuple(job["rows"]), bombs=False, own=bool(job.get("own")))
        how = job["how"]
        args, kw = c.args, {}
        if how == "others":                     # each time with other data, of other sizes
            def anew(compare):
                sz = f.sizes(rng, 9)
                o = self.c02.make_call(f, loop, rng, {q: max(n, 2) for q, n in sz.items()}, tuple(job["rows"]), bombs=False, own=bool(job.get("own")))
                o.raw()
            return anew, list(DTYPES) + [f.f]
        if how == "bomb":
            done = False
            for a in args:
                if a.dtype.kind == "O" and a.size and not done:
                    a.reshape(-1)[int(rng.integers(a.size))] = self.c02.Probe(None)
                    done = True
        elif how == "type":
            args[int(rng.integers(len(args)))] = [np.array(["a", "bc"]), np.array([{}], dtype=object), "x"][int(rng.integers(3))]
        elif how == "shape":
            k = int(rng.integers(len(args)))
            core = len(f.cin[k])
            a = args[k]
            args[k] = a[(0,) * a.ndim] if core and a.size and rng.integers(2) else np.zeros((7, 3) + (11,) * max(core, 1), dtype=a.dtype)
        elif how == "few":
            args.pop()
        elif how == "value":
            for k, kd in enumerate(f.kinds):
                if kd in ("op", "kind", "bool", "ddof", "index", "small", "count", "base", "power", "order"):
                    a = args[k]
                    if a.dtype.kind in "iufc" and a.size:
                        a.reshape(-1)[int(rng.integers(a.size))] = 99 if rng.integers(2) or a.dtype.kind == "u" else -99
        elif how == "keyword":
            kw = [dict(dtype="V3"), dict(casting="no"), dict(signature="dd->?"), dict(axes=[1, 2]), dict(nosuch=1), dict(where=3),
                  dict(axis=77), dict(order="Z"), dict(keepdims=2), dict(out=3), dict(out=(None,) * 9)][int(rng.integers(11))]
        elif how == "order":
            args = [a.astype(a.dtype.newbyteorder()) if a.dtype.kind in "iufc" else a for a in args]
        elif how == "cast":
            args = [a.astype(np.float32) if a.dtype.kind in "f" else a.tolist() for a in args]
        elif how == "apart":
            args = [np.repeat(a, 2, axis=-1)[..., ::2] if a.ndim else a for a in args]
        c.args = args
        if how == "out" and not c.wrapped_out:
            outs = []
            for s, ch in c.outshapes:
                o = np.zeros(s, dtype=ch)
                if rng.integers(2):
                    o.flags.writeable = False
                outs.append(o)
            if rng.integers(3) == 0:
                outs = [np.zeros((5,) + s, dtype=ch) for s, ch in c.outshapes]
            kw = dict(out=outs[0] if len(outs) == 1 else tuple(outs))

        def go(compare):
            if kw:
                r = f.f(*c.args, **kw)
                return None
            r = c.raw()
            return c.read(r) if compare else None
        return go, things_of(args) + [f.f]

    def special(self, name):
        ul, np_ = self.ul, np
        x = np.arange(6.0).reshape(2, 3)

        def inspect(*a):
            sys.stdout.flush()
            null, old = os.open(os.devnull, os.O_WRONLY), os.dup(1)
            try:
                os.dup2(null, 1)
                with contextlib.redirect_stdout(io.StringIO()):
                    ul.ufunc_inspector(*a)
                ctypes.CDLL(None).fflush(None)
            finally:
                os.dup2(old, 1)
                os.close(old)
                os.close(null)
        S = {
            "gendot": (lambda c: ul.gendot(np_.multiply, np_.add) and None, 20, [np_.multiply, np_.add]),
            "gendot-gufunc": (lambda c: ul.gendot(np_.subtract, ul.rms, name="n", doc="d") and None, 20, [np_.subtract, ul.rms]),
            "gendot-call": (lambda c: ul.gendot(np_.multiply, np_.add)(x, x).tolist(), 20, [np_.multiply, np_.add]),
            "gendot-bad": (lambda c: ul.gendot(np_.multiply, np_.matmul), 1, [np_.multiply, np_.matmul]),
            "gendot-bad2": (lambda c: ul.gendot(ul.minmax, np_.add), 1, [ul.minmax]),
            "gendot-bad3": (lambda c: ul.gendot(3, np_.add), 1, []),
            "gendot-empty": (lambda c: ul.gendot(np_.minimum, np_.maximum)(x[:, :0], x[:, :0]), 20, []),
            "inspector": (lambda c: inspect(np_.add), 1, [np_.add]),
            "inspector-gufunc": (lambda c: inspect(ul.linear_interp1d), 1, [ul.linear_interp1d]),
            "inspector-other": (lambda c: inspect(3), 1, []),
            "inspector-none": (lambda c: inspect(), 1, []),
            "op": (lambda c: ul.first(x, ul.op.GT, 2.0, -1.0).tolist(), 1, [ul.op, ul.op.GT]),
            "bincount-neg": (lambda c: ul.bincount([1, 2, -1]), 1, []),
            "bincount-own": (lambda c: ul.bincount([[1, 2, 1], [0, 0, 5]]).tolist(), 1, []),
            "bincount-weights": (lambda c: ul.bincount([[1, 2, 1], [0, 0, 5]], weights=x).tolist(), 1, []),
            "bincount-empty": (lambda c: ul.bincount(np_.zeros(0, int)), 1, []),
            "bincount-float": (lambda c: ul.bincount(x), 1, []),
            "one_hot-neg": (lambda c: ul.one_hot([1, 2], -3), 1, []),
            "one_hot-out": (lambda c: ul.one_hot([1, 2], 3, out=np_.zeros((2, 4), int)), 1, []),
            "base-none": (lambda c: ul.convert_to_base(5, 3, -2), 1, []),
            "nextn-neg": (lambda c: ul.nextn_greater(1.0, -2), 1, []),
        }
        return S[name]

    def run(self, job):
        if job["how"] == "special":
            go, reps, th = self.special(job["fn"])
            th = list(DTYPES) + th
        else:
            go, th = self.call(job)
            reps = 1
        one = lambda: go(False)          # noqa: E731
        base, kept = outcome(go)
        # NumPy and Python keep some blocks for later, up to a limit: what seems to grow is done many times more
        ev, most = steady(one, th, reps=reps, warm=2, times=3) if reps > 1 else steady(one, th)
        if suspect(ev):
            ev, most = steady(one, th, reps=200, warm=8, times=4)
            most = -(-most // 200)
        else:
            most //= reps
        out = [ev]
        ev["base"] = base
        ev["most"] = most
        if most and job.get("fail") is not None:
            ks = [job["fail"]] if job["fail"] else sorted(set(range(1, min(most, 4) + 1)) | {most, most + 1})
            for k in ks:
                e = faulted(go, th, k, base, kept)
                if suspect(e):
                    e = faulted(go, th, k, base, kept, reps=200, warm=8, times=3)
                out.append(e)
        return out


def main():
    answers = os.fdopen(os.dup(1), "w")
    np.seterr(all="ignore")
    jobs = Jobs()
    gc.collect()
    gc.freeze()
    gc.disable()
    for n, line in enumerate(sys.stdin):
        job = json.loads(line)
        answers.write(json.dumps(jobs.run(job)) + "\n")
        answers.flush()
        if n % 200 == 199:
            gc.collect()


if __name__ == "__main__":
    main()
