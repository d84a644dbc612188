"""Every callable of the library that NumPy drives, with the kind of data each argument takes."""
import re

import numpy as np

# What each argument of a function is, where it is not plain data ("x").
KINDS = {
    "argfirst": "x op x", "first": "x op x x", "ordered": "x op",
    "searchsortedl": "sorted x", "searchsortedr": "sorted x",
    "percentileofscore": "x x kind", "mad": "x bool", "rmad": "x bool", "gini": "pos bool", "meanvar": "x ddof",
    "gmean": "pos", "gmeanw": "pos pos", "hmean": "pos", "hmeanw": "pos pos", "pmean": "pos power",
    "pmeanw": "pos pos power", "multivariate_logbeta": "pos", "vnorm": "x order", "tri_area_indexed": "x index",
    "linear_interp1d": "x sorted x", "backlash": "x pos x", "backlash_sum": "x x pos x",
    "hysteresis_relay": "x low high x x x", "unwrap": "x pos", "logfactorial": "count", "loggamma1p": "unit",
    "expint1": "pos", "logexpint1": "pos", "wjaccard": "pos pos", "one_hot": "small", "bincount": "small",
    "bincountw": "small x", "convert_to_base": "count base", "step": "x low high x x", "linearstep": "x low high x x",
    "smoothstep3": "x low high x x", "smoothstep5": "x low high x x", "invsmoothstep3": "unit low high zero one",
    "trapezoid_pulse": "x low zero one high pos", "hyperbolic_ramp": "x pos", "exponential_ramp": "x pos",
    "yeo_johnson": "x power", "inv_yeo_johnson": "x power", "pow1pm1": "unit small", "sosfilter": "sos x",
    "sosfilter_ic": "sos x x", "sosfilter_ic_contig": "sos x x", "deadzone": "x low high",
    "semivar.exponential": "pos zero one pos", "semivar.linear": "pos zero one pos",
    "semivar.parabolic": "pos zero one pos", "semivar.spherical": "pos zero one pos",
}
MINLEN = dict(mad=1, rmad=1, gini=1, wjaccard=1, argmin=1, argmax=1, minmax=1, argminmax=1, min_argmin=1, max_argmax=1, peaktopeak=1, meanvar=1, rms=1,
              pearson_corr=2, gmean=1, gmeanw=1, hmean=1, hmeanw=1, pmean=1, pmeanw=1)


class Fn:
    """One NumPy-driven function with its loops."""

    def __init__(self, name, f, kinds=None, minlen=0, group=None):
        self.name, self.f = name, f
        self.nin, self.nout = f.nin, f.nout
        sig = (f.signature or ",".join(["()"] * f.nin) + "->" + ",".join(["()"] * f.nout)).replace(" ", "")
        a, b = sig.split("->")
        dims = lambda s: [tuple(int(t) if t.isdigit() else t for t in g.split(",") if t)      # noqa: E731
                          for g in re.findall(r"\(([^)]*)\)", s)]
        self.cin, self.cout = dims(a), dims(b)
        self.elementwise = f.signature is None
        self.loops = []
        for t in f.types:
            i, o = t.split("->")
            if not re.search("[mM]", t):
                self.loops.append((i, o))
        k = (kinds or KINDS.get(name) or "x").split()
        self.kinds = k * self.nin if len(k) == 1 and self.nin > 1 and name not in KINDS else k
        assert len(self.kinds) == self.nin, (name, self.kinds)
        self.minlen = minlen or MINLEN.get(name, 0)
        self.dims = []
        for c in self.cin + self.cout:
            for q in c:
                if isinstance(q, str) and q not in self.dims:
                    self.dims.append(q)
        indims = {q for c in self.cin for q in c}
        self.outdims = [q for q in self.dims if q not in indims]      # set by out= only
        self.contig_only = name == "sosfilter_ic_contig"
        self.accumulates = name in ("bincount", "bincountw")          # adds to what out= holds
        self.group = group or name

    def sizes(self, rng, top=4):
        """Sizes of the core dimensions."""
        return {q: int(rng.integers(max(self.minlen, 1 if self.outdims and q in self.outdims else 0)
                                    if self.minlen or rng.integers(6) else 0, top + 1)) for q in self.dims}

    def core(self, c, sz):
        return tuple(q if isinstance(q, int) else sz[q] for q in c)

    def data(self, j, char, shape, rng, sz=None):
        return data(self.kinds[j], char, shape, rng, self, sz or {})

    def call(self, args, out=None, **kw):
        if out is not None:
            kw["out"] = out if len(out) > 1 else out[0]
        return self.f(*args, **kw)

    def __repr__(self):
        return self.name


class Wrapped(Fn):
    """A Python function around a gufunc; its axis argument places the core axis of all arrays."""

    def __init__(self, name, py, gufunc, call):
        Fn.__init__(self, name, gufunc, group=name)
        self.py, self.pycall = py, call
        self.contig_only = False

    def call(self, args, out=None, axis=None, n=None, **kw):
        """With out, or with the size n of the result's core dimension."""
        assert not kw
        if axis is None:
            axis = -1
        o = out[0] if out is not None else None
        return self.pycall(args, o, axis, o.shape[axis] if n is None else n)


def data(kind, char, shape, rng, fn=None, sz=None):
    """Random data of one kind, spread over few values so that ties occur."""
    sz = sz or {}
    n = int(np.prod(shape, dtype=int))
    dt = np.dtype(char)
    special = False
    if kind == "op":
        v = rng.integers(0, 6, n)
    elif kind == "kind":
        v = rng.integers(0, 4, n)
    elif kind == "bool":
        v = rng.integers(0, 2, n)
    elif kind == "ddof":
        v = rng.integers(0, 2, n)
    elif kind == "index":
        v = rng.integers(-3, 3, n)
    elif kind == "small":
        v = rng.integers(-1 if dt.kind in "i" else 0, 4, n)
    elif kind == "count":
        v = rng.integers(0, 20, n)
    elif kind == "base":
        v = rng.integers(2, 5, n)
    elif kind == "pos":
        v = rng.integers(1, 7, n) / (2 if dt.kind in "fc" else 1)
    elif kind == "unit":
        v = rng.integers(-3, 4, n) / 8
    elif kind == "zero":
        v = rng.integers(0, 2, n) / 4
    elif kind == "one":
        v = rng.integers(2, 4, n)
    elif kind == "low":
        v = -rng.integers(0, 3, n)
    elif kind == "high":
        v = rng.integers(1, 4, n)
    elif kind == "power":
        v = rng.choice([-2, -1, 0, 0.5, 1, 2, 3], n)
    elif kind == "order":
        v = rng.choice([1, 1.5, 2, 3, np.inf], n)
    elif kind == "sos":
        v = rng.integers(-1, 3, n).reshape(shape) / 2
        v[..., 3] = 1
    elif kind == "sorted":
        v = np.sort(rng.integers(0 if dt.kind in "u" else -4, 5, n).reshape(shape), axis=-1) if shape else \
            rng.integers(0 if dt.kind in "u" else -4, 5, n)
        if fn is not None and fn.name == "linear_interp1d" and shape:      # strictly increasing
            v = v + np.arange(shape[-1])
    else:
        v = rng.integers(0 if dt.kind == "u" else -4, 5, n)
        if dt.kind in "fc":
            v = v / 2
            special = rng.integers(3) == 0
        if dt.kind == "c":
            v = v + 1j * rng.integers(-4, 5, n) / 2
    if dt.kind == "O":
        a = np.empty(n, dtype=object)
        for k, q in enumerate(np.asarray(v).reshape(-1).tolist()):
            a[k] = int(q) * 1000003 + (0 if kind != "x" else 7 * 10 ** 20)
        return a.reshape(shape)
    a = np.asarray(v).astype(dt).reshape(shape)
    if special and a.size:
        f = a.reshape(-1)
        k = [0, -1, int(rng.integers(f.size)), int(rng.integers(f.size))][int(rng.integers(4))]
        f[k] = [np.nan, np.inf, -np.inf, -0.0][int(rng.integers(4))]
    return a


def catalog(gendots=True):
    """Fn objects of every function: public, in submodules, behind wrappers, and made by gendot."""
    import ufunclab as ul
    import ufunclab.normal as normal
    import ufunclab.semivar as semivar
    out = []
    for name in ul.__all__:
        f = getattr(ul, name)
        if isinstance(f, np.ufunc):
            out.append(Fn(name, f))
    if "erfcx" not in ul.__all__:
        out.append(Fn("erfcx", ul.erfcx))
    for m, mod in (("normal", normal), ("semivar", semivar)):
        for n in sorted(dir(mod)):
            if isinstance(getattr(mod, n), np.ufunc) and not n.startswith("_"):
                out.append(Fn("%s.%s" % (m, n), getattr(mod, n)))
    w = [("bincount", ul.bincount, ul.bincount._bincount, lambda a, o, x, n: ul.bincount(a[0], n, out=o, axis=x)),
         ("bincountw", ul.bincount, ul.bincount._bincountw,
          lambda a, o, x, n: ul.bincount(a[0], n, weights=a[1], out=o, axis=x)),
         ("convert_to_base", ul.convert_to_base, ul.convert_to_base.gufunc,
          lambda a, o, x, n: ul.convert_to_base(a[0], a[1], n, out=o, axis=x)),
         ("one_hot", ul.one_hot, ul.one_hot.gufunc, lambda a, o, x, n: ul.one_hot(a[0], n, out=o, axis=x)),
         ("nextn_greater", ul.nextn_greater, ul.nextn_greater.gufunc,
          lambda a, o, x, n: ul.nextn_greater(a[0], n, out=o, axis=x)),
         ("nextn_less", ul.nextn_less, ul.nextn_less.gufunc, lambda a, o, x, n: ul.nextn_less(a[0], n, out=o, axis=x))]
    out += [Wrapped(*t) for t in w]
    for f in out[-4:-2]:
        if f.name == "one_hot":
            f.loops = [(ch, "l") for ch in "bBhHiIlLqQ"]
    if gendots:
        for p, s in GENDOTS(ul):
            f = ul.gendot(p, s)
            out.append(Fn(f.__name__, f, "x x", minlen=1, group="gendot"))
    return out


def GENDOTS(ul):
    return [(np.multiply, np.add), (np.logical_and, np.logical_or), (np.minimum, np.maximum), (np.multiply, ul.kbnsum),
            (np.equal, np.logical_and), (np.subtract, ul.rms), (np.less, np.logical_or), (np.subtract, ul.peaktopeak),
            (np.maximum, ul.argmax)]
