"""C27: what ufunc_inspector tells."""
import ctypes
import os
import re
import sys
import tempfile

import numpy as np

ASSUMPTIONS = [
    "The layout of the text that ufunc_inspector prints is that of the documentation (README); what it says is judged.",
    "Gufuncs of the model's signatures are made with NumPy's PyUFunc_FromFuncAndDataAndSignature.",
]
GENERIC = {1: "e_e e_e_As_f_f e_e_As_d_d f_f f_f_As_d_d d_d g_g F_F F_F_As_D_D D_D G_G O_O O_O_method On_Om".split(),
           2: "ee_e ee_e_As_ff_f ee_e_As_dd_d ff_f ff_f_As_dd_d dd_d gg_g FF_F FF_F_As_DD_D DD_D GG_G OO_O OO_O_method".split()}
PLAIN = "not generic (or not in the checked generics)"


def models(tier, seed):
    inv = "SPECIFICATION Spec\nINVARIANTS Right Covered Emitted\n"
    c = "CONSTANTS MaxIn = %d MaxDims = %d Fault = \"%s\"\n"
    return [dict(name="one", module="InspectLoop", cfg=c % (1, 2, "none") + inv),
            dict(name="two", module="InspectLoop", cfg=c % (2, 1, "none") + inv)] + \
           [dict(name=f, module="InspectLoop", refutes=True, cfg=c % (2, 1, f) + inv) for f in ("offset", "again")]


def traces(tier):
    return [dict(stream="inspect", module="Inspect", failures="InspectFailures")]


# -- making ufuncs ------------------------------------------------------------
class Api:
    """NumPy's C API for ufuncs."""

    def __init__(self):
        import numpy._core._multiarray_umath as m
        get = ctypes.pythonapi.PyCapsule_GetPointer
        get.restype, get.argtypes = ctypes.c_void_p, [ctypes.py_object, ctypes.c_char_p]
        self.table = ctypes.cast(get(m._UFUNC_API, None), ctypes.POINTER(ctypes.c_void_p))
        self.index = {}
        text = open(os.path.join(np.get_include(), "numpy", "__ufunc_api.h")).read()
        for name, k in re.findall(r"#define PyUFunc_(\w+)[^#]*?PyUFunc_API\[(\d+)\]", text):
            self.index[name] = int(k)
        self.new = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_int,
                                     ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_char_p)(
            self.entry("FromFuncAndDataAndSignature"))
        self.register = ctypes.PYFUNCTYPE(ctypes.c_int, ctypes.py_object, ctypes.c_int, ctypes.c_void_p, ctypes.POINTER(ctypes.c_int),
                                          ctypes.c_void_p)(self.entry("RegisterLoopForType"))
        self.keep = []

    def entry(self, name):
        return self.table[self.index[name]]

    def make(self, name, nin, nout, types, loops, sig=None):
        """types: strings of type characters; loops: names of generic loops, or None."""
        n = len(types)
        funcs = (ctypes.c_void_p * max(n, 1))(*[self.entry(g) if g else self.entry("clearfperr") for g in loops])
        data = (ctypes.c_void_p * max(n, 1))()
        codes = ctypes.create_string_buffer(bytes(np.dtype(c).num for t in types for c in t), max(1, n * (nin + nout)))
        nm = ctypes.create_string_buffer(name.encode())
        sg = ctypes.create_string_buffer(sig.encode()) if sig else None
        f = self.new(ctypes.addressof(funcs), ctypes.addressof(data), ctypes.addressof(codes), n, nin, nout, -1, nm, None, 0,
                     sg if sig else None)
        self.keep.append((funcs, data, codes, nm, sg, f))
        return f


# -- reading what is said -------------------------------------------------------
class Listener:
    def __init__(self):
        self.libc = ctypes.CDLL(None)
        self.f = tempfile.TemporaryFile()

    def __call__(self, call):
        sys.stdout.flush()
        self.libc.fflush(None)
        self.f.seek(0)
        self.f.truncate()
        old = os.dup(1)
        try:
            os.dup2(self.f.fileno(), 1)
            try:
                r = call()
            finally:
                self.libc.fflush(None)
        finally:
            os.dup2(old, 1)
            os.close(old)
        self.f.seek(0)
        return r, self.f.read().decode("utf-8", "replace")


def ints(t):
    return [int(v) for v in re.findall(r"-?\d+", t)]


def parse(text):
    lines = text.split("\n")
    m = re.match(r"'(.*)' is a (?:gufunc with signature '(.*)'|ufunc)\.$", lines[0])
    s = dict(name=m.group(1), gufunc=m.group(2) is not None, text=m.group(2) or "", nin=0, nout=0, ntypes=-1, ndims=0, sizes=[],
             flags=[], numdims=[], ixs=[], offsets=[], nops=0, loops=[], user=[])
    typ = None
    for q in lines[1:]:
        m = re.match(r"nin = (\d+), nout = (\d+)$", q)
        if m:
            s["nin"], s["nout"] = int(m.group(1)), int(m.group(2))
            continue
        m = re.match(r"ntypes = (\d+)$", q)
        if m:
            s["ntypes"] = int(m.group(1))
            continue
        m = re.match(r"\.\.\.(\w+).*? = ?(.*)$", q)
        if m:
            k, v = m.groups()
            if k == "core_num_dim_ix":
                s["ndims"] = int(v)
            elif k == "core_dim_sizes":
                s["sizes"] = ints(v)
            elif k == "core_dim_flags":
                s["flags"] = [[w for w in p.split(" | ") if w] for p in v.strip("[]").split(", ")]
            elif k == "core_num_dims":
                s["numdims"] = ints(v)
            elif k == "core_dim_ixs":
                s["ixs"] = [ints(p) for p in re.findall(r"\[(.*?)\]", v)]
            elif k == "core_offsets":
                s["offsets"] = ints(v)
            elif k == "op_flags":
                s["nops"] = len(ints(v))
            continue
        m = re.match(r" *(\d+): (.*)->\s*(-?\d+)  \((.*)->(.)\)  (.*)$", q)
        if m:
            s["loops"].append(dict(i=int(m.group(1)), nums=ints(m.group(2)) + [int(m.group(3))], chars=list(m.group(4) + m.group(5)),
                                   generic=m.group(6)))
            continue
        m = re.match(r"  typenum = (\d+); type name is '(.*)'$", q)
        if m:
            typ = [int(m.group(1)), m.group(2).split(".")[-1]]
            continue
        m = re.match(r" +arg_types:  in:(.*)   out:(.*)$", q)
        if m:
            s["user"].append(dict(typenum=typ[0], name=typ[1], ins=ints(m.group(1)), outs=ints(m.group(2))))
            continue
        if q not in ("", "loop types:", "Registered user loops:"):
            raise ValueError("line %r" % q)
    return s


def tokens(sig):
    """Arguments of a signature, and the numbers of its fixed dimensions."""
    a = sig.replace(" ", "")
    args = [[dict(n=t.rstrip("?"), q=t.endswith("?")) for t in g.split(",") if t] for g in re.findall(r"\(([^)]*)\)", a)]
    fixed = {d["n"]: int(d["n"]) for g in args for d in g if d["n"].isdigit()}
    return args, fixed or {"": 0}


# -- the events -------------------------------------------------------------------
class Inspector:
    def __init__(self, d):
        import ufunclab as ul
        self.d, self.ul, self.ear = d, ul, Listener()

    def ufunc(self, f, generic=(), user=(), types=None):
        """generic: for each loop, the words that should follow, or "unknown"."""
        d = self.d
        d.begin("ufunc_inspector of %r" % f)
        r, text = self.ear(lambda: self.ul.ufunc_inspector(f))
        sig, fixed = tokens(f.signature or "")
        try:
            s = parse(text)
        except Exception as e:
            d.emit("inspect", dict(k="unreadable", f=repr(f), text=text[-1500:], err=repr(e)))
            return
        d.emit("inspect", dict(k="ufunc", none=r is None, name=f.__name__, nin=f.nin, nout=f.nout, gufunc=f.signature is not None,
                               text=f.signature or "", sig=sig, fixed=fixed, generic=list(generic), user=list(user), s=s,
                               types=[list(t.replace("->", "")) for t in (f.types if types is None else types)]))
        d.cover("ufuncs")
        d.sample(dict(ufunc=repr(f), text=text[:600]), limit=3)

    def other(self, x):
        self.d.begin("ufunc_inspector of %r" % (x,))
        r, text = self.ear(lambda: self.ul.ufunc_inspector(x))
        self.d.emit("inspect", dict(k="other", what=repr(x), said=text.strip(), none=r is None))


def rows(rng, nin, nout, n, generic):
    """Random loop types and loops."""
    types, loops, words = [], [], []
    for _ in range(n):
        g = None
        if generic and nout == 1 and nin in GENERIC and rng.integers(3):
            g = GENERIC[nin][int(rng.integers(len(GENERIC[nin])))]
        types.append("".join("?bBhHiIlLqQfdgFDGOMme"[int(k)] for k in rng.integers(0, 21, nin + nout)))
        loops.append(g)
        words.append("PyUFunc_" + g if g else PLAIN if nout == 1 and nin in GENERIC else "")
    return types, loops, words


def drive(d):
    import ufunclab as ul
    from vf.catalog import catalog
    import numpy._core._multiarray_umath as um
    import numpy._core._umath_tests as ut
    import numpy.linalg._umath_linalg as la
    from numpy._core._rational_tests import rational
    rng = d.rng
    t, api = Inspector(d), Api()
    # signatures of the model
    cases = list(d.cases("one")) + list(d.cases("two"))
    for n, c in enumerate(cases):
        nm = lambda q: q["n"] + ("?" if q["q"] else "")          # noqa: E731
        a = ["(%s)" % ",".join(nm(q) for q in g) for g in c["sig"]]
        sig = ",".join(a[:c["nin"]]) + "->" + ",".join(a[c["nin"]:])
        types, loops, words = rows(rng, c["nin"], 1, int(rng.integers(0, 3)), True)
        t.ufunc(api.make("case%d" % n, c["nin"], 1, types, loops, sig), words)
        d.replayed += 1
    # wide and long ones
    for n in range(400 if d.thorough else 80):
        nin, nout = int(rng.integers(1, 7)), int(rng.integers(1, 4))
        if rng.integers(2):
            nout = 1
        types, loops, words = rows(rng, nin, nout, int(rng.choice([0, 1, 2, 5, 12, 130])), True)
        names = ["i", "j", "n1", "long_name", "_k", "i2", "7", "12", "n"] + ["p?", "q?"] * int(rng.integers(2))
        g = ["(%s)" % ",".join(names[int(k)] for k in rng.integers(0, len(names), int(rng.integers(0, 5)))) for _ in range(nin + nout)]
        sig = ",".join(g[:nin]) + "->" + ",".join(g[nin:])
        if rng.integers(3) == 0 or not re.search(r"\w", sig):
            sig = None
        f = api.make("wide_%d" % n if n % 5 else "w", nin, nout, types, loops, sig)
        user = []
        if rng.integers(3) == 0:                    # loops registered for a type
            num = np.dtype(rational).num
            for _ in range(int(rng.integers(1, 4))):
                args = [num] + [int(v) for v in rng.integers(0, 18, nin + nout - 1)]
                if any(u["ins"] + u["outs"] == args for u in user):
                    continue
                arr = (ctypes.c_int * len(args))(*args)
                api.register(f, num, api.entry("clearfperr"), arr, None)
                user.append(dict(typenum=num, name="rational", ins=args[:nin], outs=args[nin:]))
        if sig is None and user:
            d.cover("ufuncs with registered loops")
        t.ufunc(f, words, user)
    # one loop of each generic kind
    for nin, gs in GENERIC.items():
        for g in gs:
            t.ufunc(api.make("g_" + g, nin, 1, ["d" * (nin + 1)], [g]), ["PyUFunc_" + g])
    # the ufuncs that there are
    for mod in (np, um, ut, la, np.linalg):
        for n in sorted(dir(mod)):
            f = getattr(mod, n)
            if isinstance(f, np.ufunc):
                if has_user(f):
                    d.begin("%r" % f)
                    t.ear(lambda: ul.ufunc_inspector(f))
                else:
                    t.ufunc(f)
    for f in catalog():
        t.ufunc(f.f)
    for nin in range(1, 8):
        for nout in range(1, 3):
            t.ufunc(np.frompyfunc(lambda *a: a[0], nin, nout), ["unknown"])
    for x in (3, None, "sin", np.sin.reduce, np.ufunc, ul.op, ul.gendot, ul.bincount, len, np.float64, np.zeros(3), [np.sin], ul.ufunc_inspector):
        t.other(x)
    for a in ((), (np.sin, np.cos)):
        d.begin("wrong number of arguments")
        try:
            t.ear(lambda: ul.ufunc_inspector(*a))
            d.violation("arguments", dict(n=len(a)))
        except TypeError:
            pass


def has_user(f):
    """Whether the module of rationals has registered loops for f."""
    return f.__name__ in ("add", "subtract", "multiply", "divide", "remainder", "true_divide", "floor_divide", "minimum", "maximum", "equal",
                          "not_equal", "less", "greater", "less_equal", "greater_equal", "negative", "absolute", "floor", "ceil", "trunc",
                          "square", "rint", "sign", "reciprocal", "gcd", "lcm", "numerator", "denominator", "matrix_multiply", "test_add",
                          "test_add_rationals")
