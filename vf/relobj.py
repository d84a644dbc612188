"""Objects related by a table: any relations that agree with their mirror images and complements."""
import numpy as np

MIRROR = dict(LT="GT", GT="LT", LE="GE", GE="LE", EQ="EQ", NE="NE")


class Item:
    """Item k of a table: its comparisons are looked up."""
    __hash__ = None

    def __init__(self, k, table):
        self.k, self.table = k, table

    def _c(self, op, o):
        return self.table[op][self.k][o.k] if isinstance(o, Item) else NotImplemented

    def __lt__(self, o): return self._c("LT", o)
    def __le__(self, o): return self._c("LE", o)
    def __gt__(self, o): return self._c("GT", o)
    def __ge__(self, o): return self._c("GE", o)
    def __eq__(self, o): return self._c("EQ", o)
    def __ne__(self, o): return self._c("NE", o)


def table(n, rng, dense):
    """LT and LE are arbitrary, GT and GE their mirror images, EQ reflexive and symmetric, NE its complement."""
    lt, le = ((rng.random((n, n)) < dense).tolist() for _ in range(2))
    eq = rng.random((n, n)) < dense
    eq = np.triu(eq, 1)
    eq = (eq | eq.T | np.eye(n, dtype=bool)).tolist()
    t = dict(LT=lt, LE=le, EQ=eq, NE=[[not v for v in row] for row in eq])
    t["GT"] = [list(c) for c in zip(*lt)]
    t["GE"] = [list(c) for c in zip(*le)]
    return t


def items(n, rng, dense):
    t = table(n, rng, dense)
    return t, [Item(k, t) for k in range(n)]


def array(objs):
    a = np.empty(len(objs), dtype=object)
    a[:] = objs
    return a
