"""Prints spec/LoopTable.tla: the published loops, signatures and least sizes of every function.

Run once, by hand, and reviewed against the documentation; the module it printed is committed
and is not regenerated by the checks.
usage: PYTHONPATH=<site with ufunclab> python tools/mktable.py > spec/LoopTable.tla
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.catalog import catalog  # noqa: E402

fns = [f for f in catalog(gendots=False)]


def seq(xs):
    return "<<" + ", ".join(xs) + ">>"


def q(s):
    return '"%s"' % s


def loops(f):
    if f.name == "one_hot":
        return [(c, "l") for c in "bBhHiIlLqQ"]
    return f.loops


tables, sigs = {}, {}
for f in fns:
    t = tuple(loops(f))
    tables.setdefault(t, []).append(f.name)
    ids = {}
    for c in f.cin + f.cout:
        for d in c:
            if isinstance(d, str):
                ids.setdefault(d, -1 - len(ids))
    enc = tuple(tuple(d if isinstance(d, int) else ids[d] for d in c) for c in f.cin), \
        tuple(tuple(d if isinstance(d, int) else ids[d] for d in c) for c in f.cout), f.minlen
    if not f.outdims:
        sigs.setdefault(enc, []).append(f.name)
print("-" * 30 + " MODULE LoopTable " + "-" * 30)
print("""(* C21: the published type signatures, core dimensions and least core sizes.  *)
(* A type is its NumPy character.  A core dimension is a positive fixed size  *)
(* or the negative number of a variable.  (Written by tools/mktable.py.)      *)
EXTENDS Integers, Sequences
""")
print("\\* functions that share a table of loops <<types of inputs, types of outputs>>")
print("Tables == <<")
rows = []
for t, names in tables.items():
    rows.append(" [names |-> %s,\n  loops |-> %s]" % (
        seq(map(q, names)), seq(seq([seq(map(q, i)), seq(map(q, o))]) for i, o in t)))
print(",\n".join(rows))
print(">>\n")
print("\\* functions that share core dimensions of inputs and outputs; least: the least size of the variables")
print("Signatures == <<")
rows = []
for (i, o, m), names in sigs.items():
    rows.append(" [names |-> %s,\n  cin |-> %s, cout |-> %s, least |-> %d]" % (
        seq(map(q, names)), seq(seq(map(str, c)) for c in i), seq(seq(map(str, c)) for c in o), m))
print(",\n".join(rows))
print(">>")
print("=" * 77)
