"""Runs histories of imports, each in a fork that has not loaded ufunclab.  stdin: one JSON history per line."""
import copy
import importlib
import json
import os
import pickle
import sys
import threading
import traceback
import types

import numpy  # noqa: F401  (loaded once, before the forks)

KINDS = {"op": lambda o: isinstance(o, type) and o.__name__ == "op", "__version__": lambda o: isinstance(o, str) and o[:1].isdigit(),
         "normal": lambda o: o is sys.modules.get("ufunclab.normal"), "semivar": lambda o: o is sys.modules.get("ufunclab.semivar")}


def right(name, obj):
    if name in KINDS:
        return KINDS[name](obj)
    return callable(obj) and getattr(obj, "__name__", None) == name


class History:
    def __init__(self, listed):
        self.ids, self.keep, self.listed, self.out = {}, [], listed, []
        self.lock = threading.Lock()

    def number(self, obj):
        with self.lock:
            self.keep.append(obj)
            return self.ids.setdefault(id(obj), len(self.ids) + 1)

    def step(self, how, name):
        rec = dict(how=how, name=name, got=[], err="", right=True, complete=True)
        try:
            if how == "module":
                importlib.import_module("ufunclab." + name)
            elif how == "attr":
                import ufunclab
                self.take(rec, name, getattr(ufunclab, name))
            elif how == "from":
                ns = {}
                exec("from ufunclab import %s as z" % (name or "nosuchname"), ns)
                self.take(rec, name, ns["z"])
            elif how == "pickle":       # by its name, and the object sent and received
                o = pickle.loads(b"cufunclab\n" + name.encode() + b"\n.")
                self.take(rec, name, o)
                if not isinstance(o, types.ModuleType):
                    for k in range(2, pickle.HIGHEST_PROTOCOL + 1):
                        back = pickle.loads(pickle.dumps(o, k))
                        rec["got"].append([name, self.number(o if isinstance(o, str) and back == o else back)])
                    rec["got"].append([name, self.number(copy.copy(o))])
            elif how == "star":
                ns = {}
                exec("from ufunclab import *", ns)
                rec["complete"] = all(n in ns for n in self.listed)
                for n in self.listed:
                    if n in ns:
                        self.take(rec, n, ns[n])
            elif how == "dir":
                import ufunclab
                names = dir(ufunclab)
                rec["complete"] = set(self.listed) <= set(names)
                rec["right"] = all(hasattr(ufunclab, n) for n in names)
        except Exception as e:      # noqa: BLE001
            rec["err"] = "AttributeError" if isinstance(e, AttributeError) else "ImportError" if isinstance(e, ImportError) \
                else type(e).__name__
        with self.lock:
            self.out.append(rec)

    def take(self, rec, name, obj):
        rec["got"].append([name, self.number(obj)])
        rec["right"] = rec["right"] and bool(right(name, obj))


def run(job):
    h = History(job["listed"])
    if job.get("threads"):
        go = threading.Barrier(len(job["threads"]))

        def work(steps):
            go.wait()
            for how, name in steps:
                h.step(how, name)
        ts = [threading.Thread(target=work, args=(s,)) for s in job["threads"]]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    for how, name in job["h"]:
        h.step(how, name)
    for n in job["final"]:
        h.step("attr", n)
    return h.out


def main():
    assert not any(m.split(".")[0] == "ufunclab" for m in sys.modules)
    for line in sys.stdin:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = run(json.loads(line))
            except BaseException:       # noqa: BLE001
                res = dict(error=traceback.format_exc()[-1500:])
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(res))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        print(data if data and st == 0 else json.dumps(dict(error="the process died: status %d" % st)), flush=True)


if __name__ == "__main__":
    main()
