"""Arrays that end (or begin) at an inaccessible page, so that a stray access ends the process."""
import ctypes
import mmap

import numpy as np

_libc = ctypes.CDLL(None, use_errno=True)
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
PAGE = mmap.PAGESIZE


class Slot:
    def __init__(self, size=1 << 20):
        self.size = size
        self.mm = mmap.mmap(-1, size + 2 * PAGE)
        self.whole = np.frombuffer(self.mm, dtype=np.uint8)
        a = self.whole.ctypes.data
        for p in (a, a + PAGE + size):
            if _libc.mprotect(p, PAGE, 0) != 0:
                raise OSError(ctypes.get_errno(), "mprotect")
        self.usable = self.whole[PAGE:PAGE + size]

    def put(self, a, end=True):
        """A C-contiguous copy of a against the end (or the start) of the accessible memory."""
        a = np.asarray(a)
        nb = a.nbytes
        if a.dtype.hasobject or nb == 0 or nb > self.size:
            return a.copy()
        raw = self.usable[self.size - nb:] if end else self.usable[:nb]
        v = raw.view(a.dtype).reshape(a.shape)
        v[...] = a
        return v


_slots = []


def guarded(arrays, rng):
    """Copies of the arrays, each against a guard page; they are reused by the next call."""
    out = []
    for k, a in enumerate(arrays):
        while len(_slots) <= k:
            _slots.append(Slot())
        out.append(_slots[k].put(a, end=bool(rng.integers(4))))
    return out
