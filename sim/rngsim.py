"""The seam of the random numbers: a bit generator whose every outcome the simulator decides.

numpy's own generator code (RandomState, legacy distributions) runs unchanged on top of it, so that every value a sampler
sees is one that real random bits can produce.
"""
import ctypes
import math
import random
import sys
import threading

import numpy as np

_U64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
_U32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
_DBL = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)


class _BitGen(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p), ("next_uint64", _U64), ("next_uint32", _U32), ("next_double", _DBL), ("next_raw", _U64)]


ctypes.pythonapi.PyCapsule_New.restype = ctypes.py_object
ctypes.pythonapi.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]


class Budget(BaseException):
    """Raised in a sampler that does not stop taking random numbers."""


class Bits:
    """Delivers the doubles of the script, then pseudo-random ones; ends the draw when the budget is used up."""

    _name = b"BitGenerator"

    def __init__(self, script, seed=0, budget=None, good=()):
        # good: pairs of doubles delivered now and then after the script, so that a rejection sampler can finish
        self.script, self.i, self.budget = list(script), 0, budget
        self.good, self.queue = [list(g) for g in good], []
        self.rng = random.Random(seed)
        self.lock = threading.Lock()
        self.spent = False
        self.cb = _BitGen(
            None,
            _U64(lambda _: int(self.next() * 2.0**53) << 11),
            _U32(lambda _: int(self.next() * 2.0**32)),
            _DBL(lambda _: self.next()),
            _U64(lambda _: int(self.next() * 2.0**53) << 11),
        )
        self.capsule = ctypes.pythonapi.PyCapsule_New(ctypes.addressof(self.cb), self._name, None)

    def next(self):
        i = self.i
        self.i = i + 1
        if i < len(self.script):
            x = self.script[i]
        elif self.queue:
            x = self.queue.pop(0)
        else:
            x = self.rng.random()
            if self.good:
                k = self.rng.randrange(4 * len(self.good))
                if k < len(self.good) and i % 2 == 0:
                    x = self.good[k][0]
                    self.queue = self.good[k][1:]
        if self.budget is not None and i >= self.budget:
            self.spent = True
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(threading.get_ident()), ctypes.py_object(Budget))
        return x

    def install(self):
        np.random.set_bit_generator(self)

    def shadow(self):
        """An independent stream with the same outcomes (of a generator that has not been used yet)."""
        b = Bits(self.script, 0, None, self.good)
        b.rng.setstate(self.state0)
        return np.random.RandomState(b)

    def freeze(self):
        self.state0 = self.rng.getstate()
        return self


def quant(u):
    """The nearest number that next_double can deliver."""
    return min(max(round(u * 2.0**53), 0), 2**53 - 1) / 2.0**53


def pair(z1, z2):
    """Two doubles from which numpy's legacy generator makes the normal numbers z1 and then z2 (nearly)."""
    R2 = z1 * z1 + z2 * z2
    if R2 < 1e-8:
        z1, z2, R2 = 1e-4, 0.0, 1e-8
    r2 = math.exp(-0.5 * R2)
    f = math.sqrt(r2 / R2)
    return [quant(0.5 * (z2 * f + 1)), quant(0.5 * (z1 * f + 1))]


sys.unraisablehook = lambda *a: None
