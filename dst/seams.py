"""Seams: scripted random bits, uninitialised memory content."""

from __future__ import annotations

import contextlib
import ctypes
import threading

import numpy as np


class _Bitgen(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p), ("u64", ctypes.c_void_p), ("u32", ctypes.c_void_p), ("dbl", ctypes.c_void_p), ("raw", ctypes.c_void_p)]


_F64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
_F32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
_FD = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)
_new = ctypes.pythonapi.PyCapsule_New
_new.restype = ctypes.py_object
_new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]

TOP = (1 << 53) - 1


class ScriptedBits:
    """A numpy bit generator whose draws are decided by `source()` -> integer in [0, 2**53)."""

    def __init__(self, source):
        self.source = source
        self.draws = 0
        self.lock = threading.Lock()

        def nxt():
            self.draws += 1
            return source()

        # a 53-bit draw u stands for the unit float u / 2**53; integer draws use its leading bits
        self._f = (_F64(lambda _s: nxt() << 11), _F32(lambda _s: nxt() >> 21), _FD(lambda _s: nxt() / float(1 << 53)), _F64(lambda _s: nxt() << 11))
        f = [ctypes.cast(g, ctypes.c_void_p) for g in self._f]
        self._struct = _Bitgen(None, f[0], f[1], f[2], f[3])
        self.capsule = _new(ctypes.addressof(self._struct), b"BitGenerator", None)


def scripted_rng(source):
    """(numpy Generator, ScriptedBits)."""
    bits = ScriptedBits(source)
    rng = np.random.Generator(bits)
    return rng, bits


def rng_from_values(values):
    """Generator whose unit-float draws are `values` (the last one repeats)."""
    vals = [min(TOP, max(0, int(v * (1 << 53)))) for v in values]
    it = {"i": 0}

    def source():
        i = it["i"]
        it["i"] += 1
        return vals[min(i, len(vals) - 1)]

    return scripted_rng(source)


@contextlib.contextmanager
def poisoned_memory():
    """Freshly allocated uninitialised arrays hold arbitrary content: here, NaN or a large number."""
    real = np.empty

    def empty(shape, dtype=float, *a, **k):
        arr = real(shape, dtype, *a, **k)
        if arr.dtype.kind in "fc":
            arr.fill(float("nan"))
        elif arr.dtype.kind in "iu":
            arr.fill(77)
        elif arr.dtype.kind == "b":
            arr.fill(True)
        return arr

    np.empty = empty
    try:
        yield
    finally:
        np.empty = real
