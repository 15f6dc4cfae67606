"""
Exhaustive exploration of the choices that are made by the random number generator (see native/rng.cpp).
"""
import ctypes
import os
import subprocess

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYMBOL = '_ZN3RNG9randomIntEjj'


def prepare():
    """ Builds the library that replaces the random number generator and returns the environment to be used. """
    out = os.path.join(HERE, '.build', 'librng.so')
    src = os.path.join(HERE, 'native', 'rng.cpp')
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        tmp = out + f'.{os.getpid()}'
        subprocess.run(['g++', '-std=c++17', '-O1', '-shared', '-fPIC', '-o', tmp, src, '-ldl'], check=True)
        os.replace(tmp, out)
    return {'LD_PRELOAD': out, 'VERIF_RNG': out}


_LIB = None


def lib():
    global _LIB
    if _LIB is None:
        _LIB = ctypes.CDLL(os.environ['VERIF_RNG'])
    return _LIB


class Invalid(Exception):
    """ Thrown if a random number from an empty range has been requested. """


def with_choices(prefix, fn, mode=0):
    """ Runs a function with given choices. Returns its result, the choices taken and their numbers of alternatives. """
    l = lib()
    p = np.array(list(prefix) or [0], dtype=np.uint32)
    l.rng_begin(p.ctypes.data_as(ctypes.c_void_p), len(prefix), mode)
    try:
        result = fn()
    finally:
        n = l.rng_end()
    a, t = np.zeros(max(n, 1), dtype=np.uint32), np.zeros(max(n, 1), dtype=np.uint32)
    l.rng_log(a.ctypes.data_as(ctypes.c_void_p), t.ctypes.data_as(ctypes.c_void_p))
    if l.rng_invalid():
        raise Invalid('a random number is requested from an empty range')
    return result, [int(v) for v in t[:n]], [int(v) for v in a[:n]]


def explore(fn, depth, mode=0, prefix=(), start=0):
    """
    Calls a function once for each sequence of choices. Choices beyond a certain depth always have the same outcome.
    Yields tuples (choices, result).
    """
    stack = [list(prefix)]
    while stack:
        p = stack.pop()
        result, taken, alternatives = with_choices(p, fn, mode)
        yield taken, result
        for i in range(min(depth, len(taken)) - 1, max(len(p), start) - 1, -1):
            for v in range(alternatives[i]):
                if v != taken[i]:
                    stack.append(taken[:i] + [v])


def hooked(taken):
    """ Whether the random number generator is under control. """
    return bool(taken)
