"""
Shared generators. They only build plain JSON values; 'arr' and friends turn them into arrays inside the checks.
"""
import numpy as np
from hypothesis import strategies as st


def ints(lo, hi):
    return st.integers(lo, hi)


def seeds():
    return st.integers(0, 2 ** 31 - 1)


def grid_floats(lo=-4, hi=4, q=4):
    """ Multiples of 1/q: exactly representable, and ties are frequent. """
    return st.integers(int(lo * q), int(hi * q)).map(lambda k: k / q)


def floats(lo=-10., hi=10.):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)


def bits(n):
    return st.lists(st.integers(0, 1), min_size=n, max_size=n)


def matrix(n, d, elements=None):
    elements = grid_floats() if elements is None else elements
    return st.lists(st.lists(elements, min_size=d, max_size=d), min_size=n, max_size=n)


def arr(x, d=None, dtype=float):
    a = np.array(x, dtype=dtype)
    if d is not None:
        a = a.reshape(-1, d)
    return a


def unique_ints(n, lo=0, hi=200):
    return st.lists(st.integers(lo, hi), min_size=n, max_size=n, unique=True)


def rs(seed):
    return np.random.RandomState(seed % 2 ** 32)
