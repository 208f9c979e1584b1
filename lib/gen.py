"""Strategies shared by the checks. They generate JSON-able values only."""
from harness import st, np
import math


def fl(lo, hi, **kw):
    """floats in [lo, hi] without subnormals"""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False, **kw)


def mix(lo, hi, *special):
    """floats in a range, with the special values (and their neighbours) drawn often"""
    near = []
    for s in special:
        for d in (0.0, 1e-12, -1e-12, 1e-6, -1e-6):
            v = s + d
            if lo <= v <= hi and v not in near:
                near.append(v)
    parts = [fl(lo, hi), fl(lo, hi)]
    n = 4
    parts.append(st.integers(int(math.ceil(lo*n)), int(math.floor(hi*n))).map(lambda i: i/n))
    if near:
        parts.append(st.sampled_from(near))
    return st.one_of(parts)


def lists(e, lo, hi):
    return st.lists(e, min_size=lo, max_size=hi)


def cplx(lo=-3.0, hi=3.0):
    """complex number as [re, im], sometimes zero"""
    return st.one_of(st.tuples(fl(lo, hi), fl(lo, hi)).map(list),
                     st.sampled_from([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.0, -1.0], [0.5, 0.5]]))


def C(pairs):
    """list(s) of [re, im] -> complex array"""
    a = np.asarray(pairs, dtype=float)
    return a[..., 0] + 1j*a[..., 1]


lat_st = mix(-90.0, 90.0, -90.0, 0.0, 90.0)
lon_st = mix(-360.0, 720.0, -180.0, 0.0, 180.0, 360.0)
lon180 = mix(-180.0, 180.0, -180.0, 0.0, 180.0)


def copy_of(x):
    return x.copy() if hasattr(x, 'copy') else x


def same(a, b):
    """same mask and same data, NaN equal to NaN"""
    if not np.array_equal(np.ma.getmaskarray(np.ma.asarray(a)), np.ma.getmaskarray(np.ma.asarray(b))):
        return False
    a, b = np.asarray(np.ma.getdata(a)), np.asarray(np.ma.getdata(b))
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
