"""Shared generators and oracles' numeric helpers."""
import numpy as np
from hypothesis import strategies as st


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)


seeds = st.integers(0, 2**31 - 1)


def logfl(lo, hi):
    """Floats log-uniform in [lo, hi]."""
    a, b = float(np.log(lo)), float(np.log(hi))
    return fl(0, 1).map(lambda u: float(np.exp(a + u * (b - a))))


def samples(min_size=1, max_size=40):
    """Lists of numbers with ties, outliers, spread scales or integers."""
    ints = st.lists(st.integers(-8, 8), min_size=min_size, max_size=max_size)
    halves = st.lists(st.integers(-40, 40).map(lambda i: i / 4), min_size=min_size, max_size=max_size)
    flo = st.lists(fl(-1e3, 1e3), min_size=min_size, max_size=max_size)
    mixed = st.lists(st.one_of(fl(-1, 1), fl(-1e6, 1e6), st.sampled_from([0.0, 1.0, 100.0])),
                     min_size=min_size, max_size=max_size)

    def rand(n, s, kind):
        r = np.random.RandomState(s)
        return {0: lambda: r.standard_normal(n), 1: lambda: r.standard_cauchy(n),
                2: lambda: r.exponential(size=n), 3: lambda: np.round(r.standard_normal(n), 1)}[kind]().tolist()
    rnd = st.builds(rand, st.integers(min_size, max_size), seeds, st.integers(0, 3))
    return st.one_of(ints, halves, flo, mixed, rnd)


def rng(seed):
    return np.random.RandomState(seed)


def close(a, b, rtol=1e-9, atol=0.0, msg=""):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, f"{msg}: shapes {a.shape} != {b.shape}"
    if a.dtype.kind not in "fc" and b.dtype.kind not in "fc":
        assert np.array_equal(a, b), f"{msg}: {a!r} != {b!r}"
        return
    with np.errstate(all="ignore"):
        a, b = a.astype(complex if "c" in (a.dtype.kind, b.dtype.kind) else float), b.astype(
            complex if "c" in (a.dtype.kind, b.dtype.kind) else float)
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= atol + rtol * np.abs(b))
    if not np.all(ok):
        i = np.argwhere(~np.atleast_1d(ok))[0]
        aa, bb = np.atleast_1d(a)[tuple(i)], np.atleast_1d(b)[tuple(i)]
        raise AssertionError(f"{msg}: at {i.tolist()} got {aa!r}, expected {bb!r} (rtol {rtol}, atol {atol})")


def same(a, b, msg=""):
    """Bit-for-bit equality of arrays (NaN equal to NaN)."""
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, f"{msg}: shapes {a.shape} != {b.shape}"
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        ok = np.array_equal(a, b, equal_nan=True)
    else:
        ok = np.array_equal(a, b)
    assert ok, f"{msg}: {a!r} != {b!r}"


def raises(fn, *exc):
    try:
        fn()
    except exc:
        return True
    return False
