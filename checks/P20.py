"""Robust statistics against brute-force definitions."""
import itertools
import numpy as np
from hypothesis import strategies as st
from harness.core import sub
from harness.gen import seeds, fl, close, same, rng, samples
from mass.mathstat import robust

RULE = ("Samples of 1..60 values with ties, outliers, integers and floats; non-trivial when the sample has at least 3 "
        "values that are not all equal.")
ASSUMPTIONS = ["the definitions are those of the docstrings and the papers they cite (shorth: shortest interval holding "
               "floor(n/2)+1 points; Q: the h(h-1)/2-th smallest pairwise distance with the tabulated factors)",
               "iterative means: the documented re-weighting iteration, 100 rounds at most"]

data = st.tuples(samples(1, 40), st.sampled_from(["float", "list", "int"]))


def mk(case):
    v, kind = case[0], case[1]
    if kind == "int":
        return np.array([int(round(min(max(t, -1e9), 1e9))) for t in v])
    if kind == "list":
        return list(v)
    return np.array(v, dtype=float)


def interesting(x):
    return len(x) >= 3 and len(set(np.asarray(x).tolist())) > 1


def scale_of(x):
    return float(np.abs(np.asarray(x, dtype=float)).max()) + 1e-12


@sub(data, quick=2500, thorough=60000, rule="median absolute deviation and trimean: value, order, input unchanged")
def mad_trimean(case, ctx):
    x = mk(case)
    ctx.nt(interesting(x))
    ctx.label(case[1])
    x0 = np.array(x)
    s = sorted(x0.tolist())
    n = len(s)
    med = (s[(n - 1) // 2] + s[n // 2]) / 2
    dev = sorted(abs(t - med) for t in s)
    mad = (dev[(n - 1) // 2] + dev[n // 2]) / 2
    sc = scale_of(x)
    close(robust.median_abs_dev(x), mad, rtol=1e-12, atol=1e-13 * sc, msg="MAD")
    close(robust.median_abs_dev(x, normalize=True), mad / 0.674480, rtol=1e-12, atol=1e-13 * sc, msg="normalized MAD")

    def q(p):
        k = (n - 1) * p
        i = int(np.floor(k))
        j = min(i + 1, n - 1)
        return s[i] + (k - i) * (s[j] - s[i])
    close(robust.trimean(x), 0.25 * (q(.25) + q(.75)) + 0.5 * med, rtol=1e-12, atol=1e-12 * sc, msg="trimean")
    same(np.array(x), x0, "input modified")


@sub(data, quick=2500, thorough=60000, rule="shorth range, mean, centre against all intervals; normalisation; in-place flag")
def shorth(case, ctx):
    x = mk(case)
    n = len(x)
    ctx.nt(interesting(x))
    ctx.label(f"n%4={n % 4}")
    x0 = np.array(x)
    s = np.sort(x0)
    h = n // 2 + 1
    ranges = [s[i + h - 1] - s[i] for i in range(n - h + 1)]
    best = min(ranges)
    sc = scale_of(x)
    close(robust.shorth_range(x), best, rtol=1e-12, msg="shorth range")
    same(np.array(x), x0, "input modified")
    r, mean, cent = robust.shorth_range(x, location=True)
    close(r, best, rtol=1e-12, msg="shorth range with location")
    ok = any(abs(s[i:i + h].mean() - mean) <= 1e-12 * sc and abs((s[i] + s[i + h - 1]) / 2 - cent) <= 1e-12 * sc
             for i, rr in enumerate(ranges) if rr <= best * (1 + 1e-12) + 1e-300)
    assert ok, f"shorth location ({mean}, {cent}) is not that of a shortest half"
    if n >= 2:
        corr = (n + 1.0) / n if n % 2 == 0 else (n + 1.0) / (n - 1.0)
        close(robust.shorth_range(x, normalize=True), best / (2 * .674480) * corr, rtol=1e-12, msg="normalized shorth")
    if isinstance(x, np.ndarray):
        y = x.copy()
        close(robust.shorth_range(y, sort_inplace=True), best, rtol=1e-12, msg="in place")
        same(np.sort(y), s, "in-place call changed the multiset")
    else:
        try:
            robust.shorth_range(x, sort_inplace=True)
        except ValueError:
            pass
        else:
            raise AssertionError("sort_inplace accepted for a non-array")


@sub(st.tuples(st.lists(st.tuples(st.integers(-6, 6), st.integers(0, 8)), min_size=1, max_size=30),
               st.booleans(), st.sampled_from([1.0, 0.25, 3.0])), quick=3000, thorough=60000,
     rule="weighted high median: smallest value whose cumulated weight exceeds half the total")
def high_median(case, ctx):
    pairs, weighted, f = case
    x = np.array([p[0] * f for p in pairs])
    w = np.array([p[1] for p in pairs], dtype=float) if weighted else np.ones(len(x))
    if w.sum() == 0:
        w[0] = 1.0
    ctx.nt(interesting(x))
    ctx.label("weighted" if weighted else "plain")
    x0, w0 = x.copy(), w.copy()
    tot = w.sum()
    ref = min(v for v in x if w[x <= v].sum() > tot / 2)
    got = robust.high_median(x, weights=w if weighted else None)
    assert got == ref, f"high median {got}, expected {ref}"
    v, i = robust.high_median(x, weights=w if weighted else None, return_index=True)
    assert v == ref and x[i] == ref, f"index form ({v}, {i})"
    lst = robust.high_median(x.tolist(), weights=w.tolist() if weighted else None)
    assert lst == ref, "list input"
    same(x, x0, "x modified")
    same(w, w0, "weights modified")


def q_factor(n):
    if n <= 9:
        return 2.2219 * [0, 0, .399, .994, .512, .844, .611, .857, .669, .872][n]
    return 2.2219 * (n / (n + 1.4) if n % 2 else n / (n + 3.8))


def brute_q(x):
    x = np.asarray(x, dtype=float)
    n = len(x)
    h = n // 2 + 1
    k = h * (h - 1) // 2
    d = np.sort(np.abs(x[:, None] - x[None, :])[np.triu_indices(n, 1)])
    return d[k - 1] * q_factor(n)


@sub(st.tuples(samples(2, 40), st.sampled_from(["float", "list", "int"])), quick=4000, thorough=100000,
     rule="Qscale equals the brute-force order statistic; order independent; input unchanged")
def qscale(case, ctx):
    x = mk(case)
    n = len(x)
    ctx.nt(n > 5 and interesting(x))
    ctx.label("small" if n <= 5 else "large", case[1])
    x0 = np.array(x)
    ref = brute_q(x0)
    sc = scale_of(x)
    got = robust.Qscale(x)
    close(got, ref, rtol=1e-10, atol=4e-15 * sc, msg="Qscale")
    same(np.array(x), x0, "input modified")
    close(robust.Qscale(x0[::-1].copy()), ref, rtol=1e-10, atol=4e-15 * sc, msg="reversed Qscale")
    y = x0.copy()
    close(robust.Qscale(y, sort_inplace=True), ref, rtol=1e-10, atol=4e-15 * sc, msg="in-place Qscale")
    same(np.sort(y), np.sort(x0), "in-place call changed the multiset")


@sub(st.tuples(st.integers(41, 400), seeds, st.integers(0, 2), fl(0.01, 1e4), fl(-1e5, 1e5)), quick=250, thorough=4000,
     rule="larger samples: brute force, and shift/scale equivariance of every estimator")
def equivariance(case, ctx):
    n, s, kind, a, b = case
    r = rng(s)
    x = [r.standard_normal(n), r.standard_cauchy(n), np.round(r.standard_normal(n), 1)][kind]
    ctx.nt()
    ctx.label(f"kind{kind}")
    y = a * x + b
    sc = scale_of(y)
    close(robust.Qscale(x), brute_q(x), rtol=1e-9, atol=1e-12 * scale_of(x), msg="Qscale, large sample")
    for nm, f in [("mad", robust.median_abs_dev), ("shorth", robust.shorth_range), ("Q", robust.Qscale)]:
        close(f(y), a * f(x), rtol=1e-8, atol=1e-11 * sc, msg=f"{nm} scale/shift equivariance")
        close(f(-y), f(y), rtol=1e-8, atol=1e-11 * sc, msg=f"{nm} reflection")
    close(robust.trimean(y), a * robust.trimean(x) + b, rtol=1e-9, atol=1e-11 * sc, msg="trimean equivariance")
    sig = float(robust.median_abs_dev(x, normalize=True))
    if sig > 0:
        for nm, f, k in [("bisquare", robust.bisquare_weighted_mean, 4.0), ("huber", robust.huber_weighted_mean, 1.2)]:
            if 1e-9 * sig * a < 1e-12 * sc or iterate(x, k * sig, float(np.median(x)), 1e-9 * sig, nm)[1] > 80:
                ctx.label("slow-iteration")
                continue
            c = f(x, k * sig, tol=1e-9 * sig)
            close(f(y, k * sig * a, tol=1e-9 * sig * a), a * c + b, rtol=1e-8, atol=1e-6 * sig * a + 1e-10 * sc,
                  msg=f"{nm} mean equivariance")


def iterate(x, k, center, tol, kind):
    x = np.asarray(x, dtype=float)
    for it in range(100):
        u = np.abs(x - center)
        if kind == "bisquare":
            w = np.where(u > k, 0.0, (1 - (u / k)**2)**2)
        else:
            w = np.minimum(1.0, k / np.where(u > 0, u, 1e-300))
        sw = w.sum()
        new = (w * x).sum() / sw if sw != 0 else np.nan
        if abs(new - center) <= tol:
            return new, it
        center = new
    return None, 100


@sub(st.tuples(samples(1, 30), fl(0.3, 5.0), st.sampled_from(["bisquare", "huber"]), st.booleans(), st.booleans(),
               fl(-1, 1)), quick=2500, thorough=50000,
     rule="weighted means follow the documented iteration and end at a fixed point; constant data included")
def weighted_means(case, ctx):
    v, kf, kind, give_center, give_tol, off = case
    x = np.array(v, dtype=float)
    med = float(np.median(x))
    mad = float(np.median(np.abs(x - med)))
    spread = mad / 0.67448 if mad > 0 else 1.0
    k = kf * spread
    center = med + off * spread if give_center else None
    tol = 1e-6 * spread if give_tol else None
    f = robust.bisquare_weighted_mean if kind == "bisquare" else robust.huber_weighted_mean
    t = tol if give_tol else 1e-5 * mad / 0.674480
    ref, its = iterate(x, k, center if give_center else med, t, kind)
    x0 = x.copy()
    ctx.label(kind, "mad0" if mad == 0 else "spread", "diverges" if ref is None else "converges")
    ctx.nt(interesting(x))
    if t < 1e-14 * scale_of(x) and t > 0:
        return                      # the tolerance is below rounding: either outcome is legitimate
    if mad == 0 and not give_tol and len(set(v)) > 1:
        return                      # zero tolerance: convergence to the last bit is not promised
    try:
        got = f(x, k, center=center, tol=tol)
    except RuntimeError:
        assert ref is None or its >= 97, f"{kind} mean did not converge; the iteration converges to {ref} in {its} rounds"
        return
    same(x, x0, "input modified")
    if ref is None:
        return
    close(got, ref, rtol=1e-9, atol=2 * t + 1e-11 * scale_of(x), msg=f"{kind} mean")
