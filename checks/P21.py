"""Laplace-kernel entropies against numerical integration of their definitions."""
import numpy as np
from hypothesis import strategies as st
from harness.core import sub
from harness.gen import seeds, fl, close, same, rng, samples, logfl
from mass.mathstat import entropy

RULE = ("Samples of 1..30 values and kernel widths from tiny to huge relative to the gaps; non-trivial when there are at "
        "least two distinct values.")
ASSUMPTIONS = ["reference integrals: piecewise Gauss-Legendre quadrature between all kinks of the density, tails to 60 widths",
               "cross-entropy's reference density is the top-hat kernel density (half width sqrt(6) w) mixed with the floor 1/sqrt(Ny+3) "
               "spread over the node range plus 10 w on both sides, as the docstring and code comments state"]

GLX, GLW = np.polynomial.legendre.leggauss(24)


def kde(u, x):
    """Laplace KDE in units of w (x sorted or not)."""
    return np.exp(-np.abs(u[:, None] - x[None, :])).mean(axis=1) * 0.5


def integrate(f, nodes, width=None):
    """Integral of f over [nodes[0]-60, nodes[-1]+60], kinks at nodes, pieces no longer than 2."""
    nodes = np.unique(nodes)
    edges = [nodes[0] - 60.0]
    for b in list(nodes) + [nodes[-1] + 60.0]:
        a = edges[-1]
        if b - a > 130:
            # a very long gap: the density is negligible in the middle; integrate 60 on each side
            m1, m2 = a + 60.0, b - 60.0
            edges.extend(np.linspace(a, m1, 31)[1:])
            edges.append(m2)
            edges.extend(np.linspace(m2, b, 31)[1:])
        else:
            n = max(1, int(np.ceil((b - a) / 2.0)))
            edges.extend(np.linspace(a, b, n + 1)[1:])
    e = np.array(edges)
    mid, half = 0.5 * (e[1:] + e[:-1]), 0.5 * (e[1:] - e[:-1])
    # pieces of essentially empty long gaps carry < exp(-60)
    keep = half < 1.01
    u = (mid[keep][:, None] + half[keep][:, None] * GLX[None, :])
    v = f(u.ravel()).reshape(u.shape)
    return float((v * GLW[None, :]).sum(axis=1) @ half[keep])


def ref_entropy(x, w):
    y = np.asarray(x, dtype=float) / w

    def f(u):
        p = kde(u, y)
        return np.where(p > 0, -p * np.log(np.where(p > 0, p, 1)), 0)
    # minimum of each gap is smooth; kinks only at data
    return integrate(f, y) + np.log(w)


@st.composite
def ent_case(draw, maxn=25):
    x = draw(samples(1, maxn))
    w = draw(st.one_of(logfl(1e-3, 1e3), st.sampled_from([1.0, 0.5, 2.0]), logfl(1e-6, 1e6)))
    return {"x": x, "w": w, "kind": draw(st.sampled_from(["float", "list", "perm"])), "s": draw(seeds)}


@sub(ent_case(), quick=2000, thorough=40000, rule="exact entropy equals quadrature; order; translation; scale")
def entropy_exact(case, ctx):
    x = np.array(case["x"], dtype=float)
    w = case["w"]
    ctx.nt(len(np.unique(x)) > 1)
    span = (x.max() - x.min()) / w
    ctx.label("far" if span > 700 else "near")
    if span > 1e7 or np.abs(x).max() / w > 1e8:
        ctx.label("too-fine")      # quadrature nodes lose precision: only finiteness is checked
        assert np.isfinite(entropy.laplace_entropy(x, w, approx_mode="exact"))
        return
    arg = list(case["x"]) if case["kind"] == "list" else x.copy()
    got = entropy.laplace_entropy(arg, w, approx_mode="exact")
    ref = ref_entropy(x, w)
    tol = 1e-7 + 1e-10 * abs(ref)
    assert abs(got - ref) < tol, f"entropy {got}, quadrature {ref}"
    same(np.array(arg, dtype=float), x, "input modified")
    assert abs(entropy.laplace_entropy(x, w) - got) < 1e-12 + 1e-12 * abs(got), "default mode differs for a small sample"
    p = rng(case["s"]).permutation(x)
    assert abs(entropy.laplace_entropy(p, w, approx_mode="exact") - got) < 1e-9 * (1 + abs(got)), "depends on order"
    # translation by a dyadic amount, scale by a power of two: exact relations
    d = 2.0**np.round(np.log2(w + np.abs(x).max()))
    tr = entropy.laplace_entropy(x + d, w, approx_mode="exact")
    assert abs(tr - got) < 1e-7 * (1 + abs(got)) + 1e-13 * d / w, f"translation changed the entropy {got} -> {tr}"
    sc = entropy.laplace_entropy(x * 4, 4 * w, approx_mode="exact")
    assert abs(sc - (got + np.log(4))) < 1e-8 * (1 + abs(got)), f"scaling by 4: {sc} vs {got}+log 4"


@sub(st.tuples(samples(1, 200), fl(0.05, 3.0), seeds), quick=400, thorough=6000,
     rule="approximate entropy close to the exact one on moderate samples")
def entropy_approx(case, ctx):
    x, wf, s = case
    x = np.array(x, dtype=float)
    span = x.max() - x.min()
    w = wf * (span / 10 if span > 0 else 1.0)
    ctx.nt(len(np.unique(x)) > 1)
    ex = entropy.laplace_entropy(x, w, approx_mode="exact")
    ap = entropy.laplace_entropy(x, w, approx_mode="approx")
    ctx.label("err<.003" if abs(ex - ap) < .003 else "err<.02" if abs(ex - ap) < .02 else "err>=.02")
    assert abs(ex - ap) < 0.06, f"approximate entropy {ap}, exact {ex}"


def ref_cross(x, y, w):
    X, Y = np.asarray(x, dtype=float) / w, np.asarray(y, dtype=float) / w
    hw = np.sqrt(6.0)
    nodes = np.concatenate([X, Y - hw, Y + hw])
    ny = len(Y)
    qs = 1 / np.sqrt(ny + 3)
    qmin = qs / (nodes.max() - nodes.min() + 20)
    step = (1 - qs) / (ny * 2 * hw)

    # closed form piecewise: between consecutive nodes q is constant and the mass of p is a CDF difference
    def cdf(u):
        d = u[:, None] - X[None, :]
        return np.where(d < 0, 0.5 * np.exp(np.minimum(d, 0)), 1 - 0.5 * np.exp(-np.maximum(d, 0))).mean(axis=1)

    def mass(a, b):
        # integral of p over [a,b] without cancellation
        tot = np.zeros(len(a))
        for x0 in X:
            lo, hi = a - x0, b - x0
            left = 0.5 * (np.exp(np.minimum(hi, 0)) - np.exp(np.minimum(lo, 0)))
            right = 0.5 * (np.exp(-np.maximum(lo, 0)) - np.exp(-np.maximum(hi, 0)))
            tot += left + right
        return tot / len(X)
    e = np.unique(nodes)
    H = -(0.5 * np.exp(e[0] - X)).mean() * np.log(qmin) - (0.5 * np.exp(X - e[-1])).mean() * np.log(qmin)
    if len(e) > 1:
        a, b = e[:-1], e[1:]
        mid = 0.5 * (a + b)
        q = qmin + step * (np.abs(mid[:, None] - Y[None, :]) < hw).sum(axis=1)
        H -= (mass(a, b) * np.log(q)).sum()
    return H + np.log(w)


@sub(st.tuples(samples(1, 25), samples(1, 25), logfl(1e-3, 1e3), seeds), quick=2500, thorough=50000,
     rule="cross-entropy equals its piecewise integral; divergence is cross-entropy minus entropy; order independent")
def cross_entropy(case, ctx):
    x, y, w, s = case
    x, y = np.array(x, dtype=float), np.array(y, dtype=float)
    ctx.nt(len(np.unique(x)) > 1 and len(np.unique(y)) > 1)
    if max(np.abs(x).max(), np.abs(y).max()) / w > 1e8:
        ctx.label("too-fine")
        assert np.isfinite(entropy.laplace_cross_entropy(x, y, w, approx_mode="exact"))
        return
    ref = ref_cross(x, y, w)
    x0, y0 = x.copy(), y.copy()
    got = entropy.laplace_cross_entropy(x, y, w, approx_mode="exact")
    assert abs(got - ref) < 1e-6 + 1e-8 * abs(ref), f"cross entropy {got}, reference {ref}"
    same(x, x0, "x modified")
    same(y, y0, "y modified")
    assert abs(entropy.laplace_cross_entropy(x, y, w) - got) < 1e-10 * (1 + abs(got)), "default mode differs"
    r = rng(s)
    g2 = entropy.laplace_cross_entropy(r.permutation(x).tolist(), r.permutation(y).tolist(), w, approx_mode="exact")
    assert abs(g2 - got) < 1e-8 * (1 + abs(got)), "depends on order"
    kl = entropy.laplace_KL_divergence(x, y, w, approx_mode="exact")
    h = entropy.laplace_entropy(x, w, approx_mode="exact")
    assert abs(kl - (got - h)) < 1e-9 * (1 + abs(got) + abs(h)), f"KL {kl} != {got} - {h}"


def approx_cross_ref(x, y, w):
    """-integral p log q with both densities Laplace KDEs; q floored at exp(-15) of its peak kernel."""
    X, Y = x / w, y / w

    def f(u):
        p = kde(u, X)
        q = np.maximum(kde(u, Y), np.exp(-15.0) / (2 * len(Y)))
        return -p * np.log(q)
    lo, hi = min(X.min(), Y.min()) - 5, max(X.max(), Y.max()) + 5
    g = np.linspace(lo, hi, 40 * int(hi - lo + 1) + 1)
    v = f(g)
    return float(np.sum(0.5 * (v[1:] + v[:-1]) * np.diff(g))) + np.log(w)


@sub(st.tuples(st.integers(20, 300), st.integers(20, 300), seeds, fl(0.2, 2.0), fl(-2, 2)), quick=250, thorough=4000,
     rule="binned cross-entropy close to the integral of the two Laplace densities")
def cross_approx(case, ctx):
    nx, ny, s, w, off = case
    r = rng(s)
    x, y = r.standard_normal(nx), r.standard_normal(ny) + off
    ctx.nt()
    got = entropy.laplace_cross_entropy(x, y, w, approx_mode="approx")
    ref = approx_cross_ref(x, y, w)
    d = abs(got - ref)
    ctx.label("err<.01" if d < .01 else "err<.05" if d < .05 else "err>=.05")
    assert d < 0.15, f"approximate cross entropy {got}, integral {ref}"


@sub(st.tuples(st.sampled_from([0.0, -1.0]), st.booleans()), quick=6, thorough=6,
     rule="empty samples and non-positive widths are refused")
def refusals(case, ctx):
    w, empty = case
    ctx.nt()
    for f in (lambda: entropy.laplace_entropy([] if empty else [1.0], 1.0 if empty else w),
              lambda: entropy.laplace_cross_entropy([] if empty else [1.0], [1.0], 1.0 if empty else w),
              lambda: entropy.laplace_cross_entropy([1.0], [] if empty else [1.0], 1.0 if empty else w)):
        try:
            f()
        except ValueError:
            continue
        raise AssertionError("invalid arguments accepted")


@sub(st.fixed_dictionaries({"n": st.sampled_from([5, 1000, 199_999, 200_000, 200_001, 230_000]), "m": st.sampled_from([1, 40, 1000, 90_000, 150_000]), "w": st.sampled_from([.01, .1, 2.0]), "d": st.sampled_from([-1, 0, 1, 700]), "fit": st.booleans(), "s": seeds}),
     quick=25, thorough=400, rule="the mode chosen by the size of the samples; non-trivial: more than 200,000 values, or exactly as many")
def modes(c, ctx):
    r = rng(c["s"])
    n, m = c["n"], c["m"]
    if c["fit"]:        # the limit counts both samples
        n = max(200_000 - m + c["d"], 1)
    x, y = r.standard_normal(n), r.standard_normal(m) + .3
    ctx.nt(n + m >= 200_000)
    w = c["w"]
    one = "exact" if n <= 200_000 else "approx"
    two = "exact" if n + m <= 200_000 else "approx"
    ctx.label(f"{one}/{two}")
    a = {k: entropy.laplace_entropy(x, w, approx_mode=k) for k in ("exact", "approx", "size")}
    b = {k: entropy.laplace_cross_entropy(x, y, w, approx_mode=k) for k in ("exact", "approx", "size")}
    d = {k: entropy.laplace_KL_divergence(x, y, w, approx_mode=k) for k in ("exact", "approx", "size")}
    assert entropy.laplace_entropy(x, w) == a["size"] == a[one], f"entropy of {n} values: {a}"
    assert entropy.laplace_cross_entropy(x, y, w) == b["size"] == b[two], f"cross entropy of {n} and {m} values: {b}"
    assert entropy.laplace_KL_divergence(x, y, w) == d["size"] == d[two], f"divergence of {n} and {m} values: {d}"
    for k in ("exact", "approx"):
        assert abs(d[k] - (b[k] - a[k])) < 1e-12 * (1 + abs(b[k]) + abs(a[k])), f"divergence ({k}) is not the difference of the entropies"
    if n > 1000 and w >= .1:
        assert abs(a["exact"] - a["approx"]) < .02, f"entropies of {n} values: {a}"
