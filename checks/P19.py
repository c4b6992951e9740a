"""Toeplitz solver against dense linear algebra."""
import numpy as np
import scipy.linalg
from hypothesis import strategies as st
from harness.core import sub
from harness.gen import seeds, fl, close, same, rng
import mass
from mass.mathstat.toeplitz import ToeplitzSolver

RULE = ("Toeplitz matrices of size 1..60 are generated as autocorrelations, diagonally dominant or generic rows; "
        "a case is non-trivial when n>=2 and the matrix is not diagonal.")
ASSUMPTIONS = ["Levinson recursion is only weakly stable, so every leading principal block is required to be well "
               "conditioned (condition number below 1e5); tolerance scales with it.",
               "numpy.linalg / scipy.linalg.toeplitz are the trusted dense reference"]


@st.composite
def matrices(draw, symmetric):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 60)))
    kind = draw(st.sampled_from(["dominant", "autocorr", "ints", "explicit"]))
    s = draw(seeds)
    m = n if symmetric else 2 * n - 1
    r = rng(s)
    if kind == "explicit" and n <= 8:
        T = draw(st.lists(st.one_of(st.integers(-5, 5), fl(-3, 3)), min_size=m, max_size=m))
    elif kind == "ints":
        T = r.randint(-4, 5, size=m).tolist()
    elif kind == "autocorr" and symmetric:
        x = r.standard_normal(4 * n + 20)
        T = [float((x[:len(x) - k] * x[k:]).sum() / len(x)) for k in range(n)]
    else:
        T = r.standard_normal(m).tolist()
    if kind in {"dominant", "ints"}:
        boost = sum(abs(t) for t in T) * 2 + 1
        if kind == "ints":
            boost = int(boost)
        T[0 if symmetric else n - 1] = boost * draw(st.sampled_from([1, -1]))
    ydt = draw(st.sampled_from(["float", "int", "list"]))
    ncol = draw(st.sampled_from([0, 0, 1, 3])) if symmetric else 0
    reuse = draw(st.integers(1, 3))
    return {"n": n, "sym": symmetric, "T": T, "ydt": ydt, "ncol": ncol, "ys": draw(seeds), "reuse": reuse}


def dense(case):
    T = np.array(case["T"], dtype=float)
    n = case["n"]
    if case["sym"]:
        return scipy.linalg.toeplitz(T)
    return np.array([[T[i - j + n - 1] for j in range(n)] for i in range(n)], dtype=float)


def worst_cond(R):
    """Largest ratio of the matrix norm to the smallest singular value of a leading block."""
    norm, c = np.linalg.norm(R, 2), 0.0
    for k in range(1, len(R) + 1):
        smin = np.linalg.svd(R[:k, :k], compute_uv=False)[-1]
        if not smin > norm * 1e-6:
            return np.inf
        c = max(c, norm / smin)
    return c


def make_T(case):
    T = case["T"]
    return np.array(T) if case["ys"] % 2 else list(T)


def rhs(case, k):
    r = rng(case["ys"] + k)
    shape = (case["n"],) if case["ncol"] == 0 else (case["n"], case["ncol"])
    if case["ydt"] == "float":
        return r.standard_normal(shape) * 10
    y = r.randint(-50, 50, size=shape)
    return y.tolist() if case["ydt"] == "list" else y


def solve(case, ctx):
    R = dense(case)
    c = worst_cond(R)
    if not c < 1e5:
        ctx.label("ill-conditioned")
        return
    ctx.nt(case["n"] >= 2 and np.any(R - np.diag(np.diag(R))))
    ctx.label(f"n{min(case['n'], 4)}", case["ydt"], f"ncol{case['ncol']}")
    T = make_T(case)
    T0 = np.array(T)
    solver = ToeplitzSolver(T, symmetric=case["sym"])
    for k in range(case["reuse"]):
        y = rhs(case, k)
        y0 = np.array(y)
        x = solver(y)
        assert x is not None, "solver returned None"
        x = np.asarray(x)
        ref = np.linalg.solve(R, np.asarray(y, dtype=float))
        assert x.shape == ref.shape, f"shape {x.shape} expected {ref.shape}"
        scale = max(np.abs(ref).max(), 1e-300)
        close(x, ref, rtol=1e-13 * c * c + 1e-9, atol=(1e-13 * c * c + 1e-10) * scale, msg="T x = y")
        same(y, y0, "right-hand side modified")
        fresh = ToeplitzSolver(T0, symmetric=case["sym"])(y0)
        close(x, fresh, rtol=1e-12, atol=1e-12 * scale, msg="reused solver differs from fresh one")
    same(np.array(T), T0, "matrix argument modified")


@sub(matrices(True), quick=1500, thorough=30000, rule="symmetric: solve, several right-hand sides, int/float/list")
def symmetric_solve(case, ctx):
    solve(case, ctx)


@sub(matrices(False), quick=1500, thorough=30000, rule="asymmetric solve")
def asymmetric_solve(case, ctx):
    solve(case, ctx)


@sub(matrices(True), quick=1000, thorough=20000, rule="mult(x) equals the dense product and inverts the solve")
def multiply(case, ctx):
    case = dict(case, ncol=0)
    R = dense(case)
    x = rhs(case, 0)
    if case["n"] > 1 and not worst_cond(R) < 1e12:
        pass    # multiplication does not need invertibility, but construction must not divide by zero
    if R[0, 0] == 0 or not worst_cond(R) < 1e6:
        ctx.label("ill-conditioned")
        return
    ctx.nt(case["n"] >= 2)
    ctx.label(case["ydt"])
    x0 = np.array(x)
    solver = ToeplitzSolver(make_T(case), symmetric=True)
    y = solver.mult(x)
    ref = R @ np.asarray(x, dtype=float)
    close(np.asarray(y, dtype=float), ref, rtol=1e-10, atol=1e-10 * (np.abs(R).max() * (np.abs(x0).max() + 1)), msg="mult")
    same(x, x0, "argument of mult modified")


@sub(st.tuples(st.integers(1, 6), st.integers(-2, 3)), quick=60, thorough=200,
     rule="wrong-length right-hand sides and even-length asymmetric specifications are refused")
def refuses_bad_shapes(case, ctx):
    n, d = case
    ctx.nt(d != 0)
    T = [10.0] + [1.0] * (n - 1)
    s = ToeplitzSolver(T, symmetric=True)
    y = np.ones(max(n + d, 1))
    if len(y) != n:
        for f in (s, s.mult):
            try:
                f(y)
            except Exception:
                pass
            else:
                raise AssertionError("a right-hand side of the wrong length was accepted")
    try:
        s(np.ones((n, 2, 2)))
    except Exception:
        pass
    else:
        raise AssertionError("3-dimensional right-hand side accepted")
