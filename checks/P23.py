"""Function algebra (mass.mathstat.derivative) against truncated Taylor-series (jet) evaluation of the same expression."""
import math
import numpy as np
import scipy.interpolate
from hypothesis import strategies as st
from harness.core import sub
from harness.gen import fl, close, same, rng, seeds
from mass.mathstat import derivative as D
from mass.mathstat.interpolate import CubicSplineFunction

RULE = ("Random expression trees (depth up to 5) over constants, x, powers, exp, log, cubic-spline leaves and numbers on either "
        "side of every operator; evaluated at positive and negative points where every intermediate value is finite, in its "
        "operation's domain and free of cancellation; non-trivial when the tree has two or more operations and 1+ usable points.")
ASSUMPTIONS = ["jets (order-3 Taylor coefficients in float64) of the unsimplified expression are the reference",
               "points where an intermediate leaves the domain (log of a value below 1e-5, non-integer power of a negative, "
               "division by ~0), or values leave [1e-4, 1e6], are not compared",
               "operands are Functions or Python numbers, as the class documentation says"]

NJ = 4   # value and three derivatives


class Bad(Exception):
    pass


LIMIT = [1e6]


def check(v):
    if not all(math.isfinite(t) for t in v[0]) or abs(v[0][0]) > LIMIT[0] or max(abs(t) for t in v[0]) > 1e9:
        raise Bad
    return v


# A jet is (coefficients c_k = f^(k)/k!, magnitudes m_k bounding the sums of absolute values)
def j_const(v):
    return ([float(v), 0, 0, 0], [abs(float(v)), 0, 0, 0])


def j_add(a, b, s=1):
    return check(([p + s * q for p, q in zip(a[0], b[0])], [p + q for p, q in zip(a[1], b[1])]))


def conv(p, q):
    return [sum(p[i] * q[k - i] for i in range(k + 1)) for k in range(NJ)]


def j_mul(a, b):
    return check((conv(a[0], b[0]), conv(a[1], b[1])))


def j_compose(outer, inner):
    """outer: function t -> Taylor coefficients at t."""
    t = inner[0][0]
    if inner[1][0] > 1e6 * abs(t) and abs(t) < 1e-4:
        raise Bad
    c = outer(t)
    d, dm = [0.0] + inner[0][1:], [0.0] + inner[1][1:]
    res, mag = [c[0], 0, 0, 0], [abs(c[0]), 0, 0, 0]
    p, pm = [1.0, 0, 0, 0], [1.0, 0, 0, 0]
    for k in range(1, NJ):
        p, pm = conv(p, d), conv(pm, dm)
        res = [r + c[k] * q for r, q in zip(res, p)]
        mag = [r + abs(c[k]) * q for r, q in zip(mag, pm)]
    return check((res, mag))


def t_pow(n):
    def f(t):
        if float(n).is_integer():
            n_ = int(n)
            if n_ < 0 and abs(t) < 1e-3:
                raise Bad
            out, co = [], 1.0
            for k in range(NJ):
                e = n_ - k
                out.append(0.0 if co == 0 else co * (t**e if (t != 0 or e >= 0) else _bad()))
                co *= (n_ - k) / (k + 1)
            return out
        if t < 1e-3:
            raise Bad
        out, co = [], 1.0
        for k in range(NJ):
            out.append(co * t**(n - k))
            co *= (n - k) / (k + 1)
        return out
    return f


def _bad():
    raise Bad


def t_exp(t):
    if t > 14 or t < -11:
        raise Bad
    e = math.exp(t)
    return [e, e, e / 2, e / 6]


def t_log(t):
    if t < 1e-4:
        raise Bad
    return [math.log(t), 1 / t, -1 / (2 * t * t), 1 / (3 * t**3)]


SPL_X = [-2.0, -0.75, 0.1, 1.3, 2.6, 4.0]


def spl_y(s):
    return np.round(rng(s).standard_normal(len(SPL_X)) * 2 + 3, 3)


def t_spl(s):
    sp = scipy.interpolate.CubicSpline(SPL_X, spl_y(s), bc_type="natural")

    def f(t):
        if min(abs(t - k) for k in SPL_X) < 1e-6:
            raise Bad
        if SPL_X[0] < t < SPL_X[-1]:
            return [float(sp(t, k)) / math.factorial(k) for k in range(NJ)]
        e = SPL_X[0] if t < 0 else SPL_X[-1]
        return [float(sp(e) + (t - e) * sp(e, 1)), float(sp(e, 1)), 0, 0]
    return f


nums = st.one_of(st.sampled_from([0, 1, -1, 2, 3, 0.5, -2.0, 0.0, 1.0]), fl(-3, 3).map(lambda v: round(v, 3)))
pows = st.sampled_from([2, 3, -1, -2, 0, 1, 0.5, 1.5, -0.5, 4, 2.0])
leaf = st.one_of(st.just(["x"]), st.just(["x"]), st.tuples(st.just("const"), nums).map(list),
                 st.tuples(st.just("pow"), pows).map(list), st.just(["exp"]), st.just(["log"]),
                 st.tuples(st.just("spl"), st.integers(0, 9)).map(list))


def extend(e):
    binop = st.tuples(st.sampled_from(["+", "-", "*", "/", "<<", ">>"]), e, e).map(list)
    mul = st.tuples(st.sampled_from(["*", "<<"]), e, e).map(list)
    rnum = st.tuples(st.sampled_from(["+n", "-n", "*n", "/n", "n+", "n-", "n*", "n/"]), e, nums).map(list)
    pw = st.tuples(st.just("**"), e, pows).map(list)
    neg = st.tuples(st.just("neg"), e).map(list)
    ar = st.sampled_from(["*", "*", "+", "-", "/"])
    # the same operand on both sides, combined with powers, constants, ...
    twice = st.builds(lambda o, o1, o2, a, l1, l2, sw: [o, [o1, a, l1], [o2, a, l2] if sw < 2 else [o2, l2, a]], ar, ar, ar, e, leaf, leaf, st.integers(0, 2))
    pows2 = st.builds(lambda o, a, p1, p2: [o, ["*", a, ["pow", p1]], ["*", a, ["pow", p2]]], ar, e, pows, pows)
    both = st.builds(lambda o, a: [o, a, a], ar, e)
    return st.one_of(binop, mul, binop, twice, pows2, both, rnum, rnum, pw, neg)


trees = st.recursive(leaf, extend, max_leaves=9)


def build(t, memo=None):
    """The Function of a tree; with a memo, equal parts are one object."""
    if memo is None:
        return build1(t, build)
    key = repr(t)
    if key not in memo:
        memo[key] = build1(t, lambda u: build(u, memo))
    return memo[key]


def build1(t, build):
    op = t[0]
    if op == "x":
        return D.Identity()
    if op == "const":
        return D.ConstantFunction(t[1])
    if op == "pow":
        return D.PowerFunction(t[1])
    if op == "exp":
        return D.ExponentialFunction()
    if op == "log":
        return D.LogFunction()
    if op == "spl":
        return CubicSplineFunction(np.array(SPL_X), spl_y(t[1]))
    a = build(t[1])
    if op == "neg":
        return -a
    if op == "**":
        return a ** t[2]
    if op.endswith("n"):
        n = t[2]
        return {"+": lambda: a + n, "-": lambda: a - n, "*": lambda: a * n, "/": lambda: a / n}[op[0]]()
    if op.startswith("n"):
        n = t[2]
        return {"+": lambda: n + a, "-": lambda: n - a, "*": lambda: n * a, "/": lambda: n / a}[op[1]]()
    b = build(t[2])
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
            "<<": lambda: a << b, ">>": lambda: a >> b}[op]()


def jet(t, arg):
    """The jet of expression t applied to the jet `arg`."""
    op = t[0]
    if op == "x":
        return arg
    if op == "const":
        return j_const(t[1])
    if op == "pow":
        return j_compose(t_pow(t[1]), arg)
    if op == "exp":
        return j_compose(t_exp, arg)
    if op == "log":
        return j_compose(t_log, arg)
    if op == "spl":
        return j_compose(t_spl(t[1]), arg)
    if op == "<<":
        return jet(t[1], jet(t[2], arg))
    if op == ">>":
        return jet(t[2], jet(t[1], arg))
    a = jet(t[1], arg)
    if op == "neg":
        return j_mul(j_const(-1), a)
    if op == "**":
        return j_compose(t_pow(t[2]), a)
    if op.endswith("n") or op.startswith("n"):
        b, op = j_const(t[2]), op
        if op.startswith("n"):
            a, b = b, a
        op = op.replace("n", "")
    else:
        b = jet(t[2], arg)
    if op == "+":
        return j_add(a, b)
    if op == "-":
        return j_add(a, b, -1)
    if op == "*":
        return j_mul(a, b)
    return j_mul(a, j_compose(t_pow(-1), b))


def size(t):
    return 1 + sum(size(u) for u in t[1:] if isinstance(u, list)) if len(t) > 1 and any(isinstance(u, list) for u in t[1:]) else 0


POINTS = [0.37, 1.7, -0.6, 2.25, -1.4, 3.1, 0.9]


def tripped(tree):
    """Divisions by a literal zero are refused by Python itself."""
    if tree[0] == "/n" and tree[2] == 0:
        return True
    return any(tripped(u) for u in tree[1:] if isinstance(u, list))


@sub(st.tuples(trees, st.sampled_from(["array", "array", "scalar", "2d", "int"])), quick=4000, thorough=60000,
     rule="value and first three derivatives (by call with der=, by derivative(k) and by repeated derivative()) equal the jet")
def expressions(case, ctx):
    tree, form = case
    LIMIT[0] = 1e3 if form == "int" else 1e6    # integer arrays: stay clear of 64-bit overflow
    x, want, mag = [], [], []
    for p in ([1, 2, -1, 3, -2] if form == "int" else POINTS):
        try:
            c, m = jet(tree, ([p, 1.0, 0, 0], [abs(p), 1.0, 0, 0]))
        except (Bad, OverflowError, ZeroDivisionError):
            continue
        x.append(p)
        want.append([c[k] * math.factorial(k) for k in range(NJ)])
        mag.append([m[k] * math.factorial(k) for k in range(NJ)])
    ops = size(tree)
    ctx.label(f"ops{min(ops, 5)}", f"points{len(x)}", form)
    ctx.nt(ops >= 2 and len(x) > 0)
    if not x:
        return
    f = build(tree, {} if form in ("array", "2d") else None)
    x = np.array(x)
    want, mag = np.array(want), np.array(mag)
    x0 = x.copy()
    with np.errstate(all="ignore"):
        g = f
        for k in range(2 if form == "int" else NJ):
            tol = 1e-6 * (mag[:, k] + np.abs(want[:, k])) + 1e-9
            for how, fn in (("der=", lambda t: f(t, der=k)), ("derivative(k)", f.derivative(k)), ("repeated", g)):
                if form == "scalar":
                    v = np.array([fn(float(t)) for t in x])
                    assert v.shape == (len(x),), f"{how} {k}: scalar argument gave {v.shape}"
                elif form == "2d":
                    v = fn(np.vstack([x, x]))
                    assert np.shape(v) == (2, len(x)), f"{how} {k}: shape {np.shape(v)}"
                    v = v[1]
                else:
                    v = fn(x)
                    assert np.shape(v) == x.shape, f"{how} {k}: shape {np.shape(v)}"
                bad = ~(np.abs(v - want[:, k]) <= tol)
                assert not bad.any(), (f"{how} order {k} of {f!r}: at x={x[bad][0]} got {v[bad][0]}, "
                                       f"expected {want[bad, k][0]}")
            if k + 1 < NJ:
                g = g.derivative()
    same(x, x0, "argument modified")
    assert isinstance(repr(f), str)


@sub(st.tuples(trees, fl(0.2, 3.0).map(lambda v: round(v, 4))), quick=1500, thorough=20000,
     rule="f << number, number >> f evaluate f; f >> g is g << f; operators leave their operands as they were")
def evaluation(case, ctx):
    tree, p = case
    LIMIT[0] = 1e6
    try:
        c, m = jet(tree, ([p, 1.0, 0, 0], [abs(p), 1.0, 0, 0]))
    except (Bad, OverflowError, ZeroDivisionError):
        return
    ctx.nt(size(tree) >= 1)
    f = build(tree, {})
    before = repr(f)
    tol = 1e-6 * (m[0] + abs(c[0])) + 1e-9
    with np.errstate(all="ignore"):
        for how, v in (("<<", f << p), (">>", p >> f), ("call", f(p))):
            assert abs(v - c[0]) <= tol, f"{how}: {v} expected {c[0]}"
        _ = [f + f, f * 2.0, 2.0 * f, 1 - f, f - 1, f ** 2, -f, f + 3, f.derivative(2)]
        assert abs((f + f)(p) - 2 * c[0]) <= 4 * tol
        assert abs((f - f)(p)) <= 4 * tol
        assert abs((f * 2.0 + 1)(p) - (2 * c[0] + 1)) <= 4 * tol
    assert repr(f) == before, "an operand was modified"


@sub(st.tuples(trees, st.sampled_from(["abc", [1, 2], None])), quick=60, thorough=200, rule="foreign operands are refused, not mis-evaluated")
def refuses(case, ctx):
    tree, other = case
    f = build(tree)
    ctx.nt()
    for op in (lambda: other + f, lambda: other - f, lambda: other * f, lambda: other / f):
        try:
            op()
        except (NotImplementedError, TypeError):
            continue
        raise AssertionError(f"{other!r} was accepted as an operand")
