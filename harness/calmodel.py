"""Independent reference for energy-calibration curves."""
import numpy as np
import scipy.interpolate


class NatSpline:
    """Natural cubic spline with linear extrapolation (a line for two knots)."""

    def __init__(self, x, y):
        o = np.argsort(x)
        self.x, self.y = np.asarray(x, float)[o], np.asarray(y, float)[o]
        self.s = scipy.interpolate.CubicSpline(self.x, self.y, bc_type="natural")

    def __call__(self, q):
        q = np.asarray(q, float)
        out = self.s(q)
        for m, e in ((q < self.x[0], self.x[0]), (q > self.x[-1], self.x[-1])):
            out = np.where(m, self.s(e) + (q - e) * self.s(e, 1), out)
        return out


def transform(curve, ph, e):
    """(x, y) of the underlying spline."""
    ph, e = np.asarray(ph, float), np.asarray(e, float)
    if curve == "loglog":
        return np.log(ph), np.log(e)
    if curve == "linear":
        return ph, e
    if curve == "linear+0":
        return np.append(0.0, ph), np.append(0.0, e)
    if curve == "gain":
        return ph, ph / e
    if curve == "invgain":
        return ph, e / ph
    return ph, np.log(ph / e)


def untransform(curve, S):
    if curve == "loglog":
        return lambda p: np.exp(S(np.log(np.clip(np.asarray(p, float), 1e-6, None))))
    if curve.startswith("linear"):
        return lambda p: S(np.asarray(p, float))
    if curve == "gain":
        return lambda p: np.asarray(p, float) / S(p)
    if curve == "invgain":
        return lambda p: np.asarray(p, float) * S(p)
    return lambda p: np.asarray(p, float) * np.exp(-S(p))


def exact_curve(curve, ph, e, nonlin):
    """The exact E(PH) curve, or None where the library declines (one point, some curve types)."""
    n = len(ph)
    if n == 0:
        return lambda p: np.asarray(p, float) * 1.0
    if n == 1:
        if curve == "loglog":
            return lambda p: e[0] * (np.asarray(p, float) / ph[0])**nonlin
        if curve in {"gain", "invgain"}:
            return lambda p: np.asarray(p, float) * (e[0] / ph[0])
        return None
    return untransform(curve, NatSpline(*transform(curve, ph, e)))


CURVES = ["loglog", "linear", "linear+0", "gain", "invgain", "loggain"]
