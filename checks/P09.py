"""P09: filtered pulse heights are the filter's projection of each record."""
import os

import h5py
import numpy as np
from hypothesis import strategies as st

from harness import ljh, offw
from harness.core import sub
from harness.gen import seeds, rng, close, same, raises
import mass
from mass.core.analysis_algorithms import filter_data_5lag_cython
from mass.core.optimal_filtering import FilterMaker
from mass.core.pulse_model import PulseModel

RULE = "Each case is a set of records with a filter; the height and phase of every record are recomputed from the definition."
ASSUMPTIONS = ["the parabola is the least-squares one through five lags; records whose five lags have no curvature have no defined height",
               "float32 results are compared within single precision, allowing for cancellation"]


def lags(x, f):
    x = np.asarray(x, float)
    return np.array([[np.dot(v[i:i + len(f)], f) for i in range(5)] for v in x]).reshape(-1, 5)


def parabola(c):
    """Least-squares parabola through each row of five values: (height, position of the extremum, error scale)."""
    V = np.vander(np.arange(-2, 3), 3).astype(float)  # x^2, x, 1
    p = np.linalg.lstsq(V, c.T, rcond=None)[0]
    with np.errstate(all="ignore"):
        return p[2] - p[1] ** 2 / 4 / p[0], -p[1] / 2 / p[0], p


def check5(fv, fp, x, f, what, single=True, prec=3e-13):
    """Heights fv and phases fp against the definition, with an error bound from the cancellation in the lags."""
    c = lags(x, f)
    v, ph, p = parabola(c)
    eps = prec * (np.abs(np.asarray(x, float)) @ np.ones(np.shape(x)[1])) * np.abs(f).max() + 1e-300
    with np.errstate(all="ignore"):
        ok = np.abs(p[0]) > 1e3 * eps
        dp = eps / np.abs(p[0])
        tv = eps * (2 + np.abs(ph) + ph ** 2) * 3 + (1e-6 * np.abs(v) if single else 0)
        tp = dp * (1 + np.abs(ph)) * 3 + (1e-6 * np.abs(ph) if single else 0)
    assert len(fv) == len(fp) == len(x)
    for i in np.nonzero(ok)[0]:
        close(fv[i], v[i], 1e-12, tv[i], f"{what}: height of record {i} of {len(x)}")
        close(fp[i], ph[i], 1e-12, tp[i], f"{what}: phase of record {i} of {len(x)}")
    return ok


def rawdata(r, n, ns, npre, kind):
    if kind == "random":
        return r.randint(0, 65536, (n, ns)).astype(np.uint16)
    if kind == "mixed" and n:
        x = ljh.pulses(r, n, ns, npre, base=int(r.choice([0, 1000, 50000])), noise=float(r.choice([0, 3])))[0]
        x[r.randint(n)] = r.choice([0, 7, 65535])
        x[r.randint(n)] = r.randint(0, 65536, ns)
        return x
    return ljh.pulses(r, n, ns, npre, base=int(r.choice([0, 1000, 30000])), noise=float(r.choice([0, 3])))[0]


def weights(r, n, kind):
    if kind == "random":
        return r.standard_normal(n)
    t = np.arange(n) - n // 4
    f = np.where(t > 0, np.exp(-t / 8.) - np.exp(-t / 2.), 0) + 1e-4 * r.standard_normal(n)
    return (f - f.mean()) * r.choice([1, 1e-3, 40])


@sub(st.fixed_dictionaries({"n": st.integers(0, 12), "ns": st.integers(8, 60), "data": st.sampled_from(["random", "pulses", "mixed"]), "f": st.sampled_from(["random", "pulse"]), "k": st.integers(2, 5), "s": seeds}),
     quick=1500, thorough=50000, rule="the compiled 5-lag kernel; non-trivial: at least two records")
def kernel(c, ctx):
    r = rng(c["s"])
    ns, n = c["ns"], c["n"]
    ctx.nt(n > 1)
    x = rawdata(r, n, ns, ns // 4, c["data"])
    f = weights(r, ns - 4, c["f"])
    kx, kf = x.copy(), f.copy()
    fv, fp = filter_data_5lag_cython(x, f)
    same(x, kx, "data")
    same(f, kf, "filter")
    ok = check5(fv, fp, x, f, "kernel", single=False)
    # each record on its own, in another order, and with a read-only or strided array
    p = r.permutation(n)
    v2, p2 = filter_data_5lag_cython(x[p], f)
    same(v2, fv[p], "heights in another order")
    same(p2, fp[p], "phases in another order")
    big = np.zeros((2 * n, ns), np.uint16)
    big[::2] = x
    big.setflags(write=False)
    v3, p3 = filter_data_5lag_cython(big[::2], f)
    same(v3, fv, "heights of strided records")
    # linear: k times the weights, or a dead record
    v4, p4 = filter_data_5lag_cython(x, f * 2.0 ** c["k"])
    same(v4[ok], fv[ok] * 2.0 ** c["k"], "heights with scaled weights")
    same(p4[ok], fp[ok], "phases with scaled weights")
    for bad in (f[:-1], np.append(f, 0)):
        assert raises(lambda: filter_data_5lag_cython(np.ascontiguousarray(x), bad), ValueError), f"filter of length {len(bad)} accepted for records of {ns}"


TRANSFORMS = {None: None, "square": lambda d: d + d ** 2 / 3e4, "log": lambda d: np.arcsinh(d / 3000) * 3000, "identity": lambda d: d * 1.0}


@sub(st.fixed_dictionaries({"ns": st.integers(14, 50), "n": st.lists(st.integers(1, 14), min_size=1, max_size=3), "type": st.sampled_from(["5lag", "5lag", "ats", "ats", "ats1"]), "cy": st.sampled_from([None, None, False, True]),
                            "tr": st.sampled_from([None, None, "square", "log", "identity"]), "seg": st.integers(1, 15), "data": st.sampled_from(["pulses", "pulses", "mixed", "random"]), "invert": st.booleans(), "tail": st.sampled_from([0, 0, 1, 17]),
                            "how": st.sampled_from(["group", "each"]), "sh": st.booleans(), "s": seeds}),
     quick=900, thorough=30000, rule="filter_data for the channels of a group, in segments; non-trivial: several segments")
def channels(c, ctx):
    r = rng(c["s"])
    ns = c["ns"]
    npre = ns // 3
    chans, filt = {}, {}
    for k, n in enumerate(c["n"]):
        x = rawdata(r, n, ns, npre, c["data"])
        chans[k * 3 + 2] = {"data": ~x if c["invert"] else x, "truth": x, "hdr": {"tail": b"x" * c["tail"]}}
        m = {"5lag": ns - 4, "ats": ns - 1, "ats1": ns}[c["type"]]
        filt[k * 3 + 2] = weights(r, m, "pulse"), weights(r, m, "random") * .01
    g = ljh.tesgroup(ctx.dir, chans, hkw={"npre": npre}, invert_data=c["invert"])
    try:
        g.set_segment_size(c["seg"] * (16 + 2 * ns) + int(r.randint(0, 16)))
        ctx.nt(max(c["n"]) > c["seg"])
        g.summarize_data()
        assert len(g.good_channels) == len(c["n"]), f"good channels {g.good_channels}"
        tr = TRANSFORMS[c["tr"]]

        def install(scale=1.0):
            for ds in g.datasets:
                v, d = filt[ds.channum]
                t = "5lag" if c["type"] == "5lag" else "ats"
                ds.filter = mass.Filter(v * scale, 1.0, 1.0, 1.0, None if t == "5lag" else d, None, None, None, 5 if t == "5lag" else 1, _filter_type=t)
                ds._filter_type = t

        def run(**kw):
            if c["how"] == "group":
                g.filter_data(_rethrow=True, **kw)
            else:
                for ds in g.datasets:
                    ds.filter_data(**kw)

        phases = []
        if c["sh"]:
            for ds in g.datasets:
                ds.p_shift1[:] = r.randint(0, 2, ds.nPulses).astype(bool)

        def expected(ds, scale=1.0):
            x = chans[ds.channum]["truth"]
            v, d = filt[ds.channum]
            y = x.astype(float)
            if tr is not None:
                y = tr(y - ds.p_pretrig_mean[:][:, None])
            if c["type"] == "5lag":
                check5(ds.p_filt_value[:], ds.p_filt_phase[:], y, v * scale, f"chan {ds.channum}", prec=3e-13 if tr is None else 1e-6)
                return
            if c["type"] == "ats":
                sh = ds.p_shift1[:]
                z = np.where(sh[:, None], y[:, :-1], y[:, 1:])
            else:
                z = y
            h, t = z @ (v * scale), z @ d
            prec = 1e-12 if tr is None else 1e-6
            tol = 1e-6 * (np.abs(h)) + prec * np.abs(z) @ np.abs(v * scale)
            for i in range(len(h)):
                close(ds.p_filt_value[i], h[i], 0, tol[i], f"chan {ds.channum} height {i}")
                eh, et = prec * (np.abs(z[i]) @ np.abs(v * scale)), prec * (np.abs(z[i]) @ np.abs(d))
                if np.abs(h[i]) > 20 * eh:
                    ph = t[i] / h[i]
                    close(ds.p_filt_phase[i], ph, 2e-6, 2 * (et + abs(ph) * eh) / abs(h[i]), f"chan {ds.channum} phase {i}")
                    phases.append(1)

        install()
        kw = {"transform": tr} if tr else {}
        if c["cy"] is not None:
            kw["use_cython"] = c["cy"]
        if c["cy"] and (c["type"] != "5lag" or tr is not None):
            assert raises(lambda: g.datasets[0].filter_data(**kw), ValueError), "compiled filtering of an unsupported kind"
            return
        run(**kw)
        for ds in g.datasets:
            expected(ds)
        ctx.label(*(["phases compared"] if phases else []), *(["phases with transform"] if phases and tr else []))
        # again: nothing changes unless forced
        before = {ds.channum: (ds.p_filt_value[:], ds.p_filt_phase[:]) for ds in g.datasets}
        install(3.0)
        run(**kw)
        for ds in g.datasets:
            if np.any(before[ds.channum][0] != 0):
                same(ds.p_filt_value[:], before[ds.channum][0], "heights after filtering again")
        run(forceNew=True, **kw)
        for ds in g.datasets:
            expected(ds, 3.0)
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"ns": st.integers(24, 60), "ac": st.sampled_from([0, 2., 10.]), "h": st.lists(st.floats(.2, 3), min_size=1, max_size=6), "add": st.integers(0, 5000), "shift": st.integers(-1, 1), "s": seeds}), quick=500, thorough=15000,
     rule="heights of scaled, offset and shifted copies of the model pulse; always non-trivial")
def metamorphic(c, ctx):
    r = rng(c["s"])
    ctx.nt(True)
    ns = c["ns"]
    npre = ns // 4
    t = np.arange(ns) - npre
    ta = r.choice([5., 12.])
    shape = np.where(t >= 0, np.exp(-(t + .5) / ta) - np.exp(-(t + .5) / 2.), 0)
    shape /= shape.max()
    ac = np.exp(-np.arange(ns) / c["ac"]) if c["ac"] else np.eye(1, ns)[0]
    f = FilterMaker(shape * 1000, npre, ac, dt_model=np.gradient(shape) * 1000).compute_5lag()
    base = 1000 + c["add"]
    x = np.array([np.round(base + 8000 * h * np.roll(shape, c["shift"]) if c["shift"] <= 0 else base + 8000 * h * np.concatenate([[0], shape[:-1]])) for h in c["h"]]).astype(np.uint16)
    if c["shift"] < 0:
        x[:, -1] = x[:, -2]
    v, p = filter_data_5lag_cython(x, f.values)
    err = np.abs(f.values).sum() * .5 + 1e-6
    if c["shift"] == 0:
        close(v, 8000 * np.array(c["h"]), 0, err * 3, "heights of scaled model pulses")
        v2, p2 = filter_data_5lag_cython((x + np.uint16(50)).astype(np.uint16), f.values)
        close(v2, v, 1e-7, 1e-6 * np.abs(f.values).sum() * 1e3, "heights after adding a constant")
    order = np.argsort(c["h"])
    hs = np.array(c["h"])[order]
    dv = np.diff(v[order])
    assert np.all(dv[np.diff(hs) * 8000 > 10 * err] > 0) or c["shift"] != 0, "heights aren't increasing"


@sub(st.fixed_dictionaries({"ns": st.integers(12, 50), "nb": st.integers(3, 6), "chans": st.integers(1, 2), "n": st.integers(1, 12), "group": st.booleans(), "s": seeds}), quick=400, thorough=10000,
     rule="OFF 5-lag values against those of reconstructed records; non-trivial: several records")
def off(c, ctx):
    r = rng(c["s"])
    ns, nb = c["ns"], c["nb"]
    recs = {2 * k + 1: offw.records(c["n"], nb, "0.3.0", r) for k in range(c["chans"])}
    ctx.nt(c["n"] > 1)
    seed = c["s"] % 1000
    g = offw.group(ctx.dir, recs, nsamp=ns, seed=seed)
    proj, basis = offw.model(nb, ns, seed)
    fs = {ch: weights(r, ns - 4, "pulse") for ch in recs}
    if c["group"]:
        path = os.path.join(ctx.dir, "model.hdf5")
        with h5py.File(path, "w") as h5:
            for ch in recs:
                pm = PulseModel(proj, basis, nb, np.zeros((ns, 3)), 1.0, 2.0, 3.0, "x", 0, fs[ch], np.zeros(ns),
                                np.ones(ns // 2 + 1), 5.0, np.ones(ns), _from_hdf5=True)
                pm.toHDF5(h5.create_group(str(ch)), False)
        g.add5LagRecipes(path)
    else:
        for ch, ds in g.items():
            ds.add5LagRecipes(fs[ch])
    for ch, ds in g.items():
        f = fs[ch]
        x = recs[ch]["coefs"].astype(float) @ basis.T
        close(np.array([ds.offFile.modeledPulse(i) for i in range(c["n"])]), x, 1e-5, 1e-3, "reconstructed records")
        fv, fp = ds.getAttr(["filtValue5Lag", "peakX5Lag"], slice(None), "cutNone")
        assert len(fv) == len(fp) == c["n"]
        v, ph, p = parabola(lags(x, f))
        eps = 1e-6 * (np.abs(recs[ch]["coefs"]).astype(float) @ np.abs(basis).sum(axis=0)) * np.abs(f).max()
        for i in range(c["n"]):
            if abs(p[0][i]) > 100 * eps[i]:
                close(fv[i], v[i], 1e-6, eps[i] * (3 + abs(ph[i]) + ph[i] ** 2), f"chan {ch} height {i}")
                close(fp[i], ph[i], 1e-6, 3 * eps[i] / abs(p[0][i]) * (1 + abs(ph[i])), f"chan {ch} phase {i}")
                ctx.label("compared")
