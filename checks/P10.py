"""P10: noise spectra and autocorrelations are consistent estimates."""
import numpy as np
from hypothesis import strategies as st

from harness import ljh
from harness.core import sub
from harness.gen import seeds, rng, close, same, raises
from mass.core.channel import NoiseRecords
import mass.mathstat.power_spectrum as ps

RULE = "Each case is a set of noise records (white, drifting, correlated, with excursions) with a geometry; spectrum and autocorrelation are recomputed by explicit sums."
ASSUMPTIONS = ["the spectrum of segments of odd length leaves out the last sample",
               "for continuous noise, excursions are counted from the mean of 15 times the number of lags, as in the code; otherwise peak to peak"]


def noise(r, nrec, ns, kind, nbad):
    base = int(r.choice([500, 10000, 40000]))
    x = ljh.noise(r, nrec, ns, base, sigma=float(r.choice([1, 5, 40])), corr=.6 if kind == "corr" else 0).astype(int)
    if kind == "drift":
        x += np.linspace(0, 200, nrec).astype(int)[:, None]
    elif kind == "const":
        x[:] = base
        x[0, 0] += 1
    bad = r.permutation(nrec)[:nbad]
    for k in bad:
        x[k, r.randint(ns)] += 5000 * r.choice([1, 1, -1 if base > 6000 else 1])
    return np.clip(x, 0, 65535).astype(np.uint16)


def psd_ref(segs, dt, window, maxexc):
    """Average periodogram of the segments without excursions, by the definition of the transform."""
    segs = np.asarray(segs, float)
    m = segs.shape[1] // 2
    segs = segs[:, :2 * m]
    w = np.ones(2 * m) if window is None else window(2 * m)
    good = segs.max(axis=1) - segs.min(axis=1) <= maxexc
    if not good.any():
        return None
    y = segs[good] - segs[good].mean(axis=1)[:, None]
    k = np.arange(m + 1)
    E = np.exp(-2j * np.pi * np.outer(k, np.arange(2 * m)) / (2 * m))
    F = (y * w) @ E.T
    return (np.abs(F) ** 2).mean(axis=0) * 2 * dt / (w ** 2).sum()


def corr_sum(y, nl):
    n = len(y)
    return np.array([np.dot(y[:n - k], y[k:]) / (n - k) for k in range(nl)])


def ac_broken(x, nl, maxexc):
    x = np.asarray(x, float)
    use = x.max(axis=1) - x.min(axis=1) <= maxexc
    if not use.any():
        return None
    return np.mean([corr_sum(y - y.mean(), nl) for y in x[use]], axis=0)


def ac_cont(x, nl, maxexc):
    x = np.asarray(x, float).ravel()
    size = 15 * nl
    out = []
    for k in range(len(x) // size):
        y = x[k * size:(k + 1) * size]
        y = y - y.mean()
        if np.abs(y).max() <= maxexc:
            out.append(corr_sum(y, nl))
    return np.mean(out, axis=0) if out else None


def scale(ref):
    return 1e-9 * np.abs(ref).max() + 1e-14


geom = {"ns": st.integers(8, 40), "nrec": st.integers(1, 64), "kind": st.sampled_from(["white", "white", "corr", "drift", "const"]), "nbad": st.sampled_from([0, 0, 0, 1, 1, 2, 3, 100]), "maxexc": st.sampled_from([None, None, None, 300, 30]),
        "tb": st.sampled_from(["1.024000e-05", "9.6e-06"]), "s": seeds}


@sub(st.fixed_dictionaries({**geom, "cont": st.booleans(), "extra": st.sampled_from([0, 0, 0, 5]), "nchan": st.integers(1, 2), "invert": st.booleans(), "again": st.booleans(), "seg": st.sampled_from([None, 1, 4])}),
     quick=500, thorough=15000, rule="compute_noise for the channels of a group; non-trivial: some but not all records have excursions, or several records are averaged")
def group(c, ctx):
    r = rng(c["s"])
    ns, nrec = c["ns"], c["nrec"]
    if c["cont"] and r.rand() < .9:
        nrec = max(nrec, int(r.choice([15, 16, 31, 60])))
    maxexc = 1000 if c["maxexc"] is None else c["maxexc"]
    tb = float(c["tb"])
    chans, nchans = {}, {}
    for k in range(c["nchan"]):
        nchans[2 * k + 1] = noise(r, nrec, ns + c["extra"], c["kind"], c["nbad"])
        chans[2 * k + 1] = {"data": noise(r, 3, ns, "white", 0)}
    g = ljh.tesgroup(ctx.dir, chans, noise_chans=nchans, hkw={"npre": 4, "timebase": c["tb"]}, noise_is_continuous=c["cont"], invert_data=c["invert"])
    try:
        if c["seg"]:
            for ds in g.datasets:
                ds.noise_records.datafile.set_segment_size(c["seg"] * (16 + 2 * (ns + c["extra"])))
        kw = {} if c["maxexc"] is None else {"max_excursion": maxexc}
        for ds in g.datasets:
            x = nchans[ds.channum]
            L = ns + c["extra"]
            ref = psd_ref(x, tb, np.hanning, maxexc)
            ac = ac_cont(x, L, maxexc) if c["cont"] else ac_broken(x, L, maxexc)
            if ref is None or ac is None:
                ctx.label("nothing usable")
                assert raises(lambda: ds.compute_noise(**kw), Exception), "noise without any usable record was accepted"
                assert not np.any(ds.noise_autocorr[:]), "autocorrelation without usable records"
                continue
            ctx.nt(nrec > 1)
            ds.compute_noise(**kw)
            n = ns
            close(ds.noise_autocorr[:], ac[:n], 1e-9, scale(ac), "autocorrelation")
            close(ds.noise_psd[:], ref[:n // 2 + 1], 1e-9, scale(ref), "power spectrum")
            df = 1 / (2 * (L // 2) * tb)
            close(ds.noise_psd.attrs["delta_f"], df, 1e-12, 0, "frequency step")
            if c["extra"] == 0 and c["nbad"] == 0:  # the integrated spectrum is the variance weighted by the window
                y = x[:, :2 * (L // 2)].astype(float)
                y = (y - y.mean(axis=1)[:, None])[np.ptp(y, axis=1) <= maxexc]
                w = np.hanning(y.shape[1])
                p = ds.noise_psd[:]
                close((p.sum() - p[0] / 2 - p[-1] / 2) * df, ((y * w) ** 2).sum(axis=1).mean() / (w ** 2).sum(), 1e-7, 1e-12, "integrated spectrum")
            nr = ds.noise_records
            close(nr.autocorrelation[:], ac, 1e-9, scale(ac), "autocorrelation of the noise records")
            close(nr.noise_psd[:], ref, 1e-9, scale(ref), "power spectrum of the noise records")
            if c["again"] and np.any(ac):
                a, p = ds.noise_autocorr[:], ds.noise_psd[:]
                ds.compute_noise(max_excursion=maxexc + 7000)
                same(ds.noise_autocorr[:], a, "autocorrelation computed again")
                same(ds.noise_psd[:], p, "spectrum computed again")
                ds.compute_noise(forceNew=True, **kw)
                same(ds.noise_autocorr[:], a, "autocorrelation computed again by force")
                same(ds.noise_psd[:], p, "spectrum computed again by force")
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({**geom, "cont": st.booleans(), "seglen": st.sampled_from([None, None, 8, 16, 17, 64, 100]), "nl": st.sampled_from([None, "same", 5, 9, 33, 41, 49, 50, 66]), "window": st.sampled_from(["hann", "none", "welch", "hamming", "bartlett"]),
                            "use": st.sampled_from([None, None, "int", "pair"]), "samples": st.booleans(), "fancy": st.integers(0, 4).map(lambda i: i == 0), "hdf5": st.booleans()}),
     quick=600, thorough=20000, rule="noise records analysed in segments, lags and ranges other than the record; non-trivial: other lengths than the record's")
def records(c, ctx):
    r = rng(c["s"])
    ns, nrec = c["ns"], max(c["nrec"], 2)
    if c["cont"] and r.rand() < .8:
        nrec = max(nrec, 20 if not (isinstance(c["nl"], int) and r.rand() < .7) else -(-17 * c["nl"] // ns) + int(r.randint(20)))
    maxexc = 1000 if c["maxexc"] is None else c["maxexc"]
    x = noise(r, nrec, ns, c["kind"], c["nbad"])
    g = ljh.tesgroup(ctx.dir, {1: {"data": x[:2]}}, noise_chans={1: x}, hkw={"npre": 4, "timebase": c["tb"]}, noise_is_continuous=c["cont"])
    tb = float(c["tb"])
    try:
        if c["hdf5"] and c["use"] is None:
            nr = g.datasets[0].noise_records
        else:
            use = None
            if c["use"] == "int":
                use = int(r.randint(1, nrec + 1))
                used = x[:use]
            elif c["use"] == "pair":
                a = int(r.randint(0, nrec))
                use = [a, int(r.randint(a + 1, nrec + 1))]
                used = x[use[0]:use[1]]
            else:
                used = x
            nr = NoiseRecords(g.datasets[0].noise_records.filename, records_are_continuous=c["cont"], use_records=use)
            x = used
            nrec = len(x)
        assert nr.nSamples == ns and nr.nPulses == nrec and nr.timebase == tb
        # spectrum
        sl = c["seglen"] or ns
        window = None if c["window"] == "none" else getattr(ps, c["window"])
        ctx.nt(sl != ns or c["nl"] not in (None, "same"))
        if not c["cont"] and sl != ns:
            assert raises(lambda: nr.compute_power_spectrum_reshape(window=window, seg_length=sl, max_excursion=maxexc), ValueError), "separate records in other segments"
        else:
            flat = x.ravel()
            segs = flat[:len(flat) // sl * sl].reshape(-1, sl)
            ref = psd_ref(segs, tb, window, maxexc) if len(segs) else None
            call = lambda: nr.compute_power_spectrum_reshape(window=window, seg_length=c["seglen"], max_excursion=maxexc)  # noqa: E731
            if ref is None:
                assert raises(call, ValueError)
            else:
                sp = call()
                close(sp.spectrum(), ref, 1e-9, scale(ref), "returned spectrum")
                close(nr.noise_psd[:], ref, 1e-9, scale(ref), "stored spectrum")
                close(sp.frequencies(), np.arange(len(ref)) / (2 * (sl // 2) * tb), 1e-9, 0, "frequencies")
                if nr.hdf5_group is not None:
                    close(nr.noise_psd.attrs["delta_f"], 1 / (2 * (sl // 2) * tb), 1e-9, 0, "frequency step")
        # autocorrelation
        nl = {None: None, "same": ns}.get(c["nl"], c["nl"])
        rng_ = None
        y = x
        if c["samples"]:
            a = int(r.randint(0, x.size // 2))
            b = int(r.randint(a + x.size // 4, x.size + 1))
            rng_ = [a, b]
        call = lambda: nr.compute_autocorrelation(n_lags=nl, data_samples=rng_, plot=False, max_excursion=maxexc)  # noqa: E731
        if c["cont"]:
            flat = x.ravel()
            flat = flat[rng_[0]:rng_[1]] if rng_ else flat
            lags = min(nl or 10**9, nr.records_per_segment * ns)
            if len(flat) < 15 * lags:
                lags = len(flat) // 15
                if lags < ns:
                    assert raises(call, ValueError), "too few data"
                    return
            ac = ac_cont(flat, lags, maxexc)
        else:
            lags = nl or ns
            if lags > ns:
                assert raises(call, ValueError), "more lags than samples"
                return
            if rng_:
                y = x[-(-rng_[0] // ns):rng_[1] // ns]
            ac = ac_broken(y, lags, maxexc) if len(y) else None
        if ac is None:
            assert raises(call, Exception), "no usable data"
            return
        call()
        close(nr.autocorrelation[:], ac, 1e-9, scale(ac), "autocorrelation")
        if c["fancy"] and c["cont"] and x.size >= 64:
            lens = [8, 16, 32]
            refs = [psd_ref(x.ravel()[:x.size // k * k].reshape(-1, k), tb, np.hanning, 1000) for k in lens]
            if all(q is not None for q in refs):
                for sp, ref in zip(nr.compute_fancy_power_spectra(plot=False, seglength_choices=lens), refs):
                    close(sp.spectrum(), ref, 1e-9, scale(ref), "spectrum of several lengths")
                assert len(nr.compute_fancy_power_spectra(plot=False)) >= 1 if x.size < 512 and c["maxexc"] is None and c["nbad"] == 0 else True
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"ns": st.integers(8, 60), "var": st.sampled_from([.5, 1, 30.]), "s": seeds}), quick=40, thorough=500, rule="assumed white noise; always non-trivial")
def white(c, ctx):
    r = rng(c["s"])
    ctx.nt(True)
    g = ljh.tesgroup(ctx.dir, {1: {"data": noise(r, 2, c["ns"], "white", 0)}}, hkw={"npre": 3})
    try:
        ds = g.datasets[0]
        ds.assume_white_noise(c["var"])
        same(ds.noise_autocorr[:], np.eye(1, c["ns"])[0] * c["var"], "autocorrelation")
        p, df = ds.noise_psd[:], ds.noise_psd.attrs["delta_f"]
        assert len(p) == c["ns"] // 2 + 1 and np.ptp(p) == 0
        close(p[0], 2 * c["var"] * ds.timebase, 1e-9, 0, "spectrum")
        close(df, 1 / (c["ns"] // 2 * 2 * ds.timebase), 1e-9, 0, "frequency step")
        close(df * (c["ns"] // 2) * p[0], c["var"], 1e-9, 0, "integrated spectrum")
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({"n": st.integers(2, 30), "rec": st.integers(1, 10), "s": seeds}), quick=150, thorough=3000, rule="the autocorrelation helper for an array of records; non-trivial: several records")
def helper(c, ctx):
    x = rng(c["s"]).standard_normal((c["n"], c["rec"])) * 10
    ctx.nt(c["rec"] > 1)
    keep = x.copy()
    close(ps.autocorrelation_broken_from_pulses(x), ac_broken(x.T, c["n"], np.inf), 1e-9, 1e-9, "autocorrelation")
    same(x, keep, "the argument")
