"""P06: stored analysis results survive reopening, and are not silently changed."""
import contextlib
import io
import os

import numpy as np
from hypothesis import strategies as st

from harness import ljh
from harness.core import sub
from harness.gen import seeds, rng
from harness.tessnap import controls, equal, snap, P, TB
import mass

RULE = "Each case is a history of analysis steps with close/reopen points; stored and in-memory results are compared, and at least three steps must succeed."
ASSUMPTIONS = ["data sets are closed with their HDF5 files (a power failure in the middle of a write is up to HDF5)",
               "settings that only live in memory by design (time_drift_correct_info, 2014 phase correction, smart_cuts with its random training) are not compared"]

def setup(c, d):
    """Write the raw data of a case in directory d (a pure function of the case)."""
    r = rng(c["s"])
    ns, npre, n = c["ns"], c["npre"], c["n"]
    chans, noise = {}, {}
    for ch in range(1, 2 * c["nch"], 2):
        h = np.where(r.rand(n) < .25, 4000., 8000.) * (1 + .002 * r.standard_normal(n))
        data, _ = ljh.pulses(r, n, ns, npre, base=1000, height=h, noise=3.0, tau=(4.0, 15.0))
        data = data.astype(int) + np.round(8 * np.sin(np.arange(n) / 9.))[:, None].astype(int)
        bad = r.rand(n) < .06
        data[bad, npre // 2:] += (r.rand(bad.sum(), ns - npre // 2) * 300).astype(int)
        chans[ch] = dict(data=np.clip(data, 0, 65535), counts=64 * np.cumsum(r.randint(50, 4000, n)), usec=1_600_000_000_000_000 + np.cumsum(r.randint(2000, 4_000_000, n)))
        noise[ch] = ljh.noise(r, 40, ns, sigma=3.0)
    hkw = dict(npre=npre, rows=8, cols=2, row=1, col=0, timebase=str(TB))
    if c["states"]:
        t = chans[1]["usec"]
        with open(os.path.join(os.path.dirname(ljh.basename(d)), "20240101_run0001_experiment_state.txt"), "w") as f:
            f.write("# unix time in nanoseconds, state label\n")
            for i, k in enumerate(sorted(r.choice(n, 3, replace=False))):
                f.write(f"{int(t[k]) * 1000 - 500}, {['START', 'A', 'B'][i]}\n")
    return chans, noise, hkw


def opengroup(c, d, raw, restore=False):
    chans, noise, hkw = raw
    if restore:
        return mass.core.channel_group.RestoreTESGroup(os.path.join(d, "mass.hdf5"), os.path.join(d, "noise.hdf5"))
    return ljh.tesgroup(d, chans, noise, hkw=hkw)


def cat(c, p):
    return {"state": "A"} if c["states"] and p[2] == 4 else {}


FORCED = {"summ", "noise", "white", "avg", "ats", "lag5", "filt", "drift", "phase", "tdc", "auto", "calibrate"}
HEAVY = {"ats", "drift", "phase", "tdc", "calibrate"}


def apply(c, g, op, force):
    """Do one step to all good channels. Returns a list of what happened per channel."""
    name, *p = op
    res = []
    for ds in g:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                step(c, g, ds, name, p, force)
            res.append("ok")
        except Exception as e:
            res.append(type(e).__name__)
            if os.environ.get("VERIF_SHOW") == "2":
                print(name, p, type(e), e, __import__("traceback").format_exc()[-300:])
    if name == "bad":
        g.set_chan_bad(1 + 2 * (p[0] % c["nch"]), f"reason {p[1]}")
    elif name == "good" and g.why_chan_bad:
        g.set_chan_good(*[ch for ch in list(g.why_chan_bad)])
    return res


def step(c, g, ds, name, p, force):  # noqa: PLR0912
    lim = {"fmax": [None, None, None, 2e4][p[0] % 4], "f_3db": [None, None, 1e4][p[1] % 3]}
    if name == "summ":
        ds.summarize_data(peak_time_microsec=[None, None, 6 * TB * 1e6 + .1][p[0] % 3], pretrigger_ignore_microsec=[None, 2 * TB * 1e6 + .1, 5 * TB * 1e6 + .1][p[1] % 3],
                          cut_pre=[0, 0, 2][p[2] % 3], cut_post=[0, 3][p[0] % 2], use_cython=p[1] % 4 > 0, doPretrigFit=p[2] % 2 == 0, forceNew=force)
    elif name == "noise":
        ds.compute_noise(max_excursion=[1000, 25][p[0] % 2], forceNew=force)
    elif name == "white":
        ds.assume_white_noise(noise_variance=1.0 + p[0], forceNew=force)
    elif name == "auto":
        ds.auto_cuts(nsigma_pt_rms=3.0 + p[0], nsigma_max_deriv=3. + p[1], pretrig_rms_percentile=[None, 90][p[2] % 2], clearCuts=p[0] % 3 > 0, forceNew=force)
    elif name == "cuts":
        ds.apply_cuts(controls(p), clear=p[2] % 2 == 0)
    elif name == "clear":
        ds.clear_cuts()
    elif name == "avg":
        ds.avg_pulses_auto_masks(max_pulses_to_use=[7000, 9, 20][p[0] % 3], subtract_mean=p[1] % 4 > 0, forceNew=force)
    elif name == "ats":
        ds.compute_ats_filter(**lim, cut_pre=[0, 3][p[2] % 2], cut_post=[0, 0, 4][p[1] % 3], shift1=p[0] % 3 > 0, optimize_dp_dt=p[2] % 3 > 0,
                              minimum_n_pulses=8, category=cat(c, p), forceNew=force)
    elif name == "lag5":
        ds.compute_5lag_filter(**lim, cut_pre=[0, 3][p[2] % 2], cut_post=[0, 0, 4][p[1] % 3], forceNew=force)
    elif name == "filt":
        ds.filter_data(forceNew=force, **({"use_cython": False} if p[0] % 2 else {}))
    elif name == "drift":
        ds.drift_correct(attr=["p_filt_value", "p_filt_value", "p_pulse_rms"][p[0] % 3], category=cat(c, p), forceNew=force)
    elif name == "phase":
        ds.phase_correct(attr=["p_filt_value", "p_filt_value_dc"][p[0] % 2], ph_peaks=[None, [4000., 8000.], [8000.]][p[1] % 3], method2017=p[2] % 4 != 3, forceNew=force, category=cat(c, p))
    elif name == "tdc":
        ds.time_drift_correct(attr=["p_filt_value", "p_filt_value_dc"][p[0] % 2], sec_per_degree=[2000, 40][p[1] % 2], pulses_per_degree=[2000, 30][p[2] % 2], forceNew=force)
    elif name == "cal":
        cal = mass.EnergyCalibration(curvetype=["loglog", "gain", "linear+0", "invgain"][p[0] % 4])
        cal.set_use_approximation(p[1] % 2 == 0)
        for i in range(1 + p[2] % 3):
            cal.add_cal_point(3000. + 2500 * i + p[1], [2000., 4000., "MnKAlpha"][i])
        nm = ["p_filt_value", "p_pulse_rms"][p[1] % 2]
        ds.calibration[nm] = cal
        cal.save_to_hdf5(ds.hdf5_group.require_group("calibration"), nm)
    elif name == "calibrate":
        if not np.all(ds.p_pulse_rms[:] > 100):
            raise ValueError("not a spectrum")  # (two accidental peaks near zero would need a huge inverse table)
        ds.calibrate("p_pulse_rms", [4000., 8000.], name_ext=["", "x"][p[0] % 2], size_related_to_energy_resolution=40., fit_range_ev=400, bin_size_ev=8, nextra=1, maxacc=.1,
                     curvetype=["gain", "loglog"][p[1] % 2], category=cat(c, p), forceNew=force)
    elif name == "energy":
        ds.convert_to_energy(["p_filt_value", "p_pulse_rms"][p[0] % 2])
    elif name == "flux":
        ds.correct_flux_jumps([10., 4096.][p[0] % 2])
    elif name == "usercut":
        nm = f"user{p[0] % 2}"
        if p[1] % 2:
            g.register_boolean_cut_fields(nm)
            ds.cuts.cut(nm, ds.p_pulse_rms[:] > np.median(ds.p_pulse_rms[:]))
        else:
            nm = "k" + nm
            g.register_categorical_cut_field(nm, ["x", "y", "z"])
            codes = g.cut_field_categories(nm)
            ds.cuts.cut(nm, np.where(np.arange(ds.nPulses) % 3 == p[2] % 3, codes["y"], codes["z"]).astype(np.uint32))


NAMES = ["summ", "noise", "avg", "lag5", "ats", "filt", "drift", "phase", "tdc", "auto", "cuts", "clear", "cal", "calibrate", "energy", "white", "flux", "usercut", "bad", "good"]
PIPE = [["summ"], ["auto", "cuts", "usercut", "auto"], ["noise", "noise", "noise", "white"], ["avg", "avg", "auto"], ["lag5", "ats", "ats"], ["filt"], ["drift", "cal", "avg"], ["phase", "tdc", "calibrate"],
        ["energy", "clear", "cuts", "calibrate"], ["tdc", "phase", "tdc"]]


@st.composite
def history(draw):
    """Mostly in the usual order, so most steps succeed, with anything in between. Each is [name, p, p, p, force, flag]."""
    ops = []
    for names in PIPE[:draw(st.sampled_from([10, 9, 8, 7, 6, 5]))]:
        if draw(st.integers(0, 19)) < 19:
            ops.append([draw(st.sampled_from(names))] + draw(P) + [draw(st.booleans()), draw(st.booleans())])
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
            ops.append([draw(st.sampled_from(NAMES))] + draw(P) + [draw(st.booleans()), draw(st.booleans())])
    return ops


base = {"nch": st.integers(1, 2), "n": st.integers(60, 130), "ns": st.integers(50, 76), "npre": st.integers(12, 18), "states": st.booleans(), "s": seeds}


@sub(st.fixed_dictionaries({**base, "ops": history(), "restore": st.booleans()}), quick=60, thorough=700, rule="the same history with and without close/reopen points between the steps")
def reopen(c, ctx):
    groups = []
    for k in "ab":
        d = os.path.join(ctx.dir, k)
        os.makedirs(d)
        raw = setup(c, d)
        groups.append([opengroup(c, d, raw), d, raw])
    nok = nre = 0
    for i, op in enumerate(c["ops"]):
        name, *p, force, flag = op
        if flag or i == len(c["ops"]) - 1:
            ljh.close_group(groups[1][0])
            groups[1][0] = opengroup(c, groups[1][1], groups[1][2], c["restore"])
            nre += 1
        ra, rb = (apply(c, g[0], [name] + p, force) for g in groups)
        if any(x != "ok" for x in ra):  # a step that fails must not appear to be done when tried again
            again = [apply(c, g[0], [name] + p, force) for g in groups]
            assert again[0] == ra and again[1] == rb, f"step {name}{p} force={force}: {ra}, {rb}, but tried again: {again}"
        a, b = (snap(g[0], g[1]) for g in groups)
        assert ra == rb, f"step {name}{p} force={force}: {ra} without reopening but {rb} with it"
        equal(a, b, f"after {name}{p} force={force}, never reopened vs reopened")
        nok += "ok" in ra
        ctx.label(f"{name}:{ra[0] if ra else 'none'}")
    ljh.close_group(groups[1][0])
    groups[1][0] = opengroup(c, groups[1][1], groups[1][2])
    equal(snap(*groups[0][:2]), snap(*groups[1][:2]), "after all steps and reopening")
    for g, *_ in groups:
        ljh.close_group(g)
    ctx.nt(nok >= 3 and nre >= 1)


@sub(st.fixed_dictionaries({**base, "ops": history(), "p2": st.lists(P, min_size=30, max_size=30)}), quick=60, thorough=700, rule="each step repeated: without force and with other settings nothing changes; with force the result is the same")
def repeat(c, ctx):
    d = ctx.dir
    raw = setup(c, d)
    g = opengroup(c, d, raw)
    nrep = 0
    for i, op in enumerate(c["ops"]):
        name, *p, force, flag = op
        r1 = apply(c, g, [name] + p, force)
        if name not in FORCED or r1 != ["ok"] * len(r1) or not r1:
            continue
        a = snap(g, d)
        if flag:
            ljh.close_group(g)
            g = opengroup(c, d, raw)
        if settled(g, name):
            other = c["p2"][i]
            with_other = [name] + other
            r2 = apply(c, g, with_other, False)
            assert r2 == ["ok"] * len(r2), f"{name} repeated raised {r2}"
            equal(a, snap(g, d), f"{name}{p} then {name}{other} without force{', reopened' if flag else ''}")
            nrep += 1
        # With force, the same result if the step was done with these settings just now
        r3 = apply(c, g, [name] + p, True)
        if r3 != ["ok"] * len(r3):  # (with other inputs than when it was first done)
            continue
        b = snap(g, d)
        if flag:
            ljh.close_group(g)
            g = opengroup(c, d, raw)
        r3 = apply(c, g, [name] + p, True)
        assert r3 == ["ok"] * len(r3), f"{name}{p} forced again raised {r3}"
        equal(b, snap(g, d), f"{name}{p} forced twice{', reopened' if flag else ''}")
        ctx.label(name)
        nrep += 1
    ljh.close_group(g)
    ctx.nt(nrep >= 3)


def settled(g, name):
    """Whether the step left nonzero results, in every channel (all zeros count as not done)."""
    attr = {"summ": "p_pretrig_mean", "noise": "noise_autocorr", "white": "noise_autocorr", "avg": "average_pulse", "filt": "p_filt_value", "drift": "p_filt_value_dc", "tdc": "p_filt_value_tdc"}.get(name)
    ok = all(np.any(getattr(ds, attr)[:] != 0) for ds in g) if attr else True
    if name == "drift":
        ok = ok and all(np.any(ds.p_filt_value_dc[:] != ds.p_filt_value[:]) for ds in g)
    if name == "calibrate":
        ok = all({"p_pulse_rms", "p_pulse_rmsx"} <= set(ds.calibration) for ds in g)
    return ok


class Bomb:
    def __init__(self, k, exc):
        self.k, self.exc = k, exc

    def __call__(self, name):
        return self

    def update(self, frac):
        self.k -= 1
        if self.k < 0:
            raise self.exc("interrupted")


@sub(st.fixed_dictionaries({**base, "seg": st.integers(7, 40), "step": st.sampled_from(["summ", "summ", "filt"]), "p": P, "k": st.integers(0, 5), "lag5": st.booleans(), "reopen": st.booleans(),
                            "key": st.booleans(), "again": st.booleans()}), quick=60, thorough=600,
     rule="a step interrupted between segments of the data, run again without force, gives what it would have given without interruption")
def interrupt(c, ctx):
    out = []
    hit = False
    for k in "ab":
        d = os.path.join(ctx.dir, k)
        os.makedirs(d)
        raw = setup(c, d)
        g = opengroup(c, d, raw)

        def segments(g):
            for ds in g:
                ds.pulse_records.pulses_per_seg = c["seg"]
                ds.pulse_records.n_segments = -(-ds.nPulses // c["seg"])
        segments(g)
        plan = [["summ"] + c["p"], ["noise", 0, 0, 0], ["avg", 0, 1, 0], ["lag5" if c["lag5"] else "ats", 0, 0, 0], ["filt", 1 if c["lag5"] else 0, 0, 0]]
        for op in plan:
            if c["again"] and k == "b" and op[0] == c["step"]:
                apply(c, g, [op[0], 4, 5, 6], False)  # done once, with other settings: force it
            if k == "b" and op[0] == c["step"]:
                old, g.updater = g.updater, Bomb(c["k"], KeyboardInterrupt if c["key"] else OSError)
                for ds in g:
                    try:
                        step(c, g, ds, op[0], op[1:], c["again"])
                    except (KeyboardInterrupt, OSError):
                        hit = True
                g.updater = old
                if c["reopen"]:
                    ljh.close_group(g)
                    g = opengroup(c, d, raw)
                    segments(g)
            elif k == "a" and op[0] == c["step"] and c["again"]:
                apply(c, g, [op[0], 4, 5, 6], False)
                apply(c, g, op, True)
            r = apply(c, g, op, False)
            ctx.label(f"{op[0]}:{r[0]}")
        out.append(snap(g, d))
        ljh.close_group(g)
    equal(out[0], out[1], f"{c['step']} not interrupted vs interrupted and run again")
    ctx.nt(hit)


@sub(st.fixed_dictionaries({**base, "what": st.sampled_from(["ats", "lag5", "phase", "phase", "drift", "calibrate"]), "p": P, "how": st.integers(0, 2), "before": st.booleans(), "lag5": st.booleans(),
                            "reopen": st.booleans()}), quick=40, thorough=400,
     rule="a step that fails for bad inputs leaves no result behind, and when done again with good inputs gives what it would have given")
def failing(c, ctx):
    out = []
    failed = False
    for k in "ab":
        d = os.path.join(ctx.dir, k)
        os.makedirs(d)
        raw = setup(c, d)
        g = opengroup(c, d, raw)
        for op in (["summ", 0, 0, 0], ["noise", 0, 0, 0], ["avg", 0, 1, 0], ["lag5" if c["lag5"] else "ats", 0, 1, 1], ["filt", 0, 0, 0], ["drift", 0, 0, 0]):
            if op[0] == c["what"] or (op[0] in ("ats", "lag5") and c["what"] in ("ats", "lag5")):
                break
            apply(c, g, op, False)
        if c["before"]:
            apply(c, g, [c["what"]] + c["p"], False)
        if k == "b":
            before = snap(g, d)
            old = []
            for ds in g:
                vecs = {"ats": [ds.noise_autocorr, ds.p_promptness, ds.p_pulse_rms], "lag5": [ds.noise_autocorr] * 3, "phase": [ds.p_filt_value, ds.p_filt_phase, None],
                        "drift": [ds.p_filt_value, ds.p_pretrig_mean, ds.p_filt_value], "calibrate": [ds.p_pulse_rms] * 3}[c["what"]]
                v = vecs[c["how"]]
                old.append((v, None if v is None else v[:]))
                if v is not None:
                    v[:] = np.nan
            for ds in g:
                p = list(c["p"])
                try:
                    if c["what"] == "phase" and c["how"] == 2:
                        ds.phase_correct(attr="p_filt_value", ph_peaks=[8000., 4000., 8000.], method2017=c["p"][0] > 2, forceNew=True)  # not distinct peaks
                    else:
                        step(c, g, ds, c["what"], p, True)
                    ctx.label(c["what"] + ":no failure")
                except Exception as e:
                    failed = True
                    ctx.label(f"{c['what']}{c['how']}:{type(e).__name__}")
            didfail = failed
            for v, x in old:
                if v is not None:
                    v[:] = x
            if not didfail:
                ljh.close_group(g)
                break
            equal(before, snap(g, d), f"{c['what']} failed ({c['how']}), results before and after")
        if c["reopen"]:
            ljh.close_group(g)
            g = opengroup(c, d, raw)
        r = apply(c, g, [c["what"]] + c["p"], False)
        out.append((r, snap(g, d)))
        ljh.close_group(g)
    if len(out) == 2:
        assert out[0][0] == out[1][0], f"{c['what']}: {out[0][0]}, but after a failure {out[1][0]}"
        equal(out[0][1], out[1][1], f"{c['what']} after a failure")
    ctx.nt(failed)


CHAIN = [["summ", 0, 0, 0], ["noise", 0, 0, 0], ["avg", 0, 1, 0], ["lag5", 0, 0, 0], ["filt", 0, 0, 0], ["drift", 0, 0, 0], ["phase", 0, 0, 0]]


@sub(st.fixed_dictionaries({**base, "what": st.sampled_from(["ats", "ats", "lag5", "lag5", "noise", "white", "avg", "auto", "cal", "phase", "drift", "summ", "filt", "flux", "usercut", "calibrate"]), "p": P, "twice": st.booleans(),
                            "p1": P, "restore": st.booleans(), "both": st.booleans()}), quick=120, thorough=2500,
     rule="one step with any settings (after a standard analysis, or instead of its part), closed and reopened: everything is as it was")
def onestep(c, ctx):
    d = ctx.dir
    raw = setup(c, d)
    g = opengroup(c, d, raw)
    for op in CHAIN:
        if op[0] == c["what"] or (op[0] in ("lag5",) and c["what"] == "ats"):
            break
        apply(c, g, op, False)
    if c["twice"]:
        apply(c, g, [c["what"]] + c["p1"], True)
    p = [3, 2, c["p"][2]] if c["both"] and c["what"] in ("ats", "lag5") else c["p"]     # (with both band limits)
    res = apply(c, g, [c["what"]] + p, True)
    a = snap(g, d)
    ljh.close_group(g)
    g = opengroup(c, d, raw, c["restore"])
    ctx.label(f"{c['what']}:{res[0] if res else 'none'}")
    ctx.nt("ok" in res)
    equal(a, snap(g, d), f"{c['what']}{p}, before and after reopening")
    ljh.close_group(g)


@sub(st.fixed_dictionaries({"chans": st.lists(st.integers(0, 130), min_size=1, max_size=5, unique=True), "dir": st.sampled_from(["d", "r_chan3_old", "a b"]), "base": st.sampled_from(["20240101_run0001", "r.x", "q_chan7_b"]),
                            "noise": st.sampled_from([None, "other", "other", "same"]), "ext": st.sampled_from(["ljh", "noi"]), "only": st.booleans(), "glob": st.booleans(), "named": st.booleans(), "nnamed": st.booleans(), "explicit": st.booleans(),
                            "bad": st.booleans(), "overwrite": st.booleans(), "wrong": st.sampled_from([None, None, "nsamp", "npre", "time", "noisetime"]), "s": seeds}),
     quick=150, thorough=4000, rule="groups with default or given result files, closed, restored from those files and opened again; non-trivial: several channels")
def storage(c, ctx):
    from harness.gen import raises, same
    r = rng(c["s"])
    d = os.path.join(ctx.dir, c["dir"])
    nd = os.path.join(ctx.dir, "noise_chan1", c["dir"])
    os.makedirs(d)
    os.makedirs(nd)
    ctx.nt(len(c["chans"]) > 1)
    chs = sorted(c["chans"])
    ext = c["ext"] if c["noise"] == "other" else "noi"
    nbase = c["base"] if c["noise"] == "same" else "20240101_run0000"
    names, nnames, data = [], [], {}
    only = c["only"] and c["noise"] is not None
    odd = chs[r.randint(len(chs))] if c["wrong"] and len(chs) > 1 else None
    for ch in chs:
        data[ch] = r.randint(0, 60000, (4 + int(r.randint(4)), 24))
        kw = dict(npre=8, timebase="1e-5")
        if ch == odd and c["wrong"] != "noisetime" and not only:
            if c["wrong"] == "nsamp":
                data[ch] = data[ch][:, :20]
            kw.update({"npre": dict(npre=7), "time": dict(timebase="2e-5")}.get(c["wrong"], {}))
        names.append(ljh.write22(os.path.join(d, f"{c['base']}_chan{ch}.ljh"), data[ch], **kw))
        if c["noise"]:
            kw = dict(npre=8, timebase="1e-5")
            if ch == odd and only:
                kw.update({"npre": dict(npre=7)}.get(c["wrong"], dict(timebase="2e-5")))
            nnames.append(ljh.write22(os.path.join(nd, f"{nbase}_chan{ch}.{ext}"), r.randint(1000, 1030, (40, 24)), **kw))
    order = r.permutation(len(chs))
    pat = os.path.join(d, f"{c['base']}_chan*.ljh") if c["glob"] else [names[i] for i in order]
    npat = None if not c["noise"] else os.path.join(nd, f"{nbase}_chan*.{ext}") if c["glob"] else [nnames[i] for i in order]
    expect = chs if c["glob"] else [chs[i] for i in order]
    h5 = os.path.join(d, c["base"] + "_mass.hdf5")
    n5 = os.path.join(nd, nbase + ("_noise" if ext == "noi" else "") + "_mass.hdf5")
    kw = {}
    if c["named"] and not only:
        kw["hdf5_filename"] = h5 = os.path.join(ctx.dir, "given.hdf5")
    if c["nnamed"] and c["noise"]:
        kw["hdf5_noisefilename"] = n5 = os.path.join(ctx.dir, "givennoise.hdf5")

    def make(**k):
        if only:
            return mass.TESGroup(npat, noise_only=True, **kw, **k)
        return mass.TESGroup(pat, npat, **kw, **k)
    mixed = c["wrong"] and len(chs) > 1 and not (c["wrong"] == "noisetime" and not only)
    if mixed:
        ctx.label("mixed")
        assert raises(make, ValueError), f"channels of different {c['wrong']} in one group"
        return
    assert raises(lambda: mass.TESGroup(os.path.join(d, "nothing_chan*.ljh")), ValueError), "a pattern that matches nothing was accepted"
    assert raises(lambda: mass.TESGroup(pat, os.path.join(nd, "nothing_chan*.ljh")), ValueError), "a noise pattern that matches nothing was accepted"
    with contextlib.suppress(OSError):
        os.remove(h5)
    g = make()
    try:
        assert [ds.channum for ds in g.datasets] == expect == g.good_channels, ([ds.channum for ds in g.datasets], expect)
        assert g.n_channels == g.n_good_channels() == g.num_good_channels == len(chs)
        if not only:
            assert g.hdf5_file.filename == h5, f"results are kept in {g.hdf5_file.filename}, not {h5}"
            assert f"pulse={d}," in repr(g) + ",", repr(g)
            assert (g.nSamples, g.nPresamples, g.nPulses) == (data[expect[0]].shape[1], g.datasets[0].nPresamples, max(len(x) for x in data.values()))
            assert g.timestamp_offset == g.datasets[0].timestamp_offset
            assert g.shortname == f"{c['base']}, {len(chs)} chans", g.shortname
        else:
            assert repr(g) == f"TESGroup(noise={nd}, noise_only=True)", repr(g)
        if c["noise"]:
            assert g.hdf5_noisefile.filename == n5, f"noise results are kept in {g.hdf5_noisefile.filename}, not {n5}"
            assert only or f"noise={nd})" in repr(g), repr(g)
        else:
            assert g.hdf5_noisefile is None and "noise=None" in repr(g)
        marks = {}
        if not only:
            for ds in g.datasets:
                marks[ds.channum] = v = r.uniform(size=ds.nPulses).astype(np.float32)
                ds.p_filt_value[:] = v
        if c["noise"]:
            g.compute_noise(_rethrow=True) if not only else [ds.noise_records.compute_power_spectrum_reshape() for ds in g.datasets]
            psd = {ds.channum: np.array(ds.noise_records.noise_psd[:]) for ds in g.datasets}
        bad = expect[0] if c["bad"] and len(chs) > 1 and not only else None
        if bad is not None:
            g.set_chan_bad(bad, "why not")
            assert g.n_good_channels() == len(chs) - 1
    finally:
        ljh.close_group(g)
    if not only:
        g = mass.core.channel_group.RestoreTESGroup(h5, n5 if c["noise"] and (c["explicit"] or c["nnamed"]) else None)
        try:
            assert [ds.channum for ds in g.datasets] == chs, f"restored {[ds.channum for ds in g.datasets]}"
            assert g.hdf5_file.filename == h5
            if c["noise"]:
                assert g.hdf5_noisefile.filename == n5, f"restored with noise results from {g.hdf5_noisefile.filename}"
            assert g.good_channels == [ch for ch in chs if ch != bad]
            for ds in g.datasets:
                ch = ds.channum
                same(ds.p_filt_value[:], marks[ch], f"restored values of channel {ch}")
                assert os.path.realpath(ds.filename) == os.path.realpath(names[chs.index(ch)])
                same(ds.read_trace(0), data[ch][0], "restored channel's records")
                if c["noise"]:
                    assert os.path.realpath(ds.noise_records.filename) == os.path.realpath(nnames[chs.index(ch)]), f"channel {ch} restored with noise of {ds.noise_records.filename}"
                    same(ds.noise_records.noise_psd[:], psd[ch], f"restored noise of channel {ch}")
        finally:
            ljh.close_group(g)
    g = make(overwrite_hdf5_file=c["overwrite"])
    try:
        assert [ds.channum for ds in g.datasets] == expect
        assert g.good_channels == [ch for ch in expect if c["overwrite"] or ch != bad]
        for ds in g.datasets:
            if not only:
                same(ds.p_filt_value[:], marks[ds.channum] * (0 if c["overwrite"] else 1), f"opened again (overwrite: {c['overwrite']})")
            if c["noise"]:
                h = g.hdf5_noisefile[f"chan{ds.channum}"]
                same(h["noise_psd"][:], psd[ds.channum] * (0 if c["overwrite"] else 1), f"noise opened again (overwrite: {c['overwrite']})")
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries({**base, "p": P, "attr": st.booleans(), "bytes": st.booleans(), "notype": st.booleans(), "version": st.sampled_from([1, 1, 1, 1, None, 9]), "restore": st.booleans()}), quick=40, thorough=1000,
     rule="filters stored in the layout of earlier versions: a version-1 filter is loaded as the same filter, others are not loaded; non-trivial: a filter was computed and stored as version 1")
def old_filter(c, ctx):
    raw = setup(c, ctx.dir)
    g = opengroup(c, ctx.dir, raw)
    old = {}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for op in (["summ", c["p"][0], c["p"][1], 0], ["noise", 0, 0, 0]):
                apply(c, g, op, True)
            for ds in g:
                kw = {"fmax": [None, None, 2e4][c["p"][0] % 3], "f_3db": [None, 1e4][c["p"][1] % 2]}
                ds.compute_ats_filter(shift1=c["p"][2] % 2 == 0, minimum_n_pulses=8, forceNew=True, **kw)
                f = ds.filter
                old[ds.channum] = f
                h = ds.hdf5_group
                del h["filters"]
                grp = h.require_group("filters")
                for k, v in kw.items():
                    if v is not None:
                        grp.attrs[k] = v
                if not c["notype"]:
                    grp.attrs["filter_type"] = b"ats" if c["bytes"] else "ats"
                if c["version"] is not None:
                    grp.attrs["version"] = c["version"]
                avg = f.signal_model * f.nominal_peak
                if c["attr"]:
                    grp.attrs["avg_signal"] = avg
                else:
                    grp["avg_signal"] = avg
                grp["filt_aterms"] = (f.dt_model * f.nominal_peak).reshape((-1, 1))
    finally:
        ljh.close_group(g)
    ctx.nt(c["version"] == 1 and len(old) == c["nch"])
    g = opengroup(c, ctx.dir, raw, c["restore"])
    try:
        for ds in g:
            if ds.channum not in old:
                continue
            f, w = ds.filter, old[ds.channum]
            if c["version"] != 1:
                assert f is None, f"a filter stored as version {c['version']} was loaded"
                continue
            assert f._filter_type == w._filter_type == ds._filter_type == "ats" and f.is_arrival_time_safe
            assert (f.fmax, f.f_3db, f.cut_pre, f.cut_post) == (w.fmax, w.f_3db, 0, 0), (f.fmax, f.f_3db)
            for k in ("values", "dt_values", "const_values", "nominal_peak", "variance", "predicted_v_over_dv"):
                a, b = getattr(w, k), getattr(f, k)
                if a is None:
                    assert b is None, k
                    continue
                s = np.abs(a).max()
                from harness.gen import close
                close(b, a, 1e-4, 1e-6 * s, f"{k} of a filter stored as version 1")
    finally:
        ljh.close_group(g)
