"""P07: a bad or failing channel never affects the good ones."""
import contextlib
import io
import itertools
import os

import h5py
import numpy as np
import pylab as plt
from hypothesis import strategies as st

from harness import ljh, offw
from harness.core import sub
from harness.gen import seeds, rng, raises
from harness.tessnap import equal, snap as snap6, h5snap, controls, P, TB
import mass

RULE = "Each case is a history on a group of 1 to 5 channels; at least one channel must be good and one bad (or failed) at the same time at some point."
ASSUMPTIONS = ["faults are exceptions at the first use of an object the step needs, bad numbers in stored results, or everything cut",
               "compute_average_pulse with explicit masks and make_masks hand exceptions to the caller, by design",
               "reasons are text without NUL characters (HDF5 strings cannot hold them)"]

text = st.one_of(st.sampled_from(["", "noisy", "10 µV offset", "détecteur instable", "x" * 70000, "line\nbreak", " "]),
                 st.text(st.characters(exclude_categories=["Cs"], exclude_characters="\0"), max_size=30))


def chans_arg(draw, pool):
    """One argument of set_chan_good/bad: an integer or container, and the channels it names."""
    ids = draw(st.lists(st.sampled_from(pool), min_size=0, max_size=3))
    kind = draw(st.sampled_from(["int", "int", "np", "list", "tuple", "set", "array", "keys", "gen"]))
    return [kind, ids]


def real(kind, ids):
    if kind in ("int", "np"):
        f = int if kind == "int" else np.int64
        return [f(i) for i in ids]
    return [{"list": list, "tuple": tuple, "set": set, "array": lambda x: np.array(x, dtype=int), "keys": lambda x: dict.fromkeys(x).keys(), "gen": lambda x: {i: 0 for i in x}}[kind](ids)]


@st.composite
def marks(draw):
    mode = draw(st.sampled_from(["pulse", "pulse", "nonoise", "noise"]))
    n = draw(st.sampled_from([1, 2, 2, 3, 4, 5]))
    ch = sorted(draw(st.lists(st.sampled_from([1, 2, 3, 5, 11, 13, 21, 100, 1101]), min_size=n, max_size=n, unique=True)))
    empty = draw(st.lists(st.booleans(), min_size=n, max_size=n)) if mode != "noise" and draw(st.booleans()) else [False] * n
    if all(empty):
        empty[0] = False
    pool = ch + draw(st.sampled_from([[], [], [99]]))
    ops = []
    for _ in range(draw(st.integers(2, 12))):
        k = draw(st.sampled_from(["bad", "bad", "bad", "good", "good", "allgood", "reopen", "restore"]))
        if k in ("bad", "good"):
            args = [chans_arg(draw, pool) for _ in range(draw(st.integers(1, 3)))]
            if not any(real(*a) for a in args):
                args.append(["list", []])
            ops.append([k, args, draw(st.none() | text) if k == "bad" else None, draw(st.booleans())])
        else:
            ops.append([k])
    return dict(mode=mode, ch=ch, empty=empty, ops=ops, s=draw(seeds))


@sub(marks(), quick=120, thorough=1500, rule="lists of bad channels against a dictionary, with reopening")
def lists(c, ctx):
    d = ctx.dir
    r = rng(c["s"])
    chans = {ch: dict(data=r.randint(0, 5000, (0 if e else 4, 30))) for ch, e in zip(c["ch"], c["empty"])}
    noise = {ch: r.randint(900, 1100, (4, 30)) for ch in c["ch"]}
    noiseonly = c["mode"] == "noise"

    def opened(restore=False):
        if noiseonly:
            p = [f"{ljh.basename(d, '20240101_run0000', 'n')}_chan{ch}.ljh" for ch in c["ch"]]
            for q, ch in zip(p, c["ch"]):
                if not os.path.exists(q):
                    ljh.write22(q, noise[ch], chan=ch)
            return mass.TESGroup(None, p, noise_only=True, hdf5_noisefilename=os.path.join(d, "noise.hdf5"))
        if restore and c["mode"] == "pulse":
            return mass.core.channel_group.RestoreTESGroup(os.path.join(d, "mass.hdf5"), os.path.join(d, "noise.hdf5"))
        return ljh.tesgroup(d, chans, noise if c["mode"] == "pulse" else None)

    g = opened()
    here = [ch for ch, e in zip(c["ch"], c["empty"]) if not e]
    bad = {}

    def check(what):
        order = [ds.channum for ds in g.datasets]
        assert sorted(order) == here, f"{what}: channels {order}, should be {here}"
        good = [x for x in order if x not in bad]
        assert list(g.good_channels) == good, f"{what}: good channels {g.good_channels}, should be {good}"
        assert g.num_good_channels == g.n_good_channels() == len(good), f"{what}: numbers of good channels {g.num_good_channels}, {g.n_good_channels()}, should be {len(good)}"
        assert g.n_channels == len(here), f"{what}: n_channels={g.n_channels}, should be {len(here)}"
        assert [ds.channum for ds in g] == good and list(g.iter_channel_numbers()) == good and [ds.channum for ds in g.iter_channels()] == good, f"{what}: iteration"
        assert list(g.iter_channel_numbers(include_badchan=True)) == order == [ds.channum for ds in g.iter_channels(include_badchan=True)], f"{what}: iteration with bad channels"
        w = g.why_chan_bad
        assert w == bad, f"{what}: reasons {w}, should be {bad}"
        w.clear()
        assert set(g.channel) == set(here)
        if good:
            assert g.first_good_dataset is g.channel[good[0]]
            assert g.shortname.endswith(f", {len(good)} chans")
        else:
            assert raises(lambda: g.first_good_dataset, IndexError)
        for ch in here:
            assert (f"chan{ch}" in g.hdf5_file) and ("why_bad" in g.hdf5_file[f"chan{ch}"].attrs) == (ch in bad)

    check("new group")
    mixed = False
    for op in c["ops"]:
        if op[0] in ("bad", "good"):
            _, args, comment, first = op
            a = [x for k, ids in args for x in real(k, ids)]
            ids = {int(i) for _, x in args for i in x}
            if comment is not None:
                a = [comment, *a] if first else [*a, comment]
            if op[0] == "bad":
                if ids <= set(here):
                    g.set_chan_bad(*a)
                    for i in ids:
                        bad[i] = bad.get(i, []) + [comment or ""]
                else:
                    assert raises(lambda: g.set_chan_bad(*a), KeyError), f"set_chan_bad{a} accepted, for channels {here}"
            else:
                g.set_chan_good(*a)
                for i in ids:
                    bad.pop(i, None)
        elif op[0] == "allgood":
            g.set_all_chan_good()
            bad = {}
        else:
            ljh.close_group(g)
            g = opened(op[0] == "restore")
        check(str(op)[:200])
        mixed |= 0 < len(bad) < len(here)
    ljh.close_group(g)
    g = opened()
    check("at the end, reopened")
    ljh.close_group(g)
    ctx.nt(mixed)
    ctx.label(c["mode"])


class Broken:
    """Stands for an object of a channel that can't be used."""

    def __getattr__(self, name):
        raise RuntimeError(f"broken part, µ={id(type(self)) % 7}")

    def __getitem__(self, i):
        raise OSError("Can't read data (broken part)")

    def __setitem__(self, i, v):
        raise OSError("Can't write data (broken part)")

    def __len__(self):
        raise OSError("Can't read data (broken part)")


STEPS = ["summ", "auto", "cuts", "noise", "nlags", "white", "avg", "lag5", "ats", "filt", "drift", "phase", "tdc", "calibrate", "energy", "flux", "ext", "clear", "noise2", "masks"]
PIPE = [["summ"], ["auto", "cuts", "flux", "clear"], ["noise", "noise", "white", "noise2"], ["avg", "avg", "masks"], ["lag5", "ats"], ["filt"], ["drift", "ext"], ["phase", "tdc"], ["calibrate", "energy", "nlags"]]
FAULTS = ["cuts", "pulse_records", "noise_records", "hdf5_group", "p_filt_value", "p_pulse_average", "p_pretrig_mean", "noise_autocorr", "average_pulse", "p_pulse_rms", "p_timestamp", "p_subframecount"]
LASTING = ["nan noise", "cut all", "nan average", "zero pulses", "nan filtered"]
NEEDS = {"summ": ["pulse_records", "p_pretrig_mean"], "auto": ["cuts", "p_pretrig_rms"], "cuts": ["cuts"], "clear": ["cuts"], "noise": ["noise_records"], "noise2": ["noise_records"],
         "nlags": ["noise_records"], "ext": ["p_subframecount", "hdf5_group"], "flux": ["p_pretrig_mean"], "white": ["noise_autocorr"], "calibrate": ["cuts"], "lag5": ["average_pulse", "nan noise"],
         "ats": ["pulse_records", "nan noise"], "avg": ["p_pulse_average"]}
METHOD = {"summ": "summarize_data", "auto": "auto_cuts", "cuts": "apply_cuts", "noise": "compute_noise", "noise2": "compute_noise", "nlags": "compute_noise_nlags", "white": "assume_white_noise",
          "avg": "avg_pulses_auto_masks", "lag5": "compute_5lag_filter", "ats": "compute_ats_filter", "filt": "filter_data", "drift": "drift_correct", "phase": "phase_correct", "tdc": "time_drift_correct",
          "calibrate": "calibrate", "energy": "convert_to_energy", "flux": "flux jumps", "ext": "external_trigger", "clear": "clear_cuts"}


def step(x, name, p, force, group):
    """The same step for a group (x a TESGroup) or a channel alone (x a MicrocalDataSet)."""
    lim = {"fmax": [None, None, None, 2e4][p[0] % 4], "f_3db": [None, None, 1e4][p[1] % 3]}
    if name == "summ":
        x.summarize_data(pretrigger_ignore_microsec=[None, 2 * TB * 1e6 + .1][p[1] % 2], use_cython=p[1] % 4 > 0, doPretrigFit=p[2] % 2 == 0, forceNew=force)
    elif name == "noise":
        x.compute_noise(max_excursion=[1000, 25][p[0] % 2], forceNew=force)
    elif name == "noise2":
        x.compute_noise_spectra(max_excursion=[1000, 25][p[0] % 2], forceNew=force)
    elif name == "nlags":
        x.compute_noise_nlags(8 + 4 * p[0])
    elif name == "white":
        x.assume_white_noise(noise_variance=1.0 + p[0], forceNew=force)
    elif name == "auto":
        x.auto_cuts(nsigma_pt_rms=3.0 + p[0], nsigma_max_deriv=3. + p[1], forceNew=force)
    elif name == "cuts":
        x.apply_cuts(controls(p), clear=p[2] % 2 == 0)
    elif name == "clear":
        x.clear_cuts()
    elif name == "avg":
        x.avg_pulses_auto_masks(max_pulses_to_use=[7000, 9, 20][p[0] % 3], subtract_mean=p[1] % 4 > 0, forceNew=force)
    elif name == "ats":
        x.compute_ats_filter(**lim, cut_pre=[0, 3][p[2] % 2], shift1=p[0] % 3 > 0, minimum_n_pulses=8, forceNew=force)
    elif name == "lag5":
        x.compute_5lag_filter(**lim, cut_post=[0, 0, 4][p[1] % 3], forceNew=force)
    elif name == "filt":
        x.filter_data(forceNew=force)
    elif name == "drift":
        x.drift_correct(attr=["p_filt_value", "p_pulse_rms"][p[0] % 2], forceNew=force)
    elif name == "phase":
        x.phase_correct(attr=["p_filt_value", "p_filt_value_dc"][p[0] % 2], ph_peaks=[None, [4000., 8000.]][p[1] % 2], forceNew=force)
    elif name == "tdc":
        x.time_drift_correct(attr=["p_filt_value", "p_filt_value_dc"][p[0] % 2], sec_per_degree=40, pulses_per_degree=30, forceNew=force)
    elif name == "calibrate":
        x.calibrate("p_peak_value", [4000., 8000.], size_related_to_energy_resolution=40., fit_range_ev=400, bin_size_ev=8, nextra=1, maxacc=.1, curvetype="loglog", forceNew=force)
    elif name == "energy":
        x.convert_to_energy("p_peak_value")
    elif name == "flux":
        x.correct_flux_jumps(4096.)
    else:
        raise AssertionError(name)


def groupstep(g, name, p, force):
    """Steps that only exist for groups."""
    if name == "ext":
        g._external_trigger_subframe_count = 64 * np.cumsum(rng(p[0]).randint(5, 9000, 50))
        g.calc_external_trigger_timing(forceNew=force)
    elif name == "masks":
        lo, hi = 3000., 3000. + 1500 * p[0]
        g.compute_average_pulse(g.make_masks(pulse_peak_range=(lo, hi) if p[1] % 2 else None, pulse_avg_range=None if p[1] % 2 else (lo / 10, hi / 2)), subtract_mean=p[2] % 2 == 0, forceNew=force)


def lasting(ds, kind):
    n = ds.nPulses
    if kind == "nan noise":
        ds.noise_autocorr[:] = np.nan
    elif kind == "cut all":
        ds.cuts.cut("user", np.ones(n, dtype=bool))
    elif kind == "nan average":
        ds.average_pulse[:] = np.nan
    elif kind == "zero pulses":
        for a in ("p_filt_value", "p_pulse_average", "p_pulse_rms", "p_promptness"):
            getattr(ds, a)[:] = 0
    elif kind == "nan filtered":
        ds.p_filt_value[:] = np.nan


def setup(c, d, only=None):
    r = rng(c["s"])
    ns, npre = c["ns"], c["npre"]
    chans, noise = {}, {}
    for i in range(c["nch"]):
        ch = [1, 3, 11, 13][i]
        n = 50 + r.randint(60)
        h = np.where(r.rand(n) < .35, 4000., 8000.) * (1 + .002 * r.standard_normal(n))
        data, _ = ljh.pulses(r, n, ns, npre, base=1000, height=h, noise=3.0, tau=(4.0, 15.0))
        data = data.astype(int) + np.round(8 * np.sin(np.arange(n) / 9.))[:, None].astype(int)
        cnt = 64 * np.cumsum(r.randint(50, 4000, n))
        usec = 1_600_000_000_000_000 + np.cumsum(r.randint(2000, 4_000_000, n))
        nz = ljh.noise(r, 40, ns, sigma=3.0)
        if only in (None, ch):
            chans[ch] = dict(data=np.clip(data, 0, 65535), counts=cnt, usec=usec)
            noise[ch] = nz
    return ljh.tesgroup(d, chans, noise, hkw=dict(npre=npre, rows=8, cols=2, row=1, col=0, timebase=str(TB)))


def chansnap(g, d, ch):
    out = {k: v for k, v in snap6(g, d).items() if k.startswith((f"pulse:/chan{ch}/", f"pulse:/chan{ch}@", f"noise:/chan{ch}/", f"noise:/chan{ch}@", f"chan{ch} "))}
    out.pop(f"pulse:/chan{ch}@why_bad", None)
    for a in ("subframes_after_last_external_trigger", "subframes_until_next_external_trigger"):
        if a in g.hdf5_file[f"chan{ch}"]:
            out[a] = g.hdf5_file[f"chan{ch}"][a][:]
    return out


@st.composite
def fhistory(draw):
    ops = []
    nch = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    chan = st.integers(0, nch - 1)

    def one(name):
        faults = []
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
            faults.append([draw(chan), draw(st.sampled_from(LASTING if name == "masks" else NEEDS.get(name, FAULTS) if draw(st.booleans()) else FAULTS + LASTING))])
        ops.append([name] + draw(P) + [draw(st.booleans()), faults])
    for names in PIPE:
        one(draw(st.sampled_from(names)))
        x = draw(st.integers(0, 11))
        if x == 0:
            one(draw(st.sampled_from(STEPS)))
        elif x in (1, 2):
            ops.append(["bad", draw(chan)])
        elif x in (3, 4, 5):
            ops.append(["good", draw(st.lists(chan, min_size=1, max_size=3)), draw(st.booleans())])
        elif x == 6:
            ops.append(["reopen"])
    return dict(nch=nch, ops=ops, ns=draw(st.integers(50, 70)), npre=draw(st.integers(12, 18)), s=draw(seeds))


@sub(fhistory(), quick=60, thorough=700, rule="steps of a group with failures of some channels, against each channel analysed alone")
def failing(c, ctx):
    chs = [1, 3, 11, 13][:c["nch"]]
    gd = os.path.join(ctx.dir, "g")
    os.makedirs(gd)
    G = setup(c, gd)
    solo = {}
    for ch in chs:
        d = os.path.join(ctx.dir, f"s{ch}")
        os.makedirs(d)
        solo[ch] = [setup(c, d, ch), d]
    for g in [G] + [s[0] for s in solo.values()]:
        g.register_boolean_cut_fields("user")
    bad = {}  # channel -> list of strings expected in each reason
    mixed = fails = 0
    for op in c["ops"]:
        name = op[0]
        what = str(op)
        if name == "bad":
            ch = chs[op[1]]
            G.set_chan_bad(ch, "by hand")
            bad.setdefault(ch, []).append(["by hand"])
        elif name == "good":
            if op[2]:
                G.set_all_chan_good()
                bad = {}
            else:
                ids = [chs[i] for i in op[1]]
                G.set_chan_good(ids)
                for ch in ids:
                    bad.pop(ch, None)
        elif name == "reopen":
            ljh.close_group(G)
            G = setup(c, gd)
            for ch, s in solo.items():
                ljh.close_group(s[0])
                s[0] = setup(c, s[1], ch)
            for g in [G] + [s[0] for s in solo.values()]:
                g.register_boolean_cut_fields("user")
        else:
            p, force, faults = op[1:4], op[4], op[5]
            if name == "calibrate" and not all(np.all(G.channel[ch].p_peak_value[:] > 100) for ch in chs):
                continue  # (two accidental peaks near zero would need a huge inverse table)
            undo = []
            for i, kind in sorted(faults, key=lambda f: f[1] not in LASTING):
                ch = chs[i]
                for ds in (G.channel[ch], solo[ch][0].channel[ch]):
                    if kind in LASTING:
                        lasting(ds, kind)
                    elif not any(u[0] is ds and u[1] == kind for u in undo):
                        undo.append((ds, kind, getattr(ds, kind)))
                        ds.__dict__[kind] = Broken()
            expect = {}
            for ch in chs:
                if ch in bad:
                    continue
                g = solo[ch][0]
                ds = g.channel[ch]
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        if name in ("ext", "masks"):
                            groupstep(g, name, p, force)
                            w = g.why_chan_bad
                            g.set_all_chan_good()
                            if w:
                                expect[ch] = [METHOD[name]]
                        else:
                            step(ds, name, p, force, False)
                except Exception as e:
                    expect[ch] = [METHOD.get(name, ""), str(e) if name not in ("flux", "ext") else ""]
                    if os.environ.get("VERIF_SHOW") == "2":
                        print(name, ch, type(e), e)
            if name == "masks" and expect:
                # explicit masks have no loop that catches exceptions: the caller gets them
                assert raises(lambda: groupstep(G, name, p, force), Exception)
                for g in [G] + [s[0] for s in solo.values()]:
                    ljh.close_group(g)
                ctx.label("masks:raised")
                ctx.nt(mixed and fails)
                return
            with contextlib.redirect_stdout(io.StringIO()):
                if name in ("ext", "masks"):
                    groupstep(G, name, p, force)
                else:
                    step(G, name, p, force, True)
            for ds, kind, v in undo:
                ds.__dict__[kind] = v
            for ch, words in expect.items():
                bad.setdefault(ch, []).append(words)
            fails += len(expect)
            ctx.label(f"{name}:{'failed' if expect else 'ok'}")
        why = G.why_chan_bad
        assert set(why) == set(bad), f"after {what}: bad channels are {sorted(why)}, should be {sorted(bad)}; reasons {str(why)[:300]}"
        for ch, reasons in bad.items():
            assert len(why[ch]) == len(reasons), f"after {what}: channel {ch} has reasons {why[ch]}, expected {reasons}"
            for got, words in zip(why[ch], reasons):
                assert all(w in got for w in words), f"after {what}: channel {ch} has reason {got}, should mention {words}"
        assert G.good_channels == [ch for ch in chs if ch not in bad]
        mixed |= 0 < len(bad) < len(chs)
    for ch in chs:
        equal(chansnap(solo[ch][0], solo[ch][1], ch), chansnap(G, gd, ch), f"channel {ch} alone vs in the group")
    # Sums over the group are sums over the good channels
    edges = np.linspace(0, 12000, 40)
    attr = "p_peak_value"
    _, counts = G.hist(edges, attr)
    want = sum([solo[ch][0].channel[ch].hist(edges, attr)[1] for ch in chs if ch not in bad], np.zeros(39, dtype=int))
    assert np.array_equal(counts, want), f"group histogram {counts.sum()}, sum of good channels {want.sum()}"
    assert sorted(G.hists(edges, attr)[1]) == [ch for ch in chs if ch not in bad]
    reasons = G.why_chan_bad
    ljh.close_group(G)
    G = setup(c, gd)
    assert G.why_chan_bad == reasons, f"reopened: {G.why_chan_bad}, was {reasons}"
    for ch in chs:
        equal(h5only(solo[ch][0], solo[ch][1], ch), h5only(G, gd, ch), f"channel {ch} alone vs in the reopened group")
    for g in [G] + [s[0] for s in solo.values()]:
        ljh.close_group(g)
    ctx.nt(mixed and fails)


def h5only(g, d, ch):
    out = {}
    h5snap(g.hdf5_file[f"chan{ch}"], d, out)
    out.pop("@why_bad", None)
    return out


COUNT = itertools.count()
OSTEPS = ["drift", "phase", "tdc", "resid", "cut", "cutdef", "binsize", "plan", "cal", "align", "quality", "drop1", "hists"]
OFAULTS = ["recipes", "offFile", "_statesDict", "calibrationPlan", "_default_cut_recipe_name"]


@st.composite
def ohistory(draw):
    nch = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    chan = st.integers(0, nch - 1)
    ops = []
    if draw(st.integers(0, 3)):
        ops.append(["plan"] + draw(P) + [[]])
    for _ in range(draw(st.integers(2, 12))):
        k = draw(st.integers(0, 11))
        if k < 7:
            name = draw(st.sampled_from(OSTEPS + ["drift", "phase", "tdc", "resid", "cut"]))
            faults = [[draw(chan), draw(st.sampled_from(OFAULTS[:2] + OFAULTS))] for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2])))]
            ops.append([name] + draw(P) + [faults])
        elif k < 9:
            ops.append(["bad", draw(chan), draw(text)])
        elif k == 9:
            ops.append(["good", draw(chan)])
        elif k == 10:
            ops.append(["allgood"])
        else:
            ops.append(["nest", draw(st.lists(st.booleans(), max_size=3)), draw(st.booleans())])
    return dict(nch=nch, ops=ops, n=draw(st.integers(60, 200)), nan=draw(st.lists(chan, max_size=1)), flat=draw(st.lists(chan, max_size=1)), s=draw(seeds))


def oapply(x, name, p, ref=None, h5=None):  # noqa: PLR0912
    """The same step for an OFF ChannelGroup or a Channel. Recipes are overwritten half of the time (otherwise a second one fails)."""
    over = p[2] % 2 == 0
    states = [None, "A", ["A", "B"], "B", None, None, None][p[1]]
    if name == "drift":
        return x.learnDriftCorrection(states=states, overwriteRecipe=over)
    if name == "phase":
        return x.learnPhaseCorrection(linePositionsFunc=None if p[0] == 0 else linepos, uncorrectedName=["filtValue", "filtValueDC"][p[0] % 2], states=states, overwriteRecipe=over)
    if name == "tdc":
        return x.learnTimeDriftCorrection(uncorrectedName=["filtValue", "filtValueDC"][p[0] % 2], states=states, sec_per_degree=2, pulses_per_degree=40, overwriteRecipe=over)
    if name == "resid":
        return x.learnResidualStdDevCut(n_sigma_equiv=2 + p[0], states=states, overwriteRecipe=over, setDefault=p[0] % 2 == 0)
    if name == "cut":
        return x.cutAdd(f"cutPT{p[0] % 3}", lambda pretriggerMean: pretriggerMean < 1000 + 10 * p[0], setDefault=p[1] % 2 == 0, overwrite=over)
    if name == "cal":
        return x.calibrateFollowingPlan("filtValue", curvetype="loglog", dlo=400, dhi=400, binsize=40, overwriteRecipe=over)
    if name == "align":
        return x.alignToReferenceChannel(ref, "filtValue", np.arange(0, 12000, 50.), _peakLocs=[4000., 8000.], states=states)
    if name == "quality":
        lim = dict(worstAllowedFWHM=[None, 1., 400.][p[0] % 3], positionToleranceAbsolute=[None, 5., 1e4][p[1] % 3])
        kw = dict(attr="filtValue", binEdges=np.arange(3000, 5000, 40.), **lim)
        if h5 is not None:
            kw.update(resolutionPlot=p[2] % 3 == 0, hdf5Group=h5.require_group(f"q{len(h5)}"))
        line = mass.SpectralLine.quick_monochromatic_line("lab", 4000., .001, 0)
        try:
            return x.qualityCheckLinefit(line, **kw)
        finally:
            plt.close("all")
    if name == "hists":
        return x.histsToHDF5(h5, np.arange(0, 12000, 500.), "filtValue", cutRecipeName=[None, "cutNone"][p[0] % 2])
    if name == "drop1":
        return x.qualityCheckDropOneErrors([None, 1., 1e9][p[0] % 3], [None, 1.][p[1] % 2])
    raise AssertionError(name)


def linepos(ds):
    return [4000., 8000.]


def osnap(ds):
    out = {"recipes": list(ds.recipes.keys()), "default cut": ds._default_cut_recipe_name, "binsize": getattr(ds, "_default_bin_size", None), "n": len(ds)}
    for name in ds.recipes.keys():
        try:
            with np.errstate(all="ignore"):
                out[f"recipe {name}"] = np.asarray(ds.recipes.craft(name, ds.offFile) if "cut" not in name else ds.recipes._craftCut(name, ds.offFile)).astype(float)
        except Exception as e:
            out[f"recipe {name}"] = type(e).__name__
    plan = getattr(ds, "calibrationPlan", None)
    out["plan"] = None if plan is None else [plan.uncalibratedVals, list(plan.energies), [str(s) for s in plan.states]]
    return out


@sub(ohistory(), quick=60, thorough=700, rule="steps of a group of OFF channels with failures of some of them, against each channel analysed alone")
def off(c, ctx):
    chs = [1, 3, 11, 13][:c["nch"]]
    r = rng(c["s"])
    recs = {}
    for i, ch in enumerate(chs):
        a = offw.records(c["n"], 3, r=r)
        n = c["n"]
        h = np.where(r.rand(n) < .4, 4000., 8000.) * (1 + .003 * r.standard_normal(n))
        a["coefs"][:, 2] = h * (1 + 1e-5 * (a["pretriggerMean"] - 1000))
        a["coefs"][:, 1] = h * r.uniform(-.5, .5, n)
        if i in c["nan"]:
            a["coefs"][r.randint(n), 2] = np.nan
        if i in c["flat"]:
            a["pretriggerMean"] = 1000
            a["coefs"][:, 2] = 4000
        recs[ch] = a
    t = np.sort(np.concatenate([x["unixnano"] for x in recs.values()]))
    states = [(int(t[0]) - 500, "A"), (int(t[len(t) // 2]), "B")]

    def group(name, which):
        d = os.path.join(ctx.dir, name)
        os.makedirs(d)
        return offw.group(d, {ch: recs[ch] for ch in which}, states)

    G = group("g", chs)
    solo = {ch: group(f"s{ch}", [ch])[ch] for ch in chs}
    everyone = [G[ch] for ch in chs] + list(solo.values())
    bad = {}
    mixed = fails = 0

    def check(what):
        good = [ch for ch in chs if ch not in bad]
        assert list(G) == list(G.keys()) == good and len(G) == len(good), f"{what}: good channels {list(G)}, should be {good}"
        assert [ds.channum for ds in G.values()] == good and [(a, b.channum) for a, b in G.items()] == [(x, x) for x in good], what
        w = G.whyChanBad
        assert list(w) == [ch for ch in chs if ch in bad], f"{what}: bad channels {list(w)}, should be {sorted(bad)}; {w}"
        for ch, words in bad.items():
            assert (w[ch] == words) if isinstance(words, str) else all(x in w[ch] for x in words), f"{what}: channel {ch} bad because {w[ch]!r}, should mention {words}"
        with G.includeBad():
            assert list(G.keys()) == chs and len(G) == len(chs)
        assert list(G.keys()) == good
        if good:
            assert G.firstGoodChannel().channum == good[0]
        else:
            assert raises(G.firstGoodChannel, Exception)

    check("new group")
    for op in c["ops"]:
        name, what = op[0], str(op)[:150]
        if name == "bad":
            G[chs[op[1]]].markBad(op[2])
            bad[chs[op[1]]] = op[2]
        elif name == "good":
            G[chs[op[1]]].markGood()
            bad.pop(chs[op[1]], None)
        elif name == "allgood":
            G.markAllGood()
            bad = {}
        elif name == "nest":
            good = [ch for ch in chs if ch not in bad]
            with contextlib.ExitStack() as stack:
                with contextlib.suppress(ZeroDivisionError):
                    seen = []
                    for x in op[1]:
                        stack.enter_context(G.includeBad(x))
                        seen.append(x)
                        assert list(G.keys()) == (chs if x else good)
                        G.whyChanBad
                        assert list(G.keys()) == (chs if x else good), f"{what}: after looking at whyChanBad inside of includeBad({x})"
                    if op[2] and seen:
                        raise ZeroDivisionError
        elif name == "binsize":
            G.setDefaultBinsize(op[1] + 1.)
            for ds in solo.values():
                ds.setDefaultBinsize(op[1] + 1.)
        elif name == "plan":
            for ds in everyone:
                ds.calibrationPlanInit("filtValue")
                ds.calibrationPlanAddPoint(4000., "low", states="A" if op[1] == 0 else None, energy=2000.)
                if op[2] > 1:
                    ds.calibrationPlanAddPoint(8000., "high", energy=4000.)
        elif name == "cutdef":
            cut = ["cutNone", "cutPT0", "cutResidualStdDev", "nosuch"][op[1] % 4]
            good = [ch for ch in chs if ch not in bad]
            if cut.startswith("cut") and all(cut in solo[ch].recipes.keys() for ch in good):
                G.cutSetDefault(cut)
                for ch in good:
                    solo[ch].cutSetDefault(cut)
            else:
                before = [ds._default_cut_recipe_name for ds in everyone]
                assert raises(lambda: G.cutSetDefault(cut), AssertionError)
                assert before == [ds._default_cut_recipe_name for ds in everyone], f"{what}: a refused default cut was set in some channels"
        else:
            p, faults = op[1:4], op[4]
            undo = []
            for i, kind in faults:
                if name == "hists" and kind != "offFile":
                    continue
                for ds in (G[chs[i]], solo[chs[i]]):
                    if not any(u[0] is ds and u[1] == kind for u in undo):
                        undo.append((ds, kind, ds.__dict__.get(kind, undo)))
                        ds.__dict__[kind] = Broken()
            ok = []
            good = [ch for ch in chs if ch not in bad]
            h5all, h5alone = (h5py.File(f"{k}{next(COUNT)}", "w", driver="core", backing_store=False) for k in "ab")
            if name == "hists":
                cuts = {solo[ch]._default_cut_recipe_name for ch in good} if p[0] % 2 == 0 else {"cutNone"}
                if not good or len(cuts) != 1 or any(x not in solo[ch].recipes.keys() for ch in good for x in cuts):
                    good = None  # refused: the channels have no cut in common
            if name == "align" and any(ds in (G[good[0]], solo[good[0]]) if good else True for ds, *_ in undo):
                good = None  # a broken reference channel breaks the alignment of all
            for ch in good or []:
                try:
                    oapply(solo[ch], name, p, solo[good[0]], h5alone if name == "hists" else None)
                    ok.append(ch)
                    if solo[ch].markedBadBool:
                        bad[ch] = [name[:4], ""]
                        bad[ch] = solo[ch].markedBadReason
                        solo[ch].markGood()
                        fails += 1
                except Exception as e:
                    bad[ch] = [str(e), GMETHOD[name]]
                    fails += 1
                    if os.environ.get("VERIF_SHOW") == "2":
                        print(name, ch, type(e), e)
            if good is not None:
                ret = oapply(G, name, p, G[good[0]] if good else None, h5all)
                if name not in ("cut", "hists"):
                    assert list(ret) == ok, f"{what}: results for {list(ret)}, should be for {ok}"
            if name == "hists" and good is not None:
                assert set(h5all) == {str(ch) for ch in good} | {"all_channels"} | set(h5alone), f"{what}: HDF5 groups {sorted(h5all)}"
                tot = np.zeros(23, dtype=int)
                for ch in ok:
                    x, y = {}, {}
                    h5snap(h5alone[str(ch)], "", x)
                    h5snap(h5all[str(ch)], "", y)
                    equal(x, y, f"{what}: channel {ch}")
                    tot += x["/counts"]
                assert np.array_equal(h5all["all_channels/counts"][()], tot), f"{what}: sum over good channels {h5all['all_channels/counts'][()]}, should be {tot}"
            if name == "quality":
                grp = next(iter(h5all.values()))
                assert set(grp) == {str(ch) for ch in chs}
                for ch in chs:
                    x = next(iter(grp[str(ch)]["fits"].values()))
                    assert ("markedBadReason" in x) == (ch in bad) == ("fwhm" not in x)
            for ds, kind, v in undo:
                if v is undo:
                    del ds.__dict__[kind]
                else:
                    ds.__dict__[kind] = v
            ctx.label(f"{name}:{'failed' if good and len(ok) < len(good) else 'ok'}")
        check(what)
        mixed |= 0 < len(bad) < len(chs)
    for ch in chs:
        equal(osnap(solo[ch]), osnap(G[ch]), f"channel {ch} alone vs in the group")
    edges = np.linspace(0, 12000, 40)
    good = [ch for ch in chs if ch not in bad]
    with np.errstate(all="ignore"):
        _, counts = G.hist(edges, "filtValue")
        each = {ch: solo[ch].hist(edges, "filtValue")[1] for ch in chs}
        assert np.array_equal(counts, sum([each[ch] for ch in good], np.zeros(39, dtype=int))), "group histogram is not the sum of the good channels"
        _, hs = G.hists(edges, "filtValue")
    assert list(hs) == good and all(np.array_equal(hs[ch], each[ch]) for ch in good)
    ctx.nt(mixed and fails)


GMETHOD = {"drift": "learnDriftCorrection", "phase": "learnPhaseCorrection", "tdc": "learnTimeDriftCorrection", "resid": "learnResidualStdDevCut", "cut": "cutAdd", "cal": "calibrateFollowingPlan",
           "align": "alignToReferenceChannel", "quality": "qualityCheckLinefit", "drop1": "qualityCheckDropOneErrors", "hists": "histsToHDF5"}
