"""P29: LJH-to-OFF conversion and pulse models."""
import contextlib
import io
import json
import os
import sys
from argparse import Namespace
from unittest import mock

import h5py
import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from harness import ljh
from harness.core import sub
from harness.gen import close, raises, rng, same, seeds
import mass
import mass.off
from mass.core.pulse_model import PulseModel

RULE = ("Each case generates LJH files (samples, counters, times, layouts, versions) with projectors, or a pulse model, or a whole TESGroup; "
        "non-trivial when at least three records (or two files, or one extra component) take part.")
ASSUMPTIONS = ["filters smoothed with f_3db are no exact inverse of their basis by construction (the user asks for it), so that is judged without smoothing only", "OFF format 0.3.0 only (the one the converter writes)", "coefficients are stored as float32, so they are compared at that precision",
               "the additional components come from a randomised range finder: their span is judged, not their order or sign",
               "at least two presamples remain after the ignored ones (the pretrigger slope needs two)"]


# ---- independent reader of the OFF format
def readoff(path):
    with open(path, "rb") as f:
        raw = f.read()
    hdr, end = json.JSONDecoder().raw_decode(raw[:65536].decode("latin1"))
    assert raw[end:end + 1] == b"\n", "no newline after the OFF header"
    i = end + 1
    out = []
    for k in ("Projectors", "Basis"):
        sh = hdr["ModelInfo"][k]["Rows"], hdr["ModelInfo"][k]["Cols"]
        nb = 8 * sh[0] * sh[1]
        out.append(np.frombuffer(raw[i:i + nb], "<f8").reshape(sh))
        i += nb
    dt = np.dtype([("ns", "<i4"), ("npre", "<i4"), ("frame", "<i8"), ("nano", "<i8"), ("ptm", "<f4"), ("ptd", "<f4"), ("std", "<f4"),
                   ("coefs", "<f4", (hdr["NumberOfBases"],))])
    assert (len(raw) - i) % dt.itemsize == 0, f"{len(raw) - i} bytes of records, not a multiple of {dt.itemsize}"
    return hdr, out[0], out[1], np.frombuffer(raw[i:], dt)


def ljhfile(path, r, n, ns, npre, lay, version, kind, t0):
    """Write one LJH file. Returns what it holds: data, frame counts, unixnano (None: only to 1e-6 s)."""
    data = {0: lambda: r.randint(0, 65536, (n, ns)), 1: lambda: ljh.pulses(r, n, ns, npre)[0], 2: lambda: np.tile(r.randint(0, 65536, (n, 1)), (1, ns)),
            3: lambda: r.choice([0, 65535, 32768], (n, ns))}[kind]().astype(np.uint16)
    rows, cols, row, col, div, off = lay
    kw = dict(npre=npre, rows=rows, cols=cols, row=row, col=col, subdiv=div, suboff=off, timebase="1.28e-05")
    d = div or rows or 1
    if version == "2.2.0":
        counts = r.randint(0, 10**6) + np.cumsum(r.randint(1, 10**r.randint(1, 12), n))
        usec = t0 + np.cumsum(r.randint(0, 10**r.randint(1, 9), n))
        ljh.write22(path, data, counts, usec, version=version, **kw)
        return data, counts // d, usec * 1000
    ms = np.cumsum(r.randint(1, 5000, n))
    with open(path, "wb") as f:
        f.write(ljh.header(version=version, nsamp=ns, **kw))
        f.write(ljh.body21(data, r.randint(0, 250, n), ms))
    return data, None, None


def judge(rec, data, P, B, npre, ignore, what, eps=0.0):
    """The records of an OFF file against the samples they come from."""
    x = data.astype(float)
    P, B = np.asarray(P, float), np.asarray(B, float)
    scale = np.abs(x) @ np.abs(P).T
    mpc = x @ P.T
    lim = 2e-7 * np.abs(mpc) + (1e-12 + eps) * scale + 1e-37
    assert np.all(np.abs(rec["coefs"] - mpc) <= lim), f"{what}: coefficients differ from the projections by {np.max(np.abs(rec['coefs'] - mpc) - lim)}"
    res = x - mpc @ B.T
    rs = np.max(scale @ np.abs(B).T + np.abs(x), axis=1)
    assert np.all(np.abs(rec["std"] - res.std(axis=1)) <= 1e-6 * res.std(axis=1) + (1e-11 + 30 * eps) * rs), f"{what}: residualStdDev is not that of the samples minus the model"
    m = npre - ignore
    close(rec["ptm"], x[:, :m].mean(axis=1), 3e-7, 1e-6, f"{what}: pretriggerMean")
    t = np.arange(m) - (m - 1) / 2
    close(rec["ptd"], (x[:, :m] @ t) / (t @ t) * (m - 1), 1e-6, 1e-6, f"{what}: pretriggerDelta")


LAY = st.sampled_from([[1, 1, 0, 0, None, None], [8, 2, 3, 1, None, None], [32, 4, 31, 0, None, None], [1, 1, 0, 0, 64, 0], [4, 1, 2, 0, 16, 5], [None, None, None, None, None, None],
                       [30, 1, 2, 0, 1, 0]])


def projs(r, ns, nb, kind):
    B = np.vstack([np.ones(ns)] + [r.standard_normal(ns) * 10.**r.uniform(-2, 2) for _ in range(nb - 1)]).T
    if kind[0] == 0:
        P = r.standard_normal((nb, ns))
    else:
        w = r.uniform(.5, 2, ns)
        P = np.linalg.solve((B.T * w) @ B, B.T * w)
    dt = [np.float64, np.float64, np.float32, ">f8", np.int64][kind[1] % 5]
    if dt is np.int64:
        P, B = np.round(10 * P), np.round(10 * B)
    P, B = P.astype(dt), B.astype(dt)
    if kind[2]:
        P, B = np.asfortranarray(P), np.asfortranarray(B)
    return P, B, 3e-6 if dt is np.float32 else 0.0


@sub(st.fixed_dictionaries(dict(s=seeds, ns=st.integers(8, 60), pre=st.integers(0, 100), nb=st.integers(3, 6), n=st.lists(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(100, 320)), min_size=1, max_size=3),
                                ignore=st.integers(0, 3), lay=LAY, ver=st.sampled_from(["2.2.0", "2.2.0", "2.2.0", "2.1.0"]), kind=st.integers(0, 3),
                                proj=st.lists(st.integers(0, 4), min_size=3, max_size=3).map(lambda k: [k[0] % 3, k[1], k[2] % 2]), chan=st.sampled_from([1, 2, 117, 30001]), t=st.integers(0, 3))), 2000, 30000,
     "three or more records converted")
def convert(c, ctx):
    r = rng(c["s"])
    d = ctx.dir
    ns = c["ns"]
    npre = max(2 + c["ignore"], min(ns - 2, 2 + c["pre"] * (ns - 4) // 100))
    P, B, eps = projs(r, ns, c["nb"], c["proj"])
    paths, truth = [], []
    t0 = [0, 1_600_000_000_000_000, 1_700_000_000_123_457, 4_000_000_000_000_001][c["t"]]
    for i, n in enumerate(c["n"]):
        paths.append(os.path.join(d, f"f{i}_chan{c['chan']}.ljh"))
        truth.append(ljhfile(paths[-1], r, n, ns, npre, c["lay"], c["ver"], c["kind"], t0))
    Pin, Bin = P.copy(), B.copy()
    off = os.path.join(d, f"out_chan{c['chan']}.off")
    if len(paths) == 1:
        mass.ljh2off.ljh2off(paths[0], off, P, B, c["ignore"], "some model.hdf5")
    else:
        mass.ljh2off.multi_ljh2off(paths, off, P, B, c["ignore"], "some model.hdf5")
    same(P, Pin, "the projectors given"), same(B, Bin, "the basis given")
    hdr, p, b, rec = readoff(off)
    ctx.nt(len(rec) >= 3)
    ctx.label(f"proj{c['proj'][1]}", f"files{len(paths)}", "segments" if any(n > 130 for n in c["n"]) else "one segment", c["ver"])
    same(p, np.asarray(P, float), "projectors in the file"), same(b, np.asarray(B, float), "basis in the file")
    assert len(rec) == sum(c["n"]), f"{sum(c['n'])} records became {len(rec)}"
    rows, cols, row, col, div, suboff = c["lay"]
    assert hdr["FileFormat"] == "OFF" and hdr["NumberOfBases"] == c["nb"] and hdr["FramePeriodSeconds"] == 1.28e-5
    ri = hdr["ReadoutInfo"]
    assert ri["NumberOfRows"] == (rows or 1) and ri["NumberOfColumns"] == (cols or 1), ri
    if rows is not None:
        assert ri["RowNum"] == row and ri["ColumnsNum"] == col, ri
    assert np.all(rec["ns"] == ns) and np.all(rec["npre"] == npre), "record lengths"
    data = np.vstack([t[0] for t in truth])
    judge(rec, data, P, B, npre, c["ignore"], "converted", eps)
    if c["ver"] == "2.2.0":
        same(rec["frame"], np.concatenate([t[1] for t in truth]), "frame counts")
        same(rec["nano"], np.concatenate([t[2] for t in truth]), "unixnano")
    else:
        fs = [mass.LJHFile.open(q) for q in paths]
        same(rec["frame"], np.concatenate([f.subframecount // f.subframe_divisions for f in fs]), "frame counts")
        assert np.all(np.abs(rec["nano"] - 1e9 * np.concatenate([f.datatimes_float for f in fs])) <= 1001), "unixnano"
    # the package's own OFF readers
    o = mass.off.OffFile(off)
    assert o.nRecords == len(rec), "records in OffFile"
    same(o.projectors, p, "OffFile projectors"), same(o.basis, b, "OffFile basis")
    for i in {0, len(rec) - 1}:
        close(o.modeledPulse(i), b @ rec["coefs"][i].astype(float), 1e-6, 1e-5 * np.max(np.abs(b) @ np.abs(rec["coefs"][i])) + 1e-30, "modeledPulse")
    if c["chan"] != 30001:
        with contextlib.redirect_stdout(io.StringIO()):
            g = mass.off.ChannelGroup([off], verbose=False, experimentStateFile=_states(d, t0))
        ds = g[c["chan"]]
        dv = div or rows or 1
        assert ds.subframeDivisions == dv, f"{dv} subframe divisions became {ds.subframeDivisions}"
        fine = np.asarray(o["framecount"]) < 2**62 // dv
        same(np.asarray(ds.subframecount)[fine], (rec["frame"] * dv)[fine], "subframe counts")
    # at once is the same as one after the other
    if len(paths) > 1:
        parts = []
        for q in paths:
            mass.ljh2off.multi_ljh2off([q], off + "1", P, B, c["ignore"], "some model.hdf5")
            parts.append(readoff(off + "1")[3])
        for k in rec.dtype.names:
            close(rec[k], np.concatenate(parts)[k], 1e-6 if rec[k].dtype.kind == "f" else 0, 1e-5 * np.max(np.abs(rec[k])) if eps and rec[k].dtype.kind == "f" else 1e-9, f"one output or several: {k}")
    # records of another length are refused
    assert raises(lambda: mass.ljh2off.ljh2off(paths[0], off + "2", P[:, :-1], B[:-1], c["ignore"], "x"), Exception), "projectors of the wrong length were accepted"


def _states(d, t0):
    p = os.path.join(d, "st_experiment_state.txt")
    with open(p, "w") as f:
        f.write(f"# unix time in nanoseconds, state label\n{max(t0, 1) * 1000 - 1}, START\n")
    return p


def pm(r, ns, nb=3, T=None, extra=0, **kw):
    """A pulse model with weighted left-inverse projectors on a three-dimensional basis."""
    t = np.arange(ns) - ns // 3
    pulse = np.where(t > 0, np.exp(-t / 12.) - np.exp(-t / 4.), 0) * (1 + .1 * r.standard_normal())
    pulse /= pulse.max()
    B = np.vstack([np.ones(ns), np.gradient(pulse), pulse]).T
    R = scipy.linalg.toeplitz(r.uniform(.1, .8)**np.arange(ns))
    W = np.linalg.inv(R)
    P = np.linalg.solve(B.T @ W @ B, B.T @ W)
    if T is None:
        T = B @ np.vstack([r.uniform(500, 5000, 9), r.standard_normal(9), r.uniform(1e3, 9e3, 9)]) + r.standard_normal((ns, 9))
    f5 = P[2, 2:-2].copy()
    a = dict(v_dv=r.uniform(100, 5000), rm=r.uniform(1, 9), rs=r.uniform(.1, 3), fn=f"/a/b {r.randint(99)}é_chan1.ljh", avg=pulse * 1000, psd=r.uniform(1, 9, ns // 2 + 1), df=r.uniform(1, 99), ac=R[0])
    return PulseModel(P.copy(), B.copy(), nb, T, a["v_dv"], a["rm"], a["rs"], a["fn"], extra, f5, a["avg"], a["psd"], a["df"], a["ac"], **kw), P, B, T, a


ATTR = ["projectors", "basis", "n_basis", "pulses_for_svd", "v_dv", "pretrig_rms_median", "pretrig_rms_sigma", "file_name", "extra_n_basis_5lag", "f_5lag",
        "average_pulse_for_5lag", "noise_psd", "noise_psd_delta_f", "noise_autocorr"]


def msame(a, b, what):
    for k in ATTR:
        x, y = getattr(a, k), getattr(b, k)
        assert x == y if isinstance(x, str) else np.array_equal(x, y), f"{what}: {k} changed from {x!r} to {y!r}"


@sub(st.fixed_dictionaries(dict(s=seeds, ns=st.integers(30, 70), nsvd=st.integers(0, 5), extra=st.sampled_from([0, 0, 1, 2, 5, 6]), train=st.sampled_from(["rank", "rank", "gap", "full", "few", "zero"]),
                                n=st.integers(1, 40), rank=st.integers(0, 5), inv=st.booleans(), uint=st.booleans())), 1500, 25000, "one or more additional components")
def model(c, ctx):
    r = rng(c["s"])
    ns, k, n = c["ns"], c["nsvd"], c["n"]
    _, P, B, _, _ = pm(rng(c["s"]), ns)
    X = r.standard_normal((ns, 6)) * 100
    if c["train"] == "few":
        n = min(n, 3)
    T = B @ np.vstack([r.uniform(500, 5000, n), r.standard_normal(n), r.uniform(1e3, 9e3, n)])
    if c["train"] in {"rank", "gap"}:
        T = T + X[:, :c["rank"]] @ r.standard_normal((c["rank"], n))
    if c["train"] == "gap":
        T = T + 1e-3 * r.standard_normal((ns, n))
    if c["train"] in {"full", "few"}:
        T = T + 30 * r.standard_normal((ns, n))
    if c["train"] == "zero":
        T = np.zeros((ns, n))
    if c["uint"] and c["train"] == "full":
        T = np.clip(np.round(T), 0, 65535).astype(np.uint16)
    nb = 3 + k + c["extra"]
    ctx.nt(nb > 3)
    ctx.label(c["train"], f"extra{c['extra']}", "inverted" if c["inv"] else "upright")
    m, P, B, T, a = pm(rng(c["s"]), ns, nb, T, c["extra"])
    x = T.astype(float)
    assert m.projectors.shape == (nb, ns) and m.basis.shape == (ns, nb), f"{m.projectors.shape} projectors with {m.basis.shape} basis for {nb} components"
    cond = np.abs(m.projectors) @ np.abs(m.basis)
    err = np.abs(m.projectors @ m.basis - np.eye(nb))
    assert np.all(err <= 1e-10 * np.maximum(cond, 1)), f"projectors times basis differs from the identity by {err.max():.2g}"
    # the first components, their meaning and the coefficients they give are those of the filters
    same(m.basis[:, :3], B, "first components"), same(m.projectors[:3], P, "first projectors")
    names = m.labels()
    assert len(names) == nb and len(set(names)) == nb and names[:3] == ["const", "deriv", "pulse"], f"labels {names}"
    assert sum(x.startswith("5lag") for x in names) == c["extra"] and all(x.startswith("5lag") for x in names[nb - c["extra"]:]), f"{c['extra']} 5-lag components in {names}"
    # what is left of the training pulses
    first = x - B @ (P @ x)
    left = x - m.basis @ (m.projectors @ x)
    tol = 1e-9 * max(np.linalg.norm(x), 1e-30)
    assert np.linalg.norm(left) <= np.linalg.norm(first) * (1 + 1e-9) + tol, "more components, but larger residuals in the training data"
    sv = np.linalg.svd(first, compute_uv=False)
    tail = np.sqrt(np.sum(sv[k:]**2))
    if not c["extra"]:
        assert np.linalg.norm(left) >= tail - tol, "residuals below those of the best possible components"
    if c["train"] in {"rank", "few", "zero"} and k >= np.sum(sv > 1e-9 * np.linalg.norm(x)):
        assert np.linalg.norm(left) <= tol, f"{np.sum(sv > 1e-9 * np.linalg.norm(x))} residual directions in the training data, but {k} extra components leave {np.linalg.norm(left)}"
    if c["train"] == "gap" and k == c["rank"] and n >= k and k > 0 and sv[min(k, n) - 1] > 30:
        assert np.linalg.norm(left) <= 100 * tail + tol, f"extra components miss the main residuals: {np.linalg.norm(left)} left, best {tail}"
    if c["extra"] >= 5:
        F = np.array([np.concatenate([np.zeros(i), P[2, 2:-2], np.zeros(4 - i)]) for i in range(5)]).T
        close(m.basis @ (m.projectors @ F), F, 0, 1e-8 * np.abs(F).max(), "shifted filters in the basis")
    assert raises(lambda: pm(rng(c["s"]), ns, 2 + c["extra"], T, c["extra"]), Exception), "fewer than three components were accepted"
    # storage
    keep = {q: np.copy(getattr(m, q)) for q in ATTR}
    with h5py.File(os.path.join(ctx.dir, "m.hdf5"), "w") as h5:
        m.toHDF5(h5.create_group("1"), c["inv"])
        for q in ATTR:
            assert np.array_equal(keep[q], getattr(m, q)), f"saving the model changed its {q}"
        m.toHDF5(h5.create_group("2"), not c["inv"])
        for g in ("1", "2"):
            inv = bool(h5[g]["svdbasis/was_saved_inverted"][()])
            assert inv == (c["inv"] if g == "1" else not c["inv"])
            b = PulseModel.fromHDF5(h5[g])
            if not inv:
                msame(m, b, "saved and reloaded")
            else:
                d = np.clip(np.round(x[:, :5]), 0, 65535)
                up, down = m.projectors @ d, b.projectors @ (65535 - d)
                sc = np.abs(m.projectors) @ np.full(ns, 65535.)
                close(down[1:], up[1:], 1e-9, 1e-10 * sc[1:].max() * 100, "coefficients of inverted data with the model saved for it")
                close(down[0], 65535 - up[0], 1e-9, 1e-10 * sc[0] * 100, "mean of inverted data with the model saved for it")
                close(b.projectors @ b.basis, np.eye(nb), 0, 1e-10 * max(cond.max(), 1), "inverted projectors times basis")
                for q in ATTR[2:]:
                    x1, y1 = getattr(m, q), getattr(b, q)
                    assert np.array_equal(x1, y1), f"saved and reloaded: {q} changed"
                b.toHDF5(h5.create_group("3"), True)
                msame(m, PulseModel.fromHDF5(h5["3"]), "inverted twice")
        del h5["1/svdbasis/version"]
        h5["1/svdbasis/version"] = 1
        assert raises(lambda: PulseModel.fromHDF5(h5["1"]), Exception), "a model of another version was loaded"


@sub(st.fixed_dictionaries(dict(s=seeds, chans=st.lists(st.integers(1, 40), min_size=1, max_size=4, unique=True), bases=st.integers(1, 3), miss=st.lists(st.integers(0, 3), min_size=12, max_size=12),
                                other=st.booleans(), maxch=st.sampled_from([99, 99, 1, 2]), ignore=st.integers(0, 2), how=st.sampled_from(["multi", "multi", "loop", "loop", "nostate", "main"]), same=st.booleans())), 800, 12000,
     "two or more channels or files")
def loop(c, ctx):
    r = rng(c["s"])
    d = ctx.dir
    ns, npre = 30, 8
    bases = c["bases"] if c["how"] == "multi" else 1
    src = os.path.join(d, "chan source")
    os.makedirs(src)
    h5p = os.path.join(d, "model.hdf5")
    models = {}
    with h5py.File(h5p, "w") as h5:
        for ch in c["chans"]:
            models[ch] = pm(r, ns, 3 + ch % 3)[0]
            models[ch].toHDF5(h5.create_group(str(ch)), ch % 5 == 0)
            if ch % 5 == 0:
                models[ch] = PulseModel.fromHDF5(h5[str(ch)])
    files = {}
    for i, ch in enumerate(sorted(c["chans"]) + ([41] if c["other"] else [])):
        for b in range(bases):
            if c["miss"][(3 * i + b) % 12]:
                q = os.path.join(src, f"b{b}_chan{ch}.ljh")
                files.setdefault(ch, []).append((q, ljhfile(q, r, r.randint(1, 6), ns, npre, [4, 1, ch % 4, 0, None, None], "2.2.0", 1, 1_600_000_000_000_000)))
    ctx.nt(sum(len(v) for v in files.values()) >= 2)
    ctx.label(c["how"], f"bases{bases}")
    want = [ch for ch in sorted(models) if ch in files][:c["maxch"]]
    out = src if c["same"] and c["how"] != "main" else os.path.join(d, "out")
    lb = [os.path.join(src, f"b{b}") for b in range(bases)]
    base = os.path.join(out, "b0")
    st_src, st_text = lb[0] + "_experiment_state.txt", "# unix time in nanoseconds, state label\n1, START\n22, é A\n"
    if c["how"] in {"loop", "main"}:
        with open(st_src, "w", encoding="utf8") as f:
            f.write(st_text)
    with contextlib.redirect_stdout(io.StringIO()):
        if c["how"] != "main":
            os.makedirs(out, exist_ok=True)
        if c["how"] == "multi":
            base = os.path.join(out, "all")
            got, offs = mass.ljh2off.multi_ljh2off_loop(lb, h5p, base, c["maxch"], c["ignore"], show_progress=False)
        elif c["how"] in {"loop", "nostate"}:
            one = lb[0] + f"_chan{c['chans'][0]}.ljh"
            if c["how"] == "nostate":
                assert raises(lambda: mass.ljh2off.ljh2off_loop(one, h5p, out, c["maxch"], c["ignore"], show_progress=False), Exception), "a missing experiment state file was not noticed"
            got, offs = mass.ljh2off.ljh2off_loop(one, h5p, out, c["maxch"], c["ignore"], require_experiment_state=c["how"] == "loop", show_progress=False)
            got = [[q] for q in got]
        else:
            if not want:
                return
            argv = ["ljh2off", lb[0] + "_chan1.ljh", h5p, out, "-m", str(c["maxch"]), "--n_ignore_presamples", str(c["ignore"])]
            with mock.patch.object(sys, "argv", argv):
                mass.ljh2off.main()
                before = {q: os.stat(os.path.join(out, q)).st_mtime_ns for q in os.listdir(out)}
                assert raises(mass.ljh2off.main, SystemExit), "an existing output directory was written to without being asked"
                assert before == {q: os.stat(os.path.join(out, q)).st_mtime_ns for q in os.listdir(out)}
            with mock.patch.object(sys, "argv", [*argv, "-r"]):
                mass.ljh2off.main()
            offs = sorted((os.path.join(out, q) for q in os.listdir(out) if q.endswith(".off")), key=lambda q: int(q.split("chan")[-1][:-4]))
            got = [[q for q, _ in files[ch]] for ch in want]
    assert [os.path.abspath(q) for q in offs] == [f"{base}_chan{ch}.off" for ch in want], f"wrote {offs}, expected channels {want}"
    assert got == [[q for q, _ in files[ch]] for ch in want], f"from {got}, expected {[[q for q, _ in files[ch]] for ch in want]}"
    assert sorted(q for q in os.listdir(out) if q.endswith(".off")) == sorted(os.path.basename(q) for q in offs), "other OFF files appeared"
    for ch in want:
        hdr, p, b, rec = readoff(f"{base}_chan{ch}.off")
        same(p, models[ch].projectors, f"channel {ch} projectors"), same(b, models[ch].basis, f"channel {ch} basis")
        assert hdr["ModelInfo"]["ModelFile"] == h5p and hdr["PulseFile"] == files[ch][0][0], (hdr["ModelInfo"]["ModelFile"], hdr["PulseFile"])
        data = np.vstack([t[0] for _, t in files[ch]])
        assert len(rec) == len(data), f"channel {ch}: {len(data)} records became {len(rec)}"
        judge(rec, data, p, b, npre, c["ignore"], f"channel {ch}")
        same(rec["nano"], np.concatenate([t[2] for _, t in files[ch]]), f"channel {ch} unixnano")
        same(rec["frame"], np.concatenate([t[1] for _, t in files[ch]]), f"channel {ch} frame counts")
    if c["how"] in {"loop", "main"}:
        with open(base + "_experiment_state.txt", encoding="utf8") as f:
            assert f.read() == st_text, "the experiment state file was not copied as it is"
    again = mass.ljh2off.load_pulse_models(h5p)
    assert list(again) == sorted(models)
    for ch in models:
        msame(models[ch], again[ch], f"model of channel {ch}")


def rawgroup(c, r):
    ns, npre, n = c["ns"], c["npre"], c["n"]
    chans, noise = {}, {}
    for ch in c["chans"]:
        h = np.where(r.rand(n) < .3, 4000., 8000.) * (1 + .01 * r.standard_normal(n))
        data, _ = ljh.pulses(r, n, ns, npre, base=2000 + ch, height=h, noise=3.0, tau=(4.0, 15.0))
        nz = ljh.noise(r, 40, ns, base=2000 + ch, sigma=3.0)
        if c["inv"]:
            data, nz = 65535 - data, 65535 - nz
        chans[ch] = dict(data=data, counts=8 * np.cumsum(r.randint(50, 4000, n)), usec=1_600_000_000_000_001 + np.cumsum(r.randint(2000, 4_000_000, n)))
        noise[ch] = nz
    return chans, noise, dict(npre=npre, rows=8, cols=2, row=1, col=0, timebase="1e-05")


def prepare(g, c):
    for ds in g:
        ds.invert_data = c["inv"]
    g.summarize_data()
    g.auto_cuts(nsigma_pt_rms=10000, nsigma_max_deriv=c["maxderiv"])
    g.compute_noise()
    g.compute_ats_filter(shift1=False, optimize_dp_dt=c["dpdt"], f_3db=c["f3"], _rethrow=True)


GRP = dict(s=seeds, ns=st.integers(50, 70), npre=st.integers(13, 18), n=st.integers(40, 70), chans=st.sampled_from([[1], [1, 3], [2, 7], [5, 1]]), inv=st.sampled_from([False, False, True]),
           maxderiv=st.sampled_from([8, 30]), dpdt=st.booleans(), f3=st.sampled_from([None, None, 2e4]), nsvd=st.integers(0, 3), extra=st.sampled_from([0, 0, 2]), maxp=st.sampled_from([4000, 25]),
           f5=st.sampled_from([None, 1e4]))


def gls(m, ds, c, what):
    """The first three projectors are the minimum-variance left inverse of their basis for the measured noise."""
    ns = m.basis.shape[0]
    R = scipy.linalg.toeplitz(m.noise_autocorr[:ns])
    B = m.basis[:, :3]
    W = np.linalg.inv(R)
    best = np.linalg.solve(B.T @ W @ B, B.T @ W)
    for i, nm in enumerate(["mean", "derivative", "pulse height"]):
        v, v0 = m.projectors[i] @ R @ m.projectors[i], best[i] @ R @ best[i]
        assert v <= v0 * (1 + 1e-6), f"{what}: noise variance {v} of the {nm} coefficient; {v0} is possible"


@sub(st.fixed_dictionaries(dict(**GRP, given=st.booleans(), cat=st.booleans(), ignore=st.integers(0, 3))), 250, 5000, "every case")
def group(c, ctx):
    r = rng(c["s"])
    d = os.path.join(ctx.dir, "chan 7 data")
    os.makedirs(d)
    ctx.nt(True)
    chans, noise, hkw = rawgroup(c, r)
    nb = 3 + c["nsvd"] + c["extra"]
    g = ljh.tesgroup(d, chans, noise, hkw=hkw)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            prepare(g, c)
            kw = dict(n_basis=nb, maximum_n_pulses=c["maxp"], extra_n_basis_5lag=c["extra"], f_3db_5lag=c["f5"])
            if c["cat"]:
                g.register_categorical_cut_field("k", ["x", "y"])
                for ds in g:
                    ds.cuts.cut("k", np.where(np.arange(ds.nPulses) % 3 > 0, g.cut_field_categories("k")["x"], g.cut_field_categories("k")["y"]).astype(np.uint32))
                kw["category"] = {"k": "x"}
            if c["given"]:
                h5p = os.path.join(d, "given.hdf5")
                with h5py.File(h5p, "w") as h5:
                    assert g.pulse_model_to_hdf5(h5, **kw) == h5p
            else:
                h5p = g.pulse_model_to_hdf5(_rethrow=True, **kw)
                assert h5p == ljh.basename(d) + "_model.hdf5", f"model file {h5p}"
                with open(h5p, "rb") as f:
                    old = f.read()
                assert raises(lambda: g.pulse_model_to_hdf5(_rethrow=True, **kw), Exception), "an existing model file was overwritten without being asked"
                with open(h5p, "rb") as f:
                    assert f.read() == old
                g.pulse_model_to_hdf5(_rethrow=True, replace_output=True, **kw)
            models = mass.ljh2off.load_pulse_models(h5p)
            assert sorted(models) == sorted(chans), f"models of channels {sorted(models)} from good channels {sorted(chans)}"
            g.filter_data(_rethrow=True)
        out = os.path.join(d, "out")
        os.makedirs(out)
        with contextlib.redirect_stdout(io.StringIO()):
            mass.ljh2off.ljh2off_loop(g[0].filename if hasattr(g, "__getitem__") else g.datasets[0].filename, h5p, out, 99, c["ignore"], require_experiment_state=False, show_progress=False)
        offs = [os.path.join(out, f"20240101_run0001_chan{ch}.off") for ch in sorted(chans)]
        with contextlib.redirect_stdout(io.StringIO()):
            og = mass.off.ChannelGroup(offs, verbose=False, experimentStateFile=_states(out, 1_600_000_000_000_000))
            og.add5LagRecipes(h5p)
        for ds in g:
            ch = ds.channum
            m = models[ch]
            assert m.projectors.shape == (nb, c["ns"])
            err = np.abs(m.projectors @ m.basis - np.eye(nb)).max()
            assert err < 1e-6 or c["f3"], f"channel {ch}: projectors times basis differs from the identity by {err}"
            sign = -1 if c["inv"] else 1
            # the components are the filter's, and their stated shapes
            close(m.basis[:, 0], np.ones(c["ns"]), 0, 1e-12, "constant component")
            close(sign * m.basis[:, 1], ds.filter.dt_model, 1e-12, 1e-12, "derivative component"), close(sign * m.basis[:, 2], ds.filter.signal_model, 1e-12, 1e-12, "pulse component")
            assert np.ptp(m.basis[:c["npre"] - 1, 2]) == 0 and abs(np.abs(m.basis[:, 2]).max() - 1) < .05, "the pulse component is not a unit pulse after the trigger"
            if c["f3"] is None:
                gls(m, ds, c, f"channel {ch}")
            good = ds.good() & (np.arange(ds.nPulses) % 3 > 0 if c["cat"] else True)
            up = 65535 - chans[ch]["data"] if c["inv"] else chans[ch]["data"]
            same(m.pulses_for_svd, up[good][:c["maxp"]].T, "training pulses")
            assert m.file_name == ds.filename and m.extra_n_basis_5lag == c["extra"] and m.v_dv == ds.filter.predicted_v_over_dv
            close(m.average_pulse_for_5lag, ds.average_pulse[:], 0, 0, "average pulse"), close(m.noise_psd, ds.noise_psd[:], 0, 0, "noise PSD")
            # the OFF file says what the LJH analysis says
            ods = og[ch]
            raw = chans[ch]["data"].astype(float)
            hdr, p, b, rec = readoff(os.path.join(out, f"20240101_run0001_chan{ch}.off"))
            judge(rec, raw, m.projectors, m.basis, c["npre"], c["ignore"], f"channel {ch}")
            fv = np.asarray(ods.getAttr("filtValue", slice(None), "cutNone"), float)
            scale = (np.abs(raw) @ np.abs(m.projectors[2])).max()
            close(fv, ds.p_filt_value[:], 3e-7, 1e-6 * scale, f"channel {ch}: filtered value in OFF and LJH analysis")
            dl = np.asarray(ods.getAttr("derivativeLike", slice(None), "cutNone"), float)
            sc1 = (np.abs(raw) @ np.abs(m.projectors[1])).max()
            close(dl / fv, ds.p_filt_phase[:], 1e-5, (1e-6 * sc1 + 1e-6 * scale * np.abs(dl / fv).max()) / fv.min(), f"channel {ch}: phase in OFF and LJH analysis")
            close(np.asarray(ods.getAttr("unixnano", slice(None), "cutNone")), chans[ch]["usec"] * 1000, 0, 0, "times")
            # 5-lag values of the modelled pulses
            mod = rec["coefs"].astype(float) @ b.T
            f5 = m.f_5lag
            assert len(f5) == c["ns"] - 4
            lags = np.array([mod[:, i:i + len(f5)] @ f5 for i in range(5)])
            pa, pb, pc = np.polyfit(np.arange(-2, 3), lags, 2)
            s5 = (np.abs(mod) @ np.abs(m.f_5lag[0] if m.f_5lag.ndim > 1 else np.ones(c["ns"]) * np.abs(f5).max())).max()
            ok = np.abs(pa) > 1e-7 * s5
            with np.errstate(all="ignore"):
                close(np.asarray(ods.getAttr("filtValue5Lag", slice(None), "cutNone"))[ok], (pc - pb**2 / 4 / pa)[ok], 1e-5, 1e-6 * s5, f"channel {ch}: 5-lag value")
                close(np.asarray(ods.getAttr("peakX5Lag", slice(None), "cutNone"))[ok], (-pb / 2 / pa)[ok], 1e-3, 1e-3, f"channel {ch}: 5-lag time")
    finally:
        ljh.close_group(g)


@sub(st.fixed_dictionaries(dict(**{k: v for k, v in GRP.items() if k not in {"f5", "maxp", "dpdt"}}, f5=st.just(None), maxp=st.just(4000), dpdt=st.booleans(), maxch=st.sampled_from([99, 99, 1]),
                                nonoise=st.booleans(), outp=st.booleans(), cli=st.booleans())), 120, 2500, "every case")
def script(c, ctx):
    r = rng(c["s"])
    d, d2 = os.path.join(ctx.dir, "a"), os.path.join(ctx.dir, "b")
    ctx.nt(True)
    chans, noise, hkw = rawgroup(c, r)
    for q in (d, d2):
        os.makedirs(q)
        for ch in chans:
            ljh.write22(f"{ljh.basename(q)}_chan{ch}.ljh", chans[ch]["data"], chans[ch]["counts"], chans[ch]["usec"], chan=ch, **hkw)
            ljh.write22(f"{ljh.basename(q, '20240101_run0000', 'n')}_chan{ch}.ljh", noise[ch], chan=ch, **hkw)
    chs = sorted(chans)
    if c["nonoise"]:
        ljh.write22(ljh.basename(d) + "_chan9.ljh", chans[chs[0]]["data"], chan=9, **hkw)   # a channel without noise data
    want = chs[:c["maxch"]]
    nb = 3 + c["nsvd"] + c["extra"]
    out = os.path.join(d, "m.hdf5") if c["outp"] else ljh.basename(d) + "_model.hdf5"
    argv = ["make_projectors", f"{ljh.basename(d)}_chan{chs[0]}.ljh", f"{ljh.basename(d, '20240101_run0000', 'n')}_chan{chs[0]}.ljh", "-n", str(nb), "--n_sigma_max_deriv", str(c["maxderiv"]),
            "--extra_n_basis_5lag", str(c["extra"]), "--silent", "-m", str(c["maxch"]), "--mass_hdf5_path", os.path.join(d, "mass.hdf5"), "--mass_hdf5_noise_path", os.path.join(d, "noise.hdf5")]
    argv += ["-o", out] if c["outp"] else []
    argv += ["-i"] if c["inv"] else []
    argv += [] if c["dpdt"] else ["--dont_optimize_dp_dt"]
    argv += ["--f_3db_ats", str(c["f3"])] if c["f3"] else []
    from mass.core import projectors_script
    run = projectors_script.main
    with contextlib.redirect_stdout(io.StringIO()):
        if c["cli"]:
            with mock.patch.object(sys, "argv", argv):
                run()
                assert raises(run, SystemExit), "an existing model file was overwritten without -r"
        else:
            ns = Namespace(pulse_path=argv[1], noise_path=argv[2], output_path=out if c["outp"] else None, replace_output=False, max_channels=c["maxch"], f_3db_ats=c["f3"], f_3db_5lag=None, n_ignore_presamples=3,
                           n_sigma_pt_rms=10000, n_sigma_max_deriv=c["maxderiv"], n_basis=nb, maximum_n_pulses=4000, silent=False, mass_hdf5_path=os.path.join(d, "mass.hdf5"),
                           mass_hdf5_noise_path=os.path.join(d, "noise.hdf5"), invert_data=c["inv"], dont_optimize_dp_dt=not c["dpdt"], extra_n_basis_5lag=c["extra"], noise_weight_basis=True)
            run(ns)
            with open(out, "rb") as f:
                old = f.read()
            ns.output_path = out
            assert raises(lambda: run(ns), SystemExit), "an existing model file was overwritten without -r"
            with open(out, "rb") as f:
                assert f.read() == old
            ns.replace_output = True
            ns.mass_hdf5_path, ns.mass_hdf5_noise_path = os.path.join(d, "mass2.hdf5"), os.path.join(d, "noise2.hdf5")   # (the first ones stay open in this process)
            run(ns)
    got = mass.ljh2off.load_pulse_models(out)
    assert list(got) == want, f"models of channels {list(got)}, expected {want}"
    g = ljh.tesgroup(d2, {k: chans[k] for k in want}, {k: noise[k] for k in want}, hkw=hkw)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            prepare(g, c)
            ref = mass.ljh2off.load_pulse_models(g.pulse_model_to_hdf5(n_basis=nb, extra_n_basis_5lag=c["extra"], _rethrow=True))
    finally:
        ljh.close_group(g)
    for ch in want:
        a, b = got[ch], ref[ch]
        close(a.projectors[:3], b.projectors[:3], 1e-9, 1e-12 * np.abs(b.projectors[:3]).max(), f"channel {ch}: projectors"), close(a.basis[:, :3], b.basis[:, :3], 1e-9, 1e-12, f"channel {ch}: basis")
        assert a.projectors.shape == (nb, c["ns"]) and (c["f3"] or np.abs(a.projectors @ a.basis - np.eye(nb)).max() < 1e-6), f"channel {ch}: projectors times basis"
        for k in ATTR[3:]:
            if k != "file_name":
                close(getattr(a, k), getattr(b, k), 1e-9, 1e-12, f"channel {ch}: {k}")
        assert a.file_name == f"{ljh.basename(d)}_chan{ch}.ljh"
