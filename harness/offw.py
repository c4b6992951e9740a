"""Independent OFF file writer (from the format description) and ChannelGroup builders."""
import base64
import json
import os

import numpy as np


def rec_dtype(version, nbasis):
    L = [("recordSamples", "<i4"), ("recordPreSamples", "<i4"), ("framecount", "<i8"), ("unixnano", "<i8"),
         ("pretriggerMean", "<f4")]
    if version == "0.3.0":
        L.append(("pretriggerDelta", "<f4"))
    L += [("residualStdDev", "<f4"), ("coefs", "<f4", (nbasis,))]
    return np.dtype(L)


def header(version, nbasis, nsamp, projectors, basis, dt=1e-5, rows=32, cols=1, row=3, col=0, subdiv=None,
           extra=None, indent=4):
    d = {"FileFormat": "OFF", "FileFormatVersion": version, "FramePeriodSeconds": dt, "NumberOfBases": nbasis}
    if version == "0.1.0":
        d["ModelInfo"] = {
            "Projectors": {"RowMajorFloat64ValuesBase64": base64.b64encode(np.ascontiguousarray(projectors, "<f8").tobytes()).decode(),
                           "Rows": projectors.shape[0], "Cols": projectors.shape[1]},
            "Basis": {"RowMajorFloat64ValuesBase64": base64.b64encode(np.ascontiguousarray(basis, "<f8").tobytes()).decode(),
                      "Rows": basis.shape[0], "Cols": basis.shape[1]}}
    else:
        d["ModelInfo"] = {"Projectors": {"Rows": projectors.shape[0], "Cols": projectors.shape[1], "SavedAs": "binary"},
                          "Basis": {"Rows": basis.shape[0], "Cols": basis.shape[1], "SavedAs": "binary"}}
    d["ReadoutInfo"] = {"ColumnNum": col, "RowNum": row, "NumberOfColumns": cols, "NumberOfRows": rows}
    if subdiv is not None:
        d["ReadoutInfo"]["SubframeDivsions"] = subdiv
    d["CreationInfo"] = {"SourceName": "verification"}
    if extra:
        d.update(extra)
    out = (json.dumps(d, indent=indent, ensure_ascii=False) + "\n").encode("utf-8")
    if version != "0.1.0":
        out += np.ascontiguousarray(projectors, "<f8").tobytes() + np.ascontiguousarray(basis, "<f8").tobytes()
    return out


def records(n, nbasis, version="0.3.0", r=None, t0=1_700_000_000_000_000_000, step=10_000_000, nsamp=40, npre=10):
    r = r or np.random.RandomState(0)
    a = np.zeros(n, dtype=rec_dtype(version, nbasis))
    a["recordSamples"], a["recordPreSamples"] = nsamp, npre
    a["unixnano"] = t0 + np.cumsum(r.randint(1, 2 * step, n)) if n else 0
    a["framecount"] = 1000 + np.cumsum(r.randint(1, 5000, n)) if n else 0
    a["pretriggerMean"] = 1000 + 30 * r.standard_normal(n)
    if version == "0.3.0":
        a["pretriggerDelta"] = r.standard_normal(n)
    a["residualStdDev"] = np.abs(5 + r.standard_normal(n))
    a["coefs"] = r.standard_normal((n, nbasis)) * 100
    a["coefs"][:, 2] = r.uniform(1000, 9000, n)
    return a


def model(nbasis, nsamp, seed=0):
    r = np.random.RandomState(seed)
    basis = np.linalg.qr(r.standard_normal((nsamp, nbasis)))[0] + 0.01 * r.standard_normal((nsamp, nbasis))
    return np.linalg.pinv(basis), basis


def write(path, recs, version="0.3.0", nbasis=None, nsamp=40, seed=0, tail=b"", **kw):
    nbasis = nbasis or recs["coefs"].shape[1]
    p, b = model(nbasis, nsamp, seed)
    with open(path, "wb") as f:
        f.write(header(version, nbasis, nsamp, p, b, **kw))
        f.write(recs.tobytes())
        f.write(tail)
    return p, b


def state_file(path, rows, eol="\n"):
    """rows: [(unixnano, label)]"""
    with open(path, "w", newline="") as f:
        f.write("# unixNano, label" + eol)
        for t, lab in rows:
            f.write(f"{t}, {lab}{eol}")


def group(d, chans, states=None, base="20240101_run0001", verbose=False, excludeStates="auto", **kw):
    """chans: {channum: record array}; states: [(ns, label)] or None (one START state before everything)."""
    from mass.off import ChannelGroup
    names = []
    b = os.path.join(d, base)
    for ch, recs in chans.items():
        p = f"{b}_chan{ch}.off"
        write(p, recs, **kw)
        names.append(p)
    if states is None:
        t = min([int(r["unixnano"].min()) for r in chans.values() if len(r)] or [10**18])
        states = [(t - 1000, "START")]
    state_file(f"{b}_experiment_state.txt", states)
    return ChannelGroup(names, verbose=verbose, excludeStates=excludeStates)
