"""P26: OFF files are read exactly and reconstruct their records."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import offw
from harness.core import sub
from harness.gen import seeds, rng, same, close, raises
from mass.off.off import OffFile, recordDtype

RULE = "Each case is an OFF file written byte by byte (version 0.1.0/0.2.0/0.3.0, 3..7 bases, any header text), possibly growing in steps."
ASSUMPTIONS = ["files have at least three bases (pulse mean, derivative-like, pulse-like), as the record layout requires"]

TEXT = ["verification", "caf\u00e9 \u00b5-calorimeter", "\u30c6\u30b9\u30c8", "brace } inside", "quote \" and \\ and\ttab", "", "}"]
hdr = st.fixed_dictionaries({"v": st.sampled_from(["0.1.0", "0.2.0", "0.3.0", "0.3.0"]), "nb": st.integers(3, 7), "ns": st.integers(8, 60), "pre": st.integers(0, 7),
                             "text": st.sampled_from(TEXT), "nested": st.booleans(), "indent": st.sampled_from([2, 4, 1]), "dt": st.sampled_from([1e-5, 9.6e-6, 5e-6]),
                             "period": st.sampled_from(["num", "num", "str"])})


def extra(h):
    d = {"Comment": h["text"]}
    if h["nested"]:
        d["More"] = {"a": {"b": [1, 2, {"c": h["text"]}]}, "z": {}}
    if h["period"] == "str":
        d["FramePeriodSeconds"] = str(h["dt"])
    return d


def random_records(n, h, r):
    a = offw.records(n, h["nb"], h["v"], r, nsamp=h["ns"], npre=h["ns"] * h["pre"] // 8)
    a["coefs"] = r.standard_normal((n, h["nb"])).astype(np.float32) * 10.0 ** r.randint(-3, 5)
    a["unixnano"] = r.randint(0, 2**62, n)
    a["framecount"] = r.randint(-2**40, 2**60, n)
    if n and r.rand() < .3:  # triggers need not be at the same sample in every record
        a["recordPreSamples"] = r.randint(0, h["ns"], n)
    if n and r.rand() < .3:
        a["residualStdDev"][r.randint(n)] = np.nan
        a["coefs"][r.randint(n), r.randint(h["nb"])] = np.inf
    return a


def check_all(f, recs, h, p, b, r, msg):
    n = len(recs)
    assert f.nRecords == n and len(f) == n and f.shape == (n,), f"{msg}: {f.nRecords} records, not {n}"
    for name in [x for x in recs.dtype.names if x != "coefs"]:
        same(np.asarray(f[name]), recs[name], f"{msg}: field {name}")
    c = recs["coefs"]
    for k, name in enumerate(("pulseMean", "derivativeLike", "filtValue")):
        same(np.asarray(f[name]), c[:, k], f"{msg}: {name}")
    if h["nb"] > 3:
        same(np.asarray(f["extraCoefs"]), c[:, 3:], f"{msg}: extraCoefs")
    else:
        assert "extraCoefs" not in f.dtype.names
    same(np.asarray(f._mmap_with_coefs["coefs"]), c, f"{msg}: coefs")
    same(np.asarray(f.view(f._dtype_non_descriptive)["coefs"]), c, f"{msg}: view")
    same(np.asarray(f.projectors), p, "projectors")
    same(np.asarray(f.basis), b, "basis")
    if not n:
        return
    for _ in range(3):
        a, e, s = r.randint(-n - 1, n + 2), r.randint(-n - 1, n + 2), r.choice([1, 1, 2, -1])
        same(np.asarray(f[a:e:s]["filtValue"]), c[a:e:s, 2], f"slice {a}:{e}:{s}")
        same(np.asarray(f["unixnano"][a:e:s]), recs["unixnano"][a:e:s], "field then slice")
    idx = r.randint(0, n, 5)
    same(np.asarray(f[idx]["framecount"]), recs["framecount"][idx], "index list")
    m = r.rand(n) < .5
    same(np.asarray(f[m]["residualStdDev"]), recs["residualStdDev"][m], "mask")
    i = int(r.randint(-n, n))
    t, y = f.recordXY(i)
    ns, npre = h["ns"], int(recs["recordPreSamples"][i])
    close(t, (np.arange(ns) - npre) * h["dt"], 1e-13, 1e-20, "sample times")
    with np.errstate(all="ignore"):
        want = b @ c[i].astype(float)
        scale = np.abs(b) @ np.abs(c[i].astype(float))
    if np.all(np.isfinite(scale)):
        close(y, want, 0, 1e-12 * scale.max() + 1e-300, "reconstructed record")
    same(f.modeledPulse(i), y, "modeledPulse")
    same(f.sampleTimes(i), t, "sampleTimes")


@sub(st.fixed_dictionaries({"h": hdr, "n": st.one_of(st.just(0), st.integers(0, 40)), "tail": st.integers(0, 80), "s": seeds}),
     quick=1500, thorough=50000, rule="complete files with a partial last record; non-trivial: at least two records or a partial tail")
def reading(c, ctx):
    h, r = c["h"], rng(c["s"])
    recs = random_records(c["n"], h, r)
    size = recs.dtype.itemsize
    tail = bytes(r.randint(0, 256, c["tail"] % size).astype(np.uint8))
    path = os.path.join(ctx.dir, "a_chan1.off")
    p, b = offw.write(path, recs, version=h["v"], nbasis=h["nb"], nsamp=h["ns"], seed=c["s"] % 1000, tail=tail, extra=extra(h), indent=h["indent"], dt=h["dt"])
    ctx.nt(c["n"] > 1 or len(tail) > 0)
    ctx.label(h["v"], "ascii" if h["text"].isascii() else "utf8")
    if not c["n"] and not tail and os.path.getsize(path) % 4096 == 0:
        return
    f = OffFile(path)
    assert f.framePeriodSeconds == h["dt"] and f.header["Comment"] == h["text"] and f.header["NumberOfBases"] == h["nb"]
    assert f.dtype.itemsize == size == recordDtype(h["v"], h["nb"], descriptive_coefs_names=False).itemsize
    check_all(f, recs, h, p, b, r, "file")
    assert os.path.basename(path) in repr(f) and f" {c['n']} records" in repr(f)
    f.close()


@sub(st.fixed_dictionaries({"h": hdr, "n0": st.integers(0, 10), "steps": st.lists(st.tuples(st.integers(0, 6), st.integers(0, 100), st.booleans()), min_size=1, max_size=6), "s": seeds}),
     quick=800, thorough=20000, rule="files that grow by whole and partial records between refreshes; non-trivial: at least one complete record added")
def growing(c, ctx):
    h, r = c["h"], rng(c["s"])
    total = c["n0"] + sum(k for k, _, _ in c["steps"]) + 2
    recs = random_records(total, h, r)
    size, raw = recs.dtype.itemsize, recs.tobytes()
    path = os.path.join(ctx.dir, "a_chan1.off")
    p, b = offw.write(path, recs[:c["n0"]], version=h["v"], nbasis=h["nb"], nsamp=h["ns"], seed=3, extra=extra(h), dt=h["dt"])
    hs = os.path.getsize(path) - c["n0"] * size
    pos = c["n0"] * size
    if not c["n0"] and hs % 4096 == 0:
        return
    f = OffFile(path)
    check_all(f, recs[:c["n0"]], h, p, b, r, "start")
    shown = c["n0"]
    for k, part, refresh in c["steps"]:
        new = min(pos // size * size + k * size + part % size, len(raw))
        new = max(new, pos)
        with open(path, "ab") as fp:
            fp.write(raw[pos:new])
        pos = new
        if refresh:
            f._updateMmap()
            shown = pos // size
        check_all(f, recs[:shown], h, p, b, r, "refreshed" if refresh else "not refreshed")
    ctx.nt(pos // size > c["n0"])
    f._updateMmap()
    check_all(f, recs[:pos // size], h, p, b, r, "end")


@sub(st.fixed_dictionaries({"h": hdr, "kind": st.sampled_from(["format", "version", "noend", "shape", "nbases", "empty", "notjson", "missing"]), "s": seeds}),
     quick=200, thorough=2000, rule="damaged headers are refused; non-trivial: all")
def refused(c, ctx):
    ctx.nt()
    h, r = dict(c["h"]), rng(c["s"])
    recs = random_records(3, h, r)
    path = os.path.join(ctx.dir, "a_chan1.off")
    p, b = offw.model(h["nb"], h["ns"], 1)
    kw = dict(extra=extra(h), dt=h["dt"])
    k = c["kind"]
    if k == "shape":
        head = offw.header(h["v"], h["nb"], h["ns"], p, b.T if h["nb"] != h["ns"] else b[:, :-1], **kw)
    elif k == "nbases":
        head = offw.header(h["v"], h["nb"] + 1, h["ns"], p, b, **kw)
    else:
        head = offw.header(h["v"], h["nb"], h["ns"], p, b, **kw)
    if k == "format":
        head = head.replace(b'"FileFormat": "OFF"', b'"FileFormat": "LJH"', 1)
    elif k == "version":
        head = head.replace(h["v"].encode(), b"9.9.9", 1)
    elif k == "noend":
        head = head.replace(b"\n}\n", b"\n} \n", 1)
    elif k == "notjson":
        head = head.replace(b'"FileFormat":', b'FileFormat:', 1)
    elif k == "missing":
        head = head.replace(b'"FramePeriodSeconds"', b'"FramePeriod"', 1).replace(b'"FramePeriodSeconds"', b'"FramePeriod2"', 1)
    with open(path, "wb") as f:
        f.write(b"" if k == "empty" else head + recs.tobytes())
    assert raises(lambda: OffFile(path), Exception), f"a file with bad '{k}' was accepted"
