"""Independent LJH writer/reader (from doc/LJHfiles.md) and helpers that build TESGroups in scratch directories."""
import os
import struct

import numpy as np


def header(version="2.2.0", software="DASTARD version 0.2.15", source=None, timebase="1.024000e-05", npre=10, nsamp=40,
           rows=None, row=None, cols=None, col=None, subdiv=None, suboff=None, offset="1500000000.000000",
           extra=(), eol="\n", chan=1):
    L = ["#LJH Memorial File Format", f"Save File Format Version: {version}"]
    if software is not None:
        L.append(f"Software Version: {software}")
    if source is not None:
        L.append(f"Data source: {source}")
    if rows is not None:
        L.append(f"Number of rows: {rows}")
    if cols is not None:
        L.append(f"Number of columns: {cols}")
    if row is not None:
        L.append(f"Row number (from 0-{(rows or 1) - 1} inclusive): {row}")
    if col is not None:
        L.append(f"Column number (from 0-{(cols or 1) - 1} inclusive): {col}")
    L += [f"Channel: {chan}", "Digitized Word Size in Bytes: 2"]
    L += list(extra)
    if offset is not None:
        L.append(f"Timestamp offset (s): {offset}")
    if subdiv is not None:
        L.append(f"Subframe divisions: {subdiv}")
    if suboff is not None:
        L.append(f"Subframe offset: {suboff}")
    L += [f"Timebase: {timebase}", "Number of samples per point: 1", f"Presamples: {npre}", f"Total Samples: {nsamp}",
          "#End of Header"]
    return (eol.join(L) + eol).encode()


def body22(data, counts, usec):
    out = bytearray()
    for d, c, u in zip(data, counts, usec):
        out += struct.pack("<qq", int(c), int(u)) + np.asarray(d, dtype="<u2").tobytes()
    return bytes(out)


def body21(data, ticks4us, msec):
    out = bytearray()
    for d, t, m in zip(data, ticks4us, msec):
        out += struct.pack("<BBI", int(t), 0, int(m)) + np.asarray(d, dtype="<u2").tobytes()
    return bytes(out)


def parse(path):
    """Independent reader: (header lines as dict of first values, raw records) of an LJH 2.2 file."""
    with open(path, "rb") as f:
        raw = f.read()
    i = raw.index(b"#End of Header")
    j = raw.index(b"\n", i) + 1
    d = {}
    for line in raw[:i].replace(b"\r\n", b"\n").split(b"\n"):
        if b":" in line:
            k, v = line.split(b":", 1)
            d.setdefault(k.strip().decode(), v.strip().decode())
    n = int(d["Total Samples"])
    new = tuple(int(x) for x in d["Save File Format Version"].split(".")[:2]) >= (2, 2)
    dt = np.dtype([("count", "<i8"), ("usec", "<i8"), ("data", "<u2", (n,))]) if new else \
        np.dtype([("tick", "u1"), ("unused", "u1"), ("ms", "<u4"), ("data", "<u2", (n,))])
    b = raw[j:]
    nrec = len(b) // dt.itemsize
    return d, np.frombuffer(b[:nrec * dt.itemsize], dtype=dt), len(b) - nrec * dt.itemsize


def write22(path, data, counts=None, usec=None, tail=b"", t0=1_500_000_000_000_000, **kw):
    data = np.asarray(data, dtype=np.uint16)
    n, ns = data.shape
    if counts is None:
        counts = 1000 + 977 * np.arange(n)
    if usec is None:
        usec = t0 + 10_000 * np.arange(n)
    kw.setdefault("npre", ns // 4)
    with open(path, "wb") as f:
        f.write(header(nsamp=ns, **kw))
        f.write(body22(data, counts, usec))
        f.write(tail)
    return path


def pulses(r, n, ns, npre, base=1000, height=(3000, 9000), noise=3.0, tau=(1.5, 12.0), late=True):
    """Synthetic pulse records (triggered at sample npre), uint16, plus the true heights."""
    t = np.arange(ns)
    out = np.zeros((n, ns))
    peak = np.exp(-np.linspace(0, 60, 4000) / tau[1]) - np.exp(-np.linspace(0, 60, 4000) / tau[0])
    h = r.uniform(*height, n) if isinstance(height, tuple) else np.asarray(height, float)
    for i in range(n):
        x = t - npre + (r.uniform(0, 1) if late else 0.5)
        x = np.where(x > 0, x, 0)
        out[i] = base + h[i] * (np.exp(-x / tau[1]) - np.exp(-x / tau[0])) / peak.max() + noise * r.standard_normal(ns)
    return np.clip(np.round(out), 0, 65535).astype(np.uint16), h


def noise(r, n, ns, base=1000, sigma=4.0, corr=0.5):
    x = r.standard_normal(n * ns + 1)
    x = x[1:] + corr * x[:-1]
    return np.clip(np.round(base + sigma * x.reshape(n, ns)), 0, 65535).astype(np.uint16)


def basename(d, base="20240101_run0001", sub="p"):
    p = os.path.join(d, sub)
    os.makedirs(p, exist_ok=True)
    return os.path.join(p, base)


def tesgroup(d, chans, noise_chans=None, base="20240101_run0001", nbase="20240101_run0000", hdf5=None, kw=None, hkw=None, **tes):
    """chans: {channum: dict(data, counts, usec)}; noise_chans: {channum: data}. Returns a TESGroup."""
    import mass
    hkw = hkw or {}
    names = []
    for ch, v in chans.items():
        p = f"{basename(d, base)}_chan{ch}.ljh"
        if not os.path.exists(p):
            write22(p, v["data"], v.get("counts"), v.get("usec"), chan=ch, **{**hkw, **v.get("hdr", {})})
        names.append(p)
    nn = None
    if noise_chans is not None:
        nn = []
        for ch, data in noise_chans.items():
            p = f"{basename(d, nbase, 'n')}_chan{ch}.ljh"
            if not os.path.exists(p):
                write22(p, data, chan=ch, **hkw)
            nn.append(p)
    return mass.TESGroup(names, nn, hdf5_filename=hdf5 or os.path.join(d, "mass.hdf5"),
                         hdf5_noisefilename=os.path.join(d, "noise.hdf5"), **tes)


def close_group(g):
    for h in (g.hdf5_file, g.hdf5_noisefile):
        try:
            if h is not None:
                h.close()
        except Exception:
            pass
