"""Power-spectrum accumulators against explicit windowed-periodogram averages (direct DFT sums)."""
import numpy as np
from hypothesis import strategies as st
from harness.core import sub
from harness.gen import seeds, close, same, rng, logfl, raises
from mass.mathstat import power_spectrum as PS

RULE = ("Half-lengths m in 1..24, 1..12 segments, integer/float/offset data, every window form (none, callable, vector, list), "
        "histories of add / copy / long-data operations; non-trivial with 2 or more segments of non-constant data.")
ASSUMPTIONS = ["the reference evaluates the DFT sum directly: S_k = 2 dt |sum_j w_j x_j exp(-i pi j k/m)|^2 / sum w^2",
               "the first and last bins carry the documented factor of two"]

WINDOWS = ["none", "hann", "welch", "bartlett", "hamming", "custom"]


def custom(n):
    return 1.0 + np.arange(n) / n


def make_win(name, form, n):
    """The window argument and the vector it stands for."""
    if name == "none":
        return None, np.ones(n)
    f = {"hann": PS.hann, "welch": PS.welch, "bartlett": PS.bartlett, "hamming": PS.hamming, "custom": custom}[name]
    v = ref_window(name, n)
    return {"callable": f, "vector": v.copy(), "list": v.tolist()}[form], v


def ref_window(name, n):
    j = np.arange(n)
    if name == "custom":
        return custom(n)
    if name == "hann":
        return 0.5 - 0.5 * np.cos(2 * np.pi * j / (n - 1))
    if name == "hamming":
        return 0.54 - 0.46 * np.cos(2 * np.pi * j / (n - 1))
    u = 2 * j / (n - 1) - 1
    return 1 - np.abs(u) if name == "bartlett" else 1 - u**2


def periodogram(x, w, dt):
    n = len(x)
    m = n // 2
    j = np.arange(n)
    E = np.exp(-1j * np.pi * np.outer(np.arange(m + 1), j) / m)
    return 2 * dt * np.abs(E @ (w * np.asarray(x, float)))**2 / (w**2).sum()


def data(seed, n, kind):
    r = rng(seed)
    return {0: lambda: r.standard_normal(n), 1: lambda: r.randint(-100, 100, n), 2: lambda: 1000 + r.standard_normal(n),
            3: lambda: np.full(n, 2.5), 4: lambda: np.sin(np.arange(n) * 0.7) * 50 + r.standard_normal(n),
            5: lambda: r.randint(0, 60000, n).astype(np.uint16), 6: lambda: np.cumsum(r.standard_normal(n))}[kind]()


kinds = st.integers(0, 6)
wins = st.tuples(st.sampled_from(WINDOWS), st.sampled_from(["callable", "vector", "list"]))
dts = st.sampled_from([1.0, 1e-5, 0.5, 3.0, None])


def tol(segs, ws, dt):
    """Absolute tolerance: rounding of the largest possible bin."""
    return 1e-10 * max([2 * dt * (np.abs(w) * np.abs(np.asarray(s, float))).sum()**2 / (w**2).sum() for s, w in zip(segs, ws)] + [0.0]) + 1e-300


@sub(st.tuples(st.integers(2, 24), dts, st.lists(st.tuples(seeds, kinds, wins), min_size=1, max_size=8), seeds), quick=1200, thorough=20000,
     rule="spectrum after any segments = average of direct periodograms; order-free; Parseval with no window")
def accumulate(case, ctx):
    m, dt, segs, s = case
    spec = PS.PowerSpectrum(m, dt=dt)
    d = 1.0 if dt is None else dt
    want, xs, ws = np.zeros(m + 1), [], []
    other = PS.PowerSpectrum(m, dt=dt)
    items = []
    for sd, kind, (wn, form) in segs:
        x = data(sd, 2 * m, kind)
        arg, w = make_win(wn, form, 2 * m)
        if not (w**2).sum() > 1e-6:
            continue
        items.append((x, arg, w))
    if not items:
        return
    for x, arg, w in items:
        x0 = x.copy()
        spec.addDataSegment(x, window=arg)
        same(x, x0, "data modified")
        want += periodogram(x, w, d)
        xs.append(x)
        ws.append(w)
    t = tol(xs, ws, d)
    ctx.nt(len(items) >= 2 and any(np.ptp(x) > 0 for x in xs))
    ctx.label(*{f"win:{a[2][0]}/{a[2][1]}" for a in segs})
    close(spec.spectrum(), want / len(items), rtol=1e-8, atol=t, msg="spectrum")
    f = spec.frequencies()
    close(f, np.arange(m + 1) / (2 * m * d), rtol=1e-12, msg="frequencies")
    p = rng(s).permutation(len(items))
    for i in p:
        other.addDataSegment(items[i][0], window=items[i][1])
    close(other.spectrum(), spec.spectrum(), rtol=1e-9, atol=t, msg="order of segments")
    if all(np.all(w == 1) for w in ws):
        df = f[1] - f[0]
        S = spec.spectrum().copy()
        S[0] /= 2
        S[-1] /= 2
        ms = np.mean([np.mean(np.asarray(x, float)**2) for x in xs])
        close(S.sum() * df, ms, rtol=1e-8, atol=1e-12, msg="integral of the spectrum against the mean square")
    # scaling by c multiplies by c^2
    sc = PS.PowerSpectrum(m, dt=dt)
    for x, arg, w in items:
        sc.addDataSegment(-3.0 * np.asarray(x, float), window=arg)
    close(sc.spectrum(), 9 * spec.spectrum(), rtol=1e-8, atol=9 * t, msg="scaling")


@sub(st.tuples(st.integers(2, 40), st.lists(st.tuples(seeds, kinds), min_size=1, max_size=4), st.integers(1, 40)), quick=800, thorough=8000,
     rule="rebinned spectrum: every fine bin counted once, in the coarse bin of the nearest frequency")
def rebin(case, ctx):
    m, segs, nb = case
    spec = PS.PowerSpectrum(m, dt=0.25)
    xs = [data(sd, 2 * m, k) for sd, k in segs]
    for x in xs:
        spec.addDataSegment(x)
    if nb > m:
        assert raises(lambda: spec.spectrum(nbins=nb), ValueError) and raises(lambda: spec.frequencies(nbins=nb), ValueError)
        return
    S, got = spec.spectrum(), spec.spectrum(nbins=nb)
    fine, coarse = spec.frequencies(), spec.frequencies(nbins=nb)
    ctx.nt(1 < nb < m)
    ctx.label("same" if nb == m else "fewer")
    assert got.shape == coarse.shape == (nb + 1,)
    close(coarse, np.arange(nb + 1) * (fine[-1] / nb), rtol=1e-12, msg="coarse frequencies")
    step = coarse[1] - coarse[0]
    for i in range(nb + 1):
        dist = np.abs(fine - coarse[i]) / step
        sure, maybe = dist < 0.5 - 1e-9, np.abs(dist - 0.5) <= 1e-9
        vals = S[sure]
        opts = [vals]
        for j in np.flatnonzero(maybe):
            opts = opts + [np.append(o, S[j]) for o in opts]
        assert any(len(o) and abs(o.mean() - got[i]) <= 1e-9 * abs(o.mean()) + 1e-300 for o in opts), \
            f"bin {i} of {nb}: {got[i]} is not the mean of the fine bins nearest it ({[o.mean() for o in opts if len(o)]})"
    if nb == m:
        close(got, S, rtol=1e-12, msg="nbins=m")


@sub(st.tuples(st.integers(2, 12), st.integers(2, 9), seeds, kinds, wins, dts), quick=900, thorough=10000,
     rule="overlapped accumulation of half-segments = average over consecutive pairs")
def overlap(case, ctx):
    m, k, s, kind, (wn, form), dt = case
    x = data(s, m * k, kind)
    x0 = x.copy()
    arg, w = make_win(wn, form, 2 * m)
    d = 1.0 if dt is None else dt
    if not (w**2).sum() > 1e-6:
        return
    sp = PS.PowerSpectrumOverlap(m, dt=dt)
    for i in range(k):
        sp.addDataSegment(x[i * m:(i + 1) * m], window=arg)
    segs = [x[i * m:(i + 2) * m] for i in range(k - 1)]
    want = np.mean([periodogram(q, w, d) for q in segs], axis=0)
    ctx.nt(k >= 3 and np.ptp(x) > 0)
    ctx.label(f"k{min(k, 5)}", wn)
    close(sp.spectrum(), want, rtol=1e-8, atol=tol(segs, [w] * len(segs), d), msg="overlapped spectrum")
    assert sp.nsegments == k - 1
    same(x, x0, "data modified")


@sub(st.tuples(st.integers(2, 10), st.integers(0, 90), seeds, kinds, wins, st.booleans()), quick=900, thorough=10000,
     rule="addLongData: whole non-overlapping segments; overlapped variant: evenly spread segments covering both ends")
def long_data(case, ctx):
    m, n, s, kind, (wn, form), ovl = case
    x = data(s, n, kind)
    arg, w = make_win(wn, form, 2 * m)
    if not (w**2).sum() > 1e-6 or n < 2 * m:
        return
    x0 = x.copy()
    if ovl:
        sp = PS.PowerSpectrumOverlap(m, dt=0.1)
        nk = (n - 1) // m
        starts = [int(i * (n - 2 * m) / (nk - 1) + 0.5) if nk > 1 else 0 for i in range(nk)]
        assert starts[0] == 0 and (nk == 1 or starts[-1] == n - 2 * m)
        if nk == 1 and n > 2 * m:
            return
    else:
        sp = PS.PowerSpectrum(m, dt=0.1)
        starts = [i * 2 * m for i in range(n // (2 * m))]
    sp.addLongData(x, window=arg)
    segs = [x[i:i + 2 * m] for i in starts]
    ctx.nt(len(segs) >= 2 and np.ptp(x) > 0)
    ctx.label("overlap" if ovl else "plain", "odd" if n % (2 * m) else "even")
    want = np.mean([periodogram(q, w, 0.1) for q in segs], axis=0)
    close(sp.spectrum(), want, rtol=1e-8, atol=tol(segs, [w] * len(segs), 0.1), msg="long data")
    same(x, x0, "data modified")


ops = st.lists(st.one_of(st.tuples(st.just("add"), st.integers(0, 3), seeds, kinds).map(list),
                         st.tuples(st.just("copy"), st.integers(0, 3)).map(list)), min_size=2, max_size=14)


@sub(st.tuples(st.integers(2, 8), st.booleans(), ops), quick=900, thorough=10000,
     rule="histories of adding to accumulators and their copies: each copy holds exactly what was added to its own line")
def copies(case, ctx):
    m, ovl, history = case
    cls = PS.PowerSpectrumOverlap if ovl else PS.PowerSpectrum
    objs, model = [cls(m, dt=0.5)], [[]]
    ncopy = added_after = 0
    for op in history:
        i = op[1] % len(objs)
        if op[0] == "copy":
            if len(objs) < 4:
                objs.append(objs[i].copy())
                model.append(list(model[i]))
                ncopy += 1
        else:
            x = data(op[2], m if ovl else 2 * m, op[3])     # integers and floats in one history
            objs[i].addDataSegment(x)
            model[i].append(x)
            added_after += ncopy > 0
    ctx.nt(ncopy and added_after >= 2)
    ctx.label("overlap" if ovl else "plain", f"copies{ncopy}")
    for i, (o, segs) in enumerate(zip(objs, model)):
        if ovl:
            segs = [np.concatenate(segs[j:j + 2]) for j in range(len(segs) - 1)]
        assert o.nsegments == len(segs), f"accumulator {i}: {o.nsegments} segments, expected {len(segs)}"
        if segs:
            w = np.ones(2 * m)
            close(o.spectrum(), np.mean([periodogram(q, w, 0.5) for q in segs], axis=0), rtol=1e-8,
                  atol=tol(segs, [w] * len(segs), 0.5), msg=f"accumulator {i}")


@sub(st.tuples(st.integers(8, 90), st.integers(1, 5), seeds, kinds, wins, dts), quick=900, thorough=10000,
     rule="computeSpectrum equals the average of its segment pairs for every window form, odd lengths included")
def convenience(case, ctx):
    n, segf, s, kind, (wn, form), dt = case
    x = data(s, n, kind)
    M = n // (2 * segf)
    if M < 2:
        return
    arg, w = make_win(wn, form, 2 * M)
    if not (w**2).sum() > 1e-6:
        return
    x0 = x.copy()
    d = 1.0 if dt is None else dt
    r = PS.computeSpectrum(x, segfactor=segf, dt=dt, window=arg)
    same(x, x0, "data modified")
    ctx.nt(segf > 1 or wn != "none")
    ctx.label(f"seg{segf}", f"{wn}/{form}", "odd" if n % 2 else "even")
    if dt is None:
        S = r
    else:
        f, S = r
        close(f, np.arange(M + 1) / (2 * M * dt), rtol=1e-12, msg="frequencies")
    segs = [x[i * M:(i + 2) * M] for i in range(2 * segf - 1)]
    per = [periodogram(q, w, d) for q in segs]
    t = tol(segs, [w] * len(segs), d)
    # With segfactor > 1 the last pair is not used today; its inclusion would satisfy the documentation as well.
    wants = [np.mean(per, axis=0)] + ([np.mean(per[:-1], axis=0)] if segf > 1 else [])
    assert any(np.all(np.abs(S - q) <= t + 1e-8 * np.abs(q)) for q in wants), f"spectrum {S} expected {wants}"


@sub(st.tuples(st.integers(1, 12), st.integers(1, 6), seeds, kinds), quick=500, thorough=5000,
     rule="average lagged product of mean-subtracted columns; input kept")
def broken_autocorrelation(case, ctx):
    n, npul, s, kind = case
    a = data(s, n * npul, kind).reshape(n, npul)
    a0 = a.copy()
    got = PS.autocorrelation_broken_from_pulses(a)
    same(a, a0, "data modified")
    ctx.nt(n > 2 and npul > 1)
    b = a.astype(float) - a.astype(float).mean(axis=0)
    want = [sum(b[i, p] * b[i + k, p] for p in range(npul) for i in range(n - k)) / npul / (n - k) for k in range(n)]
    tl = 1e-9 * np.abs(b).max()**2
    close(got, want, rtol=1e-9, atol=tl + (1e-6 if kind == 2 else 1e-12), msg="autocorrelation")


@sub(st.tuples(st.integers(2, 9), st.integers(0, 24), st.booleans()), quick=200, thorough=1000, rule="wrong lengths and NaNs are refused")
def refuses(case, ctx):
    m, n, nan = case
    x = np.arange(float(n))
    sp = PS.PowerSpectrum(m)
    if nan and n:
        x[n // 2] = np.nan
        ctx.nt()
        assert raises(lambda: sp.addDataSegment(x), ValueError)
    elif n != 2 * m:
        ctx.nt()
        assert raises(lambda: sp.addDataSegment(x), ValueError)
    assert sp.nsegments == 0 and not sp.specsum.any()
