"""Calibration point sets: stateful histories of edits, copies and storage against a plain list-of-points model."""
import os
import h5py
import numpy as np
from hypothesis import strategies as st
from harness.core import sub
from harness.gen import close, same, fl
from harness.calmodel import CURVES, exact_curve
from mass.calibration.energy_calibration import EnergyCalibration, STANDARD_FEATURES

RULE = ("Histories of up to 25 operations (add, replace by name or energy, refused adds, remove by name / prefix / energy, change "
        "settings, evaluate, copy, save and load) over up to 4 calibrations; non-trivial with 3+ edits including a removal, "
        "replacement, copy or reload.")
ASSUMPTIONS = ["pulse heights follow one increasing function of energy except in deliberately non-monotone adds, which must be refused",
               "a point replaced because its energy matches may keep the old name or take the new one",
               "evaluating a one-point linear or loggain calibration is declined by design"]

STD = ["MnKAlpha", "FeKAlpha", "CuKAlpha1", "TiKBeta"]
NAMES = ["", "A", "B", "Mn Ka", "Mn Kb", "Mnx", "é-line", "z", " spaced name "]
ENERGIES = [500.0, 500.5, 1000.0, 1500.0, 1500.005, 2300.0, 4000.0, 5000.0, 5001.0, 8000.0]
SIGNS = 200


def ph_of(E, k=0):
    """Increasing pulse heights; k makes small changes that keep the order of points 0.005 eV apart from mattering."""
    return float(3.0 * E**0.9 * (1 + 1e-7 * k))


idx = st.integers(0, 3)
add_op = st.tuples(st.just("add"), idx, st.sampled_from(ENERGIES), st.sampled_from(NAMES), st.integers(0, 5), st.just(None), st.just(True))
op = st.one_of(
    add_op, add_op, add_op, add_op, add_op, add_op,
    st.tuples(st.just("add"), idx, st.sampled_from(ENERGIES), st.sampled_from(NAMES), st.integers(0, 5),
              st.sampled_from([None, 1e-3, 0.01, 0.5, 2.0]), st.booleans()),
    st.tuples(st.just("add"), idx, st.sampled_from(ENERGIES), st.sampled_from(NAMES), st.integers(0, 5), st.just(None), st.just(True)),
    st.tuples(st.just("std"), idx, st.sampled_from(STD), st.integers(0, 5)),
    st.tuples(st.just("bad"), idx, st.sampled_from(ENERGIES), st.sampled_from([0.2, 5.0])),
    st.tuples(st.just("badname"), idx),
    st.tuples(st.just("rmname"), idx, st.sampled_from(NAMES + STD)),
    st.tuples(st.just("rmprefix"), idx, st.sampled_from(["Mn", "A", "", "q", "Cu"])),
    st.tuples(st.just("rmenergy"), idx, st.sampled_from(ENERGIES), st.sampled_from([0.001, 0.1, 2.0, 600.0, 3000.0])),
    st.tuples(st.just("curve"), idx, st.sampled_from(CURVES), st.booleans()),
    st.tuples(st.just("approx"), idx, st.booleans()),
    st.tuples(st.just("gpr"), idx, st.booleans()),
    st.tuples(st.just("nonlin"), idx, st.sampled_from([1.0, 1.1, 1.15, 1.3])),
    st.tuples(st.just("eval"), idx),
    st.tuples(st.just("copy"), idx),
    st.tuples(st.just("store"), idx, st.booleans()),
)


class Model:
    def __init__(self):
        self.pts = []       # [name, ph, e, dph, de]
        self.curve, self.approx, self.gpr, self.nonlin = "loglog", False, True, 1.1

    def copy(self):
        m = Model()
        m.pts = [list(p) for p in self.pts]
        m.curve, m.approx, m.gpr, m.nonlin = self.curve, self.approx, self.gpr, self.nonlin
        return m

    def monotone(self, pts):
        s = sorted(pts, key=lambda p: p[1])
        e = [p[2] for p in s]
        return all(a <= b for a, b in zip(e, e[1:]))

    def ties(self, pts):
        return len({p[2] for p in pts}) < len(pts) or len({p[1] for p in pts}) < len(pts)


def observed(c):
    return sorted(zip([float(v) for v in c.cal_point_phs], [float(v) for v in c.cal_point_energies], c.cal_point_names))


def expect(m):
    return sorted((p[1], p[2], p[0]) for p in m.pts)


def check_points(c, m, what):
    assert c.npts == len(m.pts) == len(c.cal_point_phs) == len(c.cal_point_energies) == len(c.cal_point_names), \
        f"after {what}: {c.npts} points, expected {len(m.pts)}"
    assert observed(c) == expect(m), f"after {what}: points {observed(c)}, expected {expect(m)}"
    assert c.curvename() == m.curve


def fresh(m):
    c = EnergyCalibration(nonlinearity=m.nonlin, curvetype=m.curve, approximate=m.approx, useGPR=m.gpr)
    for i, p in enumerate(sorted(m.pts, key=lambda p: p[1])):
        c.add_cal_point(p[1], p[2], f"pt{i}", p[3], p[4])
    return c


def evaluable(m):
    return not (len(m.pts) == 1 and m.curve not in {"loglog", "gain", "invgain"})


def check_curve(c, m, what):
    if not evaluable(m) or m.ties(m.pts):
        return False
    pts = sorted(m.pts, key=lambda p: p[1])
    e = [p[2] for p in pts]
    gaps = [b - a for a, b in zip(e, e[1:])]
    q = np.array([200.0, 900.0, 3000.0, 9000.0])
    if gaps and min(gaps) <= 0.4:
        return False            # nearly coincident points: splines through them are ill-conditioned
    if m.approx and len(pts) >= 3:
        if gaps and min(gaps) <= max(p[4] for p in pts):
            return False
        try:
            want = fresh(m).ph2energy(q)
        except (ValueError, np.linalg.LinAlgError):
            return False
        got = c.ph2energy(q)
    else:
        want = exact_curve(m.curve, [p[1] for p in pts], e, m.nonlin)(q)
        got = c.ph2energy(q)
        if not np.all(np.isfinite(want)):
            return False
    close(got, want, rtol=1e-7, atol=1e-7 * (np.abs(want).max() + 1), msg=f"curve after {what} ({m.curve}, {len(pts)} points)")
    if m.approx:
        f = fresh(m)
        try:
            wantu = f.ph2uncertainty(q)
        except (ValueError, np.linalg.LinAlgError):
            wantu = None
        if wantu is not None and np.all(np.isfinite(wantu)):
            close(c.ph2uncertainty(q), wantu, rtol=1e-5, atol=1e-7 * (np.abs(wantu).max() + 1e-6), msg=f"uncertainty after {what} ({m.curve}, GPR {m.gpr})")
            close(c.energy2uncertainty(f.ph2energy(q[:3])), f.energy2uncertainty(f.ph2energy(q[:3])), rtol=1e-3, atol=1e-5, msg=f"uncertainty by energy after {what}")
    # sorted after use
    ph = list(c.cal_point_phs)
    assert ph == sorted(ph), "points not in order of pulse height after evaluation"
    return True


def h5_roundtrip(c, m, path, closefile, overwrite):
    """Save and load; the stored arrays and settings equal the model."""
    name = "p_filt_value"
    with h5py.File(path, "a") as f:
        g = f.require_group("calibration")
        c.save_to_hdf5(g, name)
        if not closefile:
            return EnergyCalibration.load_from_hdf5(g, name)
    with h5py.File(path, "r") as f:
        g = f["calibration"][name]
        rows = sorted(zip(g["ph"][:], g["energy"][:], g["dph"][:], g["de"][:]))
        want = sorted((p[1], p[2], p[3], p[4]) for p in m.pts)
        assert rows == want, f"stored {rows}, expected {want}"
        return EnergyCalibration.load_from_hdf5(f["calibration"], name)


@sub(st.lists(op, min_size=5, max_size=25), quick=1500, thorough=25000,
     rule="after every operation the points equal the model's; at the end each curve equals that of a calibration built afresh")
def history(case, ctx):
    cals, models = [EnergyCalibration()], [Model()]
    edits = special = ncurves = 0
    path = os.path.join(ctx.dir, "cal.hdf5")
    for o in case:
        i = o[1] % len(cals)
        c, m = cals[i], models[i]
        kind = o[0]
        ctx.label(kind)
        if kind in ("add", "std"):
            if kind == "std":
                name, E, k, de, ow = o[2], STANDARD_FEATURES[o[2]], o[3], None, True
                ph = ph_of(E, k)
                call = lambda: c.add_cal_point(ph, o[2])
            else:
                _, _, E, name, k, de, ow = o
                ph = ph_of(E, k)
                call = lambda: c.add_cal_point(ph, E, name, e_error=de, overwrite=ow)
            ee = 0.01 if de is None else de
            new = [name, ph, E, ph * 0.001, ee]
            hit = None
            if name and name in [p[0] for p in m.pts]:
                hit = [p[0] for p in m.pts].index(name)
                by = "name"
            elif m.pts:
                d = [abs(E - p[2]) for p in m.pts]
                if min(d) <= ee:
                    near = [j for j, v in enumerate(d) if v == min(d)]
                    hit, by = near[0], "energy"
                    if len(near) > 1:
                        continue      # two points equally near: either may be replaced
            if hit is not None and not ow:
                try:
                    call()
                except ValueError:
                    special += 1
                    check_points(c, m, "refused add")
                    continue
                raise AssertionError("overwrite=False replaced a point")
            pts = [list(p) for p in m.pts]
            if hit is None:
                pts.append(new)
            else:
                special += 1
                pts[hit] = new
            if m.ties(pts):
                continue
            mono = m.monotone(pts)
            try:
                call()
            except ValueError:
                raise
            except Exception:
                assert not mono, f"refused a monotone point {new} beside {m.pts}"
                check_points(c, m, "refused non-monotone add")
                continue
            assert mono, f"accepted non-monotone point {new} beside {m.pts}"
            if hit is not None and by == "energy":
                # the name may be the old or the new one
                now = [n for p, e, n in observed(c) if e == E and p == ph]
                old = m.pts[hit][0]
                assert now and all(n in (old, name) for n in now)
                pts[hit][0] = now[0] if now[0] in (old, name) else name
            m.pts = pts
            edits += 1
        elif kind == "bad":
            E, f = o[2] + 37.25, o[3]
            ph = ph_of(E) * f
            pts = m.pts + [["bad", ph, E, 1.0, 0.01]]
            if m.ties(pts) or m.monotone(pts):
                continue
            try:
                c.add_cal_point(ph, E)
            except Exception:
                special += 1
            else:
                raise AssertionError("a non-monotone point was accepted")
        elif kind == "badname":
            try:
                c.add_cal_point(12.0, "NotAnElementKAlpha")
            except ValueError:
                pass
            else:
                raise AssertionError("an unknown feature name was accepted")
        elif kind == "rmname":
            names = [p[0] for p in m.pts]
            if names.count(o[2]) > 1:
                continue
            try:
                c.remove_cal_point_name(o[2])
            except ValueError:
                assert o[2] not in names
            else:
                assert o[2] in names, "removed a point that is not there"
                del m.pts[names.index(o[2])]
                edits += 1
                special += 1
        elif kind == "rmprefix":
            n = c.remove_cal_point_prefix(o[2])
            keep = [p for p in m.pts if not p[0].startswith(o[2])]
            assert n == len(m.pts) - len(keep), f"reported {n} removed, expected {len(m.pts) - len(keep)}"
            special += len(keep) != len(m.pts)
            edits += len(keep) != len(m.pts)
            m.pts = keep
        elif kind == "rmenergy":
            c.remove_cal_point_energy(o[2], o[3])
            keep = [p for p in m.pts if not abs(p[2] - o[2]) < o[3]]
            special += len(keep) != len(m.pts)
            edits += len(keep) != len(m.pts)
            m.pts = keep
        elif kind == "curve":
            c.set_curvetype(o[2] if o[3] else CURVES.index(o[2]))
            m.curve = o[2]
        elif kind == "approx":
            c.set_use_approximation(o[2])
            m.approx = o[2]
        elif kind == "gpr":
            c.set_GPR(o[2])
            m.gpr = o[2]
        elif kind == "nonlin":
            c.set_nonlinearity(o[2])
            m.nonlin = o[2]
        elif kind == "eval":
            ncurves += check_curve(c, m, "eval")
        elif kind == "copy":
            if len(cals) < 4:
                cals.append(c.copy())
                models.append(m.copy())
                special += 1
        elif kind == "store":
            cals[i] = h5_roundtrip(c, m, path, o[2], True)
            special += 1
        for cc, mm in zip(cals, models):
            check_points(cc, mm, kind)
    for c, m in zip(cals, models):
        ncurves += check_curve(c, m, "the whole history")
        c2 = h5_roundtrip(c, m, path, True, True)
        check_points(c2, m, "final reload")
        check_curve(c2, m, "final reload")
        if m.pts and evaluable(m):
            assert str(c2).count("energy(ph=") == len(m.pts)
    ctx.nt(edits >= 3 and special >= 1)
    ctx.label(f"curves{min(ncurves, 3)}", f"cals{len(cals)}")


@sub(st.tuples(st.lists(st.sampled_from(sorted(set(ENERGIES))), min_size=3, max_size=6, unique=True), st.sampled_from(CURVES), st.booleans(),
               st.lists(st.sampled_from([0.0, 1e-3, 0.01, 0.2]), min_size=6, max_size=6), st.booleans()), quick=300, thorough=3000,
     rule="uncertainties (some zero) stored with the points are not altered by evaluating the smoothed curve")
def errors_kept(case, ctx):
    E, curve, gpr, de, save = case
    E = sorted(E)
    if any(b - a < 0.45 for a, b in zip(E, E[1:])):
        return
    c = EnergyCalibration(curvetype=curve, approximate=True, useGPR=gpr)
    want = []
    for e, d in zip(E, de):
        p = ph_of(e)
        c.add_cal_point(p, e, "", p * d / 10, d)
        want.append((p, e, p * d / 10, d))
    ctx.nt(min(de[:len(E)]) == 0)
    try:
        with np.errstate(all="ignore"):
            c.ph2energy(1000.0)
    except (ValueError, np.linalg.LinAlgError):
        ctx.label("spline declined")
    with h5py.File(os.path.join(ctx.dir, "e.hdf5"), "w") as f:
        c.save_to_hdf5(f, "cal")
        got = sorted(zip(f["cal/ph"][:], f["cal/energy"][:], f["cal/dph"][:], f["cal/de"][:]))
    assert got == sorted(want), f"stored {got}, expected {sorted(want)}"


setting = st.one_of(
    st.tuples(st.just("curve"), st.sampled_from(CURVES)),
    st.tuples(st.just("approx"), st.booleans()),
    st.tuples(st.just("gpr"), st.booleans()),
    st.tuples(st.just("nonlin"), st.sampled_from([1.0, 1.05, 1.1, 1.15, 1.3])),
    st.tuples(st.just("nonlin"), st.sampled_from([1.0, 1.05, 1.1, 1.15, 1.3])),
    st.tuples(st.just("add"), st.sampled_from([500.0, 1000.0, 1500.0, 2300.0, 4000.0, 5000.0, 8000.0])),
    st.tuples(st.just("rm"), st.integers(0, 9)))


@sub(st.tuples(st.lists(st.sampled_from([500.0, 1000.0, 1500.0, 2300.0, 4000.0, 5000.0, 8000.0]), min_size=0, max_size=5, unique=True),
               st.lists(st.tuples(setting, st.integers(0, 3)), min_size=1, max_size=8), st.booleans()), quick=600, thorough=8000,
     rule="settings changed between evaluations: each evaluation is that of a calibration built afresh with the present points and settings")
def settings_history(case, ctx):
    c, m = EnergyCalibration(approximate=case[2]), Model()
    m.approx = case[2]
    for E in case[0]:
        c.add_cal_point(ph_of(E), E)
        m.pts.append(["", ph_of(E), E, ph_of(E) * 0.001, 0.01])
    n = check_curve(c, m, "start")
    for s, ev in case[1]:
        if s[0] == "curve":
            c.set_curvetype(s[1])
            m.curve = s[1]
        elif s[0] == "approx":
            c.set_use_approximation(s[1])
            m.approx = s[1]
        elif s[0] == "gpr":
            c.set_GPR(s[1])
            m.gpr = s[1]
        elif s[0] == "nonlin":
            c.set_nonlinearity(s[1])
            m.nonlin = s[1]
        elif s[0] == "add":
            E = s[1]
            if E not in [p[2] for p in m.pts]:
                c.add_cal_point(ph_of(E), E)
                m.pts.append(["", ph_of(E), E, ph_of(E) * 0.001, 0.01])
        elif m.pts:
            p = m.pts[s[1] % len(m.pts)]
            c.remove_cal_point_energy(p[2], 0.5)
            m.pts.remove(p)
        if ev:
            n += check_curve(c, m, s[0])
        check_points(c, m, s[0])
    n += check_curve(c, m, "the end")
    ctx.nt(n >= 3)
