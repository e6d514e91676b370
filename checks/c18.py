"""C18: observations of moving objects."""
import os
import sqlite3
import sys
import warnings

import numpy as np
import pandas as pd

from vlib.h import Check
from vlib import fakeoorb, synth

fakeoorb.install()
os.environ.setdefault("OORB_DATA", "/nonexistent")
from rubin_sim.moving_objects import DirectObs, Orbits  # noqa: E402
import rubin_sim.moving_objects.make_lsst_obs as mlo  # noqa: E402

check = Check(
    "C18",
    "random orbits are flown (by an analytic stand-in of the integrator) over random pointing histories aimed at and beside their tracks; the generated "
    "observations are compared pair by pair with all objects at all visit times judged by independent footprint geometry, and every column with truth; "
    "coarse step and tolerance, precomputed positions, batching, visit order, previous use, units and column names vary",
    assumptions=["objects move less than the coarse tolerance minus the field of view per coarse step", "the orbit integrator is replaced by smooth analytic sky paths"],
    nproc=4,
    budget=(200, 720),
)

CAM_R = 1.94
SEDS = {"C.dat": 0.0, "S.dat": 1.3, "TNO_red.dat": 2.6}
world = {}


def setup():
    d = os.environ["RUBIN_SIM_DATA_DIR"]
    world["x"], world["img"] = synth.fov_map(os.path.join(d, "utils", "fov_map.npz"))
    synth.throughputs(d)
    m = os.path.join(d, "movingObjects")
    os.makedirs(m, exist_ok=True)
    w = np.arange(300.0, 1150.0 + 0.05, 0.5)
    v = 0.9 / (1 + np.exp(-(w - 490.0) / 5)) / (1 + np.exp((w - 600.0) / 8))
    v[v < 1e-6] = 0
    np.savetxt(os.path.join(m, "harris_V.dat"), np.column_stack([w, v]), fmt="%.4f %.10f")
    for s, slope in SEDS.items():
        np.savetxt(os.path.join(m, s), np.column_stack([w, (w / 550.0) ** (slope - 2)]), fmt="%.4f %.12f")


check.setup_fn = setup


def color(sed, band):
    """AB magnitude in the band minus V, integrated here"""
    w = np.arange(300.0, 1150.0 + 0.05, 0.5)
    fnu = (w / 550.0) ** SEDS[sed]

    def mag(t):
        return -2.5 * np.log10(np.sum(fnu * t / w) / np.sum(t / w))
    lo, hi = synth.BANDS[band]
    t = 0.4 / (1 + np.exp(-(w - lo) / 4.0)) / (1 + np.exp((w - hi) / 5.0))
    t[t < 1e-6] = 0
    v = 0.9 / (1 + np.exp(-(w - 490.0) / 5)) / (1 + np.exp((w - 600.0) / 8))
    v[v < 1e-6] = 0
    return mag(t) - mag(v)


def orbits(c, n, amin=0.5):
    """KEP orbits; the track kinds cover poles, the equator, RA 0"""
    inc = np.array([c.choice([0.0, 90.0, 89.5, 180.0 * c.rng.random(), 30 * c.rng.random()]) for _ in range(n)])
    d = pd.DataFrame(dict(
        obj_id=c.choice([np.arange(n), c.rng.permutation(n) * 7 + 3, np.array([f"S100{i}{'x' * c.randint(0, 6)}" for i in range(n)], dtype=object)]),
        a=c.uniform(amin, 8, n), e=c.uniform(0, 0.4, n), inc=inc, Omega=c.uniform(0, 360, n), argPeri=c.uniform(0, 360, n), meanAnomaly=c.uniform(0, 360, n),
        epoch=np.full(n, 60000.0), H=c.uniform(12, 25, n), g=np.full(n, 0.15),
        sed_filename=np.array([c.choice(list(SEDS)) for _ in range(n)], dtype=object)))
    o = Orbits()
    o.set_orbits(d)
    rows = np.zeros((n, 12))
    rows[:, 0] = 1
    rows[:, 1], rows[:, 2] = d.a, d.e
    rows[:, 3:7] = np.radians(d[["inc", "Omega", "argPeri", "meanAnomaly"]].values)
    rows[:, 7], rows[:, 8], rows[:, 9], rows[:, 10], rows[:, 11] = 3, d.epoch, 3, d.H, d.g
    return d, o, rows


def offset(ra, dec, r, pa):
    """degrees: the point at separation r and position angle pa"""
    ra, dec, r, pa = map(np.radians, (ra, dec, r, pa))
    d2 = np.arcsin(np.clip(np.sin(dec) * np.cos(r) + np.cos(dec) * np.sin(r) * np.cos(pa), -1, 1))
    dra = np.arctan2(np.sin(pa) * np.sin(r) * np.cos(dec), np.cos(r) - np.sin(dec) * np.sin(d2))
    return np.degrees(ra + dra) % 360, np.degrees(d2)


def names(c):
    if c.flip(0.5):
        return {}
    return dict(obs_time_col="mjd", seeing_col="see", visit_exp_time_col="texp", obs_ra="ra", obs_dec="de", obs_rot_sky_pos="rot", night_col="nn", filter_col="filter", m5_col="m5", obs_id_col="visitId")


DEF = dict(obs_time_col="observationStartMJD", seeing_col="seeingFwhmGeom", visit_exp_time_col="visitExposureTime", obs_ra="fieldRA", obs_dec="fieldDec",
           obs_rot_sky_pos="rotSkyPos", night_col="night", filter_col="band", m5_col="fiveSigmaDepth", obs_id_col="observationId")


def visits(c, rows, extent, span, deg=True, nm={}, tfix=None):
    nm = dict(DEF, **nm)
    n = c.randint(1, 120)
    t = np.sort(60000 + c.uniform(0, span, n)) if c.flip(0.6) else 60000 + c.uniform(0, span, n)
    if c.flip(0.2):
        t = np.round(t * 2) / 2
    if c.flip(0.1):
        t[:] = t[0]
    ra, dec = c.uniform(0, 360, n), np.degrees(np.arcsin(c.rng.uniform(-1, 1, n)))
    for i in range(n):
        if c.flip(0.85):
            tr = fakeoorb.truth(tfix(rows[c.randint(0, len(rows) - 1)]), when(t[i]))
            r = extent * c.choice([0, c.rng.random(), c.rng.uniform(0.9, 1.1), 1.4 * c.rng.random()])
            ra[i], dec[i] = offset(tr["ra"][0], tr["dec"][0], r, c.uniform(0, 360))
    d = np.zeros(n, dtype=[(nm[k], int if k in ("night_col", "obs_id_col") else "<U1" if k == "filter_col" else float) for k in DEF] + [("extra", float)])
    f = (lambda x: x) if deg else np.radians
    d[nm["obs_time_col"]] = t
    d[nm["seeing_col"]] = c.uniform(0.5, 2.5, n)
    d[nm["visit_exp_time_col"]] = [c.choice([15.0, 30.0, 29.2, 300.0]) for _ in range(n)]
    d[nm["obs_ra"]], d[nm["obs_dec"]] = f(ra), f(dec)
    d[nm["obs_rot_sky_pos"]] = f(c.uniform(0, 360, n))
    d[nm["night_col"]] = np.floor(t - 60000)
    d[nm["filter_col"]] = [c.choice("ugrizy") for _ in range(n)]
    d[nm["m5_col"]] = c.uniform(21, 25, n)
    d[nm["obs_id_col"]] = c.rng.permutation(n) + c.randint(0, 10**6)
    return d, nm


_scale = {"code": 4}


def when(t):
    return np.atleast_1d(t) + fakeoorb.shift["scale"] * (_scale["code"] - 4)


def inside(kind, par, ra, dec, d, nm, deg):
    """(inside, ambiguous) of one object's positions at all visits; degrees"""
    f = (lambda x: x) if deg else np.degrees
    vra, vdec, rot = f(d[nm["obs_ra"]]), f(d[nm["obs_dec"]]), f(d[nm["obs_rot_sky_pos"]])
    sep = np.degrees(synth.angsep(np.radians(ra), np.radians(dec), np.radians(vra), np.radians(vdec)))
    if kind == "circle":
        return sep <= par["r_fov"], np.abs(sep - par["r_fov"]) < 1e-7
    if kind == "rectangle":
        dr = np.abs((ra - vra + 180) % 360 - 180) * np.cos(np.radians(vdec))
        dd = np.abs(dec - vdec)
        ins = (dr <= par["x_tol"]) & (dd <= par["y_tol"])
        amb = (np.abs(dr - par["x_tol"]) < 1e-7) | (np.abs(dd - par["y_tol"]) < 1e-7) | (np.abs(dec - vdec) > 89) | (np.abs(vdec) > 89.9999)
        return ins, amb
    ci, ca = synth.camera_inside(world["x"], world["img"], CAM_R, np.radians(ra), np.radians(dec), np.radians(vra), np.radians(vdec), np.radians(rot))
    near = sep < 10
    return ci & near, ca & near


def setting(c, amin=0.5):
    """footprint, coarse settings such that every passage is within tolerance"""
    kind = c.choice(["circle", "rectangle", "camera"])
    par = {}
    if kind == "circle":
        par["r_fov"] = c.choice([1.75, c.uniform(0.2, 3.4)])
        ext = par["r_fov"]
    elif kind == "rectangle":
        if c.flip(0.3):
            par.update(x_tol=5, y_tol=3)
        else:
            par.update(x_tol=c.uniform(0.3, 5), y_tol=c.uniform(0.3, 3))
        ext = np.hypot(par["x_tol"], par["y_tol"])
    else:
        ext = 2.1
    return kind, par, ext


def judge(c, res, df, rows, d, nm, deg, kind, par, tfix, ids=None, what="", full=False):
    """compare all pairs"""
    got = {}
    c.expect(isinstance(res, np.ndarray) and res.dtype.names is not None and {"obj_id", "ra", "dec", "dmag_color", nm["m5_col"]} <= set(res.dtype.names), f"{what}: result {res!r:.80} has no columns", key="columns")
    if len(res):
        for i in range(len(res)):
            k = (str(res["obj_id"][i]), int(res[nm["obs_id_col"]][i]))
            c.expect(k not in got, f"{what}: pair {k} reported twice", key="duplicate")
            got[k] = i
    npair = nhit = namb = 0
    t = d[nm["obs_time_col"]]
    for o in range(len(rows)):
        tr = fakeoorb.truth(tfix(rows[o]), when(t))
        tr["trueAnom"] = tr["trueAnomaly"]
        ins, amb = inside(kind, par, tr["ra"], tr["dec"], d, nm, deg)
        oid = str(df["obj_id"].iloc[o])
        sed = df["sed_filename"].iloc[o]
        for j in range(len(d)):
            k = (oid, int(d[nm["obs_id_col"]][j]))
            i = got.pop(k, None)
            npair += 1
            if amb[j]:
                namb += 1
            else:
                c.expect((i is not None) == bool(ins[j]), f"{what}: object {oid} at {tr['ra'][j]:.4f},{tr['dec'][j]:.4f} and visit {j} ({d[j]}): {'not ' if i is None else ''}reported, {kind} {par}", key="pairs")
            if i is None:
                continue
            nhit += 1
            r = res[i]
            for q in ("ra", "dec", "dradt", "ddecdt", "phase", "solarelon", "helio_dist", "geo_dist", "magV", "trueAnom" if full else "trueAnomaly"):
                c.expect(np.isclose(r[q], tr[q][j], rtol=1e-8, atol=1e-8), f"{what}: {q} of object {oid} at visit {j} is {r[q]}, at its time {tr[q][j]}", key="ephemeris")
            if full:
                for q, z in (("pa", 110), ("lunar_dist", 123), ("obs_helio_z", 132)):
                    c.expect(np.floor(r[q]) == z, f"{what}: full ephemeris column {q} is {r[q]}", key="ephemeris")
            c.expect(r["time"] == t[j] and r[nm["obs_time_col"]] == t[j], f"{what}: time {r['time']} for visit at {t[j]}", key="visit-data")
            for q in ("visit_exp_time_col", "m5_col", "seeing_col", "night_col", "filter_col"):
                c.expect(r[nm[q]] == d[nm[q]][j], f"{what}: {q} {r[nm[q]]} is not the visit's {d[nm[q]][j]}", key="visit-data")
            vel = np.hypot(tr["dradt"][j], tr["ddecdt"][j])
            c.expect(np.isclose(r["velocity"], vel, rtol=1e-7), f"{what}: velocity {r['velocity']} for {vel}", key="velocity")
            x = vel * d[nm["visit_exp_time_col"]][j] / d[nm["seeing_col"]][j] / 24.0
            c.expect(np.isclose(r["dmag_trail"], 1.25 * np.log10(1 + 0.761 * x**2 / (1 + 1.162 * x)), rtol=1e-6, atol=1e-12), f"{what}: trailing loss {r['dmag_trail']} at x={x}", key="trailing")
            c.expect(np.isclose(r["dmag_detect"], 1.25 * np.log10(1 + 0.42 * x**2 / (1 + 0.003 * x)), rtol=1e-6, atol=1e-12), f"{what}: detection loss {r['dmag_detect']} at x={x}", key="trailing")
            c.expect(r["sedname"] == sed, f"{what}: spectrum {r['sedname']} of object {oid} with {sed}", key="sed")
            c.expect(abs(r["dmag_color"] - color(sed, str(d[nm["filter_col"]][j]))) < 2e-3, f"{what}: color {r['dmag_color']} for {sed} in {d[nm['filter_col']][j]}, integrated {color(sed, str(d[nm['filter_col']][j]))}", key="color")
    c.expect(not got, f"{what}: pairs that do not exist: {list(got)[:3]}", key="pairs")
    c.obs("pair", (kind, nhit > 0, npair > nhit), npair)
    c.obs("observation", (kind, nhit.bit_length()), nhit)
    return nhit


def reset():
    fakeoorb.shift.update(mode=0.0, code=0.0, scale=0.0)
    fakeoorb.fail["code"] = 0
    _scale["code"] = 4


def build(c, positions=False):
    reset()
    kind, par, ext = setting(c)
    deg = c.flip(0.7)
    nm = names(c)
    tstep = c.choice([1.0, 0.5, 2.0, 0.3])
    amin = 0.5
    # velocity bound: 360/(365.25 a) + wobble 2 pi e
    kw = dict(footprint=c.choice([kind, kind.upper()]), tstep=tstep, obs_degrees=deg, **par, **nm)
    mode = c.choice(["nbody", "2body", "NBODY"])
    kw.update(eph_mode=mode, prelim_eph_mode=c.choice(["2body", "nbody"]))
    code = c.choice(["I11", "I11", "807"])
    scale = c.choice(["TAI", "TAI", "UTC"])
    kw.update(obs_code=code, obs_time_scale=scale)
    if c.flip(0.4):
        fakeoorb.shift.update(mode=c.uniform(-0.3, 0.3), code=c.uniform(-0.2, 0.2), scale=c.choice([0.0, 0.01]))
        _scale["code"] = {"TAI": 4, "UTC": 1}[scale]
    full = c.flip(0.15)
    if full:
        kw["eph_type"] = "full"

    def tfix(row):
        return fakeoorb.seen(row, code, "2" if mode == "2body" else "N")
    return kind, par, ext, deg, nm, kw, tstep, tfix, full


def slow_enough(rows, tstep, ext, tol):
    v = 360 / (365.25 * rows[:, 1]) * 1.05 * tstep + np.minimum(rows[:, 2] * 2.1, rows[:, 2] * 6.6 * tstep)
    return np.all(v + ext * 1.25 + 0.7 < tol)


@check.scenario(250, 1100)
def fly(c):
    """every pair, every column; order, batches, reuse and the coarse stage do not matter"""
    kind, par, ext, deg, nm, kw, tstep, tfix, full = build(c)
    n = c.randint(1, 6)
    df, orb, rows = orbits(c, n)
    tol = c.choice([10.0, c.uniform(9, 30)])
    if not slow_enough(rows, tstep, ext, tol):
        kw["tstep"] = tstep = 0.5
        tol = 14.0
    span = c.choice([2.0, 20.0, 60.0])
    d, fnm = visits(c, rows, ext, span, deg, nm, tfix)
    before = d.copy()
    obefore = orb.orbits.copy()
    do = DirectObs(rough_tol=tol, **kw)
    do.read_filters()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = do.run(orb, d)
    nhit = judge(c, res, df, rows, d, fnm, deg, kind, par, tfix, what="run", full=full)
    c.expect(np.array_equal(d, before), "the pointing history was changed", key="input-changed")
    c.expect(orb.orbits.equals(obefore), "the orbits were changed", key="input-changed")
    c.obs("flight", (kind, deg, nhit > 0, full, kw["eph_mode"]))
    # another order, in batches, with the same or another instance
    what = c.choice(["order", "batch", "again", "coarse"])
    do2 = do if c.flip(0.5) else DirectObs(rough_tol=tol, **kw)
    if do2 is not do:
        do2.read_filters()
    if what == "order":
        d2 = d[c.rng.permutation(len(d))]
        judge(c, do2.run(orb, d2), df, rows, d2, fnm, deg, kind, par, tfix, what="shuffled visits", full=full)
    elif what == "batch":
        for o in range(n):
            one = Orbits()
            one.set_orbits(df.iloc[[o]].reset_index(drop=True))
            judge(c, do2.run(one, d), df.iloc[[o]], rows[[o]], d, fnm, deg, kind, par, tfix, what="one object", full=full)
    elif what == "again":
        df3, orb3, rows3 = orbits(c, c.randint(1, 3))
        if slow_enough(rows3, tstep, ext, tol):
            d3, _ = visits(c, rows3, ext, 5.0, deg, nm, tfix)
            judge(c, do2.run(orb3, d3), df3, rows3, d3, fnm, deg, kind, par, tfix, what="next run", full=full)
    else:
        do3 = DirectObs(rough_tol=80.0 if kind == "camera" else 180.0, **dict(kw, tstep=c.choice([0.7, 1.0, 5.0])))
        do3.read_filters()
        judge(c, do3.run(orb, d), df, rows, d, fnm, deg, kind, par, tfix, what="coarse stage", full=full)
    reset()


@check.scenario(120, 600)
def precomputed(c):
    """positions computed beforehand only save time"""
    kind, par, ext, deg, nm, kw, tstep, tfix, full = build(c)
    n = c.randint(1, 5)
    df, orb, rows = orbits(c, n)
    rows_ok = slow_enough(rows, 1.0, ext, 14.0)
    span = c.choice([3.0, 15.0, 30.0])
    d, fnm = visits(c, rows, ext, span, deg, nm, tfix)
    if kind == "rectangle":
        vd = d[fnm["obs_dec"]] if deg else np.degrees(d[fnm["obs_dec"]])
        d = d[np.abs(vd) < 75]
        if len(d) == 0:
            return
    dt = c.choice([0.25, 0.5, 1.0, 2.0])
    lo, hi = d[fnm["obs_time_col"]].min(), d[fnm["obs_time_col"]].max()
    how = c.choice(["cover", "cover", "tight", "short"])
    if how == "cover":
        mjds = np.arange(lo - dt * c.rng.random() - 0.01, hi + dt + 0.01, dt)
    elif how == "tight":
        k = max(2, int(np.ceil((hi - lo) / dt)) + 1)
        mjds = np.linspace(lo, hi, k) if hi > lo else np.array([lo, lo + dt])
        mjds[0], mjds[-1] = lo, max(hi, mjds[-1])
    else:
        mjds = np.arange(lo + 0.001, hi + 0.5, dt)
        if len(mjds) < 2:
            mjds = np.array([lo + 0.001, lo + 0.002])
        if not rows_ok:
            return
    pos = np.zeros((n, len(mjds)), dtype=[("ra", float), ("dec", float)])
    for o in range(n):
        tr = fakeoorb.truth(rows[o], mjds)
        pos["ra"][o], pos["dec"][o] = tr["ra"], tr["dec"]
    keep = pos.copy()
    do = DirectObs(rough_tol=14.0, **dict(kw, tstep=0.5))
    do.read_filters()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = do.run(orb, d, object_positions=pos, object_mjds=mjds)
    c.expect(np.array_equal(pos, keep), "the precomputed positions were changed", key="input-changed")
    nhit = judge(c, res, df, rows, d, fnm, deg, kind, par, tfix, what=f"precomputed ({how}, step {dt})", full=full)
    c.obs("precomputed", (kind, how, dt, nhit > 0))
    reset()


@check.scenario(300, 3000)
def footprints(c):
    """the footprint tests on pairs of positions and pointings, without flying"""
    reset()
    kind, par, ext = setting(c)
    deg = c.flip(0.5)
    nm = dict(DEF, **names(c))
    n = c.randint(1, 200)
    _, ra, dec = synth.radec(c, n)
    r = ext * c.rng.uniform(0, 1.5, n)
    vra, vdec = offset(ra, dec, r, c.uniform(0, 360, n))
    if c.flip(0.3):
        vra = np.where(vra > 180, vra - 360, vra)
    rot = c.uniform(0, 360, n)
    d = np.zeros(n, dtype=[(nm["obs_ra"], float), (nm["obs_dec"], float), (nm["obs_rot_sky_pos"], float)])
    f = (lambda x: x) if deg else np.radians
    d[nm["obs_ra"]], d[nm["obs_dec"]], d[nm["obs_rot_sky_pos"]] = f(vra), f(vdec), f(rot)
    e = np.rec.fromarrays([ra, dec], names="ra,dec")
    do = DirectObs(footprint=kind, obs_degrees=deg, **par, **{k: v for k, v in nm.items()})
    got = np.zeros(n, bool)
    idx = do.sso_in_fov(e, d)
    c.expect(len(np.unique(idx)) == len(idx), "an index is returned twice", key="footprint")
    got[idx] = True
    ins, amb = inside(kind, par, ra, dec, d, nm, deg)
    bad = np.where((got != ins) & ~amb)[0]
    c.expect(len(bad) == 0, f"{kind} {par}: object {ra[bad[:1]]},{dec[bad[:1]]} pointing {vra[bad[:1]]},{vdec[bad[:1]]} rot {rot[bad[:1]]}: {got[bad[:1]]}", key="footprint")
    c.obs("footprint", (kind, deg, bool(ins.any()), bool((~ins).any())), n)


@check.scenario(60, 400)
def colors_losses(c):
    """colors per spectrum and band, also after other filters were read; losses elementwise"""
    reset()
    do = DirectObs(footprint="circle")
    seen = []
    for _ in range(c.randint(1, 4)):
        bands = list(c.rng.permutation(list("ugrizy"))[: c.randint(1, 6)])
        do.read_filters(filterlist=bands)
        for _ in range(c.randint(1, 4)):
            s = c.choice(list(SEDS))
            got = do.calc_colors(s)
            c.expect(set(got) >= set(bands), f"colors {sorted(got)} for filters {bands} (before: {seen})", key="color-filters")
            for b in bands:
                c.expect(abs(got[b] - color(s, b)) < 2e-3, f"color of {s} in {b}: {got[b]} for {color(s, b)}", key="color")
        seen.append(bands)
    n = c.randint(1, 20)
    v, see, t = c.choice([c.uniform(0, 3, n), np.zeros(n), c.uniform(0, 100, n)]), c.uniform(0.4, 3, n), c.choice([30.0, c.uniform(1, 300, n)])
    a, b = do.calc_trailing_losses(v, see, t)
    x = v * t / see / 24.0
    c.close(a, 1.25 * np.log10(1 + 0.761 * x**2 / (1 + 1.162 * x)), "trailing loss", rtol=1e-9, atol=1e-14, key="trailing")
    c.close(b, 1.25 * np.log10(1 + 0.42 * x**2 / (1 + 0.003 * x)), "detection loss", rtol=1e-9, atol=1e-14, key="trailing")
    c.expect(np.all(a >= 0) and np.all(b >= a - 1e-12) or np.any(x < 1.0), "the detection loss of a long trail is less than its trailing loss", key="trailing")
    fails = DirectObs(footprint="circle")
    df, orb, rows = orbits(c, 1)
    fakeoorb.fail["code"] = 3
    try:
        c.raises(RuntimeError, lambda: fails.generate_ephemerides(orb, np.array([60000.0])), "an integrator error", key="integrator-error")
    finally:
        reset()
    c.obs("colors", (len(seen), n > 10))


@check.scenario(24, 120)
def command_line(c):
    """make_lsst_obs: from files to file"""
    reset()
    kind, par, ext = setting(c)
    n = c.randint(1, 4)
    df, orb, rows = orbits(c, n)
    tstep, tol = 0.5, 14.0
    d, nm = visits(c, rows, ext, 4.0, True, {}, lambda r: r)
    con = c.choice(["", "night < 2", "band = 'r'"])
    db = os.path.join(c.scratch, "run one.db" if c.flip(0.3) else "run_v1.1.db")
    t = pd.DataFrame({k: d[k] for k in d.dtype.names})
    t["seeingFwhmEff"] = 1.0
    t["solarElong"] = 100.0
    with sqlite3.connect(db) as cn:
        t.to_sql("observations", cn, index=False)
    cn.close()
    of = os.path.join(c.scratch, "orb.s.txt")
    with open(of, "w") as fh:
        cols = list(df.columns)
        fh.write(" ".join(cols) + "\n")
        for i in range(n):
            fh.write(" ".join(str(x) if isinstance(x, str) else repr(float(x)) if k not in ("obj_id",) else str(x) for k, x in zip(cols, df.iloc[i])) + "\n")
    cwd = os.getcwd()
    os.chdir(c.scratch)
    argv = sys.argv
    try:
        os.makedirs("sub/deep")
        out = c.choice([None, "sub/deep", os.path.join(c.scratch, "sub")])
        name = c.choice([None, "res.npz"])
        sys.argv = ["make_lsst_obs", "--simulation_db", db, "--orbit_file", of, "--footprint", kind, "--t_step", str(tstep), "--rough_tol", str(tol)]
        for k, v in par.items():
            sys.argv += ["--" + k, repr(float(v))]
        if con:
            sys.argv += ["--sql_constraint", con]
        if out:
            sys.argv += ["--out_dir", out]
        if name:
            sys.argv += ["--output_file", name]
        pre = c.flip(0.4)
        if pre:
            mjds = np.arange(59999.0, 60006.0, 0.5)
            pos = np.zeros((n, len(mjds)), dtype=[("ra", float), ("dec", float)])
            for o in range(n):
                tr = fakeoorb.truth(rows[o], mjds)
                pos["ra"][o], pos["dec"][o] = tr["ra"], tr["dec"]
            np.savez("pos.npz", positions=pos, mjds=mjds)
            sys.argv += ["--positions_file", "pos.npz"]
        sel = np.ones(len(d), bool)
        if con.startswith("night"):
            sel = d["night"] < 2
        elif con:
            sel = d["band"] == "r"
        if not sel.any():
            return
        if kind == "rectangle" and pre and np.any(np.abs(d["fieldDec"]) > 75):
            return
        mlo.make_lsst_obs()
        base = name or (os.path.basename(db).replace(".db", "") + "__orb.s_obs.npz")
        path = os.path.join(out or ".", base)
        c.expect(os.path.isfile(path), f"no output at {path}; files: {[os.path.join(r, f) for r, _, fs in os.walk('.') for f in fs]}", key="output-path")
        with np.load(path) as z:
            res, info = z["object_observations"], z["info"]
        c.expect(str(info["footprint"][0]) == kind and db in str(info["obs_info"][0]), f"provenance {info}", key="info")
    finally:
        sys.argv = argv
        os.chdir(cwd)
    nhit = judge(c, res, df, rows, d[sel], nm, True, kind, par, lambda r: r, what="make_lsst_obs")
    c.obs("command", (kind, con, out is None, name is None, pre, nhit > 0))
