"""C26: science metrics equal their definitions, whatever the visit order, history or extra columns."""
import inspect
import math
import os
import warnings

import healpy as hp
import numpy as np
import scipy.integrate
import scipy.special

from vlib import synth
from vlib.h import Check, short

synth_dir = os.environ["RUBIN_SIM_DATA_DIR"]
BANDS = "ugrizy"

check = Check("C26", "astrometric, extragalactic, galactic, AGN, transient, crowding and template metrics run over random visits (ties, one visit, missing bands, shuffled rows, renamed columns, list or array options) and random slice points, "
              "each compared with an independent definition; and every registered metric re-run with shuffled rows, after other inputs, with only its declared columns and the keys of its declared maps. Non-trivial: a comparison with a result that is not the bad value.",
              assumptions=["dust coefficients, stellar colours and instrument zeropoints are trusted", "visits with exactly equal times are judged only where the order cannot matter",
                           "quantities that land within rounding of a threshold are not generated"])


def setup():
    synth.throughputs(os.environ["RUBIN_SIM_DATA_DIR"])
    synth.fov_map(os.path.join(os.environ["RUBIN_SIM_DATA_DIR"], "utils", "fov_map.npz"))
    d = os.path.join(os.environ["RUBIN_SIM_DATA_DIR"], "maf", "quasarNumberCounts")
    os.makedirs(d, exist_ok=True)
    r = np.random.default_rng(7)
    for b in BANDS:
        mags = np.arange(14.0, 28.5, 0.5)
        zs = np.arange(0.0, 8.4, 0.3)
        den = QDENS[b]
        with open(os.path.join(d, f"Long_Table.LSST{b}.Shen20.A.Richards06.txt"), "w") as f:
            f.write(" ".join(f"{m:.3f}" for m in mags) + "\n")
            f.write(" ".join(f"{z:.3f}" for z in zs) + "\n")
            for _ in range(mags.size - 1):
                f.write(" ".join(f"{den:.8f}" for _ in range(zs.size - 1)) + "\n")


QDENS = dict(zip(BANDS, (0.5, 0.25, 1.5, 0.75, 2.0, 1.0)))
check.setup_fn = setup

warnings.simplefilter("ignore")
import rubin_sim.maf.maf_contrib as MC  # noqa: E402
import rubin_sim.maf.metrics as M  # noqa: E402
from rubin_sim.maf.metrics.uniformity_metrics import MultibandExgalM5  # noqa: E402
from rubin_sim.maf.utils import stellar_mags  # noqa: E402
from rubin_sim.phot_utils import DustValues  # noqa: E402

NAMES = dict(observationStartMJD="mjd2", fiveSigmaDepth="deep", band="passband", seeingFwhmGeom="fwhm", seeingFwhmEff="fwhmeff", night="nn", visitExposureTime="texp")


def ax1():
    return DustValues().ax1


def visits(c, n=None, bands=None, rename=(), years=10.0, single=False):
    n = n if n is not None else c.choice([1, 2, 3, c.randint(4, 30), c.randint(30, 150)])
    bands = bands or (c.choice(list(BANDS)) if single else c.choice([BANDS, BANDS, "gri", "iz", "ugrizy"]))
    span = int(c.choice([1, 3, 40, 365.25 * years]))
    night = c.rng.integers(0, max(1, span), n)
    mjd = 61000 + night + c.uniform(0.0, 0.42, n)
    cols = dict(
        observationId=np.arange(n), night=night, observationStartMJD=mjd, fieldRA=c.uniform(29, 31, n), fieldDec=c.uniform(-31, -29, n),
        fiveSigmaDepth=c.uniform(21, 25.5, n), airmass=c.uniform(1, 2, n), seeingFwhmEff=c.uniform(0.5, 1.8, n), seeingFwhmGeom=c.uniform(0.45, 1.6, n),
        skyBrightness=c.uniform(17, 22.5, n), visitExposureTime=c.rng.choice([5.0, 15.0, 29.2, 30.0], n), numExposures=c.rng.choice([1, 2], n),
        visitTime=np.full(n, 34.0), slewTime=c.uniform(2, 100, n), rotSkyPos=c.uniform(0, 360, n), rotTelPos=c.uniform(-80, 80, n),
        altitude=c.uniform(30, 85, n), azimuth=c.uniform(0, 360, n), HA=c.uniform(-4, 4, n), zenithDistance=c.uniform(1, 60, n), paraAngle=c.uniform(-180, 180, n),
        ra_pi_amp=c.uniform(-1, 1, n), dec_pi_amp=c.uniform(-1, 1, n), ra_dcr_amp=c.uniform(-0.1, 0.1, n), dec_dcr_amp=c.uniform(-0.1, 0.1, n),
        m5Optimal=c.uniform(22, 26, n), saturation_mag=np.where(c.uniform(0, 1, n) < 0.8, c.uniform(15, 18, n), np.nan), metricdata=c.uniform(0, 1, n),
        season=night // 365, day_obs=night, t_eff=c.uniform(0.5, 1.5, n), PA=c.uniform(0, 360, n), normairmass=c.uniform(1, 1.5, n), expMJD=mjd, expmjd=mjd,
    )
    dt = [(k, v.dtype) for k, v in cols.items()] + [(k, "U20") for k in ("band", "filter", "scheduler_note", "note", "observation_reason", "science_program")]
    d = np.zeros(n, dt)
    for k, v in cols.items():
        d[k] = v
    d["band"] = c.rng.choice(list(bands), n)
    d["filter"] = d["band"]
    d["scheduler_note"] = c.rng.choice(["pair_15, a", "blob", "DD:COSMOS"], n)
    d["note"] = d["scheduler_note"]
    if rename:
        d.dtype.names = tuple(NAMES[x] if x in rename else x for x in d.dtype.names)
    return d


def cname(k, rename):
    return NAMES[k] if k in rename else k


def pick_rename(c, keys):
    """Some of the columns under another name, and the keyword arguments for them."""
    if c.flip(0.6):
        return ()
    return tuple(k for k in keys if c.flip())


def _g(rat, gamma=0.04):
    # Ivezic et al.: sigma^2 = (0.04 - gamma) x + gamma x^2
    return (0.04 - gamma) * rat + gamma * rat * rat


def m5_snr(mag, m5):
    rat = 10 ** (0.4 * (mag - m5))
    return 1.0 / math.sqrt(_g(rat))


def pos_err(fwhm, snr, atm):
    return math.hypot(fwhm / snr, atm)


def coadd(ms):
    return 1.25 * math.log10(math.fsum(10 ** (0.8 * m) for m in ms))


def star_mags(c, kw):
    """sed_template/rmag options and the magnitudes they stand for."""
    rmag = c.choice([20.0, c.uniform(16, 24)])
    kw["rmag"] = rmag
    if c.flip(0.4):
        kw["sed_template"] = c.choice(["O", "G", "M", "K", "A", "HeWD_25200_80"])
        ref = stellar_mags(kw["sed_template"], rmag=rmag)
        c.obs("sed", kw["sed_template"])
        return {b: float(np.ravel(ref[b])[0]) for b in BANDS}
    return dict.fromkeys(BANDS, rmag)


def point(c, **kw):
    sp = dict(sid=c.randint(0, 9), nside=c.choice([8, 64, 128]), ra=c.uniform(0, 2 * math.pi), dec=c.uniform(-1.3, 0.3), ebv=c.choice([0.0, c.uniform(0, 0.15), c.uniform(0, 0.6)]), gall=1.0, galb=-0.5)
    sp.update(kw)
    return sp


def stored(v):
    return float(np.asarray(v).item())


def close(c, got, want, what, key, rtol=1e-8, atol=1e-12):
    c.close(stored(got), want, what, rtol=rtol, atol=atol, key=key)


# ---------------------------------------------------------------- astrometry
@check.scenario(160, 1500)
def astrometry(c):
    keys = ("fiveSigmaDepth", "band", "seeingFwhmGeom", "observationStartMJD")
    ren = pick_rename(c, keys)
    d = visits(c, rename=ren)
    kind = c.choice(["parallax", "pm", "coverage", "dcr", "degen"])
    kw = {}
    mags = star_mags(c, kw)
    atm = c.choice([0.01, c.uniform(0.001, 0.1)])
    kw["atm_err"] = atm
    arg = dict(fiveSigmaDepth="m5_col", band="filter_col", seeingFwhmGeom="seeing_col", observationStartMJD="mjd_col")
    for k in ren:
        if k != "observationStartMJD" or kind in ("pm", "coverage"):
            kw[arg[k]] = NAMES[k]
    g = lambda k: d[cname(k, ren)]  # noqa: E731
    snr = [m5_snr(mags[b], m) for b, m in zip(g("band"), g("fiveSigmaDepth"))]
    err = [pos_err(f, s, atm) for f, s in zip(g("seeingFwhmGeom"), snr)]
    c.note(dict(kind=kind, n=d.size, kw={k: v for k, v in kw.items()}))
    if kind == "parallax":
        norm = c.flip()
        got = M.ParallaxMetric(normalize=norm, **kw).run(d)
        w = math.fsum((x * x + y * y) / e ** 2 for x, y, e in zip(d["ra_pi_amp"], d["dec_pi_amp"], err))
        want = 1000 / math.sqrt(w)
        if norm:
            want = 1000 / math.sqrt(math.fsum(1 / e ** 2 for e in err)) / want
        close(c, got, want, "parallax uncertainty", "parallax")
    elif kind == "pm":
        norm, base = c.flip(), c.choice([10.0, 5.0, 1.0])
        met = M.ProperMotionMetric(normalize=norm, baseline=base, **kw)
        got = met.run(d)
        bands = list(g("band"))
        use = [i for i in range(d.size) if bands.count(bands[i]) > 1]

        def slope(t, e):
            if len(t) < 2:
                return math.nan
            w = [1 / x ** 2 for x in e]
            W = math.fsum(w)
            tm = math.fsum(a * b for a, b in zip(w, t)) / W
            q = math.fsum(a * (b - tm) ** 2 for a, b in zip(w, t))
            return 1 / math.sqrt(q) if q > 0 else math.nan
        t = g("observationStartMJD")
        want = slope([t[i] for i in use], [err[i] for i in use]) * 365.25 * 1000
        if math.isnan(want):
            c.same(stored(got), -666.0, "proper motion without two usable epochs", key="pm-bad")
            c.obs("bad", kind)
            return
        if norm:
            n = len(use)
            best = slope([0.0] * (n // 2) + [base * 365.25] * (n - n // 2), [err[i] for i in use]) * 365.25 * 1000
            want = best / want
        close(c, got, want, "proper motion uncertainty", "pm", rtol=1e-6)
    elif kind == "coverage":
        tr = c.choice([0.0, 0.0, 0.5, 2.0, 3.0])
        lim = c.choice([5, 50, 1e6])
        if c.flip(0.5):
            # clustered angles
            a0 = c.choice([0.0, math.pi, c.uniform(0, 6.3), math.pi / 2])
            th = a0 + c.uniform(-0.3, 0.3, d.size) * c.choice([0.2, 1.0, 6.0])
            d["ra_pi_amp"], d["dec_pi_amp"] = np.cos(th), np.sin(th)
        got = M.ParallaxCoverageMetric(theta_range=tr, snr_limit=lim, **kw).run(d)
        if d.size < 2:
            c.same(stored(got), -666.0, "coverage from one visit", key="coverage-one")
            return
        w = [1 / e ** 2 for e in err]
        W = math.fsum(w)
        x, y = list(d["ra_pi_amp"]), list(d["dec_pi_amp"])
        xm, ym = math.fsum(a * b for a, b in zip(w, x)) / W, math.fsum(a * b for a, b in zip(w, y)) / W
        want = math.fsum(q * math.hypot(a - xm, b - ym) for q, a, b in zip(w, x, y)) / W
        if tr > 0:
            th = [math.atan2(b, a) for a, b, s in zip(x, y, snr) if s >= lim]
            r1 = (max(th) - min(th)) if th else 0
            t2 = [(t - min(th) + math.pi) % (2 * math.pi) for t in th]
            r2 = (max(t2) - min(t2)) if th else 0
            if abs(r1 - tr) < 1e-9 or abs(r2 - tr) < 1e-9:
                return
            want = want if (th and r1 >= tr and r2 >= tr) else 0.0
        close(c, got, want, "parallax coverage", "coverage", rtol=1e-7, atol=1e-9)
    elif kind == "dcr":
        kw.pop("mjd_col", None)
        got = M.DcrPrecisionMetric(**kw).run(d)
        err2 = [math.hypot(pos_err(f, s, 0.0), atm) for f, s in zip(g("seeingFwhmGeom"), snr)]
        # tan(z) split along two axes: the total weight is tan^2 z / error^2
        want = 1 / math.sqrt(math.fsum((math.tan(math.radians(z)) / e) ** 2 for z, e in zip(d["zenithDistance"], err2)))
        close(c, got, want, "DCR precision", "dcr", rtol=1e-7)
    else:
        kw.pop("mjd_col", None)
        if d.size < 3:
            return
        if c.flip(0.3):
            f = c.uniform(0.5, 2)
            noise = c.choice([0.0, 1e-3, 0.3])
            d["ra_dcr_amp"] = f * d["ra_pi_amp"] + noise * c.uniform(-1, 1, d.size)
            d["dec_dcr_amp"] = f * d["dec_pi_amp"] + noise * c.uniform(-1, 1, d.size)
            if noise == 0:
                return
        got = stored(M.ParallaxDcrDegenMetric(tol=c.choice([0.05, 0.5]), **kw).run(d))
        w = np.array([1 / e ** 2 for e in err + err])
        p = np.concatenate([d["ra_pi_amp"], d["dec_pi_amp"]])
        q = np.concatenate([d["ra_dcr_amp"], d["dec_dcr_amp"]])
        pp, qq, pq = (w * p * p).sum(), (w * q * q).sum(), (w * p * q).sum()
        want = -pq / math.sqrt(pp * qq)
        if abs(want) < 0.999:
            c.close(got, want, "parallax-DCR correlation", rtol=1e-3, atol=2e-4, key="degen")
    c.obs("astrometry", f"{kind}:{sorted(kw)}")


@check.scenario(60, 400)
def focal_radius(c):
    d = visits(c)
    sp = point(c)
    if c.flip():
        # visits centred on or very near the point
        d["fieldRA"] = (math.degrees(sp["ra"]) + c.choice([0.0, 1e-9, 1e-3, 1.0]) * c.uniform(-1, 1, d.size)) % 360
        d["fieldDec"] = math.degrees(sp["dec"]) + c.choice([0.0, 1e-9, 1e-3, 1.0]) * c.uniform(-1, 1, d.size)
    met = M.RadiusObsMetric()
    got = met.run(d, sp)
    want = np.degrees(synth.angsep(sp["ra"], sp["dec"], np.radians(d["fieldRA"]), np.radians(d["fieldDec"])))
    c.close(got, want, "radii of the visits", rtol=1e-6, atol=3e-6, key="radius")
    c.same(met.units, "degrees", "units of the radii", key="radius-units")
    close(c, met.reduce_mean(got), float(np.sum(got)) / d.size, "mean radius", "radius-mean")
    close(c, met.reduce_rms(got), float(np.sqrt(np.sum((got - np.sum(got) / d.size) ** 2) / d.size)), "rms radius", "radius-rms", atol=1e-9)
    close(c, met.reduce_full_range(got), float(max(got) - min(got)), "radius range", "radius-range")
    c.obs("radius", d.size)


@check.scenario(60, 500)
def brown_dwarfs(c):
    from rubin_sim.maf.metrics.brown_dwarf_metric import bd_colors
    d = visits(c, bands=c.choice(["izy", "ugrizy", "zy", "i"]))
    typ = c.choice([f"L{k}" for k in range(10)] + [f"T{k}" for k in range(10)])
    col = bd_colors(typ)
    c.expect(isinstance(col, dict) and set(col) <= set("izy") and len(col) >= 2, f"colours of {typ}: {short(col)}", "bd-colors")
    dist = c.choice([np.arange(10, 200, 10), np.arange(2, 60, 2.0), np.geomspace(5, 500, 30)])
    goal = c.choice([10.0, 5.0, 30.0])
    d = d[np.isin(d["band"], list(col))] if c.flip(0.8) else d
    if d.size == 0 or not set(d["band"]) & set(col):
        return
    if set(d["band"]) - set(col):
        # visits in bands without a colour contribute nothing
        c.obs("bd-other", "bands")
    got = stored(M.BDParallaxMetric(mags=dict(col), distances=dist, parallax_snr=goal).run(d))
    use = [i for i in range(d.size) if d["band"][i] in col]
    snr = []
    for D in dist:
        w = 0.0
        for i in use:
            s = m5_snr(col[d["band"][i]] + 5 * math.log10(D) - 5, d["fiveSigmaDepth"][i])
            w += (d["ra_pi_amp"][i] ** 2 + d["dec_pi_amp"][i] ** 2) / pos_err(d["seeingFwhmGeom"][i], s, 0.01) ** 2
        snr.append(1000 / D * math.sqrt(w) / 1000)
    if max(snr) < goal:
        c.same(got, 0.0, "distance when no distance reaches the goal", key="bd-bad")
        c.obs("bd", "none")
        return
    c.expect(all(a > b for a, b in zip(snr, snr[1:])), "the parallax significance does not fall with distance", "bd-mono")
    k = next((j for j in range(1, len(snr)) if snr[j] < goal), None)
    if k is None:
        c.expect(got >= dist[-1] - 1e-6, f"all distances reach the goal, got {got}", "bd-all")
    else:
        want = dist[k - 1] + (dist[k] - dist[k - 1]) * (snr[k - 1] - goal) / (snr[k - 1] - snr[k])
        c.close(got, want, "distance reached", rtol=1e-6, atol=1e-9, key="bd")
    nside = c.choice([4, 16])
    v = c.uniform(0, 100, 12)
    dd = np.zeros(12, [("metricdata", float)])
    dd["metricdata"] = v
    close(c, M.VolumeSumMetric(col="metricdata", nside=nside).run(dd), math.fsum(x ** 3 / 3 * 4 * math.pi / (12 * nside ** 2) for x in v), "volume", "volume")
    c.obs("bd", typ)


# ---------------------------------------------------------------- extragalactic
@check.scenario(140, 1200)
def extragalactic_depth(c):
    ren = pick_rename(c, ("fiveSigmaDepth", "band", "visitExposureTime"))
    d = visits(c, rename=ren)
    m5c, bc, ec = (cname(k, ren) for k in ("fiveSigmaDepth", "band", "visitExposureTime"))
    kw = {k: v for k, v, o in (("m5_col", m5c, "fiveSigmaDepth"), ("filter_col", bc, "band")) if v != o}
    sp = point(c)
    A = ax1()
    depth = {b: coadd(d[m5c][d[bc] == b]) - A[b] * sp["ebv"] for b in set(d[bc].tolist())}
    b = c.choice(list(BANDS))
    nb = len(depth)
    which = c.choice(["exgal", "cuts", "cuts", "wl", "riz", "multi", "single", "nested"])
    c.note(dict(which=which, n=d.size, ebv=sp["ebv"], bands="".join(sorted(depth)), kw=kw))
    cut = c.choice([0.2, 0.05, 1.0])
    if which == "exgal":
        one = d[d[bc] == b]
        if one.size == 0:
            return
        close(c, M.ExgalM5(**kw).run(one, sp), depth[b], "extinction-corrected coadded depth", "exgal")
    elif which == "cuts":
        dc, nf = c.choice([25.9, 24.0, 20.0, 15.0, 15.0]), c.choice([6, 1, 1, 3])
        if depth and c.flip(0.7):
            b = c.choice(sorted(depth))
        if c.flip(0.5):
            cut = sp["ebv"] + 1.0
        got = stored(M.ExgalM5WithCuts(lsst_filter=b, extinction_cut=cut, depth_cut=dc, n_filters=nf, **kw).run(d, sp))
        ok = sp["ebv"] <= cut and nb >= nf and b in depth and depth[b] >= dc
        if b in depth and abs(depth[b] - dc) < 1e-9:
            return
        c.close(got, depth[b] if ok else -666.0, "depth with cuts", rtol=1e-9, key="cuts")
    elif which == "wl":
        dc, mt = c.choice([24.5, 23.0, 20.0]), c.choice([15, 10, 29.5])
        k2 = dict(kw)
        if ec != "visitExposureTime":
            k2["exp_time_col"] = ec
        got = stored(M.WeakLensingNvisits(lsst_filter=b, depth_cut=dc, ebvlim=cut, min_exp_time=mt, **k2).run(d, sp))
        ok = sp["ebv"] <= cut and b in depth and depth[b] >= dc
        c.same(got, float(sum(1 for t in d[ec] if t > mt)) if ok else -666.0, "visits for weak lensing", key="wl")
    elif which == "riz":
        det = c.choice([None, ["r", "i", "z"], ["g"], ["i", "y"]])
        k2 = {k: v for k, v in kw.items() if k == "filter_col"}
        if ec != "visitExposureTime":
            k2["exp_time_col"] = ec
        mt = c.choice([15, 10, 29.5])
        got = stored(M.RIZDetectionCoaddExposureTime(det_bands=det, ebvlim=cut, min_expTime=mt, **k2).run(d, sp))
        want = math.fsum(t for t, x in zip(d[ec], d[bc]) if x in (det or "riz") and t > mt) if sp["ebv"] <= cut else -666.0
        c.close(got, want, "riz exposure time", rtol=1e-9, key="riz")
    elif which == "multi":
        nf = c.choice([6, 1, 3])
        got = np.asarray(MultibandExgalM5(extinction_cut=cut, n_filters=nf, **kw).run(d, sp), float)
        ok = sp["ebv"] <= cut and nb >= nf
        c.close(got, np.array([depth.get(x, np.nan) if ok else np.nan for x in BANDS]), "depth per band", rtol=1e-9, key="multi")
    else:
        nf = c.choice([6, 6, 2])
        use = [x for x in BANDS if c.flip(0.7)] or ["i"]
        if which == "nested":
            use = list(BANDS)
        if c.flip():
            c.rng.shuffle(use)
        models = [dict({x: c.uniform(-2, 2) for x in use}, **({"cst": c.uniform(-1, 1)} if c.flip() else {})) for _ in range(1 if which == "single" else c.randint(1, 4))]
        k2 = dict(kw, extinction_cut=cut, n_filters=nf)
        mean = {x: c.uniform(22, 26) for x in use if c.flip(0.7)} if c.flip(0.7) else None
        lo = {x: c.uniform(20, 24) for x in use if c.flip(0.3)} if c.flip(0.4) else None
        hi = {x: c.uniform(26, 29) for x in use if c.flip(0.3)} if c.flip(0.4) else None
        ok = sp["ebv"] <= cut and nb >= nf and all(x in depth for x in use)
        if ok and lo:
            ok = all(depth[x] >= v for x, v in lo.items())
        if ok and hi:
            ok = all(depth[x] <= v for x, v in hi.items())
        k2.update({k: v for k, v in (("mean_depth", mean), ("min_depth_cut", lo), ("max_depth_cut", hi)) if v is not None})
        fn = c.choice([None, lambda v: 2 * v + 1])
        if fn is not None:
            k2["post_processing_fn"] = fn
        want = [(fn or (lambda v: v))(m.get("cst", 0.0) + math.fsum(m[x] * (depth[x] - (mean or {}).get(x, 0.0)) for x in use)) if ok else np.nan for m in models]
        if which == "single":
            got = np.ravel(M.SingleLinearMultibandModelMetric(models[0], **k2).run(d, sp)).astype(float)
        else:
            got = np.ravel(M.NestedLinearMultibandModelMetric(models, **k2).run(d, sp)).astype(float)
        c.close(got, np.array(want), f"{which} linear model", rtol=1e-8, atol=1e-8, key="linear-" + which)
        which += f":{ok}:{mean is not None}"
    c.obs("exgal", f"{which}:{sp['ebv'] > cut}:{nb}")


@check.scenario(100, 700)
def galaxy_counts(c):
    d = visits(c)
    sp = point(c)
    A = ax1()
    b = c.choice(list(BANDS))
    inb = d[d["band"] == b]
    which = c.choice(["ngal", "qso", "lss", "nlc"])
    c.note(dict(which=which, band=b, n=d.size, nb=inb.size, ebv=sp["ebv"]))
    if which == "ngal":
        amax, m5min = c.choice([0.2, 0.05, 1.0]), c.choice([26.0, 24.0, 22.0])
        got = stored(M.NgalScaleMetric(filtername=b, a_max=amax, m5min=m5min).run(d, sp))
        ok = A[b] * sp["ebv"] <= amax and inb.size > 0 and coadd(inb["fiveSigmaDepth"]) >= m5min
        s = sorted(inb["seeingFwhmEff"])
        want = 57 * (0.75 / ((s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2)) ** 1.5 * hp.nside2pixarea(sp["nside"], degrees=True) * 3600 if ok else 0.0
        c.close(got, want, "number of galaxies", rtol=1e-9, key="ngal")
        which += f":{ok}"
    elif which == "qso":
        cut = c.choice([1.0, 0.05])
        zmin = c.choice([0.3, 0.6])
        zmax = c.choice([None, 2.1])
        met = M.QSONumberCountsMetric(b, extinction_cut=cut, zmin=zmin, zmax=zmax)
        d["saturation_mag"] = c.uniform(15, 18, d.size)
        inb = d[d["band"] == b]
        got = stored(met.run(d, sp))
        if sp["ebv"] > cut or inb.size == 0:
            c.same(got, -666.0, "quasars where there is no data", key="qso-bad")
        else:
            zm = zmax if zmax is not None else min(6.7, dict(zip(BANDS, (367.0, 482.5, 622.2, 754.5, 869.1, 971.0)))[b] / 91.2 - 1)
            dm = coadd(inb["fiveSigmaDepth"]) - A[b] * sp["ebv"]
            # the tables hold the same number for every 0.5 mag x 0.3 redshift cell
            want = QDENS[b] * (zm - zmin) / 0.3 * (dm - max(inb["saturation_mag"])) / 0.5 * hp.nside2pixarea(sp["nside"], degrees=True)
            if dm < 26.5:
                c.close(got, want, "number of quasars", rtol=1e-6, key="qso")
    elif which == "lss":
        if inb.size == 0:
            return
        met = MC.GalaxyCountsMetric(nside=sp["nside"])
        got = stored(met.run(inb, sp))
        dm = coadd(inb["fiveSigmaDepth"]) - A[b] * sp["ebv"]
        k = 0.34 * math.log(10)
        # integral of 10^-3.52 exp(k m) erfc(m - dm)/2 up to 32, by parts
        x = 32 - dm
        F = math.exp(k * dm) / k * (math.exp(k * x) * 0.5 * math.erfc(x) + math.exp(k * k / 4) * 0.5 * (1 + math.erf(x - k / 2)))
        want = 10 ** -3.52 * F * 41253.0 / (12 * sp["nside"] ** 2) / 5000.0
        c.close(got, want, "galaxy counts", rtol=1e-5, key="lss")
    else:
        bins = np.linspace(15, 28, 14)
        for x in BANDS:
            sp[f"starMapBins_{x}"] = bins
            sp[f"starLumFunc_{x}"] = np.cumsum(c.uniform(0, 100, 13))
        nd, mag = c.choice([0, 3, 10]), c.uniform(20, 25)
        got = stored(M.NlcPointsMetric(ndpmin=nd, mags=mag, nside=sp["nside"], maps=[]).run(d, sp))
        want = 0.0
        for x in BANDS:
            n = sum(1 for v, y in zip(d["fiveSigmaDepth"], d["band"]) if y == x and v > mag)
            if n > nd:
                lf = sp[f"starLumFunc_{x}"]
                j = min(int(math.floor(mag - 16)), 11)
                want += n * (lf[j] + (lf[j + 1] - lf[j]) * (mag - bins[j + 1]) / (bins[j + 2] - bins[j + 1])) * hp.nside2pixarea(sp["nside"], degrees=True)
        c.close(got, want, "light curve points", rtol=1e-9, key="nlc")
        c.raises(ValueError, lambda: M.NlcPointsMetric(nside=sp["nside"] * 2, maps=[]).run(d, sp), "a different nside", "nlc-nside")
    c.obs("counts", which)


@check.scenario(60, 500)
def surface_brightness(c):
    b = c.choice(list(BANDS))
    d = visits(c, bands=b)
    d["visitExposureTime"] = np.maximum(d["visitExposureTime"], 5)
    zpt = {x: c.uniform(26, 29) for x in BANDS}
    k = {x: c.uniform(0.05, 0.5) for x in BANDS}
    kw = dict(pixscale=c.choice([0.2, 0.25]), nsigma=c.choice([3.0, 5.0]), tot_area=c.choice([100.0, 1.0, 1000.0]), readnoise=c.choice([8.8, 20.0, 100.0]))
    c.note(dict(kw, n=d.size, band=b))
    given = c.choice(["both", "k", "none"])
    if given == "both":
        met = M.SurfaceBrightLimitMetric(zpt=zpt, k_atm=k, **kw)
    else:
        met = M.SurfaceBrightLimitMetric(**(dict(kw, k_atm=k) if given == "k" else kw))
        ref = M.SurfaceBrightLimitMetric(**kw)
        zpt = ref.zpt
        if given == "none":
            k = ref.k_atm
    got = stored(met.run(d, point(c)))
    tot = 0.0
    ap = kw["pixscale"] ** 2
    npx = kw["tot_area"] / ap
    for x in d:
        t, ext = x["visitExposureTime"], k[b] * x["airmass"]
        rn = kw["readnoise"] * math.sqrt(x["numExposures"])
        sky = -1.25 * math.log10(kw["nsigma"] ** 2 / (ap * t * npx)) + 0.5 * (x["skyBrightness"] + zpt[b]) - ext
        src = -5 * math.log10(kw["nsigma"]) + 2.5 * math.log10(npx * ap * t) + zpt[b] - ext
        rd = -2.5 * math.log10(kw["nsigma"] * rn / (t * ap * math.sqrt(npx))) + zpt[b] - ext
        tot += 10 ** (0.8 * min(sky, src, rd))
    c.close(got, 1.25 * math.log10(tot), "surface brightness limit", rtol=1e-8, key="surfb")
    if d.size > 1:
        d["band"][0] = "g" if b != "g" else "r"
        c.raises(ValueError, lambda: met.run(d, point(c)), "surface brightness over two bands", "surfb-two")
    c.obs("surfb", given)


# ---------------------------------------------------------------- AGN, transients
@check.scenario(80, 700)
def agn(c):
    ren = pick_rename(c, ("fiveSigmaDepth", "band", "observationStartMJD"))
    d = visits(c, rename=ren, single=True)
    m5c, bc, tc = (cname(k, ren) for k in ("fiveSigmaDepth", "band", "observationStartMJD"))
    sp = point(c)
    A = ax1()
    if c.flip():
        # structure function: whole-day epochs, so that half-precision gaps are exact
        d[tc] = 61000 + c.rng.choice(2000, d.size, replace=False)
        mag, cut, dust, allg = c.uniform(20, 23), c.choice([5, 1, 20]), c.flip(), c.flip()
        bins = c.choice([np.logspace(0, np.log10(3650), 16), np.array([0.5, 10.5, 100.5, 1000.5]), np.arange(0.5, 2000, 50)])
        w = c.uniform(0, 1, len(bins) - 1) if c.flip() else None
        kw = dict(mag=mag, snr_cut=cut, dust=dust, all_gaps=allg, bins=bins, times_col=tc, m5_col=m5c, filter_col=bc)
        if w is not None:
            kw["weight"] = w if c.flip() else list(w)
        got = stored(M.SFUncertMetric(**kw).run(d, sp))
        em = mag + (A[str(d[bc][0])] * sp["ebv"] if dust else 0)
        snr = [m5_snr(em, m) for m in d[m5c]]
        use = sorted((t, s) for t, s in zip(d[tc], snr) if s > cut)
        if len(use) < 2:
            c.same(got, -666.0, "structure function of fewer than two epochs", key="sf-bad")
            c.obs("agn", "sf-bad")
            return
        ts = [t for t, _ in use]
        var = np.array([(2.5 * math.log10(1 + 1 / s)) ** 2 for _, s in use])
        gaps = [b - a for i, a in enumerate(ts) for b in ts[i + 1:]] if allg else [b - a for a, b in zip(ts, ts[1:])]
        if any(abs(g - e) < 1e-6 for g in gaps for e in bins):
            return
        med = float(np.median(var))
        mad = 1.482602218505602 * float(np.median(np.abs(var - med)))
        want = 0.0
        for j in range(len(bins) - 1):
            n = sum(1 for g in gaps if bins[j] <= g < bins[j + 1])
            want += 2 * (med + mad / math.sqrt(n if n > 0 else 0.01)) * (w[j] if w is not None else 1 / (len(bins) - 1))
        c.close(got, want, "structure function uncertainty", rtol=1e-6, key="sf")
        c.obs("agn", f"sf:{dust}:{allg}:{w is not None}")
    else:
        lag, z, log, thr = c.choice([5, 100, 1000]), c.choice([0, 1, 3.5]), c.flip(), c.choice([2.2, 0.5])
        typ = c.choice(["mean", "min", "max", "gcd"])
        met = M.AgnTimeLagMetric(lag=lag, z=z, log=log, threshold=thr, calc_type=typ, mjd_col=tc, filter_col=bc, m5_col=m5c, dust=c.flip())
        got = stored(met.run(d, sp))
        ts = sorted(d[tc])
        gaps = [b - a for a, b in zip(ts, ts[1:])]
        if not gaps:
            c.same(got, -666.0, "time lag from one visit", key="lag-one")
            return
        if typ == "gcd":
            v = 0
            for g in gaps:
                if abs(abs(g - math.floor(g)) - 0.5) < 1e-6:
                    return
                v = math.gcd(v, int(math.floor(g + 0.5)))
            if v == 0:
                return
        else:
            v = dict(mean=lambda x: math.fsum(x) / len(x), min=min, max=max)[typ](gaps)
        ny = lag / ((1 + z) * v)
        if abs(ny - thr) < 1e-9:
            return
        want = (math.log(ny) if log else ny) if ny >= thr else -666.0
        c.close(got, want, "AGN time lag Nyquist ratio", rtol=1e-8, key="lag")
        c.obs("agn", f"lag:{typ}:{log}:{want != -666}")


@check.scenario(80, 800)
def color_slope(c):
    ren = pick_rename(c, ("fiveSigmaDepth", "band", "observationStartMJD", "night"))
    d = visits(c, n=c.choice([1, 2, 3, 10, 40, 100]), rename=ren)
    m5c, bc, tc, nc = (cname(k, ren) for k in ("fiveSigmaDepth", "band", "observationStartMJD", "night"))
    d[nc] = c.rng.integers(0, c.choice([1, 3, 8]), d.size) + c.choice([0, 7])
    d[tc] = 61000 + d[nc] + c.uniform(0.0, 0.45, d.size)
    cl, sl = c.choice([1.0, 0.2, 3.0]), c.choice([3.0, 1.0, 6.0])
    mag = c.choice([None, {b: 23.0 for b in BANDS}, {b: 22 + 0.3 * i for i, b in enumerate(BANDS)}])
    two = c.flip()
    if two:
        sl = c.choice([15.0, 20.0, 3.0])
    cls = M.ColorSlope2NightMetric if two else M.ColorSlopeMetric
    got = stored(cls(mag=mag, color_length=cl, slope_length=sl, night_col=nc, filter_col=bc, m5_col=m5c, time_col=tc).run(d))
    lim = mag or dict.fromkeys(BANDS, 20)
    rows = [(int(x[nc]), float(x[tc]), str(x[bc])) for x in d if x[m5c] > lim[str(x[bc])]]

    def good(group):
        if len(group) < 3:
            return 0
        slope = any(max(t for _, t, f in group if f == b) - min(t for _, t, f in group if f == b) >= sl / 24 for b in {f for _, _, f in group})
        color = any(f1 != f2 and 0 < abs(t1 - t2) <= cl / 24 for i, (_, t1, f1) in enumerate(group) for _, t2, f2 in group[i + 1:])
        return int(slope and color)
    want = 0
    for idf in ((lambda n: n // 2, lambda n: -(-n // 2)) if two else (lambda n: n,)):
        groups = {}
        for r in rows:
            groups.setdefault(idf(r[0]), []).append(r)
        want += sum(good(g) for g in groups.values())
    c.same(got, float(want), "colour and slope sequences", key="colorslope2" if two else "colorslope")
    c.obs("colorslope", f"{two}:{min(want, 3)}:{bool(ren)}")


@check.scenario(100, 1000)
def transients(c):
    ren = pick_rename(c, ("fiveSigmaDepth", "band", "observationStartMJD"))
    d = visits(c, rename=ren, years=c.choice([0.2, 1, 10]), bands=c.choice(["ugrizy", "gr", "r"]))
    m5c, bc, tc = (cname(k, ren) for k in ("fiveSigmaDepth", "band", "observationStartMJD"))
    T = c.choice([10.0, 30.0, 3.0])
    pk = T * c.choice([0.5, 0.2, 0.8])
    kw = dict(trans_duration=T, peak_time=pk, rise_slope=c.choice([0.0, -0.4, 0.3]), decline_slope=c.choice([0.0, 0.2]), survey_duration=c.choice([1.0, 10.0]),
              detect_m5_plus=c.choice([0.0, -0.5, 0.7]), n_pre_peak=c.choice([0, 0, 1, 2]), n_per_lc=c.choice([1, 1, 2, 3]), n_filters=c.choice([1, 1, 2, 3]),
              n_phase_check=c.choice([1, 1, 2, 3]), count_method=c.choice(["full", "partialLC"]))
    peaks = {b: c.uniform(21, 24.5) for b in BANDS}
    start = c.choice([None, 60990.0, 60999.25])
    c.note(dict(kw, n=d.size, start=start))
    met = M.TransientMetric(mjd_col=tc, m5_col=m5c, filter_col=bc, survey_start=start, **{f"{b}_peak": v for b, v in peaks.items()}, **kw)
    got = stored(met.run(d.copy()))
    t0 = start if start is not None else float(min(d[tc]))
    nmax = kw["survey_duration"] * 365.25 / T
    nmax = math.ceil(nmax) if kw["count_method"] == "partialLC" else math.floor(nmax)
    found = tot = 0
    for s in range(kw["n_phase_check"]):
        sh = s * T / kw["n_phase_check"]
        tot += nmax - (1 if s else 0)
        lcs = {}
        for x in d:
            q = (float(x[tc]) - t0 + sh) / T
            ph = (q - math.floor(q)) * T
            if not (1e-7 < ph < T - 1e-7) and float(x[tc]) != t0:
                return
            if abs(ph - pk) < 1e-7:
                return
            m = peaks[str(x[bc])] + (kw["rise_slope"] * (ph - pk) if ph <= pk else kw["decline_slope"] * (ph - pk))
            if m < x[m5c] + kw["detect_m5_plus"]:
                sec = ph / T * kw["n_per_lc"]
                if abs(sec - round(sec)) < 1e-7 and float(x[tc]) != t0:
                    return
                lcs.setdefault(math.floor(q), []).append((ph, str(x[bc]), math.floor(sec)))
        for pts in lcs.values():
            if sum(1 for p in pts if p[0] < pk) < kw["n_pre_peak"]:
                continue
            if kw["n_per_lc"] > 1 or kw["n_filters"] > 1:
                nf = sum(1 for b in {p[1] for p in pts} if len({p[2] for p in pts if p[1] == b}) >= kw["n_per_lc"])
                if nf < kw["n_filters"]:
                    continue
            found += 1
    c.close(got, found / tot, "fraction of transients detected", rtol=1e-12, key="transient")
    c.obs("transient", f"{kw['n_pre_peak'] > 0}:{kw['n_per_lc']}:{kw['n_filters']}:{kw['n_phase_check']}:{min(found, 3)}")


# ---------------------------------------------------------------- galactic plane, crowding
@check.scenario(110, 900)
def galactic_plane(c):
    from rubin_sim.maf.maps.galactic_plane_priority_maps import gp_priority_map_components_to_keys as key
    d = visits(c)
    sci = c.choice(["galactic_plane", "combined_map", "bulge", "magellenic_clouds"])
    sp = point(c)
    w = {b: c.choice([0.0, c.uniform(0, 1)]) for b in BANDS}
    scale = c.choice([1.0, 0.05, 0.0])
    for b in BANDS:
        sp[key(b, sci)] = w[b] * scale
    tot = sum(w.values()) * scale
    sp[key("sum", sci)] = tot
    thr = dict(galactic_plane=0.4, combined_map=0.001).get(sci, 0.0)
    if abs(tot - thr) < 1e-9 and tot != thr:
        return
    which = c.choice(["foot", "time", "visits", "gaps"])
    c.note(dict(which=which, sci=sci, n=d.size, tot=tot))
    cuts = c.choice([None, {b: c.uniform(21, 25) for b in BANDS}])
    lim = cuts or dict(u=22.7, g=24.1, r=23.7, i=23.1, z=22.2, y=21.4)
    fl = c.choice([None, ["g", "i"], list("ugrizy")])
    before = d.copy()
    if which == "foot":
        tau = c.choice([None, [2.0, 50.5], np.array([5.0, 11.0]), [c.uniform(300, 8000)]])
        met = M.GalPlaneFootprintMetric(sci, tau_obs=tau, mag_cuts=cuts, filterlist=fl)
        got = met.run(d, sp)
        if tot <= thr:
            c.same(got, met.badval, "footprint outside the map", key="gp-bad")
        else:
            n = {b: sum(1 for m, f in zip(d["fiveSigmaDepth"], d["band"]) if f == b and m >= lim[b]) for b in (fl or BANDS)}
            c.same(stored(met.reduce_n_obs(got)), float(sum(n.values())), "visits in the footprint", key="gp-n")
            close(c, met.reduce_n_obs_priority(got), math.fsum(n[b] * sp[key(b, sci)] for b in n), "priority-weighted visits", "gp-np")
            for t in (tau if tau is not None else (2.0, 5.0, 11.0, 20.0, 46.5, 73.0)):
                need = 3652.5 * 6.5 / 12 * 2 / t
                f = getattr(met, f"reduce_Tau_{t:.1f}".replace(".", "_"))
                close(c, f(got), tot if sum(n.values()) >= need else 0.0, f"priority where tau={t} is sampled", "gp-tau")
            c.same(set(met.reduce_funcs) >= {f"Tau_{t:.1f}".replace(".", "_") for t in (tau if tau is not None else (2.0, 73.0))}, True, "reductions per timescale", key="gp-reduce")
    elif which == "time":
        met = M.GalPlaneTimePerFilterMetric(sci, mag_cuts=cuts, filterlist=fl)
        got = met.run(d, sp)
        if tot <= thr:
            c.same(got, met.badval, "time per filter outside the map", key="gp-bad")
        else:
            e = {b: math.fsum(t for t, m, f in zip(d["visitExposureTime"], d["fiveSigmaDepth"], d["band"]) if f == b and m >= lim[b]) for b in (fl or BANDS)}
            E = math.fsum(e.values())
            for b in e:
                rw = sp[key(b, sci)] / tot
                want = 0.0 if E == 0 else (e[b] / E / rw if rw > 0 else met.badval)
                close(c, getattr(met, "reduce_" + b)(got), want, f"relative exposure time in {b}", "gp-time")
    elif which == "visits":
        tau = c.choice([None, [2.0, 50.5], np.array([5.0, 11.0])])
        ml = c.choice([22.0, 24.0, 30.0])
        met = M.GalPlaneVisitIntervalsTimescaleMetric(sci, tau_obs=tau, mag_limit=ml)
        got = met.run(d, sp)
        ts = sorted(t for t, m in zip(before["observationStartMJD"], before["fiveSigmaDepth"]) if m >= ml)
        if tot <= thr or len(ts) < 2:
            c.same(got, met.badval, "visit intervals without data", key="gp-bad")
        else:
            gaps = [b - a for a, b in zip(ts, ts[1:])]
            for t in (tau if tau is not None else (2.0, 5.0, 11.0, 20.0, 46.5, 73.0)):
                want = math.fsum(1.0 if g <= t else math.exp(-(g - t) / t) for g in gaps) / len(gaps)
                close(c, getattr(met, f"reduce_Tau_{t:.1f}".replace(".", "_"))(got), want, f"interval score for tau={t}", "gp-visits", rtol=1e-7)
    else:
        d["observationStartMJD"] = 61000 + c.rng.integers(0, 3650, d.size) + c.uniform(0, 0.4, d.size)
        before = d.copy()
        tau = c.choice([None, [100.0, 20.0], np.array([250.0])])
        eg = c.choice([145, 200, 10])
        met = M.GalPlaneSeasonGapsTimescaleMetric(sci, tau_var=tau, expected_season_gap=eg)
        c.same(list(met.maps), ["GalacticPlanePriorityMap"], "maps asked for", key="gp-maps")
        got = met.run(d, sp)
        from rubin_scheduler.utils import calc_season
        ts = np.sort(before["observationStartMJD"])
        sea = np.floor(calc_season(math.degrees(sp["ra"]), ts)).astype(int)
        by = {}
        for t, s in zip(ts, sea):
            by.setdefault(int(s), []).append(float(t))
        ss = sorted(by)
        gaps = [by[b][0] - by[a][-1] for a, b in zip(ss, ss[1:])]
        if tot <= thr or not gaps:
            c.same(got, met.badval, "season gaps without two seasons", key="gp-bad")
        else:
            for t in (tau if tau is not None else (10.0, 25.0, 55.0, 100.0, 232.5, 365.0)):
                want = math.fsum(1.0 if (g <= t or g <= eg) else math.exp(-(g - t) / t) for g in gaps) / len(gaps)
                close(c, getattr(met, f"reduce_Tau_{t:.1f}".replace(".", "_"))(got), want, f"season gap score for tau={t}", "gp-gaps", rtol=1e-7)
    c.expect(np.array_equal(np.sort(d, order="observationId"), before, equal_nan=False) or _rows_same(d, before), f"{which} changed the visits it was given", "gp-visits-changed")
    c.obs("galplane", f"{which}:{sci}:{tot > thr}")


def _rows_same(a, b):
    """Same rows in any order (NaN equal)."""
    if a.size != b.size or a.dtype != b.dtype:
        return False
    return sorted(repr(x) for x in a.tolist()) == sorted(repr(x) for x in b.tolist())


@check.scenario(70, 500)
def crowding(c):
    b = c.choice(["r", "i", "g"])
    d = visits(c, bands=b)
    nb = c.randint(4, 40)
    bins = np.linspace(15, 28, nb + 1)
    lf = np.cumsum(c.uniform(0, 1, nb) * 10 ** c.uniform(0, 7))
    sp = point(c)
    sp[f"starMapBins_{b}"], sp[f"starLumFunc_{b}"] = bins, lf
    for o in set("rig") - {b}:
        sp[f"starMapBins_{o}"], sp[f"starLumFunc_{o}"] = bins, lf[::-1].copy()
    see = float(min(d["seeingFwhmGeom"]))
    mag = bins[1:]
    # error at mag[k] from the stars fainter than it (per bin), Olsen, Blum & Rigaut
    err = []
    for k in range(1, nb):
        s = math.fsum(10 ** (-0.8 * mag[j]) * (lf[j] - lf[j - 1]) for j in range(k, nb))
        err.append(math.sqrt(math.pi) / 3600 * see / 2 * math.sqrt(s) / 10 ** (-0.4 * mag[k]))
    lim = c.choice([0.1, 0.01, 0.3])
    if any(abs(e - lim) < 1e-9 for e in err):
        return
    first = next((k for k, e in enumerate(err) if e >= lim), None)
    cm = mag[-1] if first is None else mag[max(first - 1, 0)]
    m = dict(filtername=b)
    close(c, M.CrowdingM5Metric(crowding_error=lim, **m).run(d, sp), cm, "crowding-limited magnitude", "crowd-m5")
    ign = c.flip()
    got = M.NstarsMetric(crowding_error=lim, ignore_crowding=ign, **m).run(d, sp)
    ml = coadd(d["fiveSigmaDepth"]) - 2.5 * math.log10(1 / (lim * 1.09 * 5))
    mm = ml if ign else min(cm, ml)
    close(c, got, float(np.interp(mm, mag, lf)) * hp.nside2pixarea(sp["nside"], degrees=True), "number of stars", "nstars")
    rm = c.uniform(mag[1], mag[-1])
    close(c, M.CrowdingMagUncertMetric(rmag=rm, **m).run(d, sp), float(np.interp(rm, mag[1:], err)), "crowding error", "crowd-err", rtol=1e-7)
    ml = c.choice([c.uniform(mag[0], mag[-1]), 10.0, 30.0])
    want = float(np.interp(ml, mag, lf)) / 3600 ** 2 if mag[0] <= ml <= mag[-1] else -666.0
    close(c, M.StarDensityMetric(mag_limit=ml, **m).run(d, sp), want, "star density", "stardens")
    c.obs("crowding", f"{first is None}:{ign}:{nb}")


# ---------------------------------------------------------------- others
@check.scenario(80, 600)
def templates_and_others(c):
    b = c.choice(list(BANDS))
    d = visits(c, bands=b)
    sp = point(c)
    which = c.choice(["snr", "opt", "sat", "year", "age", "template", "template", "power", "fom"])
    c.note(dict(which=which, n=d.size))
    if which == "snr":
        w = [m5_snr(20.0, m) for m in d["fiveSigmaDepth"]]
        close(c, M.SnrWeightedMetric("airmass").run(d), math.fsum(a * x for a, x in zip(w, d["airmass"])) / math.fsum(w), "SNR weighted mean", "snrw")
    elif which == "opt":
        r, o = coadd(d["fiveSigmaDepth"]), coadd(d["m5Optimal"])
        close(c, M.OptimalM5Metric(mag_diff=True).run(d), o - r, "depth behind optimal", "opt-mag", atol=1e-9)
        s = sorted(d["fiveSigmaDepth"])
        med = (s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2
        want = (10 ** (0.8 * o) - 10 ** (0.8 * r)) / 10 ** (0.8 * med)
        close(c, M.OptimalM5Metric().run(d), want, "visits behind optimal", "opt-n", atol=1e-6)
        close(c, M.OptimalM5Metric(normalize=True).run(d), want / d.size * 100, "per cent behind optimal", "opt-pc", atol=1e-6)
    elif which == "sat":
        c.same(stored(M.SkySaturationMetric().run(d, sp)), float(sum(1 for x in d["saturation_mag"] if not math.isfinite(x))), "saturated visits", key="sat")
    elif which == "year":
        bins = c.choice([None, np.arange(0, 800, 100) - 0.5])
        edges = bins if bins is not None else [365.25 * k - 0.5 for k in range(11)]
        want = sum(1 for lo, hi in zip(edges[:-1], edges[1:]) if any(lo <= n < hi for n in d["night"]))
        c.same(stored(M.YearCoverageMetric(bins=bins).run(d, sp)), float(want), "years covered", key="year")
    elif which == "age":
        now = 65000.0 + c.uniform(0, 10)
        lim = c.choice([30, 1e5, 3990.0])
        age = now - max(d["observationStartMJD"])
        c.close(stored(M.AgeMetric(now, long_limit=lim).run(d, sp)), age if age <= lim else math.nan, "age of the last visit", rtol=1e-9, key="age")
    elif which == "power":
        ns = c.choice([4, 8])
        v = c.uniform(-1, 1, hp.nside2npix(ns)) + c.choice([0, 5.0])
        bad = c.choice([None, np.nan, hp.UNSEEN])
        msk = np.zeros(v.size, bool)
        if bad is not None:
            msk[c.rng.choice(v.size, v.size // 5, replace=False)] = True
        dd = np.zeros(v.size, [("metricdata", float)])
        dd["metricdata"] = np.where(msk, bad if bad is not None else 0, v)
        mono, dip = c.flip(), c.flip()
        lo, hi = c.choice([(0, 5), (1, 8), (2, 3)])
        got = stored(M.TotalPowerMetric(lmin=lo, lmax=hi, remove_monopole=mono, remove_dipole=dip, **({"mask_val": bad} if bad is not None and c.flip() else {})).run(dd))
        vec = np.array(hp.pix2vec(ns, np.arange(v.size)))
        x = v.copy()
        good = ~msk
        if dip:
            Amat = np.vstack([np.ones(v.size), vec]).T
            x = v - Amat @ np.linalg.lstsq(Amat[good], v[good], rcond=None)[0]
        elif mono:
            x = v - v[good].mean()
        x[msk] = hp.UNSEEN
        cl = hp.anafast(x)
        want = math.fsum(float(cl[e]) * (2 * e + 1) for e in range(lo, hi + 1))
        c.close(got, want, "total power", rtol=1e-5, atol=1e-10, key="power")
        which += f":{mono}:{dip}:{bad}"
    elif which == "fom":
        ns = 16
        npix = hp.nside2npix(ns)
        k = c.choice([0, c.randint(1, npix)])
        v = np.full(npix, c.choice([-666.0, -1.0, hp.UNSEEN]))
        dep = c.uniform(24.5, 27)
        v[:k] = dep + c.uniform(-0.01, 0.01, k)
        dd = np.zeros(npix, [("x", float)])
        dd["x"] = v
        yr = c.choice([1, 3, 6, 10])
        got = stored(M.StaticProbesFoMEmulatorMetricSimple(year=yr, col="x").run(dd))
        if k == 0:
            c.same(got, -666.0, "figure of merit of nothing", key="fom-bad")
        else:
            # monotone in area and depth, and inside the table
            lo, hi = {1: (121.2257, 344.5717), 3: (171.0645, 459.5133), 6: (234.606, 543.6992), 10: (288.7266, 644.1837)}[yr]
            c.expect(lo - 1e-6 <= got <= hi + 1e-6, f"figure of merit {got} outside its table [{lo}, {hi}]", "fom-range")
            dd["x"][:k] += 0.2
            g2 = stored(M.StaticProbesFoMEmulatorMetricSimple(year=yr, col="x").run(dd))
            c.expect(g2 >= got - 1e-9, f"deeper survey has a lower figure of merit: {g2} < {got}", "fom-depth")
            if k < npix // 2:
                dd["x"][:2 * k] = dd["x"][0]
                g3 = stored(M.StaticProbesFoMEmulatorMetricSimple(year=yr, col="x").run(dd))
                dd["x"][k:] = -1
                g4 = stored(M.StaticProbesFoMEmulatorMetricSimple(year=yr, col="x").run(dd))
                c.expect(g3 >= g4 - 1e-3 * abs(g4), f"wider survey has a lower figure of merit: {g3} < {g4}", "fom-area")
    else:
        n = c.choice([3, 1, 5])
        thr = c.choice([0.8, 1.2])
        m5t = c.choice([None, 24.0, 22.0])
        sper, mper = c.choice([(50, 50), (20, 80)])
        lat = math.radians(-30.2446)
        sp["dec"] = c.uniform(-1.2, 0.2)
        met = M.TemplateTime(n_images_in_template=n, seeing_threshold=thr, m5_threshold=m5t, seeing_percentile=sper, m5_percentile=mper, site_latitude_rad=lat)
        got = met.run(d.copy(), sp)
        if d.size < n:
            c.same(got, met.badval, "template from too few visits", key="template-few")
            return
        e = d[np.argsort(d["observationStartMJD"], kind="stable")]
        X = 1 / math.cos(abs(sp["dec"] - lat))
        from rubin_scheduler.utils import SysEngVals
        best = thr * X ** 0.6 * (500 / SysEngVals().eff_wavelengths[b]) ** 0.3
        bs = max(best, float(np.percentile(e["seeingFwhmEff"], sper)))
        t5 = m5t if m5t is not None else dict(u=23.7, g=24.9, r=24.5, i=24.1, z=23.5, y=22.5)[b]
        kx = dict(u=-0.46, g=-0.21, r=-0.12, i=-0.07, z=-0.06, y=-0.10)[b]
        bm = min(t5 - kx * (1 - X) + 2.5 * math.log10(thr / best), float(np.percentile(e["fiveSigmaDepth"], 100 - mper)))
        ok = [i for i in range(e.size) if e["seeingFwhmEff"][i] <= bs and e["fiveSigmaDepth"][i] >= bm]
        if len(ok) < n:
            c.same(got, met.badval, "template never made", key="template-never")
            c.obs("other", "template-never")
            return
        inp = ok[:n]
        night = e["night"][inp[-1]]
        c.same(int(met.reduce_night_template_created(got)), int(night), "night of the template", key="template-night")
        c.same(int(met.reduce_n_images_until_template(got)), inp[-1] + 1, "visits until the template", key="template-until")
        later = [i for i in range(e.size) if e["night"][i] > night]
        c.same(int(met.reduce_n_images_with_template(got)), len(later), "visits with a template", key="template-with")
        tm = coadd(e["fiveSigmaDepth"][inp])
        close(c, met.reduce_template_m5(got), tm, "template depth", "template-m5")
        w = [10 ** (0.8 * e["fiveSigmaDepth"][i]) for i in inp]
        ts = math.sqrt(math.fsum(e["seeingFwhmEff"][i] ** 2 * x for i, x in zip(inp, w)) / math.fsum(w))
        close(c, met.reduce_template_seeing(got), ts, "template seeing", "template-seeing")
        al = math.fsum(1e4 * 10 ** (0.6 * (-1.25 * math.log10(10 ** (-0.8 * e["fiveSigmaDepth"][i]) + 10 ** (-0.8 * tm)) - 24.7)) for i in later)
        close(c, met.reduce_total_alerts(got), al, "alerts with the template", "template-alerts", rtol=1e-7)
        c.same(len(got["diffim_lc"]["mjd"]), len(later), "difference images", key="template-lc")
        if later:
            close(c, met.reduce_fraction_better_template_seeing(got), sum(1 for i in later if e["seeingFwhmEff"][i] > ts) / len(later), "fraction with a sharper template", "template-frac")
    c.obs("other", which)


# ---------------------------------------------------------------- every metric
ROWWISE = {"FftMetric", "IdentityMetric", "NormalizeMetric", "PassMetric", "ZeropointMetric", "ApplyMappingMetric", "RadiusObsMetric", "rubin_sim.maf.maf_contrib.VarDepth"}
ONEBAND = {"ExgalM5", "SFUncertMetric", "SurfaceBrightLimitMetric", "rubin_sim.maf.maf_contrib.GalaxyCountsMetric", "TemplateTime", "OptimalM5Metric", "AgnTimeLagMetric"}
NEED = dict(AgeMetric=dict(mjd=66000.0), QSONumberCountsMetric=dict(lsst_filter="i"), SingleLinearMultibandModelMetric=dict(model_dict={"g": 1.0, "i": -0.5}),
            NestedLinearMultibandModelMetric=dict(arr_of_model_dicts=[{"g": 1.0}, {"i": 2.0, "cst": 1.0}]), VolumeSumMetric=dict(col="airmass", nside=16),
            GalPlaneFootprintMetric=dict(science_map="bulge"), GalPlaneTimePerFilterMetric=dict(science_map="bulge"), GalPlaneVisitIntervalsTimescaleMetric=dict(science_map="bulge"),
            GalPlaneSeasonGapsTimescaleMetric=dict(science_map="bulge"), FftMetric=dict(times_col="observationStartMJD"), NlcPointsMetric=dict(nside=64))
NEED.update({"AccumulateCountMetric": dict(bins=np.arange(0, 3700, 100)), "AccumulateM5Metric": dict(bins=np.arange(0, 3700, 100)), "AccumulateMetric": dict(col="airmass", bins=np.arange(0, 3700, 100)),
             "HistogramMetric": dict(bins=np.arange(0, 3700, 100), col="airmass"), "HistogramM5Metric": dict(bins=np.arange(0, 3700, 100))})
MAPKEYS = {"ebv": ("DustMap",), "gall": ("GalCoordsMap",), "galb": ("GalCoordsMap",)}


def full_point(c):
    sp = point(c, nside=64, ra=math.radians(30.0), dec=math.radians(-30.0), ebv=0.03)
    for b in BANDS:
        sp[f"starMapBins_{b}"] = np.linspace(15, 28, 11)
        sp[f"starLumFunc_{b}"] = np.cumsum(np.linspace(1, 100, 10))
        sp[f"galplane_priority_bulge:{b}"] = 0.2
    from rubin_sim.maf.maps.galactic_plane_priority_maps import gp_priority_map_components_to_keys as key
    for b in list(BANDS) + ["sum"]:
        sp[key(b, "bulge")] = 0.2 if b != "sum" else 1.2
    return sp


def restrict_point(sp, met):
    names = {m if isinstance(m, str) else m.__class__.__name__ for m in (met.maps or [])}
    out = {k: v for k, v in sp.items() if k in ("sid", "nside", "ra", "dec")}
    for k, v in sp.items():
        if k == "ebv" and "DustMap" in names:
            out[k] = v
        elif k in ("gall", "galb") and "GalCoordsMap" in names:
            out[k] = v
        elif k.startswith("star") and any("StellarDensity" in n or "Trilegal" in n for n in names):
            out[k] = v
        elif k.startswith("galplane") and "GalacticPlanePriorityMap" in names:
            out[k] = v
    return out


def alike(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, np.ma.MaskedArray) or isinstance(b, np.ma.MaskedArray):
        return alike(np.ma.filled(a, -1), np.ma.filled(b, -1))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and a.dtype.names:
        return a.shape == b.shape and all(alike(a[k], b[k]) for k in a.dtype.names)
    if isinstance(a, np.ndarray) and a.dtype == object:
        return a.shape == np.shape(b) and all(alike(x, y) for x, y in zip(a.ravel(), np.ravel(b)))
    if a is None or b is None:
        return a is b
    try:
        x, y = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return repr(a) == repr(b)
    return x.shape == y.shape and bool(np.allclose(x, y, rtol=1e-6, atol=1e-9, equal_nan=True))


def _classes():
    out = []
    for k, cls in sorted(M.BaseMetric.registry.items()):
        if any(s in cls.__module__ for s in ("mo_metrics", "mo_summary", "cosmology_summary", "hourglass", "night_pointing", "use_metrics", "sn_n_sn", "periodic_star", "var_depth", "sn_snr", "sn_cadence", "chip_vendor")):
            continue
        out.append((k, cls))
    return out


def _make(name, cls):
    kw = dict(NEED.get(name, {}))
    ps = inspect.signature(cls.__init__).parameters
    if "col" in ps and "col" not in kw and ps["col"].default in (inspect.Parameter.empty, None):
        kw["col"] = "airmass"
    return cls(**kw)


@check.scenario(260, 1800)
def every_metric(c):
    """Order of visits, extra columns, earlier inputs and other instances do not matter."""
    classes = _classes()
    name, cls = classes[c.index % len(classes)]
    try:
        met = _make(name, cls)
    except Exception:
        c.obs("not-run", name)
        return
    n = c.choice([30, 80, 150])
    d = visits(c, n=n, bands=c.choice(list("griz")) if name in ONEBAND else "ugrizy")
    d["observationStartMJD"] += np.arange(n) * 1e-6
    sp = full_point(c)

    def run(m, data, point):
        np.random.seed(1)
        return m.run(data, slice_point=point)
    work = d.copy()
    s2 = dict(sp)
    try:
        r1 = run(met, work, s2)
    except Exception:
        c.obs("not-run", name)
        return
    c.note(dict(metric=name, n=n))
    c.expect(_rows_same(work, d), f"{name} mixed up the columns of its visits", f"input:{name}")
    c.expect(s2.keys() == sp.keys() and all(alike(s2[k], sp[k]) for k in sp), f"{name} changed its slice point", f"point:{name}")
    results = {"again": run(met, d.copy(), dict(sp))}
    if name not in ROWWISE:
        results["order"] = run(met, d[c.rng.permutation(n)], dict(sp))
    o = visits(c, n=c.choice([3, 40]), bands=str(d["band"][0]) if name in ONEBAND else "ugrizy")
    try:
        run(met, o, full_point(c))
    except Exception:
        pass
    results["history"] = run(met, d.copy(), dict(sp))
    if name not in ("PassMetric", "ApplyMappingMetric"):
        cols = [x for x in dict.fromkeys(met.col_name_arr.tolist()) if x in d.dtype.names] or ["observationId"]
        e = np.zeros(n, [(x, d.dtype[x]) for x in cols])
        for x in cols:
            e[x] = d[x]
        results["columns"] = run(met, e, restrict_point(sp, met))
    results["fresh"] = run(_make(name, cls), d.copy(), dict(sp))
    for how, r2 in results.items():
        c.expect(alike(r1, r2), f"{name} ({how}): {short(r1)} became {short(r2)}", f"{how}:{name}")
        c.obs("metric", f"{name}:{how}")
