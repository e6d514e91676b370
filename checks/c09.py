"""C09: column-adding steps (stackers) against row-by-row definitions; the visits are watched for any other change."""
import math
import warnings

import healpy as hp
import numpy as np
import pandas as pd
import rubin_sim.maf.stackers as S
from rubin_sim.maf.stackers import BaseStacker
from rubin_sim.maf.stackers.get_col_info import ColInfo

from vlib.h import Check, short
from vlib.synth import angsep, radec

warnings.simplefilter("ignore")

check = Check("C09", "every visit stacker with random options on random visit tables (poles, wrap-around, repeated rows, shuffled order, object/str/int columns): rows, original columns and the input table must be unchanged, declared "
              "columns present with declared types, values equal to a plain-Python per-row definition, invariant under permutation, subsetting and a second run, preset values kept unless overridden. Non-trivial: a value compared.",
              assumptions=["astropy frames are trusted for the earth and sun positions", "m5_flat_sed and calc_lmst of rubin_scheduler are trusted", "visits within 1e-7 of a threshold are not judged"])

BANDS = list("ugrizy")
LAT = math.radians(-30.2444)


def visits(c, n=None):
    n = n or c.choice([1, 2, 5, c.randint(6, 50)])
    _, ra, dec = radec(c, n)
    mjd = np.sort(c.uniform(61000, 61000 + c.choice([0.3, 3, 400]), n)) + 0.0
    # spread so no two visits overlap
    mjd = mjd + np.arange(n) * 1e-3
    d = dict(
        observationId=np.arange(n) + 7, fieldRA=ra, fieldDec=dec, observationStartMJD=mjd,
        observationStartLST=c.uniform(0, 360, n), altitude=c.uniform(15, 89.9, n), azimuth=c.uniform(0, 360, n),
        airmass=c.uniform(1.0, 2.5, n), seeingFwhmEff=c.uniform(0.4, 2, n), skyBrightness=c.uniform(16, 22.5, n),
        visitExposureTime=c.choice([np.full(n, 30.0), c.uniform(1, 300, n)]), numExposures=c.rng.integers(1, 3, n),
        fiveSigmaDepth=c.uniform(21, 25, n), band=c.rng.choice(BANDS, n), night=np.floor(mjd - 61000).astype(int),
        moonAlt=c.uniform(-1, 1, n), sunAlt=c.uniform(-1, -0.1, n), solarElong=c.uniform(10, 179, n), sunAz=c.uniform(0, 6, n),
        scheduler_note=c.rng.choice(["DD:COSMOS", "DD:ECDFS", "pair_33, ri, a", "blob, gr, b", "DD:u,COSMOS", "", "DD:XMM, x", "twilight_near_sun, 1"], n),
        extra=c.uniform(-1, 1, n),
    )
    d["visitTime"] = d["visitExposureTime"] + c.uniform(1, 5, n)
    names = list(d)
    if c.flip():
        c.rng.shuffle(names)
    t = np.zeros(n, dtype=[(k, ("O" if (k == "scheduler_note" and c.index % 3 == 0) else np.asarray(d[k]).dtype)) for k in names])
    for k in names:
        t[k] = d[k]
    return t


def same_col(a, b, tol=0.0):
    if a.dtype.kind == "f" and b.dtype.kind == "f":
        return np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True) if tol else np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def monitor(c, make, t, key, recompute=False, rowwise=True, tol=1e-12):
    """run the stacker made by make() under the monitors; returns the result"""
    before = t.copy()
    st = make()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = st.run(t)
        c.expect(t.dtype == before.dtype and all(same_col(t[k], before[k]) for k in t.dtype.names), f"{key}: the caller's table was changed", key + "_input")
        c.expect(len(out) == len(before), f"{key}: {len(before)} rows became {len(out)}", key + "_rows")
        for k in before.dtype.names:
            c.expect(k in out.dtype.names and same_col(out[k], before[k]), f"{key}: column {k} changed", key + "_other")
        dts = getattr(st, "cols_added_dtypes", None) or [float] * len(st.cols_added)
        for k, dt in zip(st.cols_added, dts):
            c.expect(k in out.dtype.names and out.dtype[k] == np.dtype(dt), lambda: f"{key}: column {k} missing or of type {out.dtype[k] if k in out.dtype.names else None}, declared {dt}", key + "_dtype")
        c.expect(len(st.units) == len(st.cols_added) and not isinstance(st.units, str), f"{key}: {len(st.cols_added)} columns, units {st.units!r}", key + "_units")
        c.expect(all(k in before.dtype.names for k in st.cols_req), f"{key}: requires {st.cols_req}", key + "_req")
        # the declared columns suffice
        need = list(dict.fromkeys(st.cols_req))
        small = np.zeros(len(t), dtype=[(k, before.dtype[k]) for k in need])
        for k in need:
            small[k] = before[k]
        o2 = make().run(small)
        for k in st.cols_added:
            c.expect(same_col(o2[k], out[k], tol), f"{key}: {k} differs when only the required columns are present", key + "_req")
        # second run
        o3 = make().run(out)
        o4 = st.run(before)
        for k in st.cols_added:
            c.expect(same_col(o3[k], out[k], tol), f"{key}: {k} changed by running again on the result", key + "_again")
            c.expect(same_col(o4[k], out[k], tol), f"{key}: {k} differs in a second use of the same stacker", key + "_again")
        c.expect(o3.dtype.names == out.dtype.names, f"{key}: columns {o3.dtype.names} after a second run", key + "_again")
        # order and subsets
        p = c.rng.permutation(len(t))
        o5 = make().run(before[p])
        for k in st.cols_added:
            c.expect(same_col(o5[k], out[k][p], tol), f"{key}: {k} depends on the order of the rows", key + "_order")
        if rowwise and len(t) > 1:
            q = np.sort(c.rng.choice(len(t), c.randint(1, len(t) - 1), replace=False))
            o6 = make().run(before[q])
            for k in st.cols_added:
                c.expect(same_col(o6[k], out[k][q], tol), f"{key}: {k} of a visit depends on the other visits", key + "_subset")
        # preset values
        if not recompute:
            pre = out.copy()
            for k in st.cols_added:
                if out.dtype[k].kind in "fi":
                    pre[k] = np.arange(len(t)) + 0.5 if out.dtype[k].kind == "f" else np.arange(len(t)) + 12345
                elif out.dtype[k].kind in "UO":
                    pre[k] = "set"
            keep = pre.copy()
            o7 = make().run(pre)
            for k in st.cols_added:
                c.expect(same_col(o7[k], keep[k]), f"{key}: values of {k} already present were replaced without override", key + "_preset")
            o8 = make().run(pre, override=True)
            for k in st.cols_added:
                c.expect(same_col(o8[k], out[k], tol), f"{key}: override did not recalculate {k}", key + "_override")
            c.expect(all(same_col(pre[k], keep[k]) for k in keep.dtype.names), f"{key}: override changed the caller's table", key + "_input")
    c.obs("stacker_run", key)
    return st, out


def vals(c, out, col, want, key, atol=1e-9, what="", ok=None):
    for i, w in enumerate(want):
        if ok is not None and not ok[i]:
            continue
        g = out[col][i]
        good = (math.isnan(g) and math.isnan(w)) or abs(g - w) <= atol if isinstance(w, float) else g == w
        c.expect(good, lambda: f"{key} {what} row {i}: {col} = {g}, want {w}; visit {dict(zip(out.dtype.names, out[i]))}", key)
    c.obs("value", f"{key}:{col}", n=len(want))


def angle_unit(st, i=0):
    u = str(st.units[i]).lower()
    return 1.0 if u.startswith("deg") else (180 / math.pi if u.startswith("rad") else (15.0 if u.startswith("hour") else None))


def dang(a, b):
    d = abs(a - b) % 360.0
    return min(d, 360.0 - d)


def angles(c, out, st, i, want_deg, key, tol=1e-8, wrap=True, ok=None):
    f = angle_unit(st, i)
    c.expect(f is not None, f"{key}: unit {st.units[i]!r} is not an angle", key + "_units")
    col = st.cols_added[i]
    for k, w in enumerate(want_deg):
        if ok is not None and not ok[k]:
            continue
        g = float(out[col][k]) * f
        d = dang(g, w) if wrap else abs(g - w)
        c.expect(d <= tol, lambda: f"{key}: {col} = {out[col][k]} {st.units[i]}, want {w} degrees; visit {dict(zip(out.dtype.names, out[k]))}", key)
    c.obs("value", f"{key}:{col}", n=len(want_deg))


def rad_table(t, cols):
    r = t.copy()
    for k in cols:
        r[k] = np.radians(r[k])
    return r


# ---- coordinates
# galactic pole and node, J2000 (ICRS)
_AG, _DG, _LN = math.radians(192.85948), math.radians(27.12825), math.radians(122.93192)
_EPS = math.radians(23.4392911)


def gal(ra, dec):
    sb = math.sin(dec) * math.sin(_DG) + math.cos(dec) * math.cos(_DG) * math.cos(ra - _AG)
    b = math.asin(max(-1, min(1, sb)))
    y = math.cos(dec) * math.sin(ra - _AG)
    x = math.sin(dec) * math.cos(_DG) - math.cos(dec) * math.sin(_DG) * math.cos(ra - _AG)
    return math.degrees(_LN - math.atan2(y, x)), math.degrees(b)


def ecl(ra, dec):
    x, y, z = math.cos(dec) * math.cos(ra), math.cos(dec) * math.sin(ra), math.sin(dec)
    y2, z2 = y * math.cos(_EPS) + z * math.sin(_EPS), -y * math.sin(_EPS) + z * math.cos(_EPS)
    return math.degrees(math.atan2(y2, x)), math.degrees(math.asin(max(-1, min(1, z2))))


def sun_lon(mjd):
    """J2000 ecliptic longitude of the sun, degrees (good to 0.02 degrees)"""
    d = mjd - 51544.5
    g = math.radians(357.529 + 0.98560028 * d)
    q = 280.459 + 0.98564736 * d
    lam = q + 1.915 * math.sin(g) + 0.020 * math.sin(2 * g)
    return lam - d / 365.25 * 50.29 / 3600.0


@check.scenario(120, 1500)
def coordinates(c):
    t = visits(c)
    degrees = c.flip(0.7)
    u = t if degrees else rad_table(t, ["fieldRA", "fieldDec"])
    ra, dec = np.radians(t["fieldRA"]), np.radians(t["fieldDec"])
    st, out = monitor(c, lambda: S.GalacticStacker(degrees=degrees), u, "galactic")
    g = [gal(a, d) for a, d in zip(ra, dec)]
    angles(c, out, st, 1, [x[1] for x in g], "galactic", tol=1e-4, wrap=False)
    angles(c, out, st, 0, [x[0] for x in g], "galactic", tol=1e-3, ok=[abs(x[1]) < 80 for x in g])
    sub = c.flip()
    small = t[:12]
    us = u[:12]
    st, out = monitor(c, lambda: S.EclipticStacker(degrees=degrees, subtract_sun_lon=sub), us, "ecliptic", tol=1e-9)
    e = [ecl(a, d) for a, d in zip(ra[:12], dec[:12])]
    angles(c, out, st, 0, [x[1] for x in e], "ecliptic", tol=0.02, wrap=False)
    want = [x[0] - (sun_lon(m) if sub else 0.0) for x, m in zip(e, small["observationStartMJD"])]
    angles(c, out, st, 1, want, "ecliptic", tol=0.1, ok=[abs(x[1]) < 70 for x in e])
    f = angle_unit(st, 1)
    c.expect(np.all((out["eclipLon"] * f >= -1e-9) & (out["eclipLon"] * f < 360 + 1e-9)), "ecliptic longitude not wrapped to 0-360", "ecliptic_wrap")
    nside = int(c.choice([1, 2, 8, 64, 128, 512]))
    st, out = monitor(c, lambda: S.HealpixStacker(nside=nside), t, "healpix")
    for nest, col in ((False, "ring_healpix"), (True, "nest_healpix")):
        px = out[col].astype(int)
        c.expect(np.all(px == out[col]) and np.all((px >= 0) & (px < 12 * nside ** 2)), f"healpix: {col} not a pixel number", "healpix")
        plon, plat = hp.pix2ang(nside, px, nest=nest, lonlat=True)
        sep = angsep(np.radians(plon), np.radians(plat), ra, dec)
        c.expect(np.all(sep <= hp.max_pixrad(nside) * (1 + 1e-9)), lambda: f"healpix: {col} pixel centre {np.degrees(sep.max())} deg from the visit, nside {nside}", "healpix")
    c.expect(np.array_equal(hp.nest2ring(nside, out["nest_healpix"].astype(int)), out["ring_healpix"].astype(int)), "ring and nest pixels differ", "healpix")
    c.obs("value", "healpix", n=len(t))


# ---- airmass, angles, DCR
@check.scenario(150, 2000)
def angles_dcr(c):
    t = visits(c)
    degrees = c.flip(0.7)
    u = t if degrees else rad_table(t, ["fieldRA", "fieldDec", "altitude", "observationStartLST"])
    lat = c.choice([None, -30.0, 20.0, -70.0])
    kw = {} if lat is None else dict(telescope_lat=lat)
    st, out = monitor(c, lambda: S.NormAirmassStacker(degrees=degrees, **kw), u, "normairmass")
    L = -30.2446388 if lat is None else lat
    ok = [abs(d - L) < 89.9 for d in t["fieldDec"]]
    vals(c, out, "normairmass", [float(x * math.cos(math.radians(abs(d - L)))) for x, d in zip(t["airmass"], t["fieldDec"])], "normairmass", ok=ok)
    st, out = monitor(c, lambda: S.ZenithDistStacker(degrees=degrees), u, "zenith")
    angles(c, out, st, 0, [90.0 - a for a in t["altitude"]], "zenith", wrap=False)
    st, out = monitor(c, lambda: S.HourAngleStacker(degrees=degrees), u, "HA")
    ha = [(l - r) for l, r in zip(t["observationStartLST"], t["fieldRA"])]
    angles(c, out, st, 0, ha, "HA")
    c.expect(np.all(np.abs(out["HA"]) <= 12 + 1e-9), "hour angle outside +-12 hours", "HA_range")
    st, out = monitor(c, lambda: S.ParallacticAngleStacker(degrees=degrees), u, "PA")
    # geometry: position angle at the object, from the pole, of the direction to the zenith
    pa = []
    for h, d in zip(ha, t["fieldDec"]):
        H, D = math.radians(h), math.radians(d)
        # vectors in the hour-angle frame (x to the meridian on the equator, y to the west, z to the pole)
        n = np.array([math.cos(D) * math.cos(H), math.cos(D) * math.sin(H), math.sin(D)])
        z = np.array([math.cos(LAT), 0.0, math.sin(LAT)])
        north = np.array([-math.sin(D) * math.cos(H), -math.sin(D) * math.sin(H), math.cos(D)])
        east = np.array([math.sin(H), -math.cos(H), 0.0])
        pa.append(math.degrees(math.atan2(z @ east, z @ north)))
        del n
    zd = [angsep(math.radians(h), math.radians(d), 0.0, LAT) for h, d in zip(ha, t["fieldDec"])]
    ok = [0.02 < z < math.pi - 0.02 for z in zd]
    angles(c, out, st, 0, pa, "PA", tol=0.1 if False else 0.02, ok=ok)
    mags = c.choice([None, {b: float(v) for b, v in zip(BANDS, c.uniform(0.01, 1, 6))}])
    kw = {} if mags is None else dict(dcr_magnitudes=mags)
    mm = mags or dict(u=0.07, g=0.07, r=0.050, i=0.045, z=0.042, y=0.04)
    stp, outp = monitor(c, lambda: S.DcrStacker(degrees=degrees, **kw), u, "dcr")
    tz = [math.tan(math.radians(90 - a)) for a in t["altitude"]]
    f = angle_unit(st)
    par = [math.radians(float(x) * f) for x in out["PA"]]
    vals(c, outp, "ra_dcr_amp", [float(mm[b] * z * math.sin(p)) for b, z, p in zip(t["band"], tz, par)], "dcr", atol=1e-7)
    vals(c, outp, "dec_dcr_amp", [float(mm[b] * z * math.cos(p)) for b, z, p in zip(t["band"], tz, par)], "dcr", atol=1e-7)
    mags = c.choice([None, {b: float(v) for b, v in zip(BANDS, c.uniform(0.01, 1, 6))}])
    kw = {} if mags is None else dict(dcr2_magnitudes=mags)
    mm = mags or dict(u=0.02404978, g=0.03084951, r=0.00578543, i=0.0015424, z=0.00043015, y=0.00026005)
    own = c.flip(0.4)

    def mk():
        k = dict(kw)
        if own:
            k.update(zstacker=S.ZenithDistStacker(degrees=degrees), pastacker=S.ParallacticAngleStacker(degrees=degrees))
        return S.dcr2(degrees=degrees, **k)
    S.dcr2 = BaseStacker.get_class("Dcr2Stacker")
    # the time column is not needed for the angles, so Dcr2 declares what it reads
    _, o2 = monitor(c, mk, u, "dcr2")
    for col, fn in (("dcr_var", lambda p: 1.0), ("ra_dcr_var", lambda p: math.sin(p) ** 2), ("dec_dcr_var", lambda p: math.cos(p) ** 2), ("ra_dec_dcr_cov", lambda p: math.sin(p) * math.cos(p))):
        vals(c, o2, col, [float(mm[b] * z * z * fn(p)) for b, z, p in zip(t["band"], tz, par)], "dcr2", atol=1e-6)


# ---- depths
@check.scenario(150, 2000)
def depths(c):
    from rubin_scheduler.utils import SysEngVals, m5_flat_sed
    t = visits(c)
    st, out = monitor(c, S.FiveSigmaStacker, t, "five_sigma", tol=1e-10)
    vals(c, out, "m5_simsUtils", [float(np.squeeze(m5_flat_sed(str(r["band"]), r["skyBrightness"], r["seeingFwhmEff"], r["visitExposureTime"], r["airmass"]))) for r in t], "five_sigma", atol=1e-8)
    normed, fe = c.flip(), c.choice([None, 15.0, 30.0])
    fd = c.choice([None, {b: float(v) for b, v in zip(BANDS, c.uniform(22, 25, 6))}])
    st, out = monitor(c, lambda: S.TeffStacker(normed=normed, fiducial_exptime=fe, fiducial_depth=fd), t, "teff")
    F = fd or dict(u=23.70, g=24.97, r=24.52, i=24.13, z=23.56, y=22.55)
    want = []
    for r in t:
        w = (fe or 30.0) * 10 ** (0.8 * (r["fiveSigmaDepth"] - F[r["band"]]))
        want.append(float(w / r["visitExposureTime"] if normed else w))
    for i, w in enumerate(want):
        c.expect(abs(out["t_eff"][i] / w - 1) < 1e-9, lambda: f"teff: {out['t_eff'][i]}, want {w}", "teff")
    c.expect(st.units[0] == ("" if normed else "seconds"), f"teff units {st.units}", "teff_units")
    c.obs("value", "teff", n=len(t))
    # saturation
    zp = {b: float(v) for b, v in zip(BANDS, c.uniform(26, 29, 6))}
    km = c.choice([None, {b: float(v) for b, v in zip(BANDS, c.uniform(0.05, 0.6, 6))}])
    sat = float(c.choice([150e3, 9e3, 2e4]))
    ps = float(c.choice([0.2, 0.3]))
    KM = km or SysEngVals().k_atm
    if km is None:
        # the extinction of the throughputs, whose files are absent here
        import rubin_sim.maf.stackers.general_stackers as G
        G.load_inst_zeropoints = lambda: ({b: 28.0 for b in BANDS}, SysEngVals().k_atm)
        if c.flip():
            zp = None
    ZP = zp or {b: 28.0 for b in BANDS}
    st, out = monitor(c, lambda: S.SaturationStacker(zeropoints=None if zp is None else dict(zp), km=km, saturation_e=sat, pixscale=ps), t, "saturation", recompute=True)
    want, ok = [], []
    for r in t:
        et = r["visitExposureTime"] / r["numExposures"]
        sky = 10 ** (0.4 * (ZP[r["band"]] - r["skyBrightness"])) * ps ** 2 * et
        left = sat - sky
        ok.append(abs(left) > 1e-6 * sat)
        if left < 0:
            want.append(float("nan"))
        else:
            tot = left * 2 * math.pi * (r["seeingFwhmEff"] / 2.354 / ps) ** 2 / et
            want.append(float(ZP[r["band"]] - 2.5 * math.log10(tot) - KM[r["band"]] * (r["airmass"] - 1)) if left > 0 else float("nan"))
    vals(c, out, "saturation_mag", want, "saturation", ok=ok)
    # m5 on the meridian
    st, out = monitor(c, lambda: S.M5OptimalStacker(filter_col="band"), t, "m5_optimal", recompute=True)
    katm = dict(u=0.50, g=0.21, r=0.13, i=0.10, z=0.07, y=0.18)
    slope = dict(g=-0.52611780327408397, i=-0.67898669252082422, r=-0.61378749766766827, u=-0.27840980367303503, y=-0.69635091524779691, z=-0.69652846002009128)
    want, ok = [], []
    for r in t:
        z = abs(r["fieldDec"] - (-30.2444))
        ok.append(z < 75)
        xm = 1 / math.cos(math.radians(z)) if z < 75 else 1.0
        dark = not (r["moonAlt"] > 0 or r["sunAlt"] > math.radians(-18))
        w = r["fiveSigmaDepth"] + (0.5 * slope[r["band"]] * (xm - r["airmass"]) if dark else 0.0)
        w += 2.5 * (math.log10(1 / xm ** 0.6) - math.log10(1 / r["airmass"] ** 0.6)) - katm[r["band"]] * (xm - r["airmass"])
        want.append(float(w))
    vals(c, out, "m5_optimal", want, "m5_optimal", atol=1e-4, ok=ok)


# ---- dates
@check.scenario(150, 2000)
def dates(c):
    import datetime
    t = visits(c)
    if c.flip():
        t["observationStartMJD"] = np.floor(t["observationStartMJD"]) + c.choice([0.0, 0.5, 0.4999999, 0.99999, 0.25])
    mjd = [float(x) for x in t["observationStartMJD"]]
    epoch = datetime.datetime(1858, 11, 17)

    def day(m):
        return epoch.date() + datetime.timedelta(days=math.floor(m - 0.5))
    st, out = monitor(c, S.DayObsStacker, t, "day_obs")
    vals(c, out, "dayObs", [int(day(m).strftime("%Y%m%d")) for m in mjd], "day_obs")
    st, out = monitor(c, S.DayObsMJDStacker, t, "day_obs_mjd")
    vals(c, out, "day_obs_mjd", [math.floor(m - 0.5) for m in mjd], "day_obs_mjd")
    st, out = monitor(c, S.DayObsISOStacker, t, "day_obs_iso")
    vals(c, out, "day_obs_iso8601", [day(m).isoformat() for m in mjd], "day_obs_iso")
    st, out = monitor(c, S.ObservationStartDatetime64Stacker, t, "datetime64")
    e64 = np.datetime64("1858-11-17T00:00:00", "ns")
    for g, m in zip(out["observationStartDatetime64"], mjd):
        back = (g - np.datetime64("1970-01-01", "ns")) / np.timedelta64(1, "ns") / 86400e9 + 40587.0
        c.expect(abs(back - m) < 1e-8, f"datetime64 {g} for mjd {m}", "datetime64")
    # timestamp stacker: arrays and frames
    frame = pd.DataFrame(np.array(t.tolist(), dtype=[(k, "O" if t.dtype[k].kind in "UO" else t.dtype[k]) for k in t.dtype.names]))
    as_frame = c.flip()
    src = frame if as_frame else t
    cols = list(frame.columns)
    keep = frame.copy()
    o = S.ObservationStartTimestampStacker().run(src)
    if as_frame:
        c.expect(list(frame.columns) == cols and frame.equals(keep), "timestamp: caller's DataFrame changed", "timestamp_input")
    ts = list(o["start_timestamp"])
    c.expect(len(ts) == len(mjd), "timestamp: number of rows", "timestamp")
    for g, m in zip(ts, mjd):
        g = pd.Timestamp(g)
        c.expect(g.tz is not None and abs((g - pd.Timestamp("1858-11-17", tz="UTC")).total_seconds() / 86400 - m) < 1e-8, f"timestamp {g} for mjd {m}", "timestamp")
    for k in cols:
        c.expect(list(o[k]) == list(src[k]), f"timestamp: column {k} changed", "timestamp_other")
    c.obs("value", "timestamp", n=len(mjd))
    # overheads: time order decides the previous visit
    gap = float(c.choice([np.inf, 1.0, 10.0]))
    t2 = t.copy()
    t2["observationStartMJD"] = np.sort(61000.6 + c.uniform(0, 1.8, len(t))) + np.arange(len(t)) * 1e-3
    st, out = monitor(c, lambda: S.OverheadStacker(max_gap=gap), t2, "overhead", rowwise=False, tol=1e-6)
    want, ok = [], []
    for i in range(len(t2)):
        if i == 0:
            want.append(float("nan")); ok.append(True)
            continue
        a, b = t2[i - 1], t2[i]
        ea, eb = [r["observationStartMJD"] + r["visitTime"] / 86400 for r in (a, b)]
        w = (eb - ea) * 86400 - b["visitExposureTime"]
        ok.append(abs(w - gap * 60) > 1e-3)
        if w > gap * 60 or math.floor(a["observationStartMJD"] - 0.5) != math.floor(b["observationStartMJD"] - 0.5):
            w = float("nan")
        want.append(float(w))
    vals(c, out, "overhead", want, "overhead", atol=1e-4, ok=ok)


# ---- notes and labels
@check.scenario(120, 1500)
def labels(c):
    t = visits(c)
    cls = BaseStacker.get_class("NoteRootStacker")
    st, out = monitor(c, cls, t, "note_root")
    vals(c, out, "scheduler_note_root", [str(x).split(",")[0] for x in t["scheduler_note"]], "note_root")
    nside = int(c.choice([16, 32, 64]))
    full = c.flip(0.3)
    fp = None
    if not full:
        lon, lat = hp.pix2ang(nside, np.arange(12 * nside ** 2), lonlat=True)
        fp = ((lat > c.uniform(-70, 0)) & (lat < c.uniform(0, 80))).astype(float)
        if c.flip():
            fp *= c.rng.choice([0.0, 1.0], len(fp))
    ns = 64 if fp is None else nside
    thr = float(c.choice([0.4, 0.1, 0.9, 0.5, 1.0]))
    name = c.choice(["WFD", "area", "x"])
    ex = c.flip()
    st, out = monitor(c, lambda: S.WFDlabelStacker(footprint=fp, fp_threshold=thr, area_id_name=name, exclude_dd=ex), t, "wfd", recompute=True)
    lon, lat = hp.pix2ang(ns, np.arange(12 * ns ** 2), lonlat=True)
    F = np.ones(12 * ns ** 2) if fp is None else fp
    want, ok = [], []
    for r in t:
        sep = angsep(math.radians(r["fieldRA"]), math.radians(r["fieldDec"]), np.radians(lon), np.radians(lat))
        m = sep <= math.radians(1.75)
        frac = F[m].sum() / max(1, m.sum())
        ok.append(m.sum() > 0 and np.min(np.abs(sep - math.radians(1.75))) > 1e-9)
        note = str(r["scheduler_note"])
        if ex and note.startswith("DD"):
            want.append(note.replace("u,", "").split(",")[0]); ok[-1] = True
        else:
            want.append(name if frac >= thr else "NULL")
    vals(c, out, "area_id", want, "wfd", ok=ok)


# ---- parallax and follow-up
@check.scenario(60, 600)
def sky(c):
    from astropy.coordinates import get_body_barycentric
    from astropy.time import Time
    from rubin_scheduler.utils import calc_lmst
    t = visits(c, n=c.randint(1, 20))
    degrees = c.flip(0.7)
    u = t if degrees else rad_table(t, ["fieldRA", "fieldDec"])
    st, out = monitor(c, lambda: S.ParallaxFactorStacker(degrees=degrees), u, "parallax", tol=1e-7)
    pos = get_body_barycentric("earth", Time(t["observationStartMJD"], format="mjd")).xyz.to_value("AU")
    wr, wd, ok = [], [], []
    for i, r in enumerate(t):
        a, d = math.radians(r["fieldRA"]), math.radians(r["fieldDec"])
        e, n = np.array([-math.sin(a), math.cos(a), 0]), np.array([-math.sin(d) * math.cos(a), -math.sin(d) * math.sin(a), math.cos(d)])
        wr.append(float(-pos[:, i] @ e)); wd.append(float(-pos[:, i] @ n)); ok.append(True)
    vals(c, out, "ra_pi_amp", wr, "parallax", atol=5e-3, ok=ok)
    vals(c, out, "dec_pi_amp", wd, "parallax", atol=5e-3, ok=ok)
    # follow up
    ms, lim = float(c.choice([3.0, 5.0, 8.0, 10.0])), float(c.choice([2.5, 1.5, 1.2]))
    steps = c.choice([np.arange(0.5, 12.0, 3.0), np.array([0.0]), np.array([1.0, 20.0])])
    st, out = monitor(c, lambda: S.NFollowStacker(min_size=ms, airmass_limit=lim, time_steps=steps, degrees=degrees), u, "follow")
    tel = S.find_telescopes(min_size=0.0)
    want, ok = [], []
    for r in t:
        tot, good = 0, True
        for s in tel:
            if s["aperture"] < ms:
                continue
            la, got = math.radians(s["lat"]), False
            for h in steps:
                lst = float(calc_lmst(r["observationStartMJD"] + h / 24, math.radians(s["lon"]))) * math.pi / 12
                z = angsep(math.radians(r["fieldRA"]), math.radians(r["fieldDec"]), lst, la)
                x = 1 / math.cos(z)
                got |= 1.0 <= x <= lim
                good &= abs(math.cos(z) - 1 / lim) > 1e-7
            tot += got
        want.append(tot); ok.append(good)
    vals(c, out, "nObservatories", want, "follow", ok=ok)
    c.expect(set(S.find_telescopes(min_size=ms)["name"]) == {str(s["name"]) for s in tel if s["aperture"] >= ms}, "find_telescopes", "follow")
    # NEO distance
    H = float(c.choice([22, 20, 24]))
    # azimuths of the visits in 0..2 pi
    v = t.copy()
    v["azimuth"] = np.radians(v["azimuth"])
    st, out = monitor(c, lambda: S.NEODistStacker(H=H, stepsize=0.01, filter_col="band"), v, "neo", recompute=True)
    adj = dict(u=-2.1, g=-0.5, r=0.2, i=0.4, z=0.6, y=0.6)
    grid = [0.3 + 0.01 * k for k in range(0, 271)]
    want, ok, wx, wy = [], [], [], []
    for r in v:
        el = math.radians(r["solarElong"])
        first, near = 0.0, False
        for dl in grid:
            R = math.sqrt(1 + dl * dl - 2 * dl * math.cos(el))
            al = math.acos(max(-1, min(1, (R * R + dl * dl - 1) / (2 * dl * R))))
            ta = math.tan(al / 2)
            phi = 0.85 * math.exp(-3.33 * ta ** 0.63) + 0.15 * math.exp(-1.87 * ta ** 1.22)
            if phi <= 0:
                continue
            m = H + 5 * math.log10(R * dl) - 2.5 * math.log10(phi)
            lim5 = r["fiveSigmaDepth"] + adj[r["band"]]
            near |= abs(m - lim5) < 1e-6
            if m > lim5:
                first = dl
                break
        want.append(float(first)); ok.append(not near)
        wx.append(first * math.sin(el)); wy.append(1 - first * math.cos(el))
    vals(c, out, "MaxGeoDist", want, "neo", atol=1e-6, ok=ok)
    vals(c, out, "NEOHelioY", [float(x) for x in wy], "neo", atol=1e-6, ok=ok)
    c.expect(all(not g or abs(abs(a) - abs(b)) < 1e-6 for a, b, g in zip(out["NEOHelioX"], wx, ok)), "neo X", "neo")


@check.scenario(60, 800)
def altaz(c):
    """ra_dec2_alt_az against vectors; wrapping of RA"""
    from rubin_scheduler.utils import calc_lmst
    n = c.randint(1, 30)
    _, ra, dec = radec(c, n)
    ra, dec = np.radians(ra), np.radians(dec)
    lat, lon, mjd = float(c.uniform(-1.4, 1.4)), float(c.uniform(-3, 3)), float(c.uniform(61000, 62000))
    alt, az = S.ra_dec2_alt_az(ra, dec, lat, lon, mjd)
    lst = float(calc_lmst(mjd, lon)) * math.pi / 12
    for i in range(n):
        H = lst - ra[i]
        # horizon frame: north, east, up
        x, y, z = math.cos(dec[i]) * math.cos(H), -math.cos(dec[i]) * math.sin(H), math.sin(dec[i])
        up = x * math.cos(lat) + z * math.sin(lat)
        north = -x * math.sin(lat) + z * math.cos(lat)
        a0 = math.asin(max(-1, min(1, up)))
        c.expect(abs(alt[i] - a0) < 1e-6, f"altitude {alt[i]}, want {a0}", "altaz")
        if abs(a0) < 1.55:
            v = np.array([math.cos(alt[i]) * math.cos(az[i]), math.cos(alt[i]) * math.sin(az[i])])
            c.expect(np.hypot(v[0] - north, v[1] - y) < 1e-5, f"azimuth {az[i]}, direction {north, y}", "altaz")
    only, none = S.ra_dec2_alt_az(ra, dec, lat, lon, mjd, altonly=True)
    c.expect(np.array_equal(only, alt) and none is None, "altonly", "altaz")
    t = np.zeros(n, dtype=[(f"p{k}", float) for k in range(1, 9)] + [("zz", int)])
    for k in range(1, 9):
        t[f"p{k}"] = c.uniform(-400, 400, n) if k % 2 else c.uniform(-90, 90, n)
    st, out = monitor(c, S.SdssRADecStacker, t, "sdss", recompute=True)
    for k in range(4):
        d = (out[f"RA{k+1}"] - np.radians(t[f"p{2*k+1}"])) / (2 * np.pi)
        c.expect(np.all(np.abs(d - np.round(d)) < 1e-9) and np.all((out[f"RA{k+1}"] >= 0) & (out[f"RA{k+1}"] <= 2 * np.pi)), "sdss RA", "sdss")
        c.expect(np.allclose(out[f"Dec{k+1}"], np.radians(t[f"p{2*k+2}"]), atol=1e-12), "sdss Dec", "sdss")
    c.obs("value", "altaz", n=n)


@check.scenario(80, 1000)
def nightly_coadd(c):
    """CoaddStacker: one row per field, band and night; times summed, depths combined, medians elsewhere"""
    nf = c.randint(1, 4)
    n = c.randint(1, 30)
    f = c.rng.integers(0, nf, n)
    ra, dec = c.uniform(0, 360, nf), c.uniform(-80, 10, nf)
    d = [("observationStartMJD", float), ("fieldRA", float), ("fieldDec", float), ("fiveSigmaDepth", float), ("band", "U1"), ("night", int), ("numExposures", int), ("visitTime", float), ("visitExposureTime", float)]
    if c.flip():
        d.append(("airmass", float))
    t = np.zeros(n, dtype=d)
    t["fieldRA"], t["fieldDec"] = ra[f], dec[f]
    t["night"] = c.rng.integers(1, 4, n)
    t["observationStartMJD"] = 61000 + t["night"] + c.uniform(0, 0.4, n)
    t["fiveSigmaDepth"], t["band"], t["numExposures"] = c.uniform(22, 25, n), c.rng.choice(BANDS[:3], n), c.rng.integers(1, 3, n)
    t["visitTime"], t["visitExposureTime"] = c.uniform(30, 40, n), c.uniform(20, 30, n)
    if "airmass" in t.dtype.names:
        t["airmass"] = c.uniform(1, 2, n)
    before = t.copy()
    out = S.CoaddStacker().run(t)
    c.expect(np.array_equal(t, before), "coadd stacker changed its input", "coadd_input")
    groups = {}
    for r in before:
        groups.setdefault((r["fieldRA"], r["fieldDec"], r["band"], r["night"]), []).append(r)
    c.expect(len(out) == len(groups), lambda: f"coadd: {len(out)} rows for {len(groups)} fields x bands x nights", "coadd")
    for r in out:
        g = groups.get((r["fieldRA"], r["fieldDec"], r["band"], r["night"]))
        if not c.expect(g is not None, f"coadd: no such group {r}", "coadd"):
            continue
        m5 = 1.25 * math.log10(sum(10 ** (0.8 * x["fiveSigmaDepth"]) for x in g))
        c.expect(abs(r["fiveSigmaDepth"] - m5) < 1e-9, f"coadd m5 {r['fiveSigmaDepth']}, want {m5}", "coadd")
        for k in ("numExposures", "visitTime", "visitExposureTime"):
            c.expect(abs(r[k] - sum(x[k] for x in g)) < 1e-8, f"coadd {k}", "coadd")
        for k in ("observationStartMJD", "airmass"):
            if k in r.dtype.names:
                s = sorted(x[k] for x in g)
                w = s[len(s) // 2] if len(s) % 2 else (s[len(s) // 2 - 1] + s[len(s) // 2]) / 2
                c.expect(abs(r[k] - w) < 1e-8, f"coadd median {k}", "coadd")
    c.obs("value", "coadd", n=len(out))


@check.scenario(30, 200)
def lookup(c):
    """steps by name and by column; columns of user steps"""
    reg = dict(BaseStacker.registry)
    for name, cls in reg.items():
        c.expect(BaseStacker.get_class(name) is cls and name.split(".")[-1] == cls.__name__, f"get_class({name}) is {cls}", "lookup_name")
        for col in cls.cols_added:
            c.expect(col in BaseStacker.source_dict and col in BaseStacker.source_dict[col].cols_added, f"source of {col}", "lookup_col")
    c.raises((KeyError,), lambda: BaseStacker.get_class("NoSuchStacker"), "unknown stacker", "lookup_name")
    info = ColInfo()
    for name, cls in reg.items():
        try:
            st = cls()
        except TypeError:
            continue
        for i, col in enumerate(cls.cols_added):
            src = info.get_data_source(col)
            c.expect(src is not None and col in src.cols_added, f"ColInfo source of {col}: {src}", "lookup_col")
            if src is cls:
                c.expect(info.get_units(col) == st.units[i], f"ColInfo units of {col}: {info.get_units(col)!r}, {cls.__name__} declares {st.units}", "lookup_units")
    c.expect(info.get_data_source("observationStartMJD") is None and info.get_data_source(f"nocol{c.index}") is None, "database columns have no stacker", "lookup_col")
    c.expect(info.get_units("observationStartMJD") == "MJD" and info.get_units(f"nocol{c.index}") == "" and info.get_units(None) == "", "units of database columns", "lookup_units")
    c.obs("lookup", f"{len(reg)}", n=len(reg))
    # equality: same class and options, and only those
    mk = [lambda: S.HourAngleStacker(), lambda: S.HourAngleStacker(degrees=False), lambda: S.NormAirmassStacker(), lambda: S.NormAirmassStacker(telescope_lat=3.0), lambda: S.HealpixStacker(nside=8), lambda: S.HealpixStacker(),
          lambda: S.WFDlabelStacker(), lambda: S.WFDlabelStacker(footprint=np.zeros(12 * 64 ** 2)), lambda: S.TeffStacker(), lambda: S.TeffStacker(normed=True), lambda: S.NFollowStacker(), lambda: S.NFollowStacker(time_steps=np.array([1.0]))]
    i, j = c.randint(0, len(mk) - 1), c.randint(0, len(mk) - 1)
    a, b = mk[i](), mk[j]()
    c.expect((a == b) == (i == j) and (a != b) == (i != j), f"stackers {i} and {j}: == gives {a == b}", "equality")
    c.obs("equality", (i, j))
