"""C15: signal-to-noise, depth and magnitude errors."""
import math
import os

import numpy as np

from vlib.h import Check
from vlib import synth
import rubin_sim.phot_utils as P
from rubin_sim.phot_utils import signaltonoise as S
from rubin_sim.phot_utils import predicted_zeropoints as Z

check = Check(
    "C15",
    "a case violates the property when a noise, depth or error value differs from the count-based noise model, "
    "or two routes to the same quantity disagree",
    assumptions=["counts and magnitudes of single spectra are decided by C14", "only reachable depths (positive sky) are judged by the sky scaling"],
    nproc=4,
    budget=(200, 720),
)


def bp_at(lo, hi, shape, c):
    w = np.arange(310, 1120.5, 2.0)
    x = (w - lo) / (hi - lo)
    sb = np.where((x > 0) & (x < 1), shape, 0.0)
    return P.Bandpass(w, sb * np.ones(len(w)))


def settings(c):
    return dict(
        exptime=c.choice([1.0, 15.0, 29.2, 30.0, c.uniform(0.1, 600)]),
        nexp=c.choice([1, 2, 3, 10]),
        effarea=c.uniform(1e4, 5e5),
        gain=c.choice([1.0, 2.3, c.uniform(0.2, 8)]),
        readnoise=c.choice([0.0, 8.8, c.uniform(0, 40)]),
        darkcurrent=c.choice([0.0, 0.2, c.uniform(0, 5)]),
        othernoise=c.choice([0.0, c.uniform(0, 10)]),
        platescale=c.choice([0.2, c.uniform(0.05, 1.0)]),
        sigma_sys=c.choice([0.0, 0.005, c.uniform(0, 0.3)]),
    )


def world(c):
    kw = settings(c)
    lo = c.uniform(330, 900)
    hi = lo + c.uniform(60, 180)
    hw = bp_at(lo, hi, c.uniform(0.1, 0.9), c)
    tot = P.Bandpass(hw.wavelen.copy(), hw.sb * c.uniform(0.3, 1.0))
    w = np.arange(300, 1150.5, 1.0)
    sky = P.Sed(wavelen=w, flambda=(w / 600.0) ** c.uniform(-3, 3) * 1e-17)
    sky.multiply_flux_norm(sky.calc_flux_norm(c.uniform(16, 24), hw))
    src = P.Sed(wavelen=w, flambda=(w / 600.0) ** c.uniform(-3, 3) * 1e-17)
    return kw, hw, tot, sky, src, w


def model(kw, src_counts, sky_counts, fwhm):
    """independent count model, in electrons"""
    neff = 2.266 * (fwhm / kw["platescale"]) ** 2
    s = src_counts * kw["gain"]
    b = sky_counts * kw["gain"] * kw["platescale"] ** 2
    inst = kw["nexp"] * (kw["readnoise"] ** 2 + kw["othernoise"] ** 2 + kw["darkcurrent"] * kw["exptime"])
    bgvar = neff * (b + inst)
    return s / math.sqrt(s + bgvar), bgvar


@check.scenario(350, 3500)
def noise_model(c):
    kw, hw, tot, sky, src, w = world(c)
    kw0 = dict(kw)
    pp = P.PhotometricParameters(**kw)
    fwhm = c.choice([0.7, 0.83, c.uniform(0.3, 3)])
    skyc = sky.calc_adu(hw, phot_params=pp)
    gain = kw["gain"]
    neff = 2.266 * (fwhm / kw["platescale"]) ** 2
    c.obs("settings", (kw["nexp"], gain == 1, kw["readnoise"] == 0, kw["sigma_sys"] == 0, round(fwhm, 1)))
    c.close(S.calc_neff(fwhm, kw["platescale"]), neff, "effective pixels", rtol=1e-9, key="neff")
    inst = kw["nexp"] * (kw["readnoise"] ** 2 + kw["othernoise"] ** 2 + kw["darkcurrent"] * kw["exptime"])
    c.close(S.calc_instr_noise_sq(pp), inst / gain**2, "instrument noise", rtol=1e-9, key="instr")
    _, bgvar = model(kw, 1.0, skyc, fwhm)
    c.close(S.calc_total_non_source_noise_sq(sky, hw, pp, fwhm), bgvar / gain**2, "background noise", rtol=1e-9, key="nonsource")
    # depth: a source at m5 has signal to noise 5
    m5 = S.calc_m5(sky, tot, hw, pp, fwhm_eff=fwhm)
    flat = P.Sed()
    flat.set_flat_sed()
    flat.multiply_flux_norm(flat.calc_flux_norm(m5, tot))
    c.close(S.calc_snr_sed(flat, tot, sky, hw, pp, fwhm), 5.0, f"signal to noise at the limiting depth (gain {gain})", rtol=1e-7, key="m5-snr")
    c.close(S.calc_m5(sky, tot, hw, pp), S.calc_m5(sky, tot, hw, pp, fwhm_eff=0.83), "default seeing", rtol=1e-12, key="m5-default")
    # source signal-to-noise and its monotonicity
    prev = None
    mags = sorted(c.uniform(m5 - 8, m5 + 4) for _ in range(4))
    gamma = S.calc_gamma(tot, m5, pp)
    for m in mags:
        s1 = P.Sed(wavelen=w, flambda=src.flambda.copy())
        s1.multiply_flux_norm(s1.calc_flux_norm(m, tot))
        cnt = s1.calc_adu(tot, phot_params=pp)
        want, _ = model(kw, cnt, skyc, fwhm)
        got = S.calc_snr_sed(s1, tot, sky, hw, pp, fwhm, verbose=False)
        c.close(got, want, f"signal to noise at {m:.2f}", rtol=1e-9, key="snr-sed")
        if prev is not None:
            c.expect(got <= prev * (1 + 1e-12), f"fainter source has higher signal to noise ({prev} then {got})", key="monotone")
        prev = got
        err = 2.5 * math.log10(1 + 1 / want)
        c.close(S.mag_error_from_snr(got), err, "magnitude error", rtol=1e-9, key="magerr")
        c.close(1 / (10 ** (0.4 * S.mag_error_from_snr(got)) - 1), got, "error to signal to noise", rtol=1e-6, key="magerr-inverse")
        c.close(S.calc_mag_error_sed(s1, tot, sky, hw, pp, fwhm), math.hypot(err, kw["sigma_sys"]), "magnitude error with floor", rtol=1e-9, key="magerr-sed")
        # same from the depth: flat spectrum so both routes see the same counts
        f1 = P.Sed()
        f1.set_flat_sed()
        f1.multiply_flux_norm(f1.calc_flux_norm(m, tot))
        direct = S.calc_snr_sed(f1, tot, sky, hw, pp, fwhm)
        fromm5, g = S.calc_snr_m5(m, tot, m5, pp)
        c.close(g, gamma, "gamma", rtol=1e-12, key="gamma-same")
        c.close(fromm5, direct, f"signal to noise from depth at {m - m5:+.2f} mag (gain {gain})", rtol=1e-5, key="snr-m5")
        e5, g5 = S.calc_mag_error_m5(m, tot, m5, pp)
        c.close(e5, math.hypot(2.5 * math.log10(1 + 1 / float(fromm5)), kw["sigma_sys"]), "magnitude error from depth", rtol=1e-9, key="magerr-m5")
        c.close(g5, gamma, "gamma", rtol=1e-12, key="gamma-same")
    arr, _ = S.calc_snr_m5(np.array(mags), tot, m5, pp)
    one = [S.calc_snr_m5(m, tot, m5, pp)[0] for m in mags]
    c.close(arr, one, "array of magnitudes", rtol=1e-12, key="snr-array")
    g0 = c.uniform(0.0, 0.04)
    x = 10 ** (0.4 * (mags[0] - m5))
    v, g = S.calc_snr_m5(mags[0], tot, m5, pp, gamma=g0)
    c.close(v, 1 / math.sqrt((0.04 - g0) * x + g0 * x * x), "signal to noise with given gamma", rtol=1e-9, key="snr-gamma")
    c.expect(g == g0, "given gamma not kept", key="gamma-kept")
    e, g = S.calc_mag_error_m5(mags[0], tot, m5, pp, gamma=g0)
    c.close(e, math.hypot(2.5 * math.log10(1 + 1 / float(v)), kw["sigma_sys"]), "error with given gamma", rtol=1e-9, key="snr-gamma")
    # at the depth the formula gives five whatever gamma
    c.close(S.calc_snr_m5(m5, tot, m5, pp, gamma=g0)[0], 5.0, "signal to noise at depth", rtol=1e-9, key="snr-five")
    f5 = P.Sed()
    f5.set_flat_sed()
    f5.multiply_flux_norm(f5.calc_flux_norm(m5, tot))
    c.close(gamma, 0.04 - 1 / (f5.calc_adu(tot, phot_params=pp) * gain), "gamma", rtol=1e-7, atol=1e-10, key="gamma")
    # scalings
    k = c.uniform(1.1, 5)
    pp2 = P.PhotometricParameters(**{**kw, "gain": gain * k})
    c.close(S.calc_snr_sed(flat, tot, sky, hw, pp2, fwhm), 5.0, "signal to noise depends on gain", rtol=1e-6, key="gain-free")
    c.close(S.calc_m5(sky, tot, hw, pp2, fwhm_eff=fwhm), m5, "depth depends on gain", rtol=0, atol=1e-7, key="gain-free")
    c.close(sky.calc_adu(hw, phot_params=pp2) * k, skyc, "counts scale with gain", rtol=1e-9, key="counts-gain")
    n = c.randint(2, 7)
    pp3 = P.PhotometricParameters(**{**kw, "nexp": kw["nexp"] * n})
    c.close(S.calc_snr_sed(flat, tot, sky, hw, pp3, fwhm), 5.0 * math.sqrt(n), "signal to noise against number of exposures", rtol=1e-7, key="nexp")
    c.close(sky.calc_adu(hw, phot_params=pp3), skyc * n, "counts against number of exposures", rtol=1e-9, key="counts-nexp")
    pp4 = P.PhotometricParameters(**{**kw, "exptime": kw["exptime"] * k})
    c.close(sky.calc_adu(hw, phot_params=pp4), skyc * k, "counts against exposure time", rtol=1e-9, key="counts-exptime")
    c.expect(S.calc_m5(sky, tot, hw, pp4, fwhm_eff=fwhm) > m5, "longer exposure is not deeper", key="deeper")
    c.expect(S.calc_m5(sky, tot, hw, pp, fwhm_eff=fwhm * k) < m5, "worse seeing is not shallower", key="shallower")
    # the scaled sky gives back the depth
    skc = S.calc_sky_counts_per_pixel_for_m5(m5, tot, pp, fwhm_eff=fwhm)
    c.close(skc, skyc * kw["platescale"] ** 2, "sky counts for a depth", rtol=1e-5, atol=1e-6 * bgvar / gain / neff, key="sky-counts")
    target = m5 - c.uniform(0, 3)
    raw = P.Sed(wavelen=w, flambda=sky.flambda * 10 ** c.uniform(-2, 2))
    raw0 = raw.flambda.copy()
    out = S.scale_sky_m5(target, raw, tot, hw, pp, fwhm_eff=fwhm)
    c.close(S.calc_m5(out, tot, hw, pp, fwhm_eff=fwhm), target, "depth under the scaled sky", rtol=0, atol=1e-5, key="sky-scale")
    c.expect(np.array_equal(raw.flambda, raw0), "the given sky was changed", key="sky-input")
    c.close(S.calc_m5(S.scale_sky_m5(target, raw, tot, hw, P.PhotometricParameters(**{**kw, "readnoise": 0.0, "darkcurrent": 0.0, "othernoise": 0.0})), tot, hw, P.PhotometricParameters(**{**kw, "readnoise": 0.0, "darkcurrent": 0.0, "othernoise": 0.0})) if fwhm >= 0.83 else target, target, "depth under the scaled sky, default seeing", rtol=0, atol=1e-5, key="sky-scale-default")
    c.expect(kw == kw0 and pp.gain == gain, "settings changed", key="settings")


@check.scenario(400, 4000)
def parameters(c):
    full = settings(c)
    names = list(full)
    band = c.choice([None, "u", "g", "r", "i", "z", "y", "any", "weird", "VR"])
    given = {k: v for k, v in full.items() if c.flip(c.choice([0.2, 0.8, 1.0]))}
    c.obs("given", (band, tuple(sorted(given))))
    known = band in (None, "u", "g", "r", "i", "z", "y", "any")
    if not known and len(given) < len(names):
        c.raises(RuntimeError, lambda: P.PhotometricParameters(bandpass=band, **given), "unknown band with missing settings accepted", key="unknown-band")
        return
    pp = P.PhotometricParameters(bandpass=band, **given)
    c.expect(pp.bandpass == band, "band name not kept", key="band")
    c.raises(TypeError, lambda: P.PhotometricParameters(exposure=3), "unknown setting accepted", key="unknown-setting")
    dflt = dict(exptime=15.0, nexp=2, effarea=math.pi * 321.15**2, gain=2.3, readnoise=8.8, darkcurrent=0.2, othernoise=0.0, platescale=0.2, sigma_sys=0.0075 if band in ("u", "z", "y") else 0.005)
    for k in names:
        c.close(getattr(pp, k), given.get(k, dflt[k]), f"setting {k} in {band}", rtol=1e-9, key="kept")
        c.raises(RuntimeError, lambda: setattr(pp, k, 1.0), f"{k} can be changed", key="frozen")
    other = P.PhotometricParameters(bandpass=band if known else None)
    for k in names:
        c.close(getattr(other, k), dflt[k], f"default {k} after another object", rtol=1e-9, key="defaults-shared")


@check.scenario(400, 4000)
def errors(c):
    f = c.uniform(0.1, 5, 5)
    c.close(S.fwhm_eff2_fwhm_geom(f), 0.822 * f + 0.052, "geometric width", rtol=1e-12, key="fwhm")
    c.close(S.fwhm_geom2_fwhm_eff(S.fwhm_eff2_fwhm_geom(f)), f, "width there and back", rtol=1e-12, key="fwhm-inverse")
    m5 = c.uniform(20, 26)
    mags = np.sort(c.uniform(m5 - 10, m5 + 3, 8))
    fw, n, floor = c.uniform(0.3, 2), c.choice([1, 4, 100]), c.choice([0.0, 10.0, c.uniform(0, 30)])
    got = S.calc_astrometric_error(mags, m5, fwhm_geom=fw, nvisit=n, systematic_floor=floor)
    want = []
    for m in mags:
        x = 10 ** (0.4 * (m - m5))
        want.append(math.sqrt(floor**2 + (1000 * fw) ** 2 * (0.001 * x + 0.039 * x * x) / n))
    c.obs("astrometry", (n, floor == 0, round(fw, 1)))
    c.close(got, want, "astrometric error", rtol=1e-9, key="astrom")
    c.expect(np.all(np.diff(got) >= -1e-9) and np.all(got >= floor - 1e-9), "astrometric error not monotone above its floor", key="astrom-order")
    c.close(S.calc_astrometric_error(mags[0], m5), S.calc_astrometric_error(mags[0], m5, fwhm_geom=0.7, nvisit=1, systematic_floor=10), "defaults", rtol=1e-12, key="astrom-default")
    snr = 10 ** c.uniform(-1, 4, 5)
    e = S.mag_error_from_snr(snr)
    c.close(1 / (10 ** (0.4 * e) - 1), snr, "error there and back", rtol=1e-6, key="magerr-inverse")
    for tag in ("", "_itl", "_e2v"):
        zf, hf = getattr(Z, "predicted_zeropoint" + tag), getattr(Z, "predicted_zeropoint_hardware" + tag)
        for b in "ugrizy":
            x1, x2, t = c.uniform(1, 3), c.uniform(1, 3), c.uniform(0.1, 300)
            slope = zf(b, 2.0) - zf(b, 1.0)
            c.close(slope, dict(u=-0.458, g=-0.208, r=-0.122, i=-0.074, z=-0.057, y=-0.095)[b], f"extinction of {b}{tag}", rtol=0, atol=0.005, key="zp-extinction")
            c.expect(-0.6 < slope < -0.03, f"extinction slope of {b}{tag} is {slope}", key="zp-slope")
            c.close(zf(b, x1) - zf(b, x2), slope * (x1 - x2), "zeropoint against airmass", rtol=0, atol=1e-9, key="zp-airmass")
            c.close(zf(b, x1, exptime=t) - zf(b, x1), 2.5 * math.log10(t), "zeropoint against exposure time", rtol=0, atol=1e-9, key="zp-exptime")
            c.close(zf(b, x1, t), zf(b, x1, exptime=t), "exposure by position", rtol=0, atol=1e-12, key="zp-exptime")
            c.close(hf(b, t) - hf(b), 2.5 * math.log10(t), "hardware zeropoint against exposure time", rtol=0, atol=1e-9, key="zp-exptime")
            c.close(hf(b), zf(b, 0.0), f"hardware zeropoint of {b}{tag} against no air", rtol=0, atol=0.1, key="zp-hardware")
            c.close(zf(b, 1.0), Z.predicted_zeropoint(b, 1.0), f"detector zeropoint of {b}{tag}", rtol=0, atol=0.15, key="zp-detector")
        c.raises(KeyError, lambda: zf("q", 1.0), "unknown band accepted", key="zp-band")
    c.obs("zeropoint", round(t))
