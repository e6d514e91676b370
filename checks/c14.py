"""C14: spectra, bandpasses and synthetic photometry."""
import gzip
import math
import os

import numpy as np
import rubin_sim.phot_utils as P
from rubin_sim.phot_utils.sed_utils import get_imsim_flux_norm
from rubin_sim.phot_utils.spectral_resampling import spectres
import rubin_sim.phot_utils.sed as sedmod

from vlib import synth
from vlib.h import Check, short

check = Check("C14", "random positive spectra (smooth, lines, steps, noise) and throughputs on even and uneven grids; fluxes and magnitudes against an independent integral, "
              "inverse conversions, normalisation targets, dust and redshift against formulas at every wavelength, joint against single computation, file round trips, inputs watched for change. "
              "Non-trivial: a compared number from a spectrum with flux in the bandpass.",
              assumptions=["AB zeropoint 3631 Jy, c and h to 1e-4", "spectra cover the bandpass", "counts and joint fluxes use even grids (their documented requirement)"])

C_M, H_ERG, AB = 299792458.0, 6.626068e-27, 3631.0


def setup():
    synth.throughputs(os.environ["RUBIN_SIM_DATA_DIR"])


check.setup_fn = setup


def shape(c, w):
    k = c.choice(["flat", "power", "bb", "lines", "step", "noise"])
    x = (w - w[0]) / (w[-1] - w[0])
    if k == "flat":
        f = np.ones(len(w))
    elif k == "power":
        f = (w / 600.0) ** c.uniform(-4, 3)
    elif k == "bb":
        t = c.uniform(3000, 20000)
        f = (w / 600) ** -5 / np.expm1(1.4388e7 / (w * t))
        f /= f.max()
    elif k == "lines":
        f = 0.2 + sum(np.exp(-0.5 * ((x - c.uniform(0, 1)) / c.uniform(0.01, 0.1)) ** 2) for _ in range(3))
    elif k == "step":
        f = np.where(x < c.uniform(0.2, 0.8), c.uniform(0.1, 1), c.uniform(0.1, 1))
    else:
        f = c.uniform(0.2, 1, len(w))
    return k, f * 10 ** c.uniform(-18, -8)


def grid(c, lo, hi, uneven=False):
    if uneven:
        return np.unique(np.concatenate([[lo, hi], c.uniform(lo, hi, c.randint(40, 300))]))
    n = c.choice([50, 200, 500])
    return np.linspace(lo, hi, n)


def bandpass(c, uneven=False):
    lo = c.uniform(320, 800)
    hi = lo + c.uniform(60, 250)
    w = grid(c, lo, hi, uneven)
    x = (w - lo) / (hi - lo)
    sb = c.choice([np.ones(len(w)) * 0.5, np.exp(-0.5 * ((x - 0.5) / 0.2) ** 2), np.where((x > 0.2) & (x < 0.8), 0.7, 0.0), c.uniform(0, 1, len(w)), x * (1 - x)])
    return P.Bandpass(w, sb)


def trapz(y, x):
    s = 0.0
    for i in range(1, len(x)):
        s += 0.5 * (y[i] + y[i - 1]) * (x[i] - x[i - 1])
    return s


def fnu_of(w, fl):
    # erg/cm2/s/nm -> Jy : fnu = flambda * lambda^2 / c
    return fl * w * w * 1e-9 / C_M * 1e23


def avg_resample(new, old, f):
    """mean of the histogram-like spectrum over each new bin"""
    def edges(w):
        e = [w[0] - (w[1] - w[0]) / 2] + [(a + b) / 2 for a, b in zip(w[1:], w[:-1])] + [w[-1] + (w[-1] - w[-2]) / 2]
        return np.array(e)
    eo, en = edges(old), edges(new)
    cum = np.concatenate([[0], np.cumsum(f * np.diff(eo))])
    g = lambda x: np.interp(x, eo, cum)
    return (g(en[1:]) - g(en[:-1])) / np.diff(en), (en[:-1] >= eo[0] - 1e-9) & (en[1:] <= eo[-1] + 1e-9)


@check.scenario(2500, 12000)
def flux_and_mag(c):
    """Fluxes, magnitudes, counts and energies equal the integral."""
    uneven = c.flip(0.3)
    bp = bandpass(c, uneven)
    same = c.flip(0.5)
    w = bp.wavelen.copy() if same else np.linspace(250, 1200, c.choice([200, 1500, 4000]))
    kind, fl = shape(c, w)
    w0, f0, bw0, bs0 = w.copy(), fl.copy(), bp.wavelen.copy(), bp.sb.copy()
    use_fnu = c.flip()
    fnu = fnu_of(w, fl)
    fnu0 = fnu.copy()
    sed = P.Sed(wavelen=w, fnu=fnu) if use_fnu else P.Sed(wavelen=w, flambda=fl)
    if not np.any(bp.sb > 0):
        return
    if same:
        fg, ok = fnu, np.ones(len(w), bool)
        flg = fl
    else:
        fg, ok = avg_resample(bp.wavelen, w, fnu)
        flg, _ = avg_resample(bp.wavelen, w, fl)
    phi = bp.sb / bp.wavelen
    phi = phi / trapz(phi, bp.wavelen)
    want = trapz(fg * phi, bp.wavelen)
    got = sed.calc_flux(bp)
    c.obs("flux", (kind, uneven, same, use_fnu, len(w), len(bp.wavelen)))
    c.close(got, want, f"flux of {kind} spectrum", rtol=1e-4, key="flux")
    c.close(sed.calc_flux(bp, wavelen=w, fnu=fnu), got, "flux from arrays", rtol=1e-9, key="flux-arrays")
    mag = sed.calc_mag(bp)
    c.close(mag, -2.5 * math.log10(want / AB), "magnitude", rtol=0, atol=5e-4, key="mag")
    c.close(sed.flux_from_mag(mag), got, "flux from magnitude", rtol=1e-9, key="mag-inverse")
    c.close(sed.mag_from_flux(got), mag, "magnitude from flux", rtol=0, atol=1e-9, key="mag-inverse")
    if not uneven:
        dl = bp.wavelen[1] - bp.wavelen[0]
        en = trapz(flg * bp.sb, bp.wavelen)
        c.close(sed.calc_ergs(bp), en, "energy", rtol=1e-6, key="ergs")
        pp = P.PhotometricParameters(exptime=c.uniform(5, 60), nexp=c.randint(1, 4), effarea=c.uniform(1e4, 4e5), gain=c.uniform(0.5, 4))
        adu = float(np.sum(fg * bp.sb / bp.wavelen)) * dl * 1e-23 / H_ERG * pp.exptime * pp.nexp * pp.effarea / pp.gain
        c.close(sed.calc_adu(bp, phot_params=pp), adu, "counts", rtol=3e-4, key="adu")
        c.close(sed.calc_adu(bp, phot_params=pp, wavelen=w, fnu=fnu), sed.calc_adu(bp, phot_params=pp), "counts from arrays", rtol=1e-9, key="adu-arrays")
        # zeropoint: a source at the zeropoint gives one count per the settings
        ebp = P.Bandpass()
        ebp.wavelen = np.arange(310, 1140.05, 1.0)
        ebp.sb = np.exp(-0.5 * ((ebp.wavelen - c.uniform(400, 1000)) / 60) ** 2)
        zp = ebp.calc_zp_t(pp)
        flat = P.Sed()
        flat.set_flat_sed(wavelen_min=290, wavelen_max=1160)
        flat.multiply_flux_norm(flat.calc_flux_norm(zp, ebp))
        c.close(flat.calc_mag(ebp), zp, "normalised flat spectrum", rtol=0, atol=1e-7, key="zp-mag")
        c.close(flat.calc_adu(ebp, phot_params=pp), 1.0, "counts at the zeropoint", rtol=2e-3, key="zp-counts")
    # linearity and target normalisation
    k = 10 ** c.uniform(-3, 3)
    c.close(P.Sed(wavelen=w, flambda=fl * k).calc_mag(bp), mag - 2.5 * math.log10(k), "brightness scale", rtol=0, atol=1e-8, key="linear")
    target = c.uniform(10, 30)
    fn = sed.calc_flux_norm(target, bp)
    s2 = P.Sed(wavelen=w, flambda=fl)
    s2.multiply_flux_norm(fn)
    c.close(s2.calc_mag(bp), target, "normalised to a magnitude", rtol=0, atol=1e-7, key="norm")
    c.close(s2.flambda, fl * fn, "normalised spectrum keeps its shape", rtol=1e-9, key="norm-shape")
    w2, f2 = sed.multiply_flux_norm(fn, wavelen=w, fnu=fnu)
    c.close(f2, fnu0 * fn, "normalised arrays", rtol=1e-12, key="norm-arrays")
    c.close(sed.calc_mag(bp), mag, "repeated magnitude", rtol=0, atol=1e-10, key="repeat")
    # scaling the bandpass does not change magnitudes
    c.close(P.Sed(wavelen=w, flambda=fl).calc_mag(P.Bandpass(bp.wavelen, bp.sb * c.uniform(0.1, 1))), mag, "throughput scale", rtol=0, atol=1e-7, key="bp-scale")
    c.expect(np.array_equal(w, w0) and np.array_equal(fl, f0) and np.array_equal(fnu, fnu0) and np.array_equal(bp.wavelen, bw0) and np.array_equal(bp.sb, bs0), "inputs changed", key="mutated")


@check.scenario(1500, 9000)
def conversions(c):
    """flambda-fnu, redshift, dust, resampling and normalisation at a wavelength."""
    w = grid(c, c.uniform(95, 400), c.uniform(900, 3200), c.flip(0.4))
    kind, fl = shape(c, w)
    w0, f0 = w.copy(), fl.copy()
    s = P.Sed(wavelen=w, flambda=fl)
    _, fnu = s.flambda_tofnu(w, fl)
    c.obs("convert", (kind, len(w)))
    c.close(fnu, fnu_of(w, fl), "fnu from flambda", rtol=1e-5, key="fnu")
    _, back = s.fnu_toflambda(w, fnu)
    c.close(back, fl, "flambda back from fnu", rtol=1e-12, key="fnu-inverse")
    _, g = s.get_sed_fnu()
    c.close(g, fnu, "get_sed_fnu", rtol=1e-12, key="get-fnu")
    s2 = P.Sed(wavelen=w, fnu=fnu)
    c.close(s2.flambda, fl, "spectrum set from fnu", rtol=1e-12, key="set-fnu")
    # redshift
    z = c.choice([0.0, c.uniform(0, 6), -c.uniform(0, 3)])
    dim = c.flip()
    wz, fz = s.redshift_sed(z, dimming=dim, wavelen=w, flambda=fl)
    fac = 1 + z if z >= 0 else 1 / (1 - z)
    c.close(wz, w * fac, "redshifted wavelengths", rtol=1e-12, key="redshift")
    c.close(fz, fl / fac if dim else fl, "redshifted fluxes", rtol=1e-12, key="redshift-dim")
    wb, fb = s.redshift_sed(-z, dimming=dim, wavelen=wz, flambda=fz)
    c.close(wb, w, "redshift undone", rtol=1e-12, key="redshift-inverse")
    c.close(fb, fl, "redshift undone", rtol=1e-12, key="redshift-inverse")
    s3 = P.Sed(wavelen=w, flambda=fl)
    s3.flambda_tofnu()
    s3.redshift_sed(z, dimming=dim)
    c.close(s3.flambda, fz, "redshift in place", rtol=1e-12, key="redshift-self")
    c.close(s3.get_sed_fnu()[1], fnu_of(wz, fz), "fnu after redshift", rtol=1e-5, key="redshift-fnu")
    # dust
    ebv, rv = c.uniform(0, 2), c.choice([3.1, c.uniform(2, 6)])
    for name, fn in (("ccm", s.setup_ccm_ab), ("odonnell", s.setup_o_donnell_ab)):
        a, b = fn(wavelen=w)
        wa, wb_ = dust_ab(name, w)
        c.close(a, wa, f"{name} a(x)", rtol=1e-9, atol=1e-12, key="dust-a")
        c.close(b, wb_, f"{name} b(x)", rtol=1e-9, atol=1e-12, key="dust-b")
        how = c.choice(["ebv", "av", "both"])
        kw = dict(ebv=ebv) if how == "ebv" else dict(a_v=rv * ebv) if how == "av" else dict(ebv=ebv, a_v=rv * ebv)
        if how == "both" and rv != 3.1 and (rv * ebv) / ebv != rv:
            continue
        r = rv if how != "both" else rv
        _, fd = s.add_dust(a, b, r_v=r, wavelen=w, flambda=fl, **kw)
        want = fl * 10 ** (-0.4 * (wa + wb_ / rv) * rv * ebv)
        c.close(fd, want, f"{name} dust ebv={ebv} r_v={rv} given {how}", rtol=1e-9, key="dust")
        s4 = P.Sed(wavelen=w, flambda=fl)
        s4.flambda_tofnu()
        s4.add_dust(a, b, r_v=r, **kw)
        c.close(s4.flambda, want, "dust in place", rtol=1e-9, key="dust-self")
        c.close(s4.get_sed_fnu()[1], fnu_of(w, want), "fnu after dust", rtol=1e-5, key="dust-fnu")
        half = s.add_dust(a, b, r_v=r, wavelen=w, flambda=fl, ebv=ebv / 2)[1]
        half = s.add_dust(a, b, r_v=r, wavelen=w, flambda=half, ebv=ebv / 2)[1]
        c.close(half, want, "dust twice at half strength", rtol=1e-9, key="dust-mult")
    if rv != 3.1:
        c.raises(ValueError, lambda: s.add_dust(a, b, a_v=1.0, ebv=1.0 / (rv + 0.5), r_v=rv, wavelen=w, flambda=fl), "inconsistent dust parameters accepted", key="dust-inconsistent")
    # resampling
    lo, hi = w[0] + 0.1 * (w[-1] - w[0]), w[-1] - 0.1 * (w[-1] - w[0])
    new = grid(c, lo, hi, c.flip(0.4))
    want, ok = avg_resample(new, w, fl)
    _, r1 = s.resample_sed(w, fl, wavelen_match=new)
    c.close(r1[ok], want[ok], "resampled spectrum", rtol=1e-7, key="resample")
    two = np.vstack([fl, fl[::-1] * 2])
    r2 = spectres(new, w, two, verbose=False)
    c.close(r2[0][ok], want[ok], "joint resampling", rtol=1e-7, key="resample-joint")
    c.close(r2[1][ok], avg_resample(new, w, two[1])[0][ok], "joint resampling", rtol=1e-7, key="resample-joint")
    far = w[-1] + (w[-1] - w[0]) + np.linspace(50, 90, 6)
    fill = c.choice([0.0, -7.0])
    c.expect(np.all(s.resample_sed(w, fl, wavelen_match=far, fill=fill)[1] == fill), "no filler outside the spectrum", key="resample-fill")
    err = fl * 0.1
    fe, ee = spectres(new, w, fl, spec_errs=err, verbose=False)
    c.close(fe[ok], want[ok], "resampling with errors", rtol=1e-7, key="resample-err")
    c.expect(np.all(ee[ok] <= err.max() * (1 + 1e-9)) and np.all(ee[ok] > 0), "resampled errors out of range", key="resample-err")
    s5 = P.Sed(wavelen=w, flambda=fl)
    step = c.choice([1.0, 2.5, 5.0])
    s5.synchronize_sed(wavelen_min=lo, wavelen_max=hi, wavelen_step=step)
    c.expect(abs(s5.wavelen[0] - lo) < 1e-9 and np.allclose(np.diff(s5.wavelen), step) and hi - step <= s5.wavelen[-1] <= hi + step + 1e-9, f"grid {s5.wavelen[[0, -1]]} asked {lo} {hi} {step}", key="sync-grid")
    wsync, _ = avg_resample(s5.wavelen, w, fl)
    in_ = (s5.wavelen + step < w[-1]) & (s5.wavelen - step > w[0])
    c.close(s5.flambda[in_], wsync[in_], "synchronised spectrum", rtol=1e-6, key="sync")
    c.close(s5.fnu[in_], fnu_of(s5.wavelen, s5.flambda)[in_], "synchronised fnu", rtol=1e-5, key="sync-fnu")
    # normalise at a wavelength
    nf, lam, val, gap = c.choice(["flambda", "fnu"]), c.uniform(lo, hi), 10 ** c.uniform(-3, 3), c.choice([0, 0, 5.0])
    s6 = P.Sed(wavelen=w, flambda=fl)
    kw = dict(wavelen_step=c.choice([0.1, 0.5])) if c.flip() else {}
    if c.flip():
        s6.renormalize_sed(lambdanorm=lam, normvalue=val, gap=gap, normflux=nf, **kw)
        out = s6
        c.close(out.fnu, fnu_of(out.wavelen, out.flambda), "fnu after renormalising", rtol=1e-5, key="renorm-fnu")
    else:
        out = s6.renormalize_sed(wavelen=w, flambda=fl if nf == "flambda" else None, fnu=fnu if nf == "fnu" else None, lambdanorm=lam, normvalue=val, gap=gap, normflux=nf, **kw)
        c.expect(np.array_equal(s6.flambda, fl), "renormalising arrays changed the spectrum", key="mutated")
    y = out.flambda if nf == "flambda" else fnu_of(out.wavelen, out.flambda)
    if gap == 0:
        c.close(np.interp(lam, w, y), val, f"{nf} at {lam}", rtol=1e-5, key="renorm")
    else:
        xs = np.arange(lam - gap, lam + gap, kw.get("wavelen_step", 0.1))
        c.close(np.mean(np.interp(xs, w, y)), val, f"{nf} around {lam}", rtol=1e-3, key="renorm-gap")
    c.close(out.flambda / fl, np.full(len(w), out.flambda[0] / fl[0]), "renormalising changed the shape", rtol=1e-9, key="renorm-shape")
    if gap == 0:
        c.raises(Exception, lambda: P.Sed(wavelen=w, flambda=fl).renormalize_sed(lambdanorm=w[-1] + 10, normflux=nf), "normalised outside the spectrum", key="renorm-outside")
    c.expect(np.array_equal(w, w0) and np.array_equal(fl, f0), "inputs changed", key="mutated")


def dust_ab(name, w):
    a, b = [], []
    for lam in w:
        x = 1000.0 / lam
        if x < 0.3 or x > 11:
            a.append(0.0)
            b.append(0.0)
        elif x < 1.1:
            a.append(0.574 * x ** 1.61)
            b.append(-0.527 * x ** 1.61)
        elif x <= 3.3:
            y = x - 1.82
            if name == "ccm":
                ca = [1, 0.17699, -0.50447, -0.02427, 0.72085, 0.01979, -0.77530, 0.32999]
                cb = [0, 1.41338, 2.28305, 1.07233, -5.38434, -0.62251, 5.30260, -2.09002]
            else:
                ca = [1, 0.104, -0.609, 0.701, 1.137, -1.718, -0.827, 1.647, -0.505]
                cb = [0, 1.952, 2.908, -3.989, -7.985, 11.102, 5.491, -10.805, 3.347]
            a.append(sum(k * y ** i for i, k in enumerate(ca)))
            b.append(sum(k * y ** i for i, k in enumerate(cb)))
        elif x < 8:
            d = x - 5.9
            fa = -0.04473 * d * d - 0.009779 * d ** 3 if x > 5.9 else 0
            fb = 0.2130 * d * d + 0.1207 * d ** 3 if x > 5.9 else 0
            a.append(1.752 - 0.316 * x - 0.104 / ((x - 4.67) ** 2 + 0.341) + fa)
            b.append(-3.090 + 1.825 * x + 1.206 / ((x - 4.62) ** 2 + 0.263) + fb)
        else:
            y = x - 8
            a.append(-1.073 - 0.628 * y + 0.137 * y ** 2 - 0.070 * y ** 3)
            b.append(13.670 + 4.257 * y - 0.420 * y ** 2 + 0.374 * y ** 3)
    return np.array(a), np.array(b)


@check.scenario(1500, 9000)
def together(c):
    """Many bandpasses at once, products of spectra and throughputs, bandpass resampling."""
    step = c.choice([0.5, 1.0, 2.0])
    n = c.randint(1, 6)
    bps, single = [], []
    for _ in range(n):
        lo = c.choice([300.0, 350.0, round(c.uniform(300, 600), 1)])
        hi = lo + c.choice([200.0, 300.5, round(c.uniform(100, 400), 1)])
        w = np.arange(lo, hi + step / 2, step)
        sb = np.exp(-0.5 * ((w - c.uniform(lo + 50, hi - 50)) / c.uniform(10, 60)) ** 2) * c.uniform(0.1, 1)
        if c.flip(0.5):
            sb[0] = sb[-1] = 0
        bps.append(P.Bandpass(w, sb))
        single.append((w.copy(), sb.copy()))
    s = P.Sed()
    phi, dl = s.setup_phi_array(bps)
    c.close(dl, step, "grid step", rtol=1e-9, key="phi-step")
    gw = bps[0].wavelen
    c.expect(all(np.array_equal(b.wavelen, gw) for b in bps) and phi.shape == (n, len(gw)), "bandpasses on different grids", key="phi-grid")
    c.expect(abs(gw[0] - min(w[0] for w, _ in single)) < 1e-9, "grid start", key="phi-grid")
    kind, fl = shape(c, gw)
    sed = P.Sed(wavelen=gw, flambda=fl)
    sed.flambda_tofnu()
    fluxes, mags = sed.many_flux_calc(phi, dl), sed.many_mag_calc(phi, dl)
    c.obs("joint", (n, step, kind, len(gw)))
    for i, (w, sb) in enumerate(single):
        sbg = np.interp(gw, w, sb, left=0, right=0)
        c.close(bps[i].sb, sbg, "throughput on the joint grid", rtol=1e-7, atol=1e-12, key="bp-resample")
        ph = sbg / gw
        ph /= trapz(ph, gw)
        c.close(phi[i], ph, "normalised response", rtol=1e-6, atol=1e-15, key="phi")
        want = float(np.sum(ph * fnu_of(gw, fl))) * step
        c.close(fluxes[i], want, "joint flux", rtol=1e-4, key="many-flux")
        alone = P.Sed(wavelen=gw, flambda=fl).calc_mag(P.Bandpass(gw, sbg))
        edge = (ph[0] * fnu_of(gw, fl)[0] + ph[-1] * fnu_of(gw, fl)[-1]) * step / want
        c.close(mags[i], alone, "joint magnitude", rtol=0, atol=1e-6 + 2 * edge, key="many-mag")
        c.close(mags[i], -2.5 * math.log10(fluxes[i] / AB), "joint magnitude from flux", rtol=0, atol=1e-4, key="many-mag-flux")
    if n > 1:
        ind = [int(x) for x in c.rng.permutation(n)[: c.randint(1, n)]]
        c.close(sed.many_mag_calc(phi, dl, observed_bandpass_ind=ind), mags[ind], "subset of bandpasses", rtol=0, atol=1e-12, key="many-ind")
    # effective wavelength
    e1, e2 = bps[0].calc_eff_wavelen()
    c.close(e2, float(np.sum(gw * bps[0].sb) / np.sum(bps[0].sb)), "effective wavelength", rtol=1e-9, key="eff")
    c.close(e1, float(np.sum(bps[0].sb) / np.sum(bps[0].sb / gw)), "photon-weighted effective wavelength", rtol=1e-9, key="eff-phi")
    # products
    ow = grid(c, gw[0] - c.uniform(-30, 30), gw[-1] + c.uniform(-30, 30), c.flip(0.4))
    osb = c.uniform(0, 1, len(ow))
    if c.flip(0.3):
        ow, osb = gw.copy(), c.uniform(0, 1, len(gw))
    tgt = bps[0] if c.flip() else bandpass(c, True)
    if ow.min() < tgt.wavelen.max() and ow.max() > tgt.wavelen.min():
        before = (tgt.wavelen.copy(), tgt.sb.copy(), ow.copy(), osb.copy())
        w2, sb2 = tgt.multiply_throughputs(ow, osb)
        c.expect(np.array_equal(w2, tgt.wavelen), "product on another grid", key="product-grid")
        c.close(sb2, tgt.sb * np.interp(tgt.wavelen, ow, osb, left=0, right=0), "product of throughputs", rtol=1e-7, atol=1e-12, key="product")
        c.expect(all(np.array_equal(a, b) for a, b in zip(before, (tgt.wavelen, tgt.sb, ow, osb))), "inputs changed", key="mutated")
    w1 = grid(c, 300, 900, c.flip())
    w2 = w1.copy() if c.flip(0.3) else grid(c, 400, 1000, c.flip())
    _, f1 = shape(c, w1)
    _, f2 = shape(c, w2)
    a, b = P.Sed(wavelen=w1, flambda=f1), P.Sed(wavelen=w2, flambda=f2)
    pr = a.multiply_sed(b, wavelen_step=c.choice([None, 0.5, 2.0]))
    if np.array_equal(w1, w2):
        c.close(pr.flambda, f1 * f2, "product of spectra on one grid", rtol=1e-12, key="sed-product")
    else:
        st = pr.wavelen[1] - pr.wavelen[0]
        ok = (pr.wavelen > max(w1[0], w2[0]) + st) & (pr.wavelen < min(w1[-1], w2[-1]) - st)
        c.close(pr.flambda[ok], (avg_resample(pr.wavelen, w1, f1)[0] * avg_resample(pr.wavelen, w2, f2)[0])[ok], "product of spectra", rtol=1e-6, key="sed-product")
        c.expect(ok.sum() > 10 and abs(pr.wavelen[0] - max(w1[0], w2[0])) < 1e-6, "product does not cover the overlap", key="sed-product-range")
    c.expect(np.array_equal(a.flambda, f1) and np.array_equal(b.flambda, f2), "product changed its inputs", key="mutated")


@check.scenario(700, 4000)
def files(c):
    """Spectra and throughputs written to disk read back; file lists multiply; data-dir bandpasses."""
    w = np.round(np.linspace(300, 1150, c.choice([86, 851])), 2)
    kind, fl = shape(c, w)
    s = P.Sed(wavelen=w, flambda=fl)
    p = os.path.join(c.scratch, "s.dat")
    hdr = c.choice([None, "made here\n", "# a header\n"])
    fnu = c.flip()
    s.write_sed(p, print_header=hdr, print_fnu=fnu)
    c.expect(np.array_equal(s.flambda, fl), "writing changed the spectrum", key="mutated")
    gz = c.flip(0.3)
    if gz:
        data = open(p, "rb").read()
        os.unlink(p)
        with gzip.open(p + ".gz", "wb") as f:
            f.write(data)
    if not fnu:
        r = P.Sed()
        r.read_sed_flambda(p + (".gz" if gz and c.flip() else ""), cache_sed=c.flip())
        c.close(r.wavelen, w, "wavelengths read back", rtol=0, atol=0.0051, key="sed-file-w")
        c.close(r.flambda, fl, "spectrum read back", rtol=1e-6, key="sed-file")
        r.flambda *= 5
        again = P.Sed()
        again.read_sed_flambda(p)
        c.close(again.flambda, fl, "spectrum read again after editing the first copy", rtol=1e-6, key="sed-cache")
    else:
        rows = [l.split() for l in (gzip.open(p + ".gz", "rt") if gz else open(p)) if not l.startswith("#")]
        c.expect(len(rows) == len(w) and all(len(x) == 3 for x in rows), f"{len(rows)} rows for {len(w)}", key="sed-fnu-rows")
        arr = np.array(rows, float)
        c.close(arr[:, 1], fl, "spectrum in file", rtol=1e-9, key="sed-fnu-file")
        c.close(arr[:, 2], fnu_of(w, fl), "fnu in file", rtol=1e-5, key="sed-fnu-file")
    # fnu files
    q = os.path.join(c.scratch, "f.dat")
    fn = fnu_of(w, fl)
    with open(q, "w") as f:
        f.write("# header\n")
        for a, b in zip(w, fn):
            f.write(f"{a!r} {b!r}\n".replace("np.float64(", "").replace(")", ""))
    r = P.Sed()
    r.read_sed_fnu(q)
    c.close(r.fnu, fn, "fnu file", rtol=1e-12, key="fnu-file")
    c.close(r.flambda, fl, "flambda of a fnu file", rtol=1e-5, key="fnu-file")
    # throughputs
    bp = bandpass(c, c.flip())
    t = os.path.join(c.scratch, "t.dat")
    bp.write_throughput(t, print_header=hdr, write_phi=c.flip())
    if c.flip(0.3):
        lines = open(t).read().splitlines()
        head = [x for x in lines if x.startswith("#")]
        body = [x for x in lines if not x.startswith("#")]
        open(t, "w").write("\n".join(head + ["! note", "$ note", ""] + [body[i] for i in c.rng.permutation(len(body))]) + "\n")
    b2 = P.Bandpass()
    b2.read_throughput(t)
    c.obs("file", (kind, hdr is None, fnu, gz, len(bp.wavelen)))
    c.expect(np.array_equal(b2.wavelen, bp.wavelen) and np.array_equal(b2.sb, bp.sb), "throughput read back differs", key="bp-file")
    dup = open(t).read() + "%r 0.5\n" % float(bp.wavelen[3])
    open(t + "2", "w").write(dup)
    c.raises(ValueError, lambda: P.Bandpass().read_throughput(t + "2"), "repeated wavelengths accepted", key="bp-dup")
    c.raises(IOError, lambda: P.Bandpass().read_throughput(os.path.join(c.scratch, "none.dat")), "missing file accepted", key="bp-missing")
    # component lists
    k = c.randint(1, 4)
    names, comps = [], []
    for i in range(k):
        cw = np.linspace(c.uniform(250, 400), c.uniform(900, 1200), 200)
        cs = c.uniform(0.2, 1, 200)
        P.Bandpass(cw, cs).write_throughput(os.path.join(c.scratch, f"c{i}.dat"))
        names.append(f"c{i}.dat")
        comps.append((cw, cs))
    tot = P.Bandpass()
    st = c.choice([0.5, 1.0])
    tot.read_throughput_list(names, root_dir=c.scratch, wavelen_min=350, wavelen_max=1000, wavelen_step=st)
    want = np.ones(len(tot.wavelen))
    for cw, cs in comps:
        want = want * np.interp(tot.wavelen, cw, cs, left=0, right=0)
    c.expect(tot.wavelen[0] == 350 and abs(tot.wavelen[-1] - 1000) < 1e-6, "grid of a component list", key="list-grid")
    c.close(tot.sb, want, "product of components", rtol=1e-7, atol=1e-12, key="list")
    lst = P.Bandpass()
    lst.read_throughput([os.path.join(c.scratch, n) for n in names])
    w3 = lst.wavelen
    want = np.ones(len(w3))
    for cw, cs in comps:
        want = want * np.interp(w3, cw, cs, left=0, right=0)
    c.close(lst.sb, want, "list given as one file", rtol=1e-7, atol=1e-12, key="list2")
    # arrays given must match, and stay the caller's
    c.raises(ValueError, lambda: P.Bandpass(bp.wavelen, bp.sb[:-1]), "unequal lengths accepted", key="len")
    c.raises(ValueError, lambda: P.Sed(wavelen=w, flambda=fl[:-1]), "unequal lengths accepted", key="len")
    c.raises(ValueError, lambda: P.Sed().set_sed(list(w), flambda=fl), "list accepted as wavelengths", key="len")
    for kw in (dict(flambda=fl.copy()), dict(fnu=fn.copy())):
        ww = w.copy()
        x = P.Sed(wavelen=ww, **kw)
        ref = x.flambda.copy()
        ww += 3
        for v in kw.values():
            v *= 7
        c.expect(np.array_equal(x.flambda, ref) and np.array_equal(x.wavelen, w), "spectrum follows later edits of the caller's arrays", key="alias")
        c.close(x.get_sed_fnu()[1], fn, "fnu follows later edits of the caller's arrays", rtol=1e-5, key="alias")
    sb = bp.sb.copy()
    b3 = P.Bandpass(bp.wavelen, sb)
    sb *= 2
    c.expect(np.array_equal(b3.sb, bp.sb), "bandpass follows later edits of the caller's array", key="alias")
    # equality
    c.expect(P.Sed(wavelen=w, flambda=fl) == P.Sed(wavelen=w, flambda=fl), "equal spectra differ", key="eq")
    f3 = fl.copy()
    f3[c.randint(0, len(f3) - 1)] *= 1.01
    c.expect(P.Sed(wavelen=w, flambda=fl) != P.Sed(wavelen=w, flambda=f3), "different spectra equal", key="eq")
    y = P.Sed(wavelen=w, flambda=fl)
    flat = P.Bandpass(w, np.ones(len(w)))
    m1 = y.calc_mag(flat)
    y.clear_sed()
    y.set_sed(w, flambda=fl)
    c.close(y.calc_mag(flat), m1, "magnitude after clearing and setting again", rtol=0, atol=1e-9, key="clear")
    # imsim normalisation
    n = get_imsim_flux_norm(P.Sed(wavelen=w, flambda=fl), 22.0)
    lam = 500.0
    c.close(-2.5 * math.log10(np.interp(lam, w, fn) * n / AB), 22.0, "imsim normalisation", rtol=0, atol=2e-2, key="imsim")


@check.scenario(40, 100)
def dust_values(c):
    """Extinction per band from DustValues equals the direct computation; standard bandpasses load."""
    bps = P.rubin_bandpasses()
    c.expect(sorted(bps) == sorted("ugrizy"), f"bands {sorted(bps)}", key="bands")
    rv, ebv = c.choice([3.1, c.uniform(2.5, 5)]), c.choice([1.0, c.uniform(0.1, 2)])
    d = P.DustValues(r_v=rv, bandpass_dict=None if c.flip() else bps, ref_ebv=ebv)
    for b, bp in bps.items():
        w = np.arange(bp.wavelen.min(), bp.wavelen.max() + 0.5, 1.0)
        a, bb = dust_ab("ccm", w)
        fl = 1 / w ** 2
        fd = fl * 10 ** (-0.4 * (a + bb / rv) * rv * ebv)
        want = P.Sed(wavelen=w, flambda=fd).calc_mag(bp, fill=0) - P.Sed(wavelen=w, flambda=fl).calc_mag(bp, fill=0)
        c.obs("ax", (b, rv == 3.1, ebv == 1.0))
        if np.isfinite(d.ax1[b]):
            c.close(d.ax1[b], want, f"extinction in {b}", rtol=5e-3, atol=1e-3, key="ax1")
        c.expect(d.r_x[b] == d.ax1[b] or (np.isnan(d.r_x[b]) and np.isnan(d.ax1[b])), "r_x differs from ax1", key="rx")
    order = [d.ax1[b] for b in "ugrizy"]
    if np.all(np.isfinite(order)):
        c.expect(all(x > y > 0 for x, y in zip(order, order[1:])), f"extinction not decreasing with wavelength {order}", key="ax-order")


@check.scenario(10, 40)
def cache(c):
    """The library cache returns the same spectra as the files, when built and when loaded again."""
    root = os.path.join(os.environ["RUBIN_SIM_DATA_DIR"], f"lib_{os.getpid()}_{c.index}")
    sub = os.path.join(root, "sims_sed_library", "starSED", "kurucz")
    os.makedirs(sub)
    for d in ("agnSED", "flatSED", "ssmSED", "galaxySED"):
        os.makedirs(os.path.join(root, "sims_sed_library", d))
    want = {}
    for i in range(25):
        w = np.linspace(300, 1100, c.randint(20, 60))
        f = c.uniform(0.1, 1, len(w))
        p = os.path.join(sub, f"k{i}.gz")
        with gzip.open(p, "wt") as g:
            for a, b in zip(w, f):
                g.write(f"{float(a)!r} {float(b)!r}\n")
        want[p] = (w, f)
    old = os.environ["RUBIN_SIM_DATA_DIR"]
    os.environ["RUBIN_SIM_DATA_DIR"] = root
    try:
        for kw in (dict(), dict(), dict(wavelen_min=400.0, wavelen_max=900.0)):
            sedmod._global_lsst_sed_cache = None
            sedmod._global_misc_sed_cache = None
            P.cache_lsst_seds(**kw)
            c.expect(sedmod._global_lsst_sed_cache is not None, "no cache after caching", key="cache-none")
            for p, (w, f) in want.items():
                s = P.Sed()
                s.read_sed_flambda(p)
                m = (w >= kw["wavelen_min"]) & (w <= kw["wavelen_max"]) if kw else np.ones(len(w), bool)
                c.expect(np.array_equal(s.wavelen, w[m]) and np.array_equal(s.flambda, f[m]), f"cached spectrum {os.path.basename(p)} differs {kw}", key="cache")
                c.obs("cached", (bool(kw), len(w)))
    finally:
        os.environ["RUBIN_SIM_DATA_DIR"] = old
        sedmod._global_lsst_sed_cache = None
        sedmod._global_misc_sed_cache = None
