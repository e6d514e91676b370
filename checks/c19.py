"""C19: the sky brightness model."""
import copy
import os
import shutil
import warnings

import healpy as hp
import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline

from vlib.h import Check
from vlib import synth

from astropy import units as u
from astropy.coordinates import AltAz, EarthLocation, SkyCoord, get_body, get_sun
from astropy.time import Time
from rubin_scheduler.utils import Site, _approx_alt_az2_ra_dec, _approx_ra_dec2_alt_az

from rubin_sim.phot_utils import Bandpass, Sed
from rubin_sim.skybrightness import SkyModel
from rubin_sim.skybrightness import interp_components as ic
from rubin_sim.skybrightness import utils as sbu

check = Check(
    "C19",
    "random template grids are written in the layout of the sky data and the model is asked for random points and conditions; every value is compared with a "
    "point-by-point interpolation done here; points alone, shuffled, in other units, with components off, after other requests, and as spectra must agree",
    assumptions=["the sun and moon positions of astropy and the coordinate conversion of rubin_scheduler are trusted", "templates are synthetic, in the layout of the real ones"],
    nproc=4,
    budget=(200, 720),
)

F = list("ugrizy")
LOG = np.log10(3631.0)
COMPS = {"ScatteredStarLight": "scattered_star", "LowerAtm": "lower_atm", "UpperAtm": "upper_atm", "MergedSpec": "merged_spec", "Airglow": "airglow", "Moon": "moon", "Zodiacal": "zodiacal"}
DARK = {"u": 22.8, "g": 22.3, "r": 21.2, "i": 20.3, "z": 19.3, "y": 18.0, "B": 22.35, "G": 21.71, "R": 21.3}
FITS = {
    "B": [7.56765633e00, 2.29798055e01, 2.86879956e-01, 3.01162143e-01], "G": [2.38561156e00, 2.29310648e01, 2.97733083e-01, 3.16403197e-01],
    "R": [1.75498017e00, 2.22011802e01, 2.98619033e-01, 3.28880254e-01], "z": [2.29, 24.08, 0.3, 0.3], "y": [2.0, 24.08, 0.3, 0.3],
    "u": [16.0, 2.29622121e01, 2.85862729e-01, 2.99902574e-01]}
SITE = Site("LSST")
WAVE = 290.0 + 0.1 * np.arange(11001)


def canon():
    return {"B": np.exp(-0.5 * ((WAVE - 455) / 30) ** 2), "G": np.exp(-0.5 * ((WAVE - 545) / 30) ** 2), "R": np.exp(-0.5 * ((WAVE - 640) / 30) ** 2)}


def fixed_files(d):
    """what does not vary: throughputs, solar spectrum, camera filters"""
    synth.throughputs(d)
    os.makedirs(os.path.join(d, "skybrightness", "solarSpec"), exist_ok=True)
    os.makedirs(os.path.join(d, "skybrightness", "Canon"), exist_ok=True)
    np.savez(os.path.join(d, "skybrightness", "solarSpec", "solarSpec.npz"), wave=WAVE, spec=1e-9 * (WAVE / 500.0) ** -1.5)
    for nm, k in (("blue", "B"), ("green", "G"), ("red", "R")):
        with open(os.path.join(d, "skybrightness", "Canon", nm + "_canon.csv"), "w") as fh:
            for w, t in zip(WAVE[::10], canon()[k][::10]):
                fh.write(f"{w:.4f}, {t:.10f}\n")


def setup():
    d = os.environ["RUBIN_SIM_DATA_DIR"]
    fixed_files(d)
    # one set of spectral templates, coarse
    rng = np.random.default_rng(77)
    T = grids(rng, coarse=True)
    world["spec_T"] = T
    world["bands"] = {}
    bw = np.arange(300.0, 1150.0 + 0.05, 0.5)
    eff = []
    for b in F:
        w, t = np.loadtxt(os.path.join(d, "throughputs", "baseline", f"total_{b}.dat")).T
        bp = Bandpass()
        bp.set_bandpass(w, t)
        world["bands"][b] = bp
        eff.append(bp.calc_eff_wavelen()[0])
    world["eff"] = np.array(eff)
    # effective wavelengths of the twilight fits
    ew = []
    names = ["u", "B", "G", "R", "z", "y"]
    for k in names:
        if k in F:
            ew.append(world["bands"][k].calc_eff_wavelen()[0])
        else:
            bp = Bandpass()
            bp.set_bandpass(WAVE, canon()[k])
            ew.append(bp.calc_eff_wavelen()[0])
    par = np.array([FITS[k] for k in names])
    o = np.argsort(ew)
    world["twi"] = {b: [float(InterpolatedUnivariateSpline(np.array(ew)[o], par[o, i])(world["eff"][j])) for i in range(4)] + [10 ** (-0.4 * (DARK[b] - LOG))] for j, b in enumerate(F)}
    # spectra of each component: an amplitude table times one shape, so that bands and spectra commute
    shapes = {}
    for i, comp in enumerate(COMPS):
        shapes[comp] = (WAVE / 550.0) ** (i * 0.7 - 2) * (1 + 0.5 * np.sin(WAVE / (15.0 + 4 * i)))
    world["shapes"] = shapes
    for comp in COMPS:
        s = Sed(wavelen=WAVE, flambda=shapes[comp] * 1e-18)
        base = np.array([s.calc_mag(world["bands"][b]) for b in F])
        a = T[comp]["amp"]
        T[comp]["mags"] = base[None, :] - 2.5 * np.log10(a)[:, None]
        T[comp]["spectra"] = a[:, None] * shapes[comp][None, :] * 1e-18
    write(d, T)
    for comp in COMPS:
        del T[comp]["spectra"]


world = {}


def grids(rng, coarse=False):
    """template grids: dims per component, amplitude per node"""
    T = {}
    am = np.array([1.0, 1.5, 3.0]) if coarse else np.concatenate([[1.0], np.sort(rng.uniform(1.05, 2.9, rng.integers(0, 4))), [3.0]])
    for comp in ("ScatteredStarLight", "LowerAtm", "UpperAtm", "MergedSpec"):
        T[comp] = dict(dims=["airmass", "nightTimes"], axes=[am, np.array([0.0])])
    T["Airglow"] = dict(dims=["airmass", "solarFlux"], axes=[am, np.array([50.0, 130.0, 300.0]) if not coarse else np.array([60.0, 300.0])])
    npix = 192
    alt = np.pi / 2 - hp.pix2ang(4, np.arange(npix))[0]
    ids = np.where(alt > np.radians(-5 if coarse else rng.choice([-5, 0, 5])))[0]
    T["Moon"] = dict(dims=["moonSunSep", "moonAltitude", "hpid"], axes=[np.array([0.0, 90.0, 180.0]) if coarse else np.linspace(0, 180, rng.integers(2, 8)), np.array([-6.0, 30.0, 85.0]) if coarse else np.concatenate([[-6.0], np.sort(rng.uniform(0, 70, rng.integers(0, 4))), [rng.choice([80.0, 90.0])]]), ids.astype(float)])
    zns = 2 if coarse else int(rng.choice([1, 2, 4]))
    T["Zodiacal"] = dict(dims=["airmass", "hpid"], axes=[am, np.arange(12 * zns**2).astype(float)])
    for i, comp in enumerate(COMPS):
        g = np.meshgrid(*T[comp]["axes"], indexing="ij")
        T[comp]["nodes"] = [x.ravel() for x in g]
        n = g[0].size
        T[comp]["amp"] = 10 ** rng.uniform(-1, 1, n)
        T[comp]["mags"] = rng.uniform(18, 25, (n, 6))
    return T


def write(d, T, eff=None):
    for comp in COMPS:
        p = os.path.join(d, "skybrightness", "ESO_Spectra", comp)
        os.makedirs(p, exist_ok=True)
        t = T[comp]
        n = len(t["nodes"][0])
        sp = t.get("spectra", np.zeros((n, 2)))
        dt = [(k, "<f8") if k != "hpid" else (k, "<i8") for k in t["dims"]] + [("spectra", "<f8", (sp.shape[1],)), ("mags", "<f8", (6,))]
        a = np.zeros(n, dtype=dt)
        for k, v in zip(t["dims"], t["nodes"]):
            a[k] = v
        a["spectra"], a["mags"] = sp, t["mags"]
        parts = [a]
        if comp == "Moon" and len(t["axes"][0]) > 2:
            cut = t["axes"][0][len(t["axes"][0]) // 2]
            parts = [a[a["moonSunSep"] < cut], a[a["moonSunSep"] >= cut]]
        for i, q in enumerate(parts):
            np.savez(os.path.join(p, f"{comp.lower()}_{i}.npz"), wave=WAVE if sp.shape[1] > 2 else np.array([300.0, 400.0]), filterWave=world["eff"], spec=q)


check.setup_fn = setup
_base = {}


def small_models(c):
    """mags models over freshly drawn templates"""
    seed = c.randint(0, 40)
    if _base.get("seed") != seed:
        d = os.path.join(c.scratch, "sky")
        shared = os.environ["RUBIN_SIM_DATA_DIR"]
        os.makedirs(os.path.join(d, "skybrightness"))
        os.symlink(os.path.join(shared, "throughputs"), os.path.join(d, "throughputs"))
        for k in ("solarSpec", "Canon"):
            os.symlink(os.path.join(shared, "skybrightness", k), os.path.join(d, "skybrightness", k))
        T = grids(np.random.default_rng(seed))
        write(d, T)
        os.environ["RUBIN_SIM_DATA_DIR"] = d
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m = SkyModel(mags=True, lower_atm=True, upper_atm=True, scattered_star=True)
        finally:
            os.environ["RUBIN_SIM_DATA_DIR"] = shared
        _base["seed"] = seed
        _base["small"] = (T, m)
        shutil.rmtree(d)
    return _base["small"]


def spec_model():
    if "spec" not in _base:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _base["spec"] = SkyModel(mags=False, lower_atm=True, upper_atm=True, scattered_star=True)
            _base["specmag"] = SkyModel(mags=True, lower_atm=True, upper_atm=True, scattered_star=True)
    return _base["spec"], _base["specmag"]


def fresh(m, on, limit):
    """an unused model (templates shared) with the given components"""
    m = copy.copy(m)
    for k in COMPS.values():
        setattr(m, k, k in on)
    m.twilight = "twilight" in on
    m.airmass_limit = limit
    return m


def lin(x, grid):
    """[(index, weight)] of linear interpolation, edges held"""
    if x >= grid[-1]:
        return [(len(grid) - 1, 1.0)]
    if x <= grid[0]:
        return [(0, 1.0)]
    i = int(np.searchsorted(grid, x, side="right"))
    w = (x - grid[i - 1]) / (grid[i] - grid[i - 1])
    return [(i - 1, 1 - w), (i, w)]


def component(T, comp, p, values):
    """interpolated values (log space) of one component at the point p, or None for nothing"""
    t = T[comp]
    ax = t["axes"]
    if comp in ("ScatteredStarLight", "LowerAtm", "UpperAtm", "MergedSpec"):
        return sum(w * values[i] for i, w in lin(p["airmass"], ax[0]))
    if comp == "Airglow":
        if not ax[1][0] <= p["solar_flux"] <= ax[1][-1]:
            return None
        return sum(w * v * values[i * len(ax[1]) + j] for i, w in lin(p["airmass"], ax[0]) for j, v in lin(p["solar_flux"], ax[1]))
    if comp == "Zodiacal":
        pix, wt = hp.get_interp_weights(hp.npix2nside(len(ax[1])), np.pi / 2 - p["altEclip"], p["azEclipRelSun"])
        return sum(w * v * values[i * len(ax[1]) + int(j)] for i, w in lin(p["airmass"], ax[0]) for j, v in zip(np.ravel(pix), np.ravel(wt)))
    if p["moonAltitude"] < ax[1][0]:
        return None
    pix, wt = hp.get_interp_weights(4, np.pi / 2 - p["alt"], p["azRelMoon"])
    ok = [(int(j), v) for j, v in zip(np.ravel(pix), np.ravel(wt)) if j in ax[2]]
    norm = sum(v for _, v in ok)
    if norm == 0:
        return None
    pos = {int(h): k for k, h in enumerate(ax[2])}
    na, nh = len(ax[1]), len(ax[2])
    return sum(w * x * v / norm * values[(i * na + a) * nh + pos[j]] for i, w in lin(p["moonSunSep"], ax[0]) for a, x in lin(p["moonAltitude"], ax[1]) for j, v in ok)


def twilight(p, band):
    """flux of one point"""
    if p["sunAlt"] > np.radians(15):
        return np.nan
    if p["sunAlt"] < np.radians(-20) or p["airmass"] > 3.0:
        return 0.0
    r, a, b, cz, dark = world["twi"][band]
    f = r * dark * 10 ** (a * (p["sunAlt"] + np.radians(12.0)) + b * (p["airmass"] - 1))
    az = p["azRelSun"]
    if p["airmass"] > 1.0 and (az < np.pi / 2 or az > 3 * np.pi / 2):
        f *= 10 ** (cz * np.cos(az) * (p["airmass"] - 1))
    return f


def flux(T, p, on, j):
    """summed flux of one point in band number j"""
    tot = 0.0
    for comp, key in COMPS.items():
        if key in on:
            v = component(T, comp, p, T[comp]["mags"][:, j])
            if v is not None:
                tot += 10 ** (-0.4 * (v - LOG))
    if "twilight" in on:
        tot += twilight(p, F[j])
    return tot


def conditions(c, n):
    """dict of set_params arguments in degrees; arrays or scalars"""
    def some(lo, hi, special=()):
        if c.flip(0.5):
            return c.choice([c.uniform(lo, hi)] + list(special))
        a = c.uniform(lo, hi, n)
        if special and c.flip(0.4):
            a[c.randint(0, n - 1)] = c.choice(list(special))
        return a
    k = {}
    if c.flip(0.5):
        k["airmass"] = c.choice([c.uniform(1, 3.6, n), c.uniform(1, 1.8, n), np.array([c.choice([1.0, 1.5, 2.0, 2.5, 3.0]) for _ in range(n)])])
    else:
        k["alts"] = c.choice([c.uniform(5, 90, n), c.uniform(-20, 90, n), c.uniform(30, 90, n)])
    k["azs"] = c.choice([c.uniform(0, 360, n), c.uniform(-180, 180, n), np.full(n, 90.0)])
    k["moon_phase"] = some(0, 100, (0, 50, 100))
    k["moon_alt"] = some(-30, 90, (-6.0, -6.001, 0.0))
    k["moon_az"] = c.uniform(0, 360, n) if np.ndim(k["moon_alt"]) else c.uniform(0, 360)
    k["sun_alt"] = some(-60, -8, (-20.0, -12.0, 10.0, 16.0)) if c.flip(0.5) else some(-60, -8, (-20.0, -12.0))
    k["sun_az"] = some(0, 360)
    k["sun_eclip_lon"] = some(0, 360)
    k["eclip_lon"] = c.uniform(0, 360, n)
    k["eclip_lat"] = c.uniform(-90, 90, n)
    k["solar_flux"] = c.choice([130.0, 50.0, c.uniform(60, 290), 400.0])
    return k


ANG = {"alts", "azs", "moon_alt", "moon_az", "sun_alt", "sun_az", "sun_eclip_lon", "eclip_lon", "eclip_lat"}


def pick(k, idx, scalar=False):
    out = {}
    for q, v in k.items():
        if np.ndim(v) == 0:
            out[q] = v
        else:
            out[q] = float(v[idx[0]]) if scalar else v[idx]
    return out


def point(k, i):
    g = {q: (v[i] if np.ndim(v) else v) for q, v in k.items()}
    r = np.radians
    p = {}
    if "alts" in g:
        s = np.sin(r(g["alts"]))
        p["alt"] = r(g["alts"])
        p["airmass"] = 1 / np.cos(np.pi / 2 - p["alt"]) if s != 0 else np.inf
    else:
        p["airmass"] = g["airmass"]
        p["alt"] = np.arcsin(1 / g["airmass"])
    d = (r(g["azs"]) - r(g["moon_az"])) % (2 * np.pi)
    p["azRelMoon"] = min(d, 2 * np.pi - d)
    p["azRelSun"] = (r(g["azs"]) - r(g["sun_az"])) % (2 * np.pi)
    p["sunAlt"] = r(g["sun_alt"])
    p["moonAltitude"] = g["moon_alt"]
    p["moonSunSep"] = g["moon_phase"] * 1.8
    p["altEclip"] = r(g["eclip_lat"])
    p["azEclipRelSun"] = (r(g["eclip_lon"]) - r(g["sun_eclip_lon"])) % (2 * np.pi)
    p["solar_flux"] = g["solar_flux"]
    return p


def near_edge(p, T):
    """conditions at a switch: not judged within rounding"""
    e = 1e-9
    return (abs(p["sunAlt"] - np.radians(15)) < e or abs(p["sunAlt"] + np.radians(20)) < e or abs(p["moonAltitude"] - T["Moon"]["axes"][1][0]) < 1e-7
            or abs(np.cos(p["azRelSun"])) < 1e-9)


def set_params(m, c, k, filters, deg=None):
    deg = c.flip(0.6) if deg is None else deg
    kk = {q: (np.radians(v) if (q in ANG and not deg) else v) for q, v in k.items()}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.set_params(degrees=deg, filter_names=list(filters), **kk)


def mags_of(m):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return m.return_mags()


def compare(c, got, T, pts, on, limit, filters, what):
    c.expect(sorted(got) == sorted(filters), f"{what}: filters {sorted(got)} for {filters}", key="filters")
    nval = 0
    for b in filters:
        c.expect(np.shape(got[b]) == (len(pts),), f"{what}: {np.shape(got[b])} values for {len(pts)} points", key="shape")
        for i, p in enumerate(pts):
            x = p["airmass"]
            g = got[b][i]
            if abs(x - limit) < 1e-9 or (x < 1 and x > 1 - 1e-9):
                continue
            if not 1.0 <= x <= limit:
                c.expect(np.isnan(g), f"{what}: point at airmass {x} beyond {limit} has {g}", key="beyond-limit")
                continue
            if near_edge(p, T):
                continue
            f = flux(T, p, on, F.index(b))
            with np.errstate(all="ignore"):
                w = -2.5 * np.log10(f) + LOG
            okv = (np.isnan(w) and np.isnan(g)) or g == w or abs(g - w) < 2e-4
            c.expect(okv, f"{what}: {b} at {p} is {g}, interpolated {w}; components {sorted(on)}, limit {limit}", key="value")
            nval += 1
    c.obs("value", (tuple(sorted(on)), limit > 2.5), nval)
    return nval


def components(c):
    allc = list(COMPS.values()) + ["twilight"]
    kind = c.choice(["default", "single", "random", "random", "all"])
    if kind == "default":
        return {"moon", "zodiacal", "airglow", "merged_spec", "twilight"}
    if kind == "single":
        return {c.choice(allc)}
    if kind == "all":
        return set(allc)
    s = {x for x in allc if c.flip(0.5)}
    return s or {"airglow"}


def some_filters(c):
    return F if c.flip(0.5) else list(c.rng.permutation(F)[: c.randint(1, 6)])


@check.scenario(400, 2500)
def params(c):
    """conditions given; a history of requests on one model"""
    T, base = small_models(c)
    on = components(c)
    limit = c.choice([3.0, 3.0, 2.5, 2.0, 1.5, c.uniform(1.2, 3)])
    m = fresh(base, on, limit)
    for step in range(c.randint(1, 4)):
        if step and c.flip(0.4):
            on = components(c)
            for k in list(COMPS.values()) + ["twilight"]:
                setattr(m, k, k in on)
        n = c.randint(1, 8)
        k = conditions(c, n)
        keep = {q: np.copy(v) for q, v in k.items()}
        filters = some_filters(c)
        if n == 1 and c.flip(0.6):
            k = pick(k, [0], scalar=True)
            keep = dict(k)
        set_params(m, c, k, filters)
        for q in k:
            c.expect(np.array_equal(k[q], keep[q]), f"argument {q} was changed", key="input-changed")
        pts = [point(k, i) for i in range(n)]
        got = mags_of(m)
        compare(c, got, T, pts, on, limit, filters, f"request {step}")
        again = mags_of(m)
        c.expect(all(np.array_equal(got[b], again[b], equal_nan=True) for b in filters), "asking twice gives two answers", key="twice")
        if n > 1:
            # alone / shuffled, with the same model
            if c.flip(0.5):
                i = c.randint(0, n - 1)
                set_params(m, c, pick(k, [i], scalar=c.flip(0.5)), filters)
                one = mags_of(m)
                for b in filters:
                    c.expect(np.allclose(one[b][0], got[b][i], rtol=0, atol=1e-7, equal_nan=True), f"point alone: {b} {one[b][0]}, among others {got[b][i]} at {pts[i]}", key="alone")
            else:
                o = c.rng.permutation(n)
                set_params(m, c, pick(k, o), filters)
                sh = mags_of(m)
                for b in filters:
                    c.expect(np.allclose(sh[b], got[b][o], rtol=0, atol=1e-7, equal_nan=True), f"shuffled points: {b} {sh[b]}, before {got[b][o]}", key="shuffled")
        c.obs("request", (n, step, limit > 2.5, len(filters) == 6, len(on)))


def ephem(mjd):
    key = ("e", mjd)
    t = Time(mjd, format="mjd")
    loc = EarthLocation(lat=SITE.latitude_rad * u.rad, lon=SITE.longitude_rad * u.rad, height=SITE.height * u.m)
    aa = AltAz(location=loc, obstime=t)
    sun, moon = get_sun(t), get_body("moon", t)
    s, mo = sun.transform_to(aa), moon.transform_to(aa)
    return dict(sun_alt=s.alt.deg, sun_az=s.az.deg, moon_alt=mo.alt.deg, moon_az=mo.az.deg, moon_phase=sun.separation(moon).deg / 1.8, sun_eclip_lon=sun.geocentricmeanecliptic.lon.deg)


def night(c):
    """a time of night (sun below -8 degrees)"""
    for _ in range(40):
        mjd = 60000 + c.uniform(0, 400)
        e = ephem(mjd)
        if e["sun_alt"] < -8:
            return mjd, e
    return None, None


@check.scenario(80, 600)
def sky(c):
    """places on the sky at a time"""
    T, base = small_models(c)
    on = components(c)
    limit = c.choice([3.0, 3.0, 2.5, 2.0])
    m = fresh(base, on, limit)
    for step in range(c.randint(1, 2)):
        mjd, e = night(c)
        if mjd is None:
            return
        n = c.randint(1, 10)
        alt, az = c.choice([c.uniform(2, 90, n), c.uniform(-30, 90, n), c.uniform(40, 88, n)]), c.uniform(0, 360, n)
        route = c.choice(["azalt", "radec", "both"])
        deg = c.flip(0.5)
        cv = (lambda x: x) if deg else np.radians
        scalar = n == 1 and c.flip(0.6)
        form = c.choice(["array", "list"]) if not scalar else c.choice(["float", "npfloat"])

        def wrap(x):
            x = cv(np.asarray(x, float))
            return {"array": x, "list": list(x), "float": float(x[0]), "npfloat": np.float64(x[0])}[form]
        filters = some_filters(c)
        ra, dec = _approx_alt_az2_ra_dec(np.radians(alt), np.radians(az), SITE.latitude_rad, SITE.longitude_rad, mjd)
        if route == "radec":
            a2, z2 = _approx_ra_dec2_alt_az(ra, dec, SITE.latitude_rad, SITE.longitude_rad, mjd)
            alt, az = np.degrees(np.atleast_1d(a2)), np.degrees(np.atleast_1d(z2))
        if route == "both" and c.flip(0.5):
            ra, dec = np.radians(c.uniform(0, 360, n)), np.radians(c.uniform(-89, 89, n))  # the given coordinates count
        ra, dec = np.atleast_1d(ra), np.atleast_1d(dec)
        ecl = SkyCoord(ra=ra * u.rad, dec=dec * u.rad).geocentricmeanecliptic
        sf = c.choice([130.0, c.uniform(60, 290)])
        k = dict(e, alts=alt, azs=az, eclip_lon=ecl.lon.deg, eclip_lat=ecl.lat.deg, solar_flux=sf)
        pts = [point(k, i) for i in range(n)]
        ok = [1.0 <= p["airmass"] <= limit for p in pts]

        def ask():
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if route == "azalt":
                    m.set_ra_dec_mjd(wrap(az), wrap(alt), mjd, degrees=deg, az_alt=True, solar_flux=sf, filter_names=filters)
                elif route == "radec":
                    m.set_ra_dec_mjd(wrap(np.degrees(ra)), wrap(np.degrees(dec)), mjd, degrees=deg, solar_flux=sf, filter_names=filters)
                else:
                    m.set_ra_dec_alt_az_mjd(wrap(np.degrees(ra)), wrap(np.degrees(dec)), wrap(alt), wrap(az), mjd, degrees=deg, solar_flux=sf, filter_names=filters)
        if not any(ok):
            c.raises(ValueError, ask, "no point within the airmass limit", key="no-valid-points")
            c.obs("no-point", (route,))
            continue
        ask()
        compare(c, mags_of(m), T, pts, on, limit, filters, f"{route} at {mjd:.4f}")
        v = m.get_computed_vals()
        c.close(v["alts"], np.radians(alt), "altitudes", rtol=0, atol=1e-7, key="computed")
        c.close(v["airmass"], [p["airmass"] for p in pts], "airmass", rtol=1e-6, atol=0, key="computed")
        c.close(v["sun_alt"], np.radians(e["sun_alt"]), "sun altitude", rtol=0, atol=1e-7, key="computed")
        if "moon" in on:
            c.close(v["moon_alt"], np.radians(e["moon_alt"]), "moon altitude", rtol=0, atol=1e-7, key="computed")
            c.close(v["moon_phase"], e["moon_phase"], "moon phase", rtol=0, atol=1e-6, key="computed")
        c.obs("sky", (route, deg, form, limit > 2.5, all(ok)))


@check.scenario(60, 400)
def spectra(c):
    """spectra: their values, their magnitudes, and the magnitudes model agree"""
    bs, bm = spec_model()
    T = world["spec_T"]
    on = components(c)
    limit = c.choice([3.0, 3.0, 2.5, 2.0])
    m, q = fresh(bs, on, limit), fresh(bm, on, limit)
    for step in range(c.randint(1, 2)):
        n = c.randint(1, 5)
        k = conditions(c, n)
        if n == 1 and c.flip(0.5):
            k = pick(k, [0], scalar=True)
        k["solar_flux"] = c.choice([130.0, 60.0, 250.0])
        if not any(1 <= point(k, i)["airmass"] < limit for i in range(n)):
            continue
        set_params(m, c, k, F)
        pts = [point(k, i) for i in range(n)]
        w, s = m.return_wave_spec()
        c.expect(np.array_equal(w, WAVE) and s.shape == (n, len(WAVE)), f"wavelengths {w[:2]}..., spectra {s.shape}", key="shape")
        tw = {}
        if "twilight" in on:
            t = fresh(bs, {"twilight"}, limit)
            set_params(t, c, k, F)
            tw = t.return_wave_spec()[1]
        for i, p in enumerate(pts):
            if abs(p["airmass"] - limit) < 1e-9:
                continue
            if not 1.0 <= p["airmass"] <= limit:
                c.expect(np.all(np.isnan(s[i])), f"point at airmass {p['airmass']} beyond {limit} has a spectrum", key="beyond-limit")
                continue
            if near_edge(p, T):
                continue
            want = np.zeros(len(WAVE))
            for comp, key in COMPS.items():
                if key in on:
                    v = component(T, comp, p, np.log10(T[comp]["amp"]))
                    if v is not None:
                        want += 10**v * world["shapes"][comp] * 1e-18
            if "twilight" in on:
                if p["sunAlt"] > np.radians(15):
                    c.expect(np.all(np.isnan(tw[i])), f"twilight with the sun at {p['sunAlt']} rad", key="twilight")
                elif p["sunAlt"] < np.radians(-20):
                    c.expect(np.all(tw[i] == 0), f"twilight with the sun at {p['sunAlt']} rad", key="twilight")
                else:
                    c.expect(np.all(tw[i] >= 0) and tw[i].max() > 0, f"twilight spectrum between {tw[i].min()} and {tw[i].max()} with the sun at {np.degrees(p['sunAlt'])}", key="twilight")
                want = want + tw[i]
            c.expect(np.allclose(s[i], want, rtol=1e-5, atol=1e-25, equal_nan=True), f"spectrum at {p}: ratio {np.nanmin(s[i] / want)}..{np.nanmax(s[i] / want)}; components {sorted(on)}", key="spectrum")
            c.obs("spectrum", (tuple(sorted(on)),))
        if "twilight" not in on:
            filters = some_filters(c)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                g = m.return_mags(bandpasses={b: world["bands"][b] for b in filters})
            set_params(q, c, k, filters)
            h = mags_of(q)
            for b in filters:
                for i, p in enumerate(pts):
                    if near_edge(p, T) or abs(p["airmass"] - limit) < 1e-9:
                        continue
                    if np.isinf(h[b][i]):
                        c.expect(g[b][i] == -666 or np.isinf(g[b][i]), f"no flux, but a magnitude {g[b][i]} from the spectrum", key="consistent")
                    else:
                        c.expect((np.isnan(g[b][i]) and np.isnan(h[b][i])) or abs(g[b][i] - h[b][i]) < 1e-3, f"{b}: from the spectrum {g[b][i]}, from magnitudes {h[b][i]} at {p}, {sorted(on)}", key="consistent")
            c.obs("consistent", (len(filters), n))


@check.scenario(4, 24)
def saved_maps(c):
    """files of sky maps over nights: kept maps are the model's, dropped times are within dm of interpolation"""
    import h5py
    import io
    from contextlib import redirect_stdout

    from rubin_sim.skybrightness.generate_hdf5 import generate_sky
    from rubin_scheduler.utils import hpid2_ra_dec

    nside = c.choice([1, 2])
    mjd0 = 60000.0 + c.randint(0, 300) + c.choice([0.0, 0.2])
    step = c.choice([20.0, 30.0])
    tmax = c.choice([2.5, 3.5]) * step
    dm = c.choice([0.05, 0.2, 0.5])
    lim = c.choice([2.5, 2.0])
    T, base = small_models(c)
    import sys
    import types
    if "rubin_sim.version" not in sys.modules:  # written by the build, absent from a plain checkout
        try:
            import rubin_sim.version  # noqa: F401
        except ImportError:
            sys.modules["rubin_sim.version"] = types.ModuleType("rubin_sim.version")
            sys.modules["rubin_sim.version"].__version__ = "0"
            import rubin_sim
            rubin_sim.version = sys.modules["rubin_sim.version"]
    import rubin_sim.skybrightness as sb
    orig = sb.SkyModel
    sb.SkyModel = lambda mags=True, airmass_limit=3.0: fresh(base, {"moon", "zodiacal", "airglow", "merged_spec", "twilight"}, airmass_limit)
    try:
        with redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            generate_sky(mjd0=mjd0, mjd_max=mjd0 + 0.3, timestep=step, timestep_max=tmax, outpath=c.scratch, nside=nside, dm=dm, airmass_limit=lim, verbose=False)
    finally:
        sb.SkyModel = orig
    files = [f for f in os.listdir(c.scratch) if f.endswith(".h5")]
    c.expect(len(files) == 1, f"files {files}", key="map-file")
    with h5py.File(os.path.join(c.scratch, files[0]), "r") as h:
        mj, sm, tm = h["mjds"][:], h["sky_mags"][:], h["timestep_max"][()]
    c.expect(np.all(np.diff(mj) > 0) and abs(tm - tmax / 1440) < 1e-9 and sm.shape == (len(mj), 12 * nside**2), f"times not increasing or shape {sm.shape}", key="map-file")
    ra, dec = hpid2_ra_dec(nside, np.arange(12 * nside**2))
    m = fresh(base, {"moon", "zodiacal", "airglow", "merged_spec", "twilight"}, lim)
    grid = np.arange(mjd0 - 1, mjd0 + 0.3 + step / 1440 + 1, step / 1440)
    nk = nd = 0
    for t in grid:
        e = ephem(t)
        if abs(e["sun_alt"] + 11.5) < 0.02:
            continue
        hit = np.where(np.abs(mj - t) < 1e-9)[0]
        if e["sun_alt"] > -11.5:
            c.expect(len(hit) == 0, f"a map at sun altitude {e['sun_alt']}", key="map-times")
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.set_ra_dec_mjd(ra, dec, t, degrees=True)
        want = mags_of(m)
        if len(hit):
            nk += 1
            for b in F:
                c.expect(np.allclose(sm[b][hit[0]], want[b], rtol=0, atol=1e-6, equal_nan=True), f"map at {t} in {b} is not the model's", key="map-values")
        else:
            nd += 1
            i = np.searchsorted(mj, t)
            c.expect(0 < i < len(mj) and mj[i] - mj[i - 1] < tmax / 1440 + 1e-9, f"no maps around the dropped time {t}", key="map-dropped")
            wt = (t - mj[i - 1]) / (mj[i] - mj[i - 1])
            for b in F:
                x = (1 - wt) * sm[b][i - 1] + wt * sm[b][i]
                d = np.abs(x - want[b])
                c.expect(not np.any(d[~np.isnan(d)] > dm + 1e-6), f"dropped map at {t} in {b} is {np.nanmax(d)} off, allowed {dm}", key="map-dropped")
    c.expect(nk >= 4, f"only {nk} maps checked", key="map-times")
    c.obs("maps", (nk, nd))


@check.scenario(60, 600)
def helpers(c):
    """identifier compression, recalculated magnitudes of templates"""
    n = c.randint(1, 60)
    ids = c.rng.integers(0, c.choice([3, 50, 10**6]), n)
    a, b, d = ic.id2intid(ids)
    c.expect(np.array_equal(b[a], ids) and np.array_equal(b, np.unique(ids)) and np.array_equal(d, np.arange(len(b))), f"compressed identifiers {a} of {ids}", key="ids")
    c.expect(np.array_equal(ic.intid2id(a, d, b), ids), "identifiers do not come back", key="ids")
    if c.index % 6 == 0:
        d = os.path.join(c.scratch, "d")
        comp = c.choice(list(COMPS))
        p = os.path.join(d, "skybrightness", "ESO_Spectra", comp)
        os.makedirs(p)
        w = np.arange(300.0, 1150.1, 1.0)
        k = c.randint(1, 4)
        sp = np.zeros(k, dtype=[("airmass", float), ("nightTimes", float), ("spectra", float, (len(w),)), ("mags", float, (6,))])
        sp["airmass"] = 1 + np.arange(k) * 0.5
        sp["spectra"] = 1e-17 * (w[None, :] / 600.0) ** c.uniform(-3, 1, k)[:, None]
        f = os.path.join(p, "t.npz")
        np.savez(f, wave=w, filterWave=np.zeros(6), spec=sp)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sbu.recalc_mags(d)
        with np.load(f) as z:
            new, w2, fw = z["spec"], z["wave"], z["filterWave"]
        c.expect(np.array_equal(new["spectra"], sp["spectra"]) and np.array_equal(w2, w) and np.array_equal(new["airmass"], sp["airmass"]), "recalculating magnitudes changed the spectra", key="recalc")
        c.close(fw, world["eff"], "effective wavelengths", rtol=1e-6, atol=0, key="recalc")
        for i in range(k):
            for j, bnd in enumerate(F):
                wl, t = np.loadtxt(os.path.join(os.environ["RUBIN_SIM_DATA_DIR"], "throughputs", "baseline", f"total_{bnd}.dat")).T
                fnu = np.interp(wl, w, sp["spectra"][i]) * wl**2
                want = -2.5 * np.log10(np.sum(fnu * t / wl) / np.sum(t / wl) * 1e7 / 2.99792458e8 / 1e9 * 1e16) - 8.9 + 2.5 * 0
                got = new["mags"][i][j]
                world.setdefault("zp", None)
                if j == 0:
                    off = got - want
                c.expect(abs(got - want - off) < 5e-3, f"magnitude in {bnd} is {got}, relative to u wanted {want + off}", key="recalc")
        c.obs("recalc", (comp, k))
    c.obs("ids", (n > 10, len(b)))
