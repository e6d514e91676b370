"""C21: satellite constellations against direct propagation and geometry."""
import inspect
import types

import numpy as np

from vlib.h import Check
from vlib.synth import angsep

check = Check(
    "C21",
    "generated element sets propagate to the stated orbits; positions, illumination, altitude cuts, streak lengths and counts equal a direct per-satellite evaluation for any pointing list",
    assumptions=[
        "sgp4 and skyfield propagate element sets correctly",
        "the solar ephemeris file is absent: the Sun is a generated fixed direction",
    ],
    nproc=4,
    budget=(200, 720),
)

AU_M = 149597870700.0
ERAD = 6378136.6
SUN = {"v": np.array([1.0, 0.0, 0.0])}


class _Vec:
    def __sub__(self, other):
        return self

    def at(self, t):
        v = SUN["v"] * AU_M
        if np.ndim(t.tt) > 0:
            v = np.repeat(v[:, None], np.size(t.tt), axis=1)
        return types.SimpleNamespace(xyz=types.SimpleNamespace(m=v))


class _Eph:
    def __getitem__(self, k):
        return _Vec()


def setup():
    import skyfield.iokit

    skyfield.iokit.Loader.__call__ = lambda self, *a, **k: _Eph()


check.setup_fn = setup


def mod():
    import rubin_sim.satellite_constellations.sat_utils as su

    return su


def rand_sun(c):
    v = c.rng.normal(size=3)
    v[2] *= 0.3
    SUN["v"] = v / np.linalg.norm(v)


def chk(line):
    return sum(int(ch) if ch.isdigit() else (ch == "-") for ch in line[:68]) % 10


def parse(tle):
    name, l1, l2 = tle.split("\n")
    return name, l1, l2


def valid(c, tles, name):
    from sgp4.api import Satrec

    nums = []
    sats = []
    for t in tles:
        nm, l1, l2 = parse(t)
        c.expect(nm.startswith(name), f"name {nm!r} does not start with {name!r}", key="tle-name")
        for n, ln in ((1, l1), (2, l2)):
            c.expect(len(ln) == 69 and ln[0] == str(n), f"bad element line {ln!r}", key="tle-format")
            c.expect(int(ln[68]) == chk(ln), f"bad checksum in {ln!r}", key="tle-checksum")
        c.expect(l1[2:7] == l2[2:7], "satellite numbers of the two lines differ", key="tle-number")
        nums.append(l1[2:7])
        sats.append(Satrec.twoline2rv(l1, l2))
    c.expect(len(set(nums)) == len(nums), "satellite numbers repeat", key="tle-number")
    return sats


def modeq(a, b, period, tol):
    d = np.abs((np.asarray(a) - b + period / 2) % period - period / 2)
    return np.all(d < tol)


def rand_shells(c, nmax=3, pmax=6, smax=8):
    import astropy.units as u

    n = c.randint(1, nmax)
    alt = c.uniform(330, 1500, n)
    inc = c.uniform(20, 140, n)
    npl = np.array([c.randint(1, pmax) for _ in range(n)])
    spp = np.array([c.randint(1, smax) for _ in range(n)])
    return alt, inc, npl, spp, u


@check.scenario(60, 400)
def generate(c):
    su = mod()
    alt, inc, npl, spp, u = rand_shells(c, 4, 12, 12)
    epoch = round(float(c.choice([23274.0, 24001.5, 25365.25, 20180.125])), 8)
    seed = c.randint(0, 10**6)
    kw = {}
    if c.flip():
        kw["epoch"] = epoch
    else:
        epoch = 23274.0
    alts = alt * u.km if c.flip() else (alt * u.km).to(u.m)
    incs = inc * u.deg if c.flip() else (inc * u.deg).to(u.rad)
    tles = su.create_constellation(alts, incs, npl, spp, name="Zed", seed=seed, **kw)
    again = su.create_constellation(alts, incs, npl, spp, name="Zed", seed=seed, **kw)
    c.same(list(tles), list(again), "the constellation of one seed", key="gen-repeat")
    c.expect(len(tles) == int(np.sum(npl * spp)), f"{len(tles)} satellites instead of {np.sum(npl*spp)}", key="gen-count")
    sats = valid(c, tles, "Zed")
    c.obs("shell", (len(npl), int(np.sum(npl * spp))))
    i = 0
    jd = None
    for a, ic, n, s in zip(alt, inc, npl, spp):
        grp = sats[i : i + n * s]
        i += n * s
        mu = 3.986004e14
        r = 6378100.0 + a * 1000
        nm = np.sqrt(mu / r**3) * 60  # rad/min
        c.close([x.no_kozai for x in grp], np.full(n * s, nm), "mean motion", rtol=2e-6, key="gen-motion")
        c.close(np.degrees([x.inclo for x in grp]), np.full(n * s, ic), "inclination", atol=2e-4, key="gen-incl")
        c.expect(max(x.ecco for x in grp) < 2e-3, "orbits are not near circular", key="gen-ecc")
        raan = np.degrees([x.nodeo for x in grp])
        ma = np.degrees([x.mo for x in grp])
        if s > 1:
            want = np.arange(n) * 360.0 / n
            # planes evenly spread, satellites evenly spread in each
            used = np.zeros(n, dtype=int)
            for k in range(n):
                sel = np.abs((raan - raan[0] - want[k] + 180) % 360 - 180) < 2e-3
                used[k] = sel.sum()
                m = np.sort(ma[sel] % 360)
                if sel.sum() == s:
                    gaps = np.diff(np.concatenate([m, [m[0] + 360]]))
                    c.close(gaps, np.full(s, 360.0 / s), "spacing in a plane", atol=2e-3, key="gen-spacing")
            c.same(used.tolist(), [int(s)] * int(n), "satellites per evenly spread plane", key="gen-planes")
        elif n >= 6:
            c.expect(np.unique(np.round(raan, 2)).size > n // 2, "single satellites share a plane", key="gen-single")
            c.expect(np.unique(np.round(ma, 2)).size > n // 2, "single satellites share an anomaly", key="gen-single")
        for x in grp[:: max(1, len(grp) // 4)]:
            yr = int(epoch // 1000)
            from astropy.time import Time

            jd = Time(f"20{yr:02d}-01-01T00:00:00", scale="utc").jd + (epoch % 1000) - 1
            c.close(x.jdsatepoch + x.jdsatepochF, jd, "epoch", atol=2e-8, rtol=0, key="gen-epoch")
            for dtm in (0.0, 0.2, 1.7):
                e, p, v = x.sgp4(jd, dtm)
                c.expect(e == 0, f"propagation error {e}", key="gen-propagate")
                p, v = np.array(p), np.array(v)
                hgt = np.linalg.norm(p) - 6378.1
                c.expect(abs(hgt - a) < 40, f"orbit at {hgt:.1f} km instead of {a:.1f}", key="gen-alt")
                h = np.cross(p, v)
                got = np.degrees(np.arccos(h[2] / np.linalg.norm(h)))
                c.expect(abs(got - ic) < 0.2, f"orbit inclined by {got} instead of {ic}", key="gen-incl")
    if np.any(spp > 0) and int(np.sum(npl * spp)) > 2:
        other = su.create_constellation(alts, incs, npl, spp, name="Zed", seed=seed + 1, **kw)
        c.expect(list(other) != list(tles), "two seeds give the same constellation", key="gen-seed")


@check.scenario(3, 3)
def named(c):
    su = mod()
    f, n, shells = [
        (su.starlink_tles_v1, 4408, [(550, 53), (540, 53.2), (570, 70), (560, 97.6)]),
        (su.starlink_tles_v2, 29988, [(340, 53), (345, 46), (350, 38), (360, 96.9), (525, 53), (530, 43), (535, 33), (604, 148), (614, 115.7)]),
        (su.oneweb_tles, 6372, [(1200, 87.9), (1200, 40), (1200, 55)]),
    ][c.index % 3]
    t = f()
    c.expect(len(t) == n, f"{len(t)} satellites instead of the documented {n}", key="named-count")
    sats = valid(c, t, t[0].split(" ")[0])
    got = set()
    for s in sats:
        a = (3.986004e14 / (s.no_kozai / 60) ** 2) ** (1 / 3) / 1e3 - 6378.1
        got.add((int(round(a)), round(float(np.degrees(s.inclo)), 1)))
    c.expect(got == set((a, float(i)) for a, i in shells), f"shells {sorted(got)}", key="named-shells")
    c.obs("named", f.__name__, n)


# ------------------------------------------------------------- propagation
def site():
    from rubin_scheduler.utils import Site

    s = Site(name="LSST")
    return np.radians(s.latitude), np.radians(s.longitude), s.height


def gmst(jd_ut1):
    t = (jd_ut1 - 2451545.0) / 36525.0
    s = 67310.54841 + (876600 * 3600 + 8640184.812866) * t + 0.093104 * t**2 - 6.2e-6 * t**3
    return np.radians((s % 86400) / 240.0)


def own_altaz(line1, line2, mjd):
    """Altitude/azimuth from the element set by plain rotation (no nutation)."""
    from sgp4.api import Satrec

    s = Satrec.twoline2rv(line1, line2)
    lat, lon, h = site()
    jd = mjd + 2400000.5
    # utc and ut1 differ by less than a second
    e, p, v = s.sgp4(2400000.5, mjd)
    p = np.array(p)
    g = gmst(jd)
    x = np.array([p[0] * np.cos(g) + p[1] * np.sin(g), -p[0] * np.sin(g) + p[1] * np.cos(g), p[2]])
    a, f = 6378.137, 1 / 298.257223563
    e2 = f * (2 - f)
    N = a / np.sqrt(1 - e2 * np.sin(lat) ** 2)
    hk = h / 1e3
    o = np.array([(N + hk) * np.cos(lat) * np.cos(lon), (N + hk) * np.cos(lat) * np.sin(lon), (N * (1 - e2) + hk) * np.sin(lat)])
    d = x - o
    E = np.array([-np.sin(lon), np.cos(lon), 0])
    Nn = np.array([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)])
    U = np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])
    e_, n_, u_ = d @ E, d @ Nn, d @ U
    return np.arctan2(u_, np.hypot(e_, n_)), np.arctan2(e_, n_) % (2 * np.pi)


class Sky:
    """Direct evaluation of each satellite from its element set."""

    def __init__(self, tles):
        from skyfield.api import EarthSatellite, load, wgs84

        self.ts = load.timescale()
        self.tles = [parse(t) for t in tles]
        self.sats = [EarthSatellite(l1, l2, n, self.ts) for n, l1, l2 in self.tles]
        lat, lon, h = site()
        self.where = wgs84.latlon(np.degrees(lat), np.degrees(lon), h)

    def at(self, i, mjd):
        """ra, dec, alt, az (radians), sunlit, margin of sunlit (m)."""
        t = self.ts.ut1_jd(np.atleast_1d(mjd) + 2400000.5)
        g = self.sats[i].at(t)
        topo = g - self.where.at(t)
        ra, dec, _ = topo.radec()
        alt, az, _ = topo.altaz()
        pos = g.xyz.m  # geocentric
        s = SUN["v"][:, None] * AU_M
        d = s - pos
        d = d / np.linalg.norm(d, axis=0)
        along = np.sum(pos * d, axis=0)
        perp = np.linalg.norm(pos - along * d, axis=0)
        lit = ~((along < 0) & (perp < ERAD))
        return ra.radians, dec.radians, alt.radians, az.radians, lit, np.abs(perp - ERAD) + np.where(along < 0, 0, 1e9)


def big(c, nsat=60):
    """A random constellation, with a good share of satellites up at mjd."""
    su = mod()
    alt, inc, npl, spp, u = rand_shells(c, 3, 6, 8)
    mjd = 60218.0 + float(c.uniform(0, 40))
    epoch = 23274.0
    tles = list(su.create_constellation(alt * u.km, inc * u.deg, npl, spp, name="Tst", seed=c.randint(0, 10**6), epoch=epoch))
    return tles, mjd


def up_tles(c, n):
    """n satellites that are above the horizon of the site at mjd (generated
    orbits whose anomaly is chosen so that they pass over)."""
    su = mod()
    import astropy.units as u

    mjd = 60218.0 + float(c.uniform(0, 40))
    lat, lon, _ = site()
    out = []
    k = 0
    tries = 0
    while len(out) < n and tries < 400 * n:
        tries += 1
        a = float(c.uniform(340, 1400))
        inc = float(c.uniform(32, 140))
        raan = float(c.uniform(0, 360))
        ma = float(c.uniform(0, 360))
        mm = su.satellite_mean_motion(a * u.km)
        t = su.tle_from_orbital_parameters(f"U {k}", 8000 + k, 23274.0, inc * u.deg, raan * u.deg, ma * u.deg, mm)
        _, l1, l2 = parse(t)
        al, _ = own_altaz(l1, l2, mjd)
        if al > np.radians(5) or (al > np.radians(-20) and c.rng.random() < 0.01):
            out.append(t)
            k += 1
    return out, mjd


@check.scenario(40, 300)
def positions(c):
    su = mod()
    rand_sun(c)
    tles, mjd = big(c) if c.flip(0.3) else up_tles(c, c.randint(1, 8))
    lim = float(c.choice([0.0, 10.0, 20.0, 35.0]))
    con = su.Constellation(tles, alt_limit=lim, fov=3.5)
    sky = Sky(tles)
    n = c.randint(1, 6)
    mjds = mjd + np.sort(c.uniform(-0.01, 0.01, n)) if c.flip() else mjd + c.uniform(-3, 3, n)
    ras, decs, alts, illum = con.paths_array(mjds)
    for nm, arr in (("ras", ras), ("decs", decs), ("alts", alts), ("illums", illum)):
        c.expect(np.shape(arr) == (len(tles), n), f"{nm} has shape {np.shape(arr)}", key="paths-shape")
    nlit = ndark = 0
    for i in range(len(tles)):
        ra, dec, alt, az, lit, marg = sky.at(i, mjds)
        sep = angsep(np.degrees(ras[i]), np.degrees(decs[i]), np.degrees(ra), np.degrees(dec))
        c.expect(np.all(sep < 2e-4), f"position of satellite {i} is off by {np.max(sep)} deg", key="paths-radec")
        c.close(alts[i], alt, "altitude", atol=1e-6, key="paths-alt")
        sure = marg > 200
        c.same(np.asarray(illum[i], bool)[sure].tolist(), lit[sure].tolist(), f"illumination of satellite {i}", key="paths-lit")
        nlit += int(lit.sum())
        ndark += int((~lit).sum())
        j = c.randint(0, n - 1)
        a2, z2 = own_altaz(sky.tles[i][1], sky.tles[i][2], mjds[j])
        c.expect(abs(np.degrees(alts[i, j] - a2)) < 0.15, f"altitude {np.degrees(alts[i, j])} but {np.degrees(a2)} from the elements", key="paths-alt")
    # one time at a time
    j = c.randint(0, n - 1)
    con.update_mjd(mjds[j])
    c.same([bool(x) for x in con.illum], [bool(x) for x in illum[:, j]], "illumination at one time", key="update-lit")
    lit = np.asarray(illum[:, j], bool)
    c.close(con.altitudes_rad[lit], alts[:, j][lit], "altitudes at one time", atol=1e-9, key="update-alt")
    az = np.array([float(np.ravel(sky.at(i, mjds[j])[3])[0]) for i in range(len(tles))])
    c.expect(modeq(con.azimuth_rad[lit], az[lit], 2 * np.pi, 1e-5), "azimuths at one time differ", key="update-az")
    sure = np.abs(alts[:, j] - np.radians(lim)) > 1e-7
    want = set(np.where(lit & (alts[:, j] >= np.radians(lim)) & sure)[0].tolist())
    got = set(int(x) for x in np.ravel(con.visible)) - set(np.where(~sure)[0].tolist())
    c.same(sorted(got), sorted(want), "visible satellites", key="update-visible")
    # a second time replaces the first
    con.update_mjd(mjds[0])
    lit0 = np.asarray(illum[:, 0], bool)
    c.expect(len(con.altitudes_rad) == len(tles) and len(con.illum) == len(tles), "update accumulates", key="update-accumulate")
    c.close(con.altitudes_rad[lit0], alts[:, 0][lit0], "altitudes at the next time", atol=1e-9, key="update-alt")
    c.obs("positions", (len(tles), n))
    c.obs("lit", "lit", nlit)
    c.obs("lit", "dark", ndark)
    c.obs("visible", len(got))


# ------------------------------------------------------------- streaks
def xyz(ra, dec):
    return np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])


def arc_inside(ra, dec, pra, pdec, radius):
    """Length (deg) of the polyline of great circle steps within radius (deg)."""
    v = xyz(ra, dec)
    p = xyz(pra, pdec)
    step = np.degrees(2 * np.arcsin(np.clip(np.linalg.norm(v[:, 1:] - v[:, :-1], axis=0) / 2, 0, 1)))
    sub = 8
    tot = 0.0
    w = (np.arange(sub) + 0.5) / sub
    for k in np.where(step > 0)[0]:
        a, b = v[:, k], v[:, k + 1]
        if np.dot(a, p) < np.cos(np.radians(radius + 2 * step[k] + 0.1)):
            continue
        m = a[:, None] * (1 - w) + b[:, None] * w
        m /= np.linalg.norm(m, axis=0)
        d = np.degrees(2 * np.arcsin(np.clip(np.linalg.norm(m - p[:, None], axis=0) / 2, 0, 1)))
        tot += step[k] * np.mean(d < radius)
    return tot


def bounds(c, sky, pras, pdecs, mjds, vts, radius, lim):
    lo = np.zeros(len(pras))
    hi = np.zeros(len(pras))
    nlo = np.zeros(len(pras), int)
    nhi = np.zeros(len(pras), int)
    classes = []
    slack = np.zeros(len(pras))
    for k in range(len(pras)):
        t = mjds[k] + np.linspace(0, vts[k], int(max(40, vts[k] / 0.25))) / 86400.0
        for i in range(len(sky.sats)):
            ra, dec, alt, az, lit, marg = sky.at(i, t)
            maybe = np.any((alt > np.radians(lim) - 1e-6)) and np.any(lit | (marg < 300))
            if not maybe:
                if np.any(alt > np.radians(lim)):
                    if arc_inside(ra, dec, pras[k], pdecs[k], radius) > 0:
                        classes.append("dark crossing")
                elif arc_inside(ra, dec, pras[k], pdecs[k], radius) > 0:
                    classes.append("low crossing")
                continue
            sure = np.all(alt > np.radians(lim) + 1e-6) and np.all(lit & (marg > 300))
            h = arc_inside(ra, dec, pras[k], pdecs[k], radius * 1.01)
            if h > 0:
                hi[k] += h
                nhi[k] += 1
                slack[k] += 0.03
                classes.append("crossing" if sure else "partly lit or low crossing")
            else:
                classes.append("miss")
            if sure:
                lw = arc_inside(ra, dec, pras[k], pdecs[k], radius * 0.985)
                lo[k] += lw
                nlo[k] += lw > 1e-3
    return lo, hi, nlo, nhi, slack, classes


@check.scenario(60, 500)
def streaks(c):
    su = mod()
    rand_sun(c)
    tles, mjd = up_tles(c, c.randint(1, 7))
    lim = float(c.choice([0.0, 10.0, 20.0, 35.0]))
    sky = Sky(tles)
    npt = c.randint(1, 6)
    mjds = np.full(npt, mjd) if c.flip(0.3) else mjd + c.uniform(-30, 30, npt) / 86400.0
    mode = c.choice(["usual", "usual", "long", "short"])
    if mode == "usual":
        vt, dt = float(c.choice([15.0, 30.0, 34.0, 40.0])), 2.0
    elif mode == "long":
        vt, dt = float(c.uniform(60, 240)), float(c.choice([2.0, 1.0, 4.0]))
    else:
        vt, dt = float(c.uniform(0.5, 6)), float(c.choice([2.0, 1.0, 4.0]))
    vts = np.full(npt, vt)
    arg_vt = vt
    if c.flip(0.4):
        vts = vt * c.uniform(0.6, 1.0, npt)
        arg_vt = vts.copy()
    radius = float(c.choice([1.75, 1.75, 0.3, 4.0]))
    # aim at satellites
    pras, pdecs = np.empty(npt), np.empty(npt)
    for k in range(npt):
        i = c.randint(0, len(tles) - 1)
        ra, dec, alt, *_ = sky.at(i, mjds[k] + float(c.uniform(0, 1)) * vts[k] / 86400.0)
        off = radius * float(c.choice([0.0, 0.5, 0.9, 1.2, 3.0, 8.0]))
        th = float(c.uniform(0, 2 * np.pi))
        p0 = xyz(ra[0], dec[0])
        e = np.array([-np.sin(ra[0]), np.cos(ra[0]), 0])
        n = np.cross(p0, e)
        q = p0 * np.cos(np.radians(off)) + np.sin(np.radians(off)) * (np.cos(th) * e + np.sin(th) * n)
        pras[k] = np.degrees(np.arctan2(q[1], q[0])) % 360
        pdecs[k] = np.degrees(np.arcsin(np.clip(q[2], -1, 1)))
    con = su.Constellation(tles, alt_limit=lim)
    kw = {}
    if radius != 1.75:
        kw["fov_radius"] = radius
    if dt != 2.0:
        kw["dt"] = dt
    ins = [pras.copy(), pdecs.copy(), mjds.copy()]
    length, num = con.check_pointings(*ins, arg_vt, **kw)
    c.same([a.tolist() for a in ins], [pras.tolist(), pdecs.tolist(), mjds.tolist()], "the input", key="streak-mutates")
    if np.ndim(arg_vt):
        c.same(arg_vt.tolist(), vts.tolist(), "the visit times", key="streak-mutates")
    c.expect(np.shape(length) == (npt,) and np.shape(num) == (npt,), "one result per pointing", key="streak-shape")
    lo, hi, nlo, nhi, slack, classes = bounds(c, sky, np.radians(pras), np.radians(pdecs), mjds, vts, radius, lim)
    tol = 1e-3 + 0.01 * hi + slack
    for k in range(npt):
        c.expect(nlo[k] <= num[k] <= nhi[k], f"{num[k]} streaks, between {nlo[k]} and {nhi[k]} satellites cross (visit {vts[k]:.1f} s, dt {dt})", key="streak-count")
        c.expect(lo[k] - tol[k] <= length[k] <= hi[k] + tol[k], f"streak length {length[k]} deg, track inside is {lo[k]}..{hi[k]} (visit {vts[k]:.1f} s, dt {dt}, r {radius})", key="streak-length")
        c.expect((num[k] > 0) == (length[k] > 0), "streaks without length", key="streak-count")
    for x in classes:
        c.obs("geometry", (mode, x))
    c.obs("counts", tuple(sorted(num.tolist())))
    # grouping and order
    perm = c.rng.permutation(npt)
    l2, n2 = con.check_pointings(pras[perm], pdecs[perm], mjds[perm], vts[perm], **kw)
    c.close(l2, length[perm], "streak lengths in another order", atol=1e-9, key="streak-order")
    c.same(n2.tolist(), num[perm].tolist(), "streak counts in another order", key="streak-order")
    k = c.randint(0, npt - 1)
    l3, n3 = con.check_pointings(pras[k : k + 1], pdecs[k : k + 1], mjds[k : k + 1], vts[k : k + 1], **kw)
    c.close(l3[0], length[k], "streak length of one pointing on its own", atol=1e-9, key="streak-group")
    c.expect(n3[0] == num[k], "streak count of one pointing on its own", key="streak-group")
    # satellites in another order
    sp = c.rng.permutation(len(tles))
    con2 = su.Constellation([tles[i] for i in sp], alt_limit=lim)
    l4, n4 = con2.check_pointings(pras, pdecs, mjds, vts, **kw)
    c.close(l4, length, "streak lengths with satellites in another order", atol=1e-9, key="streak-satorder")
    c.same(n4.tolist(), num.tolist(), "streak counts with satellites in another order", key="streak-satorder")
    # halves of the constellation add up
    if len(tles) > 1:
        h = len(tles) // 2
        la, na = su.Constellation(tles[:h], alt_limit=lim).check_pointings(pras, pdecs, mjds, vts, **kw)
        lb, nb = su.Constellation(tles[h:], alt_limit=lim).check_pointings(pras, pdecs, mjds, vts, **kw)
        c.close(la + lb, length, "streak lengths of two half constellations", atol=1e-9, key="streak-additive")
        c.same((na + nb).tolist(), num.tolist(), "streak counts of two half constellations", key="streak-additive")


# ------------------------------------------------------------- observatory
class FakeAlmanac:
    def __init__(self, mjd0, nights, length, gap=1.0, mjd_start=None):
        self.sunsets = np.zeros(nights, dtype=[("night", int), ("sun_n12_setting", float), ("sun_n12_rising", float)])
        self.sunsets["night"] = np.arange(nights)
        self.sunsets["sun_n12_setting"] = mjd0 + np.arange(nights) * gap + 0.1
        self.sunsets["sun_n12_rising"] = self.sunsets["sun_n12_setting"] + length
        self.mjd0 = mjd0
        self.gap = gap

    def mjd_indx(self, mjd):
        return int(np.clip(np.floor((mjd - self.mjd0) / self.gap), 0, len(self.sunsets) - 1))


@check.scenario(20, 120)
def observatory(c):
    import healpy as hp

    import rubin_sim.satellite_constellations.model_observatory as mo

    su = mod()
    rand_sun(c)
    tles, mjd = up_tles(c, c.randint(1, 6)) if c.flip(0.7) else big(c)
    lim = float(c.choice([0.0, 10.0, 20.0]))
    nside = int(c.choice([4, 8, 16, 64]))
    sdt = float(c.choice([10.0, 20.0, 60.0]))
    con = su.Constellation(tles)
    mjd0 = mjd - 0.1
    alm = FakeAlmanac(mjd0, 3, sdt * c.randint(1, 12) / 86400.0 + sdt * 0.3 / 86400.0)
    told = {}
    base = mo.oMO
    real = base.__init__
    sig = inspect.signature(real)
    hpn = int(c.choice([8, 16, 32]))

    def rec(self, *a, **k):
        b = sig.bind(self, *a, **k)
        told.update(b.arguments)
        b.apply_defaults()
        told["nside"] = b.arguments["nside"]
        self.almanac = alm
        self.conditions = types.SimpleNamespace(mjd=None)
        self.mjd = b.arguments["mjd"] if b.arguments.get("mjd") is not None else b.arguments["mjd_start"]

    real_rc = base.return_conditions
    real_alm = mo.Almanac
    try:
        base.__init__ = rec
        base.return_conditions = lambda self: self.conditions
        mo.Almanac = lambda *a, **k: alm
        kw = dict(nside=hpn) if c.flip(0.7) else {}
        obs = mo.ModelObservatory(mjd_start=mjd0 + 0.3, sat_nside=nside, satellite_dt=sdt, constellation=con, alt_limit=lim, alt_min=7.0, cloud_limit=0.4, **kw)
        if kw:
            c.expect(told.get("nside") == hpn, f"nside={hpn} was requested, the observatory got {told.get('nside')}", key="obs-nside")
        else:
            c.expect(told.get("nside") is not None, "the observatory has no healpix resolution", key="obs-nside")
        c.same((told.get("alt_min"), told.get("cloud_limit")), (7.0, 0.4), "arguments passed on", key="obs-args")
        sky = Sky(tles)
        calls = {"n": 0}
        orig = con.paths_array

        def counted(*a, **k):
            calls["n"] += 1
            return orig(*a, **k)

        con.paths_array = counted
        for night in ([0, 1, 2, 1] if c.flip() else [0, 0, 2]):
            obs.mjd = mjd0 + night + float(c.uniform(0.05, 0.9))
            cond = obs.return_conditions()
            sunset = alm.sunsets["sun_n12_setting"][night]
            rise = alm.sunsets["sun_n12_rising"][night]
            m = np.asarray(cond.satellite_mjds)
            c.expect(abs(m[0] - sunset) < 1e-9 and m[-1] < rise and m[-1] + sdt * 1.01 / 86400.0 >= rise, "satellite times do not span the night", key="obs-times")
            c.close(np.diff(m), np.full(m.size - 1, sdt / 86400.0), "satellite time step", rtol=1e-5, atol=1e-9, key="obs-times")
            maps = np.asarray(cond.satellite_maps)
            c.expect(maps.shape == (m.size, hp.nside2npix(nside)), f"map shape {maps.shape}", key="obs-shape")
            want = np.zeros(maps.shape, int)
            fuzzy = np.zeros(maps.shape, bool)
            for i in range(len(tles)):
                ra, dec, alt, az, lit, marg = sky.at(i, m)
                pix = hp.ang2pix(nside, np.pi / 2 - dec, ra)
                for j in range(m.size):
                    near = hp.query_disc(nside, hp.ang2vec(np.pi / 2 - dec[j], ra[j]), np.radians(0.01), inclusive=True)
                    if abs(alt[j] - np.radians(lim)) < 1e-6 or marg[j] < 300 or near.size > 1:
                        fuzzy[j, near] = True
                        fuzzy[j, pix[j]] = True
                    elif lit[j] and alt[j] >= np.radians(lim):
                        want[j, pix[j]] += 1
            c.expect(np.array_equal(maps[~fuzzy], want[~fuzzy]), "satellite map does not count the illuminated satellites above the limit", key="obs-map")
            c.obs("map", (nside, int(want.sum() > 0), bool(fuzzy.any())), int(want.sum()))
        c.obs("nights", calls["n"])
    finally:
        base.__init__ = real
        base.return_conditions = real_rc
        mo.Almanac = real_alm


@check.scenario(25, 150)
def avoid(c):
    import healpy as hp

    from rubin_sim.satellite_constellations import SatelliteAvoidBasisFunction

    ns, out = int(c.choice([16, 32])), int(c.choice([8, 16, 32]))
    n = c.randint(1, 40)
    step = float(c.choice([10.0, 60.0, 300.0])) / 86400.0
    mjds = 60218.0 + np.arange(n) * step
    maps = np.zeros((n, hp.nside2npix(ns)), int)
    for j in range(n):
        maps[j, c.rng.integers(0, maps.shape[1], c.randint(0, 5))] += 1
    ft = float(c.uniform(0.2, 1.5) * n * step * 1440 * float(c.choice([0.05, 0.3, 1.0])))
    fw = float(c.choice([3.5, 8.0]))
    b = SatelliteAvoidBasisFunction(nside=out, forecast_time=ft, smooth_fwhm=fw)
    now = 60218.0 + float(c.uniform(-0.3, 1.2)) * n * step
    cond = types.SimpleNamespace(satellite_mjds=mjds, satellite_maps=maps.copy(), mjd=now)
    got = b._calc_value(cond)
    sel = (mjds >= now) & (mjds < now + ft / 1440.0)
    edge = np.any(np.abs(mjds - now) < 1e-9) or np.any(np.abs(mjds - now - ft / 1440.0) < 1e-9)
    if edge:
        c.obs("avoid", "edge")
        return
    c.same(cond.satellite_maps.tolist(), maps.tolist(), "the maps of the conditions", key="avoid-mutates")
    if not sel.any():
        c.expect(np.all(np.asarray(got) == 0), "penalty with no forecast in the window", key="avoid-window")
        c.obs("avoid", "empty window")
        return
    s = hp.ud_grade(hp.smoothing(maps[sel].sum(axis=0).astype(float), fwhm=np.radians(fw)), out)
    s[s < 0] = 0
    c.expect(np.shape(got) == (hp.nside2npix(out),), f"shape {np.shape(got)}", key="avoid-shape")
    c.expect(np.all(got <= 0), "positive values attract to satellites", key="avoid-sign")
    c.close(got, -s, "avoidance map", rtol=1e-6, atol=1e-9, key="avoid-value")
    c.obs("avoid", (int(sel.sum()) == n, int(maps[sel].sum() > 0)))
