"""C20: self-calibration."""
import warnings

import numpy as np

from vlib.h import Check
from vlib import synth

from rubin_sim.selfcal import LsqrSolver, NoOffset, OffsetSNR, generate_catalog
from rubin_sim.selfcal.offsets import BaseOffset, OffsetSys
from rubin_sim.selfcal.star_tools import assign_patches, stars_project

check = Check(
    "C20",
    "random stars and visits are turned into catalogs: the observed pairs, patches, magnitudes and uncertainties are compared with a loop over all stars and visits, "
    "with recording offsets; noiseless connected observations are solved and compared with the truth, shuffled, relabelled, with removable rows added",
    assumptions=["patch layouts are squares", "solutions are judged for connected observations"],
    nproc=4,
    budget=(200, 720),
)


class Recorder(BaseOffset):
    """wraps an offset and keeps what it returned"""

    def __init__(self, inner, key=None):
        self.inner, self.newkey, self.log = inner, key or inner.newkey, []

    def __call__(self, stars, visit, dmags=None):
        seen = {k: np.copy(v) for k, v in (dmags or {}).items()}
        r = self.inner(stars, visit, dmags=dmags)
        self.log.append((int(visit["observationId"]), np.copy(stars["id"]), np.copy(r), seen, np.copy(stars["patch_id"])))
        return r


class Field(BaseOffset):
    """a smooth offset over the field"""

    def __init__(self, a, b, key="dmag_field"):
        self.a, self.b, self.newkey = a, b, key

    def __call__(self, stars, visit, **kw):
        return self.a + self.b * stars["x"] * 10 + 0.01 * (visit["observationId"] % 7)


class Patch(BaseOffset):
    newkey = "dmag_patch"

    def __init__(self, seed):
        self.seed = seed

    def zp(self, pid):
        return np.sin(np.asarray(pid, float) * 12.9898 + self.seed) * 0.5

    def __call__(self, stars, visit, **kw):
        return self.zp(stars["patch_id"])


def offset(ra, dec, r, pa):
    """degrees: the point at separation r and position angle pa"""
    ra, dec, r, pa = map(np.radians, (ra, dec, r, pa))
    d2 = np.arcsin(np.clip(np.sin(dec) * np.cos(r) + np.cos(dec) * np.sin(r) * np.cos(pa), -1, 1))
    dra = np.arctan2(np.sin(pa) * np.sin(r) * np.cos(dec), np.cos(r) - np.sin(dec) * np.sin(d2))
    return np.degrees(ra + dra) % 360, np.degrees(d2)


def world(c, n=None, nv=None, r=1.8, spread=3.0):
    kind, ra0, dec0 = synth.radec(c, 1, kind=c.choice(["sky", "wrap", "south", "npole", "spole"]))
    n = n or c.choice([1, 2, 5, 40, c.randint(1, 150)])
    nv = nv or c.choice([1, 2, c.randint(1, 25)])
    ra, dec = offset(np.full(n, ra0[0]), np.full(n, dec0[0]), c.rng.uniform(0, spread, n), c.rng.uniform(0, 360, n))
    if c.flip(0.1):
        ra, dec = c.uniform(0, 360, n), c.uniform(-90, 90, n)
    vra, vdec = offset(np.full(nv, ra0[0]), np.full(nv, dec0[0]), c.rng.uniform(0, spread * 0.8, nv), c.rng.uniform(0, 360, nv))
    stars = np.zeros(n, dtype=[("id", int), ("ra", float), ("decl", float), ("rmag", float), ("gmag", float)])
    stars["id"] = c.choice([np.arange(n), c.rng.permutation(n) * 13 + 5, np.arange(n) + 2**40])
    stars["ra"], stars["decl"] = ra, dec
    stars["rmag"], stars["gmag"] = c.uniform(15, 24, n), c.uniform(15, 24, n)
    v = np.zeros(nv, dtype=[("observationId", int), ("ra", float), ("dec", float), ("rotSkyPos", float), ("fiveSigmaDepth", float)])
    v["observationId"] = c.choice([np.arange(nv), c.rng.permutation(nv) + 1000, np.arange(nv) * 3])
    v["ra"], v["dec"] = vra, vdec
    v["rotSkyPos"] = c.choice([np.zeros(nv), c.uniform(0, 360, nv), np.full(nv, 90.0)])
    v["fiveSigmaDepth"] = c.uniform(22, 25, nv)
    if c.flip(0.15):
        # a star exactly on the edge of the field
        v["ra"][0], v["dec"][0], v["rotSkyPos"][0] = 10.0, 0.0, c.choice([0.0, 90.0, 180.0, 270.0])
        stars["ra"][0], stars["decl"][0] = 10.0, c.choice([-1, 1]) * r
    return stars, v


def project(stars, v):
    """tangent plane, rotated by the sky angle; radians"""
    a, d, a0, d0 = np.radians(stars["ra"]), np.radians(stars["decl"]), np.radians(v["ra"]), np.radians(v["dec"])
    cc = np.sin(d0) * np.sin(d) + np.cos(d0) * np.cos(d) * np.cos(a - a0)
    x = np.cos(d) * np.sin(a - a0) / cc
    y = (np.cos(d0) * np.sin(d) - np.sin(d0) * np.cos(d) * np.cos(a - a0)) / cc
    r = np.radians(v["rotSkyPos"])
    return np.cos(r) * x + np.sin(r) * y, -np.sin(r) * x + np.cos(r) * y


@check.scenario(500, 4000)
def catalog(c):
    """stars in fields, patches, magnitudes"""
    r = c.choice([1.8, 1.8, 1.0, 2.5, c.uniform(0.5, 3.5)])
    npat = c.choice([16, 1, 4, 9, 25, 100])
    stars, v = world(c, r=r)
    flt = c.choice("rg")
    offs = []
    for _ in range(c.randint(1, 4)):
        k = c.randint(0, 4)
        offs.append([lambda: NoOffset(), lambda: Field(c.uniform(-1, 1), c.uniform(-1, 1)), lambda: OffsetSNR(lsst_filter=flt), lambda: OffsetSys(error_sys=0.01), lambda: Field(0.1, 0.2, key="other")][k]())
    rec = [Recorder(o) for o in offs]
    keep, vkeep = stars.copy(), v.copy()
    floor = c.choice([0.005, 0.0, 0.1])
    seed = c.randint(0, 10**6)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cat = generate_catalog(v, stars, offsets=rec, lsst_filter=flt, n_patches=npat, radius_fov=r, seed=seed, uncert_floor=floor, verbose=False)
    c.expect(np.array_equal(stars, keep) and np.array_equal(v, vkeep), "the stars or visits were changed", key="input-changed")
    c.expect(all(len(x.log) == len(v) for x in rec), "an offset was not asked for every visit", key="offset-calls")
    side = int(round(npat**0.5))
    edge = np.tan(np.radians(r))
    pos = 0
    owner = {}
    nedge = 0
    idx = {int(s): i for i, s in enumerate(stars["id"])}
    for j in range(len(v)):
        sep = np.degrees(synth.angsep(np.radians(stars["ra"]), np.radians(stars["decl"]), np.radians(v["ra"][j]), np.radians(v["dec"][j])))
        sure = set(stars["id"][sep < r - 1e-7].tolist())
        maybe = set(stars["id"][sep < r + 1e-7].tolist())
        got = rec[0].log[j][1]
        rows = cat[pos : pos + len(got)]
        pos += len(got)
        c.expect(np.array_equal(rows["id"], got), f"rows of visit {j} list other stars than the offsets saw", key="stars")
        c.expect(len(set(got.tolist())) == len(got) and sure <= set(got.tolist()) <= maybe, f"visit {j} (radius {r}): {len(got)} stars, in the field {len(sure)}", key="stars")
        total = np.zeros(len(got))
        for x in rec:
            total = total + x.log[j][2]
        ii = [idx[int(s)] for s in got]
        truth = stars[flt + "mag"][ii]
        c.close(rows["observed_mag"], truth + total, f"magnitudes of visit {j} with offsets {[o.newkey for o in offs]}", rtol=0, atol=1e-9, key="magnitude")
        c.expect(np.array_equal(rows[flt + "mag"], truth) and np.array_equal(rows["ra"], stars["ra"][ii]) and np.array_equal(rows["decl"], stars["decl"][ii]), "true columns changed", key="columns")
        # patches
        x, y = project(stars[ii], v[j])
        fx, fy = (x + edge) / (2 * edge) * side, (y + edge) / (2 * edge) * side
        for k in range(len(got)):
            pid = int(rows["patch_id"][k])
            sub = pid - int(v["observationId"][j]) * npat
            c.expect(0 <= sub < npat, f"patch {pid} of visit {v['observationId'][j]} with {npat} patches: {sub} within the visit", key="patch-shared")
            owner.setdefault(pid, j)
            c.expect(owner[pid] == j, f"patch {pid} belongs to two visits", key="patch-shared")
            close = min(abs(fx[k] - round(fx[k])), abs(fy[k] - round(fy[k]))) < 1e-6
            nedge += close
            if not close:
                w = int(np.floor(fx[k]) + np.floor(fy[k]) * side)
                c.expect(sub == w, f"star at {fx[k]:.3f},{fy[k]:.3f} of {side}x{side} patches is in {sub}", key="patch")
        c.obs("visit", (npat, len(got) > 0), max(1, len(got)))
    c.expect(pos == len(cat), f"{len(cat)} rows, {pos} observations", key="stars")
    # uncertainties
    m5 = np.concatenate([np.full(len(rec[0].log[j][1]), v["fiveSigmaDepth"][j]) for j in range(len(v))]) if len(v) else np.zeros(0)
    if len(cat):
        c.close(cat["mag_uncert"], np.hypot(2.5 * np.log10(1 + 1 / sn_ref(cat["observed_mag"], m5)), floor), "uncertainty", rtol=1e-6, atol=1e-12, key="uncertainty")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        again = generate_catalog(v, stars, offsets=offs, lsst_filter=flt, n_patches=npat, radius_fov=r, seed=seed, uncert_floor=floor, verbose=False)
    c.expect(np.array_equal(again, cat), "the same seed gives another catalog", key="seed")
    c.obs("catalog", (npat, r > 1.8, r < 1.8, len(cat) > 0, len(offs)))


def sn_ref(mag, m5, gamma=0.04):
    """signal to noise at a magnitude given the five-sigma depth"""
    x = 10 ** (0.4 * (mag - m5))
    # error^2 = (0.04 - gamma) x + gamma x^2
    return 1 / np.sqrt((0.04 - gamma) * x + gamma * x**2)


@check.scenario(40, 300)
def noise(c):
    """the noise has the expected spread, for the brightness after earlier offsets"""
    n = 4000
    stars, v = world(c, n=10, nv=1)
    big = np.zeros(n, dtype=stars.dtype)
    big["id"] = np.arange(n)
    big["ra"], big["decl"] = v["ra"][0] % 360, np.clip(v["dec"][0], -89, 89)
    v["dec"] = np.clip(v["dec"], -89, 89)
    big["rmag"] = c.uniform(18, 24, n)
    dim = c.choice([0.0, 1.0, 2.0])
    f, s = Recorder(Field(dim, 0.0)), Recorder(OffsetSNR(lsst_filter="r"))
    order = c.flip(0.7)
    generate_catalog(v, big, offsets=[f, s] if order else [s, f], seed=c.randint(0, 10**6), verbose=False)
    d = s.log[0][2]
    before = f.log[0][2] if order else 0.0
    err = 2.5 * np.log10(1 + 1 / sn_ref(big["rmag"] + before, v["fiveSigmaDepth"][0]))
    z = d / err
    c.expect(abs(np.mean(z)) < 6 / np.sqrt(n) and abs(np.std(z) - 1) < 6 / np.sqrt(2 * n), f"noise over expected: mean {np.mean(z)}, spread {np.std(z)} (offset before: {dim if order else 0})", key="noise")
    c.obs("noise", (dim, order), n)


def connected(pid, sid):
    """number of connected parts of the star-patch graph"""
    parent = {}

    def find(a):
        while parent.setdefault(a, a) != a:
            parent[a] = parent[parent[a]]
            a = parent[a]
        return a
    for p, s in zip(pid, sid):
        a, b = find(("p", p)), find(("s", s))
        if a != b:
            parent[a] = b
    return len({find(x) for x in list(parent)})


def cleaned(obs):
    """rows left after repeatedly dropping stars seen once and patches with one star"""
    o = obs
    while True:
        n = len(o)
        k, m = np.unique(o["id"], return_counts=True)
        o = o[np.isin(o["id"], k[m > 1])]
        k, m = np.unique(o["patch_id"], return_counts=True)
        o = o[np.isin(o["patch_id"], k[m > 1])]
        if len(o) == n:
            return o


@check.scenario(300, 2500)
def solve(c):
    """noiseless observations give back the truth up to one constant"""
    ns, npt = c.randint(3, 60), c.randint(2, 30)
    mag, zp = c.uniform(15, 25, ns), c.choice([c.uniform(-1, 1, npt), np.zeros(npt)])
    per = c.randint(2, max(2, ns // 2))
    rows = [(s, p) for p in range(npt) for s in c.rng.choice(ns, size=min(ns, per + 1), replace=False)]
    # things the solver removes: stars seen once, patches with one star
    extra = []
    lone = []
    for k in range(c.randint(0, 4)):
        lone.append(ns + k)
        extra.append((ns + k, c.randint(0, npt - 1)))
    lonep = []
    for k in range(c.randint(0, 3)):
        lonep.append(npt + k)
        extra.append((c.randint(0, ns - 1), npt + k))
    mag2, zp2 = np.append(mag, c.uniform(15, 25, len(lone))), np.append(zp, c.uniform(-1, 1, len(lonep)))
    rows = np.array(rows + extra)
    S, P = ns + len(lone), npt + len(lonep)
    sid = c.choice([np.arange(S), c.rng.permutation(S) + 1, c.rng.permutation(S) * 2**32, np.sort(c.rng.choice(10**9, S, replace=False)), np.arange(S) - 5])
    pid = c.choice([np.arange(P), c.rng.permutation(P) * 16 + 3, c.rng.permutation(P) * 2**32, np.arange(P) + 10**8])
    obs = np.zeros(len(rows), dtype=[("id", int), ("patch_id", int), ("observed_mag", float), ("mag_uncert", float), ("rmag", float)])
    obs["id"], obs["patch_id"] = sid[rows[:, 0]], pid[rows[:, 1]]
    obs["observed_mag"] = mag2[rows[:, 0]] + zp2[rows[:, 1]]
    obs["mag_uncert"] = c.choice([np.full(len(rows), 0.01), c.uniform(0.005, 0.05, len(rows))])
    obs = obs[c.rng.permutation(len(obs))]
    left = cleaned(obs)
    if len(left) == 0 or connected(left["patch_id"], left["id"]) != 1:
        c.obs("disconnected", ())
        return
    keep = obs.copy()
    s = LsqrSolver(obs, atol=1e-14, btol=1e-14, iter_lim=20000)
    s.run()
    pz, st = s.return_solution()
    c.expect(np.array_equal(obs, keep), "the observations were changed", key="input-changed")
    c.expect(np.array_equal(np.sort(st["id"]), np.unique(left["id"])), f"{len(st)} stars solved, {len(np.unique(left['id']))} contribute", key="solved-stars")
    c.expect(np.array_equal(np.sort(pz["patch_id"]), np.unique(left["patch_id"])), f"{len(pz)} patches solved, {len(np.unique(left['patch_id']))} contribute", key="solved-patches")
    true_s = dict(zip(sid.tolist(), mag2))
    true_p = dict(zip(pid.tolist(), zp2))
    ds = np.array([st["fit_mag"][i] - true_s[int(st["id"][i])] for i in range(len(st))])
    dp = np.array([pz["zp"][i] - true_p[int(pz["patch_id"][i])] for i in range(len(pz))])
    k = np.mean(ds)
    c.expect(np.max(np.abs(ds - k)) < 1e-5 and np.max(np.abs(dp + k)) < 1e-5, f"solution off by {np.max(np.abs(ds - k))} (stars), {np.max(np.abs(dp + k))} (patches) after the common constant {k}", key="solution")
    c.obs("solution", (len(lone) > 0, len(lonep) > 0, ns > 20), len(st) + len(pz))
    if c.flip(0.3):
        s2 = LsqrSolver(obs[c.rng.permutation(len(obs))], atol=1e-14, btol=1e-14, iter_lim=20000)
        s2.run()
        p2, t2 = s2.return_solution()
        c.expect(np.array_equal(t2["id"], st["id"]) and np.allclose(t2["fit_mag"] - t2["fit_mag"][0], st["fit_mag"] - st["fit_mag"][0], rtol=0, atol=1e-5), "row order changes the solution", key="order")


@check.scenario(60, 500)
def end_to_end(c):
    """generated catalogs with an offset per patch: solving gives the star magnitudes and the patch offsets"""
    r = c.choice([1.8, 1.2, 2.4])
    npat = c.choice([1, 4, 16])
    stars, v = world(c, n=c.randint(60, 250), nv=c.randint(6, 25), r=r, spread=r)
    p = Patch(c.uniform(0, 6))
    cat = generate_catalog(v, stars, offsets=[p], n_patches=npat, radius_fov=r, verbose=False, uncert_floor=c.choice([0.005, 0.05]))
    left = cleaned(cat)
    if len(left) == 0 or connected(left["patch_id"], left["id"]) != 1:
        c.obs("disconnected", ())
        return
    s = LsqrSolver(cat.copy(), atol=1e-14, btol=1e-14, iter_lim=40000)
    s.run()
    pz, st = s.return_solution()
    t = dict(zip(stars["id"].tolist(), stars["rmag"]))
    ds = np.array([st["fit_mag"][i] - t[int(st["id"][i])] for i in range(len(st))])
    dp = pz["zp"] - p.zp(pz["patch_id"])
    k = np.mean(ds)
    c.expect(np.max(np.abs(ds - k)) < 1e-4 and np.max(np.abs(dp + k)) < 1e-4, f"magnitudes off by {np.max(np.abs(ds - k))}, zeropoints by {np.max(np.abs(dp + k))}", key="end-to-end")
    c.obs("calibrated", (npat, r), len(st) + len(pz))


@check.scenario(100, 800)
def tools(c):
    """projection and patches of one visit"""
    stars, v = world(c)
    s = np.zeros(len(stars), dtype=stars.dtype.descr + [(k, float) for k in ("x", "y", "radius")] + [("patch_id", int), ("sub_patch", int)])
    for k in stars.dtype.names:
        s[k] = stars[k]
    sep = synth.angsep(np.radians(s["ra"]), np.radians(s["decl"]), np.radians(v["ra"][0]), np.radians(v["dec"][0]))
    s = s[sep < 1.0]
    if not len(s):
        return
    o = stars_project(s.copy(), v[0])
    x, y = project(s, v[0])
    c.close(o["x"], x, "x", rtol=1e-9, atol=1e-12, key="projection")
    c.close(o["y"], y, "y", rtol=1e-9, atol=1e-12, key="projection")
    c.close(o["radius"], np.hypot(x, y), "radius", rtol=1e-9, atol=1e-12, key="projection")
    o2 = assign_patches(o.copy(), v[0], n_patches=16, radius_fov=1.8)
    c.expect(np.array_equal(o2["patch_id"] - o2["sub_patch"], np.full(len(o2), v["observationId"][0] * 16)), "patch identifiers", key="patch")
    c.obs("tools", (len(s) > 5,))
