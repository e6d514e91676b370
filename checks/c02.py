"""C02: sky slicers deliver exactly the visits covering each sky point."""
import os
import tempfile

import healpy as hp
import numpy as np
from rubin_sim.maf.maps import BaseMap
from rubin_sim.maf.metric_bundles import MetricBundle, MetricBundleGroup
from rubin_sim.maf.metrics import BaseMetric
from rubin_sim.maf.slicers import HealpixSlicer, HealpixSubsetSlicer, UserPointsSlicer, make_circle_subset_slicer

from vlib import synth
from vlib.h import Check, short

check = Check("C02", "random pointing sets (poles, RA wrap, clusters, duplicates) x slicer type/resolution/radius/units/camera; every point's delivered visits "
              "are compared with a brute-force separation (and footprint lookup) oracle. Non-trivial: a point with at least one visit.",
              assumptions=["visits within 1e-9 rad of the radius or of a footprint pixel edge are not judged",
                           "the camera footprint convention is that of rubin_scheduler's footprint class, fed a synthetic map"])
SCR = os.environ.get("VERIF_SCRATCH", "/tmp")
FOV = {}


def setup():
    p = os.path.join(SCR, "data", "utils", "fov_map.npz")
    FOV["default"] = (None,) + synth.fov_map(p)
    p2 = os.path.join(SCR, "fov2.npz")
    x, img = synth.fov_map(p2, n=121, half=1.5)
    img = img.copy()
    img[: 60] = False
    np.savez(p2, image=img, x=x)
    FOV["alt"] = (p2, x, img)


check.setup_fn = setup

# galactic rotation (IAU): rows of the matrix from equatorial J2000
_G = np.array([[-0.0548755604162154, -0.8734370902348850, -0.4838350155487132],
               [0.4941094278755837, -0.4448296299600112, 0.7469822444972189],
               [-0.8676661490190047, -0.1980763734312015, 0.4559837761750669]])


def visits(c, names, deg):
    n = c.choice([1, 2, 10, 60, 150])
    kind, ra, dec = synth.radec(c, n)
    rot = c.uniform(0, 360, n)
    d = np.zeros(n, dtype=[(names[0], "f8"), (names[1], "f8"), (names[2], "f8"), ("visit", "i8")])
    f = (lambda x: x) if deg else np.radians
    d[names[0]], d[names[1]], d[names[2]] = f(ra), f(dec), f(rot)
    d["visit"] = np.arange(n) + 1000
    return kind, d


def oracle(pra, pdec, d, names, deg, radius, cam, cam_radius):
    f = np.radians if deg else (lambda x: x)
    ra, dec, rot = f(d[names[0]]), f(d[names[1]]), f(d[names[2]])
    sep = synth.angsep(pra, pdec, ra, dec)
    inside = sep <= np.radians(radius)
    amb = np.abs(sep - np.radians(radius)) < 1e-9
    if cam is not None:
        ci, ca = synth.camera_inside(cam[1], cam[2], cam_radius, pra, pdec, ra, dec, rot)
        far = sep > np.pi / 2 - 0.01
        amb = (amb & ci) | (inside & ca) | (amb & ca)
        inside = inside & ci
        amb &= ~far
    return inside, amb


def judge(c, idxs, d, inside, amb, what):
    v = np.asarray(d["visit"][idxs])
    c.expect(v.ndim == 1 and len(set(v.tolist())) == len(v), f"{what}: visits delivered twice {short(v)}")
    got = np.zeros(len(d), bool)
    got[v - 1000] = True
    bad = (got != inside) & ~amb
    c.expect(not bad.any(), lambda: f"{what}: wrong visits {np.where(bad)[0][:5]} (delivered={got[bad][:5]}) data={d[bad][:2]}")
    if len(v):
        c.obs("covered_points")
    c.obs("points")
    c.obs("visits_delivered", n=len(v))
    return frozenset(v.tolist())


def options(c):
    deg = c.flip(0.7)
    names = c.choice([("fieldRA", "fieldDec", "rotSkyPos"), ("lon", "lat", "rot")])
    camkey = c.choice([None, None, "default", "alt"])
    radius = c.choice([2.45, 1.75, 0.5, 5.0, 20.0, 60.0]) if camkey is None else c.choice([2.45, 1.0, 4.0])
    cam_radius = c.choice([1.94, 1.2])
    kw = dict(lon_col=names[0], lat_col=names[1], rot_sky_pos_col_name=names[2], lat_lon_deg=deg, radius=radius, verbose=False,
              use_camera=camkey is not None, camera_radius=cam_radius, leafsize=c.choice([100, 1, 5]))
    cam = None
    if camkey:
        cam = FOV[camkey]
        kw["camera_footprint_file"] = cam[0]
    return names, deg, cam, radius, cam_radius, kw


def check_points(c, sl, ra, dec, what):
    c.close(sl.slice_points["ra"], ra, what + " ra", atol=1e-12)
    c.close(sl.slice_points["dec"], dec, what + " dec", atol=1e-12)
    u = synth.unit(ra, dec) @ _G.T
    l, b = np.asarray(sl.slice_points["gall"]), np.asarray(sl.slice_points["galb"])
    c.expect(np.max(np.linalg.norm(synth.unit(l, b) - u, axis=-1)) < 1e-6, what + ": galactic coordinates of the points")


def seek(c, cam):
    return c.choice([1, 2, 4, 8, 16]) if cam is None else c.choice([8, 16, 32])


@check.scenario(240, 3000)
def healpix(c):
    names, deg, cam, radius, cam_radius, kw = options(c)
    nside = seek(c, cam)
    kind, d = visits(c, names, deg)
    before = d.copy()
    sl = HealpixSlicer(nside=nside, use_cache=c.flip(), **kw)
    npix = 12 * nside * nside
    c.expect(len(sl) == npix, f"{len(sl)} slices for nside {nside}")
    th, ph = hp.pix2ang(nside, np.arange(npix))
    ra, dec = ph, np.pi / 2 - th
    check_points(c, sl, ra, dec, "healpix")
    c.same(sl.slice_points["sid"], np.arange(npix), "sid")
    sl.setup_slicer(d)
    if c.flip(0.3):
        _, d2 = visits(c, names, deg)
        sl.setup_slicer(d2)
        d, before = d2, d2.copy()
    todo = np.arange(npix)
    if npix > 800:
        # the pixels near pointings, and some others
        f = np.degrees if not deg else (lambda x: x)
        near = set()
        for v in d[:40]:
            near.update(hp.query_disc(nside, hp.ang2vec(f(v[names[0]]), f(v[names[1]]), lonlat=True), np.radians(min(radius + 2, 8)), inclusive=True).tolist())
        todo = np.array(sorted(near | set(c.rng.integers(0, npix, 60).tolist())))
        if len(todo) > 900:
            todo = np.sort(c.rng.choice(todo, 900, replace=False))
    ncov = 0
    it = iter(sl)
    for i in todo:
        s = sl[int(i)]
        ins, amb = oracle(ra[i], dec[i], d, names, deg, radius, cam, cam_radius)
        k = judge(c, s["idxs"], d, ins, amb, f"healpix nside={nside} pix={i} r={radius} cam={cam is not None} deg={deg} {kind}")
        ncov += bool(k)
        sp = s["slice_point"]
        c.expect(sp["sid"] == i and sp["nside"] == nside and abs(sp["ra"] - ra[i]) < 1e-12 and abs(sp["dec"] - dec[i]) < 1e-12, f"slice point {sp}")
    for j, s in zip(range(5), sl):
        c.expect(s["slice_point"]["sid"] == j, "iteration order")
    c.same(before, d, "visit data modified")
    c.obs("case", (kind, nside, radius, cam is not None, deg, len(d)))
    c.note(f"HealpixSlicer nside={nside} radius={radius} camera={cam is not None} deg={deg} {kind} n={len(d)}: {len(todo)} points, {ncov} covered")


@check.scenario(160, 2000)
def subset(c):
    names, deg, cam, radius, cam_radius, kw = options(c)
    nside = c.choice([2, 4, 8]) if cam is None else c.choice([16, 32])
    npix = 12 * nside ** 2
    kind, d = visits(c, names, deg)
    f = np.degrees if not deg else (lambda x: x)
    nsel = c.randint(1, min(60, npix))
    if cam is not None or c.flip():
        pool = []
        for v in d[:10]:
            pool += hp.query_disc(nside, hp.ang2vec(f(v[names[0]]), f(v[names[1]]), lonlat=True), np.radians(4.0), inclusive=True).tolist()
        pool = np.unique(pool)
        hpid = c.rng.permutation(pool)[:nsel]
    else:
        hpid = c.rng.permutation(npix)[:nsel]
    sl = HealpixSubsetSlicer(nside, hpid, use_cache=c.flip(), **kw)
    sl.setup_slicer(d)
    th, ph = hp.pix2ang(nside, np.arange(npix))
    ra, dec = ph, np.pi / 2 - th
    check_points(c, sl, ra, dec, "subset")
    got = [(s["slice_point"], s["idxs"]) for s in sl]
    c.expect([int(g[0]["sid"]) for g in got] == [int(h) for h in hpid], f"iteration covers {[g[0]['sid'] for g in got][:5]}, asked {hpid[:5]}")
    c.same(np.where(~np.asarray(sl.mask))[0], np.sort(hpid), "unmasked pixels")
    c.expect(sl.shape == npix, "shape of the full sky")
    for (sp, idxs) in got:
        i = int(sp["sid"])
        ins, amb = oracle(ra[i], dec[i], d, names, deg, radius, cam, cam_radius)
        judge(c, idxs, d, ins, amb, f"subset nside={nside} pix={i} cam={cam is not None}")
        c.expect(abs(sp["ra"] - ra[i]) < 1e-12 and abs(sp["dec"] - dec[i]) < 1e-12 and sp["nside"] == nside, f"slice point {sp}")
        c.expect(set(d["visit"][sl[i]["idxs"]].tolist()) == set(d["visit"][idxs].tolist()), "by index differs")
    other = np.setdiff1d(np.arange(npix), hpid)[:5]
    for i in other:
        c.expect(len(sl[int(i)]["idxs"]) == 0, f"pixel {i} outside the subset gets visits")
    c.obs("case", (kind, nside, len(hpid), radius, cam is not None, deg))
    c.note(f"HealpixSubsetSlicer nside={nside} {len(hpid)} pixels camera={cam is not None} {kind}")


@check.scenario(200, 2500)
def user_points(c):
    names, deg, cam, radius, cam_radius, kw = options(c)
    kind, d = visits(c, names, deg)
    f = np.degrees if not deg else (lambda x: x)
    m = c.choice([1, 1, 2, 7, 40])
    if c.flip(0.6):
        i = c.rng.integers(0, len(d), m)
        pra = (f(d[names[0]][i]) + c.uniform(-2, 2, m)) % 360
        pdec = np.clip(f(d[names[1]][i]) + c.uniform(-1.5, 1.5, m), -90, 90)
    else:
        _, pra, pdec = synth.radec(c, m)
    form = c.choice(["array", "list", "scalar"]) if m == 1 else c.choice(["array", "list"])
    a, b = (pra, pdec) if form == "array" else ((list(pra), list(pdec)) if form == "list" else (float(pra[0]), float(pdec[0])))
    pa, pb = np.copy(pra), np.copy(pdec)
    sl = UserPointsSlicer(a, b, **kw)
    c.expect(len(sl) == m, f"{len(sl)} slices for {m} points")
    rra, rdec = np.radians(pra), np.radians(pdec)
    check_points(c, sl, rra, rdec, "points")
    sl.setup_slicer(d)
    for i, s in enumerate(sl):
        ins, amb = oracle(rra[i], rdec[i], d, names, deg, radius, cam, cam_radius)
        judge(c, s["idxs"], d, ins, amb, f"point {i} ({pra[i]},{pdec[i]}) r={radius} cam={cam is not None} deg={deg}")
        sp = s["slice_point"]
        c.expect(sp["sid"] == i and sp["ra"] == sl.slice_points["ra"][i] and sp["dec"] == sl.slice_points["dec"][i], f"slice point {sp}")
    c.same(pra, pa, "caller's points modified")
    c.same(pdec, pb, "caller's points modified")
    c.raises(ValueError, lambda: UserPointsSlicer([1.0, 2.0, 3.0], [1.0, 2.0], verbose=False, use_camera=False), "different lengths of ra and dec")
    c.obs("case", (kind, m, radius, cam is not None, deg, form))
    c.note(f"UserPointsSlicer {m} points radius={radius} camera={cam is not None} {kind} n={len(d)}")


@check.scenario(30, 300)
def circle(c):
    nside = c.choice([16, 32, 64])
    _, ra, dec = synth.radec(c, 1)
    r = c.choice([1.0, 3.0, 10.0, 45.0])
    sl, pd = make_circle_subset_slicer(float(ra[0]), float(dec[0]), radius=r, nside=nside, use_cache=c.flip())
    th, ph = hp.pix2ang(nside, np.arange(12 * nside ** 2))
    sep = synth.angsep(np.radians(ra[0]), np.radians(dec[0]), ph, np.pi / 2 - th)
    want = set(np.where(sep <= np.radians(r))[0].tolist())
    amb = set(np.where(np.abs(sep - np.radians(r)) < 1e-8)[0].tolist())
    got = set(int(x) for x in sl.hpid)
    c.expect(not ((got ^ want) - amb), f"circle at {ra},{dec} r={r}: extra {sorted(got - want)[:5]} missing {sorted(want - got)[:5]}")
    c.expect(sl.nside == nside, "nside")
    c.obs("case", (nside, r, len(got)))
    c.note(f"circle subset nside={nside} r={r}: {len(got)} pixels")


class _Rows(BaseMap):
    def __init__(self, n):
        self.keynames = ["per_point", "table2", "whole", "scalar"]
        self.n = n

    def run(self, slice_points):
        n = self.n
        slice_points["per_point"] = np.arange(n) * 10.0
        slice_points["table2"] = np.arange(n * 3).reshape(n, 3)
        slice_points["whole"] = np.arange(n + 1)
        slice_points["scalar"] = 7
        return slice_points


@check.scenario(40, 400)
def map_rows(c):
    """values a map adds per point reach their own point"""
    names, deg, cam, radius, cam_radius, kw = options(c)
    kind, d = visits(c, names, deg)
    which = c.choice(["hp", "sub", "user"])
    if which == "user":
        m = c.choice([1, 2, 9])
        _, a, b = synth.radec(c, m)
        sl = UserPointsSlicer(a, b, **kw)
        ids = list(range(m))
        n = m
    else:
        nside = c.choice([1, 2])
        n = 12 * nside ** 2
        if which == "hp":
            sl = HealpixSlicer(nside=nside, use_cache=False, **kw)
            ids = list(range(n))
        else:
            ids = [int(x) for x in c.rng.permutation(n)[:5]]
            sl = HealpixSubsetSlicer(nside, np.array(ids), use_cache=False, **kw)
    sl.setup_slicer(d, maps=[_Rows(n)])
    k = 0
    for i, s in zip(ids, sl):
        sp = s["slice_point"]
        c.expect(sp["sid"] == i and sp["per_point"] == i * 10.0, f"{which} point {i}: {sp}")
        c.same(sp["table2"], np.arange(3) + 3 * i, f"{which} point {i} table row")
        c.same(sp["whole"], np.arange(n + 1), f"{which} point {i} shared array")
        c.expect(sp["scalar"] == 7, "scalar")
        k += 1
    c.expect(k == len(ids), "points delivered")
    c.obs("case", (which, n, kind))
    c.note(f"map values reach their own slice point: {which} n={n}")


@check.scenario(60, 500)
def equality(c):
    names, deg, cam, radius, cam_radius, kw = options(c)
    kw = dict(kw, use_camera=False)
    alt = c.choice(["same", "radius", "lon_col", "lat_col", "nside", "points", "type", "camera", "rot_sky_pos_col_name"])
    which = c.choice(["hp", "sub", "user"])
    kw2 = dict(kw)
    if alt == "radius":
        kw2["radius"] = kw["radius"] + 0.1
    if alt in ("lon_col", "lat_col", "rot_sky_pos_col_name"):
        kw2[alt] = "other"
    if alt == "camera":
        kw2["use_camera"] = True
    nside = c.choice([1, 2])
    nside2 = nside * 2 if alt == "nside" else nside
    if which == "hp":
        a = HealpixSlicer(nside=nside, **kw)
        b = HealpixSlicer(nside=nside2, **kw2)
        if alt == "points":
            return c.obs("skipped")
        if alt == "type":
            b = HealpixSubsetSlicer(nside, np.array([1, 2]), **kw2)
    elif which == "sub":
        a = HealpixSubsetSlicer(nside, np.array([1, 2, 3]), **kw)
        b = HealpixSubsetSlicer(nside2, np.array([1, 2, 3]) if alt != "points" else np.array([1, 2, 4]), **kw2)
        if alt == "type":
            b = HealpixSlicer(nside=nside, **kw2)
    else:
        a = UserPointsSlicer([1.0, 2.0], [3.0, 4.0], **kw)
        b = UserPointsSlicer([1.0, 2.0], [3.0, 4.0] if alt != "points" else [3.0, 4.5], **kw2)
        if alt == "nside":
            b = UserPointsSlicer([1.0, 2.0, 2.0], [3.0, 4.0, 4.0], **kw2)
        if alt == "type":
            b = HealpixSlicer(nside=nside, **kw2)
    want = alt == "same"
    c.expect(bool(a == b) == want and bool(b == a) == want, f"{which} {alt}: == gives {a == b}/{b == a}")
    c.expect(bool(a != b) != want, f"{which} {alt}: != wrong")
    c.obs("case", (which, alt))
    c.note(f"equality {which}/{alt} -> {want}")


class VisitHash(BaseMetric):
    def __init__(self, **kw):
        super().__init__(col="visit", metric_name="hash", units="", **kw)

    def run(self, d, slice_point=None):
        v = np.sort(d["visit"])
        return float(np.sum((v - 990.0) ** 2) + 1e-3 * len(v))


@check.scenario(40, 400)
def cache(c):
    """the same values with and without result caching"""
    names, deg, cam, radius, cam_radius, kw = options(c)
    nside = c.choice([1, 2, 4, 8])
    kind, d = visits(c, names, deg)
    out = []
    sub = c.flip(0.4)
    hpid = c.rng.permutation(12 * nside ** 2)[: c.randint(1, 12 * nside ** 2)]
    for use in (True, False):
        sl = HealpixSubsetSlicer(nside, hpid, use_cache=use, **kw) if sub else HealpixSlicer(nside=nside, use_cache=use, **kw)
        if use and c.flip():
            sl.cache_size = c.choice([1, 2, 3])
        b = MetricBundle(VisitHash(), sl, None)
        with tempfile.TemporaryDirectory(dir=SCR) as t:
            g = MetricBundleGroup({"a": b}, None, out_dir=t, save_early=False)
            g.run_current(None, sim_data=d.copy())
        out.append(b.metric_values)
    c.same(np.ma.getmaskarray(out[0]), np.ma.getmaskarray(out[1]), "mask with/without cache")
    c.same(out[0].compressed(), out[1].compressed(), "values with/without cache")
    # and against the oracle
    th, ph = hp.pix2ang(nside, np.arange(12 * nside ** 2))
    use = set(hpid.tolist()) if sub else set(range(12 * nside ** 2))
    for i in range(12 * nside ** 2):
        if i not in use:
            c.expect(np.ma.getmaskarray(out[1])[i], "value outside the subset")
            continue
        ins, amb = oracle(ph[i], np.pi / 2 - th[i], d, names, deg, radius, cam, cam_radius)
        if amb.any():
            continue
        if not ins.any():
            c.expect(np.ma.getmaskarray(out[1])[i], f"point {i} has no visits but a value")
        else:
            v = d["visit"][ins]
            c.close(out[1].data[i], np.sum((v - 990.0) ** 2) + 1e-3 * len(v), f"value at point {i}")
    c.obs("case", (nside, sub, kind, radius, cam is not None))
    c.obs("unmasked", n=int(out[0].count()))
    c.note(f"cache on/off identical: nside={nside} subset={sub} {kind} unmasked={out[0].count()}")
