"""C12: vector-valued metrics, bin by bin."""
import bisect
import math
import os

import numpy as np
import rubin_sim.maf.metric_bundles as mb
import rubin_sim.maf.metrics as M
import rubin_sim.maf.slicers as S

from checks.c07 import mean, median, std
from vlib import synth
from vlib.h import Check, short

check = Check("C12", "vector metrics over random bins (regular, irregular, integer edges, empty, outside the data) and random visits (ties, values on edges, unsorted, one visit); every bin compared with a loop over the visits. "
              "Non-trivial: a compared vector with at least one visit in range.",
              assumptions=["the last bin of a histogram includes its upper edge (the numpy convention)", "astroplan/astropy rise and set times are trusted; only consistency with the Sun is checked",
                           "nights increase with time"])


def setup():
    p = os.path.join(os.environ["RUBIN_SIM_DATA_DIR"], "utils", "fov_map.npz")
    synth.fov_map(p)


check.setup_fn = setup


def visits(c, lo=0, hi=60):
    n = c.choice([1, 2, 3, c.randint(4, 30), c.randint(20, 200)])
    d = np.zeros(n, dtype=[("night", int), ("observationStartMJD", float), ("fiveSigmaDepth", float), ("x", float), ("val", float), ("k", int)])
    if c.flip():
        d["night"] = c.rng.integers(lo, hi + 1, n)
    else:
        d["night"] = c.rng.integers(lo, lo + 4, n) + c.randint(0, hi - 4)
    d["observationStartMJD"] = 60000 + d["night"] + c.uniform(0, 0.4, n)
    d["fiveSigmaDepth"] = c.uniform(20, 25, n)
    d["x"] = c.choice([c.uniform(lo, hi, n), np.round(c.uniform(lo, hi, n)), np.round(c.uniform(lo, hi, n) * 2) / 2])
    d["val"] = c.uniform(-5, 5, n)
    d["k"] = c.rng.integers(0, 9, n)
    return d


def bins(c, lo=0, hi=60):
    kind = c.choice(["regular", "integer", "half", "irregular", "few", "outside", "two"])
    if kind == "regular":
        b = np.linspace(lo + c.uniform(-10, 20), hi + c.uniform(-15, 10), c.randint(3, 40))
    elif kind == "integer":
        b = np.arange(c.randint(lo - 5, lo + 10), c.randint(hi - 20, hi + 10), c.choice([1, 1, 2, 7]))
    elif kind == "half":
        b = np.arange(lo, hi + 1) - 0.5
    elif kind == "irregular":
        b = np.unique(c.choice([np.round(c.uniform(lo, hi, 12)), c.uniform(lo - 5, hi + 5, 9)]))
    elif kind == "few":
        b = np.array([lo, c.uniform(lo + 1, hi - 1), hi])
    elif kind == "outside":
        b = np.linspace(hi + 5, hi + 40, 6) if c.flip() else np.linspace(lo - 40, lo - 2, 6)
    else:
        b = np.array([lo - 1.0, hi + 1.0])
    return kind, b


def members(x, b, i):
    last = i == len(b) - 2
    return [j for j, v in enumerate(x) if b[i] <= v < b[i + 1] or (last and v == b[i + 1])]


def coadd(m5):
    return 1.25 * math.log10(sum(10 ** (0.8 * v) for v in m5))


def order_free(c, m, d, key):
    v = np.asarray(m.run(d.copy()), float)
    w = np.asarray(m.run(d[c.rng.permutation(len(d))]), float)
    c.expect(v.shape == w.shape and np.allclose(v, w, rtol=1e-9, atol=1e-9, equal_nan=True), lambda: f"{key}: depends on the order of the visits: {short(v)} / {short(w)}", key + "_order")
    x = d.copy()
    m.run(x)
    c.expect(sorted(x.tolist()) == sorted(d.tolist()), f"{key}: visits changed", key + "_data")
    need = [k for k in m.col_name_arr if k is not None]
    r = np.zeros(len(d), dtype=[(k, d.dtype[k]) for k in dict.fromkeys(need)])
    for k in r.dtype.names:
        r[k] = d[k]
    w = np.asarray(m.run(r), float)
    c.expect(np.allclose(v, w, rtol=1e-9, atol=1e-9, equal_nan=True), f"{key}: differs on the declared columns alone", key + "_cols")
    return v


STAT = {"count": len, "sum": sum, "mean": mean, "median": median, "min": min, "max": max, "std": std}
EMPTY = {"count": 0, "sum": 0}


@check.scenario(1200, 15000)
def histogram(c):
    d = visits(c)
    kind, b = bins(c)
    col, bcol = c.choice(["val", "fiveSigmaDepth", "k", "night"]), c.choice(["night", "x"])
    st = c.choice(list(STAT))
    bb = b.tolist() if c.flip(0.3) else b
    m = M.HistogramMetric(bins=bb, bin_col=bcol, col=col, statistic=st)
    v = order_free(c, m, d, "Histogram")
    c.expect(v.shape == (len(b) - 1,) and m.shape == len(b) - 1, lambda: f"shape {v.shape} for {len(b)} edges", "hist_shape")
    X, V = [float(t) for t in d[bcol]], [float(t) for t in d[col]]
    tot = 0
    for i in range(len(b) - 1):
        g = members(X, b, i)
        tot += len(g)
        w = STAT[st]([V[j] for j in g]) if g else EMPTY.get(st, float("nan"))
        if math.isnan(w):
            c.expect(math.isnan(v[i]) or v[i] == m.badval, f"{st} of the empty bin {i}: {v[i]}", "hist_empty")
        else:
            c.close(v[i], w, f"{st}({col}) of bin [{b[i]},{b[i + 1]}) of {bcol}", rtol=1e-7, atol=1e-7, key="hist_value")
    if st == "count":
        c.expect(int(v.sum()) == sum(b[0] <= x <= b[-1] for x in X), "counts not conserved", "hist_conserve")
    c.obs("histogram" if tot else "histogram_empty", (kind, st, bcol))
    # depth per bin
    bad = c.choice([-666, -1.0])
    m = M.HistogramM5Metric(bins=b, bin_col=bcol, badval=bad)
    v = order_free(c, m, d, "HistogramM5")
    for i in range(len(b) - 1):
        g = members(X, b, i)
        c.close(v[i], coadd(d["fiveSigmaDepth"][g]) if g else bad, f"coadded depth of bin {i}", rtol=1e-9, key="histm5")
    c.obs("histogram_m5" if tot else "histogram_empty", (kind, bcol))


@check.scenario(1500, 20000)
def accumulate(c):
    d = visits(c)
    kind, b = bins(c)
    bcol = c.choice(["night", "x"])
    X = [float(t) for t in d[bcol]]
    bad = c.choice([-666, -1.0, -5])
    bb = b.tolist() if c.flip(0.3) else b
    upto = [[j for j, x in enumerate(X) if x <= e] for e in b[1:]]
    some = any(upto)
    m = M.AccumulateCountMetric(bins=bb, bin_col=bcol, badval=bad)
    v = order_free(c, m, d, "AccumulateCount")
    for i, g in enumerate(upto):
        c.close(v[i], len(g) if g else bad, f"visits with {bcol} <= {b[i + 1]}", rtol=0, key="acc_count")
    good = v[[bool(g) for g in upto]]
    c.expect(bool(np.all(np.diff(good) >= 0)), "cumulative count goes backwards", "acc_monotonic")
    c.obs("accumulate_count" if some else "accumulate_none", (kind, bcol))
    fn, py, col = c.choice([(np.add, sum, "val"), (np.add, sum, "k"), (np.maximum, max, "val"), (np.minimum, min, "fiveSigmaDepth"), (np.multiply, math.prod, "fiveSigmaDepth")])
    if fn is np.multiply:
        d["fiveSigmaDepth"] = c.uniform(0.9, 1.1, len(d))
    m = M.AccumulateMetric(col=col, bins=bb, bin_col=bcol, function=fn, badval=bad)
    v = order_free(c, m, d, "Accumulate")
    for i, g in enumerate(upto):
        c.close(v[i], py([float(d[col][j]) for j in g]) if g else bad, f"{fn.__name__}({col}) of the visits with {bcol} <= {b[i + 1]}", rtol=1e-8, atol=1e-8, key="acc_value")
    c.expect(v.shape == (len(b) - 1,), "shape", "acc_shape")
    c.obs("accumulate" if some else "accumulate_none", (kind, fn.__name__))
    d["fiveSigmaDepth"] = c.uniform(20, 25, len(d))
    m = M.AccumulateM5Metric(bins=bb, bin_col=bcol, badval=bad)
    v = order_free(c, m, d, "AccumulateM5")
    for i, g in enumerate(upto):
        c.close(v[i], coadd(d["fiveSigmaDepth"][g]) if g else bad, f"coadded depth of the visits with {bcol} <= {b[i + 1]}", rtol=1e-9, key="acc_m5")
    good = v[[bool(g) for g in upto]]
    c.expect(bool(np.all(np.diff(good) >= -1e-9)), "coadded depth goes backwards", "acc_m5_monotonic")
    if upto[-1]:
        h = M.Coaddm5Metric().run(d[upto[-1]])
        c.close(v[-1], h, "final depth / coadded depth of all visits in range", rtol=1e-9, key="acc_m5_final")
    c.obs("accumulate_m5" if some else "accumulate_none", (kind, bcol))


@check.scenario(400, 5000)
def uniformity(c):
    d = visits(c)
    kind, b = bins(c)
    if len(b) < 3:
        b = np.linspace(b[0], b[-1], 4)
    m = M.AccumulateUniformityMetric(bins=np.asarray(b, float), bin_col="night")
    v = order_free(c, m, d, "AccumulateUniformity")
    nb = len(b) - 1
    if len(d) == 1:
        c.expect(v.shape == (nb,) and bool(np.all(v == 1)), f"a single visit gives {short(v)}", "unif_single")
        c.obs("uniformity", "single")
        return
    X = [float(x) for x in d["night"]]
    best = 0.0
    for i in range(nb):
        # the last bin includes its upper edge
        cum = sum(b[0] <= x < b[i + 1] or (i == nb - 1 and x == b[-1]) for x in X)
        best = max(best, abs(cum - i / (nb - 1) * len(X)))
        c.close(v[i], best / len(X), f"largest departure from uniform up to bin {i}", rtol=1e-9, atol=1e-12, key="unif_value")
    c.expect(bool(np.all(np.diff(v) >= 0)) and v.min() >= 0, "departure goes backwards", "unif_monotonic")
    c.obs("uniformity", (kind, nb > 20))
    if c.index % 20 == 0:
        L = c.choice([1, 2.5, 10])
        m = M.AccumulateUniformityMetric(survey_length=L)
        v = m.run(d.copy())
        c.expect(len(v) == math.ceil(L * 365.25) - 1, f"{len(v)} nights for {L} years", "unif_default")


@check.scenario(500, 6000)
def cumulative(c):
    d = visits(c)
    d = d[np.argsort(d["observationStartMJD"], kind="stable")]
    N = sorted(int(x) for x in d["night"])
    if c.flip():
        pts = None
        xs = list(range(N[0], N[-1] + 1))
    else:
        pts = np.unique(np.round(c.uniform(N[0], N[-1] + 10, c.randint(1, 20)) * c.choice([1, 2])) / c.choice([1, 2]))
        pts = pts[pts >= N[0]]
        if not len(pts):
            pts = np.array([float(N[-1])])
        xs = pts.tolist()
    m = M.CumulativeMetric(interp_points=pts)
    r = m.run(d[c.rng.permutation(len(d))])
    c.expect(np.array_equal(np.asarray(r["x"], float), np.asarray(xs, float)), lambda: f"points {short(r['x'])}, wanted {short(xs)}", "cum_x")
    y = np.asarray(r["y"], float)
    c.expect(bool(np.all(np.diff(y) >= 0)), "cumulative number goes backwards", "cum_monotonic")
    s = set(N)
    for x, v in zip(xs, y):
        k = bisect.bisect_right(N, x)
        if x in s or x >= N[-1]:
            c.close(v, k, f"number of visits up to night {x}", rtol=1e-12, key="cum_value")
        else:
            nxt = N[k]
            c.expect(k <= v <= N.index(nxt) + 1, f"number up to night {x} is {v}, between {k} and {N.index(nxt) + 1}", "cum_between")
    c.obs("cumulative", (pts is None, len(N) == 1))


@check.scenario(60, 600)
def pipeline(c):
    """the vectors through the framework: each slice gets its own vector, empty bins masked"""
    d = visits(c)
    # spread over sky points
    full = np.zeros(len(d), dtype=d.dtype.descr + [("fieldRA", float), ("fieldDec", float), ("rotSkyPos", float)])
    for k in d.dtype.names:
        full[k] = d[k]
    pra, pdec = np.array([10.0, 100.0, 250.0]), np.array([-20.0, -60.0, 5.0])
    who = c.rng.integers(0, 3, len(d))
    full["fieldRA"], full["fieldDec"] = pra[who], pdec[who]
    kind, b = bins(c)
    if len(b) < 3:  # a single bin is stored as a scalar metric: not judged
        b = np.linspace(b[0], b[-1], 4)
    mets = [M.AccumulateCountMetric(bins=b), M.AccumulateM5Metric(bins=b), M.HistogramM5Metric(bins=b), M.HistogramMetric(bins=b, metric_name="h")]
    bl = {}
    for i, m in enumerate(mets):
        bl[i] = mb.MetricBundle(m, S.UserPointsSlicer(ra=pra, dec=pdec, use_camera=False, lat_lon_deg=True), "")
    g = mb.MetricBundleGroup(bl, None, out_dir=os.getcwd(), save_early=False, results_db=None)
    g.set_current("")
    g.run_current("", sim_data=full.copy())
    for i, m in enumerate(mets):
        vals = bl[i].metric_values
        c.expect(vals.shape == (3, len(b) - 1), lambda: f"shape {vals.shape}", "pipe_shape")
        for p in range(3):
            sub = d[who == p]
            if not len(sub):
                c.expect(bool(np.all(np.ma.getmaskarray(vals)[p])), "a point without visits is not masked", "pipe_mask")
                continue
            want = np.asarray(m.run(sub.copy()), float)
            c.expect(np.allclose(vals.data[p], want, rtol=1e-9, equal_nan=True), lambda: f"{m.name} at point {p}: {short(vals.data[p])}, alone {short(want)}", "pipe_value")
    c.obs("pipeline", (kind, int(np.unique(who).size)))


@check.scenario(10, 60)
def hourglass(c):
    from astropy.coordinates import AltAz, EarthLocation, get_sun
    from astropy.time import Time
    import astropy.units as u
    nights = sorted(set(c.rng.integers(0, 12, c.randint(1, 3)).tolist()))
    t, f = [], []
    for nt in nights:
        x = 60676 + nt + c.uniform(0.05, 0.2)
        for _ in range(c.randint(1, 25)):
            t.append(x)
            f.append(c.choice("gri") if c.flip(0.3) or not f else f[-1])
            x += c.choice([35, 60, 100, 119, 121, 300, 1000]) / 86400.0
    d = np.zeros(len(t), dtype=[("observationStartMJD", float), ("night", int), ("band", "U1")])
    d["observationStartMJD"], d["band"] = t, f
    d["night"] = np.floor(np.array(t) - 60676)
    r = M.HourglassMetric().run(d[c.rng.permutation(len(d))], None)
    pf, pn = r["perfilter"], r["pernight"]
    want, start = [], 0
    for i in range(1, len(t) + 1):
        if i == len(t) or f[i] != f[i - 1] or t[i] - t[i - 1] > 120 / 86400.0:
            want += [(t[start], f[start]), (t[i - 1], f[i - 1])]
            start = i
    got = [(float(a), str(b)) for a, b in zip(pf["mjd"], pf["filter"])]
    c.expect(got == want, lambda: f"blocks {short(got)}, wanted {short(want)}", "hour_blocks")
    mids = np.asarray(pn["midnight"], float)
    c.expect(bool(np.all(np.diff(mids) > 0.9)), "nights repeated", "hour_nights")
    for row in pf:
        j = np.abs(mids - row["mjd"]).argmin()
        c.expect(abs(mids[j] - row["midnight"]) < 1e-9 and abs(mids[j] - row["mjd"]) < 0.51, f"visit at {row['mjd']} given midnight {row['midnight']}", "hour_midnight")
    loc = M.HourglassMetric().location

    def alt(mjd):
        tt = Time(np.asarray(mjd, float), format="mjd")
        return get_sun(tt).transform_to(AltAz(location=loc, obstime=tt)).alt.deg
    for col, a in (("twi12_rise", -12), ("twi12_set", -12), ("twi18_rise", -18), ("twi18_set", -18)):
        ok = np.isfinite(pn[col])
        c.expect(bool(np.all(np.abs(alt(pn[col][ok]) - a) < 0.3)), lambda: f"{col}: Sun at {short(alt(pn[col][ok]))}", "hour_twilight")
        s = np.sign(pn[col][ok] - mids[ok])
        c.expect(bool(np.all(s == (1 if "rise" in col else -1))), f"{col} on the wrong side of midnight", "hour_side")
    c.expect(bool(np.all(np.abs(alt(mids + 0.02) - alt(mids - 0.02)) < 1.0)), "midnight is not the Sun's lowest point", "hour_lowest")
    c.expect(bool(np.all((pn["moonPer"] >= 0) & (pn["moonPer"] <= 100))), "Moon phase out of range", "hour_moon")
    c.obs("hourglass", (len(nights), len(want) // 2 > 5))


@check.scenario(8, 60)
def night_pointing(c):
    n = c.randint(1, 40)
    d = np.zeros(n, dtype=[("observationStartMJD", float), ("altitude", float), ("azimuth", float), ("band", "U1")])
    d["observationStartMJD"] = 60676 + c.uniform(0.05, 0.4, n)
    d["altitude"], d["azimuth"], d["band"] = c.uniform(20, 90, n), c.uniform(0, 360, n), c.rng.choice(list("gri"), n)
    m = M.NightPointingMetric()
    r = m.run(d.copy())
    c.expect(np.array_equal(r["data_slice"], d), "visits changed", "np_data")
    from astropy.coordinates import AltAz, get_body, get_sun
    from astropy.time import Time
    mj = np.array([x.mjd if hasattr(x, "mjd") else float(x) for x in np.ravel(r["mjds"])])
    lo, hi = d["observationStartMJD"].min(), d["observationStartMJD"].max()
    c.expect(mj[0] <= lo - 29.9 / 1440 and mj[-1] >= hi + 29.9 / 1440 and bool(np.all(np.abs(np.diff(mj) - 20 / 1440.0) < 1e-6)), "time grid does not span the night", "np_grid")
    tt = Time(mj, format="mjd")
    aa = AltAz(location=m.location, obstime=tt)
    for nm, obj in (("sun", get_sun(tt)), ("moon", get_body("moon", tt))):
        p = obj.transform_to(aa)
        c.expect(np.allclose(r[nm + "_alts"], p.alt.rad, atol=1e-6) and np.allclose(np.cos(r[nm + "_azs"] - p.az.rad), 1, atol=1e-9), f"{nm} positions", "np_" + nm)
    c.obs("night_pointing", n == 1)
