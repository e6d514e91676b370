"""C25: shared survey utilities and sky maps equal their documented definitions."""

import math
import os
import warnings

import numpy as np

from vlib import synth
from vlib.h import Check

check = Check(
    "C25",
    "every utility call is compared with an independently written definition (plain Python / own spherical "
    "trigonometry / own HEALPix lookup over the map that the workload itself wrote), and history-dependent "
    "caches are monitored by interleaving requests for different maps in one process",
    assumptions=["healpy pixel geometry and interpolation", "numpy percentiles", "astropy FITS input/output"],
    nproc=4,
    budget=(150, 600),
)


check.setup_fn = lambda: synth.throughputs(os.environ["RUBIN_SIM_DATA_DIR"])


def sky(c, n):
    """Positions in radians, nudged off the exact pixel borders."""
    kind, ra, dec = synth.radec(c, n)
    ra = np.radians(np.asarray(ra, float) + c.rng.uniform(1e-4, 2e-4, n)) % (2 * np.pi)
    dec = np.radians(np.clip(np.asarray(dec, float) + c.rng.uniform(1e-4, 2e-4, n), -90, 90))
    return ra, dec


# --------------------------------------------------------------- plain numbers
def pct(sorted_vals, q):
    """Linear-interpolation percentile, written out."""
    n = len(sorted_vals)
    pos = q / 100.0 * (n - 1)
    lo = int(math.floor(pos))
    hi = min(lo + 1, n - 1)
    return sorted_vals[lo] + (sorted_vals[hi] - sorted_vals[lo]) * (pos - lo)


def draw_data(c, nmax=300):
    n = c.choice([1, 2, 3, 5, c.randint(4, nmax)])
    kind = c.choice(["normal", "uniform", "outlier", "const", "int"])
    if kind == "normal":
        x = c.rng.normal(c.uniform(-50, 50), c.uniform(0.1, 10), n)
    elif kind == "uniform":
        x = c.rng.uniform(-3, 8, n)
    elif kind == "outlier":
        x = c.rng.normal(0, 1, n)
        x[c.randint(0, n - 1)] = c.uniform(-1e4, 1e4)
    elif kind == "const":
        x = np.full(n, c.uniform(-3, 3))
    else:
        x = c.rng.integers(-20, 20, n).astype(float)
    return kind, x


@check.scenario(60, 500)
def bins(c):
    from rubin_sim.maf.utils import optimal_bins, percentile_clipping

    kind, x = draw_data(c)
    nan = c.flip(0.3)
    if nan:
        x[c.rng.random(len(x)) < 0.2] = np.nan
    masked = c.flip(0.4)
    data, use = x, x
    if masked:
        m = c.rng.random(len(x)) < c.choice([0.2, 0.5, 1.1])
        fill = x.copy()
        fill[m] = c.choice([-1e9, 666.0, np.nan])
        data = np.ma.MaskedArray(fill, mask=m)
        use = x[~m]
    nmax, nmin = c.choice([(200, 1), (50, 5), (10, 10), (1000, 1)])
    kw = {}
    good = use[~np.isnan(use)]
    lo = hi = None
    if len(good) and c.flip(0.4):
        lo = kw["binmin"] = float(np.min(good)) + c.uniform(-1, 2)
    if len(good) and c.flip(0.4):
        hi = kw["binmax"] = float(np.max(good)) - c.uniform(-1, 2)
    before = np.array(x, copy=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = optimal_bins(data, nbin_max=nmax, nbin_min=nmin, **kw)
    c.obs("optimal_bins", (kind, nan, masked, lo is None, hi is None))
    if not masked:
        c.expect(np.array_equal(x, before, equal_nan=True), "optimal_bins changed its input", "bins-input")
    c.expect(isinstance(got, (int, np.integer)), f"{got!r} is not a whole number of bins", "bins-int")
    if not len(good):
        c.same(int(got), nmax, "bins with no usable data", "bins-nodata")
        return
    lo = np.min(good) if lo is None else lo
    hi = np.max(good) if hi is None else hi
    sel = sorted(float(v) for v in good if lo <= v <= hi)
    if not sel:
        c.same(int(got), nmax, "bins with no data in range", "bins-norange")
    else:
        iqr = pct(sel, 75) - pct(sel, 25)
        if iqr <= 1e-12 * max(1.0, abs(hi), abs(lo)):
            if iqr == 0 and hi >= lo:
                c.same(int(got), nmax, "bins for zero interquartile range", "bins-iqr0")
        else:
            want = (hi - lo) / (2 * iqr * len(sel) ** (-1 / 3))
            want = min(max(want, nmin), nmax)
            c.expect(
                int(got) == int(want) or abs(want - round(want)) < 1e-6 and abs(int(got) - want) < 1.001,
                f"{got} bins, Freedman-Diaconis gives {want}",
                "bins-rule",
            )
    # percentile clipping
    v = sorted(float(t) for t in good)
    p = c.choice([95.0, 100.0, 50, c.uniform(1, 100)])
    a, b = percentile_clipping(np.array(c.rng.permutation(good)), percentile=p)
    c.close(a, pct(v, (100 - p) / 2), "lower clip", rtol=1e-9, atol=1e-9, key="clip")
    c.close(b, pct(v, 100 - (100 - p) / 2), "upper clip", rtol=1e-9, atol=1e-9, key="clip")
    if p == 95.0:
        a2, b2 = percentile_clipping(good)
        c.same((float(a2), float(b2)), (float(a), float(b)), "default percentile", "clip-default")


@check.scenario(40, 300)
def depth_math(c):
    from rubin_sim.maf.utils import astrom_precision, coadd_m5, m52snr, sigma_slope

    n = c.randint(1, 40)
    m5 = c.uniform(20, 26, n)
    got = coadd_m5(m5 if c.flip(0.5) else list(m5))
    want = 1.25 * math.log10(math.fsum(10.0 ** (0.8 * v) for v in m5))
    c.close(got, want, "coadded depth", rtol=1e-11, key="coadd")
    # inverse relation: k equal visits deepen by 1.25 log10 k
    k = c.randint(1, 200)
    c.close(coadd_m5([m5[0]] * k), m5[0] + 1.25 * math.log10(k), "k equal visits", rtol=1e-10, key="coadd-k")
    # signal to noise
    m = c.uniform(14, 28, n)
    gamma = c.choice([0.04, 0.038, 0.039, None, 0.0, c.uniform(0.01, 0.04)])
    got = m52snr(m, m5, gamma=gamma)
    c.obs("m52snr", (repr(gamma)[:5], n > 1))
    for i in range(n):
        x = 10.0 ** (0.4 * (m[i] - m5[i]))
        w = 5.0 / x if gamma is None else 1.0 / math.sqrt((0.04 - gamma) * x + gamma * x * x)
        c.close(got[i], w, "signal to noise", rtol=1e-9, key="snr")
    c.close(m52snr(m, m5), m52snr(m, m5, gamma=0.04), "default gamma", rtol=1e-12, key="snr-default")
    c.close(m52snr(m5, m5, gamma=gamma), np.full(n, 5.0), "SNR at the limit is 5", rtol=1e-9, key="snr-five")
    c.close(m52snr(float(m[0]), float(m5[0]), gamma), got[0], "scalar SNR", rtol=1e-12, key="snr-scalar")
    # astrometric precision
    fwhm = c.uniform(0.4, 2.5, n)
    floor = c.choice([0.0, 0.01, c.uniform(0, 0.1)])
    got = astrom_precision(fwhm, m52snr(m, m5, gamma), floor) if floor else astrom_precision(fwhm, m52snr(m, m5, gamma))
    s = m52snr(m, m5, gamma)
    for i in range(n):
        c.close(got[i], math.hypot(fwhm[i] / s[i], floor), "astrometric precision", rtol=1e-10, key="astrom")
        c.expect(got[i] >= floor, "precision better than the systematic floor", "astrom-floor")
    # slope uncertainty from the normal matrix
    x = c.rng.uniform(0, 10, n)
    sy = c.rng.uniform(0.01, 1, n)
    if c.flip(0.2):
        x[:] = x[0]
    got = sigma_slope(x, sy)
    if n == 1 or np.ptp(x) == 0:
        c.expect(np.isnan(got) or got > 1e3, f"slope through one abscissa is undetermined, got {got}", "slope-degenerate")
    elif np.ptp(x) > 0.1:
        a = np.stack([np.ones(n), x], axis=1) / sy[:, None]
        cov = np.linalg.inv(a.T @ a)
        c.close(got, math.sqrt(cov[1, 1]), "slope uncertainty", rtol=1e-6, key="slope")
        # translation invariance
        c.close(sigma_slope(x - 7.0, sy), got, "slope uncertainty after a shift", rtol=1e-6, key="slope-shift")


@check.scenario(30, 250)
def nights(c):
    from rubin_sim.maf.utils import collapse_night

    n = c.randint(1, 120)
    cols = c.choice([
        dict(night_col="night", filter_col="filter", m5_col="fiveSigmaDepth", mjd_col="observationStartMJD"),
        dict(night_col="day_obs", filter_col="band", m5_col="depth", mjd_col="mjd"),
        dict(night_col="night", filter_col="band", m5_col="fiveSigmaDepth", mjd_col="observationStartMJD"),
    ])
    d = np.zeros(n, dtype=[(cols["night_col"], int), (cols["filter_col"], "U1"), (cols["m5_col"], float),
                           (cols["mjd_col"], float), ("other", float)])
    night = c.rng.integers(0, c.choice([1, 3, 30]), n) + c.choice([0, 1000])
    d[cols["night_col"]] = night
    bands = c.choice(["r", "gr", "ugrizy"])
    d[cols["filter_col"]] = c.rng.choice(list(bands), n)
    d[cols["m5_col"]] = c.uniform(21, 26, n)
    d[cols["mjd_col"]] = 60000 + night + c.uniform(0, 0.4, n)
    before = d.copy()
    got = collapse_night(d, **cols)
    c.same(d.tobytes(), before.tobytes(), "input visits", "night-input")
    want = {}
    for row in d:
        want.setdefault((int(row[cols["night_col"]]), str(row[cols["filter_col"]])), []).append(
            (float(row[cols["mjd_col"]]), float(row[cols["m5_col"]]))
        )
    c.obs("collapse", (len(bands), cols["mjd_col"], n > len(want)), n=len(want))
    c.same(len(got), len(want), "rows per night and band", "night-rows")
    keys = [(int(r[cols["night_col"]]), str(r[cols["filter_col"]])) for r in got]
    c.same(sorted(keys), sorted(want), "nights and bands", "night-keys")
    for r, k in zip(got, keys):
        t = sorted(v[0] for v in want[k])
        h = len(t) // 2
        med = t[h] if len(t) % 2 else 0.5 * (t[h - 1] + t[h])
        c.close(r[cols["mjd_col"]], med, "median time", rtol=0, atol=1e-9, key="night-mjd")
        c.close(
            r[cols["m5_col"]],
            1.25 * math.log10(math.fsum(10 ** (0.8 * v[1]) for v in want[k])),
            "nightly depth",
            rtol=1e-10,
            key="night-m5",
        )
    c.expect(np.all(np.diff(got[cols["mjd_col"]]) >= 0), "nightly rows not in time order", "night-order")


@check.scenario(40, 300)
def pixels(c):
    import healpy as hp

    from rubin_sim.maf.utils import radec2pix

    nside = c.choice([1, 2, 8, 64, 128])
    ra, dec = sky(c, c.randint(1, 60))
    got = radec2pix(nside, ra, dec)
    c.obs("radec2pix", nside, n=len(ra))
    x, y, z = np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)
    c.same(np.asarray(got).tolist(), hp.vec2pix(nside, x, y, z).tolist(), "pixel of a sky position", "pix")
    # round trip on pixel centres
    pix = c.rng.integers(0, 12 * nside * nside, 50)
    th, ph = hp.pix2ang(nside, pix)
    c.same(radec2pix(nside, ph, np.pi / 2 - th).tolist(), pix.tolist(), "pixel of a pixel centre", "pix-roundtrip")


# ------------------------------------------------------------------- names
FORBIDDEN = "<>= .,/\\():;%#"


@check.scenario(40, 300)
def names(c):
    from rubin_sim.maf.utils import name_sanitize

    alphabet = list("abcXYZ019_-+ ") + list(FORBIDDEN) + ["__", " . ", "r band", "night <= 365", "éß", "[", "'", "\""]
    s = "".join(c.choice(alphabet) for _ in range(c.randint(0, 25)))
    out = name_sanitize(s)
    c.obs("sanitize", (len(s) > 0, len(set(s) & set(FORBIDDEN))))
    for ch in FORBIDDEN:
        c.expect(ch not in out, f"{s!r} -> {out!r} still has {ch!r}", "name-forbidden")
    c.expect("__" not in out, f"{s!r} -> {out!r} has a double underscore", "name-double")
    c.same(name_sanitize(out), out, "sanitising twice", "name-idempotent")
    want = ""
    table = {">": "gt", "<": "lt", "=": "eq", ",": "", "(": "", ")": ""}
    for ch in s:
        want += table.get(ch, "_" if ch in " ./\\:;%#" else ch)
    while "__" in want:
        want = want.replace("__", "_")
    c.same(out, want, "sanitised name", "name-table")


@check.scenario(40, 300)
def labels(c):
    from rubin_sim.maf import batches

    a = c.choice([None, "r band", "", "DD:COSMOS"])
    b = c.choice([None, "night<365", "WFD"])
    want = " ".join(v for v in (a, b) if v is not None) if (a is not None or b is not None) else None
    c.same(batches.combine_info_labels(a, b), want, "combined labels", "labels")
    # filter list
    allb = c.flip(0.5)
    sql = c.choice([None, "", "night < 365", "visitExposureTime > 10 or night = 3"])
    lab = c.choice([None, "", "one year"])
    col = c.choice(["band", "filter", None])
    kw = dict(all=allb, extra_sql=sql, extra_info_label=lab)
    if col:
        kw["band_col"] = col
    fl, colors, orders, sqls, info = batches.filter_list(**kw)
    bands = list("ugrizy")
    c.obs("filter_list", (allb, sql, lab, col))
    c.same(list(fl), (["all"] if allb else []) + bands, "bands listed", "fl-bands")
    c.same(sorted(colors), sorted(fl), "bands with a colour", "fl-colors")
    c.same(sorted(fl, key=lambda b: orders[b]), list(fl), "order of bands", "fl-orders")
    c.same(sorted(sqls), sorted(fl), "bands with a constraint", "fl-sqls")
    c.same(sorted(info), sorted(fl), "bands with a label", "fl-info")
    c.same(len(set(colors.values())), len(fl), "distinct colours", "fl-color-distinct")
    c.same(sorted(fl, key=lambda f: orders[f]), list(fl), "band order", "fl-orders")
    # the constraint selects exactly what it says: run it in sqlite
    import sqlite3

    con = sqlite3.connect(":memory:")
    bc = col or "band"
    con.execute(f"create table v (id int, {bc} text, night int, visitExposureTime real)")
    rows = []
    for i in range(60):
        rows.append((i, c.choice(bands), c.choice([1, 3, 300, 364, 365, 366, 1000]), c.choice([5.0, 10.0, 15.0, 30.0])))
    con.executemany("insert into v values (?,?,?,?)", rows)
    for f in fl:
        q = "select id from v" + (f" where {sqls[f]}" if sqls[f] else "") + " order by id"
        got = [r[0] for r in con.execute(q)]
        sel = []
        for i, b_, n_, e_ in rows:
            if f != "all" and b_ != f:
                continue
            if sql == "night < 365" and not n_ < 365:
                continue
            if sql and "or" in sql and not (e_ > 10 or n_ == 3):
                continue
            sel.append(i)
        c.same(got, sel, f"visits selected for {f} with {sql!r}", "fl-select")
    con.close()
    prefix = (sql + " " if sql else "") if lab is None else lab + " "
    for f in fl:
        c.same(info[f], prefix + ("all bands" if f == "all" else f + " band"), "label", "fl-label")


@check.scenario(30, 200)
def metric_lists(c):
    from rubin_sim.maf import batches, metrics

    col = c.choice(["night", "airmass", "seeingFwhmGeom", "edian", "a", "normairmass", "rotSkyPos", "slewTime", "fiveSigmaDepth"])
    rep = c.choice([None, "", "seeing", "X Y"])
    which = c.choice(["standard", "extended", "angle"])
    fn = {"standard": batches.standard_metrics, "extended": batches.extended_metrics, "angle": batches.standard_angle_metrics}[which]
    got = fn(col, replace_colname=rep)
    plain = fn(col)
    c.obs("metric_list", (which, col, rep))
    c.same(len(got), len(plain), "number of metrics", "ml-n")
    for g, p in zip(got, plain):
        c.same(type(g).__name__, type(p).__name__, "metric", "ml-type")
        c.same([str(x) for x in g.col_name_arr], [col], "column used", "ml-col")
        c.expect(p.name.endswith(" " + col) or col in p.name, f"{p.name} does not name {col}", "ml-plain")
        if rep == "":
            if p.name.endswith(" " + col):
                c.same(g.name, p.name[: -len(col) - 1], "name without the column", "ml-name-empty")
        elif rep is not None and p.name.count(col) == 1:
            head = p.name.index(col)
            c.same(g.name, p.name[:head] + rep + p.name[head + len(col):], "name with the column replaced", "ml-name-rep")
    c.same(len({g.name for g in got}), len(got), "distinct metric names", "ml-distinct")
    # the values the lists compute
    n = c.randint(2, 50)
    v = c.uniform(0, 6, n)
    d = np.zeros(n, dtype=[(col, float)])
    d[col] = v
    s = sorted(float(t) for t in v)
    for g in got:
        name = type(g).__name__
        want = None
        if name == "MeanMetric":
            want = math.fsum(s) / n
        elif name == "MedianMetric":
            want = pct(s, 50)
        elif name == "MinMetric":
            want = s[0]
        elif name == "MaxMetric":
            want = s[-1]
        elif name == "RmsMetric":
            want = math.sqrt(math.fsum((t - math.fsum(s) / n) ** 2 for t in s) / n)
        elif name == "CountMetric":
            want = n
        elif name == "PercentileMetric":
            want = pct(s, g.percentile)
        elif name == "NoutliersNsigmaMetric":
            mu, sd = math.fsum(s) / n, math.sqrt(math.fsum((t - math.fsum(s) / n) ** 2 for t in s) / n)
            want = sum(t > mu + 3 * sd for t in s) if g.n_sigma > 0 else sum(t < mu - 3 * sd for t in s)
        if want is not None:
            c.close(g.run(d), want, f"{g.name} of {n} values", rtol=1e-9, atol=1e-9, key="ml-value")
    if which == "extended":
        c.same(sorted(g.percentile for g in got if hasattr(g, "percentile")), [25, 75], "percentiles", "ml-pct")
        c.same(sorted(g.n_sigma for g in got if hasattr(g, "n_sigma")), [-3, 3], "outlier sides", "ml-sig")
    # summary lists
    wc = c.flip(0.5)
    ss = batches.standard_summary(with_count=wc)
    want = ["Mean", "Rms", "Median", "Max", "Min", "N(+3Sigma)", "N(-3Sigma)"] + (["Count"] if wc else [])
    c.same(sorted(m.name.removesuffix(" None") for m in ss), sorted(want), "summary statistics", "ms-names")
    es = batches.extended_summary()
    c.same(sorted(m.name.removesuffix(" None") for m in es), sorted(want + ["25th%ile", "75th%ile"] + ([] if wc else ["Count"])), "extended summary", "ms-ext")
    md = np.zeros(n, dtype=[("metricdata", float)])
    md["metricdata"] = v
    for m in es:
        m.colname = "metricdata"
        nm = m.name.removesuffix(" None")
        want = {
            "Mean": math.fsum(s) / n, "Median": pct(s, 50), "Max": s[-1], "Min": s[0], "Count": n,
            "25th%ile": pct(s, 25), "75th%ile": pct(s, 75),
        }.get(nm)
        if want is not None:
            c.close(m.run(md), want, f"summary {nm}", rtol=1e-9, atol=1e-9, key="ms-value")
    # lightcurve and microlensing summaries: what each counts
    det = (c.rng.random(n) < 0.5).astype(float)
    mask = c.rng.random(n) < 0.3
    if mask.all():
        mask[0] = False
    foot = det[~mask]
    ls = {m.name: m for m in batches.lightcurve_summary()}

    def ev(m):
        vals = det if getattr(m, "mask_val", None) == 0 else foot
        if getattr(m, "mask_val", None) == 0:
            vals = np.where(mask, 0.0, det)
        a = np.zeros(len(vals), dtype=[("metricdata", float)])
        a["metricdata"] = vals
        m.colname = "metricdata"
        return float(m.run(a))

    tot = float(foot.sum())
    for nm, w in (
        ("Total detected", tot),
        ("Total lightcurves in footprint", len(foot)),
        ("Total lightcurves on sky", n),
        ("Fraction detected in footprint (mean)", tot / len(foot)),
        ("Fraction detected of total (mean)", tot / n),
    ):
        c.close(ev(ls[nm]), w, nm, rtol=1e-12, key="ms-lightcurve")
    npts = c.randint(1, 20)
    cut = c.choice([0.1, 0.05, 0.5])
    counts = c.rng.integers(0, 30, n).astype(float)
    a = np.zeros(n, dtype=[("metricdata", float)])
    a["metricdata"] = counts
    m = batches.microlensing_summary("Npts", npts_required=npts)[0]
    m.colname = "metricdata"
    c.close(m.run(a), float(np.mean([t >= npts for t in counts])), m.name, rtol=1e-12, key="ms-npts")
    a["metricdata"] = c.uniform(0, 1, n)
    m = batches.microlensing_summary("Fisher", Fisher_sigmatE_tE_cutoff=cut)[0]
    m.colname = "metricdata"
    c.close(m.run(a), float(np.mean([t < cut for t in a["metricdata"]])), m.name, rtol=1e-12, key="ms-fisher")
    c.raises(Exception, lambda: batches.microlensing_summary("npts"), "unknown microlensing type", "ms-type")
    th = [float(t) for t in c.rng.choice(100, 3, replace=False)]
    fr = batches.fraction_population_at_threshold(th)
    c.same([m.threshold for m in fr], th, "thresholds", "ms-frac")
    c.same([bool(m.cumulative) for m in fr], [False] * 3, "differential fractions", "ms-frac-cum")
    c.same([m.name for m in fr], [f"FractionPop {t}" for t in th], "names", "ms-frac-name")
    fr = batches.fraction_population_at_threshold(th, optnames=["a", "b", "c"])
    c.same([m.name for m in fr], ["FractionPop a", "FractionPop b", "FractionPop c"], "given names", "ms-frac-opt")
    hi, req, hv = c.choice([0.33, 0.2, 0.6]), c.randint(1, 4), float(c.randint(15, 20))
    times = np.sort(c.uniform(0, 10, 4))
    hgrid = np.arange(14.0, 22.0, 0.5)
    vals = np.ma.array(c.uniform(0, 10, (12, hgrid.size)), mask=c.rng.random((12, hgrid.size)) < 0.2)
    step = np.full(hgrid.size, 0.5)
    w = 10 ** (hi * (hgrid - hgrid[0])) * step
    kw = {} if hi == 0.33 else {"h_index": hi}
    two = batches.summary_completeness_at_time(times, hv, **kw)
    j = int(np.argmin(abs(hgrid - hv)))
    done = vals.filled(np.inf)
    for m, cumu in zip(two, (False, True)):
        got = m.run(vals, hgrid)["value"]
        for k in range(1, 4):
            fr = ((done >= times[0]) & (done < times[k])).mean(axis=0)
            want = float((fr * w)[: j + 1].sum() / w[: j + 1].sum()) if cumu else float(fr[j])
            c.close(float(got[k]), want, f"completeness at time, cumulative={cumu}", rtol=1e-9, atol=1e-12, key="ms-at-time")
    c.same(len(two), 2, "two kinds", "ms-at-time-n")
    kw = {} if hi == 0.33 else {"Hindex": hi}
    two = batches.summary_completeness_over_h(requiredChances=req, **kw)
    fr = (vals.filled(0) >= req).mean(axis=0)
    for m, cumu in zip(two, (False, True)):
        c.close(m.run(vals, hgrid)["value"], np.cumsum(fr * w) / np.cumsum(w) if cumu else fr, f"completeness over H, cumulative={cumu}", rtol=1e-9, atol=1e-12, key="ms-over-h")


@check.scenario(8, 20)
def column_maps(c):
    from rubin_sim.maf import batches

    known = ["FBS", "consdb", "opsimfbs", "fbs_sim", "opsimv4", "opsimv3", "barebones"]
    nm = c.choice(known)
    m = batches.col_map_dict(c.choice([nm, nm.upper(), nm.lower()]))
    c.obs("col_map", nm)
    for k in ("ra", "dec", "mjd", "exptime", "visittime", "alt", "az", "filter", "fiveSigmaDepth", "night", "slewtime",
              "seeingEff", "seeingGeom"):
        c.expect(isinstance(m.get(k), str) and m[k], f"{nm} has no column for {k}", "cm-missing")
    one = [m[k] for k in ("ra", "dec", "mjd", "alt", "az", "night", "fiveSigmaDepth")]
    c.same(len(set(one)), len(one), "distinct columns", "cm-distinct")
    c.expect(isinstance(m["raDecDeg"], bool), "raDecDeg", "cm-deg")
    c.same(m["raDecDeg"], nm != "opsimv3", "degrees flag", "cm-degval")
    # a caller may edit its copy without changing later maps
    m["ra"] = "changed"
    m["metadataList"].append("x")
    m2 = batches.col_map_dict(nm)
    c.expect(m2["ra"] != "changed" and "x" not in m2["metadataList"], "column maps are shared between callers", "cm-shared")
    c.same(batches.col_map_dict(), batches.col_map_dict("FBS"), "default column map", "cm-default")
    c.raises(ValueError, lambda: batches.col_map_dict("nosuch"), "unknown column map", "cm-unknown")


@check.scenario(20, 100)
def stars(c):
    from rubin_sim.maf.utils import stellar_mags

    types = ["O", "B", "A", "F", "G", "K", "M", "HeWD_25200_80", "WD_11000_85", "WD_3000_85"]
    t = c.choice(types)
    r1, r2 = c.uniform(10, 26), c.uniform(10, 26)
    a, b = stellar_mags(t, rmag=r1), stellar_mags(t, rmag=r2)
    c.obs("stellar_mags", t)
    c.same(sorted(a), sorted("ugrizy"), "bands", "star-bands")
    c.same(float(a["r"]), float(r1), "r magnitude", "star-r")
    for f in "ugrizy":
        c.close(a[f] - r1, b[f] - r2, f"{t} colour {f}-r", rtol=0, atol=1e-9, key="star-color")
    c.same(float(stellar_mags(t)["r"]), 19.0, "default brightness", "star-default")
    # hotter main-sequence stars are bluer in every colour
    seq = [stellar_mags(s, rmag=20) for s in "OBAFGKM"]
    for f, g in ("gr", "ri", "iz"):
        col = [s[f] - s[g] for s in seq]
        c.expect(all(x < y for x, y in zip(col, col[1:])), f"{f}-{g} not ordered by temperature: {col}", "star-sequence")
    # published colours (Kurucz G star, and the extremes)
    G = dict(ug=1.198219095, gr=0.3915608688, ri=0.09129426676, iz=0.002604263747, zy=-0.004659443668)
    g = stellar_mags("G", rmag=r1)
    for k, v in G.items():
        c.close(g[k[0]] - g[k[1]], v, f"G star {k}", rtol=0, atol=1e-9, key="star-G")
    M = dict(ug=2.747842719, gr=1.287599638, ri=0.5375622482, iz=0.4313486709, zy=0.219308065)
    g = stellar_mags("M", rmag=r1)
    for k, v in M.items():
        c.close(g[k[0]] - g[k[1]], v, f"M star {k}", rtol=0, atol=1e-9, key="star-M")
    c.raises(ValueError, lambda: stellar_mags("Q"), "unknown star", "star-unknown")


@check.scenario(3, 6)
def zeropoints(c):
    from rubin_scheduler.utils import SysEngVals

    from rubin_sim.maf.utils import load_inst_zeropoints

    # throughputs on the 0.1 nm grid of the real data, each case with its own transmission
    data = os.path.join(c.scratch, "zp")
    tdir = os.path.join(data, "throughputs", "baseline")
    os.makedirs(tdir, exist_ok=True)
    w = np.arange(300.0, 1150.0 + 0.01, 0.1)
    curve = {}
    for b, (lo, hi) in synth.BANDS.items():
        t = c.uniform(0.05, 0.6) / (1 + np.exp(-(w - lo) / 4.0)) / (1 + np.exp((w - hi) / 5.0))
        t[t < 1e-6] = 0
        curve[b] = t
        np.savetxt(os.path.join(tdir, f"total_{b}.dat"), np.column_stack([w, t]), fmt="%.4f %.10f")
    old = os.environ["RUBIN_SIM_DATA_DIR"]
    os.environ["RUBIN_SIM_DATA_DIR"] = data
    try:
        zp, k = load_inst_zeropoints()
    finally:
        os.environ["RUBIN_SIM_DATA_DIR"] = old
    c.obs("zeropoints", sorted(zp))
    c.same(sorted(zp), sorted("ugrizy"), "bands", "zp-bands")
    c.same({b: float(v) for b, v in k.items()}, {b: float(v) for b, v in SysEngVals().k_atm.items()}, "extinction", "zp-k")
    # zeropoint: magnitude that gives one photo-electron per second (own photon count)
    area = math.pi * (6.423 * 100 / 2) ** 2  # cm^2
    h_erg = 6.62607e-27
    for b in "ugrizy":
        integral = float(np.sum(curve[b] / w) * 0.1)
        # flat AB spectrum: photons = F_nu / h * area * integral(T dlnlam)
        want = 2.5 * math.log10(3.631e-20 * area / h_erg * integral)
        c.close(zp[b], want, f"{b} zeropoint", rtol=0, atol=0.02, key="zp-value")


# -------------------------------------------------------------------- maps
def points(c, nside=None, subset=False):
    """Slice points as a slicer makes them: healpix (nside set) or free."""
    import healpy as hp

    if nside:
        pix = np.arange(12 * nside * nside)
        if subset:
            pix = np.sort(c.rng.choice(pix, c.randint(1, min(len(pix), 200)), replace=False))
        th, ph = hp.pix2ang(nside, pix)
        return {"sid": pix, "ra": ph, "dec": np.pi / 2 - th, "nside": nside}
    ra, dec = sky(c, c.randint(1, 60))
    return {"sid": np.arange(len(ra)), "ra": np.asarray(ra), "dec": np.asarray(dec)}


def lookup(grid, nside, ra, dec):
    import healpy as hp

    x, y, z = np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)
    return grid[hp.vec2pix(nside, x, y, z)]


def clear_of_border(nside, ra, dec, eps=1e-8):
    """True where a tiny displacement does not change the pixel."""
    ids = np.arange(12 * nside * nside)
    here = lookup(ids, nside, ra, dec)
    ok = np.ones(len(here), bool)
    for da, dd in ((eps, 0), (-eps, 0), (0, eps), (0, -eps), (eps, eps), (-eps, -eps), (eps, -eps), (-eps, eps)):
        ok &= here == lookup(ids, nside, ra + da, dec + dd)
    return ok


def interp(grid, nside, ra, dec):
    """Own weighting of the four neighbours healpy names."""
    import healpy as hp

    pix, w = hp.get_interp_weights(nside, np.pi / 2 - dec, ra)
    return np.sum(grid[pix] * w, axis=0)


@check.scenario(30, 200)
def galactic(c):
    from rubin_sim.maf.maps import GalCoordsMap

    sp = points(c, c.choice([None, None, 4]))
    ra, dec = sp["ra"].copy(), sp["dec"].copy()
    out = GalCoordsMap().run(sp)
    c.obs("galcoords", "nside" in sp, n=len(ra))
    # own rotation from the IAU definition of galactic coordinates (J2000)
    ra_p, dec_p, l_ncp = (math.radians(v) for v in (192.85948, 27.12825, 122.93192))
    for i in range(len(ra)):
        sb = math.sin(dec_p) * math.sin(dec[i]) + math.cos(dec_p) * math.cos(dec[i]) * math.cos(ra[i] - ra_p)
        y = math.cos(dec[i]) * math.sin(ra[i] - ra_p)
        x = math.cos(dec_p) * math.sin(dec[i]) - math.sin(dec_p) * math.cos(dec[i]) * math.cos(ra[i] - ra_p)
        l_ = l_ncp - math.atan2(y, x)
        b_ = math.asin(max(-1, min(1, sb)))
        sep = synth.angsep(l_, b_, out["gall"][i], out["galb"][i])
        c.expect(sep < math.radians(1.0 / 3600), f"galactic coordinates off by {math.degrees(sep) * 3600:.2f} arcsec", "gal")
        c.expect(0 <= out["gall"][i] <= 2 * math.pi and abs(out["galb"][i]) <= math.pi / 2 + 1e-12, "range", "gal-range")
    c.same(out["ra"].tolist(), ra.tolist(), "positions kept", "gal-kept")


@check.scenario(24, 150)
def dust(c):
    from rubin_sim.maf.maps import DustMap
    from rubin_sim.maf.maps.ebv_hp import eb_vhp

    grids = {}
    dirs = []
    for k in range(2):
        d = os.path.join(c.scratch, f"dust{k}")
        os.makedirs(d, exist_ok=True)
        dirs.append(d)
        for ns in (4, 8):
            g = c.rng.random(12 * ns * ns)
            np.savez(os.path.join(d, f"dust_nside_{ns}.npz"), ebvMap=g)
            grids[d, ns] = g
    # interleaved requests over maps, resolutions and slicers
    for step in range(c.randint(2, 8)):
        d, ns = c.choice(dirs), c.choice([4, 8])
        ip = c.flip(0.4)
        kind = c.choice(["healpix", "subset", "free", "free"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if kind == "free":
                sp = points(c)
                out = DustMap(interp=ip, nside=ns, map_path=d).run(dict(sp))
                g = grids[d, ns]
                want = interp(g, ns, sp["ra"], sp["dec"]) if ip else lookup(g, ns, sp["ra"], sp["dec"])
            else:
                sp = points(c, ns, kind == "subset")
                out = DustMap(interp=ip, nside=c.choice([4, 8]), map_path=d).run(dict(sp))
                want = grids[d, ns][sp["sid"]]
        c.obs("dust", (kind, ip, ns, step > 0), n=len(want))
        c.close(np.atleast_1d(out["ebv"]), want, f"E(B-V) ({kind}, interp={ip})", rtol=1e-12, key="dust")
    sp = points(c)
    c.close(eb_vhp(4, ra=sp["ra"], dec=sp["dec"], map_path=dirs[0]), lookup(grids[dirs[0], 4], 4, sp["ra"], sp["dec"]), "eb_vhp", rtol=1e-12, key="dust-fn")
    c.raises(RuntimeError, lambda: eb_vhp(4, map_path=dirs[0]), "no points given", "dust-none")


@check.scenario(16, 100)
def dust3d(c):
    import healpy as hp
    from astropy.io import fits

    from rubin_sim.maf.maps import DustMap3D
    from rubin_sim.maf.maps.ebv_3d_hp import ebv_3d_hp, get_x_at_nearest_y

    files = []
    nd = c.choice([3, 7])
    for k in range(c.randint(2, 3)):
        ns = c.choice([2, 4])
        nest = c.flip(0.4)
        npix = 12 * ns * ns
        dist = np.cumsum(c.rng.uniform(200, 2000, (npix, nd)), axis=1)
        ebv = np.cumsum(c.rng.uniform(0, 0.3, (npix, nd)), axis=1)
        dd, ee = dist, ebv
        if nest:
            dd = np.stack([hp.reorder(dist[:, i], r2n=True) for i in range(nd)], axis=1)
            ee = np.stack([hp.reorder(ebv[:, i], r2n=True) for i in range(nd)], axis=1)
        p = os.path.join(c.scratch, f"m{k}.fits")
        h0 = fits.PrimaryHDU(np.arange(npix))
        h0.header["NSIDE"] = ns
        h0.header["NESTED"] = nest
        fits.HDUList([h0, fits.ImageHDU(dd), fits.ImageHDU(ee)]).writeto(p, overwrite=True)
        files.append((p, ns, nest, dist, ebv))
    r_x = {b: 1.0 + 0.4 * i for i, b in enumerate("yzirgu")}
    for step in range(c.randint(2, 7)):
        p, ns, nest, dist, ebv = c.choice(files)
        kind = c.choice(["healpix", "subset", "free", "wrong", "one"])
        ip = c.flip(0.5)
        dpc, dmag, band = c.choice([1000.0, 3000, 9000.0]), c.choice([10.0, 13.5, 15.2]), c.choice(list("ugrizy"))
        m = DustMap3D(nside=c.choice([ns, 2, 4]), map_file=p, interp=ip, filtername=band, dist_pc=dpc, d_mag=dmag, r_x=r_x)
        c.obs("dust3d", (kind, ip, nest, ns, step > 0))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if kind == "wrong":
                # pixels of another resolution must be refused, whatever was read before
                other = 2 if ns == 4 else 4
                c.raises(ValueError, lambda: m.run(points(c, other)), "pixels of the wrong resolution", "dust3d-nside")
                sp = points(c)
                got = ebv_3d_hp(other, map_file=p, ra=sp["ra"], dec=sp["dec"])
                c.close(got[0], lookup(dist, ns, sp["ra"], sp["dec"]), "distances (map resolution used)", rtol=1e-6, key="dust3d-mapnside")
                continue
            if kind == "free" or kind == "one":
                sp = points(c)
                if kind == "one":
                    sp = {k_: v[:1] for k_, v in sp.items()}
                out = m.run(dict(sp))
                if ip:
                    wd = np.stack([interp(dist[:, i], ns, sp["ra"], sp["dec"]) for i in range(nd)], axis=1)
                    we = np.stack([interp(ebv[:, i], ns, sp["ra"], sp["dec"]) for i in range(nd)], axis=1)
                else:
                    wd, we = lookup(dist, ns, sp["ra"], sp["dec"]), lookup(ebv, ns, sp["ra"], sp["dec"])
            else:
                sp = points(c, ns, kind == "subset")
                out = m.run(dict(sp))
                wd, we = dist[sp["sid"]], ebv[sp["sid"]]
        c.close(out["ebv3d_dists"], wd, f"distances ({kind}, step {step})", rtol=1e-9, key="dust3d-dists")
        c.close(out["ebv3d_ebvs"], we, f"reddenings ({kind}, step {step})", rtol=1e-9, key="dust3d-ebvs")
        at = np.asarray(out[f"ebv3d_ebv_at_{dpc:.1f}"])
        far = np.asarray(out[f"ebv3d_dist_at_{dmag:.1f}"])
        c.same(list(at.shape), [len(wd)], "one E(B-V) per point", "dust3d-shape")
        c.same(list(far.shape), [len(wd)], "one distance per point", "dust3d-shape")
        c.same(sorted(m.keynames), sorted(k_ for k_ in out if k_.startswith("ebv3d")), "keys added", "dust3d-keys")
        for i in range(len(wd)):
            gaps = np.abs(wd[i] - dpc)
            j = int(np.argmin(gaps))
            if np.sort(gaps)[1] - gaps[j] > 1e-6:
                c.close(at[i], we[i][j], "E(B-V) at the chosen distance", rtol=1e-9, key="dust3d-at")
            mm = 5 * np.log10(wd[i]) - 5 + r_x[band] * we[i]
            gaps = np.abs(mm - dmag)
            j = int(np.argmin(gaps))
            if np.sort(gaps)[1] - gaps[j] > 1e-9:
                beyond = 10 ** (0.2 * (dmag - r_x[band] * we[i][-1]) + 1)
                c.close(far[i], max(beyond, wd[i][j]), "distance at m-M", rtol=1e-9, key="dust3d-far")
                c.close(m.distance_at_dmag(dmag, wd[i], we[i], band), max(beyond, wd[i][j]), "single-point distance at m-M", rtol=1e-9, key="dust3d-far1")
    c.raises(RuntimeError, lambda: ebv_3d_hp(64), "no points given", "dust3d-none")
    x = c.rng.random((c.randint(1, 5), 6))
    a, b = get_x_at_nearest_y(x, x + 100, 0.5)
    c.same(list(np.shape(a)), [len(x)], "nearest values per row", "nearest-shape")
    c.close(b - a, np.full(len(x), 100.0), "paired values", rtol=1e-12, key="nearest-pair")


@check.scenario(12, 60)
def stars_density(c):
    import healpy as hp
    from astropy.coordinates import SkyCoord

    from rubin_sim.maf.maps import StellarDensityMap, TrilegalDensityMap

    data = os.path.join(c.scratch, "data")
    sd, td = os.path.join(data, "maps", "StarMaps"), os.path.join(data, "maps", "TriMaps")
    os.makedirs(sd, exist_ok=True)
    os.makedirs(td, exist_ok=True)
    npix = 12 * 64 * 64
    nb = 4
    files = {}
    for band in "gr":
        for st in ("", "wdstars_"):
            dens = c.rng.random((npix, nb))
            bins = np.arange(nb + 1) + c.uniform(14, 16)
            np.savez(os.path.join(sd, f"starDensity_{band}_{st}nside_64.npz"), starDensity=dens, bins=bins)
            files[band, st] = (dens, bins)
    for step in range(4):
        band, st = c.choice(list("gr")), c.choice(["", "wdstars_"])
        dens, bins = files[band, st]
        m = StellarDensityMap(startype="allstars" if not st else "wdstars", filtername=band, map_dir=sd)
        kind = c.choice(["free", "full64", "coarse"])
        sp = {"free": lambda: points(c), "full64": lambda: points(c, 64),
              "coarse": lambda: points(c, 8, c.flip(0.5))}[kind]()
        out = m.run(dict(sp))
        want = lookup(dens, 64, sp["ra"], sp["dec"]) if kind != "full64" else dens
        c.obs("stellar_density", (kind, band, st), n=len(want))
        c.same(sorted(m.keynames), sorted(k for k in out if k.startswith("star")), "keys added", "star-keys")
        got = out[f"starLumFunc_{band}"]
        # pixel centres of a coarser grid can lie on the corners of this one
        ok = clear_of_border(64, sp["ra"], sp["dec"]) if kind != "full64" else np.ones(len(want), bool)
        c.same(len(got), len(want), "one luminosity function per slice point", "star-rows")
        got, want = got[ok], want[ok]
        c.close(got, want, f"luminosity function ({kind})", rtol=1e-12, key="star-lf")
        c.close(out[f"starMapBins_{band}"], bins, "magnitude bins", rtol=1e-12, key="star-bins")
    old = os.environ["RUBIN_SIM_DATA_DIR"]
    os.environ["RUBIN_SIM_DATA_DIR"] = data
    try:
        for step in range(2):
            ns, ext, band = c.choice([4, 8]), c.flip(0.5), c.choice(list("gr"))
            npx = 12 * ns * ns
            dens = c.rng.random((npx, nb))
            bins = np.arange(nb + 1) + 15.0
            np.savez(os.path.join(td, f"TRIstarDensity_{band}_nside_{ns}{'_ext' if ext else ''}.npz"), starDensity=dens, bins=bins)
            m = TrilegalDensityMap(filtername=band, nside=ns, ext=ext)
            sp = points(c, c.choice([None, 2]))
            out = m.run(dict(sp))
            co = SkyCoord(ra=sp["ra"], dec=sp["dec"], unit="rad").galactic
            # nearest pixel centre in galactic coordinates (brute force)
            th, ph = hp.pix2ang(ns, np.arange(npx), nest=True)
            px = np.stack([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])
            l_, b_ = co.l.rad, co.b.rad
            v = np.stack([np.cos(b_) * np.cos(l_), np.cos(b_) * np.sin(l_), np.sin(b_)])
            dots = v.T @ px
            best = np.argmax(dots, axis=1)
            clear = np.sort(dots, axis=1)[:, -1] - np.sort(dots, axis=1)[:, -2] > 1e-9
            c.obs("trilegal", (ns, ext, band), n=int(clear.sum()))
            c.close(out[f"starLumFunc_{band}"][clear], dens[best][clear], "TRILEGAL luminosity function", rtol=1e-12, key="tri-lf")
            c.close(out[f"starMapBins_{band}"], bins, "TRILEGAL bins", rtol=1e-12, key="tri-bins")
    finally:
        os.environ["RUBIN_SIM_DATA_DIR"] = old


@check.scenario(4, 20)
def plane_priority(c):
    from astropy.io import fits

    from rubin_sim.maf.maps import GalacticPlanePriorityMap, galplane_priority_map

    npix = 12 * 64 * 64
    sci = ["combined_map", "bulge_map"]
    sets = {}
    for k in range(2):
        d = os.path.join(c.scratch, f"gp{k}")
        os.makedirs(d, exist_ok=True)
        for alt in (False, True):
            for f in ["u", "g", "r", "i", "z", "y", "sum"]:
                cols = {s: c.rng.random(npix) for s in sci}
                nm = f"priority_GalPlane_footprint_{'alt_' if alt else ''}map_data_{f}.fits"
                fits.HDUList([
                    fits.PrimaryHDU(),
                    fits.BinTableHDU.from_columns([fits.Column(name=s, format="D", array=v) for s, v in cols.items()]),
                ]).writeto(os.path.join(d, nm), overwrite=True)
                for s, v in cols.items():
                    sets[d, alt, f, s] = v
    dirs = sorted({k[0] for k in sets})
    for step in range(c.randint(2, 5)):
        d = c.choice(dirs)
        alt = c.flip(0.4)
        kind = c.choice(["map64", "subset", "free", "fn"])
        ip = c.flip(0.4)
        c.obs("galplane", (kind, ip, alt and kind == "fn", step > 0))
        sp = points(c, 64 if kind == "map64" else None)
        if kind == "subset":
            sp = points(c, 64, True)
        if kind == "fn":
            kw = dict(ra=sp["ra"], dec=sp["dec"], interp=ip, map_path=d, use_alt_maps=alt)
            out = galplane_priority_map(64, **kw)
        else:
            alt = False
            m = GalacticPlanePriorityMap(interp=ip, map_path=d)
            out = m.run(dict(sp))
            c.same(sorted(m.keynames), sorted(k for k in out if k.startswith("galplane")), "keys added", "gp-keys")
        for f in ["u", "g", "r", "i", "z", "y", "sum"]:
            for s in sci:
                g = sets[d, alt, f, s]
                if "nside" in sp:
                    want = g[sp["sid"]]
                else:
                    want = interp(g, 64, sp["ra"], sp["dec"]) if ip else lookup(g, 64, sp["ra"], sp["dec"])
                c.close(np.atleast_1d(out[f"galplane_priority_{s}:{f}"]), want, f"priority {s}:{f} ({kind}, step {step})", rtol=1e-12, key="gp")
    c.raises(RuntimeError, lambda: galplane_priority_map(32, pixels=np.arange(3), map_path=dirs[0]), "unsupported resolution", "gp-nside")
