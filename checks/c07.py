"""C07: basic statistics metrics against plain-Python definitions over the rows they are given."""
import math
import os
from collections import Counter
from fractions import Fraction

import numpy as np
import rubin_sim.maf.metrics as M
from rubin_sim.maf.stackers import BaseStacker
from rubin_sim.maf.metric_bundles import MetricBundle, MetricBundleGroup
from rubin_sim.maf.slicers import OneDSlicer, UniSlicer

from vlib.h import Check, short

check = Check("C07", "every basic metric with random options run on random visit tables (ties, single rows, negative and wrapped values, integer and float columns, shuffled rows) and compared with "
              "plain-Python definitions; each is also run on a table holding only the columns it declares, and must leave the table untouched. Non-trivial: a comparison of a returned value.",
              assumptions=["non-empty visit sets", "angles span less than 360 degrees", "sums compared to 1e-9 relative"])


def col(c, n, kind=None):
    kind = kind or c.choice(["f", "f", "i", "tie", "const", "neg", "big"])
    if kind == "f":
        return c.uniform(-100, 100, n)
    if kind == "i":
        return c.rng.integers(-20, 20, n)
    if kind == "tie":
        return c.rng.choice([0.1, 0.5, 0.5, 2.0, -3.25], n)
    if kind == "const":
        return np.full(n, c.uniform(-5, 5))
    if kind == "neg":
        return -c.uniform(0, 10, n)
    return c.uniform(1e6, 1e6 + 5, n)


def table(c, **cols):
    n = len(next(iter(cols.values())))
    extra = dict(zz=c.uniform(-1, 1, n), txt=c.rng.choice(["q", "rr"], n))
    cols = {**cols, **extra}
    names = list(cols)
    if c.flip():
        names = names[::-1]
    t = np.zeros(n, dtype=[(k, np.asarray(cols[k]).dtype) for k in names])
    for k in names:
        t[k] = cols[k]
    return t


def run(c, metric, t, what, key):
    """value of the metric; monitors: data untouched, declared columns suffice, order of rows is irrelevant"""
    before = t.copy()
    v = metric.run(t, slice_point=None)
    c.expect(t.dtype == before.dtype and np.array_equal(t, before), f"{what}: the visits were changed", key + "_modified")
    need = [x for x in metric.col_name_arr if x is not None]
    c.expect(all(x in t.dtype.names for x in need), f"{what}: declares columns {need}", key + "_cols")
    if need:
        r = np.zeros(len(t), dtype=[(x, t.dtype[x]) for x in dict.fromkeys(need)])
        for x in dict.fromkeys(need):
            r[x] = t[x]
        v2 = metric.run(r[c.rng.permutation(len(r))] if c.flip() else r, slice_point=None)
        c.expect(np.isclose(v, v2, rtol=1e-9, atol=1e-12, equal_nan=True), f"{what}: {v} on the visits, {v2} on the declared columns only / other order", key + "_cols")
    c.obs("metric_value", key)
    return v


def mean(x):
    return float(math.fsum(float(v) for v in x) / len(x))


def median(x):
    s = sorted(float(v) for v in x)
    n = len(s)
    return s[n // 2] if n % 2 else 0.5 * (s[n // 2 - 1] + s[n // 2])


def std(x):
    m = mean(x)
    return math.sqrt(max(0.0, math.fsum((float(v) - m) ** 2 for v in x) / len(x)))


def pctl(x, p):
    s = sorted(float(v) for v in x)
    k = (len(s) - 1) * p / 100.0
    f = int(math.floor(k))
    g = min(f + 1, len(s) - 1)
    return s[f] + (s[g] - s[f]) * (k - f)


@check.scenario(2500, 30000)
def single_column(c):
    n = c.choice([1, 1, 2, 3, c.randint(4, 60)])
    x = col(c, n)
    t = table(c, x=x)
    xs = [float(v) for v in x]
    w = {}
    w["Max"] = max(xs)
    w["Min"] = min(xs)
    w["AbsMax"] = max(abs(v) for v in xs)
    w["Mean"] = mean(xs)
    w["AbsMean"] = mean([abs(v) for v in xs])
    w["Median"] = median(xs)
    w["AbsMedian"] = median([abs(v) for v in xs])
    w["FullRange"] = max(xs) - min(xs)
    w["Rms"] = std(xs)
    if median(xs) != 0:
        w["RelRms"] = std(xs) / median(xs)
    w["Sum"] = math.fsum(xs)
    w["CountUnique"] = len(set(xs))
    w["UniqueRatio"] = len(set(xs)) / n
    w["Count"] = n
    w["RobustRms"] = (pctl(xs, 75) - pctl(xs, 25)) / 1.349
    w["MaxPercent"] = 100.0 * sum(v == max(xs) for v in xs) / n
    w["AbsMaxPercent"] = 100.0 * sum(abs(v) == abs(max(xs)) for v in xs) / n
    w["Binary"] = 1
    for name, want in w.items():
        m = getattr(M, name + "Metric")(c.choice(["x"])) if c.flip(0.3) else getattr(M, name + "Metric")(col="x")
        got = run(c, m, t, name, name)
        tol = 1e-7 * max(1.0, max(abs(v) for v in xs)) if name in ("Rms", "RelRms") else 1e-9 * max(1.0, abs(want))
        if name == "RelRms":
            tol /= max(1e-6, abs(median(xs)))
        c.expect(abs(float(got) - want) <= tol, lambda: f"{name} of {short(xs)}: {got}, want {want}", name)
    # options
    nv = c.choice([1, 2.5, 10.0, 365])
    c.close(run(c, M.CountRatioMetric(col="x", norm_val=nv), t, "CountRatio", "CountRatio"), n / nv, "CountRatio", key="CountRatio")
    sub = c.choice(xs + [1e9])
    sub = x.dtype.type(sub)
    c.expect(run(c, M.CountSubsetMetric(col="x", subset=sub), t, "CountSubset", "CountSubset") == sum(v == float(sub) for v in xs), "CountSubset", "CountSubset")
    lo, hi = c.choice([None, c.choice(xs), c.uniform(-20, 20)]), c.choice([None, c.choice(xs), c.uniform(-20, 20)])
    want = sum((lo is None or v > lo) and (hi is None or v < hi) for v in xs)
    got = run(c, M.CountBeyondThreshold(col="x", lower_threshold=lo, upper_threshold=hi), t, "CountBeyondThreshold", "CountBeyond")
    c.expect(got == want, f"CountBeyondThreshold({lo},{hi}) of {short(xs)}: {got}, want {want}", "CountBeyond")
    cut, sc = c.choice([c.choice(xs), c.uniform(-20, 20)]), c.choice([1, 100, 0.5])
    for cls, op in ((M.FracAboveMetric, lambda v: v >= cut), (M.FracBelowMetric, lambda v: v <= cut)):
        got = run(c, cls(col="x", cutoff=cut, scale=sc), t, cls.__name__, cls.__name__)
        c.close(got, sc * sum(op(v) for v in xs) / n, f"{cls.__name__} cutoff {cut} scale {sc} of {short(xs)}", key=cls.__name__)
    p = c.choice([0, 100, 50, 90, 25, c.uniform(0, 100)])
    c.close(run(c, M.PercentileMetric(col="x", percentile=p), t, "Percentile", "Percentile"), pctl(xs, p), f"percentile {p} of {short(xs)}", rtol=1e-8, atol=1e-9, key="Percentile")
    ns = c.choice([-1.0, 0.5, 1.0, 2.0, -2.0, 3.0, 0.0])
    b = mean(xs) + ns * std(xs)
    if all(abs(v - b) > 1e-7 * max(1, abs(b)) for v in xs):
        got = run(c, M.NoutliersNsigmaMetric(col="x", n_sigma=ns), t, "Noutliers", "Noutliers")
        want = sum(v > b for v in xs) if ns >= 0 else sum(v < b for v in xs)
        c.expect(got == want, f"Noutliers {ns} sigma of {short(xs)}: {got}, want {want}", "Noutliers")
    if x.dtype.kind == "f" and n > 1:
        bad = t.copy()
        k = c.rng.permutation(n)[: c.randint(1, n - 1)]
        bad["x"][k] = c.rng.choice([np.nan, np.inf, -np.inf], len(k))
        good = [float(v) for i, v in enumerate(x) if i not in set(k.tolist())]
        c.close(M.RealMeanMetric(col="x").run(bad, None), mean(good), "RealMean", rtol=1e-8, key="RealMean")
    c.obs("table", (x.dtype.kind, n, len(set(xs)), p, lo is None, hi is None, sc, ns))


@check.scenario(1500, 20000)
def angles(c):
    n = c.choice([1, 2, 3, c.randint(4, 40)])
    kind = c.choice(["wide", "cluster", "wrap", "neg", "grid", "same"])
    if kind == "wide":
        a = c.uniform(0, 360, n)
    elif kind == "cluster":
        a = (c.uniform(0, 360) + c.uniform(0, c.uniform(1, 170), n)) % 360
    elif kind == "wrap":
        a = (c.uniform(-40, 0) + c.uniform(0, 40, n)) % 360
    elif kind == "neg":
        a = c.uniform(-179, 180, n)
    elif kind == "grid":
        a = c.rng.choice([0.0, 45.0, 90.0, 180.0, 270.0, 359.0], n)
    else:
        a = np.full(n, c.choice([0.0, 10.0, 359.5]))
    t = table(c, a=a)
    x, y = mean([math.cos(math.radians(v)) for v in a]), mean([math.sin(math.radians(v)) for v in a])
    r = math.hypot(x, y)
    got = float(run(c, M.MeanAngleMetric(col="a"), t, "MeanAngle", "MeanAngle"))
    if abs(r - 0.1) > 1e-9:
        want = 180.0 if r < 0.1 else math.degrees(math.atan2(y, x)) % 360
        d = abs(got - want) % 360
        c.expect(min(d, 360 - d) < 1e-6 and 0 <= got <= 360.0 + 1e-9, f"mean angle of {short(a)}: {got}, want {want}", "MeanAngle")
    s = sorted(float(v) % 360 for v in a)
    gaps = [((s[(i + 1) % n] - s[i]) % 360 if n > 1 else 360.0, (i + 1) % n) for i in range(n)]
    if n > 1 and max(s) - min(s) < 1e-12:
        gaps = [(360.0, 0)]
    g = max(x[0] for x in gaps)
    if max(s) - min(s) == 0:
        g = 360.0
    full = float(run(c, M.FullRangeAngleMetric(col="a"), t, "FullRangeAngle", "FullRangeAngle"))
    c.expect(abs(full - (360 - g)) < 1e-6, f"full range of angles {short(a)}: {full}, want {360 - g}", "FullRangeAngle")
    cands = [std([(v - s[j]) % 360 for v in s]) for q, j in gaps if q > g - 1e-7] if g < 360 else [0.0]
    got = float(M.RmsAngleMetric(col="a").run(t.copy(), None))
    c.expect(any(abs(got - w) < 1e-5 for w in cands), f"rms of angles {short(a)}: {got}, want one of {cands}", "RmsAngle")
    per = c.choice([2 * math.pi, 360.0, 180.0, 1.0])
    ph = [2 * math.pi * float(v) / per for v in a]
    want = 1 - math.hypot(mean([math.cos(v) for v in ph]), mean([math.sin(v) for v in ph]))
    m = M.AngularSpreadMetric(col="a") if per == 2 * math.pi else M.AngularSpreadMetric(col="a", period=per)
    c.close(run(c, m, t, "AngularSpread", "AngularSpread"), want, f"angular spread period {per} of {short(a)}", rtol=1e-7, atol=1e-9, key="AngularSpread")
    c.obs("angles", (kind, min(n, 4)))


@check.scenario(1500, 20000)
def depths_and_counts(c):
    n = c.choice([1, 2, c.randint(3, 60)])
    m5 = c.uniform(20, 26, n)
    if c.flip(0.2):
        m5[:] = m5[0]
    f = c.rng.choice(list("ugrizy")[: c.randint(1, 6)], n)
    e = c.rng.choice([1.0, 15.0, 19.99, 20.0, 29.2, 30.0, 40.0, 45.0, 50.0, 60.0, 75.0, 300.0], n)
    nt = c.rng.integers(0, c.choice([3, 400, 3653, 5000]), n)
    fc = c.choice(["filter", "band"])
    t = table(c, m5=m5, exp=e, nt=nt, **{fc: f})
    coadd = lambda v: 1.25 * math.log10(math.fsum(10 ** (0.8 * float(q)) for q in v))
    v = float(run(c, M.Coaddm5Metric(m5_col="m5"), t, "CoaddM5", "CoaddM5"))
    c.close(v, coadd(m5), "coadded depth", key="CoaddM5")
    c.expect(v >= max(m5) - 1e-9, "coadded depth shallower than a visit", "CoaddM5")
    q = c.choice(list("ugrizy"))
    sel = m5[f == q]
    mm = M.Coaddm5Metric(m5_col="m5", filter_name=q, filter_col=fc, badval=c.choice([-666, -99.0]))
    got = float(run(c, mm, t, f"CoaddM5 in {q}", "CoaddM5_filter"))
    c.close(got, coadd(sel) if len(sel) else mm.badval, f"coadded depth in {q} of {len(sel)} visits", key="CoaddM5_filter")
    me, xe = c.choice([20.0, 15.0, 0.5, 30.0]), c.choice([30.0, 15.0, 29.2])
    got = run(c, M.CountExplimMetric(min_exp=me, expected_exp=xe, exp_col="exp"), t, "CountExplim", "CountExplim")
    c.expect(got == sum(round(float(v) / xe) for v in e if v >= me), f"visit count of exposures {short(e)} (min {me}, expected {xe}): {got}", "CountExplim")
    bins = None if c.flip() else np.sort(c.rng.choice(np.arange(-0.5, 5000), c.randint(2, 12), replace=False))
    m = M.YearCoverageMetric(night_col="nt", bins=bins) if bins is not None else M.YearCoverageMetric(night_col="nt")
    b = bins if bins is not None else np.arange(0, 11) * 365.25 - 0.5
    want = sum(any(b[i] <= v and (v < b[i + 1] or (i == len(b) - 2 and v == b[i + 1])) for v in nt) for i in range(len(b) - 1))
    if bins is None:
        # the default bins: one per year of ten years
        c.expect(len(m.bins) in (10, 11), "default year bins", "YearCoverage")
        want = sum(any(m.bins[i] <= v and (v < m.bins[i + 1] or (i == len(m.bins) - 2 and v == m.bins[i + 1])) for v in nt) for i in range(len(m.bins) - 1))
        c.close(m.bins, b[: len(m.bins)], "default year bins", key="YearCoverage")
    got = run(c, m, t, "YearCoverage", "YearCoverage")
    c.expect(got == want, f"years covered by {short(nt)}: {got}, want {want}", "YearCoverage")
    # strings
    s = c.rng.choice(["blob, gg, a, 3", "DD:XMM", "twilight, 12", "", "a, b", "x", "greedy, 7, x"][: c.randint(1, 7)], n)
    ts = table(c, s=s.astype("U24"))
    clip, pc = c.flip(), c.flip()
    m = M.StringCountMetric(col="s", percent=pc, clip_end=clip)
    before = ts.copy()
    got = m.run(ts, None)
    c.expect(np.array_equal(ts, before), "string count changed the visits", "StringCount_modified")

    def cl(v):
        p = v.split(", ")
        return ", ".join(p[:-1]) if clip and len(p) > 1 and p[-1].isdigit() else v
    cnt = Counter(cl(v) or "blank" for v in s.tolist())
    c.expect(set(got.dtype.names) == set(cnt), f"string labels {got.dtype.names} want {sorted(cnt)}", "StringCount")
    for k, k2 in cnt.items():
        w = 100.0 * k2 / n if pc else k2
        c.expect(np.isclose(got[k][0], w) and np.isclose(m.reduce_funcs[k](got), w), f"string count of {k!r}: {got[k]}, want {w}", "StringCount")
    # mapping
    mp = {"u": 1, "g": 2, "r": 3, "i": 4, "z": 5, "y": 6}
    got = M.ApplyMappingMetric(fc, mapping=c.choice([mp])).run(t, None)
    c.expect(list(got) == [mp[k] for k in f.tolist()], f"mapping of {f}: {got}", "Mapping")
    c.expect(list(M.ApplyMappingMetric(fc).run(t, None)) == f.tolist(), "no mapping", "Mapping")
    c.expect(np.array_equal(M.PassMetric(cols=["m5"]).run(t, None), t), "PassMetric", "Pass")
    c.obs("tables", (n > 2, len(sel) > 0, clip, pc, bins is None))


SIMPLE = ["Max", "AbsMax", "Mean", "AbsMean", "Median", "AbsMedian", "Min", "FullRange", "Rms", "RelRms", "Sum", "CountUnique", "UniqueRatio", "Count", "CountRatio", "CountSubset",
          "RobustRms", "MaxPercent", "AbsMaxPercent", "Binary", "FracAbove", "FracBelow", "Percentile", "NoutliersNsigma", "MeanAngle", "RmsAngle", "FullRangeAngle", "AngularSpread", "RealMean"]


@check.scenario(400, 3000)
def descriptions(c):
    """names, units, columns and bad values a metric reports are those asked for or documented"""
    name = c.choice(SIMPLE + ["Coaddm5", "YearCoverage", "CountExplim", "NChanges", "OpenShutterFraction", "BruteOSF"])
    cls = getattr(M, name + "Metric")
    kw = {}
    colkw = {"Coaddm5": "m5_col", "YearCoverage": "night_col", "CountExplim": "exp_col", "BruteOSF": "mjd_col", "OpenShutterFraction": "slew_time_col"}.get(name, "col")
    cn = c.choice(["airmass", "x y", "seeingFwhmEff", "night"])
    kw[colkw] = cn
    nm, un, bv = "My name, %d" % c.randint(0, 9), c.choice(["furlong", "#"]), c.choice([-1.5, 0, 7])
    m = cls(metric_name=nm, badval=bv, **kw)
    c.expect(m.name == nm, f"{name}: metric_name {nm!r} reported as {m.name!r}", "name_" + name)
    if name != "CountSubset":
        c.expect(m.badval == bv, f"{name}: badval {bv} reported as {m.badval}", "badval_" + name)
    c.expect(cn in list(m.col_name_arr), f"{name}: columns {m.col_name_arr} lack {cn}", "columns_" + name)
    c.expect(set(x for x in m.col_name_arr if x is not None) <= M.BaseMetric.col_registry.col_set, f"{name}: columns not registered", "registry")
    if name not in ("NChanges", "OpenShutterFraction", "BruteOSF"):
        m = cls(units=un, **kw)
        c.expect(m.units == un, f"{name}: units {un!r} reported as {m.units!r}", "units_" + name)
    if name in ("Max", "Min", "Mean", "Median", "Sum", "Rms", "FullRange"):
        want = {"airmass": "X", "x y": "", "seeingFwhmEff": "arcsec", "night": "days"}[cn]
        m = cls(**kw)
        c.expect(m.units == want, f"{name} of {cn}: units {m.units!r}", "default_units")
        c.expect(m.name == f"{name} {cn}", f"default name {m.name!r}", "default_name")
    c.expect(M.BaseMetric.get_class(name + "Metric") is cls, "metric by name", "by_name")
    # two metrics do not share settings
    a, b = cls(**kw), cls(**{**kw, colkw: "other_col"})
    c.expect("other_col" not in list(a.col_name_arr) and cn not in list(b.col_name_arr), f"{name}: metrics share columns", "shared")
    c.obs("described", name)


@check.scenario(400, 4000)
def through_a_run(c):
    """the statistic of exactly the rows in each slice, with empty slices and bad values masked"""
    n = c.randint(1, 40)
    t = table(c, x=c.uniform(0, 10, n), v=col(c, n, c.choice(["f", "i", "neg"])))
    keep = t.copy()
    defs = {"Mean": mean, "Max": lambda x: max(map(float, x)), "Median": median, "Count": len, "Sum": lambda x: math.fsum(map(float, x)), "CountUnique": lambda x: len(set(map(float, x)))}
    nm = c.choice(list(defs))
    edges = np.arange(0, 11, c.choice([1.0, 2.5, 5.0]))
    b = MetricBundle(getattr(M, nm + "Metric")(col="v"), OneDSlicer(slice_col_name="x", bins=edges) if c.flip(0.7) else UniSlicer(), "")
    g = MetricBundleGroup({"a": b}, None, save_early=False)
    g.run_current("", sim_data=t)
    if isinstance(b.slicer, UniSlicer):
        w = [t["v"]]
    else:
        w = [t["v"][(t["x"] >= edges[i]) & ((t["x"] < edges[i + 1]) | ((i == len(edges) - 2) & (t["x"] == edges[i + 1])))] for i in range(len(edges) - 1)]
    mv = b.metric_values
    c.expect(len(mv) == len(w), "number of values", "run_len")
    for i, s in enumerate(w):
        c.expect(bool(np.ma.getmaskarray(mv)[i]) == (len(s) == 0), f"slice {i} with {len(s)} visits, mask {np.ma.getmaskarray(mv)[i]}", "run_mask")
        if len(s):
            c.close(float(mv.data[i]), defs[nm](s), f"{nm} of slice {i}", rtol=1e-9, atol=1e-9, key="run_value")
    c.expect(np.array_equal(t, keep), "the visits were changed by the run", "run_modified")
    c.obs("run", (nm, len(w)))
