"""C08: summary statistics of a result against definitions over its unmasked (or filled) values."""
import math
import os
import tempfile

import healpy as hp
import numpy as np
import rubin_sim.maf.metrics as M
from rubin_sim.maf.db import ResultsDb
from rubin_sim.maf.metric_bundles import MetricBundle
from rubin_sim.maf.slicers import HealpixSlicer, OneDSlicer, UniSlicer

from vlib.h import Check, short

check = Check("C08", "random results (values, types, masks, sky resolution) with random collections of summary statistics, each compared with its definition over the unmasked or filled values, "
              "with the result itself monitored for change and every stored name and value checked. Non-trivial: a compared summary value.",
              assumptions=["area statistics are used on full-sky grids, as documented", "summary statistics of one result have distinct names"])
SCR = os.environ.get("VERIF_SCRATCH", "/tmp")


def mean(x):
    return math.fsum(x) / len(x)


def med(x):
    s = sorted(x)
    n = len(s)
    return s[n // 2] if n % 2 else 0.5 * (s[n // 2 - 1] + s[n // 2])


def make(c, sky=None):
    kind = c.choice(["hp", "hp", "oned", "uni"]) if sky is None else "hp"
    nside = c.choice([1, 2, 4, 8])
    if kind == "hp":
        s = HealpixSlicer(nside=nside, verbose=False)
        n = hp.nside2npix(nside)
    elif kind == "oned":
        n = c.randint(2, 30)
        s = OneDSlicer(slice_col_name="x", bins=np.arange(n + 1.0))
        s.setup_slicer(np.array([(0.5,)], dtype=[("x", float)]))
    else:
        n, s = 1, UniSlicer()
        s.nslice = 1
        s.shape = 1
    dt = c.choice([float, float, int])
    style = c.choice(["wide", "ties", "const"])
    if style == "wide":
        v = c.uniform(-50, 1500, n)
    elif style == "ties":
        v = c.rng.choice([0, 1, 5, 825, 824, 826, 1000], n)
    else:
        v = np.full(n, c.uniform(1, 900))
    v = np.round(v).astype(int) if dt is int else v.astype(float)
    p = c.choice([0, 0, 0.2, 0.7, 0.97, 1.0])
    mask = c.rng.random(n) < p
    bad = -666
    v[mask] = bad if dt is int else c.choice([bad, np.nan, 1e9])
    mv = np.ma.MaskedArray(v, mask=mask if (p > 0 or c.flip()) else np.ma.nomask, fill_value=bad)
    b = MetricBundle(M.CountMetric(col="x", metric_dtype=None) if False else M.MeanMetric(col="x", metric_name="mm"), s, "", info_label="lab", run_name="run")
    b.metric_values = mv
    return b, nside, n


def candidates(c, b, nside, n, good, full):
    """(summary metric, expected value)"""
    g = good
    sky = isinstance(b.slicer, HealpixSlicer)
    badv = b.slicer.badval
    out = []

    def add(m, fn):
        out.append((m, badv if len(g) == 0 else fn()))
    add(M.MeanMetric(), lambda: mean(g))
    add(M.MedianMetric(), lambda: med(g))
    add(M.MaxMetric(), lambda: max(g))
    add(M.MinMetric(), lambda: min(g))
    add(M.SumMetric(), lambda: math.fsum(g))
    add(M.CountMetric(), lambda: len(g))
    add(M.RmsMetric(), lambda: math.sqrt(mean([(v - mean(g)) ** 2 for v in g])))
    k = c.choice([2, 10, 0.5, 365.25])
    add(M.NormalizeMetric(norm_val=k, metric_name="Norm%g" % k), lambda: [v / k for v in g] if len(g) > 1 else g[0] / k)
    z = c.choice([0, 3.5, -27])
    add(M.ZeropointMetric(zp=z), lambda: [v + z for v in g] if len(g) > 1 else g[0] + z)
    add(M.IdentityMetric(metric_name="Identity"), lambda: list(g) if len(g) > 1 else g[0])
    cut = c.choice([0, 825, c.uniform(-40, 900)])
    add(M.FracAboveMetric(cutoff=cut, scale=c.choice([1])), lambda: sum(v >= cut for v in g) / len(g))
    add(M.CountBeyondThreshold(lower_threshold=cut, metric_name="beyond"), lambda: sum(v > cut for v in g))
    p = c.choice([10, 25, 90])
    add(M.PercentileMetric(percentile=p), lambda: float(np.percentile(g, p)))
    # the same statistic twice, under its own name
    add(M.MeanMetric(metric_name="Another mean"), lambda: mean(g))
    fillv = c.choice([0, 7, 10000])
    add(M.MaxMetric(mask_val=fillv, metric_name="filled max"), lambda: None)
    out[-1] = (out[-1][0], max([fillv if m else v for v, m in full]))
    add(M.SumMetric(mask_val=fillv, metric_name="filled sum"), lambda: None)
    out[-1] = (out[-1][0], math.fsum([fillv if m else v for v, m in full]))
    if sky:
        pa = hp.nside2pixarea(nside, degrees=True)
        nv = c.choice([825, 1, c.randint(-20, 900)])
        asky = c.choice([18000.0, pa, 3 * pa, pa * 1.5, 100.0, 41000.0])
        norm = c.flip()
        def foarea():
            k = sum(v >= nv for v in g)
            return -666 if k == 0 else k * pa / (asky if norm else 1.0)
        add(M.FOArea(n_visit=nv, asky=asky, nside=nside, norm=norm, metric_name="fOArea"), foarea)
        need = int(math.ceil(asky / pa))
        def fonv():
            if len(g) < need:
                return {"MedianNvis": -666, "MinNvis": -666}
            top = sorted(g)[-need:]
            q = float(nv) if norm else 1.0
            return {"MedianNvis": med(top) / q, "MinNvis": min(top) / q}
        if nv != 0:
            add(M.FONv(n_visit=nv, asky=asky, nside=nside, norm=norm, metric_name="fONv"), fonv)
        dec = c.flip()
        rf, rfp = c.choice([(None, None), (np.mean, mean), (np.median, med), (np.sum, math.fsum)])
        if len(g):
            top = sorted(g, reverse=dec)[:need]
            w = (min(top) if dec else max(top)) if rf is None else rfp(top)
            out.append((M.AreaSummaryMetric(area=asky, decreasing=dec, reduce_func=rf, metric_name="AreaSummary"), w))
        lo, hi = c.choice([(None, cut), (cut, None), (cut - 100, cut + 100)])
        out.append((M.AreaThresholdMetric(lower_threshold=lo, upper_threshold=hi, metric_name="AreaThreshold"),
                    pa * sum((lo is None or v > lo) and (hi is None or v < hi) for v in g)))
        foot = (c.rng.random(n) < c.choice([0.2, 0.6, 1.0])).astype(c.choice([float, int]))
        if foot.sum() == 0:
            foot[0] = 1
        nm = c.choice([1, 2, 825, 0.5])
        out.append((M.FootprintFractionMetric(footprint=foot, n_min=nm, metric_name="foot"),
                    sum(f > 0 and not m and v >= nm for f, (v, m) in zip(foot, full)) / sum(f > 0 for f in foot)))
    return out


def agree(got, want):
    if isinstance(want, dict):
        g = {str(r["name"]): float(r["value"]) for r in np.atleast_1d(got)}
        return set(g) == set(want) and all(math.isclose(g[k], want[k], rel_tol=1e-8, abs_tol=1e-8) for k in g)
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    return g.shape == w.shape and bool(np.allclose(g, w, rtol=1e-8, atol=1e-8, equal_nan=True))


@check.scenario(3000, 60000)
def summaries(c):
    b, nside, n = make(c)
    mv = b.metric_values
    mask = np.ma.getmaskarray(mv).copy()
    data = mv.data.copy()
    full = [(float(v), bool(m)) for v, m in zip(data, mask)]
    good = [v for v, m in full if not m]
    cand = candidates(c, b, nside, n, good, full)
    order = c.rng.permutation(len(cand))[: c.randint(1, len(cand))]
    cand = [cand[i] for i in order]
    single = len(cand) == 1 and c.flip()
    b.set_summary_metrics(cand[0][0] if single else [m for m, _ in cand])
    c.expect(len(b.summary_metrics) == len(cand), "number of summary statistics", "set")
    db = None
    d = None
    if c.flip(0.25):
        d = tempfile.mkdtemp(dir=SCR)
        db = ResultsDb(out_dir=d)
    b.compute_summary_stats(results_db=db)
    names = {m.name.replace(" metricdata", "").replace(" None", ""): (m, w) for m, w in cand}
    c.expect(set(b.summary_values) == set(names), f"summary values {sorted(b.summary_values)} for {sorted(names)}", "names")
    for k, (m, w) in names.items():
        got = b.summary_values[k]
        c.expect(agree(got, w), lambda: f"{k} ({type(m).__name__}) over {short(good)} of {n}, nside {nside}: {short(got)}, want {short(w)}", "value_" + type(m).__name__)
        c.obs("summary_value", (type(m).__name__, b.slicer.slicer_name, mv.dtype.kind, len(good) == 0, len(good) == n, nside))
    c.expect(np.array_equal(b.metric_values.data, data, equal_nan=data.dtype.kind == "f") and np.array_equal(np.ma.getmaskarray(b.metric_values), mask)
             and b.metric_values.dtype == data.dtype, "computing summaries changed the result", "changed")
    if db is not None:
        st = db.get_summary_stats()
        rec = {}
        for r in st:
            rec.setdefault(str(r["summary_metric"]), []).append(float(r["summary_value"]))
        for k, (m, w) in names.items():
            if isinstance(w, dict):
                for q, v in w.items():
                    c.expect(any(np.isclose(x, v) for x in rec.get(k + " " + q, [])), f"{k} {q} not recorded: {sorted(rec)}", "recorded")
            elif not isinstance(w, list):
                c.expect(len(rec.get(k, [])) == 1 and np.isclose(rec[k][0], w, equal_nan=True), f"{k} recorded as {rec.get(k)}, computed {w}", "recorded")
    # again, alone: the same values
    k = c.choice(list(names))
    one = MetricBundle(M.MeanMetric(col="x", metric_name="mm"), b.slicer, "", summary_metrics=names[k][0])
    one.metric_values = b.metric_values
    one.compute_summary_stats()
    c.expect(agree(one.summary_values[k], names[k][1]), f"{k} alone differs", "alone")


@check.scenario(200, 2000)
def refused_and_defaults(c):
    b, nside, n = make(c)
    c.raises(ValueError, lambda: b.set_summary_metrics([M.MeanMetric(), "Mean"]), "a summary statistic that is not a metric")
    b.set_summary_metrics(None)
    want = ["Identity"] if b.slicer.slicer_name == "UniSlicer" else []
    b.summary_values = None
    b.compute_summary_stats()
    c.expect(sorted(b.summary_values) == want, f"default summaries of {b.slicer.slicer_name}: {b.summary_values}", "default")
    if want and not np.ma.getmaskarray(b.metric_values)[0]:
        c.expect(b.summary_values["Identity"] == b.metric_values[0], "identity", "identity")
    c.obs("default", b.slicer.slicer_name)
