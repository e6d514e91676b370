"""C05: the per-run results database against a model of everything recorded."""
import copy
import os
import tempfile
import threading
import warnings

import numpy as np
from rubin_sim.maf.db import ResultsDb
from rubin_sim.maf.metric_bundles import MetricBundle, MetricBundleGroup
import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.slicers as slicers

from vlib.h import Check, short

check = Check("C05", "random histories of record/update/plot/summary/reopen/schema-migration calls on real database files, judged after every few steps by comparing every query "
              "with a model; plus concurrent writers and recording by real metric runs. Non-trivial: a history with at least two metrics and a query.",
              assumptions=["recording the same metric again keeps the first record, as documented; a summary value recorded again is an additional row",
                           "partial-name searches use patterns without SQL wildcard characters"])
SCR = os.environ.get("VERIF_SCRATCH", "/tmp")

NAMES = ["CoaddM5", "Nvisits", "Median airmass", "Fraction_night", "Count_x_y", "it's \"q\"", "x;drop table metrics", "Ünï"]
SLIC = ["HealpixSlicer", "UniSlicer", "OneDSlicer", "HealpixSubsetSlicer"]
LAB = ["r", "i band", "", "all (x)", "r and more", "O'Neil"]
RUNS = ["baseline", "baseline_v2", "other run"]
CONS = ["", "band = 'r'", "night < 100"]
PT = ["SkyMap", "Histogram", "PowerSpectrum"]
STATS = ["Median", "Mean", "N(+3Sigma)", "Identity", "Count", "Rms of x"]
MID = "metric_id"


class Model:
    def __init__(self):
        self.metrics = []      # dicts, in order of id
        self.displays = {}
        self.plots = []
        self.stats = []

    def find(self, **k):
        return [m["id"] for m in self.metrics if all(m[a] == b for a, b in k.items())]


def nul(x):
    return "NULL" if x is None else x


def rows(arr):
    return sorted(tuple(v.item() if hasattr(v, "item") else v for v in r) for r in arr)


def rowset_equal(a, b):
    if len(a) != len(b):
        return False
    key = lambda r: repr(r)
    for x, y in zip(sorted(a, key=key), sorted(b, key=key)):
        for u, v in zip(x, y):
            if isinstance(u, float) and isinstance(v, float) and np.isnan(u) and np.isnan(v):
                continue
            if u != v:
                return False
    return True


def cmp(c, got, want, what, key):
    got = [tuple(v.item() if hasattr(v, "item") else v for v in r) for r in got]
    c.expect(rowset_equal(got, want), lambda: f"{what}: got {short(got, 700)} want {short(want, 700)}", key)


def long_name(m, stat):
    s = "" if stat in ("Identity", "Id", "Count", None) else stat
    sl = "" if m["slicer"] == "UniSlicer" else m["slicer"]
    return " ".join([s, m["name"], m["label"], sl]).strip(" ")


def judge(c, db, mod, hist):
    by = {m["id"]: m for m in mod.metrics}
    h = f" after {hist[-8:]}"
    c.expect(sorted(db.get_all_metric_ids()) == sorted(by), "metric ids" + h, "ids")
    sel = c.choice([None, "one", "list", "arr"])
    ids = None
    if mod.metrics and sel is not None:
        if sel == "one":
            ids = c.choice(list(by))
        else:
            ids = [i for i in by if c.flip()]
            if sel == "arr":
                ids = np.array(ids, dtype=int)
    want_ids = list(by) if ids is None else ([ids] if sel == "one" else list(ids))
    if sel == "arr" and ids is not None:
        ids_q = [int(i) for i in ids]
    else:
        ids_q = ids
    sim = c.flip()
    cmp(c, db.get_metric_info(ids_q, with_sim_name=sim),
        [(i, by[i]["name"], by[i]["name"].split("_")[0], by[i]["slicer"], by[i]["con"], by[i]["label"], by[i]["file"]) + ((by[i]["run"],) if sim else ()) for i in want_ids],
        "metric info" + h, "info")
    cmp(c, [(x,) for x in db.get_metric_data_files(ids_q)], [(by[i]["file"],) for i in want_ids], "data files" + h, "files")
    cmp(c, db.get_metric_display_info(ids_q),
        [(i, by[i]["name"], by[i]["name"].split("_")[0], by[i]["slicer"], by[i]["con"], by[i]["label"], by[i]["file"]) + mod.displays[i] for i in want_ids if i in mod.displays],
        "display info" + h, "displays")
    cmp(c, db.get_plot_files(ids_q, with_sim_name=sim),
        [(i, by[i]["name"], by[i]["label"], t, f, "thumb." + os.path.splitext(f)[0] + ".png") + ((by[i]["run"],) if sim else ()) for (i, t, f) in mod.plots if i in want_ids],
        "plots" + h, "plots")
    kw, pred = {}, []
    if c.flip(0.4):
        n = c.choice(STATS)
        kw["summary_name"] = n
        pred.append(lambda s: s == n)
    if c.flip(0.3):
        kw["summary_name_like"] = "Me"
        pred.append(lambda s: "me" in s.lower())
    if c.flip(0.3):
        nl = c.choice(["Sigma", ["Medi", "Coun"]])
        kw["summary_name_notlike"] = nl
        pred.append(lambda s: not any(x.lower() in s.lower() for x in ([nl] if isinstance(nl, str) else nl)))
    cmp(c, db.get_summary_stats(ids_q, with_sim_name=sim, **kw),
        [(i, long_name(by[i], n), by[i]["name"], by[i]["slicer"], by[i]["label"], n, v) + ((by[i]["run"],) if sim else ())
         for (i, n, v) in mod.stats if i in want_ids and all(p(n) for p in pred)], f"summary statistics {kw}" + h, "stats")
    n = c.choice(NAMES)
    q = dict(name=n)
    a = {}
    if c.flip():
        q["slicer"] = a["slicer_name"] = c.choice(SLIC)
    if c.flip():
        q["label"] = a["metric_info_label"] = c.choice(LAB)
    if c.flip():
        q["run"] = a["run_name"] = c.choice(RUNS)
    got = db.get_metric_id(n, **a)
    c.expect(sorted(got) == sorted(mod.find(**q)), f"ids of {q}: {got} want {mod.find(**q)}" + h, "find")
    a, pr = {}, []
    if c.flip(0.6):
        w = c.choice(["visits", "dian", "Co", "x", "airmass"])
        a["metric_name_like"] = w
        pr.append(lambda m: w.lower() in m["name"].lower())
    if c.flip(0.4):
        w2 = c.choice(["Healpix", "Subset", "Slicer"])
        a["slicer_name_like"] = w2
        pr.append(lambda m: w2.lower() in m["slicer"].lower())
    if c.flip(0.4):
        w3 = c.choice(["band", "r", "("])
        a["metric_info_label_like"] = w3
        pr.append(lambda m: w3.lower() in m["label"].lower())
    if c.flip(0.4):
        r = c.choice(RUNS)
        a["run_name"] = r
        pr.append(lambda m: m["run"] == r)
    got = db.get_metric_id_like(**a)
    want = [m["id"] for m in mod.metrics if all(p(m) for p in pr)]
    c.expect(sorted(got) == sorted(want), f"ids like {a}: {got} want {want}" + h, "like")
    c.expect(sorted(db.get_run_name()) == sorted({m["run"] for m in mod.metrics}), "run names" + h, "runs")
    c.obs("judged", (min(len(mod.metrics), 12), len(mod.plots) > 0, len(mod.stats) > 0))


@check.scenario(200, 1800)
def history(c):
    d = tempfile.mkdtemp(dir=SCR)
    how = c.choice(["dir", "file", "dir+file"])
    if how == "dir":
        args = dict(out_dir=d)
        fn = os.path.join(d, "resultsDb_sqlite.db")
    elif how == "file":
        fn = os.path.join(d, "x.db")
        args = dict(database=fn)
    else:
        args = dict(out_dir=d, database="y.db")
        fn = os.path.join(d, "y.db")
    db = ResultsDb(**args)
    c.expect(os.path.isfile(fn), "database file location", "where")
    other = None
    mod, hist = Model(), []
    for step in range(c.randint(8, 45)):
        op = c.choice(["metric"] * 4 + ["again"] * 2 + ["display"] * 3 + ["plot"] * 3 + ["stat"] * 5 + ["reopen", "judge", "judge", "second", "migrate"])
        use = db if other is None or c.flip(0.6) else other
        hist.append(op)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if op == "metric":
                m = dict(name=c.choice(NAMES), slicer=c.choice(SLIC), run=c.choice(RUNS + [None]), con=c.choice(CONS + [None]),
                         label=c.choice(LAB + [None]), file=c.choice(["f%d.npz" % step, None]))
                i = use.update_metric(m["name"], m["slicer"], m["run"], m["con"], m["label"], m["file"])
                m = {k: nul(v) for k, v in m.items()}
                prev = mod.find(name=m["name"], slicer=m["slicer"], run=m["run"], con=m["con"], label=m["label"])
                if prev:
                    c.expect(i == prev[0], f"re-recorded metric got id {i}, had {prev}", "newid")
                else:
                    c.expect(i not in [x["id"] for x in mod.metrics], f"new metric got the id {i} of another", "usedid")
                    m["id"] = i
                    mod.metrics.append(m)
            elif op == "again" and mod.metrics:
                m = c.choice(mod.metrics)
                i = use.update_metric(m["name"], m["slicer"], m["run"], m["con"], m["label"], c.choice([None, m["file"]]))
                c.expect(i == m["id"], f"re-recorded metric got id {i}, had {m['id']}", "newid")
            elif op == "display" and mod.metrics:
                i = c.choice(mod.metrics)["id"]
                dd = {}
                for k, vals in dict(group=["G1", "G2", None], subgroup=["S", None, "it's"], order=[0, 3, 2.5, None], caption=["cap.", None, "a 'long' caption " * 30, "throughout(auto)", "not (auto) at the end"]).items():
                    if c.flip(0.8):
                        dd[k] = c.choice(vals)
                ow = c.flip(0.75)
                keep = copy.deepcopy(dd)
                use.update_display(i, dd, overwrite=ow)
                c.expect(dd == keep, f"the display dictionary handed in was changed: {keep} -> {dd}", "dictchanged")
                if ow or i not in mod.displays:
                    o = dd.get("order")
                    mod.displays[i] = (nul(dd.get("group")), nul(dd.get("subgroup")), float(0 if o is None else o), (nul(dd.get("caption")) or "").removesuffix("(auto)") or nul(dd.get("caption")))
            elif op == "plot" and mod.metrics:
                i, t, ow = c.choice(mod.metrics)["id"], c.choice(PT), c.flip(0.4)
                f = c.choice(["p%d.pdf" % step, "a.b_%d.png" % step])
                use.update_plot(i, t, f, overwrite=ow)
                if ow:
                    mod.plots = [p for p in mod.plots if not (p[0] == i and p[1] == t)]
                mod.plots.append((i, t, f))
            elif op == "stat" and mod.metrics:
                i, n = c.choice(mod.metrics)["id"], c.choice(STATS)
                if c.flip(0.2):
                    k = c.randint(1, 4)
                    a = np.zeros(k, dtype=[("name", c.choice(["U12", "S12"])), ("value", c.choice(["f8", "f4", "i8"]))])
                    a["name"] = ["bin %d" % j for j in range(k)]
                    a["value"] = c.rng.integers(-9, 9, k)
                    keep = a.copy()
                    use.update_summary_stat(i, n, a)
                    c.expect(np.array_equal(a, keep), "the summary values handed in were changed", "statchanged")
                    mod.stats += [(i, n + " bin %d" % j, float(a["value"][j])) for j in range(k)]
                else:
                    v = c.choice([1.5, -2.25, 7, 0, np.float64(3.125), np.int64(11), np.float32(0.5), np.int32(-3), float("nan"), float("inf"), 1e300, True])
                    use.update_summary_stat(i, n, v)
                    mod.stats.append((i, n, float(v)))
            elif op == "reopen":
                db.close()
                db = ResultsDb(**args)
            elif op == "second" and other is None:
                other = ResultsDb(**args)
            elif op == "migrate" and other is None:
                db.downgrade_database()
                db = ResultsDb(**args)
            elif op == "judge":
                judge(c, c.choice([x for x in (db, other) if x is not None]), mod, hist)
    judge(c, db, mod, hist)
    db.close()
    judge(c, ResultsDb(**args), mod, hist)
    c.obs("history", tuple(hist[:6]))


@check.scenario(12, 100)
def concurrent_writers(c):
    """several writers on one file: nothing is lost, duplicated or attached to another metric"""
    d = tempfile.mkdtemp(dir=SCR)
    ResultsDb(out_dir=d)
    nw, nm = c.randint(2, 5), c.randint(2, 5)
    errs, ids = [], {}

    def work(w):
        try:
            db = ResultsDb(out_dir=d)
            for k in range(nm):
                i = db.update_metric("m%d_%d" % (w, k), "UniSlicer", "run", "", "lab", "f%d_%d.npz" % (w, k))
                ids[(w, k)] = i
                db.update_display(i, dict(group="g%d" % w, subgroup="s", order=k, caption="c%d_%d" % (w, k)))
                for s in range(2):
                    db.update_summary_stat(i, "S%d" % s, float(100 * w + 10 * k + s))
                db.update_plot(i, "Histogram", "p%d_%d.pdf" % (w, k))
        except Exception as e:
            errs.append(e)
    th = [threading.Thread(target=work, args=(w,)) for w in range(nw)]
    [t.start() for t in th]
    [t.join() for t in th]
    c.expect(not errs, lambda: f"a writer failed: {errs[0]!r}", "writerfailed")
    c.expect(len(set(ids.values())) == nw * nm, f"metric ids are not distinct: {ids}", "sharedid")
    db = ResultsDb(out_dir=d)
    info = {r["metric_id"]: r for r in db.get_metric_display_info()}
    st = db.get_summary_stats()
    pl = {r["metric_id"]: r["plot_file"] for r in db.get_plot_files()}
    for (w, k), i in ids.items():
        r = info[i]
        c.expect((r["metric_name"], r["metric_datafile"], r["display_group"], r["display_order"], r["display_caption"]) ==
                 ("m%d_%d" % (w, k), "f%d_%d.npz" % (w, k), "g%d" % w, float(k), "c%d_%d" % (w, k)), f"record of writer {w} metric {k}: {r}", "mixed")
        c.expect(sorted(st[st["metric_id"] == i]["summary_value"]) == [100 * w + 10 * k + s for s in range(2)], f"summary values of {w},{k}", "mixedstats")
        c.expect(pl[i] == "p%d_%d.pdf" % (w, k), "plots", "mixedplots")
    c.expect(len(st) == 2 * nw * nm and len(info) == nw * nm, "number of records", "count")
    c.obs("writers", (nw, nm))


@check.scenario(60, 500)
def from_runs(c):
    """what metric runs record: one metric per bundle (reduced ones too), its file, display and summary values"""
    d = tempfile.mkdtemp(dir=SCR)
    n = c.randint(3, 40)
    data = np.zeros(n, dtype=[("a", "f8"), ("b", "f8")])
    data["a"], data["b"] = c.uniform(0, 10, n), c.uniform(-5, 5, n)
    db = ResultsDb(out_dir=d)
    bd = {}
    for i in range(c.randint(1, 5)):
        s = c.choice([slicers.UniSlicer(), slicers.OneDSlicer(slice_col_name="a", bins=np.arange(0, 11, 2.5))])
        sm = c.choice([None, [metrics.MeanMetric(), metrics.MaxMetric()], [metrics.SumMetric(), metrics.CountMetric()], metrics.PercentileMetric(percentile=25)])
        m = c.choice([metrics.MeanMetric(col="b"), metrics.CountMetric(col="a"), metrics.RmsMetric(col="b"), metrics.CountUniqueMetric(col="a")])
        bd["k%d" % i] = MetricBundle(m, s, "", info_label="L%d" % i, run_name="R", summary_metrics=sm, display_dict=dict(group="G", order=i, caption="cap%d" % i))
    keys = list(bd)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = MetricBundleGroup(bd, None, out_dir=d, results_db=db, save_early=c.flip())
        g.run_current("", sim_data=data)
        g.write_all()
    db2 = ResultsDb(out_dir=d)
    info = db2.get_metric_display_info()
    c.expect(len(info) == len(g.bundle_dict), f"{len(info)} metrics recorded for {len(g.bundle_dict)} results", "runcount")
    for b in g.bundle_dict.values():
        ids = db2.get_metric_id(b.metric.name, b.slicer.slicer_name, b.info_label, b.run_name)
        c.expect(len(ids) == 1, f"{b.file_root} is recorded {len(ids)} times", "once")
        r = info[info["metric_id"] == ids[0]][0]
        c.expect(r["metric_datafile"] == b.file_root + ".npz" and os.path.isfile(os.path.join(d, r["metric_datafile"])), f"data file of {b.file_root}", "runfile")
        c.expect(r["display_caption"] == b.display_dict["caption"] and r["display_group"] == "G" and r["display_order"] == b.display_dict["order"], "display of the run", "rundisplay")
        st = db2.get_summary_stats(ids[0])
        got = {x["summary_metric"]: x["summary_value"] for x in st}
        c.expect(len(st) == len(b.summary_values) and set(got) == set(b.summary_values), f"summary values recorded {got} computed {b.summary_values}", "runstats")
        for k, v in b.summary_values.items():
            c.expect(got[k] == float(v) or (np.isnan(got[k]) and np.isnan(v)), f"summary {k}: {got[k]} recorded, {v} computed", "runvalue")
        c.obs("run_bundle", (type(b.metric).__name__, len(got)))
