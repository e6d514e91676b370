"""C06: the tracking database and the cross-run summaries against models of what each run recorded."""
import json
import os
import shutil
import sqlite3
import sys
import tempfile
import warnings

import numpy as np
import pandas as pd
import rubin_sim.maf as maf
from rubin_sim.maf.db import ResultsDb, TrackingDb, add_run_to_database
from rubin_sim.maf.run_comparison import gather_summaries as gs_fn
from rubin_sim.maf.run_comparison import combine_result_dbs, normalize_for_radar
from rubin_sim.maf.run_comparison.summary_plots import find_family_lines
from rubin_sim.maf.web import MafTracking

from vlib.h import Check, short

check = Check("C06", "random add/re-add/delete/reopen histories on real tracking databases compared row by row with a model; random sets of per-run result databases gathered and compared value by "
              "value; random selections, normalisations, families and downloads compared with their definitions. Non-trivial: at least two runs or two metrics.",
              assumptions=["analysis directories are named; a metric label recorded twice with the same text keeps the last finite value"])
SCR = os.environ.get("VERIF_SCRATCH", "/tmp")
FIELDS = ["run_group", "run_name", "run_comment", "run_version", "run_date", "maf_comment", "maf_version", "maf_date", "db_file"]
TEXT = ["a", "it's", "base line v3.4", "", None, "x_y%", "Ünï", "2025-01-02"]


def rows(fn):
    con = sqlite3.connect(fn)
    cur = con.execute("select maf_run_id, maf_dir, " + ", ".join(FIELDS) + " from runs")
    out = {r[0]: dict(zip(["maf_dir"] + FIELDS, r[1:])) for r in cur.fetchall()}
    con.close()
    return out


@check.scenario(160, 1500)
def tracking_history(c):
    base = tempfile.mkdtemp(dir=SCR)
    cwd0 = os.getcwd()
    work = os.path.join(base, c.choice(["w", "w/deep"]))
    os.makedirs(work)
    where = c.choice(["cwd", "none", "abs", "sub", "updir"])
    tdir = {"cwd": work, "none": work, "abs": os.path.join(base, "track"), "sub": os.path.join(work, "t"), "updir": base}[where]
    os.makedirs(tdir, exist_ok=True)
    dbname = {"cwd": "t.db", "none": None, "abs": os.path.join(tdir, "t.db"), "sub": "t/t.db", "updir": os.path.relpath(base, work) + "/t.db"}[where]
    real = os.path.join(tdir, "trackingDb_sqlite.db" if dbname is None else "t.db")
    dirs = [os.path.join(base, x) for x in ("r1", "r2", "w/r1", "track/r1", "r1_b")]
    for d in dirs:
        os.makedirs(d, exist_ok=True)
    names = {}
    for d in dirs:
        if c.flip(0.6):
            rd = ResultsDb(out_dir=d)
            nm = c.choice(["runA", "runB_v1"])
            rd.update_metric("M", "UniSlicer", nm, "", "", "f.npz")
            con = sqlite3.connect(os.path.join(d, "resultsDb_sqlite.db"))
            ver = con.execute("select version, run_date from version").fetchall()
            con.close()
            names[d] = (nm, ver)
            rd.close()
    os.chdir(work)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            db = TrackingDb(database=dbname)
            model = {}
            hist = []
            for step in range(c.randint(4, 25)):
                op = c.choice(["add"] * 5 + ["fn"] * 4 + ["del", "del", "delbad", "reopen", "idclash"])
                d = c.choice(dirs)
                form = c.choice([lambda x: x, lambda x: os.path.relpath(x), lambda x: x + "/", lambda x: os.path.join(x, "..", os.path.basename(x))])
                known = [i for i, r in model.items() if r["real"] == d]
                if op == "add":
                    info = {k: c.choice(TEXT) for k in FIELDS if c.flip(0.7)}
                    if info.get("db_file") == "":
                        info["db_file"] = "run.db"
                    mid = c.choice([None, None, c.randint(1, 40)])
                    if mid is not None and not known and mid in model:
                        mid = None
                    i = db.add_run(maf_dir=form(d), maf_run_id=mid, **info)
                    rec = {k: ("NULL" if info.get(k) is None else info[k]) for k in FIELDS}
                    if known:
                        c.expect(i == known[0], f"directory {d} had run id {known[0]}, now {i}; {hist}", "stable_id")
                    else:
                        c.expect(i not in model, f"new directory got the id {i} of {model.get(i)}", "id_reused")
                        if mid is not None:
                            c.expect(i == mid, f"asked for id {mid}, got {i}", "asked_id")
                    model[i] = dict(real=d, rec=rec)
                elif op == "fn":
                    kw = dict(run_group=c.choice(TEXT), run_comment=c.choice(TEXT), maf_comment=c.choice(TEXT), db_file=c.choice(["a.db", None, "x/it's.db"]),
                              sched_version=c.choice(TEXT), sched_date=c.choice(TEXT), run_name=c.choice(TEXT), maf_version=c.choice(TEXT), maf_date=c.choice(TEXT))
                    sk = c.flip(0.3)
                    db.close()
                    add_run_to_database(form(d), real if dbname is None else dbname, skip_extras=sk, **kw)
                    db = TrackingDb(database=dbname)
                    now = rows(real)
                    new = [i for i in now if i not in model]
                    if known:
                        c.expect(not new, f"adding the known directory {d} again made run ids {new}", "stable_id")
                        i = known[0]
                    else:
                        c.expect(len(new) == 1, f"adding {d} made run ids {new}", "one_id")
                        i = new[0]
                    rec = dict(run_group=kw["run_group"], run_name=kw["run_name"], run_comment=kw["run_comment"], run_version=kw["sched_version"], run_date=kw["sched_date"],
                               maf_comment=kw["maf_comment"], maf_version=kw["maf_version"], maf_date=kw["maf_date"], db_file=kw["db_file"])
                    if d in names and not sk:
                        if rec["run_name"] is None:
                            rec["run_name"] = names[d][0]
                        if rec["maf_version"] is None:
                            rec["maf_version"] = names[d][1][0][0]
                        if rec["maf_date"] is None:
                            rec["maf_date"] = names[d][1][0][1]
                    model[i] = dict(real=d, rec={k: ("NULL" if v is None else v) for k, v in rec.items()})
                elif op == "del" and model:
                    i = c.choice(list(model))
                    db.delRun(i)
                    del model[i]
                elif op == "delbad":
                    c.raises(Exception, lambda: db.delRun(977), "deleting an unknown run")
                elif op == "idclash" and model:
                    free = [x for x in dirs if all(r["real"] != x for r in model.values())]
                    if free:
                        c.raises(ValueError, lambda: db.add_run(maf_dir=free[0], maf_run_id=c.choice(list(model))), "taken run id")
                elif op == "reopen":
                    db.close()
                    db = TrackingDb(database=dbname)
                hist.append((op, os.path.relpath(d, base)))
                now = rows(real)
                c.expect(set(now) == set(model), f"runs listed {sorted(now)}, added and not deleted {sorted(model)}; {hist}", "runs")
                for i, r in model.items():
                    got = dict(now[i])
                    md = got.pop("maf_dir")
                    c.expect(not os.path.isabs(md) and os.path.realpath(os.path.join(tdir, md)) == os.path.realpath(r["real"]),
                             f"run {i} points to {md} from {tdir}, the analysis is in {r['real']}; {where} {hist[-1]}", "location")
                    c.expect(got == r["rec"], f"run {i} recorded {got}, given {r['rec']}; {hist[-1]}", "details")
                c.obs("history_step", (op, where, bool(known)))
            c.raises(ValueError, lambda: add_run_to_database(os.path.join(base, "nodir"), real), "missing analysis directory")
            db.close()
            if model:
                os.chdir(tdir)
                mt = MafTracking(real if c.flip() else (None if dbname is None else "t.db"))
                c.expect(sorted(mt.runs["maf_run_id"].tolist()) == sorted(model), "runs listed for show_maf", "show_runs")
                for r in mt.runs:
                    i = int(r["maf_run_id"])
                    c.expect({k: str(r[k]) for k in FIELDS} == {k: str(v) for k, v in model[i]["rec"].items()}, f"show_maf details of run {i}: {r}", "show_details")
                    ri = mt.run_info(r)
                    c.expect(ri["Run Name"] == model[i]["rec"]["run_name"] and ri["Maf Comment"] == model[i]["rec"]["maf_comment"], f"show_maf info {ri}", "show_info")
    finally:
        os.chdir(cwd0)


SUM = ["Median", "Mean", "Count", "Identity"]
MET = ["CoaddM5", "Nvisits ", "air mass"]
LAB = ["r band", "", " all", "g"]
SLI = ["HealpixSlicer", "UniSlicer"]


def label(s, m, l, sl):
    return " ".join(x for x in (s.strip(), m.strip(), l.strip(), sl.strip()) if x != "")


def make_runs(c, base):
    want = {}
    dirs = []
    runs = ["run%d" % i for i in range(c.randint(1, 5))]
    for k in range(c.randint(1, 6)):
        d = os.path.join(base, "d%d" % k)
        os.makedirs(d)
        dirs.append(d)
        db = ResultsDb(out_dir=d)
        if k > 0 and c.flip(0.15):
            db.close()
            continue
        for r in ([c.choice(runs)] if c.flip(0.7) else runs):
            for _ in range(c.randint(1, 6)):
                m, l, sl = c.choice(MET), c.choice(LAB), c.choice(SLI)
                i = db.update_metric(m, sl, r, "", l, "f.npz")
                for _ in range(c.randint(0, 3)):
                    s, v = c.choice(SUM), c.choice([round(c.uniform(-50, 50), 3), float(c.randint(-3, 3)), 0.0])
                    db.update_summary_stat(i, s, v)
                    want.setdefault(r, {})[label(s, m, l, sl)] = v
        db.close()
    return dirs, want


@check.scenario(60, 500)
def gathering(c):
    base = tempfile.mkdtemp(dir=SCR)
    dirs, want = make_runs(c, base)
    if not any(want.values()):
        c.obs("empty_set")
        return
    want = {r: w for r, w in want.items() if w}
    if c.flip(0.3):
        missing = os.path.join(base, "zz_none")
        os.makedirs(missing)
        dirs = dirs[:1] + [missing] + dirs[1:]
    via = c.choice(["call", "csv", "hdf"])
    out = os.path.join(base, "out")
    if via == "call":
        df = combine_result_dbs(dirs)
    else:
        old, oc = sys.argv, os.getcwd()
        sys.argv = ["gather", "--outfile", out] + (["--to_csv"] if via == "csv" else c.choice([[], ["--to_hdf"]]))
        bydirs = c.flip(0.5)
        if bydirs:
            sys.argv += ["--dirs", ",".join(dirs)]
        else:
            sys.argv += ["--base_dir", base]
        try:
            gs_fn()
        finally:
            sys.argv = old
        df = maf.get_metric_summaries(summary_source=out + (".csv" if via == "csv" else ".h5"))
        if not bydirs:
            # directories are searched in no particular order: only labels recorded once are judged below
            pass
    c.expect(sorted(df.index) == sorted(want), f"runs {list(df.index)}, recorded {sorted(want)}", "gather_runs")
    cols = sorted({k for w in want.values() for k in w})
    c.expect(sorted(df.columns) == cols, lambda: f"labels {sorted(df.columns)} want {cols}", "gather_labels")
    c.expect(len(set(df.columns)) == len(df.columns) and len(set(df.index)) == len(df.index), "each run and label once", "gather_once")
    once = count_once(dirs)
    for r in want:
        for k in cols:
            v = df.loc[r, k]
            if k not in want[r]:
                c.expect(np.isnan(v), f"run {r} has {k}={v}, never recorded", "gather_extra")
            elif via == "call" or (r, k) in once:
                c.expect(v == want[r][k], f"run {r} {k}: gathered {v}, recorded {want[r][k]}", "gather_value")
    for d in dirs:
        c.expect(os.path.isfile(os.path.join(d, "resultsDb_sqlite.db")) == (not d.endswith("zz_none")), f"gathering changed {d}", "gather_side")
    c.obs("gathered", (via, len(dirs), len(want), len(cols)))


def count_once(dirs):
    n = {}
    for d in dirs:
        fn = os.path.join(d, "resultsDb_sqlite.db")
        if not os.path.isfile(fn) or os.path.getsize(fn) == 0:
            continue
        con = sqlite3.connect(fn)
        for s, m, l, sl, r in con.execute("select s.summary_name, m.metric_name, m.metric_info_label, m.slicer_name, m.run_name from summarystats s join metrics m on m.metric_id = s.metric_id"):
            k = (r, label(s, m, l, sl))
            n[k] = n.get(k, 0) + 1
        con.close()
    return {k for k, v in n.items() if v == 1}


def frame(c, nr=None, nm=None):
    nr, nm = nr or c.randint(1, 6), nm or c.randint(1, 6)
    runs = ["run_%s" % x for x in c.rng.permutation(list("zyabcd"))[:nr]]
    mets = ["M%s metric" % x for x in c.rng.permutation(list("BAdcXe"))[:nm]]
    v = c.uniform(0.5, 30, (nr, nm)) * c.rng.choice([1, 1, -1], (nr, nm))
    if c.flip(0.2):
        v[c.rng.integers(nr), c.rng.integers(nm)] = np.nan
    df = pd.DataFrame(v, index=pd.Index(runs, name=c.choice(["run", "OpsimRun", "run_name"])), columns=pd.Index(mets, name="metric"))
    return df


def subset(c, mets, name="S1"):
    extra = ["not there"] if c.flip(0.3) else []
    use = [m for m in mets if c.flip(0.8)] or list(mets[:1])
    use = list(c.rng.permutation(use + extra))
    inv = [bool(c.flip(0.4)) for _ in use]
    mag = [bool(c.flip(0.4)) for _ in use]
    return maf.create_metric_subset(name, use, short_name=["s" + u for u in use], style=[c.choice(["-", "--"]) for _ in use], invert=inv, mag=mag), dict(zip(use, zip(inv, mag)))


@check.scenario(150, 1500)
def normalising(c):
    df = frame(c)
    keep = df.copy(deep=True)
    if c.flip(0.4):
        base = [r for r in df.index if c.flip()] or [df.index[0]]
        ref = {m: np.nanmedian(df.loc[base, m]) if df.loc[base, m].notna().any() else np.nan for m in df.columns}
    else:
        base = c.choice(list(df.index))
        ref = {m: df.loc[base, m] for m in df.columns}
    sub = None
    if c.flip(0.75):
        sub, flags = subset(c, list(df.columns))
        if c.flip(0.3):
            s2, f2 = subset(c, list(df.columns), "S2")
            sub = pd.concat([sub, s2])
            flags = {**f2, **flags}
    sc = sub.copy(deep=True) if sub is not None else None
    arg = df.T if c.flip(0.25) else df
    out = maf.normalize_metric_summaries(base, arg, metric_subsets=sub)
    c.expect(df.equals(keep) and list(df.columns) == list(keep.columns) and list(df.index) == list(keep.index), "normalising changed the summary handed in", "norm_changed")
    if sub is not None:
        c.expect(sub.equals(sc), "normalising changed the metric set handed in", "norm_subset_changed")
    cols = [m for m in df.columns if sub is None or m in flags]
    c.expect(list(out.columns) == cols and list(out.index) == list(df.index), f"order of runs and metrics: {list(out.index)} {list(out.columns)}", "norm_order")
    for m in cols:
        inv, mag = (False, False) if sub is None else flags[m]
        for r in df.index:
            v, n = df.loc[r, m], ref[m]
            w = (1 - (v - n)) if inv and mag else 1 + (v - n) if mag else n / v if inv else v / n
            g = out.loc[r, m]
            c.expect(np.isclose(g, w, rtol=1e-9, atol=1e-9) or (np.isnan(g) and np.isnan(w)), f"{r} {m} value {v} baseline {n} invert={inv} mag={mag}: {g}, want {w}", "norm_value")
    if not isinstance(base, list):
        c.expect(np.allclose(out.loc[base].dropna(), 1), "the baseline is not 1", "norm_one")
    c.obs("normalised", (isinstance(base, list), sub is None, len(cols), len(df)))
    # the radar form
    inv = [m for m in df.columns if c.flip(0.3)]
    rev = [m for m in df.columns if c.flip(0.3)]
    mg = c.choice([[], "all", [m for m in df.columns if c.flip(0.4)]])
    b = c.choice(list(df.index))
    o = normalize_for_radar(df, norm_run=b, invert_cols=inv or None, reverse_cols=rev or None, mag_cols=mg)
    c.expect(df.equals(keep), "radar normalisation changed the summary handed in", "radar_changed")
    for m in df.columns:
        t = df[m] * (-1 if m in rev else 1)
        t = 1.0 / t if m in inv else t
        w = 1 + (t - t[b]) if (mg == "all" or m in mg) else t / t[b]
        c.close(o[m], w, f"radar {m} inv={m in inv} rev={m in rev} mag={mg}", rtol=1e-9, atol=1e-9, key="radar_value")
    c.obs("radar", (mg == "all", len(inv), len(rev)))


@check.scenario(120, 1000)
def selecting(c):
    df = frame(c, nm=c.randint(2, 6), nr=c.randint(2, 6))
    base = tempfile.mkdtemp(dir=SCR)
    s1, f1 = subset(c, list(df.columns), "S1")
    s2, f2 = subset(c, list(df.columns), "S2")
    subs = pd.concat([s1, s2])
    fn = os.path.join(base, "subs.json")
    maf.write_metric_subsets(fn, subs)
    back = maf.get_metric_subsets(fn)
    c.expect(list(back.index) == list(subs.index) and list(back.index.names) == list(subs.index.names), f"metric sets read back {list(back.index)}", "subset_index")
    for col in ("metric", "short_name", "style", "invert", "mag"):
        c.expect(list(back[col]) == list(subs[col]), f"metric sets read back: {col}", "subset_values")
    # families
    runs = list(df.index)
    fams = {}
    for f in ["fam1", "fam2", "other fam"][: c.randint(1, 3)]:
        rr = [r for r in c.rng.permutation(runs) if c.flip(0.6)] or [runs[0]]
        fams[f] = dict(description="d " + f, version=c.choice([2.2, 3.4]), run=rr, brief=["b %s %s" % (f, r) if c.flip() else "brief " + r for r in rr],
                       filepath=["x/%s.db" % r for r in rr], url=["file://%s/%s.db" % (base, r) for r in rr])
    ff = os.path.join(base, "fam.json")
    json.dump(fams, open(ff, "w"))
    fr = maf.get_family_runs(ff)
    for f, d in fams.items():
        sel = fr.loc[[f]]
        c.expect(list(sel["run"]) == d["run"] and list(sel["filepath"]) == d["filepath"] and list(sel["brief"]) == d["brief"], f"runs of family {f}: {list(sel['run'])} want {d['run']}", "family_runs")
    gr = maf.get_runs(ff)
    for r in runs:
        mem = [f for f, d in fams.items() if r in d["run"]]
        if mem:
            got = gr.loc[[r]]
            c.expect(sorted(x for l in got["family"] for x in l) == sorted(mem), f"families of {r}: {got['family'].tolist()} want {mem}", "run_families")
        else:
            c.expect(r not in gr.index, f"{r} is in no family", "run_extra")
    fl = list(fams)
    c.expect(list(find_family_lines(maf.get_family_descriptions(ff), fl)) == list(np.cumsum([len(fams[f]["run"]) for f in fl])), "family lines", "family_lines")
    # selection
    fsel = [f for f in fams if c.flip(0.5)]
    rsel = [r for r in runs if c.flip(0.3)]
    ssel = [s for s in ("S1", "S2") if c.flip(0.5)]
    msel = [m for m in df.columns if c.flip(0.3)] + (["unknown metric"] if c.flip(0.2) else [])
    ro, mo = c.choice(["family", "summary"]), c.choice(["summary", "subset"])
    keep = df.copy(deep=True)
    name0 = (df.index.name, df.columns.name)
    src = df
    if c.flip(0.3):
        src = os.path.join(base, "s.csv")
        df.to_csv(src)
    out = maf.get_metric_summaries(run_families=fsel[0] if len(fsel) == 1 and c.flip() else fsel, metric_subsets=ssel, runs=rsel, metrics=msel, summary_source=src, runs_source=ff,
                                   metric_subset_source=c.choice([fn, subs]), run_order=ro, metric_order=mo)
    wr = list(rsel) + [r for f in fsel for r in fams[f]["run"]]
    wm = list(msel) + [m for s in ssel for m in (s1 if s == "S1" else s2)["metric"]]
    allm = not wm
    wm = [m for m in wm if m in df.columns]
    if not wr:
        wr = runs
    elif ro == "summary":
        wr = [r for r in runs if r in wr]
    if allm:
        wm = list(df.columns)
    elif mo == "summary":
        wm = [m for m in df.columns if m in wm]
    c.expect(list(out.index) == wr and list(out.columns) == wm, f"selected {list(out.index)} x {list(out.columns)}, want {wr} x {wm} ({ro}, {mo})", "select")
    ii = [runs.index(r) for r in wr]
    jj = [list(df.columns).index(m) for m in wm]
    c.close(out.values, keep.values[np.ix_(ii, jj)], "selected values", key="select_values")
    c.expect(df.equals(keep) and (df.index.name, df.columns.name) == name0, "selecting changed the summary handed in", "select_changed")
    c.expect(out.index.name == "run" and out.columns.name == "metric", "axis names", "select_names")
    c.obs("selected", (len(fsel), len(ssel), ro, mo, len(out)))
    # downloads
    dest = os.path.join(base, "dest")
    os.makedirs(dest)
    f0 = c.choice(list(fams))
    for r in runs:
        open(os.path.join(base, r + ".db"), "w").write("data " + r)
    want = list(dict.fromkeys(fams[f0]["run"]))
    pre = [r for r in want if c.flip(0.3)]
    os.makedirs(os.path.join(dest, "x"), exist_ok=True)
    for r in pre:
        open(os.path.join(dest, "x", r + ".db"), "w").write("old")
    clob = c.flip()
    got = maf.download_runs(want, dest_dir=dest, runs_source=ff, clobber=clob)
    for r in want:
        p = os.path.join(dest, "x", r + ".db")
        v = got[r]
        v = v if isinstance(v, str) else v.iloc[0]
        c.expect(v == p and open(p).read() == ("old" if r in pre and not clob else "data " + r), f"download of {r}", "download")
    c.obs("downloaded", (len(want), len(pre), clob))
