"""C10: visit selection returns exactly the rows and columns asked for."""
import hashlib
import math
import os
import re
import sqlite3
import warnings

import numpy as np
import rubin_sim.maf.metrics as M
import rubin_sim.maf.slicers as SL
import rubin_sim.maf.stackers as S
import sqlalchemy
from rubin_sim.maf.metric_bundles import MetricBundle, MetricBundleGroup
from rubin_sim.maf.utils import get_sim_data

from vlib.h import Check, short

warnings.simplefilter("ignore")
check = Check("C10", "random visit tables written to sqlite files; random column lists, nested SQL constraints, stackers, table names and source kinds (path, sqlite3 connection, SQLAlchemy engine/connection, resource path, full query); every "
              "returned row compared with a Python evaluation of the constraint on the rows written, and the file's bytes watched. Non-trivial: a selection compared row by row.",
              assumptions=["sqlite evaluates the constraint correctly"])
SCR = os.environ.get("VERIF_SCRATCH", "/tmp")
TYPES = dict(observationId="INTEGER", fieldRA="REAL", fieldDec="REAL", observationStartMJD="REAL", night="INTEGER", band="TEXT", scheduler_note="TEXT", airmass="REAL", flag="INTEGER",
             observationStartLST="REAL", altitude="REAL", fiveSigmaDepth="REAL", visitExposureTime="REAL", maybe="REAL")


def rows_of(c, n):
    out = []
    for i in range(n):
        out.append(dict(
            observationId=i, fieldRA=c.uniform(0, 360), fieldDec=c.uniform(-90, 30), observationStartMJD=61000 + c.uniform(0, 30), night=c.randint(0, 30), band=c.choice("ugrizy"),
            scheduler_note=c.choice(["DD:COSMOS", "pair_33, r, a", "it''s".replace("''", "'"), "", "100%", "a_b"]), airmass=c.choice([1.0, 1.5, 2.0, c.uniform(1, 2.5)]), flag=c.randint(0, 1),
            observationStartLST=c.uniform(0, 360), altitude=c.uniform(20, 90), fiveSigmaDepth=c.uniform(20, 25), visitExposureTime=c.choice([15.0, 30.0]), maybe=None if c.flip(0.3) else c.uniform(-1, 1)))
    return out


def write_db(path, rows, tables, cols):
    con = sqlite3.connect(path)
    for t, rr in tables.items():
        con.execute(f"CREATE TABLE {t} (" + ", ".join(f"{k} {TYPES[k]}" for k in cols) + ")")
        con.executemany(f"INSERT INTO {t} VALUES (" + ",".join("?" * len(cols)) + ")", [tuple(r[k] for k in cols) for r in rr])
    con.commit()
    con.close()


def predicate(c, depth=2):
    """(sql, function row -> True/False/None)"""
    if depth and c.flip(0.45):
        kind = c.choice(["and", "or", "not"])
        a, fa = predicate(c, depth - 1)
        if kind == "not":
            return f"not ({a})", lambda r: None if fa(r) is None else not fa(r)
        b, fb = predicate(c, depth - 1)
        if kind == "and":
            return f"({a}) and ({b})", lambda r: (False if (fa(r) is False or fb(r) is False) else (None if None in (fa(r), fb(r)) else True))
        return f"({a}) or ({b})", lambda r: (True if (fa(r) is True or fb(r) is True) else (None if None in (fa(r), fb(r)) else False))
    k = c.randint(0, 8)
    if k == 0:
        v = c.randint(0, 30)
        op = c.choice(["<", "<=", ">", ">=", "=", "!="])
        return f"night {op} {v}", lambda r: {"<": r["night"] < v, "<=": r["night"] <= v, ">": r["night"] > v, ">=": r["night"] >= v, "=": r["night"] == v, "!=": r["night"] != v}[op]
    if k == 1:
        b = c.choice("ugrizy")
        return (f"band = '{b}'", lambda r: r["band"] == b) if c.flip() else (f'band == "{b}"', lambda r: r["band"] == b)
    if k == 2:
        bs = "".join(sorted(set(c.choice("ugrizy") for _ in range(3))))
        return "band in (" + ",".join(f"'{b}'" for b in bs) + ")", lambda r: r["band"] in bs
    if k == 3:
        v = c.choice([1.0, 1.5, 2.0])
        op = c.choice(["<", "<=", ">", ">=", "="])
        return f"airmass {op} {v}", lambda r: {"<": r["airmass"] < v, "<=": r["airmass"] <= v, ">": r["airmass"] > v, ">=": r["airmass"] >= v, "=": r["airmass"] == v}[op]
    if k == 4:
        return "scheduler_note like 'DD%'", lambda r: r["scheduler_note"].startswith("DD")
    if k == 5:
        return "scheduler_note not like '%a%'", lambda r: "a" not in r["scheduler_note"].lower()
    if k == 6:
        return ("maybe is null", lambda r: r["maybe"] is None) if c.flip() else ("maybe > 0", lambda r: None if r["maybe"] is None else r["maybe"] > 0)
    if k == 7:
        lo, hi = sorted((c.uniform(61000, 61030), c.uniform(61000, 61030)))
        return f"observationStartMJD between {lo!r} and {hi!r}", lambda r: lo <= r["observationStartMJD"] <= hi
    v = c.uniform(-90, 30)
    return f"fieldDec > {v!r}", lambda r: r["fieldDec"] > v


def sha(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


def eq(g, w):
    if w is None:
        return g is None or (isinstance(g, float) and math.isnan(g))
    if isinstance(w, str):
        return isinstance(g, str) and g == w
    return float(g) == float(w)


def compare(c, got, want_rows, cols, what, key):
    c.expect(set(got.dtype.names) >= set(cols), lambda: f"{what}: columns {got.dtype.names}, asked for {cols}", key + "_cols")
    if len(got) != len(want_rows):
        return c.expect(False, f"{what}: {len(got)} rows, want {len(want_rows)}", key + "_rows")
    # the identity of a row is all its values
    for g, w in zip(got, want_rows):
        for k in cols:
            if not c.expect(eq(g[k].item() if hasattr(g[k], "item") else g[k], w[k]), lambda: f"{what}: row {w['observationId']} {k} = {g[k]!r}, stored {w[k]!r}", key + "_values"):
                return False
    c.obs("selection", key, n=len(want_rows))
    return True


def sources(c, path):
    """(kind, open, close)"""
    kind = c.choice(["path", "path", "sqlite3", "engine", "connection", "resource"])
    if kind == "path":
        return kind, path, lambda: None
    if kind == "sqlite3":
        con = sqlite3.connect(path)
        return kind, con, con.close
    eng = sqlalchemy.create_engine("sqlite:///" + path)
    if kind == "engine":
        return kind, eng, eng.dispose
    if kind == "connection":
        con = eng.connect()
        return kind, con, lambda: (con.close(), eng.dispose())
    from lsst.resources import ResourcePath
    return kind, ResourcePath(path), lambda: None


@check.scenario(2000, 20000)
def select(c):
    path = os.path.join(SCR, f"sel_{c.index}_{os.getpid()}.db")
    n = c.choice([1, 3, c.randint(5, 80)])
    rows = rows_of(c, n)
    cols = list(TYPES)
    c.rng.shuffle(cols)
    other = rows_of(c, 4)
    name = c.choice(["observations", "observations", "SummaryAllProps", "summary", "mytable"])
    tables = {name: rows}
    if c.flip(0.5):
        tables = {c.choice(["aaa", "zzz", "runs"]): other, name: rows}
    if name == "observations" and c.flip(0.3):
        tables["summary"] = other
    write_db(path, rows, tables, cols)
    before, listing = sha(path), sorted(os.listdir(SCR))
    kind, src, close = sources(c, path)
    try:
        explicit = name == "mytable" or (kind != "path" and name != "observations") or c.flip(0.4)
        dbcols = None if c.flip(0.3) else [k for k in cols if c.flip(0.5)] or ["observationId"]
        if c.flip(0.3):  # columns in which visits agree
            dbcols = [k for k in ("night", "band", "flag", "visitExposureTime", "scheduler_note") if k in cols and c.flip(0.6)] or ["night"]
        sql, fn = predicate(c) if c.flip(0.85) else (c.choice([None, ""]), lambda r: True)
        want = [r for r in rows if fn(r) is True]
        stk, need = [], set()
        if c.flip(0.4):
            stk = c.choice([[S.DayObsMJDStacker()], [S.HourAngleStacker(), S.ZenithDistStacker()], [S.TeffStacker()], [S.DayObsISOStacker(), S.DayObsStacker()]])
            for s in stk:
                need |= set(s.cols_req)
            if dbcols is not None:
                dbcols = list(dict.fromkeys(dbcols + sorted(need)))
        kw = dict(sqlconstraint=sql, dbcols=dbcols, stackers=stk or None)
        if explicit:
            kw["table_name"] = name
        if c.flip(0.2):
            # the full query overrides everything else
            q = f"SELECT {', '.join(dbcols or ['*'])} FROM {name}" + (f" WHERE {sql}" if sql else "")
            kw = dict(full_sql_query=q, sqlconstraint="no such thing", dbcols=["nocol"], stackers=stk or None, table_name="nowhere")
        what = f"{kind} {name} {sql!r} {dbcols}"
        if not want:
            try:
                r = get_sim_data(src, **kw)
            except Exception as e:
                c.expect(isinstance(e, (UserWarning, ValueError)), f"{what}: no rows raised {type(e).__name__}: {e}", "empty")
            else:
                c.expect(False, f"{what}: nothing matches, but {len(r)} rows came back without an error", "empty")
            c.obs("empty", kind)
        else:
            got = get_sim_data(src, **kw)
            asked = dbcols or cols
            compare(c, got, want, asked, what, kind)
            extra = [k for s in stk for k in s.cols_added]
            c.expect(set(got.dtype.names) == set(asked) | set(extra) and len(set(got.dtype.names)) == len(got.dtype.names), f"{what}: columns {got.dtype.names}, asked for {asked} and {extra}", "exact_cols")
            if dbcols is not None:
                c.expect(list(got.dtype.names)[:len(dbcols)] == dbcols, f"{what}: column order {got.dtype.names}", "col_order")
            for s in stk:
                ref = s.run(np.array([tuple(r[k] for k in sorted(need)) for r in want], dtype=[(k, "U3" if k == "band" else float) for k in sorted(need)]))
                for k in s.cols_added:
                    c.expect(np.array_equal(np.asarray(got[k]), np.asarray(ref[k])), f"{what}: {k} does not match the rows", "stacked")
        if kind in ("sqlite3", "connection"):
            m = src.execute("select count(*) from " + name) if kind == "sqlite3" else src.execute(sqlalchemy.text("select count(*) from " + name))
            c.expect(m.fetchone()[0] == n, "the connection is not usable afterwards", "conn")
    finally:
        close()
    c.expect(sha(path) == before, "the database file was modified", "modified")
    c.expect(sorted(os.listdir(SCR)) == listing or not [f for f in os.listdir(SCR) if f.startswith(os.path.basename(path)) and f != os.path.basename(path)], "files left beside the database", "left")
    os.remove(path)


@check.scenario(80, 800)
def uncommitted(c):
    """in-memory sources and connections see what the connection sees"""
    con = sqlite3.connect(":memory:")
    rows = rows_of(c, c.randint(1, 20))
    cols = list(TYPES)
    con.execute("CREATE TABLE observations (" + ", ".join(f"{k} {TYPES[k]}" for k in cols) + ")")
    con.executemany("INSERT INTO observations VALUES (" + ",".join("?" * len(cols)) + ")", [tuple(r[k] for k in cols) for r in rows])
    sql, fn = predicate(c)
    want = [r for r in rows if fn(r) is True]
    if want:
        compare(c, get_sim_data(con, sql, cols), want, cols, f"memory {sql}", "memory")
    c.expect(con.in_transaction, "an open transaction was ended", "memory_tx")
    con.rollback()
    con.close()


@check.scenario(60, 400)
def errors(c):
    path = os.path.join(SCR, f"err_{c.index}_{os.getpid()}.db")
    rows = rows_of(c, 5)
    cols = list(TYPES)
    write_db(path, rows, {c.choice(["other", "runs"]): rows}, cols)
    c.raises((ValueError,), lambda: get_sim_data(path), "no known table", "no_table")
    c.raises((FileNotFoundError,), lambda: get_sim_data(path + ".absent"), "missing file", "no_file")
    c.expect(not os.path.exists(path + ".absent"), "reading a missing file created it", "no_file")
    c.raises((Exception,), lambda: get_sim_data(path, table_name="observations"), "missing table", "missing_table")
    os.remove(path)
    write_db(path, rows, {"observations": rows}, cols)
    c.raises((Exception,), lambda: get_sim_data(path, dbcols=["observationId", "nocol"]), "missing column", "missing_col")
    c.raises((Exception,), lambda: get_sim_data(path, "nocol = 3"), "missing column in constraint", "missing_col")
    c.raises((UserWarning,), lambda: get_sim_data(path, "night > 1000"), "empty selection", "empty")
    c.obs("errors", c.index % 3)
    os.remove(path)


@check.scenario(80, 800)
def through_groups(c):
    """the selection a bundle group makes from a file: constraint, columns of metrics, slicers and stackers"""
    path = os.path.join(SCR, f"grp_{c.index}_{os.getpid()}.db")
    out = os.path.join(SCR, f"grp_{c.index}_{os.getpid()}")
    rows = rows_of(c, c.randint(5, 60))
    write_db(path, rows, {c.choice(["observations", "SummaryAllProps", "summary"]): rows}, list(TYPES))
    before = sha(path)
    bundles, wants = {}, {}
    for i in range(c.randint(1, 4)):
        sql, fn = predicate(c) if c.flip(0.85) else ("", lambda r: True)
        sel = [r for r in rows if fn(r) is True]
        col, stk, f = c.choice([("airmass", [], lambda r: r["airmass"]), ("fieldDec", [], lambda r: r["fieldDec"]), ("zenithDistance", None, lambda r: 90 - r["altitude"]), ("day_obs_mjd", None, lambda r: math.floor(r["observationStartMJD"] - 0.5)),
                                ("zenithDistance", [S.ZenithDistStacker()], lambda r: 90 - r["altitude"])])
        kind = c.choice(["sum", "count"])
        m = M.SumMetric(col=col, metric_name=f"m{i}") if kind == "sum" else M.CountMetric(col=col, metric_name=f"m{i}")
        by = c.flip(0.4)
        sl = SL.OneDSlicer(slice_col_name="night", bins=np.arange(-0.5, 31.5)) if by else SL.UniSlicer()
        b = MetricBundle(m, sl, sql, stacker_list=stk if stk else None, run_name="r", summary_metrics=[])
        bundles[f"b{i}"] = b
        if by:
            w = []
            for k in range(31):
                s = [f(r) for r in sel if r["night"] == k]
                w.append(None if not s else (math.fsum(s) if kind == "sum" else len(s)))
        else:
            s = [f(r) for r in sel]
            w = [None if not s else (math.fsum(s) if kind == "sum" else len(s))]
        wants[f"b{i}"] = (sql, kind, w)
    g = MetricBundleGroup(bundles, path, out_dir=out, save_early=False, verbose=False)
    g.run_all()
    for k, (sql, kind, w) in wants.items():
        v = bundles[k].metric_values
        if all(x is None for x in w):
            c.expect(v is None or np.all(np.ma.getmaskarray(v)), f"{sql}: nothing selected, values {short(v)}", "group")
            continue
        if not c.expect(v is not None and len(v) == len(w), f"{sql}: values {short(v)}", "group"):
            continue
        for i, x in enumerate(w):
            if x is None:
                c.expect(bool(np.ma.getmaskarray(v)[i]), f"{sql}: slice {i} has no visits but value {v[i]}", "group")
            else:
                c.expect(not np.ma.getmaskarray(v)[i] and abs(float(v[i]) - x) <= 1e-8 * max(1, abs(x)), f"{sql} {kind}: slice {i} is {v[i]}, want {x}", "group")
        c.obs("group_selection", kind)
    c.expect(sha(path) == before, "the database was modified", "modified")
    os.remove(path)
