"""C23: what is put into the simulation archives comes back exactly."""
import datetime
import hashlib
import logging
import os
import sqlite3
import uuid
import warnings
from pathlib import Path

import numpy as np
import pandas as pd
import yaml

from checks import c22
from vlib import pg
from vlib.h import Check
from vlib.vscli import Cli

check = Check(
    "C23",
    "histories of archiving visits and files with equal names, repeated kinds and updates: after every step every registered file must read back with the bytes given; "
    "hashes against content changes; conversions there and back; archive listings and selections against a scan of the generated archive",
    assumptions=["local file archives", "database sessions run in UTC", "file names without characters with a meaning in URLs (#, ?, %)"],
    nproc=4,
    budget=(200, 720),
)
check.worker_setup = pg.start
check.worker_teardown = pg.stop


def quiet():
    for n in ("rubin_sim", "rubin_sim.sim_archive", "rubin_sim.sim_archive.vseqarchive", "rubin_sim.sim_archive.prototype", "rubin_sim.sim_archive.vseqmetadata", "lsst.resources"):
        logging.getLogger(n).setLevel(logging.CRITICAL + 1)
    warnings.simplefilter("ignore")


def iso_day(mjd):
    """Observing day of a time: the UTC date twelve hours earlier."""
    return (datetime.date(1858, 11, 17) + datetime.timedelta(days=int(np.floor(mjd - 0.5)))).isoformat()


WORDS = ["", "a", "ab", "b", "abc", "naïve", "☄", "x y", "None", "nan", "0", "'", "\n"]


def rand_frame(c, n=None, kinds="fiobsd"):
    n = c.randint(1, 8) if n is None else n
    d = {}
    for k in range(c.randint(1, 5)):
        kind = str(c.choice(list(kinds)))
        name = "c%d%s" % (k, kind)
        if kind == "f":
            v = c.uniform(-100, 100, n)
            if c.flip(0.3):
                v[c.randint(0, n - 1)] = np.nan
        elif kind == "i":
            v = c.rng.integers(-1000, 1000, n)
        elif kind == "b":
            v = c.rng.random(n) < 0.5
        elif kind == "o":
            v = np.array([str(c.choice(WORDS)) for _ in range(n)], dtype=object)
            if c.flip(0.3):
                v[c.randint(0, n - 1)] = None
        elif kind == "s":
            v = pd.array([str(c.choice(WORDS)) for _ in range(n)], dtype="str")
        else:
            v = pd.Timestamp("2026-01-01") + pd.to_timedelta(c.rng.integers(0, 10**6, n), unit="s")
        d[name] = v
    df = pd.DataFrame(d)
    return df


def fresh(df):
    """Equal content in newly created objects."""
    out = {}
    for k in df.columns:
        v = df[k]
        if v.dtype == object:
            out[k] = pd.Series([None if x is None else "".join(list(x)) + "" if not isinstance(x, str) else str(x.encode(), "utf8") for x in v], dtype=object, index=v.index)
        elif str(v.dtype) in ("str", "string"):
            out[k] = pd.Series([x if pd.isna(x) else str(str(x).encode(), "utf8") for x in v], dtype=v.dtype, index=v.index)
        else:
            out[k] = pd.Series(np.array(v.to_numpy(), copy=True), index=v.index)
    return pd.DataFrame(out, columns=df.columns)


@check.scenario(250, 2500)
def sha(c):
    """The visits hash is a function of the content."""
    from rubin_sim.sim_archive.vseqmetadata import compute_visits_sha256

    quiet()
    df = rand_frame(c)
    h = compute_visits_sha256(df)
    c.expect(isinstance(h, bytes) and len(h) == 32, "the hash has %r bytes" % (len(h),), key="length")
    kinds = tuple(sorted({k[-1] for k in df.columns}))
    for what, other in (("a fresh equal table", fresh(df)), ("a deep copy", df.copy(deep=True)), ("a row-wise slice of all", df.iloc[:]), ("a Fortran copy", df[list(df.columns)])):
        c.expect(compute_visits_sha256(other) == h, f"{what} has another hash ({kinds}):\n{df}", key="equal-content")
    before = df.copy(deep=True)
    c.expect(before.equals(df), "the table is changed", key="mutates")
    c.obs("equal", kinds)
    # any change of content
    ch = fresh(df)
    op = str(c.choice(["cell", "cell", "cell", "order", "rename", "drop", "shift", "swap"]))
    col = str(c.choice(list(df.columns)))
    r = c.randint(0, len(df) - 1)
    if op == "cell":
        old = ch[col].iloc[r]
        k = col[-1]
        if k == "f":
            new = 1.0 if pd.isna(old) else np.nextafter(old, 1e9)
        elif k == "i":
            new = old + 1
        elif k == "b":
            new = not old
        elif k == "d":
            new = old + pd.Timedelta(seconds=1)
        else:
            new = str(c.choice([w for w in WORDS if w != old]))
        if k == "b":
            v = ch[col].to_numpy().copy()
            v[r] = new
            ch[col] = v
        else:
            ch.iloc[r, ch.columns.get_loc(col)] = new
    elif op == "order":
        if len(df) < 2:
            return
        ch = ch.iloc[::-1].reset_index(drop=True)
    elif op == "rename":
        ch = ch.rename(columns={col: col + "x"})
    elif op == "drop":
        if len(df) < 2:
            return
        ch = ch.drop(index=r).reset_index(drop=True)
    elif op == "shift":
        cols = [k for k in df.columns if k[-1] in "os"]
        if not cols or len(df) < 2:
            return
        k = str(c.choice(cols))
        v = [x for x in ch[k]]
        j = c.randint(0, len(v) - 2)
        if not v[j] or not isinstance(v[j], str) or not isinstance(v[j + 1], str):
            return
        v[j], v[j + 1] = v[j][:-1], v[j][-1] + v[j + 1]
        ch[k] = pd.Series(v, dtype=ch[k].dtype, index=ch.index)
    else:
        cols = [k for k in df.columns if k[-1] in "os"]
        if len(cols) < 2:
            return
        a, b = cols[0], cols[1]
        ch[a], ch[b] = pd.Series(list(df[b]), dtype=df[a].dtype), pd.Series(list(df[a]), dtype=df[b].dtype)
    if ch.equals(df) and list(ch.columns) == list(df.columns):
        return
    c.expect(compute_visits_sha256(ch) != h, f"a change ({op} in {col}) leaves the hash the same", key="different-content")
    c.obs("changed", (op, col[-1]))


# ------------------------------------------------------------------ conversion
def write_db(path, tables):
    con = sqlite3.connect(str(path))
    for t, df in tables.items():
        df.to_sql(t, con, index=False)
    con.commit()
    con.close()


def read_db(path):
    con = sqlite3.connect("file:%s?mode=ro" % path, uri=True)
    out = {}
    for (t,) in con.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall():
        cur = con.execute('SELECT * FROM "%s"' % t)
        out[t] = ([d[0] for d in cur.description], cur.fetchall())
    con.close()
    return out


def rows_equal(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        for p, q in zip(x, y):
            if p is None and q is None:
                continue
            if p != q:
                return False
    return True


TABLES = ["info", "config", "order", "Table2", "group", "my table", "a_b", "t1"]


@check.scenario(40, 400)
def convert(c):
    """opsim database -> hdf5 -> opsim database keeps every table."""
    from rubin_sim.sim_archive.util import hdf5_to_opsimdb, opsimdb_to_hdf5

    quiet()
    tables = {"observations": rand_frame(c, kinds="fis")}
    for t in c.rng.permutation(TABLES)[: c.randint(0, 3)]:
        tables[str(t)] = rand_frame(c, kinds="fis")
    p = Path(c.scratch) / str(c.choice(["in.db", "in put.db", "ünï.sqlite"]))
    write_db(p, tables)
    raw = p.read_bytes()
    explicit = c.flip()
    h5 = opsimdb_to_hdf5(p if c.flip() else str(p), Path(c.scratch) / "out.h5" if explicit else None)
    c.expect(os.path.isfile(h5), "no file at the name returned", key="h5-name")
    if not explicit:
        c.same(str(h5), str(p.with_suffix(".h5")), "default name", key="h5-name")
    obs = pd.read_hdf(h5, "observations")
    want = tables["observations"]
    c.same(list(obs.columns), list(want.columns), "columns", key="columns")
    for k in want.columns:
        a, b = obs[k], want[k]
        ok = all((pd.isna(x) and pd.isna(y)) or x == y for x, y in zip(a, b))
        c.expect(len(a) == len(b) and ok, f"column {k} differs: {list(a)} != {list(b)}", key="values")
    if explicit or c.flip():
        back = Path(c.scratch) / "back.db"
        r = hdf5_to_opsimdb(h5, back)
        c.same(str(r), str(back), "name returned", key="db-name")
    else:
        os.rename(p, str(p) + ".kept")
        r = hdf5_to_opsimdb(h5)
        c.same(str(r), str(Path(h5).with_suffix(".db")), "default name", key="db-name")
        os.replace(str(p) + ".kept", c.scratch + "/orig.db")
        p = Path(c.scratch) / "orig.db"
    got, ref = read_db(r), read_db(p)
    c.same(sorted(got), sorted(ref), "tables", key="tables")
    for t in ref:
        c.same(got[t][0], ref[t][0], "columns of " + t, key="columns")
        c.expect(rows_equal(got[t][1], ref[t][1]), f"rows of {t}: {got[t][1]} != {ref[t][1]}", key="rows")
    c.expect(p.read_bytes() == raw, "the input is changed", key="input-changed")
    c.obs("tables", tuple(sorted(ref)))


# ------------------------------------------------------------------ archive
NAMES = ["rewards.h5", "notes.txt", "a b.txt", "ünï.dat", "opsim.db", "visits.h5", "x"]
KINDS = ["rewards", "scheduler", "notes", "log", "ünï"]


def rand_bytes(c):
    return c.rng.integers(0, 256, c.randint(0, 60), dtype=np.uint8).tobytes()


def visits_frame(c, n=None, d0=None):
    n = c.randint(1, 30) if n is None else n
    d0 = 60000 + c.randint(0, 3000) if d0 is None else d0
    mjd = np.sort(d0 + c.uniform(0, 4, n))
    return pd.DataFrame({
        "observationId": np.arange(n) + c.randint(0, 1000),
        "observationStartMJD": mjd,
        "fieldRA": c.uniform(0, 360, n),
        "fieldDec": c.uniform(-80, 30, n),
        "band": [str(x) for x in c.rng.choice(list("ugrizy"), n)],
        "altitude": c.uniform(20, 89, n),
        "azimuth": c.uniform(0, 360, n),
        "visitExposureTime": np.full(n, 30.0),
        "night": np.floor(mjd - d0).astype(int),
    })


@check.scenario(30, 300)
def files(c):
    """Histories of adding visits and files to the archive."""
    from astropy.time import Time
    from lsst.resources import ResourcePath
    from rubin_sim.sim_archive import vseqarchive

    quiet()
    schema = c22.new_schema(c)
    s = c22.open_store(schema)
    s.create_schema_in_database()
    try:
        base = os.path.join(c.scratch, str(c.choice(["arch", "my arch", "árch/deep"])))
        form = str(c.choice(["str", "slash", "url", "rp"]))
        os.makedirs(base) if c.flip() else None
        arg = {"str": base, "slash": base + "/", "url": ResourcePath(base, forceDirectory=True).geturl(), "rp": ResourcePath(base, forceDirectory=True)}[form]
        cli = Cli(s, schema, c)

        def add(s, u, p, kind, arg, update=False):
            """Through the function, or through the command where its arguments can be written."""
            if not isinstance(u, uuid.UUID) or not os.path.exists(p) or c.flip():
                return vseqarchive.add_file(s, u, p, kind, arg, update=update)
            url = arg.geturl() if isinstance(arg, ResourcePath) else arg
            return ResourcePath(cli.run("archive-file", "--archive-base", url, *(["--update"] if update else []), "--", u, p, kind))

        seqs = {}
        for _ in range(c.randint(1, 3)):
            t = Time(c.choice([60000 + c.uniform(0, 3000), 60000 + c.randint(0, 3000) + 0.5, 60000 + c.randint(0, 3000) + 0.5 - 1e-6, 60000.0 + c.randint(0, 3000)]), format="mjd", scale="utc")
            tel = str(c.choice(["simonyi", "auxtel"]))
            df = visits_frame(c)
            u = s.record_simulation_metadata(df, "sim", telescope=tel, creation_time=t)
            seqs[u] = dict(tel=tel, t=t, files={}, df=df)
        k = 0

        def verify():
            for u, q in seqs.items():
                for kind, (url, content) in q["files"].items():
                    c.same(s.get_file_url(u, kind), url, "registered location of " + kind, key="url")
                    got = ResourcePath(url).read()
                    c.expect(got == content, f"{kind} of a sequence reads back with other bytes after {last}", key="content:" + last)
                    if kind != "visits":
                        r = pd.read_sql(f"SELECT file_sha256 FROM {schema}.files WHERE visitseq_uuid='{u}' AND file_type=%(k)s", s.sa_engine, params={"k": kind})
                        c.same(bytes(r.iloc[0, 0]), hashlib.sha256(content).digest(), "hash of " + kind, key="sha256")

        for step in range(c.randint(3, 8)):
            u = list(seqs)[c.randint(0, len(seqs) - 1)]
            q = seqs[u]
            k += 1
            src = os.path.join(c.scratch, "src%d" % k)
            os.mkdir(src)
            op = str(c.choice(["file", "file", "file", "visits", "missing", "badseq"]))
            last = op
            wantdir = os.path.join(base, q["tel"], iso_day(q["t"].utc.mjd), str(u))
            if op == "file":
                kind = str(c.choice(KINDS))
                name = str(c.choice(NAMES))
                content = rand_bytes(c)
                p = os.path.join(src, name)
                Path(p).write_bytes(content)
                update = c.flip(0.4)
                dup = kind in q["files"] and not update
                dest = os.path.join(wantdir, name)
                clash = any(ResourcePath(x).ospath == dest for kk, (x, _) in q["files"].items() if kk != kind)
                last = "file" + (":dup" if dup else "") + (":clash" if clash else "")
                if dup:
                    c.raises(ValueError, lambda: add(s, u, p, kind, arg, update), "a second file of a kind", key="dup")
                else:
                    try:
                        rp = add(s, u, p if c.flip() else Path(p), kind, arg, update=update)
                    except ValueError:
                        # a name another file has may be refused; nothing may be lost
                        if not clash:
                            raise
                        rp = None
                    if rp is not None:
                        q["files"][kind] = (rp.geturl(), content)
                        if not clash:
                            c.same(rp.ospath, dest, "archived at", key="path")
                        c.same(os.path.dirname(rp.ospath), wantdir, "archived in", key="path")
                c.obs("file", (last, form, name == "visits.h5"))
            elif op == "visits":
                df = q["df"]
                update = c.flip()
                again = "visits" in q["files"]
                if again:
                    last = "visits:again"
                    df = visits_frame(c)
                if any(os.path.basename(ResourcePath(x).ospath) == "visits.h5" for kk, (x, _) in q["files"].items() if kk != "visits"):
                    continue
                if c.flip():
                    p = os.path.join(src, str(c.choice(["o.db", "visits.sqlite", "x.DB3"])))
                    write_db(p, {"observations": df})
                else:
                    p = os.path.join(src, "visits.h5")
                    df.to_hdf(p, key="observations")
                if again and not update:
                    c.raises(ValueError, lambda: add(s, u, p, "visits", arg), "other visits for a sequence that has visits", key="visits-again")
                    verify()
                    continue
                rp = add(s, u, p, "visits", arg, update=update)
                q["df"] = df
                c.same(rp.ospath, os.path.join(wantdir, "visits.h5"), "visits at", key="path")
                c.same(s.get_visitseq_url(u), rp.geturl(), "visits url", key="url")
                q["files"]["visits"] = (rp.geturl(), Path(rp.ospath).read_bytes())
                got = vseqarchive.get_visits(s.get_visitseq_url(u))
                same_frame(c, got, df, "visits")
                lo = float(np.median(df["altitude"]))
                got = vseqarchive.get_visits(rp, query=f"altitude > {lo!r}")
                same_frame(c, got, df.query(f"altitude > {lo!r}"), "selected visits")
                c.obs("visits", Path(p).suffix)
            elif op == "missing":
                before = tree(base)
                c.raises(OSError, lambda: add(s, u, os.path.join(src, "nothing"), "notes", arg, True), "a file that is not there", key="missing")
                if "notes" not in q["files"]:
                    c.raises(ValueError, lambda: s.get_file_url(u, "notes"), "no file registered", key="missing")
                c.same(tree(base), before, "files after failure", key="missing-tree")
            else:
                p = os.path.join(src, "f.txt")
                Path(p).write_bytes(b"1")
                before = tree(base)
                c.raises(Exception, lambda: add(s, uuid.uuid4(), p, "notes", arg, True), "an unknown sequence", key="badseq")
                c.same(tree(base), before, "files after failure", key="badseq-tree")
            verify()
        # retrieval through the command line function
        from click.testing import CliRunner

        for u, q in seqs.items():
            for kind, (url, content) in q["files"].items():
                d = os.path.join(c.scratch, "ret%d" % k)
                k += 1
                if kind == "visits" and c.flip():
                    d += ".db"
                r = CliRunner().invoke(vseqarchive.get_file, [str(u), kind, d], obj=s)
                c.expect(r.exit_code == 0, f"get_file failed: {r.output} {r.exception!r}", key="get-file")
                if d.endswith(".db"):
                    cols, rows = read_db(d)["observations"]
                    same_frame(c, pd.DataFrame(rows, columns=cols), q["df"], "visits as database")
                else:
                    c.expect(Path(d).read_bytes() == content, "retrieved file differs", key="get-file")
                c.obs("get", kind)
        if "visits" not in last:
            last = "end"
        verify()
    finally:
        c22.close_store(s)


def tree(base):
    return {str(p): hashlib.md5(p.read_bytes()).hexdigest() for p in sorted(Path(base).rglob("*")) if p.is_file()}


def same_frame(c, got, want, what):
    c.same(list(got.columns), list(want.columns), what + ": columns", key="frame-columns")
    c.same(len(got), len(want), what + ": rows", key="frame-rows")
    for k in want.columns:
        ok = all((pd.isna(x) and pd.isna(y)) or x == y for x, y in zip(got[k], want[k]))
        c.expect(ok, f"{what}: column {k} differs", key="frame-values")


# ------------------------------------------------------------------ statistics
@check.scenario(60, 600)
def stats(c):
    from rubin_sim.sim_archive.vseqarchive import compute_nightly_stats

    quiet()
    n = c.randint(1, 60)
    df = visits_frame(c, n)
    if c.flip(0.4):
        # times at and next to the day boundary
        j = c.randint(0, n - 1)
        df.loc[j, "observationStartMJD"] = np.floor(df.loc[j, "observationStartMJD"]) + 0.5 + c.choice([0, 1e-5, -1e-5])
    if c.flip(0.3):
        df.loc[c.randint(0, n - 1), "altitude"] = np.nan
    day = np.array([iso_day(m) for m in df["observationStartMJD"]])
    mode = str(c.choice(["observationStartMJD", "obs_start_mjd", "day_obs", "index"]))
    v = df.copy()
    if mode == "obs_start_mjd":
        v = v.rename(columns={"observationStartMJD": mode})
    elif mode == "day_obs":
        v["day_obs"] = [datetime.date.fromisoformat(d) for d in day]
    elif mode == "index":
        order = c.rng.permutation(n)
        v = v.iloc[order]
        v.index = c.rng.permutation(n) + 5
        day, df = day[order], df.iloc[order]
    before = v.copy(deep=True)
    cols = ("altitude", "azimuth") if c.flip() else tuple(str(x) for x in c.rng.permutation(["altitude", "azimuth", "fieldRA"])[: c.randint(1, 3)])
    st = compute_nightly_stats(v, cols) if cols != ("altitude", "azimuth") else compute_nightly_stats(v)
    c.expect(v.equals(before) and list(v.columns) == list(before.columns), "the visits are changed", key="mutates")
    want = {}
    for d in set(day):
        for k in cols:
            x = df[k].to_numpy()[day == d]
            x = x[~np.isnan(x)]
            want[(d, k)] = [len(x)] + ([x.mean(), np.std(x, ddof=1) if len(x) > 1 else np.nan, x.min()] + list(np.percentile(x, [5, 25, 50, 75, 95])) + [x.max()] if len(x) else [np.nan] * 9)
    got = {}
    for _, r in st.iterrows():
        key = (pd.Timestamp(r["day_obs"]).date().isoformat() if not isinstance(r["day_obs"], str) else r["day_obs"], r["value_name"])
        c.expect(key not in got, "two rows for %r" % (key,), key="twice")
        got[key] = [r[x] for x in ("count", "mean", "std", "min", "p05", "q1", "median", "q3", "p95", "max")]
        c.expect(not r["accumulated"], "accumulated", key="accumulated")
    c.same(set(got), set(want), "nights and values", key="rows")
    for k in want:
        for a, b in zip(got[k], want[k]):
            c.expect((np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-9 * (1 + abs(b)), f"{k}: {got[k]} != {want[k]}", key="stats")
    c.obs("stats", (mode, len(cols), min(len(set(day)), 4)))
    if c.index % 4:
        return
    # the command stores and prints the same
    schema = c22.new_schema(c)
    s = c22.open_store(schema)
    try:
        s.create_schema_in_database()
        u, other = s.record_simulation_metadata(v, "a"), s.record_simulation_metadata(v, "b")
        f = os.path.join(c.scratch, "v.h5")
        v.to_hdf(f, key="observations")
        cli = Cli(s, schema, c)
        t = cli.table("add-nightly-stats", "--", u, f, *(cols if cols != ("altitude", "azimuth") or c.flip() else ()))
        for tab, what in ((t, "printed"), (s.query_nightly_stats(u), "stored"), (cli.table("query-nightly-stats", u), "printed later")):
            c.same(len(tab), len(want), what + " rows", key="cli-rows")
            for _, r in tab.iterrows():
                k = (str(r["day_obs"])[:10], r["value_name"])
                c.expect(k in want, f"{what} {k}", key="cli-rows")
                for a, b in zip(["nan" if r[x] in ("", None) else r[x] for x in ("count", "mean", "std", "min", "p05", "q1", "median", "q3", "p95", "max")], want[k]):
                    a = float(a)
                    c.expect((np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-9 * (1 + abs(b)), f"{what} {k}: {a} != {b}", key="cli-stats")
        c.same(len(s.query_nightly_stats(other)), 0, "statistics of another sequence", key="cli-other")
    finally:
        c22.close_store(s)


# ------------------------------------------------------------------ simulation directories
def rand_obs(c, n=None, mjd0=None):
    from rubin_scheduler.scheduler.utils import ObservationArray

    n = c.randint(1, 12) if n is None else n
    o = ObservationArray(n=n)
    mjd0 = 61000 + c.randint(0, 2000) if mjd0 is None else mjd0
    o["ID"] = np.arange(n)
    o["mjd"] = np.sort(mjd0 + c.uniform(0, 3, n))
    o["RA"] = c.uniform(0, 6.28, n)
    o["dec"] = c.uniform(-1.4, 0.4, n)
    o["band"] = c.rng.choice(list("ugrizy"), n)
    o["exptime"] = 30.0
    o["night"] = np.floor(o["mjd"] - mjd0)
    o["target_name"] = [str(c.choice(["", "a b", "ddf_COSMOS", "x'y"])) for _ in range(n)]
    return o


@check.scenario(30, 300)
def simdir(c):
    """A simulation directory, its transfer to an archive and its verification."""
    from rubin_scheduler.scheduler.utils import SchemaConverter
    from rubin_sim.sim_archive import prototype, sim_archive

    quiet()
    os.environ.setdefault("USER", "root")
    o = rand_obs(c)
    o0 = np.array(o, copy=True)
    ins = {}
    contents = {}
    for k in range(c.randint(0, 3)):
        d = os.path.join(c.scratch, "in%d" % k)
        os.mkdir(d)
        name = str(c.choice(["scheduler.pickle.xz", "script.py", "notes.txt", "opsim.db", "obs_stats.txt", "sim_metadata.yaml"]))
        p = os.path.join(d, name)
        b = rand_bytes(c)
        Path(p).write_bytes(b)
        kind = ["scheduler", "script", "notebook"][k]
        ins[kind] = p if c.flip() else Path(p)
        contents[kind] = b
    kw = {}
    if c.flip():
        kw["sim_start_mjd"] = float(np.floor(o["mjd"].min())) + c.choice([0.0, 0.5, 0.49999, 0.9])
        if c.flip():
            kw["sim_duration"] = c.randint(1, 5)
        kw["record_rewards"] = c.flip()
        if c.flip():
            kw["n_visit_limit"] = np.int64(c.randint(1, 100))
    tags = [str(c.choice(["ideal", "nominal", "dev", "ünï"])) for _ in range(c.randint(0, 2))]
    label = str(c.choice(["a label", "l: 'x'", "ünï"])) if c.flip() else None
    meta = {"telescope": "simonyi"} if c.flip() else None
    rew = obsr = None
    rmode = str(c.choice(["none", "both", "rewards", "obs"]))
    if rmode in ("both", "rewards"):
        rew = pd.DataFrame({"mjd_start": c.uniform(0, 1, 4), "reward": c.uniform(0, 1, 4)})
    if rmode in ("both", "obs"):
        obsr = pd.Series(c.uniform(0, 1, len(o)), name="r") if c.flip() else pd.DataFrame({"r": c.uniform(0, 1, len(o))})
    path = os.path.join(c.scratch, "sim")
    given = c.flip(0.7)
    if given:
        os.mkdir(path)
    meta0, kw0, ins0, tags0 = (None if meta is None else dict(meta)), dict(kw), dict(ins), list(tags)
    names = [Path(p).name for p in ins.values()]
    used = ["opsim.db", "obs_stats.txt", "sim_metadata.yaml"] + (["rewards.h5"] if rmode != "none" else [])
    clash = len(set(names)) < len(names) or bool(set(names) & set(used))
    try:
        r = sim_archive.make_sim_data_dir(o, rew, obsr, ins, kw, tags, label, path if given else None, meta)
    except ValueError:
        if not clash:
            raise
        c.obs("simdir", "refused")
        return
    c.expect(meta == meta0 and kw == kw0 and ins == ins0 and tags == tags0 and np.array_equal(o0, np.asarray(o)), f"arguments are changed: {meta0} -> {meta}", key="arguments")
    d = Path(path) if given else Path(r.name)
    if given:
        c.same(str(r), path, "directory", key="dir")
    y = yaml.safe_load((d / "sim_metadata.yaml").read_bytes())
    c.same(y.get("label"), label, "label", key="meta")
    c.same(y.get("tags", []), tags, "tags", key="meta")
    for k in ("sim_start_mjd", "sim_duration", "record_rewards", "n_visit_limit"):
        c.same(y.get("sim_runner_kwargs", {}).get(k), kw.get(k), k, key="meta-kwargs")
    if meta:
        c.same(y.get("telescope"), "simonyi", "telescope", key="meta")
    if "sim_start_mjd" in kw:
        want = {"first": iso_day(kw["sim_start_mjd"])}
        if "sim_duration" in kw:
            want["last"] = iso_day(kw["sim_start_mjd"] + kw["sim_duration"] - 1)
    else:
        want = {"first": iso_day(o["mjd"].min()), "last": iso_day(o["mjd"].max())}
    c.same(y["simulated_dates"], want, "dates", key="dates")
    c.same(set(y["files"]), {"observations", "statistics"} | set(ins) | ({"rewards"} if rmode != "none" else set()), "files", key="files:" + rmode)
    for kind, f in y["files"].items():
        b = (d / f["name"]).read_bytes()
        c.same(f["md5"], hashlib.md5(b).hexdigest(), "md5 of " + kind, key="md5")
        if kind in contents:
            c.expect(b == contents[kind], f"{kind} holds other bytes than the file given ({clash})", key="in-file")
    cols, rows = read_db(d / y["files"]["observations"]["name"])["observations"]
    want = SchemaConverter().obs2opsim(o)
    same_frame(c, pd.DataFrame(rows, columns=cols)[["observationStartMJD", "fieldRA", "fieldDec", "band", "target_name"]], want[["observationStartMJD", "fieldRA", "fieldDec", "band", "target_name"]], "observations")
    if rew is not None:
        c.expect(pd.read_hdf(d / "rewards.h5", "reward_df").equals(rew), "rewards differ", key="rewards")
    if obsr is not None:
        c.expect(pd.read_hdf(d / "rewards.h5", "obs_rewards").equals(obsr), "observation rewards differ", key="rewards")
    # into the archive, several times
    arch = os.path.join(c.scratch, "archive")
    os.mkdir(arch)
    uri = str(c.choice([arch, arch + "/", "file://" + arch]))
    today = datetime.datetime.now(datetime.UTC).date().isoformat()
    pre = []
    for k in range(c.randint(0, 2)):
        q = os.path.join(arch, today, str(c.choice(["1", "7", "10", "junk", "3x"])))
        os.makedirs(q, exist_ok=True)
        Path(q, "keep").write_bytes(b"1")
        pre.append(os.path.basename(q))
    before = tree(arch)
    seen = []
    for k in range(c.randint(1, 3)):
        rp = prototype.transfer_archive_dir(str(d), uri)
        if datetime.datetime.now(datetime.UTC).date().isoformat() != today:
            return
        q = Path(rp.ospath)
        c.same(str(q.parent), os.path.join(arch, today), "archived under the date", key="proto-path")
        ids = [int(x) for x in pre + seen if x.isdigit()]
        c.same(q.name, str(max(ids) + 1 if ids else 1), "number", key="proto-index")
        seen.append(q.name)
        for f in ["sim_metadata.yaml"] + [x["name"] for x in y["files"].values()]:
            c.expect((q / f).read_bytes() == (d / f).read_bytes(), "archived copy of %s differs" % f, key="proto-copy")
        now = tree(arch)
        c.expect(all(now.get(f) == h for f, h in before.items()), "an addition changed earlier files", key="proto-overwrite")
        before = now
        chk = prototype.check_opsim_archive_resource(rp.geturl())
        c.same(chk, {f["name"]: True for f in y["files"].values()}, "verification", key="proto-check")
    victim = str(c.choice([f["name"] for f in y["files"].values()]))
    b = (q / victim).read_bytes()
    (q / victim).write_bytes(b[:-1] if len(b) and c.flip() else b + b"x")
    chk = prototype.check_opsim_archive_resource(rp.geturl())
    c.same(chk, {f["name"]: f["name"] != victim for f in y["files"].values()}, "verification of a damaged file", key="proto-damaged")
    c.obs("simdir", (rmode, given, len(ins), clash, len(seen)))
    del r


class _Sched:
    def __init__(self, keep, state):
        self.keep_rewards = keep
        self.state = state


@check.scenario(8, 60)
def drive(c):
    """drive_sim keeps what the simulation returned (sim_runner is a stand-in)."""
    import lzma
    import pickle
    import shutil

    from rubin_sim.sim_archive import sim_archive

    quiet()
    os.environ.setdefault("USER", "root")
    keep = c.flip()
    sch = _Sched(keep, c.randint(0, 1000))
    state = sch.state
    o = rand_obs(c)
    rew = pd.DataFrame({"reward": c.uniform(0, 1, 3)})
    obsr = pd.DataFrame({"r": c.uniform(0, 1, len(o))})
    calls = []

    def runner(observatory, scheduler, **kw):
        calls.append(kw)
        scheduler.state = -1
        return (observatory, scheduler, o) + ((rew, obsr) if kw["record_rewards"] else ())

    script = os.path.join(c.scratch, "s.py")
    Path(script).write_bytes(rand_bytes(c))
    old = sim_archive.sim_runner
    sim_archive.sim_runner = runner
    try:
        if not keep:
            c.raises(ValueError, lambda: sim_archive.drive_sim("obs", sch, record_rewards=True), "rewards of a scheduler that keeps none", key="drive-rewards")
        kw = {"sim_start_mjd": float(np.floor(o["mjd"].min())), "sim_duration": 3}
        tags = ["a"]
        res = sim_archive.drive_sim("obs", sch, label="l", tags=tags, script=script, **kw)
    finally:
        sim_archive.sim_runner = old
    rp = res[-1]
    d = Path(rp.ospath)
    try:
        c.same(calls, [dict(kw, record_rewards=keep)], "arguments of sim_runner", key="drive-args")
        c.expect(res[0] == "obs" and res[1] is sch and res[2] is o and len(res) == (6 if keep else 4), "results", key="drive-results")
        c.expect(rp.exists() and d.is_dir(), f"the resource {rp} does not exist", key="drive-gone")
        y = yaml.safe_load((d / "sim_metadata.yaml").read_bytes())
        c.expect(y["label"] == "l" and y["tags"] == ["a"], "label and tags", key="drive-meta")
        c.same("rewards" in y["files"], keep, "rewards saved", key="drive-rewards")
        c.same((d / y["files"]["script"]["name"]).read_bytes(), Path(script).read_bytes(), "script", key="drive-script")
        with lzma.open(d / y["files"]["scheduler"]["name"]) as f:
            c.same(pickle.load(f).state, state, "scheduler before the simulation", key="drive-scheduler")
        c.obs("drive", keep)
    finally:
        if str(d).startswith(("/tmp/", c.scratch)) and d.is_dir():
            shutil.rmtree(d)


# ------------------------------------------------------------------ prototype archive
def write_sim(c, arch, day, num, meta, o=None, name="opsim.db"):
    d = os.path.join(arch, day, str(num))
    os.makedirs(d)
    if o is not None:
        from rubin_scheduler.scheduler.utils import SchemaConverter

        SchemaConverter().obs2opsim(o, filename=os.path.join(d, name))
    Path(d, "sim_metadata.yaml").write_text(yaml.dump(meta))
    return d


def rand_meta(c, tags=True, full=False):
    first = datetime.date.today() + datetime.timedelta(days=c.randint(-3, 3))
    last = first + datetime.timedelta(days=c.randint(0, 3))
    m = {"files": {"observations": {"name": "opsim.db", "md5": "%032x" % c.randint(0, 10**9)}}, "simulated_dates": {"first": first.isoformat(), "last": last.isoformat()}}
    m["scheduler_version"] = str(c.choice(["3.0", "4.6.0"]))
    m["host"] = "h"
    m["username"] = "u"
    if tags and (full or c.flip(0.8)):
        m["tags"] = sorted({str(x) for x in c.rng.choice(["ideal", "nominal", "dev"], c.randint(1, 3))})
    if full or c.flip():
        m["label"] = str(c.choice(["a label", "ünï"]))
    if c.flip():
        m["telescope"] = str(c.choice(["simonyi", "auxtel", "Simonyi"]))
    if full or c.flip(0.7):
        m["sim_runner_kwargs"] = {"sim_start_mjd": float(c.randint(61000, 62000)), "record_rewards": bool(c.flip())}
    if c.flip():
        m["files"]["rewards"] = {"name": "rewards.h5", "md5": "%032x" % c.randint(0, 10**9)}
    return m


@check.scenario(40, 400)
def listing(c):
    """Listing and finding simulations of the prototype archive."""
    from lsst.resources import ResourcePath
    from rubin_sim.sim_archive import prototype

    quiet()
    utc_today = datetime.datetime.now(datetime.UTC).date()
    arch = os.path.join(c.scratch, str(c.choice(["arch", "my arch"])))
    os.makedirs(arch)
    uri = ResourcePath(arch, forceDirectory=True).geturl()
    if c.flip(0.3):
        uri = uri.rstrip("/")
    sims = {}
    untagged = c.flip(0.3)
    full = c.flip(0.5)
    for _ in range(c.randint(1, 8)):
        day = utc_today - datetime.timedelta(days=c.randint(0, 5))
        num = c.randint(1, 12)
        if (day, num) in sims:
            continue
        sims[day, num] = rand_meta(c, tags=not untagged, full=full and not untagged)
    for (day, num), m in sims.items():
        write_sim(c, arch, day.isoformat(), num, m)
    os.makedirs(os.path.join(arch, utc_today.isoformat(), "99"))

    def want_label(k):
        m = sims[k]
        lb = "%s/%d" % (k[0].isoformat(), k[1])
        if "label" in m:
            return "%s %s" % (lb, m["label"])
        d = m["simulated_dates"]
        lb += " of " + d["first"] + (" through " + d["last"] if d["last"] != d["first"] else "")
        return lb + " with " + m["scheduler_version"]

    def key(k):
        return ResourcePath(os.path.join(arch, k[0].isoformat(), str(k[1])), forceDirectory=True).geturl()

    def compare(got, keys, what):
        c.same(sorted(got), sorted(key(k) for k in keys), what, key="list:" + what.split()[0])
        for k in keys:
            w = dict(sims[k], label=want_label(k))
            g = {a: b for a, b in got[key(k)].items()}
            c.expect(g == w, f"{what}: {g} != {w}", key="list-meta:" + what.split()[0])

    latest = utc_today - datetime.timedelta(days=c.randint(0, 4))
    n = c.randint(1, 6)
    inside = [k for k in sims if 0 <= (latest - k[0]).days < n]
    compare(prototype.read_archived_sim_metadata(uri, latest.isoformat(), n), inside, "direct listing")
    c.obs("list", (min(len(inside), 3), untagged))
    # through a compilation
    comp = os.path.join(c.scratch, "comp.h5")
    if c.flip(0.6):
        prototype.compile_sim_metadata(uri, comp, num_nights=20)
        if datetime.datetime.now(datetime.UTC).date() != utc_today:
            return
        got = prototype.read_sim_metadata_from_hdf(comp)
        compare(got, list(sims), "compiled listing")
        c.same(prototype.verify_compiled_sim_metadata(uri, comp, 20), [], "differences", key="verify")
        # simulations that came later are found too
        for _ in range(c.randint(0, 2)):
            k = (utc_today, c.randint(13, 30))
            if k not in sims:
                sims[k] = rand_meta(c, tags=not untagged)
                write_sim(c, arch, k[0].isoformat(), k[1], sims[k])
        inside = [k for k in sims if 0 <= (latest - k[0]).days < n]
        compare(prototype.read_archived_sim_metadata(uri, latest.isoformat(), n, comp), inside, "cached listing")
        if c.flip(0.5):
            prototype.compile_sim_metadata(uri, comp, num_nights=20, append=True)
            compare(prototype.read_sim_metadata_from_hdf(comp), list(sims), "appended listing")
        c.obs("compiled", len(sims))
    # the latest matching one
    first = datetime.date.today() + datetime.timedelta(days=c.randint(-3, 3))
    last = first + datetime.timedelta(days=c.randint(0, 2))
    tags = [str(x) for x in c.rng.choice(["ideal", "nominal", "dev"], c.randint(0, 2))]
    tel = str(c.choice(["simonyi", "auxtel"]))
    age = c.randint(1, 6)
    ok = []
    for k, m in sims.items():
        if not 0 <= (utc_today - k[0]).days < age:
            continue
        if m["simulated_dates"]["first"] > first.isoformat() or m["simulated_dates"]["last"] < last.isoformat():
            continue
        if m.get("telescope", tel).lower() != tel or not set(tags) <= set(m.get("tags", [])):
            continue
        ok.append(k)
    got = prototype.find_latest_prenight_sim_for_nights(
        first.isoformat(), last.isoformat() if last != first or c.flip() else None, tuple(tags), tel, age, uri, comp if c.flip() else None)
    if datetime.datetime.now(datetime.UTC).date() != utc_today:
        return
    if not ok:
        c.expect(not got, "a simulation was found where none matches", key="find-none")
    else:
        k = max(ok)
        c.expect(bool(got), f"nothing found, {k} matches", key="find")
        c.same(got["uri"], key(k), "latest simulation", key="find")
        c.same(got["opsim_rp"].ospath, os.path.join(arch, k[0].isoformat(), str(k[1]), "opsim.db"), "its visits", key="find-rp")
    c.obs("find", (min(len(ok), 3), len({k[0] for k in ok}) > 1))


@check.scenario(20, 200)
def fetch(c):
    """Visits of the requested nights, and only those."""
    from rubin_scheduler.scheduler.utils import SchemaConverter
    from rubin_sim import maf
    from rubin_sim.sim_archive import prototype, sim_archive

    quiet()
    o = rand_obs(c, c.randint(1, 30))
    if c.flip(0.5):
        o["mjd"][c.randint(0, len(o) - 1)] = np.floor(o["mjd"][0]) + 0.5
        o["mjd"].sort()
    p = os.path.join(c.scratch, "opsim.db")
    ref = SchemaConverter().obs2opsim(o, filename=p)
    ref = SchemaConverter().obs2opsim(o)
    days = np.array([iso_day(m) for m in ref["observationStartMJD"]])
    a, b = sorted([str(c.choice(list(days))), str(c.choice(list(days)))])
    if c.flip(0.2):
        a = b = "2001-01-01"
    sel = (days >= a) & (days <= b)
    src = p
    mod = sim_archive if c.flip(0.6) else prototype
    h5 = mod is sim_archive and c.flip()
    if h5:
        from rubin_sim.sim_archive.util import opsimdb_to_hdf5

        src = opsimdb_to_hdf5(p, os.path.join(c.scratch, "v.h5"))
    from lsst.resources import ResourcePath

    which = src if c.flip() else ResourcePath(src)
    stackers = [] if c.flip() else [maf.DayObsISOStacker()] if c.flip() else [maf.HourAngleStacker(lst_col="observationStartLST", ra_col="fieldRA")]
    if h5 and stackers and not isinstance(stackers[0], maf.DayObsISOStacker):
        pass
    st0 = list(stackers)
    kw = {} if c.flip() else None
    how = str(c.choice(["arg", "kwargs"]))
    if mod is prototype:
        how = "kwargs"
    if how == "kwargs":
        kw = {"stackers": stackers}
        if c.flip():
            kw["dbcols"] = ["observationStartMJD", "fieldRA", "fieldDec", "observationStartLST"]
    kw0 = None if kw is None else dict(kw)
    arg = stackers if how == "kwargs" or c.flip() else tuple(stackers)
    args = dict(which_sim=which, get_sim_data_kwargs=kw)
    if how == "arg":
        args["stackers"] = arg
    for rep in range(2):
        v = mod.fetch_sim_for_nights(a, b if b != a or c.flip() else None, **args)
        c.same(len(v), int(sel.sum()), "visits on the nights", key="fetch-rows")
        for k in ("observationStartMJD", "fieldRA", "fieldDec"):
            c.close(np.asarray(v[k], float), ref[k].to_numpy()[sel], k, rtol=0, atol=1e-12, key="fetch-values")
        wantiso = any(isinstance(s, maf.DayObsISOStacker) for s in st0)
        c.same("day_obs_iso8601" in v.columns, wantiso, "day column returned", key="fetch-iso")
        if wantiso:
            c.same([str(x) for x in v["day_obs_iso8601"]], [str(x) for x in days[sel]], "days", key="fetch-days")
        c.expect(stackers == st0 and (kw == kw0 or kw is None), f"call {rep}: the arguments are changed: {st0} -> {stackers}, {kw0} -> {kw}", key="fetch-arguments")
    c.obs("fetch", (mod.__name__[-9:], h5, how, type(arg).__name__, len(st0), bool(sel.any())))


@check.scenario(16, 160)
def proto(c):
    """Importing from and exporting to the prototype archive."""
    from astropy.time import Time
    from lsst.resources import ResourcePath
    from rubin_sim.sim_archive import prototype, vseqarchive

    quiet()
    schema = c22.new_schema(c)
    s = c22.open_store(schema)
    s.create_schema_in_database()
    try:
        base = os.path.join(c.scratch, "vseq")
        parch = os.path.join(c.scratch, "proto")
        os.mkdir(parch)
        o = rand_obs(c)
        meta = rand_meta(c)
        meta["files"].pop("rewards", None)
        meta["files"]["observations"].pop("md5")
        run_at = None
        t = datetime.datetime(2026, c.randint(1, 12), c.randint(1, 28), c.randint(0, 23), c.randint(0, 59), c.randint(0, 59))
        meta["label"] = str(c.choice(["plain", "a b"]))
        if c.flip(0.4):
            meta["label"] += " run at " + t.isoformat()
            run_at = t
        if c.flip(0.4):
            t2 = t + datetime.timedelta(hours=c.randint(-30, 30))
            meta["creation_time"] = t2.isoformat() + str(c.choice(["", "+00:00"]))
            run_at = t2
        day = "2026-0%d-1%d" % (c.randint(1, 9), c.randint(0, 9))
        num = c.randint(1, 30)
        extra = None
        if c.flip():
            meta["files"]["notes"] = {"name": "n.txt"}
            extra = rand_bytes(c)
        d = write_sim(c, parch, day, num, meta, o)
        if extra is not None:
            Path(d, "n.txt").write_bytes(extra)
        kept = tree(parch)
        cli = Cli(s, schema, c)
        u = uuid.UUID(cli.run("import-proto", "--proto-sim-archive-url", "file://" + parch, "--", base, day, num)) if c.flip(0.4) else s.import_sim_from_prototype_sim_archive(base, day if c.flip() else datetime.date.fromisoformat(day), num if c.flip() else str(num), parch if c.flip() else "file://" + parch)
        c.same(tree(parch), kept, "the prototype archive after an import", key="import-changes")
        if run_at is None:
            run_at = datetime.datetime.fromisoformat(day) + datetime.timedelta(hours=12, seconds=num)

        def expect_sim(u, label, tel, dates, tags, created, what):
            m = s.get_visitseq_metadata(u, "simulations")
            c.same(m["visitseq_label"], label, what + " label", key=what + "-label")
            c.same(m["telescope"], tel, what + " telescope", key=what + "-telescope")
            c.same([str(m["first_day_obs"]), str(m["last_day_obs"])], [dates["first"], dates["last"]], what + " dates", key=what + "-dates")
            ct = pd.Timestamp(m["creation_time"])
            ct = ct.tz_convert("UTC").tz_localize(None) if ct.tzinfo else ct
            c.expect(abs((ct - pd.Timestamp(created)).total_seconds()) < 0.01, f"{what}: creation time {ct}, wanted {created}", key=what + "-created")
            for tg in tags:
                c.expect(s.is_tagged(u, tg), f"{what}: tag {tg} lost", key=what + "-tags")
            got = vseqarchive.get_visits(s.get_visitseq_url(u))
            for k, kk, f in (("observationStartMJD", "mjd", 1), ("fieldRA", "RA", 180 / np.pi), ("fieldDec", "dec", 180 / np.pi)):
                c.close(got[k].to_numpy(), np.asarray(o[kk]) * f, what + " " + k, rtol=0, atol=1e-9, key=what + "-visits")
            c.same([str(x) for x in got["target_name"]], [str(x) for x in o["target_name"]], what + " names", key=what + "-visits")
            rp = ResourcePath(s.get_visitseq_url(u))
            c.same(rp.ospath, os.path.join(base, tel, iso_day(Time(run_at).mjd), str(u), "visits.h5"), what + " visits at", key=what + "-path")

        tel = meta.get("telescope", "simonyi")
        if tel == "Simonyi":
            tel = "Simonyi"
        expect_sim(u, meta["label"], tel, meta["simulated_dates"], meta.get("tags", []) + ["from_prototype_sim_archive"], run_at, "imported")
        if extra is not None:
            c.expect(ResourcePath(s.get_file_url(u, "notes")).read() == extra, "an imported file differs", key="import-file")
            c.same(bytes(s.get_file_sha256(u, "notes")), hashlib.sha256(extra).digest(), "its hash", key="import-file")
        c.obs("import", ("tags" in meta, "creation_time" in meta, "run at" in meta["label"], extra is not None))
        # out to another prototype archive, and in again
        with_opsim = c.flip()
        if not with_opsim:
            con = pg.connect()
            con.cursor().execute(f"DELETE FROM {schema}.files WHERE file_type='observations'")
            con.commit()
            con.close()
        p2 = os.path.join(c.scratch, "proto2")
        os.mkdir(p2)
        dest = ResourcePath(cli.run("export-proto", "--proto-sim-archive-url", p2, "--", u)) if c.flip(0.4) else prototype.export_sim_to_prototype_sim_archive(s, u, p2)
        c.expect(dest.exists(), "no exported directory", key="export-dir")
        cols, rows = read_db(os.path.join(dest.ospath, "opsim.db"))["observations"]
        got = pd.DataFrame(rows, columns=cols)
        c.close(got["observationStartMJD"].to_numpy(), np.asarray(o["mjd"]), "exported times", rtol=0, atol=1e-12, key="export-visits")
        y = yaml.safe_load(Path(dest.ospath, "sim_metadata.yaml").read_bytes())
        if extra is not None:
            c.expect(Path(dest.ospath, y["files"]["notes"]["name"]).read_bytes() == extra, "an exported file differs", key="export-file")
        today = dest.ospath.rstrip("/").split("/")[-2]
        lst = prototype.read_archived_sim_metadata(p2, today, 1)
        c.same(len(lst), 1, "exported simulations listed", key="export-list")
        (m2,) = lst.values()
        c.same(m2.get("simulated_dates"), meta["simulated_dates"], "dates of the exported simulation", key="export-dates")
        u2 = s.import_sim_from_prototype_sim_archive(base, today, dest.ospath.rstrip("/").split("/")[-1], p2)
        expect_sim(u2, meta["label"], tel, meta["simulated_dates"], meta.get("tags", []) + ["from_prototype_sim_archive"], run_at, "again")
        c.obs("export", (with_opsim, extra is not None))
    finally:
        c22.close_store(s)
