"""C22: the visit sequence metadata store against an in-memory history."""
import datetime
import json
import logging
import uuid
import warnings

import numpy as np
import pandas as pd

from vlib import pg
from vlib.h import Check
from vlib.vscli import Cli

check = Check(
    "C22",
    "random histories of recording, updating, tagging, commenting, file registration, statistics, invalid calls and connection loss against a model of the store; "
    "every query is compared with the model and every failed call must leave all tables unchanged",
    assumptions=["database sessions run in UTC", "PostgreSQL itself is trusted"],
    nproc=4,
    budget=(200, 720),
)
check.worker_setup = pg.start
check.worker_teardown = pg.stop

TEXTS = ["plain", "it's", 'quo"te', "100%", "%s", "%(x)s", "{}", "{{a}}", "naïve ünïcode ☄", "line\nbreak", "tab\t", "back\\slash", "; DROP TABLE tags; --", "", "  spaced  ", "NULL"]
TAGS = ["prenight", "ideal", "nominal", "it's", 'a"b', "100%", "ünï", "two words", "a,b", "[x]", "PRENIGHT", "run_1", "run-1", "100", "run_%"]
FTYPES = ["rewards", "scheduler", "it's", "100%", "visits2", "ünï"]
COLS = ["count", "mean", "std", "min", "p05", "q1", "median", "q3", "p95", "max"]


def open_store(schema):
    from rubin_sim.sim_archive import vseqmetadata

    logging.getLogger("rubin_sim.sim_archive.vseqmetadata").setLevel(logging.CRITICAL + 1)
    return vseqmetadata.VisitSequenceArchiveMetadata(pg.kw(), schema)


def close_store(s):
    for f in (lambda: s.sa_engine.dispose(), lambda: s.pg_pool.closeall()):
        try:
            f()
        except Exception:
            pass


def dump(conn, schema):
    cur = conn.cursor()
    cur.execute("SELECT table_name FROM information_schema.tables WHERE table_schema=%s AND table_type='BASE TABLE' ORDER BY 1", (schema,))
    out = {}
    for (t,) in cur.fetchall():
        cur.execute(f'SELECT to_jsonb(x)::text FROM ONLY "{schema}"."{t}" AS x')
        out[t] = sorted(r[0] for r in cur.fetchall())
    return out


def rand_visits(c):
    n = c.randint(0, 5)
    return pd.DataFrame({"obs_start_mjd": 60000 + c.uniform(0, 10, n), "band": [str(c.choice(list("ugrizy"))) for _ in range(n)], "exp_time": np.full(n, 30.0)})


def day_form(c, d):
    k = c.randint(0, 3)
    if k == 0:
        return int(d.strftime("%Y%m%d"))
    if k == 1:
        return d.isoformat()
    if k == 2:
        return d.strftime("%Y%m%d")
    return d


class Model:
    def __init__(self, c, schema, stores, conn):
        self.c, self.schema, self.stores, self.conn = c, schema, stores, conn
        self.seqs = {}
        self.tags, self.comments, self.files, self.stats, self.envs = {}, {}, {}, {}, {}
        self.now = datetime.datetime.now(datetime.timezone.utc)

    def s(self):
        return self.stores[self.c.randint(0, len(self.stores) - 1)]

    def any(self, table=None):
        k = [u for u, r in self.seqs.items() if table is None or r["table"] == table]
        return k[self.c.randint(0, len(k) - 1)] if k else None

    def text(self):
        return str(self.c.choice(TEXTS)) + (str(self.c.randint(0, 99)) if self.c.flip() else "x")

    # ---- recording
    def record(self, table=None):
        from astropy.time import Time

        c = self.c
        table = table or str(c.choice(["simulations"] * 4 + ["visitseq", "completed", "mixedvisitseq"]))
        r = dict(table=table, visitseq_label=self.text(), telescope="simonyi", visitseq_url=None, first_day_obs=None, last_day_obs=None)
        kw = {}
        if c.flip(0.3):
            r["telescope"] = kw["telescope"] = "auxtel"
        if c.flip(0.4):
            r["visitseq_url"] = kw["url"] = "file:///x/" + self.text()
        if c.flip(0.85):
            d = datetime.date(2026, 2, 25) + datetime.timedelta(days=c.randint(0, 8))
            e = d + datetime.timedelta(days=c.randint(0, 4))
            r["first_day_obs"], kw["first_day_obs"] = d, day_form(c, d)
            if c.flip(0.95):
                r["last_day_obs"], kw["last_day_obs"] = e, day_form(c, e)
        if c.flip(0.6):
            t = self.now - datetime.timedelta(seconds=int(c.uniform(3600, 86400 * 6)))
            t = t.replace(microsecond=c.randint(0, 999) * 1000)
            r["creation_time"] = t
            kw["creation_time"] = Time(t.replace(tzinfo=None), scale="utc")
            if c.flip(0.3):
                kw["creation_time"] = kw["creation_time"].tai
        s = self.s()
        v = rand_visits(c)
        keep = v.copy()
        if table == "visitseq":
            u = s.record_visitseq_metadata(v, r["visitseq_label"], **kw)
        elif table == "completed":
            r["query"] = None
            if c.flip():
                r["query"] = kw["query"] = self.text()
            u = s.record_completed_metadata(v, r["visitseq_label"], **kw)
        elif table == "mixedvisitseq":
            a, b = uuid.uuid4(), uuid.uuid4()
            d1 = datetime.date(2026, 2, 26)
            r.update(last_early_day_obs=d1, first_late_day_obs=d1 + datetime.timedelta(days=3), early_parent_uuid=a, late_parent_uuid=b)
            u = s.record_mixed_metadata(v, r["visitseq_label"], day_form(c, d1), day_form(c, r["first_late_day_obs"]), a, b, **kw)
        else:
            r.update(scheduler_version=None, config_url=None, conda_env_sha256=None, parent_visitseq_uuid=None, sim_runner_kwargs=None, parent_last_day_obs=None)
            if c.flip(0.5):
                r["scheduler_version"] = kw["scheduler_version"] = self.text()
            if c.flip(0.3):
                r["config_url"] = kw["config_url"] = self.text()
            if self.envs and c.flip(0.6):
                r["conda_env_sha256"] = kw["conda_env_sha256"] = sorted(self.envs)[c.randint(0, len(self.envs) - 1)]
            if c.flip(0.3):
                r["parent_visitseq_uuid"] = kw["parent_visitseq_uuid"] = uuid.uuid4()
            if c.flip(0.4):
                r["sim_runner_kwargs"] = kw["sim_runner_kwargs"] = {"a": self.text(), "n": c.randint(0, 9), "x": [1, 2.5, None]}
            if c.flip(0.3):
                d = datetime.date(2026, 1, 3)
                r["parent_last_day_obs"], kw["parent_last_day_obs"] = d, day_form(c, d)
            u = s.record_simulation_metadata(v, r["visitseq_label"], **kw)
        pd.testing.assert_frame_equal(v, keep)
        c.expect(isinstance(u, uuid.UUID) and u not in self.seqs, f"recording returned {u!r}", key="record-uuid")
        r["order"] = len(self.seqs)
        self.seqs[u] = r
        c.obs("op", ("record", table))
        self.check_seq(u)

    # ---- checks
    def check_seq(self, u):
        c = self.c
        r = self.seqs[u]
        s = self.s()
        for tab in {r["table"], "visitseq"}:
            m = s.get_visitseq_metadata(u, table=tab)
            c.expect(m["visitseq_uuid"] == u, "metadata of another sequence", key="get-uuid")
            for k, v in r.items():
                if k in ("table", "order") or (tab == "visitseq" and k not in m.index):
                    continue
                got = m[k]
                if k == "creation_time":
                    got = pd.Timestamp(got).to_pydatetime().astimezone(datetime.timezone.utc)
                    c.expect(abs((got - v).total_seconds()) < 2e-6, f"creation time {got} recorded as {v}", key="get-value")
                    continue
                if isinstance(got, memoryview):
                    got = got.tobytes()
                if v is None:
                    c.expect(got is None or got is pd.NaT or (isinstance(got, float) and np.isnan(got)), f"{k} is {got!r}, never recorded", key="get-value")
                else:
                    c.expect(got == v, f"{k} is {got!r}, recorded {v!r} ({tab})", key="get-value")
        c.same(s.get_visitseq_url(u), r["visitseq_url"], "visits URL", key="get-url")
        if isinstance(s, Cli):
            t = s.table("get-visitseq-metadata", *(["--table", r["table"]] if c.flip(0.6) else []), u)
            c.expect(len(t) == 1 and t["visitseq_uuid"].iloc[0] == str(u), "the printed metadata are not one row of the sequence", key="print-uuid")
            for k in ("visitseq_label", "telescope", "first_day_obs", "last_day_obs", "scheduler_version", "query"):
                if k in r and k in t:
                    c.same(t[k].iloc[0], "" if r[k] is None else str(r[k]), f"printed {k}", key="print-value")

    def check_side(self, u):
        c, s = self.c, self.s()
        tags = self.tags.get(u, set())
        for t in list(tags) + [str(c.choice(TAGS))]:
            c.expect(bool(s.is_tagged(u, t)) == (t in tags), f"is_tagged({t!r})", key="tags")
        got = s.get_comments(u)
        want = self.comments.get(u, [])
        c.same([(str(a), b if isinstance(b, str) else None) for a, b in zip(got["comment"], got["author"])] if len(got) else [], want, "comments", key="comments")
        for ft in FTYPES:
            f = self.files.get((u, ft))
            if f is None:
                c.raises(ValueError, lambda: s.get_file_url(u, ft), "unregistered file", key="files")
                c.raises(ValueError, lambda: s.get_file_sha256(u, ft), "unregistered file", key="files")
            else:
                c.same(s.get_file_url(u, ft), f[1], "file URL", key="files")
                c.same(bytes(s.get_file_sha256(u, ft)), f[0], "file hash", key="files")
        st = s.query_nightly_stats(u)
        mine = {k[1:]: v for k, v in self.stats.items() if k[0] == u}
        c.expect(len(st) == len(mine), f"{len(st)} statistics rows, {len(mine)} recorded", key="stats")
        for _, row in st.iterrows():
            k = (row["day_obs"], row["value_name"], bool(row["accumulated"]))
            c.expect(k in mine, f"statistics {k} were not recorded", key="stats")
            c.close([float(row[x]) for x in COLS], mine[k], "statistics", rtol=1e-12, key="stats")

    def check_counts(self):
        c = self.c
        d = dump(self.conn, self.schema)
        for t in ("visitseq", "simulations", "completed", "mixedvisitseq"):
            n = sum(r["table"] == t for r in self.seqs.values())
            c.expect(len(d[t]) == n, f"{len(d[t])} rows in {t}, {n} recorded", key="rows-" + t)
        for t, n in (("tags", sum(map(len, self.tags.values()))), ("comments", sum(map(len, self.comments.values()))), ("files", len(self.files)), ("nightly_stats", len(self.stats)), ("conda_env", len(self.envs))):
            c.expect(len(d[t]) == n, f"{len(d[t])} rows in {t}, {n} recorded", key="rows-" + t)

    # ---- searches
    def search(self):
        c, s = self.c, self.s()
        d1 = datetime.date(2026, 2, 25) + datetime.timedelta(days=c.randint(-1, 10))
        d2 = d1 + datetime.timedelta(days=int(c.choice([0, 0, 1, 3])))
        tags = tuple(str(t) for t in c.rng.choice(TAGS, size=c.randint(0, 2), replace=False))
        tel = str(c.choice(["simonyi", "auxtel"]))
        age = int(c.choice([2, 4, 7]))
        now = datetime.datetime.now(datetime.timezone.utc)

        def match(u, r, a, b):
            if r["table"] != "simulations" or r["first_day_obs"] is None or r["last_day_obs"] is None:
                return False
            ct = r.get("creation_time", now)
            return r["first_day_obs"] <= a and b <= r["last_day_obs"] and r["telescope"] == tel and set(tags) <= self.tags.get(u, set()) and ct >= now - datetime.timedelta(days=age)

        fuzzy = {u for u, r in self.seqs.items() if "creation_time" in r and abs((now - r["creation_time"]).total_seconds() - age * 86400) < 120}
        kw = dict(tags=tags, telescope=tel, max_simulation_age=age)
        if c.flip():
            got = s.sims_on_nights(day_form(c, d1), day_form(c, d2) if (d2 != d1 or c.flip()) else None, **kw)
            want = {u for u, r in self.seqs.items() if match(u, r, d1, d2)}
            kind = "nights"
        else:
            got = s.sims_on_night_with_stats(day_form(c, d1), **kw)
            want = {u for u, r in self.seqs.items() if match(u, r, d1, d1)}
            kind = "stats"
        ids = list(got["visitseq_uuid"])
        c.expect(len(ids) == len(set(ids)), "a simulation is listed twice", key="search-twice")
        c.same(sorted(map(str, set(ids) - fuzzy)), sorted(map(str, want - fuzzy)), f"simulations of {d1}..{d2} {tags} {tel} {age}", key="search-" + kind)
        for _, row in got.iterrows():
            self.row_extra(row)
            if kind == "stats":
                u = row["visitseq_uuid"]
                mine = {k[2]: v for k, v in self.stats.items() if k[0] == u and k[1] == d1}
                st = row["stats"]
                if not mine:
                    c.expect(st is None or (isinstance(st, float) and np.isnan(st)), f"statistics {st!r} for a night without", key="search-stats")
                else:
                    c.same(sorted(st), sorted(mine), "statistics of the night", key="search-stats")
                    for k in mine:
                        c.close([float(st[k][x]) for x in COLS], mine[k], "statistics of the night", rtol=1e-9, key="search-stats")
        c.obs("search", (kind, len(tags), len(ids) > 0))

    def row_extra(self, row):
        c = self.c
        u = row["visitseq_uuid"]
        r = self.seqs[u]
        c.same(row["visitseq_label"], r["visitseq_label"], "label in a listing", key="extra-label")
        c.same(sorted(row["tags"]), sorted(self.tags.get(u, set())), "tags in a listing", key="extra-tags")
        c.same({k: v for k, v in row["files"].items()}, {k[1]: v[1] for k, v in self.files.items() if k[0] == u}, "files in a listing", key="extra-files")
        c.same(sorted(row["comments"].values()), sorted(x for x, _ in self.comments.get(u, [])), "comments in a listing", key="extra-comments")
        for k in ("scheduler_version", "config_url", "parent_last_day_obs", "first_day_obs"):
            c.same(row[k] if not (isinstance(row[k], float) and np.isnan(row[k])) and row[k] is not pd.NaT else None, r[k], k + " in a listing", key="extra-value")

    def daily(self):
        c, s = self.c, self.s()
        sims = [(u, r) for u, r in self.seqs.items() if r["table"] == "simulations"]
        days = {}
        for u, r in sims:
            ct = r.get("creation_time")
            if ct is None:
                m = s.get_visitseq_metadata(u, table="simulations")
                ct = pd.Timestamp(m["creation_time"]).to_pydatetime()
            days.setdefault((ct.astimezone(datetime.timezone.utc) - datetime.timedelta(hours=12)).date(), []).append((ct, u))
        for d, lst in days.items():
            lst.sort(key=lambda x: x[0])
            if len({x[0] for x in lst}) < len(lst):
                continue
            for i, (_, u) in enumerate(lst):
                got = s.get_sim_uuid(day_form(c, d), i + 1 if c.flip() else str(i + 1))
                c.same(str(got), str(u), f"simulation {i + 1} of {d}", key="daily")
                c.obs("daily", i + 1)
            c.raises(ValueError, lambda: s.get_sim_uuid(d, len(lst) + 1), "a simulation past the last", key="daily-missing")

    def yaml(self):
        import yaml

        u = self.any("simulations")
        if u is None:
            return
        c = self.c
        m = yaml.safe_load(self.s().sim_metadata_yaml(u))
        r = self.seqs[u]
        c.same((m["uuid"], m["label"], m["telescope"]), (str(u), r["visitseq_label"], r["telescope"]), "exported metadata", key="yaml")
        c.same(sorted(m.get("tags") or []), sorted(self.tags.get(u, set())), "exported tags", key="yaml")
        c.same(m.get("scheduler_version"), r["scheduler_version"], "exported version", key="yaml")
        dates = m.get("simulated_dates", m.get("simulation_dates")) or {}
        c.same([str(dates.get(k)) for k in ("first", "last")], [str(r["first_day_obs"]), str(r["last_day_obs"])], "exported dates", key="yaml")
        c.same({k: v["url"] for k, v in (m.get("files") or {}).items()}, {k[1]: v[1] for k, v in self.files.items() if k[0] == u}, "exported files", key="yaml")
        c.obs("op", "yaml")

    # ---- operations
    def tag(self):
        u = self.any()
        ts = [str(t) for t in self.c.rng.choice(TAGS, size=self.c.randint(1, 5))]
        self.s().tag(u, *ts)
        self.tags.setdefault(u, set()).update(ts)
        self.c.obs("op", "tag")

    def untag(self):
        c = self.c
        u = self.any()
        t = str(c.choice(sorted(self.tags[u]) if self.tags.get(u) and c.flip(0.5) else TAGS))
        if t in self.tags.get(u, set()):
            self.s().untag(u, t)
            self.tags[u].discard(t)
            c.obs("op", "untag")
        else:
            self.fails(lambda s: s.untag(u, t), "untag of an absent tag", ValueError)

    def comment(self):
        c = self.c
        u = self.any()
        t = self.text()
        a = c.choice([None, "me", "O'Neil %s"])
        a = None if a is None else str(a)
        if a is None:
            self.s().comment(u, t)
        else:
            self.s().comment(u, t, a)
        self.comments.setdefault(u, []).append((t, a))
        c.obs("op", "comment")

    def file(self):
        from lsst.resources import ResourcePath

        c = self.c
        u = self.any()
        ft = str(c.choice(FTYPES))
        h = bytes(c.rng.integers(0, 256, 32).astype(np.uint8))
        url = f"file:///tmp/f{c.randint(0, 9999)}.dat"
        loc = ResourcePath(url) if c.flip() else url
        if (u, ft) in self.files and c.flip(0.4):
            self.fails(lambda s: s.register_file(u, ft, h, loc), "second registration without update", ValueError)
            return
        self.s().register_file(u, ft, h, loc, update=(u, ft) in self.files or c.flip())
        self.files[(u, ft)] = (h, url)
        c.obs("op", "file")

    def stat(self):
        c = self.c
        u = self.any()
        d0 = datetime.date(2026, 2, 25)
        rows = []
        for i in range(c.randint(1, 3)):
            for vn in c.rng.choice(["eff", "fwhm", "it's", "100%"], size=c.randint(1, 2), replace=False):
                k = (u, d0 + datetime.timedelta(days=i + c.randint(0, 6)), str(vn))
                if k + (False,) not in self.stats and k not in [x[0] for x in rows]:
                    rows.append((k, [float(c.randint(1, 99))] + list(map(float, c.uniform(0, 1, len(COLS) - 1)))))
        if not rows:
            return
        df = pd.DataFrame([[k[1], k[2], False, int(v[0])] + v[1:] for k, v in rows], columns=["day_obs", "value_name", "accumulated"] + COLS)
        keep = df.copy()
        self.s().insert_nightly_stats(u, df)
        pd.testing.assert_frame_equal(df, keep)
        for k, v in rows:
            self.stats[k + (False,)] = v
        c.obs("op", "stats")
        if c.flip(0.3):
            self.fails(lambda s: s.insert_nightly_stats(u, df), "statistics recorded twice", Exception)

    def update(self):
        c = self.c
        u = self.any()
        r = self.seqs[u]
        f = ["visitseq_label", "telescope", "first_day_obs", "last_day_obs", "url", "visitseq_sha256"]
        if r["table"] == "simulations":
            f += ["scheduler_version", "config_url"]
        f = str(c.choice(f))
        if f == "url":
            v = "s3://bucket/" + self.text()
            self.s().set_visitseq_url(u, v)
            r["visitseq_url"] = v
        else:
            v = datetime.date(2026, 2, 20) + datetime.timedelta(days=c.randint(0, 14)) if "day" in f else bytes(c.rng.integers(0, 256, 32).astype(np.uint8)) if "sha" in f else (str(c.choice(["simonyi", "auxtel"])) if f == "telescope" else self.text())
            self.s().update_visitseq_metadata(u, f, v)
            r[f] = v
        c.obs("op", ("update", f))
        self.check_seq(u)

    def env(self):
        import hashlib

        c = self.c
        n = c.randint(1, 4)
        pk = [{"name": f"p{i}", "version": f"{c.randint(0, 9)}.{i}", "channel": "c", "build_number": i} for i in range(n)]
        js = json.dumps(pk)
        h = hashlib.sha256(js.encode()).digest()
        s = self.s()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c.expect(bool(s.conda_env_is_saved(h)) == (h in self.envs), "conda_env_is_saved", key="env")
            c.same(bytes(s.record_conda_env(h, js)), h, "hash of the environment", key="env")
        c.expect(bool(self.s().conda_env_is_saved(h)), "the environment was not stored", key="env")
        self.envs[h] = pk
        c.obs("op", "env")
        u = self.any("simulations")
        if u is not None:
            e = self.seqs[u]["conda_env_sha256"]
            got = self.s().get_software_versions_for_sim(u)
            want = {} if e is None else {p["name"]: p["version"] for p in self.envs[e]}
            c.same(dict(zip(got.index, got["package_version"])), want, "software versions", key="env-versions")
            sub = self.s().get_software_versions_for_sim(u, ["p1", "nope", "p0"])
            c.same(list(sub.index), [p for p in ("p1", "p0") if p in want], "selected packages", key="env-versions")

    # ---- failures
    def fails(self, fn, what, exc=Exception):
        c = self.c
        before = dump(self.conn, self.schema)
        c.raises(exc, lambda: fn(self.s()), what, key="fail:" + what.replace(" ", "-"))
        after = dump(self.conn, self.schema)
        for t in before:
            c.expect(before[t] == after[t], f"{what}: the failed call changed {t} ({len(before[t])} to {len(after[t])} rows)", key="changed:" + what.replace(" ", "-"))
        c.obs("failed", what)

    def invalid(self):
        c = self.c
        v = rand_visits(c)
        u = self.any()
        d = datetime.date(2026, 3, 1)
        df = pd.DataFrame([[d, "new" + str(c.randint(0, 999)), False] + [1] + [0.5] * (len(COLS) - 1)] * 2, columns=["day_obs", "value_name", "accumulated"] + COLS)
        opts = [
            (lambda s: s.record_simulation_metadata(v, None), "simulation without label", Exception),
            (lambda s: s.record_simulation_metadata(v, "x", first_day_obs="not a date"), "simulation with a bad day", Exception),
            (lambda s: s.record_simulation_metadata(v, "x", parent_visitseq_uuid="not-a-uuid"), "simulation with a bad parent", Exception),
            (lambda s: s.record_simulation_metadata(v, "x", parent_last_day_obs="2026-02-31"), "simulation with a bad parent day", Exception),
            (lambda s: s.record_simulation_metadata(v, "x", scheduler_version="nul\0char"), "simulation with an unstorable version", Exception),
            (lambda s: s.record_completed_metadata(v, "x", query="nul\0char"), "completed with an unstorable query", Exception),
            (lambda s: s.record_completed_metadata(v, "x", last_day_obs=20261340), "completed with a bad day", Exception),
            (lambda s: s.record_mixed_metadata(v, "x", 20260230, 20260301, uuid.uuid4(), uuid.uuid4()), "mixed with a bad early day", Exception),
            (lambda s: s.record_mixed_metadata(v, "x", 20260228, "2026-13-01", uuid.uuid4(), uuid.uuid4()), "mixed with a bad late day", Exception),
            (lambda s: s.record_mixed_metadata(v, "x", 20260228, 20260301, "zzz", uuid.uuid4()), "mixed with a bad parent", Exception),
            (lambda s: s.record_visitseq_metadata(v, "x", table="nowhere"), "recording in an absent table", Exception),
            (lambda s: s.update_visitseq_metadata(uuid.uuid4(), "visitseq_label", "x"), "update of an unknown sequence", ValueError),
            (lambda s: s.set_visitseq_url(uuid.uuid4(), "x"), "url of an unknown sequence", ValueError),
            (lambda s: s.get_visitseq_url(uuid.uuid4()), "url query of an unknown sequence", ValueError),
            (lambda s: s.get_visitseq_metadata(uuid.uuid4()), "metadata of an unknown sequence", Exception),
            (lambda s: s.get_visitseq_metadata(uuid.uuid4(), table="tags"), "metadata from another kind of table", ValueError),
            (lambda s: s.untag(uuid.uuid4(), "prenight"), "untag of an unknown sequence", ValueError),
            (lambda s: s.get_sim_uuid("1999-01-01", 1), "simulation of an empty day", ValueError),
            (lambda s: s.record_conda_env(None, "[]"), "environment without hash", ValueError),
            (lambda s: s.record_conda_env(b"x" * 32, None), "environment without content", ValueError),
            (lambda s: s.record_conda_env(b"y" * 32, "{not json"), "environment that is not json", Exception),
            (lambda s: s.query("SELECT * FROM nowhere"), "a query of an absent table", Exception),
        ]
        if u is not None:
            opts += [
                (lambda s: s.update_visitseq_metadata(u, "no_such_field", 1), "update of an absent field", Exception),
                (lambda s: s.update_visitseq_metadata(u, "first_day_obs", "nonsense"), "update with a bad day", Exception),
                (lambda s: s.update_visitseq_metadata(u, "visitseq_label", None), "update to no label", Exception),
                (lambda s: s.register_file(u, "visits", b"1" * 32, "file:///x"), "visits registered as a file", ValueError),
                (lambda s: s.register_file(u, "new" + str(c.randint(0, 999)), None, "file:///x"), "file without hash", Exception),
                (lambda s: s.register_file(u, "rewards", b"1" * 32, 17), "file at no location", Exception),
                (lambda s: s.comment(u, None), "comment without text", Exception),
                (lambda s: s.tag(u, "nul\0char"), "an unstorable tag", Exception),
                (lambda s: s.tag(u, "fresh" + str(c.randint(0, 999)), "nul\0char"), "a good and an unstorable tag", Exception),
                (lambda s: s.insert_nightly_stats(u, df), "repeated statistics in one table", Exception),
                (lambda s: s.get_file_url(u, "absent"), "url of an absent file", ValueError),
            ]
        f, what, exc = opts[c.randint(0, len(opts) - 1)]
        self.fails(f, what, exc)

    def query_rollback(self):
        """A query without commit alters nothing."""
        c = self.c
        before = dump(self.conn, self.schema)
        n = self.s().query("SELECT COUNT(*) FROM visitseq")[0][0]
        c.expect(n == len(self.seqs), f"{n} sequences counted, {len(self.seqs)} recorded", key="query-count")
        self.s().query("DELETE FROM simulations", return_result=False)
        c.expect(dump(self.conn, self.schema) == before, "an uncommitted query changed the store", key="query-commit")
        c.obs("op", "query")

    def outage(self):
        """All connections are lost; calls may fail once and then work."""
        c = self.c
        cur = self.conn.cursor()
        cur.execute("SELECT pg_terminate_backend(pid) FROM pg_stat_activity WHERE pid <> pg_backend_pid() AND datname=current_database()")
        before = dump(self.conn, self.schema)
        u = self.any()
        for s in self.stores:
            # each client may notice on its first call of each kind
            for f in (lambda: s.is_tagged(u, "x"), lambda: s.query_nightly_stats(u), lambda: s.is_tagged(u, "x"), lambda: s.query_nightly_stats(u)):
                for _ in range(6):
                    try:
                        f()
                        break
                    except Exception as e:
                        last = e
                        c.obs("outage", type(e).__name__)
                else:
                    c.expect(False, f"calls keep failing after a lost connection: {type(last).__name__} {last}", key="outage")
        c.expect(dump(self.conn, self.schema) == before, "a lost connection changed the store", key="outage-changed")
        c.obs("op", "outage")


def new_schema(c):
    return f"test_{c.index}_{c.randint(0, 10**8)}"


@check.scenario(40, 260)
def history(c):
    schema = new_schema(c)
    conn = pg.connect()
    stores = []
    try:
        stores = [open_store(schema) for _ in range(c.randint(1, 2))]
        stores[0].create_schema_in_database()
        c.raises(ValueError, stores[0].create_schema_in_database, "the schema made twice", key="schema-twice")
        m = Model(c, schema, stores, conn)
        if c.flip(0.6):
            stores.append(Cli(stores[0], schema, c))
        m.record("simulations")
        ops = [m.record] * 4 + [m.tag] * 3 + [m.untag, m.comment, m.comment, m.file, m.file, m.stat, m.stat, m.update, m.update, m.env, m.search, m.search, m.search, m.daily, m.yaml, m.query_rollback] + [m.invalid] * 4
        style = c.randint(0, 3)
        if style == 1:
            ops += [m.outage]
        for _ in range(c.randint(15, 45)):
            ops[c.randint(0, len(ops) - 1)]()
        for u in m.seqs:
            m.check_seq(u)
            m.check_side(u)
        m.check_counts()
        m.search()
        m.daily()
    finally:
        for s in stores:
            close_store(s)
        conn.cursor().execute(f'DROP SCHEMA IF EXISTS "{schema}" CASCADE')
        conn.close()


@check.scenario(8, 40)
def long_run(c):
    """One kind of call many times with one client."""
    schema = new_schema(c)
    conn = pg.connect()
    s = open_store(schema)
    try:
        s.create_schema_in_database()
        m = Model(c, schema, [s], conn)
        for _ in range(3):
            m.record("simulations")
        op = [m.stat, m.search, m.invalid, m.outage, m.tag, m.file, m.update, m.daily][c.index % 8]
        for i in range(14):
            op()
        if op == m.stat:
            d = datetime.date(2026, 1, 1)
            u = m.any()
            for i in range(14):
                df = pd.DataFrame([[d + datetime.timedelta(days=i), "lots", False, 3] + [0.5] * (len(COLS) - 1)], columns=["day_obs", "value_name", "accumulated"] + COLS)
                s.insert_nightly_stats(u, df)
                m.stats[(u, d + datetime.timedelta(days=i), "lots", False)] = [3.0] + [0.5] * (len(COLS) - 1)
        for u in m.seqs:
            m.check_side(u)
        m.check_counts()
        c.obs("repeat", op.__name__)
    finally:
        close_store(s)
        conn.cursor().execute(f'DROP SCHEMA IF EXISTS "{schema}" CASCADE')
        conn.close()


@check.scenario(6, 30)
def clients(c):
    """Several clients at once, each with its own work."""
    import threading

    schema = new_schema(c)
    conn = pg.connect()
    n = c.randint(2, 4)
    stores = [open_store(schema) for _ in range(n)]
    try:
        stores[0].create_schema_in_database()
        shared = stores[0].record_simulation_metadata(rand_visits(c), "shared")
        out, errs = [dict() for _ in range(n)], []
        plan = [[(str(c.choice(["rec", "tag", "com", "file"])), self_i) for self_i in range(12)] for _ in range(n)]
        vis = rand_visits(c)

        def work(k):
            s = stores[k]
            o = out[k]
            o["sims"], o["tags"], o["com"], o["files"] = [], set(), [], {}
            try:
                for what, i in plan[k]:
                    if what == "rec":
                        o["sims"].append((s.record_simulation_metadata(vis, f"{k}-{i}", scheduler_version=f"v{k}.{i}"), k, i))
                    elif what == "tag":
                        s.tag(shared, f"t{k}-{i}", f"u{k}")
                        o["tags"] |= {f"t{k}-{i}", f"u{k}"}
                    elif what == "com":
                        s.comment(shared, f"c{k}-{i}")
                        o["com"].append(f"c{k}-{i}")
                    else:
                        s.register_file(shared, f"f{k}-{i % 3}", bytes([k, i] * 16), f"file:///{k}/{i}", update=True)
                        o["files"][f"f{k}-{i % 3}"] = f"file:///{k}/{i}"
            except Exception as e:
                errs.append((k, what, i, repr(e)))

        th = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        [t.start() for t in th]
        [t.join(60) for t in th]
        c.expect(not errs, f"concurrent clients: {errs[:2]}", key="clients-error")
        s = stores[-1]
        for o in out:
            for u, k, i in o["sims"]:
                m = s.get_visitseq_metadata(u, table="simulations")
                c.same((m["visitseq_label"], m["scheduler_version"]), (f"{k}-{i}", f"v{k}.{i}"), "a concurrent recording", key="clients-record")
            for ft, url in o["files"].items():
                c.same(s.get_file_url(shared, ft), url, "a concurrently registered file", key="clients-file")
        row = s.get_visitseq_metadata(shared, table="simulations_extra")
        c.same(sorted(row["tags"]), sorted(set().union(*[o["tags"] for o in out])), "tags of several clients", key="clients-tags")
        c.same(sorted(s.get_comments(shared)["comment"]), sorted(sum([o["com"] for o in out], [])), "comments of several clients", key="clients-comments")
        cur = conn.cursor()
        cur.execute(f'SELECT COUNT(*) FROM "{schema}".simulations')
        c.expect(cur.fetchone()[0] == 1 + sum(len(o["sims"]) for o in out), "recordings of several clients", key="clients-count")
        c.obs("clients", n, n * 12)
    finally:
        for s in stores:
            close_store(s)
        conn.cursor().execute(f'DROP SCHEMA IF EXISTS "{schema}" CASCADE')
        conn.close()
