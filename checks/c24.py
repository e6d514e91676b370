"""C24: pre-night indexes and observing-day arithmetic."""
import calendar
import datetime
import os
import uuid

import numpy as np
import pandas as pd

from checks import c22
from checks.c23 import iso_day, quiet, visits_frame
from vlib import pg
from vlib.h import Check
from vlib.vscli import Cli

check = Check(
    "C24",
    "index of simulations of a night from the database and from the written index file against a model of the recorded simulations, searches by date and number, selection of the latest, night statistics; "
    "observing days in every form for every kind of date and for times around the noon boundary",
    assumptions=["simulations are younger than a year", "database sessions run in UTC"],
    nproc=4,
    budget=(200, 720),
)
check.worker_setup = pg.start
check.worker_teardown = pg.stop


def rand_date(c):
    y = c.choice([c.randint(1950, 2100), c.randint(2024, 2037), 1999, 2000, 2100])
    m = c.choice([c.randint(1, 12), 1, 2, 12])
    y, m = int(y), int(m)
    d = c.choice([c.randint(1, 28), 1, calendar.monthrange(y, m)[1], 9, 10])
    return datetime.date(y, m, int(d))


def forms(c, d):
    return {
        "int": d.year * 10000 + d.month * 100 + d.day,
        "npint": np.int64(d.year * 10000 + d.month * 100 + d.day),
        "iso": d.isoformat(),
        "basic": d.strftime("%Y%m%d"),
        "date": d,
        "datetime": datetime.datetime(d.year, d.month, d.day, c.randint(0, 23), c.randint(0, 59)),
    }


@check.scenario(600, 6000)
def days(c):
    from astropy.time import Time
    from rubin_sim.sim_archive import future_vsarch
    from rubin_sim.sim_archive.util import dayobs_to_date

    d = rand_date(c)
    fns = [dayobs_to_date]
    if hasattr(future_vsarch, "_dayobs_to_date"):
        fns.append(future_vsarch._dayobs_to_date)
    # a fraction of a day with a leap second is not a time of day
    leap = any(abs((Time(str(d + datetime.timedelta(days=j + 1))) - Time(str(d + datetime.timedelta(days=j)))).sec - 86400) > 0.1 for j in (-1, 0, 1))
    for fn in fns:
        for k, v in forms(c, d).items():
            if k == "npint" and fn is not dayobs_to_date:
                continue
            g = fn(v)
            c.expect(type(g) is datetime.date and g == d, f"{k} {v!r} is {g!r}, not {d}", key="form:" + k)
        # times: the day starts at noon UTC
        if leap or d.year < 1972:
            c.obs("leap", d.year)
            continue
        noon = (d - datetime.date(1858, 11, 17)).days + 0.5
        for off in (0.0, 1e-6, 0.5, 0.9999, c.uniform(0, 0.99999), -1e-6, 1.0, 1 - 1e-6):
            w = (d + datetime.timedelta(days=int(np.floor(off))))
            for scale in ("utc", "tai"):
                t = Time(noon, off, format="mjd", scale="utc")
                if scale == "tai":
                    if off in (0.0, 1.0):
                        continue
                    t = t.tai
                g = fn(t)
                c.expect(type(g) is datetime.date and g == w, f"{scale} time noon of {d} + {off} d is day {g}, not {w}", key="time:" + scale)
            g = fn(Time([noon], [off], format="mjd", scale="utc"))
            c.expect(g == w, f"one-element time: {g}, not {w}", key="time-array")
        c.obs("day", (d.month, d.day in (1, 28, 29, 30, 31)))
    for bad in (20261301, 20260230, "2026-02-30", "nonsense"):
        c.raises(ValueError, lambda: dayobs_to_date(bad), "a date that does not exist", key="bad")


@check.scenario(16, 160)
def index(c):
    from astropy.time import Time
    from click.testing import CliRunner
    from rubin_sim.sim_archive import prenightindex, sim_archive, vseqarchive
    from rubin_sim.sim_archive.sim_archive import NoMatchingSimulationsFoundError

    quiet()
    schema = c22.new_schema(c)
    s = c22.open_store(schema)
    s.create_schema_in_database()
    kw = pg.kw()
    good = dict(schema=schema, host=kw["host"], user=kw["user"], database=kw["database"])
    bad = dict(schema=schema, host="/nonexistent/dir", user="nobody", database="none")
    now = datetime.datetime.now(datetime.UTC)
    d0 = rand_date(c) if c.flip() else datetime.date(2026, 12, 30)
    sims = {}
    base = os.path.join(c.scratch, "arch")
    try:
        if c.flip(0.3):
            s.record_conda_env(b"\x01" * 32, '[{"name": "x", "version": "1"}]')
            env = b"\x01" * 32
        else:
            env = None
        for k in range(c.randint(0, 7)):
            first = d0 + datetime.timedelta(days=c.randint(-3, 2))
            last = first + datetime.timedelta(days=c.randint(0, 3))
            age = c.randint(0, 4) + c.uniform(0.2, 0.8) if c.flip(0.8) else c.uniform(10, 300)
            created = now - datetime.timedelta(days=age)
            tel = str(c.choice(["simonyi", "simonyi", "auxtel"]))
            label = str(c.choice(["a sim", "0012", "2026-01-01", "ünï 'q'", "true"]))
            mjd0 = (first - datetime.date(1858, 11, 17)).days + 0.5
            df = visits_frame(c, c.randint(1, 20), mjd0)
            df = df[df["observationStartMJD"] < mjd0 + (last - first).days + 1].reset_index(drop=True)
            kws = dict(telescope=tel, first_day_obs=first, last_day_obs=last, creation_time=Time(created.replace(tzinfo=None), scale="utc"))
            if c.flip():
                kws["scheduler_version"] = str(c.choice(["3.10", "4.0"]))
            if env is not None and c.flip():
                kws["conda_env_sha256"] = env
            if sims and c.flip(0.3):
                kws["parent_visitseq_uuid"] = list(sims)[c.randint(0, len(sims) - 1)]
                if c.flip():
                    kws["parent_last_day_obs"] = first
            u = s.record_simulation_metadata(df, label, **kws)
            tags = {t for t in ("prenight", "ideal", "nominal", "dev") if c.flip(0.8 if t == "prenight" else 0.6)}
            if tags:
                s.tag(u, *tags)
            r = dict(kws, label=label, tags=tags, df=df, first=first, last=last, created=created, tel=tel, url=None, stats=False, files={})
            if c.flip(0.7) and len(df):
                p = os.path.join(c.scratch, "v%d.h5" % k)
                df.to_hdf(p, key="observations")
                r["url"] = vseqarchive.add_file(s, u, p, "visits", base).geturl()
                if c.flip(0.6):
                    s.insert_nightly_stats(u, vseqarchive.compute_nightly_stats(df))
                    r["stats"] = True
            if c.flip(0.3):
                s.register_file(u, "rewards", b"\x02" * 32, "file:///x/rewards.h5")
                r["files"]["rewards"] = "file:///x/rewards.h5"
            if tags and c.flip(0.2):
                t = str(c.choice(sorted(tags)))
                s.untag(u, t)
                tags.discard(t)
            if c.flip(0.3):
                s.comment(u, "a comment")
            sims[u] = r
        # numbering of the simulations of one creation day
        daily = {}
        for u, r in sims.items():
            day = (r["created"] - datetime.timedelta(hours=12)).date()
            g = s.get_visitseq_metadata(u, "simulations_extra")
            c.same(g["sim_creation_day_obs"], day, "creation day", key="creation-day")
            daily[u] = (day, int(g["daily_id"]))
        c.same(len(set(daily.values())), len(daily), "creation day and number are unique", key="daily")
        idx = os.path.join(c.scratch, "index")
        nights = [d0 + datetime.timedelta(days=k) for k in range(-1, 3)]
        written = set()
        for tel in ("simonyi", "auxtel"):
            for night in nights:
                want = {u for u, r in sims.items() if r["tel"] == tel and r["first"] <= night <= r["last"] and "prenight" in r["tags"]}
                f = forms(c, night)
                for how in (str(c.choice(["int", "npint", "iso", "basic", "date"])),):
                    got = prenightindex.get_prenight_index(f[how], tel, **good)
                    check_index(c, got, want, sims, daily, "database")
                if c.flip(0.85):
                    url = Cli(s, schema, c).run("make-prenight-index", "--destination", idx + str(c.choice(["", "/"])), "--", str(f[str(c.choice(["iso", "basic"]))]), tel)
                    c.expect(url.startswith("file://") and os.path.isfile(url[7:]), f"the index is not at the printed {url}", key="make-index")
                    written.add((tel, night))
                    got = prenightindex.get_prenight_index_from_bucket(f["iso"], tel, idx)
                    check_index(c, got, want, sims, daily, "file")
                    got = prenightindex.get_prenight_index(f["int"], tel, prenight_index_path=idx, **bad)
                    check_index(c, got, want, sims, daily, "fallback")
                else:
                    got = prenightindex.get_prenight_index(f["int"], tel, prenight_index_path=idx, **bad)
                    c.same(len(got), 0, "index of a night without a file", key="no-file")
                c.obs("index", (min(len(want), 3), tel))
        # one simulation by creation day and number, and by identifier
        for u, r in sims.items():
            day, num = daily[u]
            c.same(prenightindex.get_sim_uuid(day, num, vsmd=s), u, "by day and number", key="uuid-db")
            g = prenightindex.get_sim_metadata(u if c.flip() else str(u), vsmd=s)
            c.same(g["visitseq_label"], r["label"], "metadata", key="meta-db")
            for night in nights:
                f = forms(c, night)
                inside = r["first"] <= night <= r["last"] and "prenight" in r["tags"]
                routes = [("database", dict(good))]
                if {(t, night) for t in ("simonyi", "auxtel")} <= written:
                    routes.append(("file", dict(bad, prenight_index_path=idx)))
                for name, kws in routes:
                    how = str(c.choice(["int", "iso", "basic", "date"]))
                    call = lambda: prenightindex.get_sim_uuid(day, str(num) if c.flip() else num, f[how], **kws)
                    call2 = lambda: prenightindex.get_sim_metadata(str(u) if c.flip() else u, f[how], **kws)
                    if inside:
                        c.same(call(), u, f"by day and number from the {name} ({how})", key="uuid-" + name)
                        g = call2()
                        c.same(str(g["visitseq_uuid"]), str(u), "identifier", key="meta-" + name)
                        c.same(g["visitseq_label"], r["label"], f"label from the {name}", key="meta-" + name)
                    else:
                        c.raises(ValueError, call, f"a simulation not of this night, {name}", key="uuid-none-" + name)
                        c.raises(ValueError, call2, f"a simulation not of this night, {name}", key="meta-none-" + name)
                    c.obs("one", (name, inside))
        c.raises(ValueError, lambda: prenightindex.get_sim_uuid(now.date(), 999, nights[0], **good), "unknown number", key="uuid-unknown")
        c.raises(ValueError, lambda: prenightindex.get_sim_metadata(uuid.uuid4(), nights[0], **good), "unknown simulation", key="meta-unknown")
        # the latest one for a range of nights
        for _ in range(6):
            a = nights[c.randint(0, len(nights) - 1)]
            b = min(a + datetime.timedelta(days=c.randint(0, 2)), nights[-1])
            tel = str(c.choice(["simonyi", "simonyi", "auxtel"]))
            tags = tuple(t for t in ("ideal", "nominal", "dev") if c.flip(0.4))
            age = c.randint(0, 6)
            ok = [u for u, r in sims.items() if r["tel"] == tel and r["first"] <= a and b <= r["last"] and ("prenight" in r["tags"]) and set(tags) <= r["tags"]
                  and int((now - r["created"]).total_seconds() // 86400) <= age]
            route = "database"
            kws = dict(good)
            if {(tel, a), (tel, b)} <= written and c.flip():
                route = "file"
                kws = dict(bad, prenight_index_path=idx)
            call = lambda: sim_archive.find_latest_prenight_sim_for_nights(a.isoformat(), b.isoformat() if a != b or c.flip() else None, tags, tel, age, kws)
            if not ok:
                c.raises(NoMatchingSimulationsFoundError, call, "no simulation matches", key="latest-none")
            else:
                best = max(ok, key=lambda u: sims[u]["created"])
                g = call()
                c.same(str(g["visitseq_uuid"]), str(best), f"latest simulation from the {route}", key="latest-" + route)
                url = g["visitseq_url"]
                c.same(None if url != url else url, sims[best]["url"], "its visits", key="latest-url-" + route)
                if a == b and sims[best]["url"] is not None:
                    n = int(sum(iso_day(m) == a.isoformat() for m in sims[best]["df"]["observationStartMJD"]))
                    if n:
                        st = sim_archive.fetch_sim_stats_for_night(a.isoformat() if c.flip() else forms(c, a)["int"], tags, tel, age, prenight_index_path=idx, **(good if route == "database" else bad))
                        c.same(st["nominal_visits"], n, f"visits on the night from the {route}", key="stats-" + route)
                        x = sims[best]["df"]["altitude"][[iso_day(m) == a.isoformat() for m in sims[best]["df"]["observationStartMJD"]]]
                        c.close(st["altitude"]["mean"], x.mean(), "mean altitude", rtol=1e-6, key="stats-mean-" + route)
                        c.obs("stats", (route, sims[best]["stats"]))
                    v = sim_archive.fetch_sim_for_nights(a.isoformat(), None, dict(tags=tags, telescope=tel, max_simulation_age=age, get_prenight_index_kwargs=kws))
                    c.same(len(v), n, "visits fetched", key="fetch")
                if sims[best]["url"] is None:
                    c.raises(ValueError, lambda: sim_archive.fetch_sim_for_nights(a.isoformat(), b.isoformat(), dict(tags=tags, telescope=tel, max_simulation_age=age, get_prenight_index_kwargs=kws)), "visits of a simulation without any", key="fetch-none")
            c.obs("latest", (route, min(len(ok), 3), a == b))
    finally:
        c22.close_store(s)


def check_index(c, got, want, sims, daily, how):
    c.same(sorted(str(u) for u in got.index), sorted(str(u) for u in want), "simulations of the night from the " + how, key="index-" + how)
    if len(got):
        c.same(got.index.name, "visitseq_uuid", "index name", key="index-name")
    for key in got.index:
        u = uuid.UUID(str(key))
        r, g = sims[u], got.loc[key]
        c.same([g["visitseq_label"], g["telescope"]], [r["label"], r["tel"]], "label and telescope from the " + how, key="meta-" + how)
        c.same([str(g["first_day_obs"]), str(g["last_day_obs"])], [str(r["first"]), str(r["last"])], "nights from the " + how, key="nights-" + how)
        c.same(sorted(g["tags"]), sorted(r["tags"]), "tags from the " + how, key="tags-" + how)
        c.same([str(g["sim_creation_day_obs"]), int(g["daily_id"])], [str(daily[u][0]), daily[u][1]], "creation day and number from the " + how, key="daily-" + how)
        url = g["visitseq_url"]
        c.same(None if url is None or url != url else url, r["url"], "visits from the " + how, key="url-" + how)
        dt = pd.Timestamp(g["creation_time"])
        c.expect(dt.tzinfo is not None and abs((dt - pd.Timestamp(r["created"])).total_seconds()) < 0.01, f"creation time {dt} from the {how}, recorded {r['created']}", key="created-" + how)
        sv = g["scheduler_version"]
        c.same(None if sv is None or sv != sv else sv, r.get("scheduler_version"), "version from the " + how, key="version-" + how)
        par = g["parent_visitseq_uuid"]
        par = None if par is None or par != par else str(par)
        c.same(par, None if r.get("parent_visitseq_uuid") is None else str(r["parent_visitseq_uuid"]), "parent from the " + how, key="parent-" + how)
        fl = g["files"] if isinstance(g["files"], dict) else {}
        c.same({k: v for k, v in fl.items() if k != "visits"}, r["files"], "files from the " + how, key="files-" + how)
