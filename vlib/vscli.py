"""A metadata store reached through the vseqarchive command line."""
import csv
import datetime
import io
import os
import tempfile
import uuid

import pandas as pd

from vlib import pg


class Cli:
    """Same calls as the store; those with a command go through it."""

    def __init__(self, real, schema, c=None):
        self.real, self.schema, self.c = real, schema, c

    def __getattr__(self, name):
        return getattr(self.real, name)

    def run(self, *args):
        from click.testing import CliRunner

        from rubin_sim.sim_archive import vseqarchive as va

        kw = pg.kw()
        opts, env = [], {}
        for k, o, e in (("database", "--database", "VSARCHIVE_PGDATABASE"), ("host", "--host", "VSARCHIVE_PGHOST"), ("user", "--user", "VSARCHIVE_PGUSER")):
            opts += [o, str(kw.pop(k))]
        if kw.get("port") is not None:
            env["VSARCHIVE_PGPORT"] = str(kw.pop("port"))
        if self.c is None or self.c.flip():
            opts += ["--schema", self.schema]
        else:
            env["VSARCHIVE_PGSCHEMA"] = self.schema
        made = []
        keep = va.VisitSequenceArchiveMetadata
        va.VisitSequenceArchiveMetadata = lambda *a, **k: made.append(keep(*a, **k)) or made[-1]
        try:
            r = CliRunner(env=env).invoke(va.vseqarchive, opts + [str(a) for a in args])
        finally:
            va.VisitSequenceArchiveMetadata = keep
            for m in made:
                for f in (lambda: m.sa_engine.dispose(), lambda: m.pg_pool.closeall()):
                    try:
                        f()
                    except Exception:
                        pass
        if self.c is not None:
            self.c.obs("command", (args[0], r.exit_code))
        if r.exception is not None:
            if isinstance(r.exception, SystemExit):
                raise ValueError("command failed: " + r.output[-300:])
            raise r.exception
        out = r.stdout
        return out[:-1] if out.endswith("\n") else out

    def table(self, *args):
        out = self.run(*args)
        if out == "":
            return pd.DataFrame()
        rows = list(csv.reader(io.StringIO(out, newline=""), delimiter="\t"))
        return pd.DataFrame(rows[1:], columns=rows[0])

    def record_visitseq_metadata(self, visits, label, telescope=None, table="visitseq", url=None, first_day_obs=None, last_day_obs=None, creation_time=None):
        if label is None:
            return self.real.record_visitseq_metadata(visits, label)
        o = []
        for k, v in (("telescope", telescope), ("url", url), ("first_day_obs", first_day_obs), ("last_day_obs", last_day_obs)):
            if v is not None:
                o += [f"--{k}", str(v)]
        if creation_time is not None:
            t = creation_time.utc
            t.precision = 6
            o += ["--creation_time", t.isot]
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "v.h5")
            visits.to_hdf(f, key="observations")
            return uuid.UUID(self.run("record-visitseq-metadata", *o, "--", table, f, label))

    def get_visitseq_url(self, u):
        out = self.run("get-visitseq-url", u)
        return out if out not in ("", "None") else None

    def set_visitseq_url(self, u, url):
        self.run("set-visitseq-url", "--", u, url)

    def update_visitseq_metadata(self, u, field, value):
        if value is None:
            return self.real.update_visitseq_metadata(u, field, value)
        if isinstance(value, datetime.date):
            value = value.isoformat()
        if isinstance(value, bytes):
            value = value.hex()
        self.run("update-visitseq-metadata", "--", u, field, value)

    def is_tagged(self, u, tag):
        out = self.run("is-tagged", "--", u, tag)
        if out not in ("true", "false"):
            raise AssertionError(f"is-tagged printed {out!r}")
        return out == "true"

    def tag(self, u, *tags):
        self.run("tag", "--", u, *tags)

    def untag(self, u, tag):
        self.run("untag", "--", u, tag)

    def comment(self, u, comment, author=None):
        if comment is None:
            return self.real.comment(u, comment)
        self.run("comment", *(["--author", author] if author is not None else []), "--", u, comment)

    def get_comments(self, u):
        d = self.table("get-comments", u)
        if len(d):
            d["author"] = [x if x else None for x in d["author"]]
        return d

    def query_nightly_stats(self, u):
        d = self.table("query-nightly-stats", u)
        if len(d):
            d["day_obs"] = [datetime.date.fromisoformat(x) for x in d["day_obs"]]
            d["accumulated"] = [{"False": False, "True": True}[x] for x in d["accumulated"]]
        return d
