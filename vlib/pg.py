"""A private PostgreSQL server for one worker process (unix socket only)."""
import glob
import os
import shutil
import subprocess
import tempfile
import time

BIN = (sorted(glob.glob("/usr/lib/postgresql/*/bin")) or [""])[-1]
SERVER = {}


def _as_postgres(args):
    if os.getuid() == 0:
        return ["setpriv", "--reuid=postgres", "--regid=postgres", "--init-groups", "--pdeathsig=QUIT"] + args
    return args


def start(w=0):
    base = tempfile.mkdtemp(prefix="pg%d_" % w, dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
    os.chmod(base, 0o755)
    if os.getuid() == 0:
        shutil.chown(base, "postgres", "postgres")
    data = os.path.join(base, "d")
    r = subprocess.run(
        _as_postgres([f"{BIN}/initdb", "-D", data, "-U", "root", "-A", "trust", "--no-sync", "--locale=C.UTF-8", "-E", "UTF8"]),
        capture_output=True, cwd="/",
    )
    if r.returncode:
        raise RuntimeError("initdb: " + r.stderr.decode()[-500:])
    log = open(os.path.join(base, "log"), "wb")
    p = subprocess.Popen(
        _as_postgres([f"{BIN}/postgres", "-D", data, "-k", base, "-h", "", "-p", "5432", "-F",
                      "-c", "logging_collector=off", "-c", "timezone=UTC", "-c", "max_connections=80",
                      "-c", "shared_buffers=16MB", "-c", "autovacuum=off"]),
        stdout=log, stderr=log, cwd="/",
    )
    import psycopg2

    os.environ["PGTZ"] = "UTC"
    kw = dict(host=base, port=5432, user="root")
    for _ in range(300):
        try:
            c = psycopg2.connect(database="postgres", **kw)
            break
        except psycopg2.OperationalError:
            if p.poll() is not None:
                raise RuntimeError("postgres did not start: " + open(os.path.join(base, "log")).read()[-500:])
            time.sleep(0.1)
    else:
        raise RuntimeError("postgres did not answer")
    c.autocommit = True
    c.cursor().execute("CREATE DATABASE test")
    c.close()
    SERVER.update(proc=p, base=base, kw=dict(kw, database="test"))


def stop(w=0):
    p = SERVER.get("proc")
    if p is not None:
        p.send_signal(3)
        try:
            p.wait(10)
        except subprocess.TimeoutExpired:
            p.kill()
        shutil.rmtree(SERVER["base"], ignore_errors=True)
        SERVER.clear()


def kw():
    return dict(SERVER["kw"])


def connect():
    import psycopg2

    c = psycopg2.connect(**SERVER["kw"])
    c.autocommit = True
    return c
