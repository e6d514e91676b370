"""Shared harness: seeded cases, event counters, verdicts, evidence, replays.

A check module registers scenarios.  A scenario is a function of a Case; it
drives the real code from /repo, and its monitors call case.expect / case.obs.
A case is fully determined by (VERIF_SEED, property, scenario, index).
"""
import contextlib
import hashlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def short(x, n=300):
    try:
        s = repr(x)
    except Exception as e:  # pragma: no cover
        s = f"<unrepr {e}>"
    return s if len(s) <= n else s[:n] + "..."


class Case:
    """One execution: a random source, an event recorder and assertions."""

    def __init__(self, pid, scenario, index, seed, tier):
        self.pid, self.scenario, self.index, self.seed, self.tier = pid, scenario, index, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(pid.encode()), zlib.crc32(scenario.encode()), index])
        self.events = {}
        self.sigs = set()
        self.notes = []
        self.soft = []
        self._scratch = None

    @property
    def scratch(self):
        """a directory of this case's own, removed after it"""
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
        return self._scratch

    # -- random helpers
    def choice(self, seq):
        seq = list(seq)
        return seq[int(self.rng.integers(len(seq)))]

    def flip(self, p=0.5):
        return bool(self.rng.random() < p)

    def randint(self, lo, hi):
        """inclusive"""
        return int(self.rng.integers(lo, hi + 1))

    def uniform(self, lo, hi, size=None):
        r = self.rng.uniform(lo, hi, size)
        return float(r) if size is None else r

    # -- observations
    def obs(self, kind, sig=None, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)
        if sig is not None:
            if len(self.notes) < 2:
                self.notes.append(f"{kind} {short(sig, 200)}")
            self.sigs.add(hashlib.md5(repr((kind, sig)).encode()).hexdigest()[:12])

    def note(self, text):
        if len(self.notes) < 6:
            self.notes.append(str(text)[:600])

    # -- verdicts
    def expect(self, cond, msg, key=None):
        self.events["assertions"] = self.events.get("assertions", 0) + 1
        if not bool(cond):
            self.violate(msg() if callable(msg) else msg, key)

    def violate(self, msg, key=None):
        raise Violation(str(msg)[:2000], key)

    def same(self, got, want, what, key=None):
        """exact equality of arrays/scalars (NaN equals NaN)"""
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape
        if ok:
            try:
                ok = bool(np.array_equal(g, w, equal_nan=True))
            except TypeError:
                ok = bool(np.all(g == w))
        self.expect(ok, lambda: f"{what}: got {short(got)} want {short(want)}", key)

    def close(self, got, want, what, rtol=1e-9, atol=1e-12, key=None):
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        ok = g.shape == w.shape and bool(np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True))
        def m():
            d = ""
            if g.shape == w.shape and g.size:
                with np.errstate(all="ignore"):
                    dd = np.abs(g - w)
                    if np.any(np.isfinite(dd)):
                        i = int(np.nanargmax(dd.ravel()))
                        d = f" worst[{i}] got {g.ravel()[i]!r} want {w.ravel()[i]!r}"
            return f"{what}: got {short(got)} want {short(want)}{d}"
        self.expect(ok, m, key)

    def raises(self, exc, fn, what, key=None):
        try:
            r = fn()
        except exc as e:
            self.obs("rejected", what)
            return e
        except Exception as e:
            self.violate(f"{what}: raised {type(e).__name__}: {e}, expected {exc}", key)
        self.violate(f"{what}: accepted (returned {short(r)}), expected {exc}", key)


QUICK_SCALE = 2  # quick case counts are given for a run of about twenty seconds


class Check:
    def __init__(self, pid, rule, level="exploration", nproc=4, assumptions=(), budget=(200.0, 720.0), case_timeout=150):
        self.pid, self.rule, self.level, self.nproc = pid, rule, level, nproc
        self.assumptions = list(assumptions)
        self.budget = budget
        self.case_timeout = case_timeout
        self.scenarios = []
        self.setup_fn = None
        self.worker_setup = None
        self.worker_teardown = None

    def scenario(self, quick, thorough=None, name=None):
        def deco(fn):
            self.scenarios.append((name or fn.__name__, fn, quick * QUICK_SCALE, max(quick * 12 if thorough is None else thorough, quick * QUICK_SCALE)))
            return fn
        return deco


def snapshot(a):
    """deep copy for later comparison"""
    import copy
    return copy.deepcopy(a)


def _run_case(check, name, fn, index, seed, tier, verbose=False):
    c = Case(check.pid, name, index, seed, tier)
    viol = None
    def onalarm(*_a):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(check.case_timeout)
    np.random.seed(int(zlib.crc32(f"{seed}/{name}/{index}".encode())))
    sink = io.StringIO()
    inconclusive = None
    try:
        with contextlib.redirect_stdout(sys.stdout if verbose else sink):
            import warnings
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                fn(c)
    except Violation as v:
        viol = (v.key or f"{name}", str(v), traceback.format_exc())
    except CaseTimeout:
        inconclusive = f"{name}[{index}] timed out"
    except Inconclusive as e:
        inconclusive = f"{name}[{index}]: {e}"
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        viol = (f"{name}:{type(e).__name__}", f"unexpected {type(e).__name__}: {e}", tb)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        plt = sys.modules.get("matplotlib.pyplot")
        if plt is not None:
            plt.close("all")
        if c._scratch:
            shutil.rmtree(c._scratch, ignore_errors=True)
    return c, viol, inconclusive


def _worker(check, wid, nproc, seed, tier, deadline, q, only):
    # stderr of the code under test is not evidence
    res = dict(events={}, sigs={}, evals={}, viols=[], inconc=[], samples={}, truncated=False)
    try:
        if check.worker_setup:
            check.worker_setup(wid)
        plan = [(n, f, (qn if tier == "quick" else tn)) for n, f, qn, tn in check.scenarios if only is None or n == only]
        maxn = max(p[2] for p in plan)
        bad = {}
        known = {k.get("key") for k in load_known() if k.get("property") == check.pid and k.get("status") == "open"}
        # interleave so that every scenario progresses evenly if time runs out
        order = []
        for n, f, cnt in plan:
            for i in range(wid, cnt, nproc):
                order.append(((i + 0.5) / cnt, n, f, i))
        order.sort(key=lambda t: (t[0], t[1]))
        for _, n, f, i in order:
            if time.time() > deadline:
                res["truncated"] = True
                break
            if bad.get(n, 0) >= 8:
                continue
            c, v, inc = _run_case(check, n, f, i, seed, tier)
            res["evals"][n] = res["evals"].get(n, 0) + 1
            for k, cnt in c.events.items():
                kk = f"{n}/{k}"
                res["events"][kk] = res["events"].get(kk, 0) + cnt
            res["sigs"].setdefault(n, set()).update(c.sigs)
            if c.notes and len(res["samples"].get(n, [])) < 2:
                res["samples"].setdefault(n, []).append({"scenario": n, "index": i, "seed": seed, "observed": c.notes})
            if v:
                if v[0] not in known:
                    bad[n] = bad.get(n, 0) + 1
                res["viols"].append((n, i) + v)
            if inc:
                res["inconc"].append(inc)
    except BaseException:
        res["inconc"].append("worker error: " + traceback.format_exc())
    finally:
        try:
            if check.worker_teardown:
                check.worker_teardown(wid)
        except Exception:
            pass
    q.put(res)


def load_known():
    path = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#") and line.startswith("{"):
                out.append(json.loads(line))
    return out


def main(check, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import rubin_sim
    if not os.path.abspath(list(rubin_sim.__path__)[0]).startswith(REPO + "/"):
        print("INCONCLUSIVE: rubin_sim not imported from /repo:", list(rubin_sim.__path__))
        return 3
    only = None
    if "--only" in argv:
        only = argv[argv.index("--only") + 1]
    if "--replay" in argv:
        rp = json.load(open(argv[argv.index("--replay") + 1]))
        if check.setup_fn:
            check.setup_fn()
        if check.worker_setup:
            check.worker_setup(0)
        fn = {n: f for n, f, _, _ in check.scenarios}[rp["scenario"]]
        c, v, inc = _run_case(check, rp["scenario"], fn, rp["index"], rp["seed"], rp["tier"], verbose=True)
        if check.worker_teardown:
            check.worker_teardown(0)
        print("replay:", rp["scenario"], rp["index"], "->", v if v else ("inconclusive " + inc if inc else "held"))
        if v:
            print(v[2])
        return 1 if v else 0
    if check.setup_fn:
        check.setup_fn()
    budget = check.budget[0] if tier == "quick" else check.budget[1]
    deadline = t0 + budget
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    procs = []
    nproc = check.nproc
    for w in range(nproc):
        p = ctx.Process(target=_worker, args=(check, w, nproc, seed, tier, deadline, q, only))
        p.start()
        procs.append(p)
    results = []
    import queue
    hard = deadline + check.case_timeout + 30
    while len(results) < nproc:
        try:
            results.append(q.get(timeout=2))
        except queue.Empty:
            if time.time() > hard:
                break
            if all(not p.is_alive() for p in procs):
                try:
                    while True:
                        results.append(q.get(timeout=1))
                except queue.Empty:
                    break
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.terminate()
    lost = nproc - len(results)
    events, evals, sigs, viols, inconc, samples = {}, {}, {}, [], [], []
    truncated = False
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["evals"].items():
            evals[k] = evals.get(k, 0) + v
        for k, v in r["sigs"].items():
            sigs.setdefault(k, set()).update(v)
        viols += r["viols"]
        inconc += r["inconc"]
        truncated |= r["truncated"]
        for n, ss in r["samples"].items():
            samples += ss
    viols.sort(key=lambda v: (v[0], v[1]))
    samples.sort(key=lambda s: (s["scenario"], s["index"]))
    seen = {}
    keep = []
    for s in samples:
        if seen.get(s["scenario"], 0) < 1:
            seen[s["scenario"]] = seen.get(s["scenario"], 0) + 1
            keep.append(s)
    known = [k for k in load_known() if k.get("property") == check.pid and k.get("status") == "open"]
    real, kf = [], {}
    for v in viols:
        hit = next((k for k in known if k["key"] == v[2]), None)
        if hit:
            kf[hit["key"]] = hit["what"]
        else:
            real.append(v)
    silent = [n for n, _, _, _ in check.scenarios if (only is None or n == only) and not any(k.startswith(n + "/") for k in events)]
    rc = 0
    for k, what in sorted(kf.items()):
        print(f"KNOWN-FINDING: property={check.pid} {k}: {what}")
    if real:
        rdir = os.path.join(HERE, "replays", check.pid)
        os.makedirs(rdir, exist_ok=True)
        printed = set()
        for n, i, key, msg, tb in real:
            if key in printed or len(printed) >= 10:
                continue
            printed.add(key)
            path = os.path.join(rdir, f"{tier}_{seed}_{n}_{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=check.pid, scenario=n, index=i, seed=seed, tier=tier, key=key, message=msg, traceback=tb), f, indent=1)
            print(f"# {n}[{i}] key={key}: {msg}")
            print(f"VIOLATION property={check.pid} replay={path}")
        rc = 1
    elif lost or inconc or silent:
        rc = 2
        print(f"INCONCLUSIVE property={check.pid} lost_workers={lost} silent_scenarios={silent} details={inconc[:3]}")
    ev = dict(
        property=check.pid, tier=tier, seed=seed, level=check.level,
        coverage=dict(
            evaluations=int(sum(evals.values())),
            distinct_nontrivial=int(sum(len(s) for s in sigs.values())),
            rule=check.rule,
            samples=keep[:12] or [{"note": "no sample recorded"}],
            cases_per_scenario=dict(sorted(evals.items())),
            monitor_events=dict(sorted(events.items())),
            truncated_by_time=bool(truncated),
            known_findings_seen=sorted(kf),
            inconclusive_cases=len(inconc),
        ),
        assumptions=check.assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=len(real),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{check.pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{check.pid}.json"))
    print(f"{check.pid} {tier} seed={seed}: {ev['coverage']['evaluations']} cases, {ev['coverage']['distinct_nontrivial']} distinct, "
          f"{sum(v for k, v in events.items() if k.endswith('/assertions'))} assertions, {ev['wall_s']} s, violations={len(real)}")
    return rc
