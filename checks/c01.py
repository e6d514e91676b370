"""C01: binning slicers deliver exactly the right visits to every slice."""
import numpy as np
from rubin_sim.maf.slicers import (BlockIntervalSlicer, HourglassSlicer, MovieSlicer, NDSlicer, OneDSlicer,
                                   TimeIntervalSlicer, UniSlicer, VisitIntervalSlicer)

from vlib.h import Check, short

check = Check("C01", "random visit tables (ties, edge values, unsorted, single rows) x random bin specifications; every slice's "
              "delivered visit set is compared with a brute-force membership test on the reported edges. Non-trivial: >=1 visit delivered.",
              assumptions=["bins given by the caller are increasing for the 1-D slicer", "times within blocks are distinct"])


def values(c, n, kind=None):
    kind = kind or c.choice(["uniform", "grid", "int", "const", "clustered", "neg", "mjd"])
    r = c.rng
    if kind == "uniform":
        v = r.uniform(0, 10, n)
    elif kind == "grid":
        v = r.integers(0, 21, n) * 0.5
    elif kind == "int":
        v = r.integers(-5, 30, n)
    elif kind == "const":
        v = np.full(n, float(r.integers(-3, 4)))
    elif kind == "mjd":  # distinct only in double precision
        v = r.choice([61000, 61000.4, 1234567.8]) + r.permutation(n) * r.choice([1e-4, 1e-4, 3.7])
    elif kind == "clustered":
        v = np.round(r.normal(5, 2, n), 1)
    else:
        v = -r.uniform(0, 100, n)
    return kind, v


def table(c, names, n):
    kinds, cols = [], []
    for _ in names:
        k, v = values(c, n)
        kinds.append(k)
        cols.append(v)
    dt = [(nm, v.dtype.kind + "8") for nm, v in zip(names, cols)] + [("visit", "i8")]
    d = np.zeros(n, dtype=dt)
    for nm, v in zip(names, cols):
        d[nm] = v
    d["visit"] = np.arange(n) + 1000
    return kinds, d


def delivered(c, sl, data, n_expected=None):
    """All slices by iteration and by index; returns list of (set of rows, slice_point)."""
    out = []
    it = [(s["idxs"], s["slice_point"]) for s in sl]
    c.expect(len(it) == len(sl) == sl.nslice, f"iteration yields {len(it)} slices, len() says {len(sl)}, nslice {sl.nslice}")
    it2 = [(s["idxs"], s["slice_point"]) for s in sl]
    c.expect(len(it2) == len(it), "second iteration yields a different number of slices")
    for i, (idxs, sp) in enumerate(it):
        v = data["visit"][idxs]
        c.expect(v.ndim == 1, f"slice {i} does not index a 1-d set of visits: {short(idxs)}")
        c.expect(len(set(v.tolist())) == len(v), f"slice {i} delivers a visit twice: {short(v)}")
        rows = set((v - 1000).tolist())
        v2 = data["visit"][it2[i][0]]
        c.expect(set((v2 - 1000).tolist()) == rows, f"slice {i} differs between iterations")
        gi = sl[i]
        c.expect(set((data["visit"][gi["idxs"]] - 1000).tolist()) == rows, f"slice {i} by index differs from iteration")
        c.obs("visits_delivered", n=len(rows))
        out.append((rows, sp))
    c.obs("slices", n=len(out))
    return out


def judge_oned(c, sl, data, col, what):
    v = data[col]
    bins = np.asarray(sl.slice_points["bins"])
    c.expect(len(bins) == len(sl) + 1, f"{what}: {len(bins)} edges for {len(sl)} slices")
    c.same(sl.slice_points["sid"], np.arange(len(sl)), f"{what}: sid")
    got = delivered(c, sl, data)
    for i, (rows, sp) in enumerate(got):
        lo, hi = bins[i], bins[i + 1]
        want = (v >= lo) & ((v <= hi) if i == len(bins) - 2 else (v < hi))
        want = set(np.where(want)[0].tolist())
        c.expect(rows == want, lambda: f"{what}: slice {i} [{lo},{hi}] missing {sorted(want - rows)[:5]} extra {sorted(rows - want)[:5]} values {v[sorted(want ^ rows)][:5]}")
        c.expect(sp["sid"] == i and sp["bin_left"] == lo and sp["bin_right"] == hi, f"{what}: slice point {sp} for bin {i} [{lo},{hi}]")
    return got


def oned_spec(c, v):
    lo, hi = float(np.min(v)), float(np.max(v))
    kw = {}
    mode = c.choice(["bins", "bins_list", "none", "size", "minmax", "minmaxsize", "min", "max", "minsize", "maxsize"])
    if mode.startswith("bins"):
        nb = c.randint(1, 12)
        if c.flip(0.5):
            edges = np.linspace(lo - c.choice([0, 0, 1]), hi + c.choice([0, 0, 1]) + (1 if lo == hi else 0), nb + 1)
        else:
            e = np.unique(np.round(c.uniform(lo - 1, hi + 1, nb + 1), 1))
            edges = e if len(e) > 1 else np.array([lo, hi + 1.0])
        if c.flip(0.3):  # edges coinciding with data values
            edges = np.unique(np.concatenate([edges, c.rng.choice(v, size=min(3, len(v)))]))
        kw["bins"] = edges if mode == "bins" else list(edges)
    if "size" in mode:
        kw["bin_size"] = float(np.round(max((hi - lo), 1) / c.randint(2, 9), 3))
    if "min" in mode:
        kw["bin_min"] = float(np.round(lo - c.choice([0, 0.5, -0.25]), 2))
    if "max" in mode:
        kw["bin_max"] = float(np.round(hi + c.choice([0, 0.5, 2.0]), 2)) + (0.5 if lo == hi else 0)
    if "bin_min" in kw and kw["bin_min"] >= kw.get("bin_max", hi):
        kw["bin_min"] = lo - 1.0
    if kw.get("bin_max", 1e9) <= kw.get("bin_min", lo):
        kw["bin_max"] = hi + 1.0
    span = kw.get("bin_max", hi) - kw.get("bin_min", lo)
    if "bin_size" in kw and 0 < span < kw["bin_size"]:
        kw["bin_size"] = span / 3.0
    return mode, kw


@check.scenario(1920, 48000)
def oned(c):
    n = c.choice([1, 2, 3, 10, 50, 200])
    kinds, d = table(c, ["x"], n)
    mode, kw = oned_spec(c, d["x"])
    before = d.copy()
    sl = OneDSlicer(slice_col_name="x", slice_col_units="u", **kw)
    sl.setup_slicer(d)
    bins = np.asarray(sl.slice_points["bins"])
    if "bins" in kw:
        c.same(bins, np.asarray(kw["bins"]), "explicit edges")
    else:
        lo = kw.get("bin_min", float(np.min(d["x"])))
        hi = kw.get("bin_max", float(np.max(d["x"])))
        c.close(bins[0], lo, "first edge", rtol=1e-12)
        steps = np.diff(bins)
        c.expect(np.all(steps > 0) and np.allclose(steps, steps[0], rtol=1e-6, atol=1e-9), f"edges not evenly spaced: {short(steps)}")
        size = kw.get("bin_size")
        if size is not None:
            c.close(steps[0], size, "bin size", rtol=1e-6, atol=1e-9)
            if hi > lo:
                c.expect(abs(bins[-1] - hi) <= size / 2 * (1 + 1e-6), f"last edge {bins[-1]} more than half a bin from the requested maximum {hi}")
            elif hi == lo:
                c.close(bins[-1], hi + 2 * size, "last edge for single-valued data", rtol=1e-6, atol=1e-9)
        elif hi == lo:
            c.close(bins[-1], hi + 1, "last edge for single-valued data", rtol=1e-6, atol=1e-9)
        elif hi > lo:
            c.close(bins[-1], hi, "last edge is the requested/data maximum", rtol=1e-9, atol=1e-9)
    got = judge_oned(c, sl, d, "x", f"OneD {mode} {kinds}")
    c.same(before, d, "input data modified")
    c.obs("case", (mode, kinds[0], n), 1)
    c.note(f"OneDSlicer mode={mode} kind={kinds[0]} n={n} -> {len(sl)} slices, {sum(len(r) for r, _ in got)} visits delivered")


@check.scenario(960, 24000)
def nd(c):
    nd_ = c.randint(1, 3)
    n = c.choice([1, 2, 20, 100])
    names = [f"x{i}" for i in range(nd_)]
    kinds, d = table(c, names, n)
    mode = c.choice(["int", "ints", "arrays", "mixed"])
    if mode == "int":
        spec = c.randint(1, 6)
        blist = [spec] * nd_
    else:
        blist = []
        for nm in names:
            v = d[nm]
            lo, hi = float(v.min()), float(v.max())
            if mode == "ints" or (mode == "mixed" and c.flip()):
                blist.append(c.randint(1, 6))
            else:
                e = np.unique(np.round(c.uniform(lo - 0.5, hi + 0.5, c.randint(2, 6)), 1))
                if len(e) < 2:
                    e = np.array([lo, hi + 1])
                if c.flip():
                    e = np.unique(np.concatenate([e, v[:2]]))
                blist.append(c.rng.permutation(e) if c.flip(0.3) else e)
        spec = blist
    before = d.copy()
    sl = NDSlicer(slice_col_list=names, bins_list=spec)
    sl.setup_slicer(d)
    edges = []
    for b, nm in zip(blist, names):
        v = d[nm]
        if isinstance(b, int):
            lo, hi = float(v.min()), float(v.max())
            if lo == hi:
                hi = lo + 1
            edges.append(np.linspace(lo, hi, b + 1))
        else:
            edges.append(np.sort(b))
    shape = [len(e) - 1 for e in edges]
    c.expect(len(sl) == int(np.prod(shape)), f"nslice {len(sl)} for bins {shape}")
    # reported edges
    for e, b in zip(edges, sl.bins):
        c.close(b, e, "bin edges", rtol=1e-9, atol=1e-9)
    edges = [np.asarray(b) for b in sl.bins]
    got = delivered(c, sl, d)
    total = set()
    for i, (rows, sp) in enumerate(got):
        idx = np.unravel_index(i, shape)
        c.expect(tuple(int(x) for x in sp["bin_idxs"]) == tuple(int(x) for x in idx), f"bin_idxs {sp['bin_idxs']} want {idx}")
        c.expect(tuple(sp["bin_left"]) == tuple(e[j] for e, j in zip(edges, idx)), f"bin_left {sp['bin_left']}")
        c.expect(sp["sid"] == i, "sid")
        sure = np.ones(n, bool)   # must be in
        may = np.ones(n, bool)    # may be in (visits beyond the last edge are not specified)
        for e, j, nm in zip(edges, idx, names):
            v = d[nm]
            last = j == len(e) - 2
            inb = (v >= e[j]) & ((v <= e[j + 1]) if last else (v < e[j + 1]))
            sure &= inb
            may &= inb | ((v > e[-1]) if last else False)
        sure, may = set(np.where(sure)[0].tolist()), set(np.where(may)[0].tolist())
        c.expect(sure <= rows <= may, lambda: f"ND {mode} slice {i}{idx}: missing {sorted(sure - rows)[:5]} extra {sorted(rows - may)[:5]}")
        c.expect(not (rows & total), f"ND visit delivered in two slices: {sorted(rows & total)[:5]}")
        total |= rows
    if mode in ("int", "ints"):
        c.expect(len(total) == n, f"ND lost visits: {n - len(total)} of {n}")
    c.same(before, d, "input data modified")
    c.obs("case", (mode, tuple(kinds), n))
    c.note(f"NDSlicer {nd_}-d mode={mode} shape={shape} n={n} delivered={len(total)}")


@check.scenario(960, 24000)
def movie(c):
    n = c.choice([1, 3, 30, 150])
    kinds, d = table(c, ["x"], n)
    v = d["x"]
    lo, hi = float(v.min()), float(v.max())
    kw = {}
    mode = c.choice(["int", "array", "size", "none", "minmax"])
    if mode in ("int", "minmax"):
        kw["bins"] = c.randint(1, 10)
    if mode == "array":
        e = np.unique(np.round(c.uniform(lo - 1, hi + 1, c.randint(2, 8)), 1))
        if c.flip(0.4):
            e = np.unique(np.concatenate([np.linspace(lo, hi, c.randint(2, 8)), c.rng.choice(v, size=min(2, len(v)))]))
        kw["bins"] = e if len(e) > 1 else np.array([lo, hi + 1])
    if mode == "size":
        kw["bin_size"] = max(hi - lo, 1.0) / c.randint(2, 8)
    if mode == "minmax":
        kw["bin_min"], kw["bin_max"] = lo - 0.5, hi + 0.5
    cum = c.flip()
    sl = MovieSlicer(slice_col_name="x", slice_col_units="u", cumulative=cum, force_no_ffmpeg=True, **kw)
    sl.setup_slicer(d)
    bins = np.asarray(sl.slice_points["bins"])
    c.expect(len(sl) == len(bins) - 1, "nslice vs bins")
    if mode in ("int", "minmax"):
        c.expect(len(sl) == kw["bins"], f"asked for {kw['bins']} bins, got {len(sl)}")
        c.close(bins[0], lo - (0.5 if mode == "minmax" else 0), "first edge")
        if hi > lo or mode == "minmax":
            c.close(bins[-1], hi + (0.5 if mode == "minmax" else 0), "last edge", atol=1e-9)
    got = delivered(c, sl, d)
    for i, (rows, sp) in enumerate(got):
        last = i == len(bins) - 2
        left = bins[0] if cum else bins[i]
        inb = (v >= left) & ((v <= bins[i + 1]) if last else (v < bins[i + 1]))
        may = inb | ((v > bins[-1]) if last else False) | ((v < bins[0]) if cum else False)
        want, may = set(np.where(inb)[0].tolist()), set(np.where(may)[0].tolist())
        c.expect(want <= rows <= may, lambda: f"Movie cum={cum} {mode} slice {i}: missing {sorted(want - rows)[:5]} extra {sorted(rows - may)[:5]}")
        c.expect(sp["sid"] == i and sp["bin_left"] == left and sp["bin_right"] == bins[i + 1], f"slice point {sp}")
    c.obs("case", (mode, cum, kinds[0], n))
    c.note(f"MovieSlicer mode={mode} cumulative={cum} n={n} slices={len(sl)}")


@check.scenario(192, 2400)
def uni(c):
    n = c.choice([1, 2, 17, 300])
    _, d = table(c, ["x", "y"], n)
    for cls in (UniSlicer, HourglassSlicer):
        sl = cls()
        c.expect(len(sl) == 1, "one slice")
        for dd in (d, d[: max(1, n // 2)]):
            sl.setup_slicer(dd)
            (rows, sp), = delivered(c, sl, dd)
            c.expect(rows == set(range(len(dd))), f"{cls.__name__}: {len(rows)} of {len(dd)} visits")
            c.expect(sp["sid"] == 0, "sid")
    c.obs("case", n)
    c.note(f"UniSlicer/HourglassSlicer n={n}: every visit delivered once")


def mjds(c, n):
    base = c.choice([60000, 59580, 61234])
    kind = c.choice(["nights", "one", "days", "edge"])
    if kind == "one":
        t = base + c.uniform(0.0, 0.9, n)
    elif kind == "nights":
        t = base + c.rng.integers(0, 4, n) + c.uniform(0, 0.4, n)
    elif kind == "days":
        t = base + c.uniform(0, 3, n)
    else:
        t = base + c.rng.integers(0, 3, n) + c.rng.integers(0, 49, n) / 48.0
    return kind, t


@check.scenario(480, 9600)
def time_interval(c):
    n = c.choice([1, 2, 10, 80])
    kind, t = mjds(c, n)
    d = np.zeros(n, dtype=[("mjd", "f8"), ("visit", "i8")])
    d["mjd"], d["visit"] = t, np.arange(n) + 1000
    secs = c.choice([900, 1800, 3600, 7200, 86400])
    sl = TimeIntervalSlicer(interval_seconds=secs, mjd_column_name="mjd")
    sl.setup_slicer(d)
    tries = [d]
    if c.flip(0.5):
        m = c.choice([1, 3, 20])
        k2, t2 = mjds(c, m)
        d2 = np.zeros(m, dtype=d.dtype)
        d2["mjd"], d2["visit"] = t2, np.arange(m) + 1000
        tries.append(d2)
    for k, dd in enumerate(tries):
        if k:
            sl.setup_slicer(dd)
        tt = dd["mjd"]
        starts = np.asarray(sl.slice_points["mjd"])
        dur = np.asarray(sl.slice_points["duration"])
        c.expect(np.all(dur == secs), "duration of the intervals")
        c.expect(len(starts) == len(sl), "one start per interval")
        c.close(np.diff(starts) * 86400, np.full(len(starts) - 1, secs), "interval spacing", rtol=1e-3)
        got = delivered(c, sl, dd)
        where = {}
        for i, (rows, sp) in enumerate(got):
            c.expect(sp["sid"] == i and sp["mjd"] == starts[i] and sp["duration"] == secs, f"slice point {sp}")
            for r in rows:
                c.expect(r not in where, f"visit {r} in two intervals")
                where[r] = i
        eps = 2e-9
        for r in range(len(dd)):
            c.expect(r in where, f"visit at {tt[r]} in no interval [{starts[0]}, ...{starts[-1]}] of {secs}s")
            i = where[r]
            end = starts[i + 1] if i + 1 < len(starts) else starts[i] + secs / 86400.0 + 1e-6
            c.expect(starts[i] - eps <= tt[r] < end + eps, f"visit at {tt[r]} given to interval {i} [{starts[i]}, {end})")
        # exact at the reported edges
        c.obs("setup", k)
    c.obs("case", (kind, n, secs))
    c.note(f"TimeIntervalSlicer {secs}s n={n} kind={kind} -> {len(sl)} intervals, setups={len(tries)}")


@check.scenario(640, 14400)
def block(c):
    n = c.choice([1, 2, 5, 40, 120])
    notes = np.array(c.choice([["a", "b"], ["a"], ["a", "b", "c, d", ""]]))
    def mk(n):
        gaps = np.where(c.rng.random(n) < 0.2, c.uniform(0.003, 0.02, n), c.uniform(0.0001, 0.003, n))
        t = 60000.1 + np.cumsum(gaps)
        d = np.zeros(n, dtype=[("mjd", "f8"), ("dur", "f8"), ("note", "U8"), ("visit", "i8")])
        d["mjd"] = t
        d["dur"] = c.rng.choice([15.0, 30.0, 60.0, 500.0], n)
        runs = np.cumsum(c.rng.random(n) < 0.3)
        d["note"] = notes[runs % len(notes)]
        if c.flip(0.5):
            d = d[c.rng.permutation(n)]
        d["visit"] = np.arange(n) + 1000
        return d
    sl = BlockIntervalSlicer(mjd_column_name="mjd", duration_column_name="dur", note_column_name="note")
    for k in range(c.choice([1, 2])):
        d = mk(n if k == 0 else c.choice([1, 7, 50]))
        before = d.copy()
        sl.setup_slicer(d)
        order = np.argsort(d["mjd"])
        blocks = []
        for j in order:
            if blocks:
                p = blocks[-1][-1]
                if d["note"][p] == d["note"][j] and d["mjd"][p] + d["dur"][p] / 86400.0 + 0.1 / 24 > d["mjd"][j]:
                    blocks[-1].append(j)
                    continue
            blocks.append([j])
        got = delivered(c, sl, d)
        c.expect(len(got) == len(blocks), f"{len(got)} blocks, want {len(blocks)}")
        for i, ((rows, sp), b) in enumerate(zip(got, blocks)):
            c.expect(rows == set(int(x) for x in b), f"block {i}: rows {sorted(rows)[:8]} want {sorted(b)[:8]}")
            st = min(d["mjd"][b])
            en = max(d["mjd"][b] + d["dur"][b] / 86400.0)
            c.close([sp["mjd"], sp["duration"]], [st, (en - st) * 86400], f"block {i} start/duration", rtol=1e-10, atol=1e-4)
            c.close([sl.slice_points["mjd"][i], sl.slice_points["duration"][i]], [st, (en - st) * 86400], f"block {i} slice_points", rtol=1e-10, atol=1e-4)
            c.expect(sp["sid"] == i, "sid")
        c.same(before, d, "input modified")
    c.obs("case", (n, len(blocks), len(notes)))
    c.note(f"BlockIntervalSlicer n={n}: {len(blocks)} blocks")


@check.scenario(320, 4800)
def visit_interval(c):
    n = c.choice([1, 2, 9, 60])
    _, t = mjds(c, n)
    t = t + np.arange(n) * 1e-7
    d = np.zeros(n, dtype=[("mjd", "f8"), ("dur", "f8"), ("extra", "i8"), ("visit", "i8")])
    d["mjd"], d["dur"], d["extra"] = t, c.uniform(10, 60, n), c.rng.integers(0, 99, n)
    if c.flip():
        d = d[np.argsort(d["mjd"])]
    d["visit"] = np.arange(n) + 1000
    extra = ("extra",) if c.flip() else ()
    sl = VisitIntervalSlicer(mjd_column_name="mjd", duration_column_name="dur", extra_column_names=extra)
    sl.setup_slicer(d)
    got = delivered(c, sl, d)
    c.expect(len(got) == n, f"{len(got)} slices for {n} visits")
    seen = set()
    for i, (rows, sp) in enumerate(got):
        c.expect(len(rows) == 1, f"slice {i} holds {len(rows)} visits")
        r = next(iter(rows))
        c.expect(r not in seen, "visit in two slices")
        seen.add(r)
        c.expect(sp["mjd"] == d["mjd"][r] and sp["duration"] == d["dur"][r], f"slice point {sp} for visit {d[r]}")
        sid = int(np.atleast_1d(sp["sid"])[0])
        c.expect(sl.slice_points["mjd"][sid] == d["mjd"][r] and sl.slice_points["duration"][sid] == d["dur"][r],
                 f"row {sid} of the slice points does not describe visit {r}")
        if extra:
            c.expect(sp["extra"] == d["extra"][r], f"extra column {sp['extra']} for visit {d[r]}")
    c.obs("case", (n, bool(extra)))
    c.note(f"VisitIntervalSlicer n={n} extra={bool(extra)}")


@check.scenario(480, 7200)
def resetup(c):
    """A slicer with a fixed binning, set up on A then on B, acts as a fresh one on B."""
    n1, n2 = c.choice([5, 60]), c.choice([1, 8, 40])
    _, a = table(c, ["x", "y"], n1)
    _, b = table(c, ["x", "y"], n2)
    ex = np.linspace(-5, 15, c.randint(2, 9))
    ey = np.linspace(-5, 15, c.randint(2, 6))
    mk = c.choice([lambda: OneDSlicer(slice_col_name="x", slice_col_units="", bins=ex),
                   lambda: NDSlicer(["x", "y"], bins_list=[ex, ey]),
                   lambda: MovieSlicer(slice_col_name="x", slice_col_units="", bins=ex, cumulative=False, force_no_ffmpeg=True),
                   lambda: UniSlicer()])
    s1, s2 = mk(), mk()
    s1.setup_slicer(a)
    for i, _ in zip(range(2), s1):
        pass
    s1.setup_slicer(b)
    s2.setup_slicer(b)
    g1, g2 = delivered(c, s1, b), delivered(c, s2, b)
    c.expect([g[0] for g in g1] == [g[0] for g in g2], f"{type(s1).__name__}: re-setup delivers other visits than a fresh slicer")
    c.expect(s1 == s2 and not (s1 != s2), f"{type(s1).__name__}: equal binnings compare unequal")
    c.obs("case", (type(s1).__name__, n1, n2))
    c.note(f"re-setup {type(s1).__name__}: {len(s1)} slices identical to a fresh slicer")


@check.scenario(320, 4800)
def equality(c):
    """Slicers compare equal exactly when their binning is the same."""
    _, d = table(c, ["x", "y", "z"], 30)
    e1 = np.linspace(0, 10, c.randint(3, 8))
    e2 = e1.copy()
    e2[c.randint(0, len(e2) - 2)] += 0.01
    e2.sort()
    ez = np.linspace(0, 5, 4)
    pairs = [
        (OneDSlicer("x", "", bins=e1), OneDSlicer("x", "", bins=e1.copy()), True),
        (OneDSlicer("x", "", bins=e1), OneDSlicer("x", "", bins=e2), False),
        (OneDSlicer("x", "", bins=e1), OneDSlicer("y", "", bins=e1), False),
        (OneDSlicer("x", "", bin_min=0, bin_max=5, bin_size=1), OneDSlicer("x", "", bin_min=0, bin_max=5, bin_size=1), True),
        (OneDSlicer("x", "", bin_min=0, bin_max=5, bin_size=1), OneDSlicer("x", "", bin_min=0, bin_max=6, bin_size=1), False),
        (NDSlicer(["x", "y"], [e1, ez]), NDSlicer(["x", "y"], [e1.copy(), ez]), True),
        (NDSlicer(["x", "y"], [ez, e1]), NDSlicer(["x", "y"], [ez, e2]), False),
        (NDSlicer(["x", "y"], [e1, ez]), NDSlicer(["x", "z"], [e1, ez]), False),
        (NDSlicer(["x", "y"], [e1, ez]), NDSlicer(["x", "y", "z"], [e1, ez, ez]), False),
        (UniSlicer(), UniSlicer(), True),
        (UniSlicer(), OneDSlicer("x", "", bins=e1), False),
        (OneDSlicer("x", "", bins=e1), UniSlicer(), False),
        (NDSlicer(["x"], [e1]), OneDSlicer("x", "", bins=e1), False),
    ]
    a, b, want = pairs[c.index % len(pairs)]
    if c.flip(0.7) or isinstance(a, (UniSlicer,)):
        a.setup_slicer(d)
        b.setup_slicer(d)
    c.expect((a == b) is want or bool(a == b) == want, f"{type(a).__name__} == {type(b).__name__}: {a == b}, want {want} (pair {c.index % len(pairs)})")
    c.expect((a != b) == (not want), "!= disagrees with ==")
    c.obs("case", c.index % len(pairs))
    c.note(f"equality pair {c.index % len(pairs)} ({type(a).__name__}) -> {want}")
