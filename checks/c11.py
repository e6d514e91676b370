"""C11: cadence and time-gap metrics against direct evaluations of their definitions."""
import math
import os
from itertools import groupby

import numpy as np
import rubin_sim.maf.metrics as M
from rubin_scheduler.utils import calc_season

from checks.c07 import mean, median, pctl
from vlib import synth
from vlib.h import Check, short

check = Check("C11", "every timing metric with random options on random visit histories (pairs, nightly blocks, long gaps, single visits, shuffled rows, unrelated columns); each value compared with a plain-Python evaluation of the documented "
              "definition; shuffling rows, dropping undeclared columns and shifting time by whole days must not change it. Non-trivial: a compared value.",
              assumptions=["no two visits at the same time", "gaps within 1e-9 days of a threshold are not judged", "calc_season of rubin_scheduler is trusted", "nights increase with time"])
MIN = 1.0 / 1440
check.setup_fn = lambda: synth.throughputs(os.environ["RUBIN_SIM_DATA_DIR"])


def history(c, n=None, start=61000):
    """sorted times and nights; a mix of pairs, blocks and gaps, never closer than a second"""
    n = n or c.choice([1, 2, 2, 3, 4, c.randint(5, 40), c.randint(5, 120)])
    kind = c.choice(["blocks", "pairs", "sparse", "one_night", "years", "regular"])
    t, night, cur = [], [], start + c.uniform(0, 5)
    if kind == "one_night":
        t = sorted(start + 0.1 + c.uniform(0, 0.3, n))
    elif kind == "regular":
        step = c.choice([MIN * 20, 1.0, 30.0])
        t = [start + 0.1 + step * i for i in range(n)]
    else:
        while len(t) < n:
            base = math.floor(cur) + 0.05
            k = {"blocks": c.randint(1, 8), "pairs": c.choice([1, 2, 2, 2, 3]), "sparse": 1, "years": c.randint(1, 3)}[kind]
            x = base + c.uniform(0, 0.1)
            for _ in range(k):
                t.append(x)
                x += c.choice([c.uniform(0.5, 14) * MIN, c.uniform(16, 40) * MIN, c.uniform(41, 89) * MIN, c.uniform(91, 110) * MIN]) * 0.5
            cur = base + c.choice([1, 1, 1, 2, 3, 10, 40] if kind != "years" else [1, 5, 60, 200, 380, 900])
        t = t[:n]
    t = np.array(sorted(t)) + np.arange(n) * 1e-5
    return kind, t, np.floor(t - start).astype(int)


def table(c, t, night, **cols):
    n = len(t)
    cols = dict(observationStartMJD=t, night=night, **cols)
    cols["junk"] = c.uniform(0, 1, n)
    names = list(cols)
    c.rng.shuffle(names)
    d = np.zeros(n, dtype=[(k, np.asarray(cols[k]).dtype) for k in names])
    for k in names:
        d[k] = cols[k]
    return d[c.rng.permutation(n)] if c.flip(0.7) else d


def eqv(a, b, tol=1e-9):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(eqv(a[k], b[k], tol) for k in a)
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)


def run(c, m, d, key, sp=None, shift=True, tol=1e-9):
    rows = sorted(d.tolist())
    v = m.run(d.copy(), sp)
    x = d.copy()
    m.run(x, sp)
    c.expect(sorted(x.tolist()) == rows, f"{key}: the visits were changed", key + "_modified")
    need = [k for k in dict.fromkeys(m.col_name_arr) if k is not None]
    c.expect(all(k in d.dtype.names for k in need), f"{key}: declares {need}", key + "_cols")
    r = np.zeros(len(d), dtype=[(k, d.dtype[k]) for k in need])
    for k in need:
        r[k] = d[k]
    v2 = m.run(r[c.rng.permutation(len(r))], sp)
    c.expect(eqv(v, v2, tol), lambda: f"{key}: {short(v)}, but {short(v2)} on the declared columns in another order", key + "_order")
    if shift:
        s = d.copy()
        k = c.choice([-300, 7, 1000])
        s["observationStartMJD"] += k
        v3 = m.run(s, sp)
        c.expect(eqv(v, v3, 1e-5), lambda: f"{key}: {short(v)}, but {short(v3)} when every time is {k} days later", key + "_shift")
    c.obs("metric_value", key)
    return v


def near(gaps, *limits, eps=1e-9):
    return any(abs(g - l) < eps for g in gaps for l in limits)


@check.scenario(1500, 15000)
def gaps(c):
    kind, t, night = history(c)
    d = table(c, t, night)
    n = len(t)
    T = [float(x) for x in t]
    g = [b - a for a, b in zip(T, T[1:])]
    bad = c.choice([-666, -1.0, 0.0, 12.5])
    # max gap
    v = run(c, M.MaxGapMetric(badval=bad), d, "MaxGap")
    c.close(v, max(g) if g else bad, "MaxGap", rtol=1e-9, atol=1e-9, key="MaxGap")
    red = c.choice([(np.median, median), (np.max, max), (np.min, min), (np.mean, mean)])
    v = run(c, M.VisitGapMetric(reduce_func=red[0], badval=bad), d, "VisitGap")
    c.close(v, red[1](g) * 24 if g else bad, "VisitGap", rtol=1e-8, atol=1e-8, key="VisitGap")
    same = [b - a for (a, x), (b, y) in zip(zip(T, night), list(zip(T, night))[1:]) if x == y]
    v = run(c, M.IntraNightGapsMetric(reduce_func=red[0], badval=bad), d, "IntraNight")
    c.close(v, red[1](same) * 24 if same else bad, "IntraNight", rtol=1e-8, atol=1e-8, key="IntraNight")
    diff = [b - a for (a, x), (b, y) in zip(zip(T, night), list(zip(T, night))[1:]) if x != y]
    v = run(c, M.InterNightGapsMetric(reduce_func=red[0], badval=bad), d, "InterNight")
    c.close(v, red[1](diff) if diff else bad, "InterNight", rtol=1e-8, atol=1e-8, key="InterNight")
    # revisits
    dt = float(c.choice([30.0, 1.0, 60.0, 2000.0]))
    if not near(g, dt * MIN):
        for normed in (False, True):
            k = sum(x <= dt * MIN for x in g)
            v = run(c, M.NRevisitsMetric(d_t=dt, normed=normed), d, "NRevisits")
            c.close(v, k / n if normed else k, "NRevisits", rtol=1e-12, key="NRevisits")
    a, p, b = sorted(c.uniform(0.2, 100, 3) * MIN)
    n1, n2 = c.randint(0, 10), c.randint(0, 20)
    if not near(g, a, p, b):
        v = run(c, M.RapidRevisitMetric(d_tmin=a, d_tpairs=p, d_tmax=b, min_n1=n1, min_n2=n2), d, "RapidRevisit")
        w = int(sum(a <= x <= p for x in g) >= n1 and sum(a <= x <= b for x in g) >= n2)
        c.expect(v == w, f"RapidRevisit {v}, want {w}", "RapidRevisit")
        mn = c.choice([0, 1, 2, 5])
        v = run(c, M.RapidRevisitUniformityMetric(d_tmin=a, d_tmax=b, min_nvisits=mn, badval=bad), d, "RapidUniform", tol=1e-5)
        inside = sorted(x for x in g if a <= x <= b)
        if len(inside) < max(2, mn):
            c.close(v, bad, "RapidUniform", key="RapidUniform")
        else:
            s = [(x - inside[0]) / (b - a) for x in inside]
            w = max(abs((i + 1) / len(s) - x - s[1]) for i, x in enumerate(s))
            c.close(v, w, "RapidUniform", rtol=1e-6, atol=1e-6, key="RapidUniform")
    # histograms of gaps
    allg = [T[j] - T[i] for i in range(n) for j in range(i + 1, n)] if n <= 60 else None
    for all_gaps in (False, True):
        use = allg if all_gaps else g
        if use is None:
            continue
        bins = c.choice([np.arange(0, 120.0, 5.0) * MIN, np.sort(c.uniform(0, 5, 6)), np.array([0, 0.5, 1.5, 3.5, 1000.0])])
        if not near(use, *bins):
            v = run(c, M.TgapsMetric(bins=bins, all_gaps=all_gaps, badval=bad), d, "Tgaps")
            if n < 2:
                c.close(v, bad, "Tgaps", key="Tgaps")
            else:
                w = [sum(lo <= x < hi for x in use) for lo, hi in zip(bins, bins[1:])]
                c.expect(list(v) == w, lambda: f"Tgaps {list(v)}, want {w}", "Tgaps")
        lo, hi = sorted(c.uniform(0, 2, 2))
        if not near(use, lo, hi):
            v = run(c, M.TgapsPercentMetric(min_time=lo, max_time=hi, all_gaps=all_gaps, badval=bad), d, "TgapsPercent")
            c.close(v, 100.0 * sum(lo <= x <= hi for x in use) / len(use) if use else bad, "TgapsPercent", rtol=1e-9, key="TgapsPercent")
        # gaps exactly at the limits (whole days and their quarters are exact)
        e = d.copy()
        e["observationStartMJD"] = 60000 + c.rng.integers(0, 12, n) * 0.25
        x = sorted(e["observationStartMJD"])
        g = [b - a for i, a in enumerate(x) for b in x[i + 1:]] if all_gaps else [b - a for a, b in zip(x, x[1:])]
        v = run(c, M.TgapsPercentMetric(min_time=0.25, max_time=0.75, all_gaps=all_gaps, badval=bad), e, "TgapsPercent", shift=False)
        c.close(v, 100.0 * sum(0.25 <= y <= 0.75 for y in g) / len(g) if g else bad, "TgapsPercent at its limits", rtol=1e-9, key="TgapsPercent")
        un = sorted(set(int(x) for x in night))
        ng = [b - a for i, a in enumerate(un) for b in un[i + 1:]] if all_gaps else [b - a for a, b in zip(un, un[1:])]
        bins = c.choice([np.arange(0, 10, 1), np.array([0.5, 1.5, 3.5, 50.5])])
        v = run(c, M.NightgapsMetric(bins=bins, all_gaps=all_gaps, badval=bad), d, "Nightgaps", shift=False)
        if n < 2:
            c.close(v, bad, "Nightgaps", key="Nightgaps")
        else:
            w = [sum((lo <= x < hi) or (hi == bins[-1] and x == hi) for x in ng) for lo, hi in zip(bins, bins[1:])]
            c.expect(list(v) == w, lambda: f"Nightgaps all={all_gaps} {list(v)}, want {w}", "Nightgaps")
    # timespan per night
    q = float(c.choice([75, 50, 0, 100, 33]))
    spans = []
    for k in sorted(set(night)):
        x = [a for a, m in zip(T, night) if m == k]
        if len(x) > 1:
            spans.append((max(x) - min(x)) * 1440)
    v = run(c, M.NightTimespanMetric(percentile=q, badval=bad), d, "Timespan")
    c.close(v, pctl(spans, q) if spans else bad, "Timespan", rtol=1e-7, atol=1e-6, key="Timespan")


@check.scenario(800, 8000)
def sampling(c):
    """binned definitions: gaps sampled, pairs of bins, nightly counts and depths, age"""
    kind, t, night = history(c)
    n = len(t)
    m5 = c.uniform(20.2, 24.5, n)
    off = c.choice([0, 0, 3640, 5000])
    d = table(c, t, night + off, fiveSigmaDepth=m5)
    T = [float(x) for x in t]
    bad = c.choice([-666, -1.0])
    # pairs
    b, lo = float(c.choice([5.0, 2.0])), float(c.choice([20.0, 10.0]))
    hi = lo + float(c.choice([20.0, 40.0]))
    B = b * MIN
    idx = [(x - T[0]) / B for x in T]
    if T[-1] - T[0] < 40 and not any(0 < abs(x - round(x)) < 1e-5 for x in idx[1:]):
        v = run(c, M.PairMetric(bin_size=b, match_min=lo, match_max=hi, badval=bad), d, "Pairs", shift=False)
        k = sorted(set(int(math.floor(x + 1e-9)) for x in idx))
        # the last bin is closed on the right
        w = sum(1 for x in k for y in k if round(lo / b) <= y - x <= round(hi / b))
        c.close(v, w if w else bad, "Pairs", key="Pairs")
    # gaps at a timescale: visits in half-timescale bins two apart
    ts = float(c.choice([2.0, 0.5, 24.0]))
    H = ts / 24 / 2
    idx = [(x - (T[0] - H)) / H for x in T]
    if n >= 2 and T[-1] - T[0] < 400 and not any(abs(x - round(x)) < 1e-5 for x in idx[1:]):
        v = run(c, M.GapsMetric(time_scale=ts, badval=bad), d, "Gaps", shift=False)
        k = set(int(math.floor(x + 1e-9)) for x in idx)
        # the first visit sits on the edge between bin 0 and bin 1: rounding decides
        alt = (k - {1}) | {0} if not any(1 < x < 2 for x in idx[1:]) else k | {0}
        want = {sum(1 for x in kk if x + 2 in kk) for kk in (k, alt)}
        c.expect(v in want, f"Gaps {v}, want one of {want}", "Gaps")
    if n < 2:
        c.close(run(c, M.GapsMetric(badval=bad), d, "Gaps"), bad, "Gaps", key="Gaps")
    # visits per night
    cnt = [sum(1 for _ in g) for _, g in groupby(sorted(night))]
    bins = c.choice([np.arange(0, 10, 1), np.array([0.5, 1.5, 4.5, 100.0])])
    v = run(c, M.NVisitsPerNightMetric(bins=bins), d, "NPerNight", shift=False)
    w = [sum((l <= x < h) or (h == bins[-1] and x == h) for x in cnt) for l, h in zip(bins, bins[1:])]
    c.expect(list(v) == w, f"NPerNight {list(v)}, want {w}", "NPerNight")
    co = [1.25 * math.log10(sum(10 ** (0.8 * x) for x, m in zip(m5, night) if m == k)) for k in sorted(set(night))]
    bins = c.choice([np.arange(20, 25, 0.05), np.array([19.0, 22.0, 23.5, 26.0])])
    if not near(co, *bins, eps=1e-8):
        v = run(c, M.CoaddM5PerNightMetric(bins=bins), d, "CoaddPerNight", shift=False)
        w = [sum(l <= x < h for x in co) for l, h in zip(bins, bins[1:])]
        c.expect(list(v) == w, f"CoaddPerNight {short(list(v))}, want {short(w)}; nights {short(sorted(set(night + off)))}", "CoaddPerNight")
    # age
    ref = T[-1] + float(c.uniform(-1, 60))
    lim = float(c.choice([30, 5]))
    v = M.AgeMetric(ref, long_limit=lim).run(d)
    w = ref - T[-1]
    if abs(w - lim) > 1e-6:
        c.expect(np.isnan(v) if w > lim else abs(v - w) < 1e-8, f"age {v}, want {w} below {lim}", "Age")
    # fraction of visits in a pair
    mn, mx = sorted(float(x) for x in c.uniform(0.3, 100, 2))
    ag = [T[j] - T[i] for i in range(n) for j in range(i + 1, n)] if n < 80 else None
    if ag is not None and not near(ag, mn * MIN, mx * MIN):
        v = run(c, M.PairFractionMetric(min_gap=mn, max_gap=mx), d, "PairFraction")
        w = sum(any(mn * MIN <= abs(x - y) <= mx * MIN for y in T) for x in T) / n
        c.close(v, w, "PairFraction", rtol=1e-12, key="PairFraction")


@check.scenario(800, 8000)
def uniformity(c):
    kind, t, night = history(c)
    n = len(t)
    T = [float(x) for x in t]
    seeing = c.choice([c.uniform(0.5, 2, n), c.rng.choice([0.5, 0.8, 1.0], n)])
    d = table(c, t, night, seeingFwhmGeom=seeing)
    v = run(c, M.TemplateExistsMetric(), d, "Template")
    w = sum(any(seeing[j] <= seeing[i] for j in range(i)) for i in range(n)) / n
    c.close(v, w, "Template", rtol=1e-12, key="Template")
    L = float(c.choice([10.0, 1.0, 12.3]))
    v = run(c, M.UniformityMetric(survey_length=L), d, "Uniformity")
    if n == 1:
        w = 1
    else:
        s = [(x - T[0]) / (L * 365.25) for x in T]
        w = max(abs((i + 1) / n - x - s[1]) for i, x in enumerate(s))
    c.close(v, w, "Uniformity", rtol=1e-7, atol=1e-7, key="Uniformity")
    # equally spaced visits over the survey are perfectly uniform
    k = c.randint(2, 60)
    e = np.zeros(k, dtype=[("observationStartMJD", float)])
    e["observationStartMJD"] = 61000 + np.arange(k) * L * 365.25 / k
    c.expect(abs(M.UniformityMetric(survey_length=L).run(e)) < 1e-6, "equal spacing is not uniform", "Uniformity")
    mode = c.choice(["none", "both", "min", "max"])
    lo = None if mode in ("none", "max") else T[0] - float(c.choice([0, 1, 100.0]))
    hi = None if mode in ("none", "min") else T[-1] + float(c.choice([0, 1, 100.0]))
    # the bounds are in absolute time, so only data-defined ones can shift
    v = run(c, M.GeneralUniformityMetric(min_value=lo, max_value=hi), d, "GenUniform", shift=mode == "none", tol=1e-7)
    a, b = (T[0] if lo is None else lo), (T[-1] if hi is None else hi)
    if n == 1 or a == b:
        w = 1
    else:
        w = max(abs(i / (n - 1) - (x - a) / (b - a)) for i, x in enumerate(T))
    c.close(v, w, "GenUniform", rtol=1e-6, atol=1e-6, key="GenUniform")
    if n > 1:
        e = np.zeros(k, dtype=[("x", float)])
        e["x"] = np.linspace(a, b, k) if a != b else 0
        if a != b:
            c.expect(abs(M.GeneralUniformityMetric(col="x", min_value=c.choice([None, a]), max_value=c.choice([None, b])).run(e[c.rng.permutation(k)])) < 1e-6, "evenly spread values are not uniform", "GenUniform")
    # Kuiper
    ang = c.choice([c.uniform(0, 360, n), np.full(n, c.uniform(0, 360)), c.uniform(-400, 800, n), np.arange(n) * 360.0 / n])
    e = np.zeros(n, dtype=[("x", float), ("zz", int)])
    e["x"] = ang
    v = M.KuiperMetric(col="x").run(e[c.rng.permutation(n)])
    s = sorted(float(x) % 360 for x in ang)
    w = max((i + 1) / n - x / 360 for i, x in enumerate(s)) + max(x / 360 - i / n for i, x in enumerate(s))
    c.close(v, w, "Kuiper", rtol=1e-9, atol=1e-9, key="Kuiper")
    rot = e.copy()
    rot["x"] = e["x"] + c.uniform(0, 360)
    c.close(M.KuiperMetric(col="x").run(rot), v, "Kuiper of rotated angles", rtol=1e-6, atol=1e-6, key="Kuiper")
    # phase coverage
    npd, pm = c.randint(1, 6), float(c.uniform(0.5, 5))
    px = pm + float(c.choice([0.0, 1.0, 20.0]))
    nm = c.choice([1, 3, 5])
    m = M.PhaseGapMetric(n_periods=npd, period_min=pm, period_max=px, n_visits_min=nm)
    v = run(c, m, d, "PhaseGap", shift=False)
    if n < nm:
        c.expect(v == m.badval, f"PhaseGap with {n} visits: {v}", "PhaseGap")
    else:
        per = [pm + (px - pm) * i / max(1, npd - 1) for i in range(npd)]
        gp = []
        for p in per:
            ph = sorted((x % p) / p for x in T)
            gp.append(max([b - a for a, b in zip(ph, ph[1:])] + [1 - ph[-1] + ph[0]]))
        c.expect(np.allclose(v["periods"], per, rtol=1e-9) and np.allclose(v["maxGaps"], gp, atol=1e-6), lambda: f"PhaseGap {v}, want {per} {gp}", "PhaseGap")
        c.close(m.reduce_mean_gap(v), mean(gp), "mean gap", rtol=1e-5, key="PhaseGap")
        c.close(m.reduce_median_gap(v), median(gp), "median gap", rtol=1e-5, key="PhaseGap")
        c.close(m.reduce_largest_gap(v), max(gp), "largest gap", rtol=1e-5, key="PhaseGap")
        wp = m.reduce_worst_period(v)
        c.expect(np.size(wp) == 1 and any(abs(wp - p) < 1e-9 and x > max(gp) - 1e-6 for p, x in zip(per, gp)), f"worst period {wp} of {per} {gp}", "PhaseGap")
    m5 = c.uniform(21, 25, n)
    d2 = table(c, t, night, fiveSigmaDepth=m5)
    P = float(c.uniform(0.3, 9))
    v = run(c, M.PeriodicQualityMetric(period=P, star_mag=20), d2, "PeriodicQuality", shift=False)
    from rubin_sim.maf.utils import m52snr
    snr = [float(m52snr(20, x)) for x in m5]
    W = sum(snr)
    cx = sum(s * math.cos(2 * math.pi * x / P) for s, x in zip(snr, T)) / W
    sx = sum(s * math.sin(2 * math.pi * x / P) for s, x in zip(snr, T)) / W
    phase = 1 - math.hypot(cx, sx)
    amp = min(math.sqrt(sum((s * math.sin(2 * math.pi * x / P + k * math.pi / 8)) ** 2 for s, x in zip(snr, T))) for k in range(8)) / math.sqrt(sum(s * s for s in snr))
    c.close(v, phase * amp, "PeriodicQuality", rtol=1e-5, atol=1e-6, key="PeriodicQuality")


@check.scenario(600, 6000)
def seasons(c):
    kind, t, night = history(c, start=c.choice([60800, 61000, 61500]))
    n = len(t)
    exp = c.choice([np.full(n, 30.0), c.rng.choice([5.0, 15.0, 18.0, 25.0, 30.0], n)])
    band, m5 = c.rng.choice(list("ugrizy"), n), c.uniform(21.5, 25, n)
    d = table(c, t, night, visitExposureTime=exp, band=band, fiveSigmaDepth=m5)
    ra = float(c.uniform(0, 2 * math.pi))
    sp = {"ra": ra, "dec": 0.0, "ebv": float(c.choice([0.0, 0.1, 1.0])), "sid": 0}
    bad = c.choice([-666, -5.0])

    def split(keep):
        out = {}
        for x, k, ok in zip(t, night, keep):
            if ok:
                out.setdefault(int(math.floor(float(np.squeeze(calc_season(math.degrees(ra), np.array([x])))))), []).append((float(x), int(k)))
        return [out[k] for k in sorted(out)]
    lim = float(c.choice([16, 0, 20.0, 29.0]))
    red = c.choice([(np.median, median), (np.max, max), (np.mean, mean)])
    S = split(exp > lim)
    v = run(c, M.SeasonLengthMetric(min_exp_time=lim, reduce_func=red[0], badval=bad), d, "SeasonLength", sp, shift=False)
    c.close(v, red[1]([s[-1][0] - s[0][0] for s in S]) if S else bad, "SeasonLength", rtol=1e-8, atol=1e-8, key="SeasonLength")
    v = run(c, M.CampaignLengthMetric(min_exp_time=lim, badval=bad), d, "CampaignLength", sp, shift=False)
    c.close(v, len(S) if S else bad, "CampaignLength", key="CampaignLength")

    def cadence(S):
        out = []
        for s in S:
            u = sorted(set(k for _, k in s))
            out.append(mean([b - a for a, b in zip(u, u[1:])]) if len(u) > 1 else 0.0)
        return mean(out)
    v = run(c, M.MeanCampaignFrequencyMetric(min_exp_time=lim, badval=bad), d, "CampaignFreq", sp, shift=False)
    c.close(v, cadence(S) if S else bad, "CampaignFreq", rtol=1e-8, atol=1e-8, key="CampaignFreq")
    cuts = c.choice([None, {b: float(x) for b, x in zip("ugrizy", c.uniform(21, 24, 6))}])
    C = cuts or dict(u=22.7, g=24.1, r=23.7, i=23.1, z=22.2, y=21.4)
    norm = c.choice([{}, dict(cad_norm=2.0, sea_norm=5.0, camp_norm=3.0)])
    m = M.TdcMetric(mag_cuts=cuts, **norm)
    v = run(c, m, d, "Tdc", sp, shift=False)
    ax = m.ax1
    S = split([x - ax[b] * sp["ebv"] > C[b] for x, b in zip(m5, band)])
    if not S:
        c.expect(v == -999, f"Tdc {v} without visits", "Tdc")
        return
    sea, camp, cad = median([s[-1][0] - s[0][0] for s in S]) / 30.0, len(S), cadence(S)
    if sea == 0 or cad == 0:
        c.expect(v == -999, f"Tdc {v}, season {sea} cadence {cad}", "Tdc")
        return
    cn, sn, pn = norm.get("cad_norm", 3.0), norm.get("sea_norm", 4.0), norm.get("camp_norm", 5.0)
    w = {"accuracy": 0.06 * (sn / sea) * (pn / camp) ** 1.1, "precision": 4.0 * (cad / cn) ** 0.7 * (sn / sea) ** 0.3 * (pn / camp) ** 0.6, "rate": 30 * (cn / cad) ** 0.4 * (sea / sn) ** 0.8 * (pn / camp) ** 0.2,
         "cadence (days)": cad, "season (months)": sea, "campaign": camp}
    if c.expect(isinstance(v, dict), f"Tdc {v}, want {w}", "Tdc"):
        for k in w:
            c.close(v[k], w[k], "Tdc " + k, rtol=1e-7, key="Tdc")
        for f, k in (("accuracy", "accuracy"), ("precision", "precision"), ("rate", "rate"), ("cadence", "cadence (days)"), ("season", "season (months)"), ("campaign", "campaign")):
            c.close(getattr(m, "reduce_" + f)(v), w[k], "Tdc reduce " + f, rtol=1e-7, key="Tdc")


@check.scenario(600, 6000)
def changes(c):
    """changes of state and observing efficiency"""
    kind, t, night = history(c)
    n = len(t)
    T = [float(x) for x in t]
    band = c.choice([c.rng.choice(list("gr"), n), np.repeat(c.rng.choice(list("ugrizy"), n), 3)[:n], np.full(n, "r")])
    exp = c.uniform(10, 40, n)
    d = table(c, t, night, band=band, visitExposureTime=exp, visitTime=exp + c.uniform(1, 9, n), slewTime=c.uniform(0, 90, n))
    ch = [T[i] for i in range(1, n) if band[i] != band[i - 1]]
    bad = c.choice([-666, -5.0])
    v = run(c, M.NChangesMetric(), d, "NChanges")
    c.expect(v == len(ch), f"NChanges {v}, want {len(ch)}", "NChanges")
    prev = [T[0]] + ch[:-1]
    dt = [a - b for a, b in zip(ch, prev)] if ch else []
    v = run(c, M.MinTimeBetweenStatesMetric(badval=bad), d, "MinTimeBetween")
    c.close(v, min(dt) * 1440 if dt else bad, "MinTimeBetween", rtol=1e-7, atol=1e-6, key="MinTimeBetween")
    cut = float(c.choice([20.0, 5.0, 60.0, 3000.0]))
    if not near(dt, cut * MIN):
        v = run(c, M.NStateChangesFasterThanMetric(cutoff=cut), d, "ChangesFaster")
        c.expect(v == sum(x < cut * MIN for x in dt), f"ChangesFaster {v}", "ChangesFaster")
    if not near([b - a for i, a in enumerate(ch) for b in ch[i:]], cut * MIN):
        v = run(c, M.MaxStateChangesWithinMetric(timespan=cut), d, "ChangesWithin")
        w = max([sum(a <= b <= a + cut * MIN for b in ch) for a in ch] or [0])
        c.expect(v == w, f"ChangesWithin {v}, want {w}", "ChangesWithin")
    v = run(c, M.OpenShutterFractionMetric(), d, "OpenShutter", shift=False)
    c.close(v, math.fsum(d["visitExposureTime"]) / math.fsum(list(d["slewTime"]) + list(d["visitTime"])), "OpenShutter", rtol=1e-9, key="OpenShutter")
    gap, fudge = float(c.choice([10.0, 60.0, 5000.0])), float(c.choice([0, 2.0]))
    g = [b - a for a, b in zip(T, T[1:])]
    if not near(g, gap * MIN) and any(x < gap * MIN for x in g):
        v = run(c, M.BruteOSFMetric(maxgap=gap, fudge=fudge), d, "BruteOSF", tol=1e-6)
        c.close(v, math.fsum(x + fudge for x in exp) / (math.fsum(x for x in g if x < gap * MIN) * 86400), "BruteOSF", rtol=1e-6, key="BruteOSF")


@check.scenario(600, 6000)
def groups(c):
    """visit groups and their reduced values"""
    kind, t, night = history(c)
    T = [float(x) for x in t]
    n = len(t)
    lo, hi = float(c.choice([15.0, 10.0, 1.0])) * MIN, float(c.choice([90.0, 60.0, 30.0])) * MIN
    nv, nn, win = c.choice([1, 2, 3]), c.choice([1, 2, 3]), c.choice([30, 5, 15, 40])
    d = table(c, t, night)
    m = M.VisitGroupsMetric(delta_t_min=lo, delta_t_max=hi, min_n_visits=nv, min_n_nights=nn, window=win)
    per = {}
    for x, k in zip(T, night):
        per.setdefault(int(k), []).append(x)
    gaps = [b - a for x in per.values() for a, b in zip(x, x[1:])]
    if near(gaps, lo, hi, eps=1e-7):
        return
    v = run(c, m, d, "VisitGroups")
    got = {} if not isinstance(v, dict) else {int(k): float(x) for k, x in zip(v["nights"], v["visits"])}
    c.expect(isinstance(v, dict) or v == m.badval, f"VisitGroups {v}", "VisitGroups")
    full = {}
    for k, x in per.items():
        g = [b - a for a, b in zip(x, x[1:])]
        good = [lo <= y <= hi for y in g]
        close = [y < lo for y in g]
        member = [(i > 0 and good[i - 1]) or (i < len(g) and good[i]) for i in range(len(x))]
        half = [not member[i] and ((i > 0 and close[i - 1]) or (i < len(g) and close[i])) for i in range(len(x))]
        if not any(member):
            c.expect(k not in got, f"night {k} with gaps {np.array(g) * 1440} minutes has {got.get(k)} visits, want none", "VisitGroups")
            continue
        full[k] = sum(member)
        if not c.expect(k in got, f"night {k} with gaps {np.array(g) * 1440} minutes is missing", "VisitGroups"):
            continue
        if not any(close):
            c.expect(got[k] == sum(member), f"night {k} with gaps {np.array(g) * 1440} minutes: {got[k]} visits, want {sum(member)}", "VisitGroups")
        else:
            c.expect(sum(member) <= got[k] <= len(x), f"night {k} with gaps {np.array(g) * 1440}: {got[k]} visits of {len(x)}", "VisitGroups")
            # one close pair at an end of the night, next to a good gap
            if sum(close) == 1 and len(g) >= 2 and ((close[0] and good[1]) or (close[-1] and good[-2])):
                c.expect(got[k] == sum(member) + 0.5 * sum(half), f"night {k} with gaps {np.array(g) * 1440}: {got[k]} visits, want {sum(member) + 0.5 * sum(half)}", "VisitGroups")
        c.obs("night", (len(x), sum(member)))
    if not isinstance(v, dict):
        return
    # the reduced values, from the values per night
    N = sorted(got)
    c.close(m.reduce_median(v), median([got[k] for k in N]), "median", key="Groups_median")
    ok = [k for k in N if got[k] >= nv]
    c.expect(m.reduce_n_nights_with_n_visits(v) == len(ok), "nights with visits", "Groups_nights")
    c.close(m.reduce_n_visits_in_window(v), max([sum(got[j] for j in ok if k <= j < k + win) for k in N] or [0]), "visits in window", key="Groups_window")
    c.expect(m.reduce_n_nights_in_window(v) == max([sum(1 for j in ok if k <= j < k + win) for k in N] or [0]), "nights in window", "Groups_window")
    lun = []
    s = N[0]
    while s <= N[-1]:
        inl = [k for k in ok if s <= k < s + 30]
        allk = [k for k in N if s <= k < s + 30]
        lun.append(any(sum(1 for j in inl if k <= j < k + win) >= nn for k in allk))
        s += 30
    c.expect(m.reduce_n_lunations(v) == sum(lun), f"lunations {m.reduce_n_lunations(v)}, want {sum(lun)}", "Groups_lunations")
    seq = max([sum(1 for _ in g) for k, g in groupby(lun) if k] or [0])
    c.expect(m.reduce_max_seq_lunations(v) == seq, lambda: f"sequential lunations {m.reduce_max_seq_lunations(v)}, want {seq} of {lun}; nights {got}, window {win}, {nv} visits, {nn} nights", "Groups_seq")
