"""C13: solar-system slicing, brightness stackers, metrics, bundles and summaries."""
import math
import os

import numpy as np
import pandas as pd
import rubin_sim.maf.metric_bundles as mb
import rubin_sim.maf.metrics as M
import rubin_sim.maf.slicers as S
import rubin_sim.maf.stackers as St
from rubin_sim.maf.db import ResultsDb

from vlib.h import Check, short

check = Check("C13", "random populations and observation tables (unsorted times, ties, objects with no, one or many observations, numeric and text ids, cloned or individual H) through the slicer, "
              "the brightness stackers, every moving-object metric, bundle groups mixing constraints and stackers, and the H summaries; each value compared with a loop over the object's own observations. "
              "Non-trivial: a compared value for an object with at least one visible observation.",
              assumptions=["nights increase with time", "the probabilistic visibility is judged where its probability is within 1e-9 of 0 or 1, and statistically elsewhere",
                           "the per-night spacing rule of DiscoveryMetric is judged where its first-to-last and consecutive-visit forms agree with 'some visits of the night span the required time'",
                           "the number of observations of a discovery track is last index minus first index (the convention the tests fix)",
                           "longitude coverage in LightcurveInversionAsteroidMetric is judged for longitudes that do not straddle 0"])

BANDS = "ugrizy"


def observations(c, nmax=60, nights=40, per_night=True):
    n = c.choice([1, 2, 3, c.randint(4, 20), c.randint(10, nmax)])
    dt = [("obj_id", int), ("night", int), ("observationStartMJD", float), ("band", "U1"), ("fiveSigmaDepth", float), ("magV", float), ("dmag_color", float), ("dmag_detect", float),
          ("dmag_trail", float), ("seeingFwhmGeom", float), ("visitExposureTime", float), ("velocity", float), ("SNR", float), ("vis", float), ("appMag", float), ("appMagV", float),
          ("ra", float), ("dec", float), ("ecLon", float), ("ec_lon", float), ("ec_lat", float), ("solar_elong", float), ("geo_dist", float), ("helio_dist", float), ("phase", float), ("Elongation", float), ("MJD(UTC)", float)]
    d = np.zeros(n, dtype=dt)
    base = c.choice([0, 0, 5, 300, 3600])
    span = c.choice([3, 10, nights, 400])
    d["night"] = base + np.sort(c.rng.integers(0, span, n))
    step = c.choice([1 / 1440.0, 5 / 1440.0, 10 / 1440.0, 0.02])
    off = c.choice([np.round(c.uniform(0, 0.12, n) / step) * step, c.uniform(0, 0.25, n), c.rng.permutation(n) * step % 0.4 + c.uniform(0, 1e-4, n)])
    d["observationStartMJD"] = 60000.1 + d["night"] + off
    d["band"] = c.rng.choice(list(c.choice(["gr", "ugrizy", "grizy", "griz"])), n)
    d["fiveSigmaDepth"] = c.uniform(22, 25, n)
    d["magV"] = c.uniform(17, 27, n)
    d["dmag_color"] = c.uniform(-1, 1, n)
    d["dmag_detect"] = c.uniform(0, 0.6, n)
    d["dmag_trail"] = c.uniform(0, 0.4, n)
    d["seeingFwhmGeom"] = c.uniform(0.5, 2, n)
    d["visitExposureTime"] = c.choice([30.0, 15.0])
    d["velocity"] = c.uniform(0.01, 8, n)
    d["SNR"] = c.choice([c.uniform(0, 30, n), np.round(c.uniform(0, 12, n)), c.uniform(5, 300, n)])
    d["vis"] = c.rng.random(n) < c.choice([1.0, 0.9, 0.6, 0.2])
    d["appMag"] = c.uniform(18, 25, n)
    d["appMagV"] = c.uniform(17, 25, n)
    d["ra"] = c.uniform(0, 360, n)
    d["dec"] = c.uniform(-80, 80, n)
    d["ecLon"] = c.choice([c.uniform(0, 360, n), c.uniform(20, 20 + c.uniform(5, 200), n)])
    d["ec_lon"] = c.uniform(0, 360, n)
    d["ec_lat"] = c.uniform(-30, 30, n)
    d["solar_elong"] = c.uniform(30, 180, n)
    d["geo_dist"] = c.uniform(0.1, 5, n)
    d["helio_dist"] = c.uniform(0.7, 6, n)
    d["phase"] = c.uniform(0, c.choice([4, 30, 150]), n)
    d["Elongation"] = c.uniform(60, 180, n)
    d["MJD(UTC)"] = c.uniform(50000, 62000, n)
    order = c.choice(["time", "shuffled", "reversed"])
    if order == "shuffled":
        d = d[c.rng.permutation(n)]
    elif order == "reversed":
        d = d[::-1].copy()
    return order, d


def visible(d, limit):
    if limit is None:
        return [i for i in range(len(d)) if d["vis"][i] > 0]
    return [i for i in range(len(d)) if d["SNR"][i] >= limit]


def by_night(d, idx):
    out = {}
    for i in idx:
        out.setdefault(int(d["night"][i]), []).append(i)
    return out


@check.scenario(1500, 8000)
def counts(c):
    """Count, arc, activity, velocity and color metrics for one object."""
    order, d = observations(c)
    limit = c.choice([None, None, 5, 7, 10])
    vis = visible(d, limit)
    orig = d.copy()
    orb = pd.Series(dict(obj_id="o", a=c.uniform(0.8, 30), q=1.0, e=0.1, H=20.0, meanAnomaly=c.uniform(0, 360), epoch=c.uniform(59000, 61000)))
    h = 20.0
    nights = by_night(d, vis)
    mjd = d["observationStartMJD"]
    got = dict(n=M.NObsMetric(snr_limit=limit).run(d, orb, h), nosing=M.NObsNoSinglesMetric(snr_limit=limit).run(d, orb, h),
               nn=M.NNightsMetric(snr_limit=limit).run(d, orb, h), arc=M.ObsArcMetric(snr_limit=limit).run(d, orb, h))
    c.obs("object", (order, len(d), len(vis), len(nights), limit is None))
    c.expect(got["n"] == len(vis), f"NObs {got['n']} want {len(vis)}", key="nobs")
    c.expect(got["nosing"] == sum(len(v) for v in nights.values() if len(v) > 1), f"NObsNoSingles {got['nosing']}", key="nosingles")
    c.expect(got["nn"] == len(nights), f"NNights {got['nn']} want {len(nights)}", key="nnights")
    c.close(got["arc"], max(mjd[vis]) - min(mjd[vis]) if vis else 0, "ObsArc", rtol=1e-12, key="arc")

    win = c.choice([5.0, 30.0, 91.25, 365.0])
    years = c.choice([1.0, 2.0, 10.0])
    act = M.ActivityOverTimeMetric(win, snr_limit=limit, survey_years=years).run(d, orb, h)
    nwin = int(round(years * 365 / win)) if abs(years * 365 / win - round(years * 365 / win)) < 1e-9 else None
    if nwin is not None:
        hit = set()
        for i in vis:
            w = int(math.floor(d["night"][i] / win))
            if d["night"][i] == nwin * win:
                w = nwin - 1
            if 0 <= w < nwin:
                hit.add(w)
        c.close(act, len(hit) / nwin if vis else 0, f"ActivityOverTime window={win} years={years}", rtol=1e-9, atol=1e-12, key="activity-time")

    bs = c.choice([10.0, 30.0, 45.0, 90.0, 180.0, 360.0])
    kind = c.choice(["a", "q", "neither"])
    o = dict(orb)
    a = o["a"]
    if kind == "q":
        del o["a"]
        o["e"] = c.uniform(0, 0.9)
        a = o["q"] / (1 - o["e"])
    elif kind == "neither":
        del o["a"], o["q"]
    tperi = c.choice([False, False, True])
    if tperi:
        del o["meanAnomaly"]
        o["tPeri"] = c.uniform(59000, 61000)
    act = M.ActivityOverPeriodMetric(bs, snr_limit=limit).run(d, pd.Series(o), h)
    period = a ** 1.5 * 365.25
    nb = int(round(360 / bs))
    late = None

    def frac(anoms):
        ok = all(min((x / bs) % 1, 1 - (x / bs) % 1) > 1e-7 for x in anoms)
        return ok, len({int(x // bs) for x in anoms}) / nb

    if kind == "neither" or not vis:
        c.expect(act == 0, f"ActivityOverPeriod {act} without usable orbit or observations", key="activity-period-none")
    elif tperi:
        ok, want = frac([(360 * (mjd[i] - o["tPeri"]) / period) % 360 for i in vis])
        ok2, wrong = frac([math.degrees(((mjd[i] - o["tPeri"]) / period) % (2 * math.pi)) for i in vis])
        if ok and ok2 and abs(act - want) > 1e-9:
            late = (f"ActivityOverPeriod with tPeri {act} want {want}", "activity-tperi" if abs(act - wrong) < 1e-9 else "activity-tperi-other")
    else:
        ok, want = frac([(o["meanAnomaly"] + 360 * (mjd[i] - o["epoch"]) / period) % 360 for i in vis])
        if ok:
            c.close(act, want, f"ActivityOverPeriod bin={bs} a={a}", rtol=1e-9, key="activity-period")

    nobs, tw = c.choice([2, 3, 6]), c.choice([1, 5, 15, 60])
    got = M.MagicDiscoveryMetric(n_obs=nobs, t_window=tw, snr_limit=limit).run(d, orb, h)
    want = sum(1 for n in nights if sum(len(v) for m, v in nights.items() if n <= m < n + tw) >= nobs) if len(vis) >= nobs else 0
    c.expect(got == want, f"MagicDiscovery {got} want {want} (n_obs={nobs}, window={tw}, nights={sorted(nights)[:20]})", key="magic")

    f = c.choice([1.0, 2.0, 0.5])
    fast = [i for i in vis if d["velocity"][i] >= 24 * f * d["seeingFwhmGeom"][i] / d["visitExposureTime"][i]]
    got = M.HighVelocityMetric(psf_factor=f, snr_limit=limit).run(d, orb, h)
    c.expect(got == len(fast), f"HighVelocity {got} want {len(fast)}", key="highvel")
    nper = c.choice([1, 2, 3])
    got = M.HighVelocityNightsMetric(psf_factor=f, n_obs_per_night=nper, snr_limit=limit).run(d, orb, h)
    g = [n for n, v in by_night(d, fast).items() if len(v) >= nper]
    want = min(mjd[i] for i in by_night(d, fast)[min(g)]) if g else 0
    c.close(got, want, "HighVelocityNights", rtol=0, atol=1e-9, key="highvel-nights")
    if fast:
        c.obs("fast", (len(fast), bool(g)))

    got = M.PeakVMagMetric().run(d, orb, h)
    c.expect(got == min(d["appMagV"]), f"PeakVMag {got}", key="peak")

    # color and lightcurve flags
    wd, sm = c.choice([0.5, 1, 2, 10]), c.choice([5, 20, 100])
    w = np.array([0.0 if (d["vis"][i] == 0 if limit is None else d["SNR"][i] <= limit) else min(d["SNR"][i], sm) for i in range(len(d))])
    tot = {b: sum(w[d["band"] == b]) / sm for b in BANDS}
    if not any(abs(t - wd) < 1e-9 for t in tot.values()):
        ok = {b for b in BANDS if tot[b] > wd}
        g5 = ok & set("grizy")
        if len(ok) == 6:
            want = 4
        elif len(g5) == 5:
            want = 3
        elif len(g5) == 4:
            want = 2
        elif "g" in ok and ok & set("ri") and ok & set("zy"):
            want = 1
        else:
            want = 0
        got = M.ColorAsteroidMetric(weight_det=wd, snr_max=sm, snr_limit=limit).run(d, orb, h)
        c.expect(got == want, f"ColorAsteroid {got} want {want} weights={tot}", key="color")
        c.obs("color", want)
        got = M.LightcurveInversionAsteroidMetric(weight_det=wd, snr_max=sm, snr_limit=limit).run(d, orb, h)
        want, judge = 0, True
        for b in BANDS:
            if tot[b] < wd:
                continue
            idx = [i for i in range(len(d)) if d["band"][i] == b and w[i] > 0]
            if not idx:
                continue
            lon = [float(d["ecLon"][i]) for i in idx]
            med = float(np.median(lon))
            cen = [(x - med) % 360 for x in lon]
            m = sum(cen) / len(cen)
            adev = sum(abs(x - m) for x in cen) / len(cen)
            dl = max(lon) - min(lon)
            dp = max(d["phase"][i] for i in idx) - min(d["phase"][i] for i in idx)
            if dl > 180:
                judge = False
            if dl >= 90 and adev >= dl / 8 and dp >= 5:
                want = 1
        if judge:
            c.expect(got == want, f"LightcurveInversion {got} want {want}", key="lcinv")
            c.obs("inversion", want)
    nr, ns = c.choice([1, 3, 8, 30]), c.choice([1, 2, 5, 20])
    got = M.LightcurveColorOuterMetric(snr_limit=limit, num_req=nr, num_sec_filt=ns).run(d, orb, h)
    nb = {b: sum(1 for i in vis if d["band"][i] == b) for b in BANDS}
    full = [b for b in BANDS if nb[b] >= nr]
    part = [b for b in BANDS if nb[b] >= ns and b not in full]
    want = 0 if not full else len(full) + (1 if part else 0)
    c.expect(got == want, f"LightcurveColorOuter {got} want {want} {nb} req={nr},{ns}", key="lcouter")

    sl, nh, npair = c.choice([5, 10]), c.choice([0.25, 0.5, 3.0, 24.0]), c.choice([1, 1, 1, 2, 3])
    b1, b2 = c.choice([("g", "r"), ("r", "g"), ("i", "z")])
    got = M.InstantaneousColorMetric(n_pairs=npair, snr_limit=sl, n_hours=nh, b_one=b1, b_two=b2).run(d, orb, h)
    t1 = [mjd[i] for i in range(len(d)) if d["SNR"][i] >= sl and d["band"][i] == b1]
    t2 = [mjd[i] for i in range(len(d)) if d["SNR"][i] >= sl and d["band"][i] == b2]
    dts = [abs(x - y) for x in t1 for y in t2]
    if not any(abs(x - nh / 24) < 1e-8 for x in dts):
        n1 = sum(1 for x in t1 if any(abs(x - y) < nh / 24 for y in t2))
        n2 = sum(1 for y in t2 if any(abs(x - y) < nh / 24 for x in t1))
        good = sum(1 for x in dts if x < nh / 24)
        if good < npair:
            c.expect(got == 0, f"InstantaneousColor {got} with {good} pairs of {npair}", key="instcolor")
        elif min(n1, n2) >= npair:
            c.expect(got == 1, f"InstantaneousColor {got} with {n1}/{n2} paired of {npair}", key="instcolor")
        c.obs("pair", (good > 0, got))

    known = M.KnownObjectsMetric(eff1=1.0, eff2=1.0, eff3=1.0, eff4=1.0, elong_thresh=c.choice([60, 100, 150]))
    got = known.run(d, orb, h)
    lim = [(-1e9, known.t_switch1, known.v_mag_thresh1), (known.t_switch1, known.t_switch2, known.v_mag_thresh2), (known.t_switch2, known.t_switch3, known.v_mag_thresh3), (known.t_switch3, 1e9, known.v_mag_thresh4)]
    times = [float(d["MJD(UTC)"][i]) for i in range(len(d)) if d["Elongation"][i] >= known.elong_thresh and any(lo <= d["MJD(UTC)"][i] < hi and d["appMagV"][i] <= m for lo, hi, m in lim)]
    c.expect(got == (min(times) if times else known.badval), f"KnownObjects {got} want {min(times) if times else 'never'}", key="known")
    got = M.KnownObjectsMetric(eff1=0, eff2=0, eff3=0, eff4=0).run(d, orb, h)
    c.expect(got == M.KnownObjectsMetric().badval, f"KnownObjects with efficiency 0 gave {got}", key="known-zero")
    c.expect(all(np.array_equal(d[k], orig[k]) for k in d.dtype.names), "a metric changed the observations", key="mutated")
    if late:
        c.expect(False, late[0], key=late[1])


def discovery_oracle(d, vis, nobs, tmin, tmax, nn, tw):
    """None = not judged; else (chances, start position, end position) among time-ordered visible."""
    v = sorted(vis, key=lambda i: d["observationStartMJD"][i])
    t = [float(d["observationStartMJD"][i]) for i in v]
    pos = {}
    for k, i in enumerate(v):
        pos.setdefault(int(d["night"][i]), []).append(k)
    good = []
    for night in sorted(pos):
        p = pos[night]
        if len(p) < nobs:
            continue
        spans = [t[b] - t[a] for x, a in enumerate(p) for b in p[x + nobs - 1:]]
        if any(abs(s - tmin) < 1e-9 or abs(s - tmax) < 1e-9 for s in spans):
            return None
        true = any(tmin <= s <= tmax for s in spans)
        whole = t[p[-1]] - t[p[0]]
        cons = [t[p[x + nobs - 1]] - t[p[x]] for x in range(len(p) - nobs + 1)]
        heur = tmin <= whole <= tmax or (whole > tmax and len(p) > nobs and any(tmin <= s <= tmax for s in cons))
        if true != heur:
            return None
        if true:
            good.append((night, p[0], p[-1]))
    chances = [k for k in range(len(good) - nn + 1) if good[k + nn - 1][0] - good[k][0] <= tw]
    if not chances:
        return 0, None, None
    k = chances[0]
    last = max(j for j in range(len(good)) if good[j][0] - good[k][0] <= tw)
    return len(chances), good[k][1], good[last][2]


@check.scenario(1500, 10000)
def discovery(c):
    """Discovery chances and the properties of the first discovery track."""
    order, d = observations(c, nmax=120, nights=c.choice([6, 15, 40]))
    if c.flip(0.6):
        d["observationStartMJD"] += c.uniform(0, 1e-3, len(d))
    limit = c.choice([None, 5, 7])
    nobs, nn, tw = c.choice([1, 2, 2, 3]), c.choice([1, 2, 3, 3, 4]), c.choice([1, 5, 15, 30])
    tmin, tmax = c.choice([(5 / 1440.0, 90 / 1440.0), (0.0, 90 / 1440.0), (10 / 1440.0, 0.2), (0.0, 0.5)])
    kw = dict(n_obs_per_night=nobs, t_min=tmin, t_max=tmax, n_nights_per_window=nn, t_window=tw, snr_limit=limit)
    m = M.DiscoveryMetric(**kw)
    vis = visible(d, limit)
    orb = pd.Series(dict(H=20.0))
    want = discovery_oracle(d, vis, nobs, tmin, tmax, nn, tw)
    got = m.run(d, orb, 20.0)
    if nobs == 1 and tmin > 0 or want is None:
        return
    n = 0 if got is None or got == m.badval else got["n_chances"]
    c.obs("discovery", (order, nobs, nn, tw, min(want[0], 5), limit is None))
    c.expect(n == want[0], f"{n} chances, want {want[0]} {kw} order={order}", key="chances")
    if n == 0 or n != want[0]:
        return
    v = sorted(vis, key=lambda i: d["observationStartMJD"][i])
    first = v[want[1]]
    ties = sum(1 for i in vis if d["observationStartMJD"][i] == d["observationStartMJD"][first]) > 1
    ch = m.child_metrics
    c.expect(ch["N_Chances"].run(d, orb, 20.0, got) == want[0], "N_Chances child", key="child-n")
    c.expect(ch["N_Obs"].run(d, orb, 20.0, got) == want[2] - want[1], f"N_Obs child {ch['N_Obs'].run(d, orb, 20.0, got)} want {want[2] - want[1]}", key="child-nobs")
    c.expect(ch["Time"].run(d, orb, 20.0, got) == d["observationStartMJD"][first], "Time child", key="child-time")
    ts = c.uniform(59000, 60000)
    c.close(M.DiscoveryTimeMetric(m, t_start=ts).run(d, orb, 20.0, got), d["observationStartMJD"][first] - ts, "Time child from a start", rtol=1e-12, key="child-time0")
    if not ties:
        c.expect(ch["Distance"].run(d, orb, 20.0, got) == d["geo_dist"][first], "Distance child", key="child-dist")
        c.expect(tuple(ch["RADec"].run(d, orb, 20.0, got)) == (d["ra"][first], d["dec"][first]), "RADec child", key="child-radec")
        c.expect(tuple(ch["EcLonLat"].run(d, orb, 20.0, got)) == (d["ec_lon"][first], d["ec_lat"][first], d["solar_elong"][first]), "EcLonLat child", key="child-ec")
        c.expect(M.DiscoveryVelocityMetric(m).run(d, orb, 20.0, got) == d["velocity"][first], "Velocity child", key="child-vel")


def population(c, cloned=None):
    nsso = c.choice([1, 2, 5, c.randint(3, 12)])
    numeric = c.flip()
    ids = [int(x) for x in c.rng.choice(10000, nsso, replace=False)] if numeric else [f"S{x:05d}a" for x in c.rng.choice(10000, nsso, replace=False)]
    orb = pd.DataFrame(dict(obj_id=ids, q=c.uniform(0.7, 5, nsso), e=c.uniform(0, 0.9, nsso), inc=c.uniform(0, 60, nsso), Omega=c.uniform(0, 360, nsso), argPeri=c.uniform(0, 360, nsso),
                            tPeri=c.uniform(59000, 61000, nsso), epoch=60000.0, H=np.round(c.uniform(15, 25, nsso), 3), g=0.15))
    scr = c.scratch
    of = os.path.join(scr, f"orb{c.index}.txt")
    orb.to_csv(of, sep=" ", index=False)
    rows = []
    counts_ = {}
    for k, i in enumerate(ids):
        if nsso > 1 and c.flip(0.15):
            counts_[i] = 0
            continue
        _, d = observations(c, nmax=25)
        rows.append((i, d))
        counts_[i] = len(d)
    if not rows:
        _, d = observations(c, nmax=25)
        rows.append((ids[0], d))
        counts_[ids[0]] = len(d)
    tot = sum(len(d) for _, d in rows)
    dt = [("obj_id", int if numeric else "U12"), ("uid", int), ("dradt", float), ("ddecdt", float)] + [(n, rows[0][1].dtype[n]) for n in rows[0][1].dtype.names if n not in ("obj_id", "velocity", "SNR", "vis", "appMag", "appMagV", "ecLon", "Elongation", "MJD(UTC)")]
    obs = np.zeros(tot, dtype=dt)
    k = 0
    for i, d in rows:
        s = slice(k, k + len(d))
        obs["obj_id"][s] = i
        for n in obs.dtype.names[4:]:
            obs[n][s] = d[n]
        k += len(d)
    obs["dradt"] = c.uniform(-1, 1, tot)
    obs["ddecdt"] = c.uniform(-1, 1, tot)
    # extra observations of an object that is not in the population, and a random order
    if c.flip(0.3):
        extra = obs[: max(1, tot // 4)].copy()
        extra["obj_id"] = 99999 if numeric else "other"
        obs = np.concatenate([obs, extra])
    if c.flip(0.7):
        obs = obs[c.rng.permutation(len(obs))]
    obs["uid"] = np.arange(len(obs))
    bf = os.path.join(scr, f"obs{c.index}.npz")
    np.savez(bf, object_observations=obs)
    if cloned is None:
        cloned = c.flip(0.6)
    hr = np.round(np.arange(c.uniform(14, 18), c.uniform(20, 26), c.choice([0.5, 1.0, 2.0])), 3) if cloned else None
    return ids, orb, obs, of, bf, hr


def snr_of(app, m5, gamma=0.038):
    x = 10 ** (0.5 * (app - m5))
    return 1 / math.sqrt((0.04 - gamma) * x + gamma * x * x)


@check.scenario(300, 2400)
def slicing(c):
    """Each object gets exactly its own observations; brightness columns follow from them."""
    ids, orb, obs, of, bf, hr = population(c)
    sl = S.MoObjSlicer(h_range=hr)
    sl.setup_slicer(of, obs_file=bf)
    cons = c.choice([None, "night < 20", "band == 'r'", "fiveSigmaDepth > 23.5 and night >= 3"])
    sl.subset_obs(cons)
    keep = {None: np.ones(len(obs), bool), "night < 20": obs["night"] < 20, "band == 'r'": obs["band"] == "r", "fiveSigmaDepth > 23.5 and night >= 3": (obs["fiveSigmaDepth"] > 23.5) & (obs["night"] >= 3)}[cons]
    seen = 0
    loss = c.choice(["dmag_detect", "dmag_trail"])
    gamma, sigma = c.choice([0.038, 0.037]), c.choice([0.12, 0.05])
    st = St.MoMagStacker(loss_col=loss, gamma=gamma, sigma=sigma, random_seed=c.choice([None, 42]))
    nvis = exp = var = 0.0
    for k, sp in enumerate(sl):
        i = ids[k]
        mine = [int(j) for j in range(len(obs)) if keep[j] and obs["obj_id"][j] == i]
        got = [int(u) for u in sp["obs"]["uid"]]
        c.expect(got == mine, f"object {i}: rows {short(got)} want {short(mine)}", key="own-rows")
        c.expect(str(sp["orbit"]["obj_id"]) == str(i) and abs(sp["orbit"]["H"] - orb["H"][k]) < 1e-9, f"orbit of object {k}", key="orbit")
        c.expect(np.allclose(sp["Hvals"], hr if hr is not None else [orb["H"][k]]), f"H values {sp['Hvals']}", key="hvals")
        if mine:
            c.expect(np.allclose(sp["obs"]["velocity"], np.hypot(obs["dradt"][mine], obs["ddecdt"][mine])), "velocity", key="velocity")
        c.expect([int(u) for u in sl[k]["obs"]["uid"]] == mine, "indexing differs from iteration", key="getitem")
        seen += 1
        if not mine or got != mine:
            continue
        d = sp["obs"]
        href = float(sp["orbit"]["H"])
        for H in list(sp["Hvals"])[:4]:
            d = st.run(d, href, float(H))
            app = obs["magV"][mine] + obs["dmag_color"][mine] + obs[loss][mine] + H - href
            c.close(d["appMag"], app, "appMag", rtol=0, atol=1e-9, key="appmag")
            c.close(d["SNR"], [snr_of(a, m, gamma) for a, m in zip(app, obs["fiveSigmaDepth"][mine])], "SNR", rtol=1e-9, key="snr")
            z = (app - obs["fiveSigmaDepth"][mine]) / sigma
            for v, x in zip(d["vis"], z):
                if abs(x) > 21:
                    c.expect(v == (1 if x < 0 else 0), f"vis {v} at {x} sigma from the limit", key="vis")
                p = 1 / (1 + math.exp(min(max(x, -700), 700)))
                nvis, exp, var = nvis + v, exp + p, var + p * (1 - p)
            c.obs("clone", (k, float(H) == href, cons, loss))
        c.expect([int(u) for u in d["uid"]] == mine, "stacker reordered rows", key="stack-rows")
    c.expect(seen == len(ids), f"{seen} objects of {len(ids)}", key="nobjects")
    c.expect(abs(nvis - exp) <= 6 * math.sqrt(var) + 1e-6, f"{nvis} visible, expected {exp:.1f} +- {math.sqrt(var):.1f}", key="vis-rate")


@check.scenario(900, 6000)
def comet_ecliptic(c):
    """Comet brightness and ecliptic coordinates."""
    _, d = observations(c)
    href, H = c.uniform(10, 20), c.uniform(10, 20)
    kind = c.choice(["short", "oort", "mbc"])
    k, const = dict(short=(-4, 100), oort=(-2, 1000), mbc=(-6, 4000))[kind]
    st = St.CometAppMagStacker(comet_type=kind if c.flip() else dict(k=k, Afrho1_const=const), seeing_col="seeingFwhmGeom")
    got = st.run(d.copy(), href, H)
    again = St.CometAppMagStacker(comet_type=kind, seeing_col="seeingFwhmGeom").run(d.copy(), href, H)
    c.expect(np.array_equal(got["appMag"], again["appMag"]), "comet type given by name and by values differ", key="comet-type")
    nuc = d["magV"] + d["dmag_color"] + d["dmag_detect"] + H - href
    c.expect(np.all(got["appMag"] <= nuc + 1e-9), "coma made the object fainter", key="comet-brighter")
    coma = 10 ** (-0.4 * got["appMag"]) - 10 ** (-0.4 * nuc)
    # the coma flux scales as radius^2 (10^(-0.4 H)), r^(k-2), seeing/delta; only where it dominates
    dom = coma > 1e-2 * 10 ** (-0.4 * nuc)
    if dom.any():
        c.obs("coma", (kind, int(dom.sum())))
        shape = coma[dom] / (d["helio_dist"][dom] ** (k - 2) * d["seeingFwhmGeom"][dom] / d["geo_dist"][dom])
        # phase and band dependence removed pairwise
        idx = np.where(dom)[0]
        d2 = d.copy()
        f1, f2, f3 = c.uniform(0.5, 2), c.uniform(0.5, 2), c.uniform(0.5, 2)
        d2["helio_dist"] *= f1
        d2["geo_dist"] *= f2
        d2["seeingFwhmGeom"] *= f3
        g2 = st.run(d2, href, H)
        coma2 = 10 ** (-0.4 * g2["appMag"]) - 10 ** (-0.4 * nuc)
        c.close(coma2[idx] / coma[idx], np.full(len(idx), f1 ** (k - 2) * f3 / f2), "coma scaling with distance and seeing", rtol=1e-6, key="coma-scale")
        dh = c.uniform(-2, 0)
        g3 = st.run(d.copy(), href + dh, H + dh)
        coma3 = 10 ** (-0.4 * g3["appMag"]) - 10 ** (-0.4 * nuc)
        c.close(coma3[idx] / coma[idx], np.full(len(idx), 10 ** (-0.4 * dh)), "coma scaling with H", rtol=1e-6, key="coma-h")
        del shape
    e = St.EclStacker().run(d.copy(), href, H)
    inc = math.radians(23.439291)
    for i in range(len(d)):
        ra, dec = math.radians(d["ra"][i]), math.radians(d["dec"][i])
        lat = math.asin(math.sin(dec) * math.cos(inc) - math.cos(dec) * math.sin(inc) * math.sin(ra))
        lon = math.atan2(math.sin(ra) * math.cos(inc) + math.tan(dec) * math.sin(inc), math.cos(ra)) % (2 * math.pi)
        c.expect(abs(e["ecLat"][i] - math.degrees(lat)) < 1e-8, f"ecLat {e['ecLat'][i]} want {math.degrees(lat)}", key="eclat")
        dl = (e["ecLon"][i] - math.degrees(lon) + 180) % 360 - 180
        c.expect(abs(dl) < 1e-7 and 0 <= e["ecLon"][i] <= 360, f"ecLon {e['ecLon'][i]} want {math.degrees(lon)}", key="eclon")
    rad = d.copy()
    rad["ra"], rad["dec"] = np.radians(d["ra"]), np.radians(d["dec"])
    e2 = St.EclStacker(in_deg=False).run(rad, href, H)
    c.close(e2["ecLat"], e["ecLat"], "ecliptic from radians", rtol=0, atol=1e-9, key="ecl-rad")
    c.obs("ecliptic", len(d))


@check.scenario(150, 1500)
def bundles(c):
    """Whole runs: several bundles with different constraints and stackers, in one group."""
    ids, orb, obs, of, bf, hr = population(c)
    sl = S.MoObjSlicer(h_range=hr)
    sl.setup_slicer(of, obs_file=bf)
    nb = c.randint(1, 5)
    spec = []
    for _ in range(nb):
        cons = c.choice([None, None, "night < 20", "band == 'r'"])
        loss = c.choice(["dmag_detect", "dmag_trail"])
        lim = c.choice([3, 5, 8])
        kind = c.choice(["nobs", "nights", "arc", "disc", "peak"])
        spec.append((cons, loss, lim, kind))
    bd = {}
    summ = [M.MoCompletenessMetric(threshold=c.choice([1, 2]), hindex=c.choice([0.33, 0.2, 0.5])), M.MoCompletenessMetric(threshold=1, cumulative=False)]
    for k, (cons, loss, lim, kind) in enumerate(spec):
        dm = M.DiscoveryMetric(n_obs_per_night=1, t_min=0, t_max=1, n_nights_per_window=2, t_window=15, snr_limit=lim)
        met = dict(nobs=M.NObsMetric(snr_limit=lim), nights=M.NNightsMetric(snr_limit=lim), arc=M.ObsArcMetric(snr_limit=lim), disc=dm, peak=M.ObsArcMetric(snr_limit=lim, badval=-1))[kind]
        bd[k] = mb.MoMetricBundle(met, sl, constraint=cons, stacker_list=[St.MoMagStacker(loss_col=loss)], run_name="r", info_label=f"b{k}",
                                  child_metrics={n: dm.child_metrics[n] for n in ("N_Chances", "Time")} if kind == "disc" and hr is not None else None, display_dict={"group": f"g{k}"}, summary_metrics=[summ[0], summ[1]] if kind in ("nobs", "nights", "disc") and hr is not None else None)
    if c.flip(0.3):
        auto = mb.MoMetricBundle(M.NObsMetric(), sl, constraint="night < 20")
        other = mb.MoMetricBundle(M.NObsMetric(), sl, constraint="night < 30")
        c.expect("night < 20" in auto.info_label and auto.file_root != other.file_root, f"label {auto.info_label!r} does not tell the constraint", key="auto-label")
        s2 = S.MoObjSlicer(h_range=np.arange(3.0, 9.0))
        s2.setup_slicer(of, obs_file=bf)
        s3 = S.MoObjSlicer(h_range=hr)
        s3.setup_slicer(of, obs_file=bf)
        c.expect(not (s2 == sl) and s3 == sl and not (sl == 3), "equality of slicers", key="slicer-eq")
        c.raises(ValueError, lambda: mb.MoMetricBundleGroup({0: auto, 1: mb.MoMetricBundle(M.NObsMetric(), s2)}, out_dir=c.scratch), "bundles with different slicers in a group", key="group-slicers")
    out = os.path.join(c.scratch, f"out{c.index}")
    rdb = ResultsDb(out_dir=out)
    grp = mb.MoMetricBundleGroup(bd, out_dir=out, results_db=rdb)
    grp.run_all()
    keep = {None: np.ones(len(obs), bool), "night < 20": obs["night"] < 20, "band == 'r'": obs["band"] == "r"}
    for k, (cons, loss, lim, kind) in enumerate(spec):
        b = bd[k]
        vals = b.metric_values
        want_counts = np.zeros(vals.shape)
        for i, oid in enumerate(ids):
            mine = np.where(keep[cons] & (obs["obj_id"] == oid))[0]
            hs = hr if hr is not None else [orb["H"][i]]
            for j, H in enumerate(hs):
                app = obs["magV"][mine] + obs["dmag_color"][mine] + obs[loss][mine] + H - orb["H"][i]
                snr = np.array([snr_of(a, m) for a, m in zip(app, obs["fiveSigmaDepth"][mine])])
                if np.any(np.abs(snr - lim) < 1e-9):
                    continue
                v = mine[snr >= lim]
                where = f"bundle {k} {kind} object {oid} H={H} constraint={cons} loss={loss} snr>={lim} of {nb} bundles"
                if len(mine) == 0:
                    want = None
                elif kind == "nobs":
                    want = len(v) or None
                elif kind == "nights":
                    want = len(set(obs["night"][v])) or None
                elif kind in ("arc", "peak"):
                    want = float(np.ptp(obs["observationStartMJD"][v])) if len(v) else 0.0
                    if want == 0 and kind == "arc":
                        want = None
                else:
                    r = discovery_oracle(obs, list(v), 1, 0, 1, 2, 15)
                    if r is None:
                        continue
                    want = r if r[0] > 0 else None
                masked = bool(np.ma.getmaskarray(vals)[i][j])
                c.obs("value", (kind, cons, len(spec), masked, hr is not None))
                if kind == "disc":
                    cm = b.child_bundles["N_Chances"].metric_values
                    ct = b.child_bundles["Time"].metric_values
                    if want is None:
                        c.expect(bool(np.ma.getmaskarray(cm)[i][j]), f"{where}: chances {cm[i][j]} want none", key="bundle-child-mask")
                        c.expect(bool(np.ma.getmaskarray(ct)[i][j]), f"{where}: time {ct[i][j]} want none", key="bundle-child-mask")
                    else:
                        c.expect(not masked and cm[i][j] == want[0], f"{where}: chances {cm[i][j]} want {want[0]}", key="bundle-chances")
                        tt = np.sort(obs["observationStartMJD"][v])[want[1]]
                        c.expect(ct[i][j] == tt, f"{where}: time {ct[i][j]} want {tt}", key="bundle-time")
                elif want is None:
                    c.expect(masked, f"{where}: {vals[i][j]} want masked", key="bundle-mask")
                else:
                    c.expect(not masked and abs(float(vals[i][j]) - want) < 1e-9, f"{where}: {vals[i][j]} want {want}", key="bundle-value")
                    want_counts[i][j] = want
        for cn, cb in b.child_bundles.items():
            c.same((cb.constraint, cb.run_name, cb.info_label, cb.slicer is b.slicer, cb.display_dict.get("group")), (cons, "r", f"b{k}", True, f"g{k}"), f"child {cn} of bundle {k}", key="child-meta")
            for s in summ if hr is not None and kind == "disc" else ():
                got = np.ma.filled(cb.metric_values, 0)
                fr = [(np.array(got[:, j], float) >= s.threshold).sum() / len(ids) for j in range(len(hr))]
                c.close(cb.summary_values[s.name]["value"], completeness(fr, hr, s.hindex) if s.cumulative else fr, f"summary {s.name} of child {cn}", rtol=1e-9, atol=1e-12, key="child-summary")
        c.same(b.display_dict.get("group"), f"g{k}", "display group", key="display")
        if b.summary_metrics and hr is not None:
            c.expect(bool(b.summary_values), "no summary values", key="summary-missing")
            for s in summ:
                sv = b.summary_values.get(s.name)
                if sv is None:
                    c.expect(False, f"summary {s.name} missing: {list(b.summary_values)}", key="summary-missing")
                    continue
                got = np.ma.filled(b.metric_values, 0)
                fr = [(np.array(got[:, j], float) >= s.threshold).sum() / len(ids) for j in range(len(hr))]
                want = completeness(fr, hr, s.hindex) if s.cumulative else fr
                c.close(sv["value"], want, f"summary {s.name}", rtol=1e-9, atol=1e-12, key="summary")
                rows = rdb.get_metric_id(b.metric.name)
                c.expect(len(rows) > 0, "metric not recorded", key="rdb")


def completeness(fr, hv, hindex):
    step = np.append(np.diff(hv), np.diff(hv)[-1])
    w = [10 ** (hindex * (h - hv[0])) * s for h, s in zip(hv, step)]
    out, a, b = [], 0.0, 0.0
    for f, x in zip(fr, w):
        a, b = a + f * x, b + x
        out.append(a / b)
    return out


@check.scenario(900, 6000)
def summaries(c):
    """Completeness, value-at-H, population totals."""
    n, nh = c.randint(1, 30), c.randint(2, 12)
    hv = np.round(np.linspace(c.uniform(12, 16), c.uniform(20, 28), nh), 3)
    vals = np.ma.array(c.rng.integers(0, 6, (n, nh)).astype(float) if c.flip() else c.uniform(0, 5, (n, nh)), mask=c.rng.random((n, nh)) < c.choice([0, 0.2, 0.8]), fill_value=c.choice([0, -999, 1e20]))
    orig, omask = vals.data.copy(), np.ma.getmaskarray(vals).copy()
    thr, hi = c.choice([1, 2, 0.5, 3]), c.choice([0.33, 0.2, 0.5])
    fr = [sum(1 for i in range(n) if not omask[i, j] and orig[i, j] >= thr) / n for j in range(nh)]
    diff = M.MoCompletenessMetric(threshold=thr, cumulative=False).run(vals, hv)
    hk = {} if c.flip(0.3) else {"hindex": hi}
    hi = hk.get("hindex", 0.33)
    cum = M.MoCompletenessMetric(threshold=thr, cumulative=True, **hk).run(vals, hv)
    c.obs("completeness", (n, nh, round(max(fr), 1)))
    c.close(diff["value"], fr, "differential completeness", rtol=1e-12, key="diff")
    c.close(cum["value"], completeness(fr, hv, hi), f"cumulative completeness hindex={hi}", rtol=1e-9, key="cum")
    c.expect(np.all(cum["value"] <= max(fr) + 1e-12) and np.all(cum["value"] >= min(fr) - 1e-12), "cumulative completeness outside the differential range", key="cum-range")
    c.expect(M.MoCompletenessMetric(metric_name="DifferentialX").cumulative is False and M.MoCompletenessMetric().cumulative is True, "default kind of completeness", key="kind")
    # own H values
    own = np.sort(c.uniform(15, 15 + c.choice([0.4, 0.9, 3, 9]), n)) if c.flip() else c.uniform(15, 22, n)
    if n > 1:
        col = vals[:, :1]
        nbins, mr = c.choice([1, 5, 20]), c.choice([1.0, 2.0])
        m = M.MoCompletenessMetric(threshold=thr, nbins=nbins, min_hrange=mr, cumulative=False)
        got = m.run(col, pd.Series(own) if c.flip() else own)
        lo, up = min(own), max(own)
        if up - lo < mr:
            lo, up = (lo + up) / 2 - mr / 2, (lo + up) / 2 + mr / 2
        edges = np.linspace(lo, up, nbins + 1)
        inner = [o for o in own if min(abs(edges[1:-1] - o), default=1) > 1e-9]
        if len(inner) == n and len(got) == nbins:
            for b in range(nbins):
                inb = [i for i in range(n) if edges[b] - 1e-9 <= own[i] <= edges[b + 1] + 1e-9]
                f = sum(1 for i in inb if not omask[i, 0] and orig[i, 0] >= thr) / len(inb) if inb else 0
                c.expect(abs(got["value"][b] - f) < 1e-12, f"completeness of objects with their own H, bin {b}: {got['value'][b]} want {f}", key="own-h")
        else:
            c.expect(len(got) == nbins, f"{len(got)} bins of {nbins}", key="own-h-bins")
    # completeness at a time
    times = np.sort(c.uniform(0, 5, c.randint(2, 8)))
    hval = c.choice([None, float(hv[c.randint(0, nh - 1)]), c.uniform(12, 28)])
    cumu = c.choice([True, False])
    if hval is not None and len(np.where(np.abs(np.abs(hv - hval) - np.abs(hv - hval).min()) < 1e-9)[0]) > 1:
        hval = float(hv[0])
    got = M.MoCompletenessAtTimeMetric(times, hval=hval, cumulative=cumu, **hk).run(vals, hv)
    hidx = nh // 2 if hval is None else int(np.argmin(np.abs(hv - hval)))
    for k, t in enumerate(times):
        f = [sum(1 for i in range(n) if not omask[i, j] and times[0] <= orig[i, j] and (orig[i, j] < t or (orig[i, j] == t and k == len(times) - 1))) / n for j in range(nh)]
        if k == 0:
            f = [0.0] * nh
        want = completeness(f, hv, hi)[hidx] if cumu else f[hidx]
        c.expect(abs(got["value"][k] - want) < 1e-9, f"completeness at time {t} ({'cumulative' if cumu else 'differential'}, H={hval}): {got['value'][k]} want {want}", key="at-time")
    # single values
    mark = c.uniform(10, 30)
    got = M.ValueAtHMetric(h_mark=mark).run(vals[:1], hv)
    if hv[0] <= mark <= hv[-1]:
        if not omask[0].any():
            j = min(int(np.searchsorted(hv, mark, "right")) - 1, nh - 2)
            want = orig[0, j] + (orig[0, j + 1] - orig[0, j]) * (mark - hv[j]) / (hv[j + 1] - hv[j])
            c.close(got, want, "ValueAtH", rtol=1e-9, key="value-at-h")
    else:
        c.expect(got is None, f"ValueAtH outside the range gave {got}", key="value-outside")
    func, ref = c.choice([(np.mean, lambda x: sum(x) / len(x)), (np.median, lambda x: float(np.median(x))), (np.max, max)])
    got = M.MeanValueAtHMetric(h_mark=mark, reduce_func=func).run(vals, hv)
    if hv[0] <= mark <= hv[-1]:
        red = [ref([orig[i, j] for i in range(n) if not omask[i, j]]) if not omask[:, j].all() else 0.0 for j in range(nh)]
        j = min(int(np.searchsorted(hv, mark, "right")) - 1, nh - 2)
        want = red[j] + (red[j + 1] - red[j]) * (mark - hv[j]) / (hv[j + 1] - hv[j])
        c.close(got, want, f"MeanValueAtH {func.__name__}", rtol=1e-9, atol=1e-12, key="mean-at-h")
    else:
        c.expect(got is None, f"MeanValueAtH outside gave {got}", key="value-outside")
    # totals
    name = c.choice(["power", "neo_granvik", "neo_grav", "pha_granvik", "pha_grav"])
    step = np.append(np.diff(hv), np.diff(hv)[-1]) / 0.1
    fn, want = dict(power=(M.power_law_dndh, 1.0 * 10 ** (0.33 * (hv - hv[0])) * step), neo_granvik=(M.neo_dndh_granvik, (150 * 10 ** (0.3 * (hv - 18.5)) + 2500 * 10 ** (0.92 * (hv - 23.2))) * step),
                    neo_grav=(M.neo_dndh_grav, 110 * 10 ** (0.35 * (hv - 18.5)) * step), pha_granvik=(M.pha_dndh_granvik, (20 * 10 ** (0.3 * (hv - 18.5)) + 500 * 10 ** (0.92 * (hv - 23.2))) * step),
                    pha_grav=(M.pha_dndh_grav, 23.5 * 10 ** (0.35 * (hv - 18.5)) * step))[name]
    c.close(fn(hv), want, f"dN/dH {name}", rtol=1e-9, key="dndh")
    fr = np.array(fr)
    c.close(M.sum_over_h(fr, hv, fn), np.cumsum(fr * want), "sum over H", rtol=1e-9, atol=1e-12, key="sum-h")
    c.close(M.integrate_over_h(fr, hv, fn), np.cumsum(fr * want) / np.cumsum(want), "integral over H", rtol=1e-9, atol=1e-12, key="int-h")
    if name != "power":
        k = c.randint(0, nh - 1)
        got = M.TotalNumberSSO(h_mark=float(hv[k]), dndh_func=fn).run(fr, hv)
        c.close(got, float(np.cumsum(fr * want)[k]), "total number", rtol=1e-9, atol=1e-12, key="total")
    c.expect(np.array_equal(vals.data, orig) and np.array_equal(np.ma.getmaskarray(vals), omask), "a summary changed the values", key="mutated")
