"""C16: Chebyshev ephemerides."""
import math
import os

import numpy as np
import pandas as pd

from vlib.h import Check
from vlib import fakeoorb

fakeoorb.install()
os.environ.setdefault("OORB_DATA", "/nonexistent")
from rubin_sim.moving_objects import ChebyFits, ChebyValues, Orbits  # noqa: E402
from rubin_sim.moving_objects import chebyshev_utils as U  # noqa: E402

check = Check(
    "C16",
    "random smooth sky motions (fast and slow, across RA 0, near the poles, with diurnal wobble, with stretches that cannot be fitted) are fitted, evaluated, written, appended and read; "
    "every evaluated position is compared with the motion itself, coverage and reported residuals with the segments",
    assumptions=["the integrator is a stand-in with the same packing; its positions are the truth",
                 "between the fitted points 1.5 times the tolerance is allowed (least squares is checked at its nodes exactly)",
                 "identifiers without whitespace", "with n_decimal=0, spans the starting length divides"],
    nproc=4,
    budget=(200, 720),
)


@check.scenario(2500, 12000)
def utilities(c):
    n = c.randint(1, 20)
    p = c.rng.normal(size=n)
    a = c.choice([-1.0, 0.0, 59853.25, c.uniform(-50, 50)])
    b = a + (2.0 if a == -1 else c.uniform(0.01, 50))
    x = c.uniform(a - 0.2 * (b - a), b + 0.2 * (b - a), 12)
    xs = (2 * x - a - b) / (b - a)
    y = np.polynomial.chebyshev.chebval(xs, p)
    v = np.polynomial.chebyshev.chebval(xs, np.polynomial.chebyshev.chebder(p)) * 2 / (b - a) if n > 1 else 0 * xs
    tol = 1e-8 * (1 + np.abs(p).sum()) * n * n * 5
    c.obs("eval", (n, round(a), round(math.log10(b - a))))
    for mask in (False, True):
        out = (x < a) | (x > b)
        g, gv = U.chebeval(x, p, interval=(a, b), do_velocity=True, mask=mask)
        g0, none = U.chebeval(x, p, interval=(a, b), do_velocity=False, mask=mask)
        c.expect(none is None, "a rate was returned unasked", key="eval-rate")
        for got in (g, g0):
            if mask:
                c.expect(np.all(np.isnan(got[out])) and not np.any(np.isnan(got[~out])), "masking beyond the interval", key="eval-mask")
            ok = ~out if mask else np.ones(len(x), bool)
            c.close(got[ok], y[ok], "series value", rtol=0, atol=tol * 20, key="eval")
        if mask:
            c.expect(np.all(np.isnan(gv[out])), "rate beyond the interval", key="eval-mask")
            gv = gv[~out]
        c.close(gv, v[~out] if mask else v, "series rate", rtol=0, atol=tol * 200 * 2 / (b - a) * n, key="eval-vel")
        s, sv = U.chebeval(float(x[0]), p, interval=(a, b), mask=False)
        c.close(s, y[0], "scalar", rtol=0, atol=tol * 20, key="eval")
    c.raises(RuntimeError, lambda: U.chebeval(x, p, interval=[a, b, 1]), "interval of three", key="eval-interval")
    # fitting
    npts = c.randint(8, 70)
    npoly = c.randint(4, min(14, npts - 1))
    t = np.linspace(a, b, npts)
    use_v = c.flip()
    kind = c.choice(["poly", "sin", "exp"])
    z = (t - a) / (b - a)
    if kind == "poly":
        q = c.rng.normal(size=c.randint(1, npoly))
        f = np.polynomial.chebyshev.chebval(2 * z - 1, q)
        df = (np.polynomial.chebyshev.chebval(2 * z - 1, np.polynomial.chebyshev.chebder(q)) * 2 / (b - a)) if len(q) > 1 else 0 * z
    elif kind == "sin":
        w, ph = c.uniform(0.5, 6), c.uniform(0, 6)
        f, df = np.sin(w * z + ph), w * np.cos(w * z + ph) / (b - a)
    else:
        f, df = np.exp(z), np.exp(z) / (b - a)
    f0, df0 = f.copy(), df.copy()
    mults = {}
    if c.flip():
        if use_v:
            mx, mv = U.make_cheb_matrix(npts, npoly)
            mults = dict(x_multiplier=mx, dx_multiplier=mv)
        else:
            mults = dict(x_multiplier=U.make_cheb_matrix_only_x(npts, npoly))
        if c.flip(0.2):
            mults = {k: m[:, :-1] for k, m in mults.items()}
    cf, res, rms, mx_ = U.chebfit(t, f, dxdt=df if use_v else None, n_poly=npoly, **mults)
    sc = np.abs(f).max() + 1e-3
    c.obs("fit", (kind, use_v, npts, npoly, bool(mults)))
    c.expect(len(cf) == npoly and np.array_equal(f, f0) and np.array_equal(df, df0), "fit changed its input or size", key="fit-input")
    ev, dv = U.chebeval(t - t[0], cf, interval=(0, t[-1] - t[0]))
    c.close(res, f - ev, "residuals", rtol=0, atol=1e-9 * sc, key="fit-resid")
    c.close(rms, math.sqrt(float((res**2).sum()) / (npts - 1)), "rms", rtol=1e-9, atol=1e-14, key="fit-rms")
    c.close(mx_, np.abs(res).max(), "largest residual", rtol=1e-9, atol=1e-15, key="fit-max")
    c.close(ev[[0, -1]], f[[0, -1]], "end points", rtol=0, atol=1e-7 * sc, key="fit-ends")
    if use_v:
        c.close(dv[[0, -1]] * (b - a), df[[0, -1]] * (b - a), "end rates", rtol=0, atol=1e-5 * (np.abs(df).max() * (b - a) + sc), key="fit-end-rates")
    if kind == "poly":
        c.close(ev, f, "fit of a polynomial it contains", rtol=0, atol=1e-6 * sc, key="fit-exact")
    else:
        c.expect(np.abs(res).max() <= 40 * (6.0 ** npoly) / 2 ** (npoly - 1) / math.factorial(npoly) / 2**npoly + 1e-7, f"fit residual {np.abs(res).max()}", key="fit-quality")
    c.raises((ValueError, RuntimeError), lambda: U.chebfit(t, f[:-1], n_poly=npoly), "lengths differ", key="fit-lengths")
    c.raises(RuntimeError, lambda: U.chebfit(t, f, n_poly=npts + 1), "too many terms", key="fit-terms")


def population(c, n):
    ids = c.choice([np.arange(n) + c.randint(0, 50), np.array([f"S{c.randint(100, 999)}_{i}" for i in range(n)])])
    if c.flip():
        ids = ids[::-1]
    rows = []
    for i in range(n):
        rows.append(dict(
            obj_id=ids[i],
            a=c.choice([0.05, 0.5, 3.0, 40.0, 10 ** c.uniform(-1.3, 1.5)]),
            e=c.choice([0.0, 0.0, 0.002, c.uniform(0, 0.01)]),
            inc=c.choice([0.0, 5.0, 89.0, 120.0, c.uniform(0, 85)]),
            Omega=c.choice([0.0, 359.9, 180.0, c.uniform(0, 360)]),
            argPeri=c.choice([0.0, 359.5, c.uniform(0, 360)]),
            meanAnomaly=c.uniform(0, 360), epoch=59000.0 + c.uniform(-30, 30), H=c.uniform(10, 25), g=0.15))
    return pd.DataFrame(rows)


def packed(df):
    out = []
    for r in df.to_dict("records"):
        out.append(np.array([0, r["a"], r["e"], math.radians(r["inc"]), math.radians(r["Omega"]), math.radians(r["argPeri"]), math.radians(r["meanAnomaly"]), 3, r["epoch"], 3, r["H"], r["g"]]))
    return dict(zip(df["obj_id"], out))


def sep_mas(ra1, dec1, ra2, dec2):
    d = (np.asarray(ra1) - ra2 + 180) % 360 - 180
    return np.hypot(d * np.cos(np.radians(dec2)), np.asarray(dec1) - dec2) * 3.6e6


def fit(c, df, thorough_span=False, **over):
    orb = Orbits()
    orb.set_orbits(df.copy())
    ngran, ncoeff = c.choice([(64, 14), (64, 14), (40, 10), (128, 14)])
    nd = c.choice([10, 10, 13, 6, 4, 0])
    if nd in (4, 6) and (df['a'].min() < 0.5 or ((df['inc'] > 80) & (df['inc'] < 100)).any() or (df['e'] > 0).any()):
        nd = 10  # fast objects need fine time steps (documented)
    t0 = 59000 + c.choice([0.0, 0.3, round(c.uniform(0, 30), min(nd, 6))])
    span = c.choice([2.0, 4.0, 8.0, 5.0, 1.0, round(c.uniform(0.5, 9), min(nd, 6))])
    if nd == 0:
        span = c.choice([2.0, 4.0, 8.0])
    kw = dict(sky_tolerance=c.choice([2.5, 2.5, 0.5, 20.0, 500.0]), ngran=ngran, n_coeff_position=ncoeff, n_decimal=nd, eph_file="x",
              n_coeff_vmag=c.choice([9, 7]), n_coeff_delta=c.choice([5, 6]), n_coeff_elongation=c.choice([6, 5]), time_scale=c.choice(["TAI", "UTC", "TT", "tai"]))
    if c.flip(0.3):
        kw["obscode"] = c.choice(["I11", "500", "807"])
    if nd == 0:
        kw["sky_tolerance"] = 2.5
    kw.update(over)
    # positions depend on the scale the times are in (a constant offset in days)
    fakeoorb.shift["scale"] = c.choice([0.0, 0.0, 0.01, -0.003])
    fakeoorb.shift["code"] = c.choice([0.0, 0.2])
    return ChebyFits(orb, t0, span, **kw)


def truth(f, row, t):
    return fakeoorb.truth(fakeoorb.seen(row, f.obscode, 'N'), np.asarray(t) + fakeoorb.shift["scale"] * ({"UTC": 1, "UT1": 2, "TT": 3, "TAI": 4}[f.time_scale.upper()] - 4))


def judge_fit(c, f, rows, failed_ok=False):
    """coverage, residuals and positions of a finished fit; returns {obj: [(start, end)]}"""
    co, rs = f.coeffs, f.resids
    c.expect(list(co["obj_id"]) == list(rs["obj_id"]) and list(co["t_start"]) == list(rs["t_start"]) and list(co["t_end"]) == list(rs["t_end"]), "residual table does not match the coefficients", key="resid-rows")
    c.expect(len({len(v) for v in co.values()}) == 1 and len({len(v) for v in rs.values()}) == 1, "columns of different length", key="columns")
    eps = 1e-9 if f.n_decimal == 0 else max(2e-8, 10.0 ** (1 - f.n_decimal))
    end_eps = max(2e-8, 10.0 ** (1 - f.n_decimal)) if f.n_decimal else 1e-9  # lengths are rounded to n_decimal places
    cover = {}
    for o in rows:
        segs = sorted((co["t_start"][i], co["t_end"][i]) for i in range(len(co["obj_id"])) if co["obj_id"][i] == o)
        bad = sorted((x[1], x[2]) for x in f.failed if x[0] == o)
        if bad:
            c.obs("failed", (o, len(bad)))
        for x in f.failed:
            c.expect(np.isscalar(x[0]) and x[0] in rows, f"failed list names {x[0]!r}", key="failed-id")
        allseg = sorted(segs + bad)
        c.expect(allseg, f"object {o} has neither segment nor failure", key="coverage")
        c.expect(abs(allseg[0][0] - f.t_start) <= eps and abs(allseg[-1][1] - f.t_end) <= end_eps, f"object {o} covers {allseg[0][0]}-{allseg[-1][1]}, not {f.t_start}-{f.t_end}", key="coverage")
        for (s0, e0), (s1, e1) in zip(allseg[:-1], allseg[1:]):
            c.expect(abs(s1 - e0) <= eps, f"object {o}: segment ends {e0!r}, next starts {s1!r}", key="contiguous")
        cover[o] = segs
    for i in range(len(co["obj_id"])):
        o, s, e = co["obj_id"][i], co["t_start"][i], co["t_end"][i]
        t = np.linspace(s, e, f.ngran + 1)
        tr = truth(f, rows[o], t)
        ra, _ = U.chebeval(t - s, co["ra"][i], interval=(0, e - s), do_velocity=False)
        dec, _ = U.chebeval(t - s, co["dec"][i], interval=(0, e - s), do_velocity=False)
        m = sep_mas(ra, dec, tr["ra"], tr["dec"]).max()
        c.close(rs["pos"][i], m, f"reported position residual of {o}", rtol=0.02, atol=0.02, key="resid-pos")
        c.expect(rs["pos"][i] <= f.sky_tolerance, f"segment of {o} kept with residual {rs['pos'][i]} above the tolerance", key="tolerance")
        for k, tk in (("geo_dist", "geo_dist"), ("vmag", "magV"), ("elongation", "solarelon")):
            y, _ = U.chebeval(t - s, co[k][i], interval=(0, e - s), do_velocity=False)
            m = np.abs(y - tr[tk]).max()
            c.close(rs[k][i], m, f"reported {k} residual", rtol=1e-3, atol=1e-9, key="resid-" + k)
            c.close(y[[0, -1]], tr[tk][[0, -1]], f"{k} at the ends", rtol=0, atol=1e-6, key="ends-" + k)
    c.obs("segments", (len(rows), len(co["obj_id"]), f.n_decimal, f.ngran))
    return cover


def judge_values(c, v, f, rows, cover, times, obj_ids=None, extrapolate=False, slack=1.0):
    arg = obj_ids.copy() if isinstance(obj_ids, (list, np.ndarray)) else obj_ids
    tarr = times.copy() if isinstance(times, np.ndarray) else times
    out = v.get_ephemerides(times, obj_ids=obj_ids, extrapolate=extrapolate)
    if isinstance(obj_ids, (list, np.ndarray)):
        c.expect(list(arg) == list(obj_ids), "the requested ids were changed", key="ids-changed")
    if isinstance(times, np.ndarray):
        c.expect(np.array_equal(tarr, times), "the requested times were changed", key="times-changed")
    want_ids = set(cover_ids(cover)) if obj_ids is None else set([obj_ids] if isinstance(obj_ids, (str, int)) else list(obj_ids))
    c.expect(sorted(map(str, out["obj_id"])) == sorted(map(str, want_ids)), f"rows for {list(out['obj_id'])}, wanted {sorted(map(str, want_ids))}", key="rows")
    tt = np.atleast_1d(np.asarray(times, float))
    nin = 0
    for i, o in enumerate(out["obj_id"]):
        c.expect(np.array_equal(out["time"][i], tt), "times of a row", key="row-times")
        tr = truth(f, rows[o], tt)
        lo, hi = cover[o][0][0], cover[o][-1][1]
        for j, t in enumerate(tt):
            seg = [(s, e) for s, e in cover[o] if s <= t <= e]
            near = any(abs(t - x) < 1e-8 for se in cover[o] for x in se)
            if not seg:
                if near:
                    continue
                if extrapolate and (t < lo or t > hi):
                    c.expect(np.isfinite(out["ra"][i][j]), "no extrapolated value", key="extrapolate")
                    continue
                for k in v.ephemeris_keys:
                    c.expect(np.isnan(out[k][i][j]), f"object {o} at {t} outside its coverage has {k}={out[k][i][j]}", key="uncovered")
                nin += 1
                continue
            tol = f.sky_tolerance * 1.5 * slack + 0.05
            d = sep_mas(out["ra"][i][j], out["dec"][i][j], tr["ra"][j], tr["dec"][j])
            c.expect(d <= tol, f"object {o} at {t}: {d} mas from the true position (tolerance {f.sky_tolerance})", key="position")
            ln = min(e - s for s, e in seg)
            rt = f.n_coeff["position"] ** 2 * 2 / ln * tol / 3.6e6 * 2 + 1e-6
            if not near:
                c.close(out["dradt"][i][j], tr["dradt"][j], f"RA rate of {o}", rtol=1e-3, atol=rt, key="rates")
                c.close(out["ddecdt"][i][j], tr["ddecdt"][j], f"Dec rate of {o}", rtol=1e-3, atol=rt, key="rates")
            for k, tk in (("geo_dist", "geo_dist"), ("vmag", "magV"), ("elongation", "solarelon")):
                r = max([f.resids[k][q] for q in range(len(f.resids["obj_id"])) if f.resids["obj_id"][q] == o] or [0])
                c.close(out[k][i][j], tr[tk][j], f"{k} of {o}", rtol=2e-7, atol=2 * r + 1e-5, key="value-" + k)
            nin += 1
    c.obs("evaluated", (len(out["obj_id"]), len(tt), extrapolate), n=nin)
    return out


def cover_ids(cover):
    return [o for o, s in cover.items() if s]


def shuffled(c, v):
    w = ChebyValues()
    p = c.rng.permutation(len(v.coeffs["obj_id"]))
    w.coeffs = {k: a[p] for k, a in v.coeffs.items()}
    return w


def make(c, **over):
    n = c.randint(1, 4)
    df = population(c, n)
    if over.pop("gaps", False):
        for i in range(n):
            if c.flip(0.5):
                df.loc[i, "H"] = 95.0
                df.loc[i, "epoch"] = 59000.0 + c.uniform(-5, 5)
    rows = packed(df)
    f = fit(c, df, **over)
    given = c.choice([None, None, 2.0, 0.5, 1.0])
    if f.n_decimal == 0 and given is not None:
        given = 2.0
    try:
        f.calc_segment_length(length=given)
    except ValueError:
        c.obs("no-length", (n, f.n_decimal))
        c.expect(sorted(map(str, (x[0] for x in f.failed))) == sorted(map(str, rows)), "a span without suitable length is not listed as failed for every object", key="failed-span")
        return None
    c.expect(abs(round(f.t_span / f.length) * f.length - f.t_span) <= max(1e-6, 10.0 ** (1 - f.n_decimal) * 1.01), f"length {f.length} does not divide {f.t_span}", key="length")
    f.calc_segments()
    cover = judge_fit(c, f, rows)
    if not cover_ids(cover):
        return None
    rows = {o: rows[o] for o in rows}
    return f, rows, cover


def ask(c, f, rows, cover, v, slack=1.0):
    times = np.concatenate([c.uniform(f.t_start, f.t_end, 10), [f.t_start, f.t_end], c.uniform(f.t_start - 3, f.t_end + 3, 4)])
    times = c.rng.permutation(times)
    ids = cover_ids(cover)
    judge_values(c, v, f, rows, cover, times, slack=slack)
    sub = [ids[i] for i in c.rng.permutation(len(ids))[: c.randint(1, len(ids))]]
    req = c.choice([list(sub), np.array(sub), sub[0] if isinstance(sub[0], str) else int(sub[0])])
    judge_values(c, v, f, rows, cover, times, obj_ids=req, slack=slack)
    judge_values(c, v, f, rows, cover, float(times[0]), slack=slack)
    judge_values(c, v, f, rows, cover, times, extrapolate=True, slack=slack)
    judge_values(c, shuffled(c, v), f, rows, cover, times, slack=slack)
    unknown = "nobody" if isinstance(ids[0], str) else -77
    c.raises(ValueError, lambda: v.get_ephemerides(times, obj_ids=np.array(sub + [unknown])), "unknown object accepted", key="unknown-id")
    c.raises(ValueError, lambda: v.get_ephemerides(times, obj_ids=np.array([unknown] + sub)), "unknown object accepted", key="unknown-id")


@check.scenario(600, 4000)
def fits(c):
    r = make(c)
    if r is None:
        return
    f, rows, cover = r
    before = {k: list(x) for k, x in f.coeffs.items()}
    v = ChebyValues()
    v.set_coefficients(f)
    c.expect(set(f.coeffs) == set(before) and all(isinstance(f.coeffs[k], list) and len(f.coeffs[k]) == len(before[k]) for k in before), "the fit object was changed", key="fit-kept")
    ask(c, f, rows, cover, v)
    # permuted objects give the same segments
    k = c.rng.integers(len(rows))
    bad = type("X", (), {})()
    bad.coeffs = {a: b for a, b in f.coeffs.items() if a != "vmag"}
    c.raises(ValueError, lambda: ChebyValues().set_coefficients(bad), "missing coefficients accepted", key="missing-key")


@check.scenario(300, 2500)
def gaps(c):
    r = make(c, gaps=True)
    if r is None:
        return
    f, rows, cover = r
    v = ChebyValues()
    v.set_coefficients(f)
    ask(c, f, rows, cover, v)


@check.scenario(300, 2500)
def files(c):
    d = c.scratch
    n1 = dict(n_coeff_vmag=9, n_coeff_delta=5, n_coeff_elongation=6, ngran=64, n_coeff_position=14, sky_tolerance=2.5, n_decimal=10)
    r = make(c, gaps=c.flip(0.3), **n1)
    if r is None:
        return
    f, rows, cover = r
    names = [os.path.join(d, x) for x in ("co", "re", "fa")]
    f.write(*names, append=c.flip())
    v = ChebyValues()
    v.read_coefficients(names[0])
    mem = ChebyValues()
    mem.set_coefficients(f)

    def same(v, mem):
        c.expect(list(v.coeffs["obj_id"]) == list(mem.coeffs["obj_id"]), "ids changed by writing", key="file-ids")
        for k in mem.coeffs:
            if k != "obj_id":
                c.close(np.asarray(v.coeffs[k], float), mem.coeffs[k], f"{k} after writing and reading", rtol=2e-7, atol=1e-9, key="file-values")
    same(v, mem)
    c.obs("file", (len(v.coeffs["obj_id"]),))
    ask(c, f, rows, cover, v)
    re = pd.read_csv(names[1], sep=r"\s+")
    c.expect(len(re) == len(f.resids["obj_id"]), "residual rows", key="file-resid")
    for a, b in (("pos", "pos"), ("geo_dist", "geo_dist"), ("vmag", "vmag"), ("elong", "elongation"), ("t_start", "t_start")):
        c.close(re[a].values, np.array(f.resids[b], float), f"written residual {a}", rtol=1e-9, atol=1e-12, key="file-resid")
    if f.failed:
        lines = open(names[2]).read().splitlines()
        c.expect(len(lines) == len(f.failed), f"{len(lines)} lines for {len(f.failed)} failures", key="file-failed")
        for l, x in zip(lines, f.failed):
            c.expect(l.split()[0] == str(x[0]), "failed object", key="file-failed")
    # append a second population
    df = population(c, c.randint(1, 2))
    df["obj_id"] = [f"T{i}" for i in range(len(df))] if isinstance(list(rows)[0], str) else np.arange(len(df)) + 500
    g = fit(c, df, **n1)
    try:
        g.calc_segment_length()
    except ValueError:
        return
    g.calc_segments()
    g.write(*names, append=True)
    v2 = ChebyValues()
    v2.read_coefficients(names[0])
    both = type("X", (), {})()
    both.coeffs = {k: list(f.coeffs[k]) + list(g.coeffs[k]) for k in f.coeffs}
    m2 = ChebyValues()
    m2.set_coefficients(both)
    same(v2, m2)
    c.expect(len(pd.read_csv(names[1], sep=r"\s+")) == len(f.resids["obj_id"]) + len(g.resids["obj_id"]), "appended residuals", key="file-append")
    c.raises(IOError, lambda: ChebyValues().read_coefficients(os.path.join(d, "absent")), "absent file", key="file-absent")
    g.write(*names)
    v3 = ChebyValues()
    v3.read_coefficients(names[0])
    c.expect(len(v3.coeffs["obj_id"]) == len(g.coeffs["obj_id"]), "overwriting kept old rows", key="file-overwrite")
