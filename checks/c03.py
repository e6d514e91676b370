"""C03: a metric's values do not depend on what else runs with it."""
import copy
import os
import sqlite3
import tempfile
import warnings

import numpy as np
import pandas as pd
import rubin_sim.maf.metrics as metrics
import rubin_sim.maf.slicers as slicers
from rubin_sim.maf.maps import BaseMap
from rubin_sim.maf.metric_bundles import MetricBundle, MetricBundleGroup
from rubin_sim.maf.metrics import BaseMetric
from rubin_sim.maf.stackers import BaseStacker

from vlib import synth
from vlib.h import Check, short

check = Check("C03", "random collections of bundles (metric x slicer x constraint x stackers x maps, shared or separate slicer objects) run in one group, in memory or from a "
              "sqlite file; every bundle's values, mask and reduced values are compared with a direct evaluation of that bundle alone on a fresh copy of its visits. "
              "Non-trivial: a group with at least two bundles that has a slice with visits.",
              assumptions=["metrics treat the visits of a slice as a set (none of the harness metrics depends on row order)",
                           "the visits a slicer delivers are judged by C01/C02; here a fresh slicer of the same settings serves as oracle"])
SCR = os.environ.get("VERIF_SCRATCH", "/tmp")
BAND = np.array(list("ugrizy"))


def setup():
    synth.fov_map(os.path.join(SCR, "data", "utils", "fov_map.npz"))


check.setup_fn = setup

# ---- harness stackers / maps / metrics; each value is a pure function of the row (or of the slice)


class VScale(BaseStacker):
    cols_added = ["v_sc"]

    def __init__(self, factor=2.0, src="a"):
        self.cols_req = [src]
        self.units = [""]
        self.factor, self.src = factor, src

    def _run(self, d, cols_present=False):
        d["v_sc"] = d[self.src] * self.factor
        return d


class VShift(BaseStacker):
    """adds the same column as VScale, another way, and a second one"""
    cols_added = ["v_sc", "v_sh"]

    def __init__(self, off=1.0):
        self.cols_req = ["a", "b"]
        self.units = ["", ""]
        self.off = off

    def _run(self, d, cols_present=False):
        d["v_sc"] = d["a"] + self.off
        d["v_sh"] = d["b"] + self.off
        return d


class VOther(BaseStacker):
    cols_added = ["v_ot"]

    def __init__(self, power=2):
        self.cols_req = ["b"]
        self.units = [""]
        self.power = power

    def _run(self, d, cols_present=False):
        d["v_ot"] = np.abs(d["b"]) ** self.power
        return d


class VOver(BaseStacker):
    """replaces a column that is in the visit table"""
    cols_added = ["a"]

    def __init__(self, add=100.0):
        self.cols_req = ["b"]
        self.units = [""]
        self.add = add

    def _run(self, d, cols_present=False):
        d["a"] = d["b"] + self.add
        return d


class VTag(BaseMap):
    def __init__(self, factor=1.0):
        self.keynames = ["v_tag"]
        self.factor = factor

    def run(self, slice_points):
        slice_points["v_tag"] = np.asarray(slice_points["sid"]) * self.factor + 0.5
        return slice_points


class VTag2(BaseMap):
    def __init__(self, factor=1.0):
        self.keynames = ["v_tag2"]
        self.factor = factor

    def run(self, slice_points):
        slice_points["v_tag2"] = np.asarray(slice_points["ra"]) * self.factor
        return slice_points


class VStat(BaseMetric):
    """order-independent exact function of the visits and of the slice point"""

    def __init__(self, cols, extra=(), kind="sum", sid=0.0, tags=(), badmod=0, **kw):
        self.extra, self.kind, self.sid, self.tags, self.badmod = extra, kind, sid, tags, badmod
        self.cc = list(cols)
        super().__init__(col=list(cols) + list(extra), units="u", **kw)

    def value(self, d, sp):
        v = 0.0
        for c in self.cc + list(self.extra):
            x = np.sort(np.asarray(d[c], float))
            v += {"sum": np.sum(x), "max": x[-1], "med": np.median(x), "n": len(x)}[self.kind]
        if self.sid:
            v += self.sid * float(np.ravel(sp["sid"])[0])
        for t in self.tags:
            v += float(np.ravel(sp[t])[0])
        return v

    def run(self, data_slice, slice_point=None):
        if self.badmod and len(data_slice) % self.badmod == 0:
            return self.badval
        return self.value(data_slice, slice_point)


class VVec(VStat):
    def __init__(self, *a, shape=3, **kw):
        super().__init__(*a, **kw)
        self.shape = shape

    def run(self, data_slice, slice_point=None):
        v = self.value(data_slice, slice_point) + np.arange(self.shape)
        if self.badmod and len(data_slice) % self.badmod == 0:
            v[len(data_slice) % self.shape] = self.badval
        return v


class VObj(VStat):
    """complex value with reduce functions; one of them can give the bad value"""

    def run(self, data_slice, slice_point=None):
        if self.badmod and len(data_slice) % self.badmod == 0:
            return self.badval
        v = self.value(data_slice, slice_point)
        return {"v": v, "n": len(data_slice)}

    def reduce_val(self, x):
        return x["v"]

    def reduce_num(self, x):
        return x["n"] if x["n"] != 2 else self.badval


# ---- random specifications

def visits(c):
    n = c.choice([1, 3, 20, 80, 200])
    _, ra, dec = synth.radec(c, n)
    d = np.zeros(n, dtype=[("fieldRA", "f8"), ("fieldDec", "f8"), ("rotSkyPos", "f8"), ("a", "f8"), ("b", "f8"),
                           ("k", "i8"), ("night", "i8"), ("observationStartMJD", "f8"), ("filter", "U1"),
                           ("ra2", "f8"), ("dec2", "f8"), ("rot2", "f8")])
    d["fieldRA"], d["fieldDec"] = ra, dec
    d["ra2"], d["dec2"], d["rot2"] = (ra + c.uniform(0, 8, n)) % 360, np.clip(dec + c.uniform(-6, 6, n), -90, 90), c.uniform(0, 360, n)
    d["rotSkyPos"] = c.uniform(0, 360, n)
    # multiples of 1/8: every sum is exact in any order
    d["a"] = c.rng.integers(-400, 400, n) / 8.0
    d["b"] = c.rng.integers(0, 80, n) / 8.0
    d["k"] = c.rng.integers(0, 6, n)
    d["night"] = np.sort(c.rng.integers(1, 30, n))
    d["observationStartMJD"] = 60000.0 + d["night"] + c.rng.integers(0, 64, n) / 256.0
    d["filter"] = BAND[c.rng.integers(0, 6, n)]
    return d


def slicer_specs(c, d):
    cam = {} if c.flip(0.7) else dict(use_camera=True)
    if not cam:
        cam = dict(use_camera=False, radius=c.choice([1.75, 5.0, 25.0]))
    npts = c.randint(1, 12)
    i = c.rng.integers(0, len(d), npts)
    pra = (d["fieldRA"][i] + c.rng.normal(0, 1.0, npts)) % 360
    pdec = np.clip(d["fieldDec"][i] + c.rng.normal(0, 1.0, npts), -90, 90)
    lo, hi = float(d["a"].min()) - 1, float(d["a"].max()) + 1
    nb = c.randint(1, 6)
    return [
        ("UniSlicer", {}),
        ("OneDSlicer", dict(slice_col_name="a", bins=np.linspace(lo, hi, nb + 1))),
        ("OneDSlicer", dict(slice_col_name="b", bins=np.arange(-1, 12, 2.5))),
        ("OneDSlicer", dict(slice_col_name="night", bins=np.arange(0, 40, 10.0))),
        ("NDSlicer", dict(slice_col_list=["a", "k"], bins_list=[np.linspace(lo, hi, 3), np.arange(-0.5, 7, 3)])),
        ("HealpixSlicer", dict(nside=c.choice([1, 2, 4]), verbose=False, use_cache=True, **cam)),
        ("HealpixSlicer", dict(nside=c.choice([1, 2, 4]), verbose=False, use_cache=False, **cam)),
        ("HealpixSubsetSlicer", dict(nside=2, hpid=np.unique(c.rng.integers(0, 48, 20)), verbose=False, use_cache=c.flip(), **cam)),
        ("UserPointsSlicer", dict(ra=pra, dec=pdec, verbose=False, **cam)),
        ("TimeIntervalSlicer", dict(interval_seconds=86400 * 5)),
    ]


def twin(c, spec):
    """the same slicer but for one thing"""
    name, kw = spec[0], copy.deepcopy(spec[1])
    if name == "OneDSlicer":
        if c.flip(0.7):
            kw["slice_col_name"] = c.choice([x for x in ("a", "b", "k", "night") if x != kw["slice_col_name"]])
        else:
            kw["bins"] = kw["bins"] + c.choice([0.0, 0.5]) * (np.arange(len(kw["bins"])) == c.randint(0, len(kw["bins"]) - 1))
    elif name == "NDSlicer":
        if c.flip(0.7):
            kw["slice_col_list"] = c.choice([["b", "k"], ["a", "night"], ["k", "a"]])
        else:
            kw["bins_list"][c.randint(0, 1)][1] += 0.5
    elif name == "TimeIntervalSlicer":
        kw["interval_seconds"] = 86400 * c.choice([4, 6])
    elif name in SPATIAL:
        opts = ["lon", "lat", "lonlat"] + (["rot", "radius", "camera"] if kw.get("use_camera") else ["radius", "camera"])
        opts += dict(HealpixSlicer=["nside", "cache"], HealpixSubsetSlicer=["hpid", "cache"], UserPointsSlicer=["ra", "dec"])[name]
        o = c.choice(opts)
        if "lon" in o:
            kw["lon_col"] = "ra2"
        if "lat" in o:
            kw["lat_col"] = "dec2"
        if o == "rot":
            kw["rot_sky_pos_col_name"] = "rot2"
        if o == "radius":
            kw["radius"] = c.choice([2.0, 8.0])
        if o == "camera":
            kw["use_camera"] = not kw["use_camera"]
        if o == "nside":
            kw["nside"] = 8 if kw["nside"] != 8 else 4
        if o == "cache":
            kw["use_cache"] = not kw["use_cache"]
        if o == "hpid":
            kw["hpid"] = (kw["hpid"] + 1) % 48 if c.flip() else kw["hpid"][:-1] if len(kw["hpid"]) > 1 else np.array([0])
            kw["hpid"] = np.unique(kw["hpid"])
        if o in ("ra", "dec"):
            kw[o] = np.array(kw[o], dtype=float)
            kw[o][c.randint(0, len(kw[o]) - 1)] *= 0.9
        return (name, kw)
    return (name, kw)


SPATIAL = ("HealpixSlicer", "HealpixSubsetSlicer", "UserPointsSlicer")


def make_slicer(spec):
    return getattr(slicers, spec[0])(**copy.deepcopy(spec[1]))


def make_stackers(sp):
    return [dict(VScale=VScale, VShift=VShift, VOther=VOther, VOver=VOver)[n](**kw) for n, kw in sp]


def make_maps(sp):
    return [dict(VTag=VTag, VTag2=VTag2)[n](**kw) for n, kw in sp]


def bundle_spec(c, i, pool, constraints, custom=True):
    s = c.choice(pool)
    st, extra = [], []
    if custom and c.flip(0.6):
        which = c.choice(["scale", "shift", "other", "over", "scale+other", "over+scale"])
        if "over" in which:
            st.append(("VOver", dict(add=c.choice([100.0, 200.0]))))
        if "scale" in which:
            st.append(("VScale", dict(factor=c.choice([2.0, 3.0, np.float64(2.0), np.float64(5.0), np.array([4.0]), np.array([7.0])]), src=c.choice(["a", "b"]))))
            extra.append("v_sc")
        if "shift" in which:
            st.append(("VShift", dict(off=c.choice([1.0, 2.0]))))
            extra += ["v_sc", "v_sh"]
        if "other" in which:
            st.append(("VOther", dict(power=c.choice([1, 2]))))
            extra.append("v_ot")
    maps, tags = [], []
    cached = s[1].get("use_cache", False)
    if custom and s[0] in SPATIAL and not cached and c.flip(0.4):
        m = c.choice(["VTag", "VTag2"])
        maps.append((m, dict(factor=c.choice([1.0, 2.0]))))
        tags.append(dict(VTag="v_tag", VTag2="v_tag2")[m])
    cols = c.choice([["a"], ["b"], ["a", "b"], ["k"]])
    kw = dict(kind=c.choice(["sum", "max", "med", "n"]), badmod=c.choice([0, 0, 2, 3]), tags=tuple(tags),
              sid=0.0 if cached else c.choice([0.0, 1.0]))
    if c.flip(0.3):
        kw["badval"] = c.choice([-1.5, -999])
    kind = c.choice(["stat", "stat", "vec", "obj", "obj"])
    if s[0] in ("NDSlicer",) and kind != "stat":
        kind = "stat"
    name = c.choice(["VM", "VM%d" % i])
    return dict(slicer=s, stackers=st, maps=maps, cols=cols, extra=extra, kw=kw, kind=kind, name=name, label="lab%d" % i,
                constraint=c.choice(constraints), slicer_badval=None)


def make_metric(b):
    cls = dict(stat=VStat, vec=VVec, obj=VObj)[b["kind"]]
    return cls(b["cols"], extra=tuple(b["extra"]), metric_name=b["name"], **b["kw"])


def rows(d, constraint):
    if constraint in ("", None):
        return d.copy()
    return d[CONS[constraint](d)].copy()


CONS = {
    "a > 0": lambda d: d["a"] > 0,
    "night <= 15": lambda d: d["night"] <= 15,
    "filter = 'r'": lambda d: d["filter"] == "r",
    "k >= 1 and b < 8": lambda d: (d["k"] >= 1) & (d["b"] < 8),
    "a > 1000": lambda d: d["a"] > 1000,
}


def reference(b, d):
    """values by slice id of the bundle alone: dict sid -> value or None (masked); None if there are no visits"""
    d = rows(d, b["constraint"])
    if len(d) == 0:
        return None, None
    # harness stackers, applied by hand
    extra = {}
    for n, kw in b["stackers"]:
        aa = extra.get("a", d["a"])
        if n == "VScale":
            extra["v_sc"] = (aa if kw["src"] == "a" else d["b"]) * kw["factor"]
        elif n == "VShift":
            extra["v_sc"], extra["v_sh"] = aa + kw["off"], d["b"] + kw["off"]
        elif n == "VOther":
            extra["v_ot"] = np.abs(d["b"]) ** kw["power"]
        elif n == "VOver":
            extra["a"] = d["b"] + kw["add"]
    dt = d.dtype.descr + [(k, "f8") for k in extra if k not in d.dtype.names]
    full = np.zeros(len(d), dtype=dt)
    for k in d.dtype.names:
        full[k] = d[k]
    for k, v in extra.items():
        full[k] = v
    s = make_slicer(b["slicer"])
    s.setup_slicer(full)
    m = make_metric(b)
    out = {}
    for sl in s:
        sp = dict(sl["slice_point"])
        sid = int(np.ravel(sp["sid"])[0])
        for n, kw in b["maps"]:
            if n == "VTag":
                sp["v_tag"] = sid * kw["factor"] + 0.5
            else:
                sp["v_tag2"] = float(np.ravel(sp["ra"])[0]) * kw["factor"]
        dd = full[sl["idxs"]].copy()
        out[sid] = None if len(dd) == 0 else m.run(dd, sp)
    return out, s


def compare(c, b, bundle, ref, s, where):
    mv = bundle.metric_values
    lab = lambda sid: f"{where}: {b['kind']} metric {b['name']}/{b['label']} slicer {b['slicer'][0]} constraint {b['constraint']!r} slice {sid}"
    bad = b["kw"].get("badval", -666)
    nd = 0
    full_n = int(np.prod(np.atleast_1d(s.shape)))
    c.expect(len(mv) == full_n, lambda: lab("-") + f": {len(mv)} values for {full_n} slices")
    mask = np.ma.getmaskarray(mv)
    for sid in range(full_n):
        want = ref.get(sid, None)
        if want is None:
            c.expect(np.all(mask[sid]), lambda: lab(sid) + " has no visits but is not masked", "unmasked")
            continue
        nd += 1
        if b["kind"] == "stat":
            if want == bad:
                c.expect(mask[sid], lambda: lab(sid) + " bad value is not masked", "badval")
            else:
                c.expect(not mask[sid] and mv.data[sid] == want,
                         lambda: lab(sid) + f": got {mv.data[sid]!r} masked={mask[sid]} want {want!r}", "value")
        elif b["kind"] == "vec":
            wm = want == bad
            c.expect(np.array_equal(mask[sid], wm), lambda: lab(sid) + f": mask {mask[sid]} want {wm}", "vecmask")
            c.expect(np.array_equal(mv.data[sid][~wm], want[~wm]), lambda: lab(sid) + f": got {mv.data[sid]} want {want}", "value")
        else:
            if isinstance(want, dict):
                c.expect(not mask[sid] and mv.data[sid] == want, lambda: lab(sid) + f": got {mv.data[sid]!r} masked={mask[sid]} want {want!r}", "value")
            else:
                c.expect(mask[sid], lambda: lab(sid) + " bad value is not masked", "badval")
    return nd


def compare_reduced(c, b, rb, ref, rname, bad):
    mv = rb.metric_values
    mask = np.ma.getmaskarray(mv)
    m = make_metric(b)
    for sid in range(len(mv)):
        want = ref.get(sid)
        val = bad if not isinstance(want, dict) else (m.reduce_val(want) if rname == "val" else m.reduce_num(want))
        lab = f"reduced {rname} of {b['name']}/{b['label']} slicer {b['slicer'][0]} slice {sid}"
        if val == bad:
            c.expect(mask[sid], lab + " should be masked", "redmask")
        else:
            c.expect(not mask[sid] and mv.data[sid] == val, lambda: lab + f": got {mv.data[sid]!r} masked={mask[sid]} want {val!r}", "redvalue")


def build(c, specs, share):
    shared = {}
    out = {}
    for i, b in enumerate(specs):
        key = (repr(b["slicer"]), b["constraint"])
        if share and key in shared:
            s = shared[key]
        else:
            s = shared[key] = make_slicer(b["slicer"])
        con = b["constraint"]
        mp = make_maps(b["maps"])
        out["key%d" % i] = MetricBundle(make_metric(b), s, constraint=None if (con == "" and c.flip()) else con,
                                        stacker_list=make_stackers(b["stackers"]) or None,
                                        maps_list=(mp[0] if len(mp) == 1 and c.flip() else mp) or None,
                                        run_name="run", info_label=b["label"])
    return out


def judge(c, specs, group, keys, d, where):
    busy = 0
    for k, b in zip(keys, specs):
        bundle = group.bundle_dict[k]
        ref, s = reference(b, d)
        if ref is None:
            c.expect(bundle.metric_values is None, f"{where}: values for a constraint without visits", "novisits")
            continue
        n = compare(c, b, bundle, ref, s, where)
        busy += n
        if b["kind"] == "obj":
            for rn in ("val", "num"):
                cand = [x for kk, x in group.bundle_dict.items() if kk not in keys and x.metric.name == b["name"] + "_" + rn and x.info_label == b["label"]]
                c.expect(len(cand) == 1, f"{where}: {len(cand)} reduced bundles for {b['name']}_{rn} {b['label']} (one expected)", "redcount")
                compare_reduced(c, b, cand[0], ref, rn, b["kw"].get("badval", -666))
                c.obs("reduced", None)
        c.obs("bundle_" + b["kind"], (b["slicer"][0], tuple(b["stackers"][0][0:1]) if b["stackers"] else (), tuple(x[0] for x in b["maps"])))
        c.obs("slices", n=n)
    return busy


@check.scenario(1200, 20000)
def in_memory_group(c):
    """run_current with the visits passed in: stackers, maps, caches, reduce functions"""
    d = visits(c)
    pool_all = slicer_specs(c, d)
    k = c.randint(1, 3)
    pool = [pool_all[i] for i in c.rng.choice(len(pool_all), k, replace=False)]
    if c.flip():
        pool.append(twin(c, pool[c.randint(0, len(pool) - 1)]))
    specs = [bundle_spec(c, i, pool, [""]) for i in range(c.randint(2, 7))]
    share = c.flip(0.4)
    bd = build(c, specs, share)
    keys = list(bd)
    out = tempfile.mkdtemp(dir=SCR)
    given = d.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = MetricBundleGroup(dict(bd), None, out_dir=out, save_early=c.flip(0.2))
        g.run_current(c.choice(["", None]), sim_data=given)
    c.expect(given.dtype == d.dtype and np.array_equal(given, d), "the visits handed in were changed by the run", "inputchanged")
    busy = judge(c, specs, g, keys, d, "in memory")
    c.obs("group", (len(specs), share))
    if busy and c.flip(0.3):
        # again, on the same group: nothing is left over from the first run
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            bd2 = {k: bd[k] for k in keys}
            g2 = MetricBundleGroup(bd2, None, out_dir=out, save_early=False)
            sub = d[: max(1, len(d) // 2)]
            # binned slicers keep the bins they are given, so the fresh reference has the same ones
            g2.run_current("", sim_data=sub.copy())
        judge(c, specs, g2, keys, sub, "second run")
        c.obs("rerun")


@check.scenario(480, 8000)
def database_group(c):
    """run_all over several constraints, from a sqlite file or connection"""
    d = visits(c)
    pool_all = slicer_specs(c, d)
    pool = [pool_all[i] for i in c.rng.choice(len(pool_all), c.randint(1, 3), replace=False)]
    if c.flip():
        pool.append(twin(c, pool[c.randint(0, len(pool) - 1)]))
    cons = ["", c.choice(list(CONS)), c.choice(list(CONS))]
    specs = [bundle_spec(c, i, pool, cons, custom=False) for i in range(c.randint(2, 8))]
    bd = build(c, specs, c.flip(0.4))
    keys = list(bd)
    out = tempfile.mkdtemp(dir=SCR)
    fn = os.path.join(out, "sim.db")
    table = c.choice(["observations", "SummaryAllProps", "summary", "other"])
    with sqlite3.connect(fn) as con:
        df = pd.DataFrame({k: d[k] for k in d.dtype.names})
        df["unused"] = "x"
        df.to_sql(table, con, index=False)
    con.close()
    src = fn
    opened = None
    if c.flip(0.3):
        src = opened = sqlite3.connect(fn)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = MetricBundleGroup(bd, src, out_dir=out, save_early=False,
                              db_table=table if (opened is not None or table == "other" or c.flip()) else None)
        g.run_all()
    if opened is not None:
        opened.close()
    judge(c, specs, g, keys, d, "from database")
    c.obs("dbgroup", (table, len({b["constraint"] for b in specs}), opened is not None))


@check.scenario(150, 1500)
def stock_metrics(c):
    """the package's own metrics and default stackers in one group against each of them in its own group"""
    d = visits(c)
    import numpy.lib.recfunctions as rf
    d = rf.append_fields(d, ["fiveSigmaDepth", "seeingFwhmEff", "airmass", "visitExposureTime", "numExposures", "skyBrightness"],
                         [c.uniform(20, 25, len(d)), c.uniform(0.6, 1.5, len(d)), c.uniform(1, 2, len(d)), np.full(len(d), 30.0),
                          np.full(len(d), 2), c.uniform(17, 22, len(d))], usemask=False)

    def mk():
        return [
            metrics.CountMetric(col="observationStartMJD", metric_name="n"),
            metrics.MeanMetric(col="airmass"), metrics.MedianMetric(col="seeingFwhmEff"), metrics.MaxMetric(col="a"),
            metrics.Coaddm5Metric(), metrics.RmsMetric(col="a"), metrics.MeanMetric(col="normairmass"),
            metrics.MaxMetric(col="HA"), metrics.FracAboveMetric(col="airmass", cutoff=1.5),
            metrics.PercentileMetric(col="skyBrightness", percentile=30), metrics.CountUniqueMetric(col="k"),
            metrics.MeanMetric(col="gall"), metrics.MinMetric(col="observationStartMJD")]
    cols = {"normairmass": "airmass", "HA": "observationStartLST", "dec_gal": "x"}
    d = rf.append_fields(d, ["observationStartLST"], [c.uniform(0, 360, len(d))], usemask=False)
    n = len(mk())
    order = list(c.rng.permutation(n))[: c.randint(2, n)]
    pool = slicer_specs(c, d)
    s = c.choice([pool[0], pool[1], pool[5], pool[8]])
    out = tempfile.mkdtemp(dir=SCR)

    def run(idx):
        ms = mk()
        bd = {"k%d" % i: MetricBundle(ms[i], make_slicer(s), "", info_label="l%d" % i) for i in idx}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            g = MetricBundleGroup(bd, None, out_dir=out, save_early=False)
            g.run_current("", sim_data=d.copy())
        return {i: bd["k%d" % i].metric_values for i in idx}
    together = run(order)
    for i in order:
        alone = run([i])[i]
        c.same(np.ma.getmaskarray(together[i]), np.ma.getmaskarray(alone), f"mask of metric {i} together vs alone", "stockmask")
        c.same(together[i].compressed(), alone.compressed(), f"values of metric {i} together vs alone", "stockvalue")
        c.obs("stock", (i, s[0]))
