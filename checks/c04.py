"""C04: saved metric results read back identical."""
import json
import os
import tempfile
import warnings

import numpy as np
import pandas as pd
import rubin_sim.maf.slicers as slicers
from rubin_sim.maf.maps import BaseMap
from rubin_sim.maf.metric_bundles import (
    MetricBundle,
    MetricBundleGroup,
    MoMetricBundle,
    create_empty_metric_bundle,
    create_empty_mo_metric_bundle,
    make_bundles_dict_from_list,
)
from rubin_sim.maf.metrics import BaseMetric, BaseMoMetric
from rubin_sim.maf.utils import name_sanitize

from vlib import synth
from vlib.h import Check, short

check = Check("C04", "random results (values incl. NaN/inf/bad values, masks, float/int/object/vector values) on every slicer type are written and read back by each route "
              "(bundle.read, MetricBundle.load, slicer.read_data, group.read_all, JSON) and compared field by field with what was written. Non-trivial: a result with both "
              "masked and unmasked values.",
              assumptions=["settings given to the plot dictionary carry the units; the metric object itself is documented as not restorable"])
SCR = os.environ.get("VERIF_SCRATCH", "/tmp")


def setup():
    synth.fov_map(os.path.join(SCR, "data", "utils", "fov_map.npz"))


check.setup_fn = setup


class VMapR(BaseMap):
    def __init__(self):
        self.keynames = ["v_ext"]

    def run(self, slice_points):
        slice_points["v_ext"] = np.asarray(slice_points["sid"]) * 0.25
        return slice_points


class VMetR(BaseMetric):
    def __init__(self, **kw):
        super().__init__(col="a", **kw)

    def run(self, data_slice, slice_point=None):
        return float(np.sum(data_slice["a"]))


class VObjR(VMetR):
    def run(self, data_slice, slice_point=None):
        if len(data_slice) == 3:
            return self.badval
        return {"n": len(data_slice), "s": float(np.sum(data_slice["a"]))}

    def reduce_count(self, x):
        return x["n"]

    def reduce_total_of(self, x):
        return x["s"]


def visits(c):
    n = c.choice([2, 10, 40, 90])
    _, ra, dec = synth.radec(c, n)
    d = np.zeros(n, dtype=[("fieldRA", "f8"), ("fieldDec", "f8"), ("rotSkyPos", "f8"), ("a", "f8"), ("b", "f8"), ("k", "i8"),
                           ("observationStartMJD", "f8"), ("visitTime", "f8"), ("scheduler_note", "U8"), ("RA1", "f8"), ("Dec1", "f8")])
    d["fieldRA"], d["fieldDec"], d["rotSkyPos"] = ra, dec, c.uniform(0, 360, n)
    if c.flip(0.25):
        d["fieldRA"], d["fieldDec"], d["rotSkyPos"] = np.radians(d["fieldRA"]), np.radians(d["fieldDec"]), np.radians(d["rotSkyPos"])
    d["a"], d["b"] = c.rng.integers(-50, 50, n) / 4.0, c.uniform(0, 10, n)
    d["k"] = c.rng.integers(0, 4, n)
    d["observationStartMJD"] = 60000 + c.rng.integers(0, 4 * 96, n) / 96.0
    d["visitTime"] = 34.0
    d["scheduler_note"] = c.rng.choice(["x", "y"], n)
    return d


def make_slicer(c, d, kind):
    bv = c.choice([-666, -1, 0, -999.25, 12.5])
    cam = c.choice([{}, dict(use_camera=False, radius=c.choice([1.0, 5.0, 20.0])), dict(use_camera=True, camera_radius=c.choice([1.5, 2.1]))])
    units = bool(d["fieldRA"].max() > 2 * np.pi or d["fieldDec"].max() > 2 or d["fieldDec"].min() < -2)
    if kind == "UniSlicer":
        return slicers.UniSlicer(badval=bv)
    if kind == "OneDSlicer":
        o = c.choice(["bins", "intbins", "size", "minmax", "auto"])
        kw = dict(bins=dict(bins=np.linspace(-15, 15, c.randint(2, 9))), intbins=dict(bins=np.arange(-15, 17, c.randint(1, 7))),
                  size=dict(bin_size=3.0), minmax=dict(bin_min=-4.0, bin_max=7.0, bin_size=0.5), auto={})[o]
        return slicers.OneDSlicer(slice_col_name="a", slice_col_units=c.choice([None, "furlong"]), badval=bv, **kw)
    if kind == "MovieSlicer":
        return slicers.MovieSlicer(slice_col_name="a", slice_col_units=c.choice([None, "furlong"]), bins=c.choice([3, np.linspace(-13, 13, 6)]),
                                   cumulative=c.flip(), badval=bv, force_no_ffmpeg=True)
    if kind == "NDSlicer":
        return slicers.NDSlicer(slice_col_list=["a", "b"], bins_list=c.choice([3, [4, 2], [np.linspace(-13, 13, 4), np.arange(0, 12, 5.0)]]))
    if kind == "HealpixSlicer":
        return slicers.HealpixSlicer(nside=c.choice([1, 2, 4]), verbose=False, use_cache=c.flip(), badval=bv, lat_lon_deg=units, **cam)
    if kind == "HealpixSubsetSlicer":
        return slicers.HealpixSubsetSlicer(nside=2, hpid=np.unique(c.rng.integers(0, 48, c.randint(1, 20))), verbose=False, use_cache=c.flip(), badval=bv,
                                           lat_lon_deg=units, **cam)
    if kind == "UserPointsSlicer":
        n = c.randint(1, 12)
        _, ra, dec = synth.radec(c, n)
        return slicers.UserPointsSlicer(ra=ra, dec=dec, verbose=False, badval=bv, lat_lon_deg=units, **cam)
    if kind == "TimeIntervalSlicer":
        return slicers.TimeIntervalSlicer(interval_seconds=c.choice([3600, 86400, 900]), badval=bv)
    if kind == "BlockIntervalSlicer":
        return slicers.BlockIntervalSlicer(badval=bv)
    if kind == "VisitIntervalSlicer":
        return slicers.VisitIntervalSlicer(badval=bv)
    raise ValueError(kind)


KINDS = ["UniSlicer", "OneDSlicer", "MovieSlicer", "NDSlicer", "HealpixSlicer", "HealpixSubsetSlicer", "UserPointsSlicer",
         "TimeIntervalSlicer", "BlockIntervalSlicer", "VisitIntervalSlicer"]
LABELS = ["r band", "note like '%DD%'", "a_b", "", "x > 3 & y<=4", "Ünïcode", "semi;colon: (x)/y", "long " * 10]


def deq(a, b):
    """deep equality: arrays, nested dicts, NaN == NaN"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(deq(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(deq(x, y) for x, y in zip(a.ravel(), b.ravel()))
        try:
            return bool(np.array_equal(a, b, equal_nan=True))
        except TypeError:
            return bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(deq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and np.isnan(a) and np.isnan(b):
        return True
    return bool(a == b)


def random_values(c, s, vec):
    n = int(np.prod(np.atleast_1d(s.shape)))
    shape = (n, 3) if vec else (n,)
    kind = c.choice(["float", "float", "object", "int"]) if not vec else "float"
    if kind == "float":
        v = c.rng.normal(0, 100, shape)
        special = c.rng.choice([np.nan, np.inf, -np.inf, 0.0, -0.0, float(s.badval), 1e-300, 1e300], shape)
        v = np.where(c.rng.random(shape) < 0.15, special, v)
    elif kind == "int":
        v = c.rng.integers(-1000, 1000, shape)
    else:
        v = np.empty(n, object)
        for i in range(n):
            v[i] = c.choice([None, {"x": i, "y": np.arange(i % 4)}, [1, 2, i], "text%d" % i, -666, 3.5])
    mask = c.rng.random(shape) < c.choice([0.0, 0.3, 0.8, 1.0])
    return kind, np.ma.MaskedArray(v, mask=mask, fill_value=s.badval if kind != "int" else int(s.badval))


def judge_values(c, got, want, what):
    gm, wm = np.ma.getmaskarray(got), np.ma.getmaskarray(want)
    c.expect(gm.shape == wm.shape and np.array_equal(gm, wm), lambda: f"{what}: mask {short(gm)} want {short(wm)}", "mask")
    c.expect(got.dtype == want.dtype, lambda: f"{what}: dtype {got.dtype} want {want.dtype}", "dtype")
    c.expect(deq(np.asarray(got.data)[~gm], np.asarray(want.data)[~wm]), lambda: f"{what}: values {short(got)} want {short(want)}", "values")


def judge_slicer(c, got, want, what):
    c.expect(type(got) is type(want), f"{what}: slicer type {type(got).__name__} want {type(want).__name__}", "slicertype")
    c.expect(got == want and want == got, f"{what}: the restored {type(want).__name__} is not equal to the written one", "slicereq")
    c.expect(not (got != want), f"{what}: the restored slicer is both equal and unequal", "slicerne")
    c.expect(deq(dict(got.slice_points), dict(want.slice_points)), lambda: f"{what}: slice points differ: {short(got.slice_points)} want {short(want.slice_points)}", "slicepoints")
    c.expect(int(got.nslice) == int(want.nslice) and len(got) == len(want), f"{what}: number of slices {got.nslice} want {want.nslice}", "nslice")
    c.expect(deq(np.atleast_1d(np.asarray(got.shape)), np.atleast_1d(np.asarray(want.shape))), f"{what}: slicer shape", "shape")
    c.expect(got.badval == want.badval, f"{what}: bad value {got.badval} want {want.badval}", "badval")


def make_bundle(c, d, kind, maps=True):
    s = make_slicer(c, d, kind)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s.setup_slicer(d, maps=[VMapR()] if (maps and c.flip(0.4) and kind != "UniSlicer") else None)
    m = VMetR(metric_name=c.choice(["M", "Sum a", "Weird, (name) > 5%", "m_1.5"]), units=c.choice(["mag", "", "#/arcsec"]))
    pd_ = c.choice([{}, dict(units="mas"), dict(units="m", color_min=0, color_max=5.5, cmap="jet", percentile_clip=95), dict(title=None, color_min=None, x_min=0, legend=False, label="")])
    dd = c.choice([{}, dict(group="G", subgroup="S", order=3, caption="cap %s"), dict(group="", subgroup=None, order=0, caption="")])
    b = MetricBundle(m, s, constraint=c.choice(["", None, "filter = 'r'", "a > 3 and b<2"]), run_name=c.choice(["baseline_v4.0_10yrs", "r", "run name"]),
                     info_label=c.choice([None] + LABELS), plot_dict=dict(pd_), display_dict=dict(dd))
    vec = c.flip(0.2)
    vk, b.metric_values = random_values(c, s, vec)
    if c.flip(0.5):
        b.summary_values = {"Median": 3.25, "Mean": float("nan"), "T": np.array([1, 2.0])}
    return b, vk, vec


@check.scenario(900, 12000)
def bundle_roundtrip(c):
    d = visits(c)
    kind = c.choice(KINDS)
    b, vk, vec = make_bundle(c, d, kind)
    out = tempfile.mkdtemp(dir=SCR)
    suffix = c.choice([None, None, "007"])
    comment = c.choice(["", "", " extra"])
    before = (b.metric_values.data.copy(), np.ma.getmaskarray(b.metric_values).copy())
    b.write(comment=comment, out_dir=out, outfile_suffix=suffix)
    files = os.listdir(out)
    want_name = b.file_root + ("" if suffix is None else "_" + suffix) + ".npz"
    c.expect(files == [want_name], f"files written {files} want {want_name}", "filename")
    c.expect(deq(before[0], b.metric_values.data) and np.array_equal(before[1], np.ma.getmaskarray(b.metric_values)), "writing changed the values", "mutated")
    fn = os.path.join(out, files[0])
    how = c.choice(["read", "load", "reuse", "slicer"])
    what = f"{kind}/{vk}/{how}"
    if how == "slicer":
        vals, s2, header = slicers.BaseSlicer().read_data(fn)
        judge_values(c, vals, b.metric_values, what)
        judge_slicer(c, s2, b.slicer, what)
        for k, v in dict(metric_name=b.metric.name, sim_data_name=b.run_name, constraint=b.constraint, info_label=b.info_label + comment,
                         plot_dict=b.plot_dict, display_dict=b.display_dict, summary_values=b.summary_values).items():
            c.expect(deq(header[k], v), f"{what}: header {k} {short(header[k])} want {short(v)}", "header")
        c.expect(vals.fill_value == b.metric_values.fill_value, f"{what}: fill value {vals.fill_value} want {b.metric_values.fill_value}", "fill")
    else:
        if how == "load":
            r = MetricBundle.load(fn)
        elif how == "read":
            r = create_empty_metric_bundle()
            r.read(fn)
        else:
            # a bundle that held something else
            r, _, _ = make_bundle(c, d, c.choice(KINDS))
            r.summary_values = {"old": 1}
            r.read(fn)
        judge_values(c, r.metric_values, b.metric_values, what)
        judge_slicer(c, r.slicer, b.slicer, what)
        c.expect(r.metric.name == b.metric.name and r.run_name == b.run_name and r.constraint == b.constraint, lambda: f"{what}: name/run/constraint "
                 f"{(r.metric.name, r.run_name, r.constraint)} want {(b.metric.name, b.run_name, b.constraint)}", "names")
        c.expect(r.info_label == b.info_label + comment, f"{what}: description {r.info_label!r} want {b.info_label + comment!r}", "label")
        if "units" in b.plot_dict:
            c.expect(r.metric.units == b.plot_dict["units"], f"{what}: units {r.metric.units!r}", "units")
        c.expect(deq(r.plot_dict, b.plot_dict), f"{what}: plot settings {r.plot_dict} want {b.plot_dict}", "plotdict")
        c.expect(deq(r.display_dict, b.display_dict), f"{what}: display settings {r.display_dict} want {b.display_dict}", "displaydict")
        c.expect(deq(r.summary_values, b.summary_values), f"{what}: summary values {r.summary_values} want {b.summary_values}", "summary")
        c.expect(r.file_root == want_name[:-4], f"{what}: file root {r.file_root} want {want_name[:-4]}", "fileroot")
        fv = r.metric_values.fill_value
        c.expect(vk == "int" or np.all(fv == b.slicer.badval), f"{what}: fill value {fv} want {b.slicer.badval}", "fill")
        if c.flip(0.3) and kind != "UniSlicer":
            # a second generation
            out2 = tempfile.mkdtemp(dir=SCR)
            r.write(out_dir=out2)
            r2 = MetricBundle.load(os.path.join(out2, os.listdir(out2)[0]))
            judge_values(c, r2.metric_values, b.metric_values, what + "/again")
            judge_slicer(c, r2.slicer, b.slicer, what + "/again")
            c.obs("second_generation")
    m = np.ma.getmaskarray(b.metric_values)
    c.obs("roundtrip_" + kind, (vk, vec, how, bool(m.any()), bool((~m).any()), tuple(sorted(b.slicer.slice_points))))


@check.scenario(250, 3000)
def slicer_arrays(c):
    """plain (unmasked) arrays through a slicer"""
    d = visits(c)
    kind = c.choice(KINDS)
    s = make_slicer(c, d, kind)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s.setup_slicer(d)
    n = int(s.nslice)
    v = c.choice([c.rng.normal(0, 1, n), c.rng.integers(0, 9, n), c.rng.random(n) < 0.5, c.rng.normal(0, 1, n).astype("f4")])
    fn = os.path.join(tempfile.mkdtemp(dir=SCR), "x.npz")
    s.write_data(fn, v, metric_name="n", sim_data_name="sim", constraint="c", info_label="i")
    vals, s2, h = slicers.BaseSlicer().read_data(fn)
    c.same(vals.data, v, f"{kind} values")
    c.expect(not np.ma.getmaskarray(vals).any(), f"{kind}: values without a mask came back masked")
    judge_slicer(c, s2, s, kind)
    c.expect((h["metric_name"], h["sim_data_name"], h["constraint"], h["info_label"]) == ("n", "sim", "c", "i"), f"header {h}")
    c.obs("array_" + kind, v.dtype.name)


def other_values(c):
    return c.choice([{}, dict(title="T", xlabel="X", ylabel="Y"), dict(units="mag")])


@check.scenario(500, 6000)
def json_form(c):
    d = visits(c)
    kind = c.choice(["UniSlicer", "OneDSlicer", "HealpixSlicer", "HealpixSubsetSlicer", "UserPointsSlicer", "MovieSlicer"])
    s = make_slicer(c, d, kind)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s.setup_slicer(d)
    n = int(np.prod(np.atleast_1d(s.shape)))
    if n == 0:
        return
    ints = c.flip(0.3)
    v = c.rng.integers(-500, 500, n) if ints else c.rng.normal(0, 5, n)
    mask = c.rng.random(n) < c.choice([0.0, 0.4, 1.0])
    plain = c.flip(0.25)
    if kind == "HealpixSubsetSlicer":
        mask |= np.asarray(s.mask)
        plain = False
    vals = v if plain else np.ma.MaskedArray(v, mask=mask, fill_value=0)
    if plain:
        mask = np.zeros(n, bool)
    pdict = other_values(c)
    if c.flip():
        io = s.output_json(vals, metric_name="M", sim_data_name="R", info_label="I", plot_dict=pdict or None)
    else:
        b = MetricBundle(VMetR(metric_name="M"), s, constraint="", run_name="R", info_label="I", plot_dict=pdict)
        b.metric_values = vals if not plain else np.ma.MaskedArray(v, mask=False)
        io = b.output_json()
    c.expect(io is not None, f"{kind}: no JSON for {vals.dtype} values", "nojson")
    head, data = json.loads(io.getvalue())
    for k, w in dict(metric_name="M", sim_data_name="R", info_label="I", slicer_name=kind, slicer_len=int(s.nslice)).items():
        c.expect(head[k] == w, f"{kind}: JSON header {k}={head[k]!r} want {w!r}", "jsonhead")
    for k in ("title", "xlabel", "ylabel"):
        if k in pdict:
            c.expect(head[k] == pdict[k], f"{kind}: JSON {k}={head[k]!r}", "jsonlabels")
    if "ra" in s.slice_points:
        idx = np.flatnonzero(~mask)
        c.expect(len(data) == len(idx), f"{kind}: {len(data)} JSON points for {len(idx)} unmasked values", "jsoncount")
        for row, i in zip(data, idx):
            c.expect(abs(row[0] - np.degrees(s.slice_points["ra"][i])) < 1e-9 and abs(row[1] - np.degrees(s.slice_points["dec"][i])) < 1e-9 and row[2] == v[i],
                     lambda: f"{kind}: JSON point {row} for slice {i} at {np.degrees(s.slice_points['ra'][i])},{np.degrees(s.slice_points['dec'][i])} value {v[i]}", "jsonpoint")
    elif "bins" in s.slice_points:
        bins = np.asarray(s.slice_points["bins"])
        want = [[float(bins[i]), 0.0 if mask[i] else float(v[i])] for i in range(n)] + [[float(bins[n]), 0.0]]
        c.expect([[float(x) for x in r] for r in data] == want, lambda: f"{kind}: JSON {short(data)} want {short(want)}", "jsonbins")
    else:
        c.expect(data == ([] if mask[0] else [[v[0]]]), f"{kind}: JSON {data} want {v[0]} masked={mask[0]}", "jsonuni")
    c.obs("json_" + kind, (ints, plain, bool(mask.any())))


@check.scenario(150, 1500)
def group_read_all(c):
    """results of a run restored into a fresh group, reduced results included"""
    d = visits(c)
    k1 = c.choice(["HealpixSlicer", "OneDSlicer", "UserPointsSlicer", "HealpixSubsetSlicer", "UniSlicer"])
    k2 = c.choice(["HealpixSlicer", "OneDSlicer", "UserPointsSlicer", "UniSlicer"])
    out = tempfile.mkdtemp(dir=SCR)
    st = c.rng.bit_generator.state

    def mk():
        c.rng.bit_generator.state = st
        s1, s2 = make_slicer(c, d, k1), make_slicer(c, d, k2)
        nm = c.choice(["Obj", "other name"])
        custom = c.flip(0.3)
        return {"x": MetricBundle(VObjR(metric_name=nm), s1, info_label="one", run_name="R", plot_dict={"units": "q"}, file_root="custom" if custom else None),
                "y": MetricBundle(VMetR(metric_name="Plain"), s2, info_label="two", run_name="R"),
                "z": MetricBundle(VObjR(metric_name=nm), s2, info_label="three", run_name="R")}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        bd = mk()
        g = MetricBundleGroup(bd, None, out_dir=out, save_early=c.flip())
        g.run_current("", sim_data=d.copy())
        g.write_all()
        bd2 = mk()
        roots = {k: b.file_root for k, b in bd2.items()}
        g2 = MetricBundleGroup(bd2, None, out_dir=out)
        missing = None
        if c.flip(0.2):
            missing = c.choice(["y"])
            os.remove(os.path.join(out, bd["y"].file_root + ".npz"))
        g2.read_all()
    want = {(b.metric.name, b.info_label): b for k, b in g.bundle_dict.items() if k != missing}
    got = {(b.metric.name, b.info_label): b for b in g2.bundle_dict.values()}
    c.expect(set(want) == set(got) and len(g2.bundle_dict) == len(want), f"restored {sorted(got)} ({len(g2.bundle_dict)} entries) want {sorted(want)}", "restored")
    for k in want:
        judge_values(c, got[k].metric_values, want[k].metric_values, f"read_all {k}")
        judge_slicer(c, got[k].slicer, want[k].slicer, f"read_all {k}")
    for k in roots:
        if k != missing:
            c.expect(g2.bundle_dict[k].file_root == roots[k], f"read_all changed the file root of {k}", "root")
    c.obs("read_all", (k1, k2, missing))


@check.scenario(60, 800)
def mo_roundtrip(c):
    out = tempfile.mkdtemp(dir=SCR)
    n = c.randint(1, 6)
    orb = pd.DataFrame(dict(obj_id=["o%d" % i for i in range(n)] if c.flip() else np.arange(n), q=c.uniform(0.5, 3, n), e=c.uniform(0, 0.9, n), inc=c.uniform(0, 90, n),
                            Omega=c.uniform(0, 360, n), argPeri=c.uniform(0, 360, n), tPeri=c.uniform(59000, 61000, n), H=c.uniform(10, 25, n),
                            g=np.full(n, 0.15), epoch=np.full(n, 59000.0), FORMAT=["COM"] * n))
    of = os.path.join(out, "orb.des")
    orb.to_csv(of, sep=" ", index=False)
    hr = c.choice([None, np.arange(10, 20, c.choice([1.0, 2.5]))])
    s = slicers.MoObjSlicer(h_range=hr, verbose=False)
    s.setup_slicer(of)
    b = MoMetricBundle(BaseMoMetric(metric_name="N", cols=[]), s, constraint=c.choice([None, "night < 5"]), run_name="R", info_label=c.choice([None, "L"]))
    v = c.rng.normal(0, 3, s.shape)
    b.metric_values = np.ma.MaskedArray(v, mask=c.rng.random(s.shape) < 0.3, fill_value=s.badval)
    b.summary_values = {"C": [1, 2.5]}
    d2 = os.path.join(out, "res")
    os.makedirs(d2)
    b.write(out_dir=d2)
    r = create_empty_mo_metric_bundle()
    r.read(os.path.join(d2, os.listdir(d2)[0]))
    judge_values(c, r.metric_values, b.metric_values, "moving objects")
    c.expect(r.slicer == s and s == r.slicer, "moving objects: restored slicer is not equal to the written one", "moslicer")
    c.expect(deq(np.asarray(r.slicer.shape), np.asarray(s.shape)), "moving objects: shape")
    c.same(r.slicer.slice_points["H"], s.slice_points["H"], "H values")
    c.expect(r.slicer.slice_points["orbits"].equals(s.slice_points["orbits"]), "orbits of the restored slicer")
    c.expect(deq(np.asarray(r.slicer.Hrange), np.asarray(hr)), f"H range {r.slicer.Hrange} want {hr}", "hrange")
    c.expect((r.metric.name, r.run_name, r.constraint, r.info_label) == (b.metric.name, b.run_name, b.constraint, b.info_label), "moving objects: labels")
    c.expect(deq(r.summary_values, b.summary_values), "moving objects: summary values")
    c.obs("mo", (hr is None, n))


SAFE = [str(i) for i in range(10)] + list("abcXYZ-")


@check.scenario(300, 3000)
def file_names(c):
    """file names tell results apart, contain no separators, and collisions are refused"""
    def word():
        return "".join(c.choice(SAFE) for _ in range(c.randint(1, 6)))
    base = dict(run=word(), met=word(), lab=word(), sl="UniSlicer")
    d = visits(c)
    mk = lambda x: MetricBundle(VMetR(metric_name=x["met"]), make_slicer(c, d, x["sl"]), run_name=x["run"], info_label=x["lab"])
    b1 = mk(base)
    o = dict(base)
    f = c.choice(["run", "met", "lab", "sl"])
    o[f] = c.choice([k for k in KINDS if k not in ("UniSlicer",)]) if f == "sl" else base[f] + word()
    b2 = mk(o)
    c.expect(b1.file_root != b2.file_root, f"results which differ in {f} have the same file name {b1.file_root} ({base} {o})", "samename")
    b3 = mk(base)
    c.expect(b1.file_root == b3.file_root, "the same description gives different file names", "unstable")
    c.raises(NameError, lambda: make_bundles_dict_from_list([b1, b2, b3]), "two results with one file name")
    dd = make_bundles_dict_from_list([b1, b2])
    c.expect(dd[b1.file_root] is b1 and dd[b2.file_root] is b2 and len(dd) == 2, "dict of bundles")
    raw = "".join(c.choice(list("ab <>=.,/\\():;%#'\"&~ \t")) for _ in range(12))
    out = name_sanitize(raw)
    c.expect(not any(ch in out for ch in "<>=.,/\\():;%# "), f"file name of {raw!r} is {out!r}", "sanitize")
    c.expect(name_sanitize(out) == out, f"cleaning a clean name changes it: {out!r}", "idempotent")
    c.obs("names", f)
