"""C17: orbit tables."""
import math
import os
import warnings

import numpy as np
import pandas as pd

from vlib.h import Check
from vlib import fakeoorb

fakeoorb.install()
os.environ.setdefault("OORB_DATA", "/nonexistent")
from rubin_sim.moving_objects import Orbits, PyOrbEphemerides  # noqa: E402

check = Check(
    "C17",
    "random orbit sets in every format, container and file layout are set or read; every element of every object is compared with what was given, "
    "items and comparisons with the table, invalid sets must be rejected, the caller's table is watched",
    assumptions=["file identifiers contain no delimiter", "files hold numbers with full precision"],
    nproc=4,
    budget=(200, 720),
)

ELEMS = {
    "COM": ["q", "e", "inc", "Omega", "argPeri", "tPeri"],
    "KEP": ["a", "e", "inc", "Omega", "argPeri", "meanAnomaly"],
    "CAR": ["x", "y", "z", "xdot", "ydot", "zdot"],
}
FIRST = {"COM": "q", "KEP": "a", "CAR": "x"}


def table(c, n=None, fmt=None):
    fmt = fmt or c.choice(list(ELEMS))
    n = n or c.randint(1, 8)
    d = {}
    d["obj_id"] = c.choice([np.arange(n) + c.randint(0, 100), np.array([f"S{c.randint(0, 9999):04d}x{i}" for i in range(n)], dtype=object), c.rng.permutation(n) * 7])
    for k in ELEMS[fmt]:
        d[k] = {"q": c.uniform(0.5, 40, n), "a": c.uniform(0.5, 40, n), "e": c.uniform(0, 0.99, n), "inc": c.uniform(0, 179, n), "tPeri": c.uniform(50000, 70000, n)}.get(k, c.uniform(-3, 3, n) if fmt == "CAR" else c.uniform(0, 360, n))
    if c.flip(0.3):
        k = c.choice(ELEMS[fmt])
        d[k] = np.zeros(n)
    d["epoch"] = c.choice([np.full(n, 59000.0), c.uniform(49000, 61000, n)])
    if c.flip(0.7):
        d["H"] = c.uniform(5, 28, n)
    if c.flip(0.5):
        d["g"] = c.uniform(0, 0.4, n)
    if c.flip(0.4):
        d["sed_filename"] = np.array([c.choice(["C.dat", "S.dat", "V.dat"]) for _ in range(n)], dtype=object)
    return fmt, pd.DataFrame(d)


def judge(c, orb, fmt, df, noid=False, what=""):
    c.expect(orb.orb_format == fmt, f"{what}: format {orb.orb_format}, given {fmt}", key="format")
    c.expect(len(orb) == len(df), f"{what}: {len(orb)} objects of {len(df)}", key="count")
    o = orb.orbits
    want_ids = np.arange(len(df)) if noid else df["obj_id"].values
    c.expect(list(o["obj_id"]) == list(want_ids), f"{what}: ids {list(o['obj_id'])[:4]} for {list(want_ids)[:4]}", key="ids")
    for k in ELEMS[fmt] + ["epoch"]:
        c.expect(np.array_equal(np.asarray(o[k], float), df[k].values.astype(float)), f"{what}: {k} changed", key="elements")
    for k, dv in (("H", 20.0), ("g", 0.15)):
        w = df[k].values if k in df else np.full(len(df), dv)
        c.expect(np.array_equal(np.asarray(o[k], float), w), f"{what}: {k} is {list(o[k])[:3]}, wanted {list(w)[:3]}", key="defaults")
    if "sed_filename" in df:
        c.expect(list(o["sed_filename"]) == list(df["sed_filename"]), f"{what}: spectrum names changed", key="sed")
    else:
        a = df["a"].values if fmt == "KEP" else df["q"].values / (1 - df["e"].values) if fmt == "COM" else np.sqrt(df["x"].values ** 2 + df["y"].values ** 2 + df["z"].values ** 2)
        for x, s in zip(a, o["sed_filename"]):
            c.expect(s in ("C.dat", "S.dat"), f"spectrum {s}", key="sed")
            if x < 1.9999 and x == x:
                c.expect(s == "S.dat", f"{what}: C type at a={x}", key="sed")
            if x > 4.0001:
                c.expect(s == "C.dat", f"{what}: S type at a={x}", key="sed")
    c.expect(what in ("series", "item", "iter") or list(o.index) == list(range(len(df))), f"{what}: index {list(o.index)[:4]}", key="index")
    c.obs("judged", (what.split(":")[0], fmt, len(df), "H" in df, "g" in df, "sed_filename" in df))


def same_frame(a, b):
    return list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and all(list(a[k]) == list(b[k]) for k in a.columns)


@check.scenario(1500, 12000)
def setting(c):
    fmt, df = table(c)
    noid = c.flip(0.2)
    src = df.drop(columns="obj_id") if noid else df.copy()
    style = c.choice(["frame", "frame", "records", "struct", "series", "record"])
    if c.flip(0.4):
        src["FORMAT"] = "CART" if fmt == "CAR" and c.flip() else fmt
    if c.flip(0.3) and style == "frame":
        src["extra"] = np.arange(len(src)) * 2
    cols = list(src.columns)
    if c.flip(0.5):
        cols = [cols[i] for i in c.rng.permutation(len(cols))]
        src = src[cols]
    if style == "frame":
        how = c.choice(["default", "offset", "shuffled", "subset"])
        if how == "offset":
            src.index = np.arange(len(src)) + 50
        elif how == "shuffled":
            p = c.rng.permutation(len(src))
            src, df = src.iloc[p], df.iloc[p]
        elif how == "subset" and len(src) > 2:
            src, df = src.iloc[1:], df.iloc[1:]
        if c.flip(0.2):
            src = src.assign(index=np.arange(len(src)))
        arg = src
        keep = src.copy(deep=True)
    elif style in ("records", "struct"):
        arg = src.to_records(index=False)
        if style == "struct":
            arg = np.array(arg, dtype=arg.dtype)
        keep = arg.copy()
    else:
        i = c.randint(0, len(src) - 1)
        df = df.iloc[[i]]
        if style == "series":
            arg = src.iloc[i]
        else:
            arg = src.to_records(index=False)[i]
        keep = None
    orb = Orbits()
    if c.flip(0.2):
        _, other = table(c)
        orb.set_orbits(other)
    orb.set_orbits(arg)
    judge(c, orb, fmt, df.reset_index(drop=True), noid=noid, what=style)
    if isinstance(arg, pd.DataFrame):
        c.expect(same_frame(arg, keep), "the given table was changed", key="caller-table")
        orb.orbits.loc[:, "epoch"] = 1.0
        c.expect(same_frame(arg, keep), "changing the orbits changes the given table", key="caller-alias")
        if "extra" in arg:
            c.expect(list(orb.orbits["extra"]) == list(arg["extra"]), "extra column changed", key="extra")
    elif keep is not None:
        c.expect(np.array_equal(arg, keep), "the given records were changed", key="caller-table")


@check.scenario(600, 6000)
def rejects(c):
    fmt, df = table(c)
    bad = c.choice(["missing", "mixed", "empty", "epoch", "format", "unknown", "dup"])
    c.obs("reject", (bad, fmt))
    orb = Orbits()
    if bad == "missing":
        k = c.choice(ELEMS[fmt] + ["epoch"])
        if k == FIRST[fmt]:
            df = df.assign(FORMAT=fmt)
        c.raises((ValueError, KeyError), lambda: orb.set_orbits(df.drop(columns=k)), f"{fmt} without {k} accepted", key="missing")
    elif bad == "mixed":
        if len(df) < 2:
            return
        f = [fmt] * len(df)
        f[c.randint(1, len(df) - 1)] = c.choice([x for x in ELEMS if x != fmt])
        c.raises(ValueError, lambda: orb.set_orbits(df.assign(FORMAT=f)), "mixed formats accepted", key="mixed")
    elif bad == "empty":
        c.raises(ValueError, lambda: orb.set_orbits(df.iloc[:0]), "no orbits accepted", key="empty")
    elif bad == "epoch":
        c.raises(ValueError, lambda: orb.set_orbits(df.assign(epoch=c.choice([2459000.5, -30000.0, 2e5]))), "strange epoch accepted", key="epoch")
    elif bad == "format":
        other = c.choice([x for x in ELEMS if x != fmt])
        c.raises(ValueError, lambda: orb.set_orbits(df.assign(FORMAT=other)), f"{fmt} elements called {other} accepted", key="stated-format")
    elif bad == "unknown":
        c.raises(ValueError, lambda: orb.set_orbits(df.drop(columns=FIRST[fmt])), "unrecognisable elements accepted", key="unrecognised")
    else:
        if len(df) < 2:
            return
        df = df.assign(obj_id=[7] * len(df))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            orb.set_orbits(df)
        c.expect(any("duplicate" in str(x.message) for x in w), "duplicate ids not reported", key="duplicates")


@check.scenario(800, 8000)
def items(c):
    fmt, df = table(c)
    extra = c.flip(0.3) and fmt == "KEP"
    src = df.assign(FORMAT=fmt)
    if extra:
        src = src.assign(q=1.0)
    orb = Orbits()
    orb.set_orbits(src)
    n = len(df)
    full = df.copy()
    for k in ("H", "g", "sed_filename"):
        full[k] = orb.orbits[k].values
    for i in (c.randint(0, n - 1), -c.randint(1, n), np.int64(c.randint(0, n - 1))):
        judge(c, orb[i], fmt, full.iloc[[int(i)]].reset_index(drop=True), what="item")
    a, b, st = c.randint(0, n), c.randint(0, n), c.choice([None, 1, 2, -1])
    sl = slice(*c.choice([(a, b, st), (a, None, st), (None, b, st), (None, None, st)]))
    want = full.iloc[sl]
    if len(want):
        judge(c, orb[sl], fmt, want.reset_index(drop=True), what="slice")
    got = list(orb)
    c.expect(len(got) == n, "iteration length", key="iter")
    for i, o in enumerate(got):
        judge(c, o, fmt, full.iloc[[i]].reset_index(drop=True), what="iter")
        c.expect(o == orb[i], "iterated and indexed objects differ", key="iter-index")
    # comparison
    same = Orbits()
    same.set_orbits(full.assign(FORMAT=fmt))
    c.expect(orb == same and not (orb != same), "identical tables differ", key="equal")
    k = c.choice(ELEMS[fmt] + ["epoch", "H", "g", "obj_id", "sed_filename"])
    i = c.randint(0, n - 1)
    ch = full.copy()
    if k == "obj_id":
        ch[k] = ch[k].astype(object)
        ch.loc[i, k] = "other"
    elif k == "sed_filename":
        ch.loc[i, k] = "other.dat"
    else:
        ch.loc[i, k] = ch.loc[i, k] + c.choice([1e-9, 1.0]) * max(1.0, abs(ch.loc[i, k]))
    diff = Orbits()
    diff.set_orbits(ch.assign(FORMAT=fmt))
    c.expect(not (orb == diff) and orb != diff, f"tables differing in {k} of one object compare equal", key="unequal")
    if n > 1:
        c.expect(not (orb == orb[0]) and not (orb == orb[0 : n - 1]), "tables of different length compare equal", key="unequal-length")
        r = orb[::-1]
        c.expect((orb == r) == (list(df["obj_id"]) == list(df["obj_id"])[::-1]), "reordered tables compare equal", key="unequal-order")
    c.expect(not (orb == df) and not (orb == None) and not (orb == 3), "equal to another type", key="unequal-type")  # noqa: E711
    ofmt, odf = table(c, n=n, fmt=c.choice([x for x in ELEMS if x != fmt]))
    oo = Orbits()
    oo.set_orbits(odf)
    c.expect(not (orb == oo), "other format compares equal", key="unequal-format")
    c.obs("items", (fmt, n, k, extra))
    # packed for the integrator and back
    pe = PyOrbEphemerides("x")
    pe.set_orbits(orb)
    back = pe.convert_from_oorb_elem()
    for col in ELEMS[fmt] + ["epoch", "H", "g"]:
        c.close(back[col].values, full[col].values.astype(float), f"{col} packed and unpacked", rtol=1e-12, atol=1e-12, key="packing")
    e = pe.oorb_elem
    c.expect(np.array_equal(e[:, 0], np.arange(n) + 1) and np.all(e[:, 7] == {"CAR": 1, "COM": 2, "KEP": 3}[fmt]) and np.all(e[:, 9] == 3), "packed codes", key="packing")
    ang = {"KEP": (3, 4, 5, 6), "COM": (3, 4, 5), "CAR": ()}[fmt]
    for j, col in enumerate(ELEMS[fmt], 1):
        w = full[col].values.astype(float)
        c.close(e[:, j], np.radians(w) if j in ang else w, f"packed {col}", rtol=1e-12, atol=1e-12, key="packing")
    c.expect(same_frame(orb.orbits[["obj_id"] + ELEMS[fmt]], full[["obj_id"] + ELEMS[fmt]]), "packing changed the orbits", key="packing")
    new = c.choice(["KEP", "COM", "CAR"])
    pe.convert_orbit_format(new)
    conv = pe.convert_from_oorb_elem()
    c.expect(pe.orb_format == new and all(x in conv for x in ELEMS[new]), "converted format", key="convert")
    c.close(conv[ELEMS[new][1]].values, full[ELEMS[fmt][1]].values.astype(float) + 0.001 * {"CAR": 1, "COM": 2, "KEP": 3}[new], "converted second element", rtol=1e-9, key="convert")
    fakeoorb.fail["code"] = 3
    try:
        c.raises(RuntimeError, lambda: pe.convert_orbit_format("CAR"), "integrator error ignored", key="integrator-error")
        c.raises(RuntimeError, lambda: pe.propagate_orbits(60000.0), "integrator error ignored", key="integrator-error")
    finally:
        fakeoorb.fail["code"] = 0
    t = 60000.0 + c.uniform(0, 100)
    pe.set_orbits(orb)
    pe.propagate_orbits(t)
    c.expect(np.all(pe.oorb_elem[:, 8] == t), "epoch after propagation", key="propagate")


ALT = {
    "obj_id": ["obj_id", "objid", "!!ObjID", "!!OID", "!!S3MID", "OID", "S3MID", "objid(int)", "full_name", "#name"],
    "e": ["e", "ecc"], "inc": ["inc", "i", "i(deg)", "incl"],
    "Omega": ["Omega", "omega", "node", "om", "node(deg)", "BigOmega", "Omega/node", "longNode"],
    "argPeri": ["argPeri", "argperi", "omega/argperi", "w", "argperi(deg)", "peri"],
    "tPeri": ["tPeri", "t_p", "timeperi", "t_peri", "T_peri"], "epoch": ["epoch", "t_0", "Epoch", "epoch_mjd"],
    "H": ["H", "magH", "magHv", "Hv", "H_v"], "g": ["g", "phaseV", "phase", "gV", "phase_g", "G"],
    "meanAnomaly": ["meanAnomaly", "meanAnom", "M", "ma"], "sed_filename": ["sed_filename", "sed"],
    "xdot": ["xdot", "xDot"], "ydot": ["ydot", "yDot"], "zdot": ["zdot", "zDot"],
}


def txt(v):
    return repr(float(v)) if isinstance(v, (float, np.floating)) else str(v)


@check.scenario(800, 8000)
def files(c):
    fmt, df = table(c)
    path = os.path.join(c.scratch, "orb.des")
    kind = c.choice(["header", "header", "des", "delim", "comments", "skip"])
    c.obs("file", (kind, fmt, tuple(df.columns)))
    kw = {}
    neg = fmt != "CAR" and c.flip(0.1)
    src = df.copy()
    if neg:
        src.loc[c.randint(0, len(df) - 1), "inc"] = -c.uniform(0.001, 90)
    if kind == "des":
        df["H"] = src["H"] = df["H"] if "H" in df else 17.0
        df = df.drop(columns=[x for x in ("g", "sed_filename") if x in df])
        with open(path, "w") as f:
            for r in src.to_dict("records"):
                name = {"CAR": c.choice(["CAR", "CART"])}.get(fmt, fmt)
                f.write(" ".join([str(r["obj_id"]), name if len(src) == 1 else fmt] + [txt(r[k]) for k in ELEMS[fmt]] + [txt(r["H"]), txt(r["epoch"]), "1", "6", "-1", "X"]) + "\n")
    else:
        cols = [src.columns[i] for i in c.rng.permutation(len(src.columns))]
        # the reader recognises data lines by a number in the fourth column
        if cols.index("obj_id") == 3:
            cols[3], cols[0] = cols[0], cols[3]
        if "sed_filename" in cols and cols.index("sed_filename") == 3:
            j = 5 if cols[5] != "obj_id" else 6
            cols[3], cols[j] = cols[j], cols[3]
        names = []
        for i, k in enumerate(cols):
            nm = c.choice(ALT.get(k, [k]))
            if k == "obj_id" and (nm.startswith("!!") or nm.startswith("#")) and i > 0 and c.flip():
                nm = "OID"
            names.append(nm)
        if c.flip(0.3):
            cols.append("FORMAT")
            names.append("FORMAT")
            src["FORMAT"] = fmt
        delim = c.choice([",", ",", "|", "\t", ", "]) if kind == "delim" else " "
        with open(path, "w") as f:
            if kind == "comments":
                for _ in range(c.randint(1, 3)):
                    f.write(c.choice(["# made by hand", "!! a list of orbits", "some words about these orbits here", "#"]) + "\n")
                f.write(c.choice(["# ", "!! ", "## ", ""]) + delim.join(names) + "\n")
            elif kind == "skip":
                k = c.randint(0, 3)
                for i in range(k):
                    f.write(f"a line {i} to skip 5 5 5\n")
                kw["skiprows"] = k
                f.write(delim.join(names) + "\n")
            else:
                f.write(delim.join(names) + "\n")
            for r in src.to_dict("records"):
                f.write(delim.join(txt(r[k]) for k in cols) + "\n")
        if kind == "delim":
            kw["delim"] = delim if len(delim) == 1 else r",\s*"
            if delim == "\t" and c.flip():
                kw = {}
    raw = open(path, "rb").read()
    orb = Orbits()
    if neg:
        c.raises(ValueError, lambda: orb.read_orbits(path, **kw), "negative inclination accepted", key="negative-inc")
        return
    orb.read_orbits(path, **kw)
    judge(c, orb, fmt, df, what=f"file {kind}")
    c.expect(open(path, "rb").read() == raw, "the file was changed", key="file-changed")
    # two columns for one element are rejected
    if kind == "header" and c.flip(0.3):
        k = c.choice([x for x in cols if len(ALT.get(x, [])) > 1 and x != "obj_id"])
        second = c.choice([x for x in ALT[k] if x not in names])
        lines = open(path).read().splitlines()
        with open(path, "w") as f:
            f.write(lines[0] + " " + second + "\n")
            for l in lines[1:]:
                f.write(l + " 1.0\n")
        c.raises(ValueError, lambda: orb.read_orbits(path), f"two columns for {k} accepted", key="ambiguous")


@check.scenario(30, 200)
def spectra(c):
    n = 4000
    a = c.uniform(2.0, 4.0, n)
    df = pd.DataFrame(dict(a=a, e=0.1, inc=1.0, Omega=1.0, argPeri=1.0, meanAnomaly=1.0, epoch=59000.0))
    x, y = Orbits(), Orbits()
    x.set_orbits(df)
    y.set_orbits(df)
    c.expect(list(x.orbits["sed_filename"]) == list(y.orbits["sed_filename"]), "types not reproducible", key="sed-repeat")
    s1, s2 = (Orbits().assign_sed(df, random_seed=9) for _ in range(2))
    c.expect(list(s1) == list(s2), "seeded types not reproducible", key="sed-repeat")
    isc = (x.orbits["sed_filename"] == "C.dat").values
    for lo in (2.0, 2.5, 3.0, 3.5):
        m = (a >= lo) & (a < lo + 0.5)
        p = 0.5 * (lo + 0.25) - 1
        c.expect(abs(isc[m].mean() - p) < 6 * math.sqrt(p * (1 - p) / m.sum()) + 0.01, f"share of C types at a={lo}: {isc[m].mean()} for {p}", key="sed-rate")
    c.obs("spectra", int(isc.sum()))


@check.scenario(400, 4000)
def updating(c):
    """Replacing the elements (same or another format) keeps the identifiers and spectra of each object."""
    fmt, df = table(c)
    orb = Orbits()
    orb.set_orbits(df)
    ids, seds = list(orb.orbits["obj_id"]), list(orb.orbits["sed_filename"])
    fmt2, new = table(c, n=len(df), fmt=c.choice([None, fmt]))
    new = new[ELEMS[fmt2] + ["epoch"]].assign(H=orb.orbits["H"].values, g=orb.orbits["g"].values)
    keep = new.copy(deep=True)
    orb.update_orbits(new)
    judge(c, orb, fmt2, keep.assign(obj_id=ids, sed_filename=seds), what="updated")
    c.expect(same_frame(new, keep), "the given elements were changed", key="caller-table")
    again = Orbits()
    again.set_orbits(orb.orbits)
    c.expect((again == orb) and not (again != orb), "equal to a copy of itself", key="copy-equal")
