"""A stand-in for the absent orbit integrator `pyoorb`.

Objects move along analytic smooth sky paths derived from their elements: a great circle (plane from inc/Omega,
phase from argPeri, rate from `a` or `q`, in turns per `a` years) plus a diurnal wobble of `e` degrees.  The stand-in
has pyoorb's calling convention and packing, so everything of rubin_sim above it is the real code.
"""
import math
import sys
import types

import numpy as np

TWO_PI = 2 * math.pi
calls = []          # (kind, in_dynmodel, obscode, n_orbits, n_times)
fail = {"code": 0}
# a workload may make the answer depend on the dynamical model, the observatory and the time scale
# (all 0 by default): shift of the phase along the path in degrees, and of the time in days
shift = {"mode": 0.0, "code": 0.0, "scale": 0.0}


def seen(row, obscode, dynmodel):
    """the packed orbit as the given model and observatory see it"""
    d = (shift["mode"] if str(dynmodel) == "2" else 0.0) + (shift["code"] if str(obscode) != "I11" else 0.0)
    if d:
        row = np.array(row, float)
        row[5] = row[5] + math.radians(d)
    return row


def when(date_ephems):
    """effective times of an (n, 2) array of MJD and time-scale code (1 UTC, 2 UT1, 3 TT, 4 TAI)"""
    return date_ephems[:, 0] + shift["scale"] * (date_ephems[:, 1] - 4)


def path(row, t):
    """unit vectors (n, 3) and derivatives per day of one packed orbit at times t"""
    a, e, inc, om, w = row[1], row[2], row[3], row[4], row[5]
    rate = TWO_PI / (365.25 * a)
    th = w + rate * (t - row[8])
    p = np.array([math.cos(om), math.sin(om), 0.0])
    q = np.array([-math.sin(om) * math.cos(inc), math.cos(om) * math.cos(inc), math.sin(inc)])
    n = np.cross(p, q)
    amp = math.radians(e)
    d = TWO_PI * (t - row[8])
    v = np.outer(np.cos(th), p) + np.outer(np.sin(th), q) + amp * np.outer(np.sin(d), n) + amp * np.outer(np.cos(d), p)
    dv = rate * (np.outer(-np.sin(th), p) + np.outer(np.cos(th), q)) + TWO_PI * amp * (np.outer(np.cos(d), n) - np.outer(np.sin(d), p))
    return v, dv


def truth(row, t):
    """dict of ephemeris values of one packed orbit at times t (MJD, already in the row's own scale)"""
    t = np.atleast_1d(np.asarray(t, float))
    v, dv = path(row, t)
    r = np.sqrt((v**2).sum(1))
    x, y, z = v[:, 0], v[:, 1], v[:, 2]
    dx, dy, dz = dv[:, 0], dv[:, 1], dv[:, 2]
    rho2 = x * x + y * y
    ra = np.degrees(np.arctan2(y, x)) % 360.0
    dec = np.degrees(np.arctan2(z, np.sqrt(rho2)))
    dra = np.degrees((x * dy - y * dx) / rho2)
    ddec = np.degrees((dz * rho2 - z * (x * dx + y * dy)) / (np.sqrt(rho2) * r * r))
    s = TWO_PI * (t - row[8]) / (200.0 + 37.0 * row[1])
    geo = 1.0 + row[1] * (1 + 0.2 * np.sin(s))
    mag = row[10] + 5 * np.log10(geo) + 0.3 * np.sin(s + 2) + row[11]
    if row[10] > 90:  # a stretch without a brightness
        mag = np.where((t > row[8] + 2) & (t < row[8] + 4), np.nan, mag)
    return dict(time=t, ra=ra, dec=dec, dradt=dra * np.cos(np.radians(dec)), ddecdt=ddec, phase=10 + 5 * np.sin(s + 1),
                solarelon=120 + 40 * np.sin(s + row[5]), helio_dist=geo + 0.5, geo_dist=geo,
                magV=mag, trueAnomaly=np.degrees(s) % 360)


BASIC = ["time", "ra", "dec", "dradt", "ddecdt", "phase", "solarelon", "helio_dist", "geo_dist", "magV", "trueAnomaly"]


def basic(in_orbits, in_obscode, in_date_ephems, in_dynmodel):
    calls.append(("basic", in_dynmodel, in_obscode, len(in_orbits), len(in_date_ephems)))
    out = np.zeros((len(in_orbits), len(in_date_ephems), 11))
    for i, row in enumerate(in_orbits):
        tr = truth(seen(row, in_obscode, in_dynmodel), when(in_date_ephems))
        tr["time"] = in_date_ephems[:, 0]
        for j, k in enumerate(BASIC):
            out[i, :, j] = tr[k]
    return out, fail["code"]


def full(in_orbits, in_obscode, in_date_ephems, in_dynmodel):
    calls.append(("full", in_dynmodel, in_obscode, len(in_orbits), len(in_date_ephems)))
    out = np.zeros((len(in_orbits), len(in_date_ephems), 34))
    for i, row in enumerate(in_orbits):
        tr = truth(seen(row, in_obscode, in_dynmodel), when(in_date_ephems))
        tr["time"] = in_date_ephems[:, 0]
        for j, k in enumerate(BASIC[:10]):
            out[i, :, j] = tr[k]
        for j in range(10, 33):
            out[i, :, j] = (i + 1) * 100 + j + 0.001 * np.arange(len(in_date_ephems))
        out[i, :, 33] = tr["trueAnomaly"]
    return out, fail["code"]


def transform(in_orbits, in_element_type):
    out = np.array(in_orbits, order="F")
    out[:, 1:7] = out[:, 1:7] + 0.001 * in_element_type
    out[:, 7] = in_element_type
    return out, fail["code"]


def propagate(in_orbits, in_dynmodel, in_epoch):
    out = np.array(in_orbits, order="F")
    out[:, 6] = out[:, 6] + 0.001 * (in_epoch[0][0] - out[:, 8])
    out[:, 8] = in_epoch[0][0]
    return out, fail["code"]


def install():
    m = types.ModuleType("pyoorb")
    m.pyoorb = types.SimpleNamespace(oorb_init=lambda ephemeris_fname=None: 0, oorb_ephemeris_basic=basic, oorb_ephemeris_full=full,
                                     oorb_element_transformation=transform, oorb_propagation=propagate)
    sys.modules["pyoorb"] = m
