"""Synthetic stand-ins for the data files that are absent offline, and random visit tables."""
import os

import numpy as np


def fov_map(path, n=201, half=2.2, seed=5):
    """A camera footprint file: a grid of rafts with gaps, not symmetric under rotation or transposition."""
    x = np.linspace(-half, half, n)
    img = np.zeros((n, n), bool)
    raft = 0.68
    for i in range(-2, 3):
        for j in range(-2, 3):
            if abs(i) == 2 and abs(j) == 2:
                continue
            cx, cy = i * 0.7, j * 0.7
            m = (np.abs(x[:, None] - cx) < raft / 2) & (np.abs(x[None, :] - cy) < raft / 2)
            img |= m
    # break the symmetries
    img[(x[:, None] > 0.9) & (np.abs(x[None, :]) < 0.3)] = False
    img[(np.abs(x[:, None]) < 0.2) & (x[None, :] > 1.2)] = False
    img[(x[:, None] < -1.2) & (x[None, :] < 0)] = False
    os.makedirs(os.path.dirname(path), exist_ok=True)
    np.savez(path, image=img, x=x)
    return x, img


def camera_inside(xgrid_deg, img, max_radius, pra, pdec, vra, vdec, vrot, eps=2e-9):
    """Oracle of the footprint: (inside, ambiguous) for one point and many visits; all angles in radians.

    Point projected about... the documented convention of the footprint: the point's tangent-plane position
    relative to the pointing, rotated by the sky rotation angle, looked up on the nearest map pixel."""
    vra, vdec, vrot = np.atleast_1d(vra), np.atleast_1d(vdec), np.atleast_1d(vrot)
    xg = np.radians(xgrid_deg)
    step = xg[1] - xg[0]
    n = len(xg)
    im = img.copy()
    rr = np.sqrt(xg[:, None] ** 2 + xg[None, :] ** 2)
    im[rr > np.radians(max_radius)] = False
    cosc = np.sin(vdec) * np.sin(pdec) + np.cos(vdec) * np.cos(pdec) * np.cos(pra - vra)
    px = np.cos(pdec) * np.sin(pra - vra) / cosc
    py = (np.cos(vdec) * np.sin(pdec) - np.sin(vdec) * np.cos(pdec) * np.cos(pra - vra)) / cosc
    rx = px * np.cos(vrot) - py * np.sin(vrot)
    ry = px * np.sin(vrot) + py * np.cos(vrot)

    def look(dx, dy):
        ix = np.round((rx + dx - xg[0]) / step)
        iy = np.round((ry + dy - xg[0]) / step)
        ok = (ix >= 0) & (ix < n) & (iy >= 0) & (iy < n) & np.isfinite(ix) & np.isfinite(iy)
        out = np.zeros(len(vra), bool)
        out[ok] = im[ix[ok].astype(int), iy[ok].astype(int)]
        return out
    base = look(0, 0)
    amb = np.zeros(len(vra), bool)
    for dx in (-eps, 0, eps):
        for dy in (-eps, 0, eps):
            amb |= look(dx, dy) != base
    return base, amb


def unit(ra, dec):
    return np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec) * np.ones_like(ra)], axis=-1)


def angsep(ra1, dec1, ra2, dec2):
    """accurate angular separation, radians, broadcasting"""
    a, b = unit(np.asarray(ra1, float), np.asarray(dec1, float)), unit(np.asarray(ra2, float), np.asarray(dec2, float))
    cr = np.linalg.norm(np.cross(a, b), axis=-1)
    return np.arctan2(cr, np.sum(a * b, axis=-1))


def radec(c, n, kind=None):
    """degrees; hostile distributions"""
    kind = kind or c.choice(["sky", "south", "npole", "spole", "wrap", "cluster", "dup", "grid"])
    r = c.rng
    if kind == "sky":
        ra, dec = r.uniform(0, 360, n), np.degrees(np.arcsin(r.uniform(-1, 1, n)))
    elif kind == "south":
        ra, dec = r.uniform(0, 360, n), r.uniform(-75, 5, n)
    elif kind == "npole":
        ra, dec = r.uniform(0, 360, n), 90 - np.abs(r.normal(0, 2, n))
    elif kind == "spole":
        ra, dec = r.uniform(0, 360, n), -90 + np.abs(r.normal(0, 2, n))
    elif kind == "wrap":
        ra, dec = r.normal(0, 3, n) % 360, r.uniform(-40, 20, n)
    elif kind == "cluster":
        a, d = r.uniform(0, 360), r.uniform(-70, 30)
        ra, dec = (a + r.normal(0, 2, n)) % 360, np.clip(d + r.normal(0, 2, n), -90, 90)
    elif kind == "dup":
        k = max(1, n // 5)
        a, d = r.uniform(0, 360, k), r.uniform(-80, 30, k)
        i = r.integers(0, k, n)
        ra, dec = a[i], d[i]
    else:
        ra, dec = r.choice([0.0, 45.0, 90.0, 180.0, 270.0, 359.999999], n), r.choice([-90.0, -45.0, 0.0, 41.8, 90.0], n)
    return kind, ra, dec


BANDS = {"u": (330, 400), "g": (405, 550), "r": (545, 690), "i": (690, 820), "z": (815, 920), "y": (925, 1050)}


def throughputs(data_dir):
    """<data_dir>/throughputs/baseline/total_*.dat (and the hardware pieces): smooth top-hats on the LSST bands."""
    d = os.path.join(data_dir, "throughputs", "baseline")
    os.makedirs(d, exist_ok=True)
    w = np.arange(300.0, 1150.0 + 0.05, 0.5)
    for b, (lo, hi) in BANDS.items():
        t = 0.4 / (1 + np.exp(-(w - lo) / 4.0)) / (1 + np.exp((w - hi) / 5.0))
        t[t < 1e-6] = 0
        for nm, f in (("total_", 1.0), ("hardware_", 1.3), ("filter_", 1.6)):
            np.savetxt(os.path.join(d, f"{nm}{b}.dat"), np.column_stack([w, t * f]), fmt="%.4f %.10f")
    return d
