"""Reference models, written from the documentation and the literature, in double precision (or better).

None of them imports the tested package.
"""
import itertools

import numpy as np
from scipy.interpolate import make_interp_spline

from lib.core import R_EARTH, Violation, as_np, check_lonlat_range, check_shape, distance, unit

# ---------------------------------------------------------------- sphere


def lonlat2xyz(lon, lat, radius=R_EARTH):
    return tuple(radius * c for c in np.moveaxis(unit(lon, lat), -1, 0))


def latitudes(x, y, z, radius):
    """Latitude from the height above the equator plane, and from the distance to the axis."""
    with np.errstate(invalid="ignore"):
        lat_z = np.rad2deg(np.arcsin(np.clip(z / radius, -1, 1)))
        lat_r = np.sign(z) * np.rad2deg(np.arccos(np.clip(np.hypot(x, y) / radius, 0, 1)))
    return lat_z, lat_r


def check_places_xyz(lon, lat, xyz, tol, what, radius=R_EARTH, thr=0.8, fuzz=1e-9, metric=R_EARTH):
    """lon/lat are the places of the Cartesian points xyz (which may lie a little off the sphere).

    The documented rule is: latitude from z below *thr* (relative height), from x and y above; within *fuzz* of the
    threshold either is right.  tol in metres on the ground (scalar or array).
    """
    lon, lat = as_np(lon, what + " longitude"), as_np(lat, what + " latitude")
    x, y, z = (np.asarray(c, dtype=np.float64) for c in xyz)
    check_shape(lon, x.shape, what + " longitude")
    check_shape(lat, x.shape, what + " latitude")
    check_lonlat_range(lon, lat, what)
    elon = np.rad2deg(np.arctan2(y, x))
    lat_z, lat_r = latitudes(x, y, z, radius)
    rel = np.abs(z / radius)
    d_z = distance(lon, lat, elon, lat_z, metric)
    d_r = distance(lon, lat, elon, lat_r, metric)
    dist = np.where(rel < thr - fuzz, d_z, np.where(rel > thr + fuzz, d_r, np.minimum(d_z, d_r)))
    bad = ~(dist <= tol)
    if bad.any():
        idx = np.unravel_index(np.argmax(np.where(bad, np.where(np.isnan(dist), np.inf, dist), -1)), bad.shape)
        exp = lat_z if rel[idx] < thr else lat_r
        raise Violation("%s: %d of %d places differ; at %s got (%r, %r), expected (%r, %r): %.4g m (tolerance %.3g)"
                        % (what, bad.sum(), bad.size, tuple(int(i) for i in idx), float(lon[idx]), float(lat[idx]),
                           float(elon[idx]), float(exp[idx]), float(dist[idx]),
                           float(np.broadcast_to(tol, bad.shape)[idx])))
    with np.errstate(divide="ignore", invalid="ignore"):
        return float((dist / tol).max()) if dist.size else 0.0


# ---------------------------------------------------------------- multilinear


def multilinear(smin, smax, orders, values, points, eps):
    """N-linear blend of the corners of the (nearest) cell; returns values (rows x points) and a rounding bound."""
    ld = np.longdouble
    dims = len(orders)
    values = np.asarray(values, dtype=ld).reshape((-1,) + tuple(orders))
    points = np.asarray(points, dtype=ld)
    low, frac, dpos = [], [], []
    for k in range(dims):
        a, b = ld(smin[k]), ld(smax[k])
        pos = (points[k] - a) / (b - a) * (orders[k] - 1)
        cell = np.minimum(np.maximum(np.floor(pos), 0), orders[k] - 2).astype(int)
        low.append(cell)
        frac.append(pos - cell)
        dpos.append(8 * eps * (np.abs(pos) + 1e-30))
    out = np.zeros((values.shape[0], points.shape[1]), dtype=ld)
    for corner in itertools.product((0, 1), repeat=dims):
        weight = np.ones(points.shape[1], dtype=ld)
        for k, c in enumerate(corner):
            weight = weight * (frac[k] if c else 1 - frac[k])
        idx = tuple(low[k] + corner[k] for k in range(dims))
        out += values[(slice(None),) + idx] * weight
    spread = [np.abs(f) + np.abs(1 - f) for f in frac]
    vmax = np.abs(values.reshape(values.shape[0], -1)).max(axis=1)[:, None]
    bound = 16 * dims * eps * np.prod(spread, axis=0)
    for k in range(dims):
        others = [spread[m] for m in range(dims) if m != k]
        bound = bound + 4 * dpos[k] * (np.prod(others, axis=0) if others else 1)
    return out, vmax * bound


# ---------------------------------------------------------------- splines


def spline1d(pos, data, fine, degree, axis):
    return make_interp_spline(np.asarray(pos, float), np.asarray(data, float), k=degree, axis=axis)(
        np.asarray(fine, float))


def tensor_spline(rows, cols, data, fine_rows, fine_cols, kx, ky):
    """Interpolating tensor product spline (not-a-knot), first order along rows."""
    tmp = spline1d(cols, data, fine_cols, ky, 1)
    return spline1d(rows, tmp, fine_rows, kx, 0)


def rows_spline(cols, data, fine_cols, ky):
    return spline1d(cols, data, fine_cols, ky, 1)


def bilinear(rows, cols, data, fine_rows, fine_cols):
    """Bilinear interpolation, written out (positions inside the grid)."""
    rows, cols, data = np.asarray(rows, float), np.asarray(cols, float), np.asarray(data, float)

    def cells(tie, fine):
        fine = np.asarray(fine, float)
        idx = np.clip(np.searchsorted(tie, fine, side="right") - 1, 0, len(tie) - 2)
        return idx, (fine - tie[idx]) / (tie[idx + 1] - tie[idx])

    i, a = cells(rows, fine_rows)
    j, b = cells(cols, fine_cols)
    a, b = a[:, None], b[None, :]
    i, j = i[:, None], j[None, :]
    return ((1 - a) * ((1 - b) * data[i, j] + b * data[i, j + 1])
            + a * ((1 - b) * data[i + 1, j] + b * data[i + 1, j + 1]))


# ---------------------------------------------------------------- border filling


def line(p0, v0, p1, v1, pos):
    return v0 + (v1 - v0) * ((pos - p0) / (p1 - p0))


def fill_cols(cols, data, fine_cols):
    cols, data = list(map(float, cols)), np.asarray(data, float)
    first, last = float(fine_cols[0]), float(fine_cols[-1])
    left = [] if cols[0] == first else [line(cols[0], data[:, 0], cols[1], data[:, 1], first)]
    right = [] if cols[-1] == last else [line(cols[-2], data[:, -2], cols[-1], data[:, -1], last)]
    out = np.column_stack(left + [data] + right)
    pos = ([first] if left else []) + cols + ([last] if right else [])
    return np.array(pos), out


def fill_rows(rows, data, fine_rows, chunk):
    """Chunk-wise linear continuation to the first and last fine row of every chunk of fine rows."""
    rows, data = np.asarray(rows, float), np.asarray(data, float)
    fine_rows = np.asarray(fine_rows, float)
    chunk = chunk or len(fine_rows)
    pos, out = [], []
    for start in range(0, len(fine_rows), chunk):
        first, last = fine_rows[start], fine_rows[start + chunk - 1]
        mine = np.nonzero((rows >= first) & (rows <= last))[0]
        p, d = rows[mine], data[mine]
        if p[0] != first:
            pos.append(first)
            out.append(line(p[0], d[0], p[1], d[1], first))
        pos.extend(p)
        out.extend(d)
        if p[-1] != last:
            pos.append(last)
            out.append(line(p[-2], d[-2], p[-1], d[-1], last))
    return np.array(pos), np.array(out)


def filled_spline(rows, cols, data, fine_rows, fine_cols, kx, ky, chunk, dims=("y", "x")):
    for dim in dims:
        if dim == "x":
            cols, data = fill_cols(cols, data, fine_cols)
        else:
            rows, data = fill_rows(rows, data, fine_rows, chunk)
    if len(rows) == len(fine_rows) and np.array_equal(rows, fine_rows):
        return rows_spline(cols, data, fine_cols, ky)
    return tensor_spline(rows, cols, data, fine_rows, fine_cols, kx, ky)


def spline_weights(rows, cols, fine_rows, fine_cols, kx, ky, chunk=0, dims=()):
    """How much rounding of the tie data can grow: the sums of the sizes of the weights, per fine position."""
    eye_r, eye_c = np.eye(len(rows)), np.eye(len(cols))
    if "x" in dims:
        cols, eye_c = fill_cols(cols, eye_c, fine_cols)
    if "y" in dims:
        rows, eye_r = fill_rows(rows, eye_r, fine_rows, chunk)
    if len(rows) == len(fine_rows) and np.array_equal(rows, fine_rows):
        down = np.abs(eye_r).sum(axis=1)
    else:
        down = np.abs(spline1d(rows, eye_r, fine_rows, kx, 0)).sum(axis=1)
    return down[:, None] * np.abs(spline1d(cols, eye_c, fine_cols, ky, 1)).sum(axis=0)[None]


# ---------------------------------------------------------------- MODIS (CVIIRS)

R_KM = 6370.997
H_KM = 709.0
MODIS_WIDTH = 1354


def modis_cells(coarse, fine, width):
    """Cell index and position (in cells) of the fine pixels of a scan: (i, t) along track, (j, s) across track.

    1km: tie point (r, c) is the 1km pixel itself; 5km: it is the 1km pixel (5 r + 2, 5 c + 2).  Fine pixels share
    their first sample across track with the 1km pixel, and are centred on it along track.
    """
    f = 1000 // fine
    n = f * (coarse // 1000)
    rows_scan = 10 if coarse == 1000 else 2
    offset = 0 if coarse == 1000 else 2
    fine_rows = (np.arange(10 * f) + 0.5) / f - 0.5       # in 1km rows of the scan
    fine_cols = np.arange(MODIS_WIDTH * f) / f            # in 1km columns
    t = (fine_rows - offset) / (coarse / 1000)
    s = (fine_cols - offset) / (coarse / 1000)
    i = np.clip(np.floor(t), 0, rows_scan - 2).astype(int)
    j = np.clip(np.floor(s), 0, width - 2).astype(int)
    return i, t - i, j, s - j, n, rows_scan


def cviirs_coefficients(za, zb, spacing_km, eps=2.3e-16):
    """Expansion and alignment coefficients for the tie points' zenith angles (degrees).

    Tie points much closer in view angle than on the ground look to both sides of the subsatellite track; within
    rounding of that rule either reading is right (the last two values are what it changes).
    """
    za, zb = np.deg2rad(za), np.deg2rad(zb)
    ratio = R_KM / (R_KM + H_KM)
    phi_a, phi_b = np.arcsin(ratio * np.sin(za)), np.arcsin(ratio * np.sin(zb))
    th_a, th_b = za - phi_a, zb - phi_b
    phi = (phi_a + phi_b) / 2
    zeta = np.arcsin(np.sin(phi) / ratio)
    theta = zeta - phi
    beta = spacing_km / (2 * H_KM)
    d = (np.cos(phi) / ratio - np.cos(zeta)) * beta
    e = np.cos(zeta) - np.sqrt(np.cos(zeta) ** 2 - d ** 2)
    scale = np.abs(za) + np.abs(zb)
    apart = np.abs(th_a - th_b) - 0.01 * spacing_km / R_KM
    unsure = np.abs(apart) < 8 * eps * (scale + spacing_km / R_KM)

    def coefficients(den):
        with np.errstate(divide="ignore", invalid="ignore"):
            return (np.where(den == 0, 0.0, 4 * ((th_a + th_b) / 2 - theta) / den),
                    np.where(den == 0, 0.0, 4 * e * np.sin(zeta) / den))

    den = np.where(apart < 0, th_a + th_b, th_a - th_b)
    other = np.where(apart < 0, th_a - th_b, th_a + th_b)
    c_exp, c_ali = coefficients(den)
    o_exp, o_ali = coefficients(other)
    return (c_exp, c_ali, np.abs(den), scale, np.where(unsure, np.abs(c_exp - o_exp), 0.0),
            np.where(unsure, np.abs(c_ali - o_ali), 0.0))


def cviirs(lon, lat, satz, coarse, fine, eps):
    """Cartesian positions of the fine pixels (metres), and a rounding bound for arithmetic of precision eps."""
    lon, lat, satz = (np.asarray(a, dtype=np.float64) for a in (lon, lat, satz))
    width = lon.shape[1]
    i, t, j, s, _n, rows_scan = modis_cells(coarse, fine, width)
    spacing = coarse / 1000
    scans = lon.shape[0] // rows_scan
    xyz = np.stack(lonlat2xyz(lon, lat), axis=-1)
    out, tol = [], []
    t, s = t[:, None], s[None, :]
    ii, jj = i[:, None], j[None, :]
    for scan in range(scans):
        sl = slice(scan * rows_scan, (scan + 1) * rows_scan)
        p, z = xyz[sl], satz[sl]
        c_exp, c_ali, den, scale, x_exp, x_ali = cviirs_coefficients(z[:-1, :-1], z[:-1, 1:], spacing, eps)
        ce, ca = c_exp[ii, jj], c_ali[ii, jj]
        a = s + s * (1 - s) * ce + t * (1 - t) * ca
        # the coefficients are quotients of differences of rounded angles
        with np.errstate(divide="ignore", invalid="ignore"):
            rel = np.where(den == 0, 0, 6 * eps * (scale + 1e-30) / np.where(den == 0, 1, den))
        dce = 4 * rel * (1 + np.abs(c_exp)) + 8 * eps * (1 + np.abs(c_exp)) + x_exp
        dca = rel * (np.abs(c_ali) + 4 * 16 * eps) + 8 * eps * np.abs(c_ali) + x_ali \
            + np.where(den == 0, 0, 4 * 4 * eps / np.where(den == 0, 1, den)) * np.sin(np.deg2rad(z[:-1, :-1]) + 1e-9)
        da = np.abs(s * (1 - s)) * dce[ii, jj] + np.abs(t * (1 - t)) * dca[ii, jj] + 8 * eps * (1 + np.abs(a))
        A, B, C, D = p[ii, jj], p[ii, jj + 1], p[ii + 1, jj + 1], p[ii + 1, jj]
        a, tt = a[..., None], t[..., None]
        top = (1 - a) * A + a * B
        bottom = (1 - a) * D + a * C
        out.append((1 - tt) * top + tt * bottom)
        len_t = np.sqrt(((B - A) ** 2).sum(-1))
        len_b = np.sqrt(((C - D) ** 2).sum(-1))
        cond = (1 + 2 * np.abs(a[..., 0])) * (1 + 2 * np.abs(t))
        tol.append(da * (len_t * np.abs(1 - t) + len_b * np.abs(t)) + 5 * eps * R_EARTH * cond)
    if not out:
        shape = (0, s.shape[1])
        return np.zeros(shape + (3,)), np.zeros(shape)
    return np.concatenate(out), np.concatenate(tol)


def simple_modis(lon, lat, fine, xyz=None):
    """Cartesian positions of the scan-wise bilinear interpolation with linear continuation."""
    f = 1000 // fine
    if xyz is None:
        xyz = np.stack(lonlat2xyz(lon, lat), axis=-1)
    rows, cols = xyz.shape[:2]
    y = (np.arange(10 * f) + 0.5) / f - 0.5
    x = np.arange(cols * f) / f
    i = np.clip(np.floor(y), 0, 8).astype(int)
    j = np.clip(np.floor(x), 0, cols - 2).astype(int)
    a, b = (y - i)[:, None, None], (x - j)[None, :, None]
    ii, jj = i[:, None], j[None, :]
    out = []
    for scan in range(rows // 10):
        p = xyz[scan * 10:(scan + 1) * 10]
        out.append((1 - a) * ((1 - b) * p[ii, jj] + b * p[ii, jj + 1])
                   + a * ((1 - b) * p[ii + 1, jj] + b * p[ii + 1, jj + 1]))
    if not out:
        return np.zeros((0, cols * f, 3))
    return np.concatenate(out)


# ---------------------------------------------------------------- VII


def vii(data, per_scan, factor):
    """Bilinear interpolation scan by scan; tie (r, c) is at pixel (r * factor, c * factor)."""
    data = np.asarray(data, float)
    # whole pixels as positions: weights are exact quotients then
    rows = np.arange((per_scan - 1) * factor)
    cols = np.arange((data.shape[1] - 1) * factor)
    out = []
    for scan in range(data.shape[0] // per_scan):
        part = data[scan * per_scan:(scan + 1) * per_scan]
        out.append(bilinear(np.arange(per_scan) * factor, np.arange(data.shape[1]) * factor, part, rows, cols))
    return np.concatenate(out)
