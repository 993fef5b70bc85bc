"""Independent spherical geometry used as oracle (numpy, no code shared with the tools)."""
import numpy as np
R = 6371000.0
D = np.pi / 180


def xyz(lon, lat):
    """degrees -> unit vectors, last axis 3"""
    lon, lat = np.asarray(lon) * D, np.asarray(lat) * D
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def gcdist(a, b):
    """angle between unit vectors (well conditioned)"""
    return 2 * np.arcsin(np.clip(np.sqrt(((a - b) ** 2).sum(-1)) / 2, 0, 1))


def chord(lon1, lat1, lon2, lat2):
    return np.sqrt(((xyz(lon1, lat1) - xyz(lon2, lat2)) ** 2).sum(-1))


def tri_area(a, b, c):
    """solid angle of a spherical triangle, signed (Van Oosterom-Strackee)"""
    n = np.einsum('...i,...i', a, np.cross(b, c))
    d = 1 + np.einsum('...i,...i', a, b) + np.einsum('...i,...i', b, c) + np.einsum('...i,...i', c, a)
    return 2 * np.arctan2(n, d)


def gc_cell_area(lon, lat):
    """areas (m2) of the cells of a vertex grid, great-circle edges"""
    p = xyz(lon, lat)
    a, b, c, d = p[:-1, :-1], p[:-1, 1:], p[1:, 1:], p[1:, :-1]
    return (tri_area(a, b, c) + tri_area(a, c, d)) * R * R


def ll_edge(lon1, lat1, lon2, lat2):
    """integral of -sin(lat) dlon along an edge that is straight in lon-lat (degrees)"""
    dx = (np.asarray(lon2) - lon1 + 180.0) % 360.0 - 180.0
    dx = np.where(np.isclose(np.abs(np.asarray(lon2) - lon1), 180, atol=1e-9), np.asarray(lon2) - lon1, dx) * D
    h = 0.5 * (np.asarray(lat2) - lat1) * D
    m = 0.5 * (np.asarray(lat2) + lat1) * D
    s = np.where(np.abs(h) < 1e-6, 1 - h * h / 6, np.sin(h) / np.where(h == 0, 1, h))
    return -dx * np.sin(m) * s


def ll_cell_area(lon, lat):
    """areas (m2) of cells with edges straight in lon-lat; no vertex at a pole"""
    e = ll_edge(lon[:, :-1], lat[:, :-1], lon[:, 1:], lat[:, 1:])
    n = ll_edge(lon[:-1, :], lat[:-1, :], lon[1:, :], lat[1:, :])
    return (e[:-1] + n[:, 1:] - e[1:] - n[:, :-1]) * R * R


def relerr(a, b, floor=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return float(np.max(np.abs(a - b) / np.maximum(np.maximum(np.abs(a), np.abs(b)), floor + 1e-300))) if a.size else 0.0


def pchip(g1, g2, v):
    """monotone piecewise cubic (Fritsch-Carlson weights, three-point end slopes)"""
    g1, g2, v = map(lambda a: np.asarray(a, float), (g1, g2, v))
    n = len(g1)
    h, dl = np.diff(g1), np.diff(v) / np.diff(g1)
    if n == 2:
        return v[0] + dl[0] * (g2 - g1[0])
    d = np.zeros(n)
    for k in range(1, n - 1):
        if dl[k] * dl[k - 1] > 0:
            w1, w2 = 2 * h[k] + h[k - 1], h[k] + 2 * h[k - 1]
            d[k] = (w1 + w2) / (w1 / dl[k - 1] + w2 / dl[k])

    def end(h0, h1, d0, d1):
        s = ((2 * h0 + h1) * d0 - h0 * d1) / (h0 + h1)
        if s * d0 < 0:
            return 0.0
        if d0 * d1 < 0 and abs(s) > abs(3 * d0):
            return 3 * d0
        return s
    d[0] = end(h[0], h[1], dl[0], dl[1])
    d[-1] = end(h[-1], h[-2], dl[-1], dl[-2])
    k = np.clip(np.searchsorted(g1, g2, side='left') - 1, 0, n - 2)
    t = (g2 - g1[k]) / h[k]
    h00, h10 = (1 + 2 * t) * (1 - t) ** 2, t * (1 - t) ** 2
    h01, h11 = t * t * (3 - 2 * t), t * t * (t - 1)
    return h00 * v[k] + h10 * h[k] * d[k] + h01 * v[k + 1] + h11 * h[k] * d[k + 1]
