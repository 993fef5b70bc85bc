"""Reference exchange grid: overlap areas of cells whose edges are straight in longitude-latitude."""
import math
import numpy as np
from vlib.geo import R, D

H = math.pi / 2
TP = 2 * math.pi


def poly(x, y):
    """corner lists in degrees -> list of (lon, lat) in radians, unwrapped, pole corners doubled"""
    p = [(a * D, b * D) for a, b in zip(x, y)]
    n = len(p)
    q = []
    at = [abs(v[1]) >= H - 1e-6 for v in p]
    if all(at):
        return []
    for i in range(n):
        if at[i]:
            b, f = p[(i - 1) % n], p[(i + 1) % n]
            s = math.copysign(H, p[i][1])
            if not at[(i - 1) % n]:
                q.append((b[0], s))
            if not at[(i + 1) % n]:
                q.append((f[0], s))
        else:
            q.append(p[i])
    out = [q[0]]
    for v in q[1:]:
        l = v[0]
        while l - out[-1][0] > math.pi + 1e-12:
            l -= TP
        while l - out[-1][0] < -math.pi - 1e-12:
            l += TP
        out.append((l, v[1]))
    return out


def area(p):
    """signed area (m2) of the region left of a closed lon-lat polygon"""
    s = 0.0
    n = len(p)
    for i in range(n):
        x1, y1 = p[i]
        x2, y2 = p[(i + 1) % n]
        d = 0.5 * (y2 - y1)
        s -= (x2 - x1) * math.sin(0.5 * (y1 + y2)) * (math.sin(d) / d if abs(d) > 1e-9 else 1.0)
    return s * R * R


def clip(p, b):
    """Sutherland-Hodgman: part of polygon p inside the convex counterclockwise polygon b"""
    m = len(b)
    for k in range(m):
        if not p:
            return p
        ax, ay = b[k]
        dx, dy = b[(k + 1) % m][0] - ax, b[(k + 1) % m][1] - ay
        if abs(dx) < 1e-12 and abs(dy) < 1e-12:
            continue
        out = []
        px, py = p[-1]
        ps = dx * (py - ay) - dy * (px - ax)
        for (x, y) in p:
            s = dx * (y - ay) - dy * (x - ax)
            if (s >= 0) != (ps >= 0):
                t = ps / (ps - s)
                out.append((px + t * (x - px), py + t * (y - py)))
            if s >= 0:
                out.append((x, y))
            px, py, ps = x, y, s
        p = out
    return p


def convex(b):
    m = len(b)
    sg = []
    for k in range(m):
        (x0, y0), (x1, y1), (x2, y2) = b[k], b[(k + 1) % m], b[(k + 2) % m]
        sg.append((x1 - x0) * (y2 - y1) - (y1 - y0) * (x2 - x1))
    return all(v >= -1e-14 for v in sg) or all(v <= 1e-14 for v in sg)


def parts(b):
    """signed convex counterclockwise pieces of a polygon"""
    if convex(b):
        return [(1.0, b if flat(b) > 0 else b[::-1])]
    s = 1.0 if flat(b) > 0 else -1.0
    out = []
    for k in range(1, len(b) - 1):
        t = [b[0], b[k], b[k + 1]]
        f = flat(t)
        if f == 0:
            continue
        out.append((s if f > 0 else -s, t if f > 0 else t[::-1]))
    return out


def flat(p):
    return sum(p[i][0] * p[(i + 1) % len(p)][1] - p[(i + 1) % len(p)][0] * p[i][1] for i in range(len(p)))


def shift(p, d):
    return [(x + d, y) for x, y in p] if d else p


class Cells:
    """cells of one tile from its corner arrays (degrees, (ny+1, nx+1))"""

    def __init__(self, x, y):
        self.ny, self.nx = x.shape[0] - 1, x.shape[1] - 1
        self.p = []
        for j in range(self.ny):
            for i in range(self.nx):
                self.p.append(poly([x[j, i], x[j, i + 1], x[j + 1, i + 1], x[j + 1, i]], [y[j, i], y[j, i + 1], y[j + 1, i + 1], y[j + 1, i]]))
        self.area = np.array([abs(area(q)) if q else 0.0 for q in self.p])
        z = [(0, 0)]
        self.mid = np.array([np.mean([v[0] for v in q or z]) for q in self.p])
        self.bb = np.array([[min(v[0] for v in q or z), max(v[0] for v in q or z), min(v[1] for v in q or z), max(v[1] for v in q or z)] for q in self.p])


GX, GW = np.polynomial.legendre.leggauss(6)


def moments(p, lon0):
    """(area, integral of latitude, integral of cos(lat)*(lon-lon0)) over the region left of the polygon"""
    q = np.array(p)
    r = np.roll(q, -1, 0)
    dx = (r[:, 0] - q[:, 0])[:, None]
    t = 0.5 * (GX + 1)
    la = q[:, 1][:, None] + (r[:, 1] - q[:, 1])[:, None] * t
    lo = q[:, 0][:, None] + dx * t - lon0
    w = -0.5 * GW * dx * R * R
    sl, cl = np.sin(la), np.cos(la)
    g = 0.5 * (np.cos(q[:, 1]) * np.sin(q[:, 1]) + q[:, 1]) * (q[:, 0] - lon0)
    trap = -R * R * (dx[:, 0] * 0.5 * (g + np.roll(g, -1))).sum()      # the published line integral (Jones 1999), trapezoidal along each side
    return np.array([(w * sl).sum(), (w * (cl + la * sl)).sum(), (w * lo * 0.5 * (cl * sl + la)).sum(), trap])


def overlap(A, B, mom=False):
    """dict {(cell of A, cell of B): area (or moments)}; areas of zero width are left out"""
    out = {}
    pb = [parts(q) if q else [] for q in B.p]
    for a, q in enumerate(A.p):
        if not q:
            continue
        qa = None
        x0, x1, y0, y1 = A.bb[a]
        for k in (-2, -1, 0, 1, 2):
            d = k * TP
            idx = np.nonzero((B.bb[:, 0] + d < x1) & (B.bb[:, 1] + d > x0) & (B.bb[:, 2] < y1) & (B.bb[:, 3] > y0))[0]
            for b in idx:
                s = 0.0
                w = shift(q, -d)
                for sg, c in pb[b]:
                    r = clip(w, c)
                    if len(r) > 2:
                        if mom:
                            s = s + sg * (1 if flat(w) > 0 else -1) * moments(r, A.mid[a] - d)
                        else:
                            s += sg * abs_area(r, w)
                if (s[0] if mom and np.ndim(s) else s) > 0:
                    out[(a, int(b))] = out.get((a, int(b)), 0.0) + s
    return out


def abs_area(r, w):
    return area(r) if flat(w) > 0 else -area(r)


def vec(x, y):
    x, y = x * D, y * D
    return np.array([math.cos(y) * math.cos(x), math.cos(y) * math.sin(x), math.sin(y)])


def tri(a, b, c):
    return 2 * math.atan2(float(np.dot(a, np.cross(b, c))), 1 + float(a @ b) + float(b @ c) + float(c @ a))


def garea(p):
    """signed area of a spherical polygon with great-circle sides"""
    return R * R * sum(tri(p[0], p[k], p[k + 1]) for k in range(1, len(p) - 1))


class GCells:
    """cells with great-circle sides"""

    def __init__(self, x, y):
        self.ny, self.nx = x.shape[0] - 1, x.shape[1] - 1
        self.p = []
        for j in range(self.ny):
            for i in range(self.nx):
                q = []
                for (a, b) in ((j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i)):
                    v = vec(x[a, b], y[a, b])
                    if not q or np.abs(v - q[-1]).max() > 1e-12:
                        q.append(v)
                if len(q) > 1 and np.abs(q[0] - q[-1]).max() < 1e-12:
                    q.pop()
                if len(q) > 2 and garea(q) < 0:
                    q = q[::-1]
                self.p.append(q if len(q) > 2 else [])
        self.area = np.array([garea(q) if q else 0.0 for q in self.p])
        self.cen = np.array([np.sum(q, 0) / np.linalg.norm(np.sum(q, 0)) if q else [0, 0, 1.0] for q in self.p])
        self.rad = np.array([max([math.acos(max(-1, min(1, float(v @ k)))) for v in q] or [0]) for q, k in zip(self.p, self.cen)])


def gclip(p, b):
    m = len(b)
    for k in range(m):
        if len(p) < 3:
            return []
        n = np.cross(b[k], b[(k + 1) % m])
        l = np.linalg.norm(n)
        if l < 1e-13:
            continue
        n = n / l
        out = []
        pv = p[-1]
        ps = float(n @ pv)
        for v in p:
            s = float(n @ v)
            if (s >= 0) != (ps >= 0):
                w = pv + (v - pv) * (ps / (ps - s))
                out.append(w / np.linalg.norm(w))
            if s >= 0:
                out.append(v)
            pv, ps = v, s
        p = out
    return p


def overlap_gc(A, B):
    out = {}
    for a, q in enumerate(A.p):
        if not q:
            continue
        d = np.arccos(np.clip(B.cen @ A.cen[a], -1, 1))
        for b in np.nonzero(d < A.rad[a] + B.rad + 1e-9)[0]:
            if not B.p[b]:
                continue
            r = gclip(q, B.p[b])
            if len(r) > 2:
                s = garea(r)
                if s > 0:
                    out[(a, int(b))] = s
    return out
