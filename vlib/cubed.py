"""Cell neighbourhoods and gradients on a cubed sphere (Green's theorem with great-circle sides)."""
import numpy as np


def xyz(lon, lat):
    a, b = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)], -1)


def ang(a, b):
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), (a * b).sum(-1))


def excess(a, b, c, d):
    """area of the quadrangle on the unit sphere"""
    def tri(p, q, r):
        return 2 * np.arctan2(np.abs((p * np.cross(q, r)).sum(-1)), 1 + (p * q).sum(-1) + (q * r).sum(-1) + (r * p).sum(-1))
    return tri(a, b, c) + tri(a, c, d)


class Cubed:
    def __init__(self, G):
        self.C = [xyz(*G.corners(t)) for t in range(len(G.tiles))]
        self.T = [xyz(*G.centers(t)) for t in range(len(G.tiles))]
        self.lon = [np.radians(G.centers(t)[0]) for t in range(len(G.tiles))]
        self.lat = [np.radians(G.centers(t)[1]) for t in range(len(G.tiles))]
        edges = {}
        self.link = []
        for t, c in enumerate(self.C):
            n = c.shape[0] - 1
            L = {}
            for k in range(n):
                for side, (p, q, cell, halo) in {'s': (c[0, k], c[0, k + 1], (0, k), (0, k + 1)), 'n': (c[n, k], c[n, k + 1], (n - 1, k), (n + 1, k + 1)),
                                                 'w': (c[k, 0], c[k + 1, 0], (k, 0), (k + 1, 0)), 'e': (c[k, n], c[k + 1, n], (k, n - 1), (k + 1, n + 1))}.items():
                    m = p + q
                    L[halo] = m
                    edges.setdefault(tuple(np.round(m, 6) + 0.0), []).append((t, cell))
            self.link.append(L)
        for t, L in enumerate(self.link):
            for h, m in L.items():
                o = [e for e in edges[tuple(np.round(m, 6) + 0.0)] if e[0] != t]
                assert len(o) == 1
                L[h] = o[0]

    def halo(self, f):
        """list of (n, n, ...) arrays -> with one row of neighbours; the four corners have none (nan)"""
        out = []
        for t, a in enumerate(f):
            n = a.shape[0]
            h = np.full((n + 2, n + 2) + a.shape[2:], np.nan)
            h[1:-1, 1:-1] = a
            for p, (u, cell) in self.link[t].items():
                h[p] = f[u][cell]
            out.append(h)
        return out

    def gradient(self, f):
        """per tile (gx, gy) along east and north, per radian; nan where a neighbour is nan"""
        H = self.halo(f)
        if not hasattr(self, 'TH'):
            self.TH = self.halo(self.T)
        out = []
        for t, h in enumerate(H):
            c, th = self.C[t], self.TH[t]
            n = c.shape[0] - 1
            pb = np.full((n + 1, n + 1), np.nan)
            pb[1:-1, 1:-1] = 0.25 * (h[1:-2, 1:-2] + h[1:-2, 2:-1] + h[2:-1, 1:-2] + h[2:-1, 2:-1])
            pb[0, 0] = (h[1, 1] + h[0, 1] + h[1, 0]) / 3
            pb[0, n] = (h[1, n] + h[0, n] + h[1, n + 1]) / 3
            pb[n, 0] = (h[n, 1] + h[n + 1, 1] + h[n, 0]) / 3
            pb[n, n] = (h[n, n] + h[n + 1, n] + h[n, n + 1]) / 3

            def side(ha, hb, ta, tb, cc):
                q = 0.5 * (ha + hb)
                m = ta + tb
                m = m / np.linalg.norm(m, axis=-1, keepdims=True)
                d1, d2 = ang(m[:-1], cc), ang(m[1:], cc)
                w = d2 / (d1 + d2)
                return w * q[:-1] + (1 - w) * q[1:]
            pb[0, 1:n] = side(h[0, 1:n + 1], h[1, 1:n + 1], th[0, 1:n + 1], th[1, 1:n + 1], c[0, 1:n])
            pb[n, 1:n] = side(h[n + 1, 1:n + 1], h[n, 1:n + 1], th[n + 1, 1:n + 1], th[n, 1:n + 1], c[n, 1:n])
            pb[1:n, 0] = side(h[1:n + 1, 0], h[1:n + 1, 1], th[1:n + 1, 0], th[1:n + 1, 1], c[1:n, 0])
            pb[1:n, n] = side(h[1:n + 1, n + 1], h[1:n + 1, n], th[1:n + 1, n + 1], th[1:n + 1, n], c[1:n, n])
            P = [c[:-1, :-1], c[:-1, 1:], c[1:, 1:], c[1:, :-1]]
            q = [pb[:-1, :-1], pb[:-1, 1:], pb[1:, 1:], pb[1:, :-1]]
            g = np.zeros((n, n, 3))
            for k in range(4):
                a, b = P[k], P[(k + 1) % 4]
                nn = np.cross(b, a)
                nn /= np.linalg.norm(nn, axis=-1, keepdims=True)
                g += (0.5 * (q[k] + q[(k + 1) % 4]) * ang(a, b))[..., None] * nn
            g /= excess(*P)[..., None]
            lo, la = self.lon[t], self.lat[t]
            e = np.stack([-np.sin(lo), np.cos(lo), 0 * lo], -1)
            no = np.stack([-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)], -1)
            out.append(((g * e).sum(-1), (g * no).sum(-1)))
        return out

    def around(self, f):
        """per tile: (any neighbour missing, minimum, maximum) over the cell and its neighbours"""
        r = []
        for h in self.halo(f):
            n = h.shape[0] - 2
            lo, hi, bad = np.full((n, n), np.inf), np.full((n, n), -np.inf), np.zeros((n, n), bool)
            for a in range(3):
                for b in range(3):
                    v = h[a:a + n, b:b + n]
                    ex = np.ones((n, n), bool)          # the neighbour exists
                    for jj, ii in ((0, 0), (0, n - 1), (n - 1, 0), (n - 1, n - 1)):
                        if jj + a in (0, n + 1) and ii + b in (0, n + 1):
                            ex[jj, ii] = False
                    if (a, b) != (1, 1):
                        bad |= np.isnan(v) & ex
                    lo, hi = np.fmin(lo, v), np.fmax(hi, v)
            r.append((bad, lo, hi))
        return r
