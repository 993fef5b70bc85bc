"""Source and target grids for the regridding checks."""
import math, os, random
import numpy as np
from vlib import nc, grids, xg

CUBE_N = [2, 4, 4, 6, 8]


def draw(rng, kinds, big=1.0):
    k = rng.choice(kinds)
    g = {'kind': k, 'seed': rng.randrange(1 << 30)}
    if k == 'cube':
        g['n'] = rng.choice(CUBE_N)
        g['shift'] = rng.choice([None, None, 18, 9.5, 0])
        g['st'] = rng.choice([None, None, None, [2.0, 350.0, -90.0], [1.5, 20.0, 90.0], [3.0, 100.0, -90.0]])
    elif k == 'tripolar':
        g['nx'] = rng.choice([8, 12, 16])
        g['ny'] = rng.choice([6, 8, 10])
    elif k == 'latlon':
        g['nx'], g['ny'] = rng.randint(3, 16), rng.randint(2, 12)
        g['uni'] = rng.random() < 0.5
        g['x0'] = rng.choice([0, 0, -180, -280, 20.25, 179.5, 345.0, round(rng.uniform(-360, 360), 3)])
    elif k == 'regional':
        g['nx'], g['ny'] = rng.randint(2, 12), rng.randint(2, 12)
        g['uni'] = rng.random() < 0.5
        w = rng.choice([20, 47.5, 90, 150, 200, 300])
        g['x0'] = rng.choice([0, 350, -20, 175, -185.5, round(rng.uniform(-360, 360 - 1), 2)])
        g['x1'] = g['x0'] + w
        a, b = sorted([rng.choice([-90, 90, 0, -37.5, 45, round(rng.uniform(-89, 89), 2)]) for _ in range(2)])
        if b - a < 5:
            a, b = (a, a + 12) if a < 70 else (a - 30, b)
        g['y0'], g['y1'] = a, b
    elif k == 'split':           # global lon-lat cut in several tiles of different size
        g['nx'], g['ny'] = rng.randint(5, 14), rng.randint(5, 12)
        g['uni'] = rng.random() < 0.5
        g['x0'] = rng.choice([0, -180, -280, 20.25])
        g['cx'] = sorted(rng.sample(range(2, g['nx'] - 1), rng.choice([0, 1, 2]) if g['nx'] > 6 else 1))
        g['cy'] = sorted(rng.sample(range(2, g['ny'] - 1), 1)) if rng.random() < 0.5 or not g['cx'] else []
    elif k == 'skew':            # regional curvilinear quads
        g['nx'], g['ny'] = rng.randint(3, 10), rng.randint(3, 10)
        g['x0'] = rng.choice([0, 350, 170, -100])
    return g


def axis(rng, a, b, n, uni):
    """2n+1 points, every second one a corner"""
    if uni:
        return np.linspace(a, b, 2 * n + 1)
    w = np.cumsum([0] + [rng.uniform(0.4, 1.6) for _ in range(n)])
    p = a + (b - a) * w / w[-1]
    p[-1] = b
    o = np.empty(2 * n + 1)
    o[::2] = p
    o[1::2] = 0.5 * (p[1:] + p[:-1])
    return o


class Grid:
    """tiles: list of (x, y) supergrid arrays; mosaic: file name"""

    def corners(self, t):
        x, y = self.tiles[t]
        return x[::2, ::2], y[::2, ::2]

    def cells(self):
        if not hasattr(self, '_c'):
            self._c = [xg.Cells(*self.corners(t)) for t in range(len(self.tiles))]
        return self._c

    def centers(self, t):
        x, y = self.tiles[t]
        return x[1::2, 1::2], y[1::2, 1::2]


def make(g, c, name, gc=False):
    rng = random.Random(g['seed'])
    k = g['kind']
    G = Grid()
    G.kind = k
    G.name = name
    G.mosaic = name + '_mosaic.nc'
    G.globl = k in ('cube', 'tripolar', 'latlon', 'split')
    if k == 'cube':
        a = ['--grid_type', 'gnomonic_ed', '--nlon', 2 * g['n'], '--grid_name', name]
        if g.get('shift') is not None:
            a += ['--shift_fac', g['shift']]
        if g.get('st'):
            a += ['--do_schmidt', '--stretch_factor', g['st'][0], '--target_lon', g['st'][1], '--target_lat', g['st'][2]]
        if gc:
            a += ['--great_circle_algorithm']
        if g.get('nest'):
            pt, rr, i0, i1, j0, j1 = g['nest']
            a += ['--nest_grids', 1, '--parent_tile', pt, '--refine_ratio', rr, '--istart_nest', 2 * i0 - 1, '--iend_nest', 2 * i1, '--jstart_nest', 2 * j0 - 1, '--jend_nest', 2 * j1, '--halo', 1]
        c.tool('make_hgrid', a)
        fs = ['%s.tile%d.nc' % (name, t) for t in range(1, 8 if g.get('nest') else 7)]
        c.tool('make_solo_mosaic', ['--num_tiles', len(fs), '--dir', './', '--mosaic_name', name + '_mosaic', '--tile_file', ','.join(fs)])
        G.files = fs
    elif k == 'tripolar':
        a = ['--grid_type', 'tripolar_grid', '--nxbnd', 2, '--nybnd', 2, '--xbnd', '-280,80', '--ybnd', '-82,90', '--nlon', 2 * g['nx'], '--nlat', 2 * g['ny'], '--grid_name', name, '--center', 'c_cell']
        c.tool('make_hgrid', a)
        c.tool('make_solo_mosaic', ['--num_tiles', 1, '--dir', './', '--mosaic_name', name + '_mosaic', '--tile_file', name + '.nc', '--periodx', 360])
        G.files = [name + '.nc']
        G.globl = False
    else:
        con = []
        if k == 'skew':
            nx, ny = g['nx'], g['ny']
            s, t = np.meshgrid(np.linspace(0, 1, 2 * nx + 1), np.linspace(0, 1, 2 * ny + 1))
            x = g['x0'] + 60 * s + 12 * t * t + 4 * np.sin(3 * t + 2 * s)
            y = -30 + 70 * t + 10 * s * t - 6 * s + 3 * np.sin(4 * s)
            T = [(x, y)]
        else:
            if k == 'regional':
                x0, x1, y0, y1 = g['x0'], g['x1'], g['y0'], g['y1']
            else:
                x0, x1, y0, y1 = g['x0'], g['x0'] + 360, -90, 90
            xs, ys = axis(rng, x0, x1, g['nx'], g['uni']), axis(rng, y0, y1, g['ny'], g['uni'])
            cx = [0] + g.get('cx', []) + [g['nx']]
            cy = [0] + g.get('cy', []) + [g['ny']]
            T = []
            for j0, j1 in zip(cy[:-1], cy[1:]):
                for i0, i1 in zip(cx[:-1], cx[1:]):
                    T.append(tuple(np.meshgrid(xs[2 * i0:2 * i1 + 1], ys[2 * j0:2 * j1 + 1])))
            if k == 'latlon':
                nx, ny = 2 * g['nx'], 2 * g['ny']
                con = [(0, 0, '%d:%d,1:%d::1:1,1:%d' % (nx, nx, ny, ny))]
        fs = ['%s.tile%d.nc' % (name, t + 1) for t in range(len(T))] if len(T) > 1 else [name + '.nc']
        for (x, y), f in zip(T, fs):
            grids.hgrid(f, x, y, 'tile%d' % (fs.index(f) + 1), angle=True, gc=gc)
        grids.mosaic(G.mosaic, name + '_mosaic', fs, ['tile%d' % (i + 1) for i in range(len(fs))], con)
        G.files = fs
    G.tiles = []
    for f in G.files:
        v = nc.read(f).vars
        G.tiles.append((v['x'].data, v['y'].data))
    return G


def bysize(lb, le, ab, ae, nlon, nlat, center):
    """target grid built by fregrid from --nlon --nlat"""
    G = Grid()
    G.kind = 'size'
    x = np.linspace(lb, le, 2 * nlon + 1)
    d = (ae - ab) / (nlat if center else nlat - 1)
    c0 = ab if center else ab - 0.5 * d
    y = np.clip(c0 + d * 0.5 * np.arange(2 * nlat + 1), -90, 90)
    G.tiles = [tuple(np.meshgrid(x, y))]
    G.globl = le - lb >= 360 - 1e-9 and ab <= -90 and ae >= 90
    return G


def rms(path):
    """exchange grid file -> arrays (tile, i1, j1, i2, j2, area, di, dj) with zero-based indices"""
    m = nc.read(path).vars
    o = [m['tile1'].data - 1]
    for v in ('tile1_cell', 'tile2_cell'):
        o += [m[v].data[:, 0] - 1, m[v].data[:, 1] - 1]
    o.append(m['xgrid_area'].data)
    if 'tile1_distance' in m:
        o += [m['tile1_distance'].data[:, 0], m['tile1_distance'].data[:, 1]]
    return o


def remap_names(base, ntiles):
    return [base + '.nc'] if ntiles == 1 else ['%s.tile%d.nc' % (base, t + 1) for t in range(ntiles)]
