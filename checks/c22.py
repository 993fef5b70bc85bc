"""make_topog: ocean topographies."""
import os, random, math
import numpy as np
from vlib import nc, freg, xg
from checks import c15
from checks.c20 import edges

ID = 'C22'
TOOLS = ['make_hgrid', 'make_solo_mosaic', 'make_topog', 'make_topog_parallel']
MIN = 80
RULE = ('random source topographies (types, scale factors, missing points, partial cover) on random ocean grids: every depth is compared with the area-weighted mean of the wet source cells below it; then the same with random vertical grids, filters and '
        'adjustments, where depths and level numbers are recomputed step by step and must agree with each other. Idealised basins are compared with their formulas. Serial and MPI. Non-trivial: depths were compared or a refusal was due; distinct by case.')
ASSUMPTIONS = ['model and source cells span less than 170 degrees of longitude and hold no pole in their interior']


def gen(rng, tier):
    cs = []
    for i in range(220 if tier == 'quick' else 1600):
        k = rng.choice(['real', 'real', 'real', 'ideal', 'ideal', 'bad'])
        g = {'kind': k, 'seed': rng.randrange(1 << 30), 'mpi': rng.choice([0, 0, 0, 2, 3, 4]), 'verbose': rng.random() < 0.15, 'dirs': rng.random() < 0.2,
             'out': rng.choice(['', '', 't.nc', 'ocean_topography_of_the_new_model.nc'])}
        while True:
            g['grid'] = freg.draw(rng, ['latlon', 'latlon', 'regional', 'tripolar', 'skew'] if k != 'ideal' else ['latlon', 'regional', 'tripolar', 'cube', 'split', 'skew'])
            if g['grid']['kind'] in ('latlon', 'split') and 360.0 / g['grid']['nx'] * (1 if g['grid']['uni'] else 2.2) >= 120:
                continue
            if g['grid']['kind'] == 'regional' and (g['grid']['x1'] - g['grid']['x0']) / g['grid']['nx'] * 2.2 >= 120:
                continue
            break
        g['gc'] = k == 'real' and rng.random() < 0.15
        if g['gc']:
            g['grid'] = c15.fine(rng)
            while g['grid']['kind'] == 'cube':
                g['grid'] = c15.fine(rng)
        g['src'] = {'nx': rng.randint(4, 30), 'ny': rng.randint(3, 24), 'x0': rng.choice([0, -180, 20.5, -280, round(rng.uniform(-300, 300), 2)]), 'uni': rng.random() < 0.5, 'part': rng.random() < 0.25,
                    'type': rng.choice(['float', 'double', 'int']), 'miss': rng.choice([-1e20, 1e20, -999.0, 0.0]), 'p': rng.choice([0.0, 0.2, 0.5, 0.8, 0.97]), 'flip': rng.random() < 0.08}
        if g['gc']:
            g['src'].update(nx=rng.randint(20, 36), ny=rng.randint(12, 24))
        g['scale'] = rng.choice([None, None, -1, 0.01, 1.5])
        g['onmodel'] = rng.random() < 0.15 and g['grid']['kind'] in ('latlon', 'regional') and g['grid']['uni']
        g['vgrid'] = rng.random() < 0.7
        g['nk'] = rng.choice([1, 2, 3, 5, 10, 20])
        g['o'] = [q for q in ('fill_first_row', 'filter_topog', 'smooth_topo_allow_deepening', 'full_cell', 'flat_bottom', 'dont_fill_isolated_cells', 'dont_change_landmask', 'dont_adjust_topo',
                              'dont_open_very_this_cell') if rng.random() < (0.5 if q == 'filter_topog' else 0.25)]
        s = rng.choice([None, None, 'round_shallow', 'fill_shallow', 'deepen_shallow'])
        if s:
            g['o'].append(s)
        g['num'] = {q: v for q, v in (('num_filter_pass', rng.choice([1, 2, 5, 0])), ('kmt_min', rng.choice([1, 2, 3, 4])), ('fraction_full_cell', rng.choice([0, 0.1, 0.5, 1.0])), ('min_thickness', rng.choice([0, 0.5, 30.0])))
                    if rng.random() < 0.4}
        if g['vgrid'] and 'dont_adjust_topo' not in g['o']:
            g['nk'] = max(g['nk'], g['num'].get('kmt_min', 2))
        if k == 'ideal':
            g['type'] = rng.choice(['rectangular_basin', 'gaussian', 'bowl', 'idealized', 'box_channel', 'dome'])
            g['arg'] = {}
            z = {'bottom_depth': round(rng.uniform(50, 6000), 2), 'min_depth': round(rng.uniform(0, 40), 2)}
            if g['type'] == 'gaussian':
                z.update(gauss_amp=round(rng.uniform(0, 1), 3), gauss_scale=round(rng.uniform(0.05, 0.9), 3), slope_x=rng.choice([0, 3.5, -2]), slope_y=rng.choice([0, 1.5, -7]))
            if g['type'] == 'bowl':
                z.update(bowl_south=round(rng.uniform(-60, 0), 1), bowl_north=round(rng.uniform(1, 70), 1), bowl_west=round(rng.uniform(-100, 100), 1), bowl_east=round(rng.uniform(100, 200), 1))
            if g['type'] == 'dome':
                z.update(dome_slope=rng.choice([0.01, 0.002, 0.05]), dome_bottom=round(rng.uniform(1000, 6000), 1), dome_embayment_west=round(rng.uniform(-20, 100), 1), dome_embayment_east=round(rng.uniform(101, 200), 1),
                         dome_embayment_south=round(rng.uniform(-40, 70), 1), dome_embayment_depth=round(rng.uniform(100, 900), 1))
            g['arg'] = {q: v for q, v in z.items() if rng.random() < 0.6}
        if k == 'bad':
            g['how'] = rng.choice(['nofile', 'nofield', 'type', 'refine', 'vgrid', 'vsize', 'kmtmin', 'two', 'mosaic', 'opt', 'box', 'boxbig', 'tiles', 'ongridsize', 'field'])
            g['vgrid'] = g['how'] in ('vsize', 'kmtmin', 'two')
        cs.append(g)
    return cs


def thicknesses(g):
    r = random.Random(g['seed'] + 1)
    return np.array([r.choice([10.0, 25.5, 100.0, r.uniform(5, 800)]) for _ in range(g['nk'])])


def source(g, c, p, O, rng):
    s = g['src']
    if g['onmodel']:
        x, y = O.centers(0)
        xs, ys = x[0].copy(), y[:, 0].copy()
    elif s['part']:
        xs = s['x0'] + np.linspace(0, 200, s['nx'])
        ys = np.linspace(-50, 60, s['ny'])
    elif s['uni']:
        xs = s['x0'] + 360.0 / s['nx'] * (0.5 + np.arange(s['nx']))
        ys = -90 + 180.0 / s['ny'] * (0.5 + np.arange(s['ny']))
    else:
        w = np.cumsum([rng.uniform(0.7, 1.3) for _ in range(s['nx'] + 1)])
        xs = s['x0'] + (w[:-1] - w[0]) / (w[-1] - w[0]) * 358.0
        w = np.cumsum([rng.uniform(0.8, 1.2) for _ in range(s['ny'])])
        ys = -80 + (w - w[0]) / (w[-1] - w[0]) * 160
    ny, nx = len(ys), len(xs)
    sc = g['scale'] or 1.0
    r = np.random.default_rng(g['seed'])
    d = np.where(r.random((ny, nx)) < s['p'], -r.uniform(0, 500, (ny, nx)) * (r.random((ny, nx)) < 0.7), r.choice([5.0, 80.0, 1000.0, 6000.0], (ny, nx)) * r.uniform(0.5, 1.2, (ny, nx))) / sc
    if g['vgrid'] and r.random() < 0.6:      # blocks of depths just above and below the levels
        dz = thicknesses(g)
        top = np.cumsum(dz) - dz
        n = r.integers(1, 8)
        by, bx = (np.arange(ny) // n)[:, None], (np.arange(nx) // n)[None, :]
        k = r.integers(0, min(len(dz), r.choice([2, 3, 20])), (ny, nx))[by, bx]
        q = r.choice([0.003, 0.02, 0.07, 0.2, 0.5, 0.99, 1.0, 1.01], (ny, nx))[by, bx]
        d = np.where(r.random((ny, nx)) < s['p'] * r.random(), -10.0, top[k] + q * dz[k]) / sc
    dt = {'float': np.float32, 'double': np.float64, 'int': np.int32}[s['type']]
    miss = s['miss'] if s['type'] != 'int' else float(rng.choice([-32768, -999, 0]))
    d = np.round(d) if s['type'] == 'int' else d
    d = d.astype(dt)
    m = r.random((ny, nx)) < rng.choice([0, 0.1, 0.3])
    d[m] = dt(miss)
    m = d == dt(miss)
    f = nc.F('NETCDF3_CLASSIC')
    f.dims['lat'], f.dims['lon'] = ny, nx
    fl = -1 if s['flip'] else 1
    f.vars['lon'] = nc.V('double', ['lon'], {'units': 'degrees_east'}, xs)
    f.vars['lat'] = nc.V('double', ['lat'], {'units': 'degrees_north'}, ys[::fl])
    f.vars['TOPO'] = nc.V(s['type'], ['lat', 'lon'], {'missing_value': np.array([miss], dt)}, d[::fl])
    nc.write(p + 'src.nc', f)
    z = d.astype(float) * sc
    wet = ~m & (z > 0)
    xe, ye = edges(xs), edges(ys)
    return xe, ye, z, wet, m


def mean(g, c, O, src):
    """expected depth, and the uncertainty of being wet"""
    xe, ye, z, wet, m = src
    K = xg.GCells if g['gc'] else xg.Cells
    A = K(*np.meshgrid(xe, ye))
    B = K(*O.corners(0))
    ov = xg.overlap_gc(A, B) if g['gc'] else xg.overlap(A, B)
    num, den, slack = np.zeros(len(B.p)), np.zeros(len(B.p)), np.zeros(len(B.p))
    zf, wf = z.ravel(), wet.ravel()
    for (i, o), v in ov.items():
        if not wf[i]:
            continue
        lim = min(A.area[i], B.area[o])
        num[o] += v * zf[i]
        den[o] += v
        slack[o] += 1.1e-6 * lim if v < 1.5e-6 * lim else 2e-7 * lim
    return num, den, slack, (zf[wf].max() if wf.any() else 0), B


def filt(d, n, deepen):
    wet = d != 0
    d = d.copy()
    w = {(-1, -1): 1, (-1, 0): 2, (-1, 1): 1, (0, -1): 2, (0, 0): 4, (0, 1): 2, (1, -1): 1, (1, 0): 2, (1, 1): 1}
    ny, nx = d.shape
    for _ in range(n):
        s = d.copy()
        for j in range(1, ny - 1):
            for i in range(1, nx - 1):
                if not wet[j, i]:
                    s[j, i] = 0
                    continue
                t = sum(q * (d[j + b, i + a] if wet[j + b, i + a] else d[j, i]) for (b, a), q in w.items()) / 16.0
                s[j, i] = t if deepen or t <= d[j, i] else d[j, i]
        d = s
    return d


def levels(d, zw, thin):
    """depths onto levels: (depth, number of levels)"""
    h, k = d.copy(), np.zeros(d.shape, int)
    n = len(zw)
    for q in np.argwhere(d > 0):
        q = tuple(q)
        v = h[q]
        b = int(np.searchsorted(zw, v))          # first level at or below the bottom
        if b > 0 and v - zw[b - 1] < thin and (b == n or zw[b] - v > v - zw[b - 1]):
            b -= 1
            v = zw[b]
        if b == n:
            b, v = n - 1, zw[n - 1]
        h[q], k[q] = v, b + 1
    return h, k


def halo(a, x, y):
    ny, nx = a.shape
    e = np.zeros((ny + 2, nx + 2), a.dtype)
    e[1:-1, 1:-1] = a
    if y == 'fold':
        e[-1, 1:-1] = a[-1, ::-1]
    elif y == 'cyclic':
        e[0, 1:-1], e[-1, 1:-1] = a[-1], a[0]
    if x:
        e[:, 0], e[:, -1] = e[:, -2].copy(), e[:, 1].copy()
    return e


def isolated(h, k, x, y, keep):
    """cells that no corner with four wet neighbours reaches are filled up to the deepest such corner"""
    H, K = halo(h, x, y), halo(k, x, y)
    ny, nx = h.shape
    n = 0
    for j in range(1, ny + (0 if y == 'fold' else 1)):
        for i in range(1, nx + 1):
            bl = [(slice(j + b, j + b + 2), slice(i + a, i + a + 2)) for b in (-1, 0) for a in (-1, 0)]
            t = max(int(K[s].min()) for s in bl)
            if t != K[j, i] and (t > 0 or not keep):
                H[j, i] = max(H[s].min() for s in bl)
                K[j, i] = t
                n += 1
    return H[1:-1, 1:-1].copy(), K[1:-1, 1:-1].copy(), n


def pipeline(g, d, zw, x, y):
    o, num = g['o'], g['num']
    if 'filter_topog' in o:
        d = filt(d, num.get('num_filter_pass', 1), 'smooth_topo_allow_deepening' in o)
    if 'fill_first_row' in o:
        d = d.copy()
        d[0] = 0
    if zw is None:
        return d, None
    thin = num.get('min_thickness', 0.1)
    h, k = levels(d, zw, thin)
    w = k > 0
    if 'full_cell' in o:
        h[w] = zw[k[w] - 1]
    if 'flat_bottom' in o:
        h[w], k[w] = zw[-1], len(zw)
    if 'dont_adjust_topo' in o:
        return h, k
    if 'dont_fill_isolated_cells' not in o:
        h, k, _ = isolated(h, k, x, y, 'dont_change_landmask' in o)
    f = num.get('fraction_full_cell', 0.2)
    top = np.concatenate([[0.0], zw[:-1]])
    pmin = np.full(len(zw), min(50.0, zw[0])) if f == 0 else np.maximum(f * (zw - top), np.where(np.arange(len(zw)) > 0, thin, 0))
    for q in np.argwhere(k > 1):
        q = tuple(q)
        n = k[q] - 1
        t = h[q] - top[n]
        if t < pmin[n]:
            if 'dont_open_very_this_cell' in o and top[n] + pmin[n] - h[q] > t:
                k[q] -= 1
                h[q] = top[n]
            else:
                h[q] = top[n] + pmin[n]
    km = num.get('kmt_min', 2)
    for q in np.argwhere((h > 0) & (k < km)):
        q = tuple(q)
        if 'fill_shallow' in o or ('deepen_shallow' not in o and zw[k[q] - 1] < 0.5 * zw[km - 1]):
            h[q], k[q] = 0.0, 0
        else:
            h[q], k[q] = zw[km - 1], km
    return h, k


WORLD = """-90 0 360 -80 0 360;-80 335 360 -70 360 360;-80 0 360 -70 0 170;-80 225 300 -68 285 300;-70 0 155 -67 50 145;-35 116 120 -31 114 130;-38 140 151 -31 130 151;-31 115 153 -20 113 149;-20 113 149 -11 131 143;
-50 286 292 -40 287 298;-40 287 298 -20 290 320;-20 290 320 -16 279 325;-16 279 325 0 280 310;0 280 310 11 285 300;6 282 285 20 255 263;20 255 263 30 245 266;25 278 280 30 275 279;30 245 280 40 236 286;40 236 286 50 236 303;
50 236 303 60 220 296;60 195 296 65 220 296;65 220 296 70 198 288;70 198 220 72 203 203;70 230 290 75 240 280;60 315 315 75 302 341;-35 19 28 6 8 50;6 0 50 18 0 56;18 0 56 26 0 59;6 350 360 18 342 360;18 342 360 26 345 360;
26 345 360 40 353 360;40 353 360 50 360 360;8 77 78 26 65 90;4 99 100 26 90 115;26 0 126 40 0 122;40 0 130 50 0 140;50 0 140 60 8 140;60 8 163 65 13 180;65 13 188 70 20 180;70 70 180 75 90 100"""
RIDGES = [(0.666, '-20 340 350 30 315 325'), (0.666, '30 315 325 60 340 330'), (0.666, '-60 260 230 40 200 180'), (0.5, '-50 240 240 30 190 190')]


def near(v, a):
    if v < a[0]:
        return 0
    if v > a[-1]:
        return len(a) - 1
    i = max(1, int(np.searchsorted(a, v)))
    if len(a) == 1:
        return 0
    return i - 1 if a[i] - v > v - a[i - 1] else i


def trapez(d, xb, yb, s, v):
    a1, s1, e1, a2, s2, e2 = [float(q) for q in s.split()]
    j0, j1 = sorted((near(a1, yb), near(a2, yb)))
    p1, q1 = sorted((near(s1, xb), near(e1, xb)))
    p2, q2 = sorted((near(s2, xb), near(e2, xb)))
    for j in range(j0, j1 + 1):
        w = max(j - 1 - j0, 0) / max(j1 - j0, 1)              # the outline is that of the row below
        lo, hi = (math.floor(w * b + (1 - w) * a + 1e-5 + 0.5) for a, b in ((p1, p2), (q1, q2)))
        d[j, lo:hi + 1] = v


def ideal(g, x, y, cx, cy):
    """formula depths on one tile: corners x, y and centres cx, cy"""
    t = g['type']
    A = lambda q, v: float(g['arg'].get(q, v))
    bot, mn = A('bottom_depth', 5000.0), A('min_depth', 10.0)
    ny, nx = cx.shape
    xt = 0.25 * (x[1:, 1:] + x[1:, :-1] + x[:-1, 1:] + x[:-1, :-1])
    yt = 0.25 * (y[1:, 1:] + y[1:, :-1] + y[:-1, 1:] + y[:-1, :-1])
    if t == 'rectangular_basin':
        return np.full((ny, nx), bot)
    if t == 'bowl':
        w, e, s, n = A('bowl_west', 0), A('bowl_east', 20), A('bowl_south', 60), A('bowl_north', 70)
        q = lambda v, k: 1 - np.exp(-(v / k) ** 2)
        return np.where((xt <= w) | (xt >= e) | (yt <= s) | (yt >= n), mn, mn + bot * q(yt - s, 2) * q(yt - n, 2) * q(xt - w, 4) * q(xt - e, 4))
    if t == 'gaussian':
        xw, xe, ys, yn = xt.min(), xt.max(), yt.min(), yt.max()
        sc = A('gauss_scale', 0.25) * min(xe - xw, yn - ys)
        if sc < 1e-6:            # all cells on one latitude: the width of the bump is rounding
            return np.full(xt.shape, np.nan)
        r2 = (xt - 0.5 * (xe + xw)) ** 2 + (yt - 0.5 * (yn + ys)) ** 2
        with np.errstate(all='ignore'):
            b = bot - A('gauss_amp', 0.5) * bot * np.exp(-r2 / sc ** 2)
        return np.maximum(b - A('slope_x', 0) * (xt - xw) - A('slope_y', 0) * (yt - ys), mn)
    if t == 'box_channel':
        ws, wn, es, en = g['box']
        d = np.full((ny, nx), bot)
        d[0] = d[-1] = 0
        j = np.arange(1, ny + 1)
        d[(j < ws) | (j > wn), 0] = 0
        d[(j < es) | (j > en), -1] = 0
        return d
    if t == 'dome':
        sl, db, ew, ee, es, ed = A('dome_slope', 0.01), A('dome_bottom', 3600), A('dome_embayment_west', 19), A('dome_embayment_east', 21), A('dome_embayment_south', 69), A('dome_embayment_depth', 600)

        def snap(v, a):
            for p, q in zip(a[:-1], a[1:]):
                if p <= v <= q:
                    return p
            return v
        ew, ee, es = snap(ew, cx[0]), snap(ee, cx[0]), snap(es, cy[:, 0])
        m = 111.324e3
        ss = snap(es - (db - ed) / (sl * m), cy[:, 0])
        d = np.full((ny, nx), db)
        d = np.where((cy >= ss) & (cy < es), db - sl * m * (cy - ss), d)
        d = np.where(cy >= es, 0.0, d)
        return np.where((cx >= ew) & (cx <= ee) & (cy >= es), ed, d)
    d = np.full((ny, nx), bot)
    xb, yb = 0.5 * (x[0, 1:] + x[0, :-1]), 0.5 * (y[1:, 0] + y[:-1, 0])
    for s in WORLD.replace('\n', '').split(';'):
        trapez(d, xb, yb, s, 0.0)
    j, i = np.meshgrid(np.arange(1, ny + 1), np.arange(1, nx + 1), indexing='ij')
    u = np.maximum(bot * (1 - 0.4 * np.abs(np.cos(j * np.pi / (ny + 1)) * np.sin(i * 2 * np.pi / (nx + 1)))), mn)
    d = np.where(d > 0, u, d)
    for f, s in RIDGES:
        trapez(d, xb, yb, s, f * bot)
    return d


def run_case(g, c):
    rng = random.Random(g['seed'])
    how = g.get('how')
    gg = dict(g['grid'])
    if how == 'tiles':
        gg = {'kind': 'cube', 'n': 2, 'seed': 1}
    O = freg.make(gg, c, 'ocn', g['gc'])
    if c.viol:
        return
    p = ''
    if g['dirs']:
        os.mkdir('in')
        p = 'in/'
        for q in [O.mosaic] + O.files:
            os.rename(q, p + q)
    c.sig = repr(g['seed'])
    nys, nxs = zip(*[O.centers(t)[0].shape for t in range(len(O.tiles))])
    mpi = g['mpi'] if min(nxs) >= g['mpi'] and min(nys) >= g['mpi'] else 0
    tool = 'make_topog_parallel' if mpi else 'make_topog'
    a = ['--mosaic', p + O.mosaic]
    fn = g['out'] or 'topog.nc'
    if g['out']:
        a += ['--output', fn]
    if g['verbose']:
        a += ['--verbose']
    if g['kind'] == 'ideal':
        t = g['type']
        if t == 'idealized' and any((np.diff(O.corners(q)[0][0]) <= 0).any() or (np.diff(O.corners(q)[1][:, 0]) <= 0).any() for q in range(len(O.tiles))):
            c.tool(tool, a + ['--topog_type', t], mpi=mpi, expect=None)
            return
        if t == 'box_channel':
            q = sorted(rng.randint(1, min(nys)) for _ in range(2)) + sorted(rng.randint(1, min(nys)) for _ in range(2))
            g['box'] = q
            for n, v in zip(('jwest_south', 'jwest_north', 'jeast_south', 'jeast_north'), q):
                a += ['--' + n, v]
        a += ['--topog_type', t]
        for q, v in g['arg'].items():
            a += ['--' + q, v]
        r = c.tool(tool, a, mpi=mpi)
        if r.rc or c.viol:
            return
        f = nc.read(fn)
        for n in range(len(O.tiles)):
            v = 'depth' if len(O.tiles) == 1 else 'depth_tile%d' % (n + 1)
            if not c.check(v in f.vars, 'name', '%s not in %s' % (v, sorted(f.vars))):
                return
            e = ideal(g, *O.corners(n), *O.centers(n))
            got = np.asarray(f.vars[v].data, float)
            if not c.check(got.shape == e.shape, 'shape', '%s: %s, grid %s' % (v, got.shape, e.shape)):
                return
            ok = np.isnan(e) | (np.abs(got - e) <= 1e-8 * (1 + np.abs(e)))
            c.check(ok.all(), 'formula', lambda: '%s %s: depth %r at %s, expected %r' % (t, v, got[~ok][0], np.argwhere(~ok)[0], e[~ok][0]))
            c.count('idealised depths', e.size)
        c.count('type:' + t)
        c.nontrivial = True
        return
    src = source(g, c, p, O, rng)
    ny, nx = nys[0], nxs[0]
    a += ['--topog_file', p + 'src.nc', '--topog_field', 'TOPO']
    if g['scale'] is not None:
        a += ['--scale_factor', g['scale']]
    zw = None
    if g['vgrid']:
        nk = g['nk']
        zw = np.cumsum(thicknesses(g))
        z = np.zeros(2 * nk + 1)
        z[2::2] = zw
        z[1::2] = 0.5 * (z[2::2] + z[:-1:2])
        v = nc.F('NETCDF3_CLASSIC')
        v.dims['nzv'] = 2 * nk + 1 if how != 'vsize' else 2 * nk
        v.vars['zeta'] = nc.V('double', ['nzv'], {}, z[:v.dims['nzv']])
        nc.write(p + 'vgrid.nc', v)
    b = ['--' + q for q in g['o']]
    for q, v in g['num'].items():
        b += ['--' + q, v]
    if zw is not None:
        b += ['--vgrid_file', p + 'vgrid.nc']
    if g['kind'] == 'bad':
        c.nontrivial = True
        if how == 'nofile':
            a[a.index('--topog_file') + 1] = p + 'none.nc'
        if how == 'field':
            a[a.index('--topog_field') + 1] = 'none'
        if how == 'nofield':
            a = a[:a.index('--topog_field')]
        if how == 'type':
            a += ['--topog_type', 'flat']
        if how == 'refine':
            a += ['--x_refine', 3]
        if how == 'vgrid':
            a += ['--topog_type', 'bowl', '--vgrid_file', 'x.nc']
        if how == 'kmtmin':
            b = [q for q in b if q != '--dont_adjust_topo'] + ['--kmt_min', g['nk'] + 1]
        if how == 'two':
            b = [q for q in b if q != '--dont_adjust_topo' and 'shallow' not in str(q)] + ['--fill_shallow', '--deepen_shallow']
        if how == 'mosaic':
            a[1] = p + 'none.nc'
        if how == 'opt':
            a += ['--no_such']
        if how == 'box':
            a += ['--topog_type', 'box_channel', '--jwest_south', 3]
        if how == 'boxbig':
            a += ['--topog_type', 'box_channel', '--jwest_south', ny + 1, '--jwest_north', ny + 3, '--jeast_south', 1, '--jeast_north', 2]
        if how == 'ongridsize':
            if src[2].shape == (ny, nx):
                return
            a += ['--on_grid']
        c.tool(tool, a + b, mpi=mpi, expect='fail')
        return
    if g['src']['flip']:
        r = c.tool(tool, a, mpi=mpi, expect=None)
        if r.rc:
            c.count('decreasing latitude refused')
            return
    else:
        r = c.tool(tool, a, mpi=mpi)
    if r.rc or c.viol:
        return
    d0 = np.asarray(nc.read(fn).vars['depth'].data, float)
    if not c.check(d0.shape == (ny, nx), 'shape', str(d0.shape)):
        return
    num, den, slack, top, B = mean(g, c, O, src)
    f = d0.ravel()
    for q in range(ny * nx):
        if den[q] <= slack[q]:
            c.check(0 <= f[q] <= top * (1 + 1e-9), 'depth', lambda: 'cell %d: depth %r' % (q, f[q]))
            if den[q] == 0:
                c.check(f[q] == 0, 'land', lambda: 'cell %d: depth %r, no wet source cell' % (q, f[q]))
            continue
        e = num[q] / den[q]
        c.check(abs(f[q] - e) <= 1e-9 * e + top * min(1, 2 * slack[q] / den[q]), 'depth', lambda: 'cell %d: depth %r, mean of the wet source cells %r (wet area %r of %r)' % (q, f[q], e, den[q], B.area[q]))
        c.count('depths')
    c.nontrivial = True
    if g['onmodel']:
        r = c.tool(tool, a + ['--on_grid'], mpi=mpi)
        if r.rc == 0:
            e = np.where(src[4], 0.0, src[2])
            got = np.asarray(nc.read(fn).vars['depth'].data, float)
            c.check(np.allclose(got, e, rtol=1e-12, atol=0), 'on-grid', lambda: 'depths on the model grid changed: %s' % np.argwhere(~np.isclose(got, e, rtol=1e-12, atol=0))[:3])
            c.count('on grid')
    if not b:
        return
    r = c.tool(tool, a + b, mpi=mpi)
    if r.rc or c.viol:
        return
    F = nc.read(fn)
    d1 = np.asarray(F.vars['depth'].data, float)
    x = O.kind in ('latlon', 'tripolar')
    e, k = pipeline(g, d0, zw, x, 'fold' if O.kind == 'tripolar' else '')
    bad = np.abs(d1 - e) > 1e-9 * (1 + np.abs(e))
    c.check(not bad.any(), 'adjusted', lambda: 'depth %r at %s, expected %r (raw %r; %s %s)' % (d1[bad][0], np.argwhere(bad)[0], e[bad][0], d0[bad][0], g['o'], g['num']))
    if zw is None:
        c.check('num_levels' not in F.vars, 'levels-var', 'num_levels without a vertical grid')
        return
    n = np.asarray(F.vars['num_levels'].data)
    c.check(np.array_equal(n, k), 'levels', lambda: 'levels %s at %s, expected %s' % (n[n != k][0], np.argwhere(n != k)[0], k[n != k][0]))
    c.check(np.array_equal(n > 0, d1 > 0), 'wet', 'levels and depths do not agree on what is ocean')
    t = np.concatenate([[0.0], zw])
    w = n > 0
    dz = np.diff(t)
    f, th = g['num'].get('fraction_full_cell', 0.2), g['num'].get('min_thickness', 0.1)
    if (dz >= (min(50.0, zw[0]) if f == 0 else th)).all():
        c.check(bool((d1[w] <= zw[n[w] - 1] * (1 + 1e-12)).all() and (d1[w] > t[n[w] - 1] * (1 - 1e-12)).all()), 'in-level', 'a depth lies outside its lowest level')
    if 'dont_adjust_topo' not in g['o']:
        c.check(not w.any() or n[w].min() >= g['num'].get('kmt_min', 2), 'min-levels', 'fewer levels than asked')
    c.count('levels', int(w.sum()))
