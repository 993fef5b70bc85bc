"""river_regrid: a river network on the land grid that ends, conserves area and follows the source."""
import os, random
import numpy as np
from vlib import nc, grids, freg, xg, cubed
from vlib.geo import R, D, ll_cell_area, gc_cell_area

ID = 'C27'
TOOLS = ['river_regrid', 'make_hgrid', 'make_solo_mosaic']
MIN = 60
RULE = ('random source networks (subA over five decades, ties, missing points, several missing values) on land masks from exchange grids or mask files over cubes, cyclic, torus, regional, curvilinear and many-tile mosaics. Checked: land fraction, missing values, the steepest-neighbour rule for every '
        'cell with unambiguous overlaps, that following tocell ends, travel, basin, order of basins, accumulated area, cell area and length; inconsistent requests must be refused. Non-trivial: at least one cell drains into another one or a refusal was due; distinct by case.')
ASSUMPTIONS = ['negative missing values', 'at least one land cell', 'exchange files named <atm>_tile#X<lnd>_tile#.nc', 'cells at a pole only for the network properties, not for the neighbour rule']
LARGE = 1e20
OFF = {1: (1, 0), 2: (1, -1), 4: (0, -1), 8: (-1, -1), 16: (-1, 0), 32: (-1, 1), 64: (0, 1), 128: (1, 1)}
CODE = {v: k for k, v in OFF.items()}
BAD = ['frac', 'negmask', 'source', 'sizes', 'masksize', 'novar', 'nomask', 'noxgrid', 'nomosaic']


def gen(rng, tier):
    cs = []
    for i in range(450 if tier == 'quick' else 2500):
        k = rng.choice(['cube', 'cube', 'cube', 'latlon', 'latlon', 'regional', 'skew', 'torus', 'torus', 'ycyc', 'many'])
        g = {'seed': rng.randrange(1 << 30), 'k': k}
        if k in ('cube', 'latlon', 'regional', 'skew'):
            g['grid'] = freg.draw(rng, [k])
            if k == 'cube':
                g['grid']['n'] = rng.choice([2, 4, 4, 6, 6])
        else:
            g['nx'], g['ny'] = rng.randint(2, 12), rng.randint(2, 12)      # a contact of one cell has no direction
            g['nt'] = rng.choice([2, 3, 11, 12]) if k == 'many' else 1
            if k == 'many':
                g['nx'], g['ny'] = rng.randint(1, 6), rng.randint(1, 6)
            g['box'] = [rng.choice([0, 350, -20, 100.5]), rng.choice([20, 60, 200]), rng.choice([-60, -10, 0, 30.5]), rng.choice([20, 40])]
        g['gc'] = rng.random() < 0.15
        g['snx'], g['sny'] = rng.randint(8, 24), rng.randint(4, 16)
        g['sub'] = rng.choice(['log', 'log', 'ties', 'big', 'smooth'])
        g['smiss'] = rng.choice([0, 0, 0.1, 0.6])
        g['miss'] = [rng.choice([-9999.0, -1e20, -1.0, -99.5]), rng.choice([-9999, -1, -999])]
        g['land'] = rng.choice(['random', 'blob', 'blob', 'all', 'few', 'partial'])
        g['rm'] = rng.random() < 0.35
        g['thresh'] = rng.choice([None, 1e-6, 1e-5, 1e-3, 0.05])
        g['minf'] = rng.choice([None, None, 1e-6, 0.01, 0.2])
        g['dir'] = rng.choice(['', './', 'grid/'])
        g['out'] = rng.choice([None, 'rv', 'o/rv'])
        g['vt'] = rng.choice(['double', 'double', 'float'])
        g['bad'] = rng.choice([None] * 9 + [rng.choice(BAD)])
        cs.append(g)
    return cs


def build(g, c):
    """grid files in the directory of the mosaic -> list of (x, y) supergrids"""
    k = g['k']
    if 'grid' in g:
        return freg.make(g['grid'], c, 'lnd', gc=g['gc'])
    G = freg.Grid()
    nx, ny, nt = g['nx'], g['ny'], g['nt']
    x0, w, y0, h = g['box']
    G.tiles, G.files = [], []
    for t in range(nt):
        x, y = np.meshgrid(x0 + t * w / nt + np.linspace(0, w / nt, 2 * nx + 1), np.linspace(y0, y0 + h, 2 * ny + 1))
        f = 'lnd.tile%d.nc' % (t + 1) if nt > 1 else 'lnd.nc'
        grids.hgrid(f, x, y, 'tile%d' % (t + 1))
        G.tiles.append((x, y))
        G.files.append(f)
    con = []
    if k == 'torus':
        con.append((0, 0, '%d:%d,1:%d::1:1,1:%d' % (2 * nx, 2 * nx, 2 * ny, 2 * ny)))
    if k in ('torus', 'ycyc'):
        con.append((0, 0, '1:%d,%d:%d::1:%d,1:1' % (2 * nx, 2 * ny, 2 * ny, 2 * nx)))
    grids.mosaic('lnd_mosaic.nc', 'lnd_mosaic', G.files, ['tile%d' % (t + 1) for t in range(nt)], con)
    return G


def topology(g, G):
    """function (t, j, i) -> cell or None for positions one step outside"""
    ny, nx = G.centers(0)[0].shape
    cx = g['k'] in ('latlon', 'torus')
    cy = g['k'] in ('torus', 'ycyc')
    link = cubed.Cubed(G).link if g['k'] == 'cube' else None

    def at(t, j, i):
        if 0 <= i < nx and 0 <= j < ny:
            return (t, j, i)
        if link is not None:
            q = link[t].get((j + 1, i + 1))
            return q and (q[0],) + tuple(q[1])
        if cx:
            i %= nx
        if cy:
            j %= ny
        return (t, j, i) if 0 <= i < nx and 0 <= j < ny else None
    return at


def fraction(g, r, nt, ny, nx):
    k = g['land']
    if k == 'all':
        return np.ones((nt, ny, nx))
    if k == 'few':
        return (r.random((nt, ny, nx)) < 0.08).astype(float)
    if k == 'partial':
        return np.where(r.random((nt, ny, nx)) < 0.5, 1.0, r.random((nt, ny, nx)))
    if k == 'random':
        return np.where(r.random((nt, ny, nx)) < 0.7, 1.0, np.where(r.random((nt, ny, nx)) < 0.5, 0.0, r.choice([1e-8, 1e-3, 0.005, 0.3, 0.97, 0.9995], (nt, ny, nx))))
    j, i = np.mgrid[0:ny, 0:nx]
    o = []
    for t in range(nt):
        v = r.uniform(0.5, 2) - np.hypot((j - r.uniform(0, ny)) / max(2, ny * 0.5), (i - r.uniform(0, nx)) / max(2, nx * 0.5))
        o.append(np.clip(v * 4, 0, 1))
    return np.array(o)


def run_case(g, c):
    r = np.random.default_rng(g['seed'])
    rng = random.Random(g['seed'])
    bad, k = g['bad'], g['k']
    G = build(g, c)
    if c.viol:
        return
    nt = len(G.tiles)
    ny, nx = G.centers(0)[0].shape
    if bad == 'sizes':
        if nt == 1 or k == 'cube':
            return
        x, y = np.meshgrid(np.linspace(0, 10, 2 * nx + 3), np.linspace(0, 10, 2 * ny + 1))
        grids.hgrid(G.files[-1], x, y, 'tile%d' % nt)
    rm = g['rm']
    if bad in ('negmask', 'masksize', 'nomask'):
        rm = True
    if bad in ('frac', 'noxgrid'):
        rm = False
    # areas of the tool's cells
    area = np.array([gc_cell_area(*G.corners(t)) if g['gc'] else np.array(G.cells()[t].area).reshape(ny, nx) for t in range(nt)])
    lf = fraction(g, r, nt, ny, nx)
    if not (lf > max(g['minf'] or 0, 1e-3)).any():
        lf[0, 0, 0] = 1
    if bad == 'frac':
        lf[-1, -1, -1] = 1.02
    if bad == 'negmask':
        lf[-1, -1, -1] = -0.5
    Dr = g['dir']
    for q in {Dr, 'o/' if g['out'] == 'o/rv' else ''} - {'', './'}:
        os.makedirs(q)
    f = nc.F('NETCDF3_CLASSIC')
    if g['gc']:
        f.atts['great_circle_algorithm'] = 'TRUE'
    f.dims['string'] = 255
    f.vars['lnd_mosaic_file'] = nc.V('char', ['string'], {}, grids.chars('lnd_mosaic.nc'))
    f.vars['lnd_mosaic'] = nc.V('char', ['string'], {}, grids.chars('lnd_mosaic'))
    if rm:
        for t in range(nt):
            m = nc.F('NETCDF3_CLASSIC')
            q = lf[t]
            if bad == 'masksize' and t == nt - 1:
                q = np.vstack([q, q[:1]])
            m.dims.update(ny=q.shape[0], nx=q.shape[1])
            m.vars['mask'] = nc.V('double', ['ny', 'nx'], {}, q)
            if not (bad == 'nomask' and t == nt - 1):
                nc.write(Dr + 'land_mask_tile%d.nc' % (t + 1), m)
    else:
        rows = {}
        for t in range(nt):
            for j, i in np.argwhere(lf[t] > 0):
                n = rng.choice([1, 1, 2, 3])
                w = np.array([rng.uniform(0.2, 1) for _ in range(n)])
                for q in w / w.sum():
                    a = rng.choice([t, t, 0])
                    rows.setdefault('atm_mosaic_tile%dXlnd_mosaic_tile%d.nc' % (a + 1, t + 1), []).append((i + 1, j + 1, q * lf[t, j, i] * area[t, j, i]))
        names = list(rows)
        rng.shuffle(names)
        for q in names:
            v = rows[q]
            rng.shuffle(v)
            m = nc.F('NETCDF3_CLASSIC')
            m.dims.update(string=255, ncells=len(v), two=2)
            m.vars['contact'] = nc.V('char', ['string'], {}, grids.chars('x'))
            m.vars['tile1_cell'] = nc.V('int', ['ncells', 'two'], {}, np.ones((len(v), 2), 'i4'))
            m.vars['tile2_cell'] = nc.V('int', ['ncells', 'two'], {}, np.array([z[:2] for z in v], 'i4'))
            m.vars['xgrid_area'] = nc.V('double', ['ncells'], {}, np.array([z[2] for z in v]))
            if not (bad == 'noxgrid' and q == names[0]):
                nc.write(Dr + q, m)
        f.dims['nfile_aXl'] = len(names)
        f.vars['aXl_file'] = nc.V('char', ['nfile_aXl', 'string'], {}, np.array([grids.chars(q) for q in names]))
    nc.write(Dr + 'mosaic.nc', f)
    if Dr == 'grid/':
        for q in G.files + ['lnd_mosaic.nc']:
            os.rename(q, Dr + q)
    # source network
    snx, sny = g['snx'], g['sny']
    if bad == 'source':
        snx = max(snx, 8)
    xs = (np.arange(snx) + 0.5) * 360 / snx
    ys = -90 + (np.arange(sny) + 0.5) * 180 / sny
    if bad == 'source':
        q = rng.choice('xyXY')
        if q == 'x':
            xs = xs + 1
        elif q == 'X':
            xs = xs * 0.9
        elif q == 'y':
            ys = ys * 0.8
        else:
            ys = ys[::-1]
    if g['sub'] == 'smooth':
        a, b = r.uniform(0, 6, 2)
        sub = 10 ** (10.2 + 2.4 * np.sin(np.radians(xs)[None, :] + a) * np.cos(np.radians(ys)[:, None] * 1.5 + b))
    elif g['sub'] == 'ties':
        sub = r.choice([1e8, 1e9, 1e10, 9e11, 1e12, 2e12, 5e12], (sny, snx))
    elif g['sub'] == 'big':
        sub = 10 ** r.uniform(11.5, 13, (sny, snx))
    else:
        sub = 10 ** r.uniform(8, 12.7, (sny, snx))
    sub = sub.astype('f4').astype('f8')
    ms, mi = g['miss']
    if g['vt'] == 'float':
        ms = float(np.float32(ms))
    smask = r.random((sny, snx)) < g['smiss']
    s = nc.F('NETCDF3_CLASSIC')
    s.dims.update(lat=sny, lon=snx)
    s.vars['lat'] = nc.V('double', ['lat'], {'units': 'degrees_north'}, ys)
    s.vars['lon'] = nc.V('double', ['lon'], {'units': 'degrees_east'}, xs)
    for v in ('subA', 'tocell', 'travel', 'basin', 'cellarea', 'celllength'):
        if bad == 'novar' and v == rng.choice(['tocell', 'basin', 'celllength']):
            continue
        m = ms if v in ('subA', 'cellarea', 'celllength') else mi
        d = np.where(smask, m, sub) if v == 'subA' else np.full((sny, snx), float(m))
        t = g['vt'] if v in ('subA', 'cellarea', 'celllength') else 'double'
        s.vars[v] = nc.V(t, ['lat', 'lon'], {'missing_value': np.float32(m) if t == 'float' else float(m), 'long_name': v}, d)
    if bad == 'novar' and 'celllength' in s.vars and 'basin' in s.vars and 'tocell' in s.vars:
        del s.vars['travel']
    nc.write('src.nc', s)
    a = ['--mosaic_grid', Dr + ('nothere.nc' if bad == 'nomosaic' else 'mosaic.nc'), '--river_src_file', 'src.nc']
    for o, v in (('--output', g['out']), ('--land_thresh', g['thresh']), ('--min_frac', g['minf'])):
        if v is not None:
            a += [o, v]
    if rm:
        a.append('--read_land_mask')
    base = g['out'] or 'river_output'
    outs = [base + ('.tile%d.nc' % (t + 1) if nt > 1 else '.nc') for t in range(nt)]
    if bad:
        c.tool('river_regrid', a, expect='fail')
        c.check(not any(os.path.exists(o) for o in outs), 'written', 'a refused request wrote output')
        c.count('refused')
        c.nontrivial = True
        c.sig = 'bad' + bad
        return
    c.tool('river_regrid', a)
    if c.viol or not c.check(all(os.path.exists(o) for o in outs), 'nooutput', 'no %s' % outs):
        return
    O = [nc.read(o).vars for o in outs]
    V = {v: np.array([o[v].data for o in O]) for v in ('subA', 'tocell', 'travel', 'basin', 'cellarea', 'celllength', 'land_frac', 'x', 'y')}
    # land fraction
    e = lf.copy()
    near = np.abs(e - (1 - (g['thresh'] or 0))) < 1e-9
    e[e > 1 - (g['thresh'] or 0)] = 1
    e[np.abs(e) < (g['minf'] or 0)] = 0
    L = V['land_frac']
    d = np.abs(L - e)
    ok = (d < 1e-9) | (near & ((np.abs(L - lf) < 1e-9) | (L == 1)))
    if rm:
        ok = L == e
    c.check(ok.all(), 'landfrac', lambda: 'land_frac %r expected %r' % (L[~ok][0], e[~ok][0]))
    for t in range(nt):
        x, y = G.centers(t)
        c.check(np.array_equal(V['x'][t], x) and np.array_equal(V['y'][t], y), 'centre', 'x, y are not the cell centres of tile %d' % (t + 1))
        gx, gy = (x[0], y[:, 0]) if nt == 1 else (np.arange(1, nx + 1), np.arange(1, ny + 1))
        c.check(np.array_equal(O[t]['grid_x'].data, gx) and np.array_equal(O[t]['grid_y'].data, gy), 'axis', 'grid_x or grid_y')
        for v, m in (('subA', ms), ('tocell', mi), ('travel', mi), ('basin', mi), ('cellarea', ms), ('celllength', ms)):
            c.check(np.ravel(O[t][v].atts.get('missing_value', np.nan))[0] == m, 'missatt', v + ' lost its missing_value')
    ocean = L == 0
    for v, m in (('subA', ms), ('tocell', mi), ('travel', mi), ('basin', mi), ('cellarea', ms), ('celllength', ms)):
        b = (V[v] == m) != ocean
        c.check(not b.any(), 'missing', lambda: '%s is missing at %d river points or set at ocean points' % (v, b.sum()))
    if c.viol:
        return
    land = ~ocean
    ca = area * L
    b = land & (np.abs(V['cellarea'] - ca) > 1e-8 * ca)
    c.check(not b.any(), 'cellarea', lambda: 'cellarea %r expected %r' % (V['cellarea'][b][0], ca[b][0]))
    part = land & (L < 1)
    c.check((V['tocell'][part] == 0).all(), 'partial', 'a coast cell drains into another cell')
    # the steepest-neighbour rule
    at = topology(g, G)
    hi = np.full(L.shape, np.nan)
    amb = np.zeros(L.shape, bool)
    S = xg.Cells(*np.meshgrid(np.arange(snx + 1) * 360.0 / snx, -90 + np.arange(sny + 1) * 180.0 / sny))
    for t in range(nt):
        C = G.cells()[t]
        best = [np.full(nx * ny, ms), np.full(nx * ny, ms)]
        for (p, q), v in xg.overlap(C, S).items():
            z = sub.ravel()[q] if not smask.ravel()[q] else ms
            ra = v / area[t].ravel()[p]
            for n, lim in enumerate((1.01e-6, 0.99e-6)):
                if ra > lim and z > best[n][p]:
                    best[n][p] = z
        hi[t] = best[0].reshape(ny, nx)
        amb[t] = (best[0] != best[1]).reshape(ny, nx)
        cx, cy = G.corners(t)
        w = np.array([C.bb[p][1] - C.bb[p][0] for p in range(nx * ny)]).reshape(ny, nx) > 2.6
        pole = np.abs(cy) > 89.9
        amb[t] |= w | pole[1:, 1:] | pole[1:, :-1] | pole[:-1, 1:] | pole[:-1, :-1]
    hi[L < 1] = LARGE
    amb[L < 1] = False
    dest = {}
    moved = ruled = 0
    for t, j, i in np.argwhere(land):
        t, j, i = int(t), int(j), int(i)
        to = V['tocell'][t, j, i]
        dest[t, j, i] = None
        if to != 0:
            if not c.check(to in OFF, 'code', 'tocell %d' % to):
                return
            dest[t, j, i] = at(t, j + OFF[to][1], i + OFF[to][0])
            if not c.check(dest[t, j, i] is not None, 'outside', 'cell %s drains out of the grid' % ((t, j, i),)):
                return
            moved += 1
        # length
        if to == 0:
            ln = 0.0
        else:
            q = dest[t, j, i]
            x1, y1, x2, y2 = V['x'][t, j, i], V['y'][t, j, i], V['x'][q], V['y'][q]
            dx = x2 - x1
            dx -= 360 if dx > 180 else 0
            dx += 360 if dx < -180 else 0
            ln = R * D * np.hypot(dx * np.cos(y1 * D), y2 - y1)
        c.check(abs(V['celllength'][t, j, i] - ln) <= 1e-8 * ln, 'length', lambda: 'celllength %r expected %r at %s' % (V['celllength'][t, j, i], ln, (t, j, i)))
        if L[t, j, i] < 1:
            continue
        nb = [((di, dj), at(t, j + dj, i + di)) for dj in (-1, 0, 1) for di in (-1, 0, 1) if di or dj]
        nb = [(q, z) for q, z in nb if z is not None]
        if amb[t, j, i] or any(amb[z] for q, z in nb):
            continue
        me = hi[t, j, i]
        want = 0
        if me > 1e12:
            lv = [(hi[z], q) for q, z in nb if me < hi[z] < LARGE]
            if lv:
                m = max(v for v, q in lv)
                want = CODE[[q for v, q in lv if v == m][0]]
            else:
                lv = [q for q, z in nb if hi[z] >= LARGE]
                if lv:
                    want = CODE[lv[-1]]
        else:
            lv = [(hi[z], q) for q, z in nb if hi[z] != ms]
            if lv:
                m = max(v for v, q in lv)
                if m > me:
                    want = CODE[[q for v, q in lv if v == m][-1]]
        ruled += 1
        c.check(to == want, 'rule', lambda: 'cell %s flows %d, the rule gives %d (own %g, around %s)' % ((t, j, i), to, want, me, [(q, hi[z]) for q, z in nb]))
    # the network
    up = {}
    last = {}
    for p, q in dest.items():
        if q is not None and not ocean[q]:
            up.setdefault(q, []).append(p)
    order = [p for p, q in dest.items() if q is None or ocean[q]]
    tr = {p: 0 if dest[p] is None else 1 for p in order}
    ba = {p: p for p in order}
    outlets = list(order)
    for p in order:
        for q in up.get(p, []):
            tr[q] = tr[p] + 1
            ba[q] = ba[p]
            order.append(q)
    if not c.check(len(order) == len(dest), 'cycle', lambda: '%d points never reach an outlet' % (len(dest) - len(order))):
        return
    acc = {p: V['cellarea'][p] for p in order}
    for p in reversed(order):
        if dest[p] is not None and dest[p] in acc:
            acc[dest[p]] += acc[p]
    for p in order:
        c.check(V['travel'][p] == tr[p], 'travel', lambda: 'travel %d expected %d at %s' % (V['travel'][p], tr[p], p))
        c.check(V['basin'][p] == V['basin'][ba[p]], 'basin', lambda: 'basin %d, its outlet has %d' % (V['basin'][p], V['basin'][ba[p]]))
        c.check(abs(V['subA'][p] - acc[p]) <= 1e-9 * acc[p], 'subA', lambda: 'subA %r, upstream area %r at %s' % (V['subA'][p], acc[p], p))
    ids = sorted(int(V['basin'][p]) for p in outlets)
    c.check(ids == list(range(1, len(outlets) + 1)), 'ids', lambda: 'basin numbers of the outlets %s' % ids[:20])
    by = [V['subA'][p] for p in sorted(outlets, key=lambda p: V['basin'][p])]
    c.check(all(a >= b * (1 - 1e-12) for a, b in zip(by, by[1:])), 'sort', 'basins are not numbered by decreasing area')
    c.count('river points', len(order))
    c.count('cells that drain into a neighbour', moved)
    c.count('neighbour rule decided', ruled)
    c.count('across tiles', sum(1 for p, q in dest.items() if q is not None and q[0] != p[0]))
    c.nontrivial = moved > 0
    c.sig = repr(g['seed'])
