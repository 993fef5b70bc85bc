"""check_mask: mask tables."""
import os, random, glob, math
import numpy as np
from vlib import nc, grids

ID = 'C21'
TOOLS = ['make_hgrid', 'check_mask']
MIN = 120
RULE = ('random wet masks on grids that are closed, cyclic in x, y or both, or folded at the north (old grid files and mosaics with a topography), all processor counts of a range or one layout, halos 0 to 5; random land areas on cubed spheres. '
        'Every mask table is compared with the domains that hold no wet (land) point within their halo, found point by point. Wrong requests must be refused without a table. Non-trivial: a domain was masked or a refusal was due; distinct by case.')
ASSUMPTIONS = ['the halo is not wider than the grid', 'open boundaries (--nobc) only without --show_valid_only, when they do not change the tables']


def gen(rng, tier):
    cs = []
    for i in range(600 if tier == 'quick' else 4000):
        k = rng.choice(['v1', 'v2', 'v2', 'land', 'bad'] if rng.random() < 0.8 else ['v1', 'v2'])
        g = {'kind': k, 'seed': rng.randrange(1 << 30)}
        g['nx'], g['ny'] = rng.choice([(rng.randint(2, 12), rng.randint(2, 12)), (rng.randint(10, 60), rng.randint(10, 50)), (rng.randint(4, 24), rng.randint(4, 24))])
        g['halo'] = rng.choice([None, 1, 1, 2, 2, 3, 4, 5, 0])
        if g['halo'] is not None:
            g['halo'] = min(g['halo'], g['nx'], g['ny'])
        g['x'] = rng.choice(['', 'cyclic', 'cyclic'])
        g['y'] = rng.choice(['', '', 'cyclic', 'fold'])
        if g['y'] == 'fold':
            g['nx'] += g['nx'] % 2
        g['pe'] = rng.choice([None, None, (rng.randint(1, 10), rng.randint(10, 60)), (rng.randint(50, 150), rng.randint(150, 260))])
        g['layout'] = (rng.randint(1, g['nx']), rng.randint(1, g['ny'])) if rng.random() < 0.4 else None
        g['level'] = rng.choice([None, None, 0, 100, 0.5, 0.25, -3.75, 12.5])
        g['p'] = rng.choice([0.0, 0.003, 0.02, 0.02, 0.1, 0.5])
        g['blob'] = rng.random() < 0.5
        g['type'] = rng.choice(['float', 'double'])
        g['obc'] = rng.choice([0, 0, 0, 0, 1, 2])
        g['valid'] = rng.random() < 0.1 and not g['obc']
        g['dirs'] = rng.random() < 0.3
        if k == 'land':
            n = rng.choice([1, 2, 3, 4, 6, 8, 12])
            g['n'] = n
            g['layout'] = (rng.randint(1, n), rng.randint(1, n))
            g['names'] = rng.choice([('C_mosaic', 'C_mosaic'), ('atmos_mosaic', 'land_mosaic'), ('C48', 'lnd')])
            g['extra'] = rng.random() < 0.4
        if k == 'bad':
            g['how'] = rng.choice(['notopog', 'model', 'landv1', 'oceanv3', 'layout1', 'nofile', 'size', 'obc', 'nogrid', 'landlayout', 'landbig'])
            if g['how'].startswith('land') or g['how'] == 'oceanv3':
                g.update(n=4, names=('A', 'B'), extra=False)
        cs.append(g)
    return cs


def extent(n, d):
    """sizes of the domains: as equal as possible, mirrored where that is possible"""
    sym = (n % 2 == d % 2) or (d % 2 == 1 and n % 2 == 0 and d < n // 2)
    lo, hi = 0, n
    left, right = [], []
    while len(left) + len(right) < d:
        k = d - len(left) - len(right)
        s = -(-(hi - lo) // k)
        left.append(s)
        lo += s
        if sym and len(left) + len(right) < d:
            right.append(min(s, hi - lo) if lo + s > hi else s)
            hi -= right[-1]
    return left + right[::-1]


def layout(nx, ny, np_):
    f = float(np.float32(math.sqrt(np_ * nx / ny)))
    i = math.floor(f)
    if f - i > 0.5:
        i += 1
    i = max(i, 1)
    while np_ % i:
        i -= 1
    return i, np_ // i


def bounds(n, d):
    e = np.cumsum([0] + extent(n, d))
    return list(zip(e[:-1], e[1:]))


def at(wet, i, j, x, y):
    """the point at (i, j) of the halo, or None"""
    ny, nx = wet.shape
    if y == 'fold' and j >= ny:
        i, j = nx - 1 - i, 2 * ny - 1 - j
    if y == 'cyclic':
        j %= ny
    if x == 'cyclic':
        i %= nx
    return bool(wet[j, i]) if 0 <= i < nx and 0 <= j < ny else False


def halod(wet, h, x, y):
    ny, nx = wet.shape
    return np.array([[at(wet, i, j, x, y) for i in range(-h, nx + h)] for j in range(-h, ny + h)], bool)


def table(E, nx, ny, lx, ly, h):
    out = []
    for j, (j0, j1) in enumerate(bounds(ny, ly)):
        for i, (i0, i1) in enumerate(bounds(nx, lx)):
            if not E[j0:j1 + 2 * h, i0:i1 + 2 * h].any():
                out.append((i + 1, j + 1))
    return out


def ocean(g, c, d, rng):
    nx, ny = g['nx'], g['ny']
    wet = np.random.default_rng(g['seed']).random((ny, nx)) < g['p']
    if g['blob']:
        for _ in range(rng.randint(0, 2)):
            i, j = rng.randrange(nx), rng.randrange(ny)
            wet[j:j + rng.randint(1, max(1, ny // 2)), i:i + rng.randint(1, max(1, nx // 2))] = True
    if rng.random() < 0.3:
        wet[rng.choice([0, -1]), rng.choice([0, -1])] = True
    f = nc.F('NETCDF3_CLASSIC')
    a = []
    if g['kind'] == 'v1' or g.get('how') == 'landv1':
        f.dims['gx'], f.dims['gy'] = nx, ny
        f.atts['x_boundary_type'] = g['x'] or 'solid_walls'
        f.atts['y_boundary_type'] = {'fold': 'fold_north_edge', '': 'solid_walls'}.get(g['y'], g['y'])
        f.vars['wet'] = nc.V(g['type'], ['gy', 'gx'], {}, wet.astype(float))
        nc.write(d + 'grid_spec.nc', f)
        return wet, ['--grid_file', d + 'grid_spec.nc']
    lev = g['level'] or 0
    r = np.random.default_rng(g['seed'] + 1)
    dep = np.where(wet, lev + r.choice([0.125, 0.25, 1.0, 4000.0], (ny, nx)), lev - r.choice([0, 0, 0.125, 0.25, 300.0], (ny, nx)))
    f.dims['nx'], f.dims['ny'] = nx, ny
    if g.get('how') == 'size':
        k = rng.choice([1, 2, 5])
        f.dims['nx'], f.dims['ny'] = nx + k, ny + 1
        dep = np.ones((ny + 1, nx + k))
    f.vars['depth'] = nc.V(g['type'], ['ny', 'nx'], {}, dep)
    nc.write(d + 'topog.nc', f)
    x, y = np.meshgrid(np.linspace(0, 360 if g['x'] else 90, 2 * nx + 1), np.linspace(-70, 70, 2 * ny + 1))
    grids.hgrid(d + 'h.nc', x, y)
    con = []
    X, Y = 2 * nx, 2 * ny
    if g['x']:
        con.append((0, 0, '%d:%d,1:%d::1:1,1:%d' % (X, X, Y, Y) if rng.random() < 0.5 else '1:1,1:%d::%d:%d,1:%d' % (Y, X, X, Y)))
    if g['y'] == 'cyclic':
        con.append((0, 0, '1:%d,1:1::1:%d,%d:%d' % (X, X, Y, Y)))
    if g['y'] == 'fold':
        con.append((0, 0, '1:%d,%d:%d::%d:%d,%d:%d' % (nx, Y, Y, X, nx + 1, Y, Y)))
    rng.shuffle(con)
    grids.mosaic(d + 'ocean_mosaic.nc', 'ocean_mosaic', ['h.nc'], ['tile1'], con)
    a = ['--grid_file', d + 'ocean_mosaic.nc']
    if g.get('how') != 'notopog':
        a += ['--ocean_topog', d + 'topog.nc']
    if g['level'] is not None:
        a += ['--sea_level', g['level']]
    return wet, a


def land(g, c, d, rng):
    n = g['n']
    c.tool('make_hgrid', ['--grid_type', 'gnomonic_ed', '--nlon', 2 * n, '--grid_name', d + 'C'])
    an, ln = g['names']
    fs = ['C.tile%d.nc' % (t + 1) for t in range(6)]
    grids.mosaic(d + 'lmos.nc', ln, fs, ['tile%d' % (t + 1) for t in range(6)])
    P = []
    for q in fs:
        v = nc.read(d + q).vars
        lo, la = (np.radians(np.asarray(v[k].data, float)[::2, ::2]) for k in 'xy')
        P.append(np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], -1))
    r = np.random.default_rng(g['seed'])
    wet = r.random((6, n, n)) < g['p']
    if g['blob']:
        wet[r.integers(6)] = True
    if rng.random() < 0.5:
        wet[r.integers(6), r.choice([0, -1]), r.integers(n)] = True
    # one edge (its middle) -> the cells on it
    E = {}
    mid = lambda a, b: tuple(np.round((a + b) / np.linalg.norm(a + b), 6) + 0.0)
    for t in range(6):
        p = P[t]
        for k in range(n):
            for key, cell in ((mid(p[0, k], p[0, k + 1]), (t, 0, k)), (mid(p[n, k], p[n, k + 1]), (t, n - 1, k)), (mid(p[k, 0], p[k + 1, 0]), (t, k, 0)), (mid(p[k, n], p[k + 1, n]), (t, k, n - 1))):
                E.setdefault(key, []).append(cell)

    def other(t, key):
        q = [z for z in E[key] if z[0] != t]
        assert len(q) == 1, (t, key, E[key])
        return wet[q[0]]
    H = np.zeros((6, n + 2, n + 2), bool)
    H[:, 1:-1, 1:-1] = wet
    for t in range(6):
        p = P[t]
        for k in range(n):
            H[t, 0, k + 1] = other(t, mid(p[0, k], p[0, k + 1]))
            H[t, n + 1, k + 1] = other(t, mid(p[n, k], p[n, k + 1]))
            H[t, k + 1, 0] = other(t, mid(p[k, 0], p[k + 1, 0]))
            H[t, k + 1, n + 1] = other(t, mid(p[k, n], p[k + 1, n]))
    files = []
    for t in range(6):
        cells = [tuple(z) for z in np.argwhere(wet[t])]
        parts = [[], []]
        for z in cells:
            parts[r.integers(2) if g['extra'] else 0].append(z)
        for k, part in enumerate(parts):
            if not part:
                continue
            a = (t + k) % 6 + 1
            if an == ln:
                name = 'atm_%s_tile%dXlnd_%s_tile%d.nc' % (an, t + 1, ln, t + 1)
                if k:
                    name = 'atm_%s_tile%dXlnd_%s_tile%d_b.nc' % (an, t + 1, ln, t + 1)
            else:
                name = '%s_tile%dX%s_tile%d.nc' % (an, a, ln, t + 1)
            q = nc.F('NETCDF3_64BIT_OFFSET')
            q.dims['string'], q.dims['ncells'], q.dims['two'] = 255, len(part), 2
            q.vars['contact'] = nc.V('char', ['string'], {}, grids.chars('%s:tile%d::%s:tile%d' % (an, a, ln, t + 1)))
            ij = np.array([[i + 1, j + 1] for j, i in part], 'i4')
            q.vars['tile1_cell'] = nc.V('int', ['ncells', 'two'], {}, np.array([[r.integers(1, 5), r.integers(1, 5)] for _ in part], 'i4'))
            q.vars['tile2_cell'] = nc.V('int', ['ncells', 'two'], {}, ij)
            q.vars['xgrid_area'] = nc.V('double', ['ncells'], {}, 10.0 ** r.uniform(3, 12, len(part)))
            nc.write(d + name, q)
            files.append(name)
    f = nc.F('NETCDF3_64BIT_OFFSET')
    f.dims['string'] = 255
    if files:
        f.dims['nfile_aXl'] = len(files)
    f.vars['lnd_mosaic_dir'] = nc.V('char', ['string'], {}, grids.chars('./'))
    f.vars['lnd_mosaic_file'] = nc.V('char', ['string'], {}, grids.chars('lmos.nc'))
    f.vars['lnd_mosaic'] = nc.V('char', ['string'], {}, grids.chars(ln))
    if files:
        rng.shuffle(files)
        f.vars['aXl_file'] = nc.V('char', ['nfile_aXl', 'string'], {}, np.array([grids.chars(q) for q in files]))
    nc.write(d + 'mosaic.nc', f)
    return H, bool(files), ['--grid_file', d + 'mosaic.nc', '--model', 'land']


def parse(c, q):
    L = open(q).read().split('\n')
    try:
        n = int(L[0])
        lay = [int(z) for z in L[1].split(',')]
        ent = [tuple(int(z) for z in s.split(',')) for s in L[2:] if s]
    except ValueError:
        c.check(False, 'form', '%s: %r' % (q, L[:4]))
        return None
    return n, lay, ent


def run_case(g, c):
    rng = random.Random(g['seed'])
    d = ''
    if g['dirs']:
        os.mkdir('in')
        d = 'in/'
    c.sig = str(sorted(g.items()))
    want = {}
    how = g.get('how')
    if g['kind'] == 'land' or how in ('oceanv3', 'landlayout', 'landbig'):
        E, ok, a = land(g, c, d, rng)
        n = g['n']
        if how == 'oceanv3':
            a = a[:2]
        if how == 'landbig':
            g['layout'] = (n + 1, 2)
        if how == 'landlayout':
            g['layout'] = None
        if g['layout']:
            a += ['--layout', '%d,%d' % g['layout']]
        if not how and not ok:
            c.nontrivial = True
            c.tool('check_mask', a, expect='fail')
            return c.check(not glob.glob('mask_table*'), 'refused', 'no land exchange grid, but mask tables')
        if not how:
            lx, ly = g['layout']
            w = [(i, j, t + 1) for t in range(6) for i, j in table(E[t], n, n, lx, ly, 1)]
            if w:
                want['mask_table.%d.%dx%d' % (len(w), lx, ly)] = (w, [lx, ly, 6])
    else:
        wet, a = ocean(g, c, d, rng)
        nx, ny = g['nx'], g['ny']
        h = 1 if g['halo'] is None else g['halo']
        if g['halo'] is not None:
            a += ['--halo', h]
        if g['pe'] and not g['layout']:
            a += ['--min_pe', g['pe'][0], '--max_pe', g['pe'][1]]
        if g['layout']:
            a += ['--layout', '%d,%d' % tuple(g['layout'])]
        if g['valid']:
            a += ['--show_valid_only']
        if g['obc']:
            n = g['obc']
            a += ['--nobc', n, '--direction', ','.join(rng.choice(['west', 'east', 'south', 'north']) for _ in range(n)), '--is', ','.join(['1'] * n), '--ie', ','.join(['2'] * n),
                  '--js', ','.join(['1'] * n), '--je', ','.join([str(ny)] * n)]
        if rng.random() < 0.3:
            a += ['--model', 'ocean']
        E = halod(wet, h, g['x'], g['y'])
        lays = [tuple(g['layout'])] if g['layout'] else [layout(nx, ny, q) for q in range(*((g['pe'][0], g['pe'][1] + 1) if g['pe'] else (4, 129)))]
        for lx, ly in lays:
            if lx > nx or ly > ny:
                continue
            w = table(E, nx, ny, lx, ly, h)
            c.count('layouts')
            if w:
                want['mask_table.%d.%dx%d' % (len(w), lx, ly)] = (w, [lx, ly])
    if g['kind'] == 'bad':
        c.nontrivial = True
        if how == 'model':
            a += ['--model', 'atmos']
        if how == 'landv1':
            a += ['--model', 'land']
        if how == 'layout1':
            a += ['--layout', '4']
        if how == 'nofile':
            a[1] = d + 'none.nc'
        if how == 'nogrid':
            a = a[2:]
        if how == 'obc':
            a = [z for n, z in enumerate(a) if a[n - 1] != '--nobc' and z != '--nobc'] + ['--nobc', g['obc'] + 1]
        c.tool('check_mask', a, expect='fail')
        return c.check(not glob.glob('mask_table*'), 'refused', 'refused (%s), but mask tables were written' % how)
    c.tool('check_mask', a)
    got = sorted(glob.glob('mask_table*'))
    c.check(set(got) == set(want), 'names', 'tables %s, expected %s' % (sorted(set(got) - set(want))[:4], sorted(set(want) - set(got))[:4]))
    for q in got:
        p = parse(c, q)
        if p is None or q not in want:
            continue
        w, lay = want[q]
        c.nontrivial = True
        c.count('masked domains', len(w))
        c.check(p[0] == len(w) == len(p[2]) and p[1] == lay and sorted(p[2]) == sorted(w), 'table', '%s: %s %s %s, expected %s' % (q, p[0], p[1], p[2][:6], sorted(w)[:6]))
