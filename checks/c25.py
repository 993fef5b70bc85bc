"""make_regional_mosaic: the regional grid is the part of the global grid the output covers."""
import os, random
import numpy as np
from vlib import nc, grids

ID = 'C25'
TOOLS = ['make_regional_mosaic']
MIN = 90
RULE = ('random mosaics of 1 to 12 tiles of different sizes with every supergrid point distinct, and regional files of random rectangles (also whole tiles and single cells) with index axes of several types and small rounding errors, in directories whose '
        'names look like tile files; the supergrid written is compared bit by bit with that part of the tile, and names with the regional mosaic. Indices with gaps, regions outside the tile and unknown tiles must be refused. Non-trivial: a region was compared or refused; distinct by case.')
ASSUMPTIONS = ['the axes hold cell indices in ascending order']


def gen(rng, tier):
    cs = []
    for i in range(1000 if tier == 'quick' else 6000):
        n = rng.choice([1, 1, 2, 6, 6, 12])
        g = {'seed': rng.randrange(1 << 30), 'n': n, 'tile': rng.randint(1, n), 'nx': rng.randint(1, 30), 'ny': rng.randint(1, 30), 'dir': rng.choice(['', './', 'in/', 'a.tile1.nc/']), 'gdir': rng.choice(['', './', 'grid/', 'g.tile2.nc/']),
             'type': rng.choice(['float', 'double']), 'eps': rng.choice([0, 0, 1e-4, 0.3]), 'kind': rng.choice(['any', 'any', 'any', 'all', 'one', 'edge']), 'desc': rng.choice([None, None, 'C48_grid']),
             'bad': rng.choice([None] * 9 + ['gap', 'gapy', 'out', 'outy', 'tile', 'noaxis', 'nofile', 'nogrid']), 'fmt': rng.choice(['NETCDF3_CLASSIC', 'NETCDF3_64BIT_OFFSET', 'NETCDF4', 'NETCDF4_CLASSIC'])}
        cs.append(g)
    return cs


def run_case(g, c):
    rng = random.Random(g['seed'])
    r = np.random.default_rng(g['seed'])
    n, bad = g['n'], g['bad']
    for q in {g['dir'], g['gdir']} - {'', './'}:
        os.makedirs(q, exist_ok=True)
    files = [rng.choice(['C_grid.tile%d.nc', 'hgrid_%d.nc']) % (t + 1) for t in range(n)]
    T = []
    for t in range(n):
        nx, ny = (g['nx'], g['ny']) if t == g['tile'] - 1 else (rng.randint(1, 30), rng.randint(1, 30))
        x = r.uniform(0, 360, (2 * ny + 1, 2 * nx + 1))
        y = r.uniform(-90, 90, x.shape)
        T.append((x, y))
        if not (bad == 'nogrid' and t == g['tile'] - 1):
            grids.hgrid(g['gdir'] + files[t], x, y, 'tile%d' % (t + 1), fmt=g['fmt'])
    grids.mosaic(g['gdir'] + 'C_mosaic.nc', 'C_mosaic', files, ['tile%d' % (t + 1) for t in range(n)], dir=rng.choice(['./', '/old/place']))
    nx, ny = g['nx'], g['ny']
    i0, j0 = rng.randint(1, nx), rng.randint(1, ny)
    i1, j1 = rng.randint(i0, nx), rng.randint(j0, ny)
    if g['kind'] == 'all':
        i0, i1, j0, j1 = 1, nx, 1, ny
    if g['kind'] == 'one':
        i1, j1 = i0, j0
    if g['kind'] == 'edge':
        i1, j1 = nx, ny
    ii, jj = np.arange(i0, i1 + 1.0), np.arange(j0, j1 + 1.0)
    if bad == 'gap':
        ii = np.append(ii, ii[-1] + 2)
    if bad == 'gapy':
        jj = np.append(jj, jj[-1] + 2)
    if bad == 'out':
        ii = np.arange(i0, nx + 2.0)
    if bad == 'outy':
        jj = np.arange(j0, ny + 2.0)
    f = nc.F(g['fmt'])
    f.dims.update(time=2)
    f.rec = 'time'
    f.vars['time'] = nc.V('double', ['time'], {'units': 'days since 2000-01-01'}, np.array([1.0, 2.0]))
    for q, v in (('x', ii), ('y', jj)):
        nm = 'grid_%st_sub01' % q
        if bad == 'noaxis' and q == 'y':
            nm = 'grid_yt_sub02'
        f.dims[nm] = len(v)
        w = v + (0 if g['type'] == 'int' else r.uniform(-g['eps'], g['eps'], len(v)))
        f.vars[nm] = nc.V(g['type'], [nm], {'units': 'degrees', 'cartesian_axis': q.upper()}, w.astype(nc.TYPES[g['type']]))
    f.vars['ps'] = nc.V('float', ['time'] + [k for k in reversed(list(f.dims)) if k.startswith('grid_')], {}, r.random((2, len(jj), len(ii))).astype('f4'))
    tile = g['tile'] if bad != 'tile' else n + 1
    reg = g['dir'] + 'rregion.tile%d.nc' % tile
    if bad != 'nofile':
        nc.write(reg, f)
    a = ['--global_mosaic', g['gdir'] + 'C_mosaic.nc', '--regional_file', reg]
    if g['desc']:
        a += ['--grid_descriptor', g['desc']]
    if bad:
        c.tool('make_regional_mosaic', a, expect='fail')
        c.check(not os.path.exists('regional_mosaic.nc'), 'written', 'a refused request wrote a mosaic')
        c.count('refused')
        c.nontrivial = True
        c.sig = 'bad' + bad
        return
    before = set(os.listdir('.'))
    c.tool('make_regional_mosaic', a)
    if c.viol:
        return
    o = 'regional_grid.tile%d.nc' % tile
    got = set(os.listdir('.')) - before
    if not c.check(got == {o, 'regional_mosaic.nc'}, 'files', str(sorted(got))):
        return
    h = nc.read(o)
    x, y = T[tile - 1]
    s = (slice(2 * j0 - 2, 2 * j1 + 1), slice(2 * i0 - 2, 2 * i1 + 1))
    for k, e in (('x', x[s]), ('y', y[s])):
        d = h.vars[k].data
        c.check(list(h.vars[k].dims) == ['nyp', 'nxp'] and d.shape == e.shape and np.array_equal(d, e), 'region', lambda: '%s of cells %d:%d,%d:%d: %s' % (k, i0, i1, j0, j1, d.shape if d.shape != e.shape else nc.diffwhere(d, e)))
    c.check(h.dims['nx'] == 2 * (i1 - i0 + 1) and h.dims['ny'] == 2 * (j1 - j0 + 1), 'region', str(h.dims))
    c.check(grids.text(h.vars['tile'].data) == 'tile%d' % tile, 'tile', grids.text(h.vars['tile'].data))
    m = nc.read('regional_mosaic.nc')
    c.check(grids.text(m.vars['gridfiles'].data) == [o] and grids.text(m.vars['gridtiles'].data) == ['tile%d' % tile] and grids.text(m.vars['mosaic'].data) == 'regional_mosaic' and m.dims['ntiles'] == 1, 'mosaic',
            lambda: '%s %s' % (grids.text(m.vars['gridfiles'].data), grids.text(m.vars['gridtiles'].data)))
    if g['desc']:
        c.check(m.vars['mosaic'].atts.get('grid_descriptor') == g['desc'], 'descriptor', str(m.vars['mosaic'].atts))
    c.count('regions')
    c.nontrivial = True
    c.sig = repr(g['seed'])
