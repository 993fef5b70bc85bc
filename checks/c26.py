"""make_land_domain: every land point once, with its number of tiles."""
import os, random
import numpy as np
from vlib import nc, grids

ID = 'C26'
TOOLS = ['make_land_domain']
MIN = 90
RULE = ('random land masks on mosaics of 1 to 12 faces as exchange grids (cells in pieces, files of several atmosphere tiles, names that contain each other) and restart files with random numbers of tiles per point in any order; points, their order, faces and tile counts are '
        'compared exactly. Restarts that disagree with the mask must be refused without output. Non-trivial: land points were compared or a refusal was due; distinct by case.')
ASSUMPTIONS = ['exchange cells with positive area', 'exchange files named <atm>_tile#X<lnd>_tile#.nc']


def gen(rng, tier):
    cs = []
    for i in range(400 if tier == 'quick' else 6000):
        n = rng.choice([1, 1, 2, 6, 6, 12])
        cs.append({'seed': rng.randrange(1 << 30), 'n': n, 'nx': rng.randint(1, 12), 'ny': rng.randint(1, 12), 'p': rng.choice([0, 0.1, 0.5, 0.9, 1]), 'names': rng.choice([('atmos_mosaic', 'land_mosaic'), ('C_mosaic', 'C_mosaic'), ('atm_C48', 'C48'), ('C48', 'C48_land')]),
                   'extra': rng.random() < 0.4, 'dir': rng.choice(['', './', 'grid/']), 'rdir': rng.choice(['', 'RESTART/']), 'out': rng.choice([None, 'dom.nc', 'o/dom.nc']), 'order': rng.choice(['F', 'any']),
                   'bad': rng.choice([None] * 8 + ['missing', 'more', 'negative', 'sizes', 'nores', 'norest', 'noxgrid']), 'fmt': rng.choice(['NETCDF3_CLASSIC', 'NETCDF4'])})
    return cs


def run_case(g, c):
    rng = random.Random(g['seed'])
    r = np.random.default_rng(g['seed'])
    n, nx, ny, bad = g['n'], g['nx'], g['ny'], g['bad']
    am, lm = g['names']
    D = g['dir']
    for q in {D, g['rdir'], 'o/' if g['out'] == 'o/dom.nc' else ''} - {'', './'}:
        os.makedirs(q)
    files = ['lnd.tile%d.nc' % (t + 1) for t in range(n)]
    mask = r.random((n, ny, nx)) < g['p']
    if bad in ('missing',):
        mask[-1, 0, 0] = True
    if bad == 'more':
        mask[-1, 0, 0] = False
    sizes = [(nx, ny)] * n
    if bad == 'sizes':
        if n == 1:
            return
        sizes[-1] = (nx + 1, ny)
    for t in range(n):
        sx, sy = sizes[t]
        x, y = np.meshgrid(np.linspace(0, 50, 2 * sx + 1), np.linspace(-20, 20, 2 * sy + 1))
        grids.hgrid(D + files[t], x, y, 'tile%d' % (t + 1))
    grids.mosaic(D + 'lm.nc', lm, files, ['tile%d' % (t + 1) for t in range(n)])
    ax = {}
    for t in range(n):
        for j, i in np.argwhere(mask[t]):
            for k in range(rng.randint(1, 2)):
                a = t
                if g['extra']:
                    a = rng.randrange(n)
                ax.setdefault('%s_tile%dX%s_tile%d.nc' % (am, a + 1, lm, t + 1), []).append((i + 1, j + 1))
    for t in range(n):
        if rng.random() < 0.3 or not ax:
            ax.setdefault('%s_tile%dX%s_tile%d.nc' % (am, t + 1, lm, t + 1), [])
    names = list(ax)
    rng.shuffle(names)
    for k in names:
        rows = ax[k]
        rng.shuffle(rows)
        m = len(rows)
        f = nc.F(g['fmt'])
        f.dims.update(string=255, ncells=m, two=2)
        if not m:
            f.rec = 'ncells'
        f.vars['contact'] = nc.V('char', ['string'], {}, grids.chars('x'))
        f.vars['tile1_cell'] = nc.V('int', ['ncells', 'two'], {}, r.integers(1, 5, (m, 2)).astype('i4'))
        f.vars['tile2_cell'] = nc.V('int', ['ncells', 'two'], {}, np.array(rows, 'i4').reshape(m, 2))
        f.vars['xgrid_area'] = nc.V('double', ['ncells'], {}, r.choice([1.0, 1e9, 5e11], m))
        nc.write(D + k, f)
    if bad == 'noxgrid':
        os.remove(D + names[0])
    f = nc.F(g['fmt'])
    f.dims.update(string=255, nfile_aXl=len(names))
    f.vars['lnd_mosaic_file'] = nc.V('char', ['string'], {}, grids.chars('lm.nc'))
    f.vars['lnd_mosaic'] = nc.V('char', ['string'], {}, grids.chars(lm))
    f.vars['aXl_file'] = nc.V('char', ['nfile_aXl', 'string'], {}, np.array([grids.chars(q) for q in names]))
    nc.write(D + 'grid_spec.nc', f)
    cnt = np.where(mask, r.integers(1, 6, mask.shape), 0)
    given = cnt.copy()
    if bad == 'missing':
        given[-1, 0, 0] = 0
    if bad == 'more':
        given[-1, 0, 0] = 2
    base = g['rdir'] + 'land.res'
    for t in range(n):
        idx = []
        for j, i in np.argwhere(given[t] > 0):
            for k in range(given[t, j, i]):
                idx.append((k if g['order'] == 'F' else rng.randint(0, 20)) * nx * ny + j * nx + i)
        idx = sorted(idx) if g['order'] == 'F' else rng.sample(idx, len(idx))
        if bad == 'negative' and t == n - 1:
            idx.insert(rng.randint(0, len(idx)), -1)
        f = nc.F(g['fmt'])
        f.dims['tile_index'] = len(idx)
        if not idx:
            f.rec = 'tile_index'
        f.vars['tile_index'] = nc.V('int', ['tile_index'], {'compress': 'tile lat lon'}, np.array(idx, 'i4'))
        f.vars['cana'] = nc.V('double', ['tile_index'], {}, r.random(len(idx)))
        if not (bad == 'nores' and t == n - 1):
            nc.write(base + ('.tile%d.nc' % (t + 1) if n > 1 else '.nc'), f)
    a = ['--grid_file', D + 'grid_spec.nc']
    if bad != 'norest':
        a += ['--land_restart', base if n > 1 or rng.random() < 0.5 else base + '.nc']
    if g['out']:
        a += ['--output_file', g['out']]
    out = g['out'] or 'land_domain.nc'
    if bad:
        c.tool('make_land_domain', a, expect='fail')
        c.check(not os.path.exists(out), 'written', 'a refused request wrote %s' % out)
        c.count('refused')
        c.nontrivial = True
        c.sig = 'bad' + bad
        return
    c.tool('make_land_domain', a)
    if c.viol or not c.check(os.path.exists(out), 'nooutput', out):
        return
    o = nc.read(out)
    for k, e in (('nland_face', mask.reshape(n, -1).sum(1)), ('grid_index', np.concatenate([np.nonzero(m.ravel())[0] for m in mask])), ('grid_ntile', cnt[mask])):
        d = o.vars[k].data
        c.check(np.array_equal(d, e), k, lambda: '%s %s, expected %s' % (k, d, e))
    c.count('land points', int(mask.sum()))
    c.nontrivial = bool(mask.any())
    c.sig = repr(g['seed'])
