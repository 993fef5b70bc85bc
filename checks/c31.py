"""transfer_to_mosaic_grid: an old grid file as a mosaic."""
import os, random
import numpy as np
from vlib import nc, grids, geo

ID = 'C31'
TOOLS = ['transfer_to_mosaic_grid']
MIN = 150
RULE = ('random old-style grid files (ocean only or coupled; with and without the optional lengths, angles and old names of the positions; cyclic, folded or closed; first and second order exchange grids, empty ones) are made from a supergrid, exchange cells, levels and a '
        'topography; transfer_to_mosaic_grid must give that supergrid, its cell areas, the vertical grid, the topography, the contacts, the exchange cells with areas in square metres and a coupler mosaic naming them. Incomplete files must be refused. '
        'Non-trivial: a grid was converted; distinct by case.')
ASSUMPTIONS = ['grids are cyclic in longitude, as the program assumes', 'the southern row has no angles and, unless given, no lengths in the old format (zero in the new one)', 'lengths and areas of the atmosphere and land grids are not part of the conversion',
               'areas of cells wider than 120 degrees, or with --rotate_poly, not compared', 'distances to the centre of the second grid are not in the old format']
R = 6371000.0
OPT = ['dy', 'ang', 'south']


def gen(rng, tier):
    cs = []
    for i in range(700 if tier == 'quick' else 8000):
        cs.append({'seed': rng.randrange(1 << 30), 'nx': rng.choice([1, 2, 3, 4, 5, 8, 12, 20]), 'ny': rng.choice([1, 2, 3, 5, 9, 14]), 'nz': rng.choice([1, 2, 5, 20]), 'coupled': rng.random() < 0.6,
                   'na': [rng.randint(1, 9), rng.randint(1, 7)], 'nl': [rng.randint(1, 9), rng.randint(1, 7)], 'ncell': [rng.choice([1, 2, 7, 40]) for _ in range(3)], 'order': rng.choice([1, 2]),
                   'xb': rng.choice(['cyclic', 'cyclic', 'solid_walls']), 'yb': rng.choice(['fold_north_edge', 'solid_walls', 'solid_walls']), 'geo': rng.choice([0, 0, 1, 2, 3]), 'opt': [rng.random() < 0.5 for _ in range(5)],
                   'tpl': rng.choice(['double', 'double', 'float']), 'dir': rng.choice([None, None, 'INPUT/', '/a/b/']), 'fmt': rng.choice(['NETCDF3_CLASSIC', 'NETCDF3_64BIT_OFFSET', 'NETCDF4']), 'rot': rng.random() < 0.15,
                   'bad': rng.choice([None] * 14 + ['file', 'var', 'pos', 'btype']), 'which': rng.randrange(1000), 'only': rng.random() < 0.3})
    return cs


def run_case(g, c):
    r = np.random.default_rng(g['seed'])
    nx, ny = g['nx'], g['ny']
    f4 = g['tpl'] == 'float'
    q = (lambda a: np.asarray(a, 'f4').astype('f8')) if f4 else (lambda a: np.asarray(a, 'f8'))
    X, Y = 2 * nx, 2 * ny
    # supergrid, cyclic
    lon = r.uniform(-280, 0) + np.concatenate([[0], np.cumsum(r.uniform(0.3, 1, size=X))])
    lon = lon[0] + (lon - lon[0]) * 360 / (lon[-1] - lon[0])
    lat = r.uniform(-85, -50) + np.concatenate([[0], np.cumsum(r.uniform(0.3, 1, size=Y))])
    lat = lat[0] + (lat - lat[0]) * (r.uniform(40, 88) - lat[0]) / (lat[-1] - lat[0])
    x = np.broadcast_to(lon, (Y + 1, X + 1)).copy()
    y = np.broadcast_to(lat[:, None], (Y + 1, X + 1)).copy()
    if r.random() < 0.7:
        a = min(np.diff(lon).min(), np.diff(lat).min(), 4) * 0.3
        e, d = r.uniform(-a, a, size=x.shape), r.uniform(-a, a, size=x.shape)
        e[:, -1], d[:, -1] = e[:, 0], d[:, 0]
        x, y = x + e, y + d
    x, y = q(x), q(y)
    x[:, 0] = x[:, -1] - 360
    y[:, 0] = y[:, -1]
    # the southern row has only vertices, the first of which is on its own
    x[0, 0], y[0, 0] = q(x[0, -1] - 360 + (r.uniform(-.01, .01) if nx > 1 and r.random() < .2 else 0)), y[0, -1]
    x[0, 1::2] = 0.5 * (x[0, :-1:2] + x[0, 2::2])
    y[0, 1::2] = 0.5 * (y[0, :-1:2] + y[0, 2::2])
    dx = q(r.uniform(1e4, 1e6, size=(Y + 1, X)))
    dy = q(r.uniform(1e4, 1e6, size=(Y, X + 1)))
    dy[:, 0] = dy[:, -1]
    an = q(r.uniform(-90, 90, size=(Y + 1, X + 1)))
    an[:, 0] = an[:, -1]
    an[0] = 0
    dyopt, angT, angE, angN, south = g['opt']
    f = nc.F(g['fmt'])
    tn = [('grid_x_T', 'grid_y_T'), ('gridlon_t', 'gridlat_t')][g['geo'] % 2]
    f.dims = {tn[0]: nx, tn[1]: ny, 'vertex': 4, 'zt': g['nz'], 'zb': g['nz']}
    T = (tn[1], tn[0])
    ty = g['tpl']

    def put(n, a, d=T, t=None):
        f.vars[n] = nc.V(t or ty, d, {'long_name': n}, np.asarray(a).astype(nc.TYPES[t or ty]))
    en, nn = ('x_E', 'y_E') if not g['geo'] & 1 else ('geolon_e', 'geolat_e'), ('x_N', 'y_N') if not g['geo'] & 2 else ('geolon_n', 'geolat_n')
    for n, (j, i) in {'T': (1, 1), 'C': (2, 2)}.items():
        put('x_' + n, x[j::2, i::2]); put('y_' + n, y[j::2, i::2])
    put(en[0], x[1::2, 2::2]); put(en[1], y[1::2, 2::2])
    put(nn[0], x[2::2, 1::2]); put(nn[1], y[2::2, 1::2])
    for n, a in (('x', x), ('y', y)):
        put(n + '_vert_T', np.stack([a[:-1:2, :-1:2], a[:-1:2, 2::2], a[2::2, 2::2], a[2::2, :-1:2]]), ('vertex',) + T)
    put('ds_01_11_T', dx[1::2, ::2]); put('ds_11_21_T', dx[1::2, 1::2])
    put('ds_01_11_C', dx[2::2, 1::2])
    put('ds_11_21_C', np.roll(dx[2::2, ::2], -1, 1))
    put('ds_02_22_T', dx[2::2, ::2] + dx[2::2, 1::2])
    put('ds_10_11_T', dy[::2, 1::2]); put('ds_11_12_T', dy[1::2, 1::2])
    put('ds_20_22_T', dy[::2, 2::2] + dy[1::2, 2::2])
    put('angle_C', an[2::2, 2::2])
    if dyopt or g['which'] % 3 == 0:
        put('ds_20_21_T', dy[::2, 2::2])
    else:
        put('ds_11_12_C', np.concatenate([dy[2::2, 2::2], r.uniform(1, 2, size=(1, nx))]))
        put('ds_10_11_C', dy[1::2, 2::2])
    if dyopt or g['which'] % 3 == 1:
        put('ds_21_22_T', dy[1::2, 2::2])
    if 'ds_21_22_T' not in f.vars:
        put('ds_10_11_C', dy[1::2, 2::2])
    for o, n, (j, i) in ((angT, 'T', (1, 1)), (angE, 'E', (1, 2)), (angN, 'N', (2, 1))):
        if o:
            put('angle_' + n, an[j::2, i::2])
        else:
            an[j::2, i::2] = 0
    an[:, 0] = an[:, -1]
    if south:
        put('ds_00_10_T', dx[:-1:2, ::2]); put('ds_10_20_T', dx[:-1:2, 1::2])
    else:
        dx[0] = 0
    zt = np.cumsum(r.uniform(1, 100, size=2 * g['nz']))
    zt, zb = q(zt[::2]), q(zt[1::2])
    put('zt', zt, ('zt',)); put('zb', zb, ('zb',))
    dep = q(np.where(r.random((ny, nx)) < .3, 0, r.uniform(1, 6000, size=(ny, nx))))
    put('depth_t', dep)
    f.atts = {'x_boundary_type': g['xb'], 'y_boundary_type': g['yb']}
    P = {}
    if not g['coupled'] and not g['only']:
        f.dims['xta'] = 3
        put('AREA_ATM', [1., 2, 3], ('xta',))
    if g['coupled']:
        for k, (m, n) in (('a', g['na']), ('l', g['nl'])):
            for ax, z in (('x', m), ('y', n)):
                v = q(np.cumsum(r.uniform(0.5, 3, size=2 * z + 1)))
                f.dims[ax + 'b' + k], f.dims[ax + 't' + k] = z + 1, z
                put(ax + 'b' + k, v[::2], (ax + 'b' + k,)); put(ax + 't' + k, v[1::2], (ax + 't' + k,))
                P[ax + k] = v
        put('AREA_ATM', r.random((g['na'][1], g['na'][0])), ('yta', 'xta'))
        S = {'ATM': g['na'], 'LND': g['nl'], 'OCN': [nx, ny]}
        for (u, v), m in zip((('ATM', 'LND'), ('ATM', 'OCN'), ('LND', 'OCN')), g['ncell']):
            d = 'i_%sX%s' % (u.lower(), v.lower())
            f.dims[d] = m
            w = '%sx%s' % (u, v)
            ar = r.uniform(1e-6, 1e-3, size=m)
            ix = [r.integers(1, n + 1, size=m) for n in S[u] + S[v]]
            put('AREA_' + w, ar, (d,), 'double')
            for k, (s, ax) in enumerate(((u, 'I'), (u, 'J'), (v, 'I'), (v, 'J'))):
                put('%s_%s_%s' % (ax, s, w), ix[k], (d,), 'int')
            di = r.uniform(-1e5, 1e5, size=(m, 2))
            if g['order'] == 2:
                put('DI_' + w, di[:, 0], (d,), 'double'); put('DJ_' + w, di[:, 1], (d,), 'double')
            P[w] = (ar, np.stack(ix, 1), di)
    bad = g['bad']
    if bad == 'var':
        k = [n for n in f.vars if n not in ('ds_20_21_T', 'ds_21_22_T', 'ds_00_10_T', 'ds_10_20_T', 'angle_T', 'angle_E', 'angle_N', 'AREA_ATM', 'AREA_ATMxOCN', 'DI_ATMxOCN')]
        if 'ds_20_21_T' in f.vars or 'ds_21_22_T' in f.vars:
            k = [n for n in k if n not in ('ds_10_11_C', 'ds_11_12_C', 'ds_20_22_T')]
        del f.vars[k[g['which'] % len(k)]]
    if bad == 'pos':
        for n in (en, nn)[g['which'] % 2]:
            del f.vars[n]
    if bad == 'btype':
        del f.atts[['x_boundary_type', 'y_boundary_type'][g['which'] % 2]]
    nc.write('old.nc', f)
    args = ['--input_file', 'old.nc' if bad != 'file' else 'absent.nc'] + (['--mosaic_dir', g['dir']] if g['dir'] else []) + (['--rotate_poly'] if g['rot'] else [])
    before = open('old.nc', 'rb').read()
    c.tool('transfer_to_mosaic_grid', args, expect='fail' if bad else 0)
    c.check(open('old.nc', 'rb').read() == before, 'input-changed', 'old.nc changed')
    if bad:
        c.count('refused')
        c.sig, c.nontrivial = ['bad', bad, g['which']], True
        return
    want = ['ocean_hgrid.nc', 'ocean_vgrid.nc', 'topog.nc', 'ocean_mosaic.nc']
    if g['coupled']:
        want += ['atmos_hgrid.nc', 'land_hgrid.nc', 'atmos_mosaic.nc', 'land_mosaic.nc', 'mosaic.nc', 'atmos_mosaicXland_mosaic.nc', 'atmos_mosaicXocean_mosaic.nc', 'land_mosaicXocean_mosaic.nc']
    have = sorted(n for n in os.listdir('.') if n.endswith('.nc') and n != 'old.nc')
    if not c.check(have == sorted(want), 'files', '%s, expected %s' % (have, sorted(want))) or c.viol:
        return
    F = {n[:-3]: nc.read(n) for n in want}

    def same(fn, n, a, tol=0, at=None):
        v = F[fn].vars
        if c.check(n in v and v[n].data.shape == np.shape(a), 'shape', '%s %s: %s, expected %s' % (fn, n, n in v and v[n].data.shape, np.shape(a))):
            c.check(np.allclose(v[n].data, a, rtol=tol, atol=tol if at is None else at), '%s:%s' % (fn, n), lambda: '%s of %s: %s' % (n, fn, nc.diffwhere(v[n].data, a)))
            c.count('values', np.size(a))
    same('ocean_hgrid', 'x', x, 1e-13); same('ocean_hgrid', 'y', y, 1e-13)
    same('ocean_hgrid', 'dx', dx, 1e-12, 0.3 if f4 else 1e-8); same('ocean_hgrid', 'dy', dy, 1e-12, 0.3 if f4 else 1e-8)
    same('ocean_hgrid', 'angle_dx', an, 1e-13)
    ar = geo.ll_cell_area(x, y)
    v = F['ocean_hgrid'].vars['area'].data
    c.check(v.shape == ar.shape and (nx < 3 or g['rot'] or (np.abs(v - ar) <= 1e-6 * np.abs(ar) + 1e-3).all()), 'ocean_hgrid:area', lambda: nc.diffwhere(v, ar))
    same('ocean_vgrid', 'zeta', np.concatenate([[0], np.stack([zt, zb], 1).ravel()]))
    same('topog', 'depth', dep)
    c.check(F['topog'].dims.get('ntiles') == 1, 'topog:ntiles', str(F['topog'].dims))

    def mosaic(k, con):
        m = F[k + '_mosaic'].vars
        t = lambda n: [grids.text(z) for z in np.atleast_2d(m[n].data)] if n in m else []
        for n, e in (('mosaic', [k + '_mosaic']), ('gridlocation', [g['dir'] or './']), ('gridtiles', ['tile1']), ('gridfiles', [k + '_hgrid.nc'])):
            c.check(t(n) == e, 'mosaic:' + n, '%s of %s is %s, expected %s' % (n, k, t(n), e))
        if con is None:
            return
        c.check(t('contact_index') == con, 'mosaic:contacts', 'contacts of %s are %s, expected %s' % (k, t('contact_index'), con))
        c.check(t('contacts') == ['%s_mosaic:tile1::%s_mosaic:tile1' % (k, k)] * len(con), 'mosaic:contacts', '%s' % t('contacts'))
        c.count('contacts', len(con))
    mosaic('ocean', (['%d:%d,1:%d::1:1,1:%d' % (X, X, Y, Y)] if g['xb'] == 'cyclic' else []) + (['1:%d,%d:%d::%d:%d,%d:%d' % (nx, Y, Y, X, nx + 1, Y, Y)] if g['yb'] == 'fold_north_edge' else []))
    if g['coupled']:
        mosaic('atmos', None)
        m, n = 2 * g['nl'][0], 2 * g['nl'][1]
        mosaic('land', ['%d:%d,1:%d::1:1,1:%d' % (m, m, n, n)])
        for k, e in (('a', 'atmos'), ('l', 'land')):
            gx, gy = np.meshgrid(P['x' + k], P['y' + k])
            same(e + '_hgrid', 'x', gx); same(e + '_hgrid', 'y', gy)
        L = {'ATM': 'atmos', 'LND': 'land', 'OCN': 'ocean'}
        for (u, v) in (('ATM', 'LND'), ('ATM', 'OCN'), ('LND', 'OCN')):
            fn = '%s_mosaicX%s_mosaic' % (L[u], L[v])
            a, ix, di = P['%sx%s' % (u, v)]
            same(fn, 'xgrid_area', a * 4 * np.pi * R * R, 1e-12)
            same(fn, 'tile1_cell', ix[:, :2]); same(fn, 'tile2_cell', ix[:, 2:])
            if g['order'] == 2:
                same(fn, 'tile1_distance', di)
            else:
                c.check('tile1_distance' not in F[fn].vars, 'order', '%s has distances' % fn)
            t = grids.text(F[fn].vars['contact'].data)
            c.check(t == '%s_mosaic:tile1::%s_mosaic:tile1' % (L[u], L[v]), 'contact', t)
            c.count('exchange cells', len(a))
        m = F['mosaic'].vars
        t = {n: grids.text(v.data.reshape(-1, v.data.shape[-1])[0]) for n, v in m.items() if v.type == 'char'}
        e = {'atm_mosaic_dir': g['dir'] or './', 'lnd_mosaic_dir': g['dir'] or './', 'ocn_mosaic_dir': g['dir'] or './', 'ocn_topog_dir': g['dir'] or './', 'atm_mosaic_file': 'atmos_mosaic.nc', 'lnd_mosaic_file': 'land_mosaic.nc',
             'ocn_mosaic_file': 'ocean_mosaic.nc', 'ocn_topog_file': 'topog.nc', 'aXo_file': 'atmos_mosaicXocean_mosaic.nc', 'aXl_file': 'atmos_mosaicXland_mosaic.nc', 'lXo_file': 'land_mosaicXocean_mosaic.nc',
             'atm_mosaic': 'atmos_mosaic', 'lnd_mosaic': 'land_mosaic', 'ocn_mosaic': 'ocean_mosaic'}
        for n, s in e.items():
            c.check(t.get(n) == s, 'mosaic.nc', '%s is %s, expected %s' % (n, t.get(n), s))
    c.sig, c.nontrivial = [g['seed']], True
