"""fregrid: extrapolation onto missing points and vertical interpolation."""
import os
import numpy as np
from vlib import nc, freg

ID = 'C28'
TOOLS = ['make_hgrid', 'make_solo_mosaic', 'fregrid', 'fregrid_parallel']
MIN = 60
RULE = ('fields with missing points (types, records, levels and amounts of missing data vary) on global and regional lon-lat grids are regridded by fregrid --extrapolate, onto their own grid, where the filled values show, and onto '
        'other grids, serially and in parallel, with and without --dst_vgrid; valid points must be unchanged, filled ones satisfy the discrete Laplace equation to the stopping criterion and stay within the range of the data, other grids '
        'hold the averages over the stored exchange grid and new levels the linear interpolation of the levels around them. Non-trivial: filled points were compared; distinct by case.')
ASSUMPTIONS = ['the stored exchange grid is right (C15)', 'levels without any valid point are not compared', 'all fields with levels share one vertical axis']


def gen(rng, tier, n=None):
    cs = []
    while len(cs) < (n or (300 if tier == 'quick' else 4000)):
        g = {'seed': rng.randrange(1 << 30), 'src': freg.draw(rng, ['latlon', 'latlon', 'regional'])}
        s = g['src']
        if s['nx'] < 3 or s['ny'] < 3:
            continue
        if s['kind'] == 'latlon' and 360.0 / s['nx'] * (1 if s['uni'] else 2.2) >= 165 or s['kind'] == 'regional' and (s['x1'] - s['x0']) / s['nx'] * (1 if s['uni'] else 1.7) >= 165:
            continue
        g['dst'] = rng.choice([None, 'size', 'size', 'grid', 'grid'])
        if g['dst'] == 'size':
            g['size'] = [rng.randint(4, 12), rng.randint(3, 9)]
        elif g['dst']:
            g['grid'] = freg.draw(rng, ['latlon', 'cube', 'regional', 'tripolar'])
            d = g['grid']
            if d['kind'] == 'latlon' and 360.0 / d['nx'] * 2.2 >= 165 or d['kind'] == 'regional' and (d['x1'] - d['x0']) / d['nx'] * 1.7 >= 165:
                continue
        g['nt'] = rng.choice([0, 1, 2, 2, 3])
        g['nz'] = rng.choice([0, 1, 2, 3, 4])
        g['nn'] = rng.choice([0, 0, 0, 2])
        g['f'] = []
        for k in range(rng.choice([1, 1, 2])):
            g['f'].append({'name': ['temp', 'salt'][k], 'type': rng.choice(['double', 'double', 'float', 'short']), 't': bool(g['nt']) and rng.random() < 0.8, 'n': bool(g['nn']) and rng.random() < 0.6,
                           'z': bool(g['nz']) and rng.random() < 0.7, 'miss': rng.choice(['', 'missing_value', 'missing_value', 'missing_value', '_FillValue']), 'pm': rng.choice([0, 0.1, 0.4, 0.8, 0.97]),
                           'zero': rng.random() < 0.3, 'vals': rng.choice(['rand', 'rand', 'const', 'smooth'])})
        g['zbnd'] = rng.choice(['', '', 'bounds', 'edges'])
        g['vg'] = ''
        if g['nz'] > 1 and rng.random() < 0.6:
            g['f'][0]['z'] = True
            g['vg'] = rng.choice(['any', 'any', 'same', 'inside', 'above', 'below', 'near', 'close', 'close'])
            g['nk'] = rng.choice([1, 2, 3, 5])
        g['ex'] = not g['vg'] or rng.random() < 0.5
        g['stop'] = rng.choice([None, 1e-3, 1e-6, 1e-6])
        g['mpi'] = rng.choice([0, 0, 0, 2])
        cs.append(g)
    return cs


TY = {'double': 'f8', 'float': 'f4', 'short': 'i2'}


def weights(lon, lat):
    ni, nj = len(lon), len(lat)
    dyu = np.empty(nj); dyu[:-1] = np.diff(lat); dyu[-1] = dyu[-2]
    dyt = np.empty(nj); dyt[1:] = 0.5 * (dyu[1:] + dyu[:-1]); dyt[0] = dyt[1]
    dxu = np.empty(ni); dxu[:-1] = np.diff(lon); dxu[-1] = dxu[-2]
    dxt = np.empty(ni); dxt[1:] = 0.5 * (dxu[1:] + dxu[:-1]); dxt[0] = dxt[1]
    mid = 0.5 * (lat[1:] + lat[:-1])
    lp = np.append(mid, lat[-1] + 0.5 * (lat[-1] - lat[-2]))
    lm = np.insert(mid, 0, lat[0] - 0.5 * (lat[1] - lat[0]))
    cs = 1 / np.cos(lat)
    cn = (np.cos(lp) * cs / (dyt * dyu))[:, None] + np.zeros(ni)
    cS = (np.cos(lm) * cs / (dyt * np.insert(dyu[:-1], 0, dyu[0])))[:, None] + np.zeros(ni)
    ce = (cs * cs)[:, None] / (dxu * dxt)
    cw = (cs * cs)[:, None] / (np.insert(dxu[:-1], 0, dxu[0]) * dxt)
    s = cn + cS + ce + cw
    return cn / s, cS / s, ce / s, cw / s


def residual(E, W, cyc):
    P = np.pad(E, 1, mode='edge')
    if cyc:
        P[1:-1, 0], P[1:-1, -1] = E[:, -1], E[:, 0]
    cn, cS, ce, cw = W
    return cn * P[2:, 1:-1] + cS * P[:-2, 1:-1] + ce * P[1:-1, 2:] + cw * P[1:-1, :-2] - E


def slow(e, mm, W, cyc, stop):
    """does relaxation need more than the 4000 steps fregrid takes at most?"""
    for n in range(3900):
        r = np.where(mm, 0.9 * residual(e, W, cyc), 0)
        e = e + r
        if np.abs(r).max() <= stop:
            return False
    return True


def run_case(g, c):
    rng = np.random.default_rng(g['seed'])
    A = freg.make(g['src'], c, 'src')
    if c.viol:
        return
    cyc = g['src']['kind'] == 'latlon'
    cx, cy = A.centers(0)
    ny, nx = cx.shape
    nt, nz, nn = g['nt'], g['nz'], g['nn']
    lev = np.cumsum(rng.uniform(1, 50, size=nz)) if nz else None
    f = nc.F('NETCDF3_64BIT_OFFSET')
    f.dims['gx'], f.dims['gy'] = nx, ny
    f.vars['gx'] = nc.V('double', ['gx'], {'cartesian_axis': 'X', 'units': 'degrees_E'}, cx[0].copy())
    f.vars['gy'] = nc.V('double', ['gy'], {'cartesian_axis': 'Y', 'units': 'degrees_N'}, cy[:, 0].copy())
    if nz:
        f.dims['depth'] = nz
        f.vars['depth'] = nc.V('double', ['depth'], {'cartesian_axis': 'Z', 'units': 'm', 'positive': 'down'}, lev)
        zed = np.concatenate([[2 * lev[0] - (lev[1] if nz > 1 else 0)], lev[:-1] + np.diff(lev) * 0.4, [lev[-1] + 5]])
        if g['zbnd'] == 'bounds':
            f.vars['depth'].atts['bounds'] = 'depth_bnds'
            f.dims['nv'] = 2
            f.vars['depth_bnds'] = nc.V('double', ['depth', 'nv'], {}, np.stack([zed[:-1], zed[1:]], 1))
        elif g['zbnd'] == 'edges':
            f.vars['depth'].atts['edges'] = 'depth_edges'
            f.dims['depth_edges'] = nz + 1
            f.vars['depth_edges'] = nc.V('double', ['depth_edges'], {'cartesian_axis': 'Z'}, zed)
    if nn:
        f.dims['hour'] = nn
        f.vars['hour'] = nc.V('double', ['hour'], {'cartesian_axis': 'N', 'units': 'h'}, np.arange(1., nn + 1))
    if nt:
        f.dims['time'] = nt
        f.rec = 'time'
        f.vars['time'] = nc.V('double', ['time'], {'cartesian_axis': 'T', 'units': 'days since 2000-01-01'}, np.arange(nt) + 0.5)
    real = {}
    sc, of = 0.25, -3.0
    for x in g['f']:
        dims = ['time'] * x['t'] + ['hour'] * x['n'] + ['depth'] * x['z'] + ['gy', 'gx']
        shp = tuple(f.dims[d] for d in dims)
        if x['vals'] == 'const':
            d = np.full(shp, 11.0)
        elif x['vals'] == 'smooth':
            d = 270 + 20 * np.cos(np.radians(cy)) + np.sin(np.radians(cx)) + np.zeros(shp)
        else:
            d = rng.normal(size=shp) * 30 + 100
        if x['zero']:
            d = np.where(rng.random(shp) < 0.3, 0.0, d)
        at = {'units': 'K'}
        pk = x['type'] == 'short'
        raw = np.rint((d - of) / sc).astype('i2') if pk else d.astype(TY[x['type']])
        m = np.zeros(shp, bool)
        if pk:
            at['scale_factor'], at['add_offset'] = np.float64(sc), np.float64(of)
        if x['miss']:
            mv = np.dtype(TY[x['type']]).type({'i2': -9999, 'f4': -1e10, 'f8': -1e20}[TY[x['type']]])
            at[x['miss']] = mv
            m = rng.random(shp) < x['pm']
            raw = np.where(m, mv, raw).astype(TY[x['type']])
        v = raw.astype('f8') * (sc if pk else 1) + (of if pk else 0)
        real[x['name']] = (v, m, at)
        f.vars[x['name']] = nc.V(x['type'], dims, at, raw)
    nc.write('in.nc', f)
    stop = g['stop'] or 0.005
    names = ','.join(x['name'] for x in g['f'])
    a0 = ['--input_mosaic', A.mosaic, '--interp_method', 'conserve_order1', '--maxxgrid', 40000]
    a1 = ['--input_file', 'in.nc', '--scalar_field', names, '--extrapolate'] + (['--stop_crit', g['stop']] if g['stop'] else [])
    r0 = c.tool('fregrid', a0 + ['--output_mosaic', A.mosaic, '--output_file', 'self.nc'] + a1)
    if r0.rc:
        return
    S = nc.read('self.nc')
    W = weights(np.radians(cx[0]), np.radians(cy[:, 0]))
    filled = 0
    full, known = {}, {}
    for x in g['f']:
        nm = x['name']
        v, m, at = real[nm]
        if not c.check(nm in S.vars and S.vars[nm].data.shape == v.shape, 'field', 'self.nc: %s is missing or has another shape' % nm):
            return
        pk = x['type'] == 'short'
        E = S.vars[nm].data.astype('f8') * (sc if pk else 1) + (of if pk else 0)
        full[nm] = E
        ok = np.ones(v.shape[:-2], bool)
        for ix in np.ndindex(*v.shape[:-2]):
            e, mm, vv = E[ix], m[ix], v[ix]
            q = {'double': 1e-12, 'float': 2e-7, 'short': 0}[x['type']] * max(1, np.abs(vv[~mm]).max() if (~mm).any() else 1) + (0.51 * sc if pk else 0) + 1e-6 * 0
            if mm.all():
                ok[ix] = False
                continue
            c.check(np.all(np.abs(e - vv)[~mm] <= max(q, 1e-9 * np.abs(vv[~mm]).max()) + (0 if pk else 1e-9)), 'valid-point', lambda: '%s%s: a valid point changed: %s became %s' % (nm, list(ix), vv[~mm][np.argmax(np.abs(e - vv)[~mm])], e[~mm][np.argmax(np.abs(e - vv)[~mm])]))
            if not mm.any():
                continue
            filled += int(mm.sum())
            # the iteration starts from zero or from the level above
            up = v[ix[:-1] + (slice(0, ix[-1] + 1),)][~m[ix[:-1] + (slice(0, ix[-1] + 1),)]] if x['z'] else vv[~mm]
            lo, hi = min(0, up.min()), max(0, up.max())
            c.check(np.all(e[mm] >= lo - q - 1e-9) and np.all(e[mm] <= hi + q + 1e-9), 'range', lambda: '%s%s: filled values from %r to %r, data from %r to %r' % (nm, list(ix), e[mm].min(), e[mm].max(), vv[~mm].min(), vv[~mm].max()))
            r = np.abs(residual(e, W, cyc))[mm].max()
            lim = stop / 0.9 * 1.001 + 2 * q + 1e-9 * max(abs(lo), abs(hi))
            if r > lim and slow(np.where(mm, E[ix[:-1] + (ix[-1] - 1,)] if x['z'] and ix[-1] else 0.0, vv), mm, W, cyc, stop):
                c.count('not converged')
                continue
            c.check(r <= lim, 'laplace', lambda: '%s%s: filled points miss the average of their neighbours by %.3g, the stopping criterion is %g' % (nm, list(ix), r, stop))
        known[nm] = ok
    c.count('filled points', filled)
    if not g['dst'] and not g['vg']:
        c.nontrivial = filled > 0
        c.sig = repr(g)[:300]
        return
    if g['dst'] == 'size':
        nlon, nlat = g['size']
        B = freg.bysize(0, 360, -90, 90, nlon, nlat, True)
        a2 = ['--nlon', nlon, '--nlat', nlat]
    elif g['dst']:
        B = freg.make(g['grid'], c, 'dst')
        a2 = ['--output_mosaic', B.mosaic]
    else:
        B = A
        a2 = ['--output_mosaic', A.mosaic]
    if c.viol:
        return
    nB = len(B.tiles)
    if c.tool('fregrid', a0 + a2 + ['--remap_file', 'rm.nc']).rc:
        return
    zl = None
    if g['vg']:
        k = g['nk']
        L0, L1 = lev[0], lev[-1]
        zz = {'any': lambda: np.sort(rng.uniform(L0 - 30, L1 + 30, size=2 * k + 1)), 'inside': lambda: np.sort(rng.uniform(L0, L1, size=2 * k + 1)), 'above': lambda: L0 - 100 + np.arange(2 * k + 1.) ,
              'below': lambda: L1 + 1 + np.arange(2 * k + 1.) * 7, 'near': lambda: np.linspace(L0 - 1e-3, L1 + 1e-3, 2 * k + 1),
              'same': lambda: np.interp(np.arange(2 * nz + 1) / 2 - 0.5, np.arange(nz), lev, left=L0 - 1, right=L1 + 1),
              'close': lambda: np.interp(np.arange(2 * nz + 1) / 2 - 0.5, np.arange(nz), np.sort(np.array(lev) + rng.uniform(-1, 1, size=nz) * rng.choice([1e-4, 0.01, 0.3]) * (np.diff(lev).min() if nz > 1 else 1)), left=L0 - 1, right=L1 + 1)}[g['vg']]()
        h = nc.F('NETCDF3_64BIT_OFFSET')
        h.dims['nzv'] = len(zz)
        h.vars['zeta'] = nc.V('double', ['nzv'], {'units': 'meters'}, zz)
        nc.write('vgrid.nc', h)
        zl = zz[1::2]
    ex = [v for v in a1 if v != '--extrapolate' or g['ex']] + (['--dst_vgrid', 'vgrid.nc'] if g['vg'] else [])
    mp = 0
    if g['mpi'] and min(t[0].shape[0] // 2 for t in B.tiles) >= 3 * g['mpi']:
        mp = g['mpi']
    if c.tool('fregrid_parallel' if mp else 'fregrid', a0 + a2 + ['--remap_file', 'rm.nc', '--output_file', 'out.nc'] + ex, mpi=mp).rc:
        return
    if mp:
        c.count('parallel runs')
    ncmp = 0
    for tb in range(nB):
        ony, onx = (n // 2 for n in B.tiles[tb][0].shape)
        fn = 'out.tile%d.nc' % (tb + 1) if nB > 1 else 'out.nc'
        if not c.check(os.path.exists(fn), 'output-missing', '%s was not written' % fn):
            return
        o = nc.read(fn)
        rm = freg.remap_names('rm', nB)[tb]
        if os.path.exists(rm):
            T, i1, j1, i2, j2, ar = (np.asarray(v) for v in freg.rms(rm)[:6])
        else:
            T = i1 = j1 = i2 = j2 = np.zeros(0, int); ar = np.zeros(0)
        q2 = j2 * onx + i2
        den = np.zeros(ony * onx)
        np.add.at(den, q2, ar)
        cov = den > 0
        if g['zbnd'] and any(x['z'] for x in g['f']):
            ze = zz[::2] if g['vg'] else zed
            b = [(n, v.data) for n, v in o.vars.items() if n in ('depth_bnds', 'depth_edges')]
            c.check(len(b) == 1, 'level-bounds', lambda: '%s: bounds of the levels missing (%s)' % (fn, list(o.vars)))
            for n, v in b:
                w = ze if v.ndim == 1 else np.stack([ze[:-1], ze[1:]], 1)
                c.check(v.shape == w.shape and np.allclose(v, w, rtol=1e-12, atol=1e-9), 'level-bounds', lambda: '%s %s: %s, expected %s' % (fn, n, v, w))
        if g['vg'] and any(x['z'] for x in g['f']):
            c.check('depth' in o.vars and np.array_equal(o.vars['depth'].data, zl), 'levels', lambda: '%s: levels %s, expected %s' % (fn, o.vars.get('depth') and o.vars['depth'].data, zl))
        for x in g['f']:
            nm = x['name']
            v, m, at = real[nm]
            pk = x['type'] == 'short'
            E = full[nm]
            lead = E.shape[:-2]
            H = np.zeros(lead + (ony * onx,))
            for ix in np.ndindex(*lead):
                np.add.at(H[ix], q2, E[ix][j1, i1] * ar)
            with np.errstate(all='ignore'):
                H = H / den
            K = known[nm]
            if g['vg'] and x['z']:
                w = np.clip(np.interp(zl, lev, np.arange(nz)), 0, nz - 1)
                a = np.minimum(w.astype(int), nz - 2)
                w = w - a
                K = (K[..., a] | (w >= 1 - 1e-12)) & (K[..., a + 1] | (w <= 1e-12))
                H = H[..., a, :] * (1 - w)[:, None] + H[..., a + 1, :] * w[:, None]
            lead = H.shape[:-1]
            if not c.check(nm in o.vars and o.vars[nm].data.shape == lead + (ony, onx), 'field-shape', lambda: '%s %s: shape %s, expected %s' % (fn, nm, nm in o.vars and o.vars[nm].data.shape, lead + (ony, onx))):
                return
            raw = o.vars[nm].data.reshape(lead + (-1,))
            mv = at.get('missing_value', at.get('_FillValue'))
            got = raw.astype('f8') * (sc if pk else 1) + (of if pk else 0)
            if mv is not None:
                isn = raw == mv
                c.check(np.array_equal(isn, np.broadcast_to(~cov, raw.shape)), 'missing', lambda: '%s %s: missing at %s, expected at the %d uncovered cells' % (fn, nm, np.argwhere(isn & cov)[:3].tolist(), (~cov).sum()))
            if not cov.any():
                continue
            big = np.abs(E).max()
            tol = {'double': 1e-9, 'float': 4e-7, 'short': 1e-9}[x['type']] * big + (1.1 * sc if pk else 0) + 1e-10
            e = np.where(K[..., None] & cov, np.abs(got - np.where(cov, H, 0)), 0)
            c.check(np.all(e <= tol), 'value', lambda: '%s %s: %r at %s, expected %r' % (fn, nm, got.ravel()[e.argmax()], np.unravel_index(e.argmax(), e.shape), H.ravel()[e.argmax()]))
            ncmp += int(cov.sum() * K.sum())
    c.count('values', ncmp)
    if g['vg']:
        c.count('vertical:' + g['vg'])
    c.nontrivial = filled > 0 or bool(g['vg']) and ncmp > 0
    c.sig = repr(g)[:400]
