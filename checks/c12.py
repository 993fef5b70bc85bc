"""make_hgrid: longitude-latitude, tripolar, spectral, plane and user grids."""
import os, random
import numpy as np
from vlib import nc, geo

ID = 'C12'
TOOLS = ['make_hgrid']
MIN = 400
RULE = ('random make_hgrid requests for regular_lonlat, tripolar, spectral, simple_cartesian, f_plane, beta_plane and from_file grids (1-4 regions per axis, none/t_cell/c_cell, '
        'regional to global, legacy dlon/dlat, great-circle areas, ascii and netCDF user files); vertices are compared with an independent construction (monotone cubic bounds, Gauss-Legendre '
        'latitudes, bipolar cap), lengths and areas with independent spherical geometry, total area with the exact area of the region; bad requests must be refused. '
        'Non-trivial: a grid of more than 4 cells was checked; distinct by case.')
ASSUMPTIONS = ['bounds are increasing, as the usage demands']


def regions(rng, lo, hi, even, nmin=1, nmax=4):
    n = rng.randint(nmin, nmax)
    cuts = sorted({round(lo + (hi - lo) * rng.random(), rng.choice([0, 1, 2])) for _ in range(n - 1)} - {lo, hi})
    cuts = [c for c in cuts if c - lo > 1 and hi - c > 1]
    out = []
    for c in cuts:
        if not out or c - out[-1] > 1:
            out.append(c)
    b = [lo] + out + [hi]
    m = 2 if even else 1
    return b, [m * rng.randint(1, 6 if m == 2 else 12) for _ in range(len(b) - 1)]


def gen(rng, tier):
    cs = []
    for i in range(700 if tier == 'quick' else 8000):
        k = rng.choice(['lonlat', 'lonlat', 'lonlat', 'tripolar', 'tripolar', 'tripolar', 'spectral', 'simple', 'fplane', 'ascii', 'ncfile', 'legacy', 'legacy', 'bad'])
        g = {'kind': k, 'seed': rng.randrange(1 << 30), 'center': rng.choice(['none', 't_cell', 'c_cell']), 'gc': rng.random() < 0.3, 'name': rng.choice([None, 'grid_x', 'my.grid'])}
        ev = g['center'] != 'none'
        if k in ('lonlat', 'fplane', 'bad'):
            lo = rng.choice([0, -280, -180, 20.5, -0.25])
            hi = rng.choice([lo + 360, lo + 30, lo + 100.5])
            g['xb'], g['nlon'] = regions(rng, lo, hi, ev)
            # no cell wider than 180 degrees
            g['nlon'] = [max(n, 4) for n in g['nlon']]
            g['nlon'] = [n + n % 2 for n in g['nlon']] if ev else g['nlon']
            a = rng.choice([-90, -90, -82, -30, 0, 50])
            b = rng.choice([x for x in [90, 90, 60.5, 10, 66] if x > a])
            g['yb'], g['nlat'] = regions(rng, a, b, ev)
            g['flat'] = rng.choice([0, 30, -45.5, 55, 90])
            g['beta'] = rng.random() < 0.4
        elif k == 'tripolar':
            lo = rng.choice([-280, 0, -300, 20, -180])
            g['xb'], g['nlon'] = [lo, lo + 360], [4 * rng.randint(2, 12)]
            g['yb'], g['nlat'] = regions(rng, rng.choice([-82, -90, -60, -78.5]), 90, ev, 1, 4)
            g['lat_join'] = rng.choice([None, None, 65, 60, 66.5, 70, 50])
        elif k == 'legacy':
            g['center'] = rng.choice(['t_cell', 'c_cell'])
            g['nreg'] = [rng.randint(1, 3), rng.randint(1, 3)]
            g['tri'] = rng.random() < 0.3
        elif k == 'spectral':
            g['nlon'], g['nlat'] = [2 * rng.randint(2, 40)], [2 * rng.randint(1, 40)]
        elif k == 'simple':
            g['nlon'], g['nlat'] = [rng.randint(1, 20)], [rng.randint(1, 20)]
            g['xb'], g['yb'] = sorted(rng.sample(range(-100, 100), 2)), sorted(rng.sample(range(-80, 80), 2))
            g['d'] = [rng.choice([1000, 2500.5, 0.5]), rng.choice([1000, 77.25])]
        elif k in ('ascii', 'ncfile'):
            g['n'] = [rng.randint(1, 9), rng.randint(1, 9)]
            g['v'] = rng.choice(['v1', 'v1curv', 'v1curv', 'rlon', 'ij', 'ijcurv', 'rloncurv', 'lonlat', 'axes', 'axes', 'narr', 'narr'])
            if k == 'ncfile' and g['v'] == 'axes':
                g['n'][0] += 3
            if k == 'ncfile' and g['v'] == 'narr':
                g['n'] = [max(2, n) for n in g['n']]
                g['bent'] = rng.choice(['', '', '', 'x', 'y'])
            g['am'] = rng.random() < 0.4
            g['short'] = rng.random() < 0.25
            g['nt'] = rng.choice([1, 1, 2, 3])
        cs.append(g)
    return cs


def bound(b, n, center):
    m = 1 if center == 'none' else 2
    cum = np.cumsum([0] + [k // m for k in n]) + 1.0
    t = geo.pchip(cum, np.arange(1, cum[-1] + 1), b)
    if m == 1:
        return t
    g = np.zeros(2 * len(t) - 1)
    g[1::2] = 0.5 * (t[1:] + t[:-1])
    if center == 't_cell':
        g[0::2] = t
    else:
        g[0], g[-1] = t[0], t[-1]
        g[2:-1:2] = 0.5 * (g[1:-2:2] + g[3::2])
    return g


def legacy(rng, lo, n, center):
    """region bounds and resolutions that fit a whole number of cells; -> bnds, dbnds, expected grid"""
    bnds, db, dl = [lo], [rng.choice([1.0, 2.0, 0.5])], []
    for _ in range(n):
        d1 = rng.choice([1.0, 2.0, 0.5, db[-1]])
        nc_ = rng.randint(2, 8)
        avg, chg = 0.5 * (db[-1] + d1), d1 - db[-1]
        if center == 't_cell':
            dl += [avg - 0.5 * chg * np.cos(np.pi / nc_ * (i + 0.5)) for i in range(nc_)]
        else:
            dl += [avg - 0.5 * chg * np.cos(np.pi / nc_ * (i + 1)) for i in range(nc_)]
        bnds.append(bnds[-1] + avg * nc_)
        db.append(d1)
    g = [lo]
    if center == 't_cell':
        for d in dl:
            g += [g[-1] + d / 2, g[-1] + d]
    else:
        g.append(lo + 0.5 * db[0])
        for d in dl[:-1]:
            g += [g[-1] + d / 2, g[-1] + d]
        g.append(g[-1] + dl[-1] / 2)
    return bnds, db, np.array(g)


def unit(lon, lat):
    return geo.xyz(lon, lat)


def bipolar(xb, yb, jj, lon0):
    """Murray's bipolar cap on rows jj.. : unit vectors of the vertices"""
    rp = np.tan((90 - yb[jj]) / 2 * geo.D)
    lam = 2 * np.arctan(np.tan((90 - yb[jj:]) / 2 * geo.D) / rp)       # bipolar longitude magnitude, [0,90]
    rel = (xb - lon0) % 360.0
    rel[-1] = 360.0
    X, L = np.meshgrid(rel, lam)
    west = X <= 180
    # bipolar latitude: 90 at lon0, -90 at lon0+180
    phi = np.where(west, 90 - X, X - 270) * geo.D
    # point on the bipolar sphere: distance from the centre of the cap
    chi = np.arccos(np.clip(np.cos(L) * np.cos(phi), -1, 1))
    lat = 90 - 2 * np.arctan(rp * np.tan(chi / 2)) / geo.D
    # azimuth: half plane of each side
    az = np.arctan2(np.sin(L), np.tan(phi))      # 0 towards lon0, pi towards lon0+180
    lon = np.where(west, lon0 + az / geo.D, lon0 - az / geo.D)
    return geo.xyz(lon, lat), lat


def refuse(c, args):
    r = c.tool('make_hgrid', args, expect='fail', abort_ok=True)
    c.count('refusals')


def fm(v):
    return ','.join(repr(float(x)) if isinstance(x, float) else str(x) for x in v)


def close(c, key, a, b, tol, what=''):
    e = geo.relerr(a, b)
    return c.check(a.shape == b.shape and e <= tol, key, lambda: '%s: max relative error %.3g (tol %.1g), shape %s/%s' % (what, e, tol, a.shape, b.shape))


def run_case(g, c):
    rng = random.Random(g['seed'])
    k = g['kind']
    name = g['name'] or 'horizontal_grid'
    base = (['--grid_name', name] if g['name'] else []) + (['--great_circle_algorithm'] if g['gc'] else [])
    ctr = [] if g['center'] == 'none' and rng.random() < 0.5 else ['--center', g['center']]
    c.sig = g
    R = geo.R
    if k == 'bad':
        a = ['--grid_type', 'regular_lonlat_grid', '--nxbnds', len(g['xb']), '--nybnds', len(g['yb']), '--xbnds=' + fm(g['xb']), '--ybnds=' + fm(g['yb']), '--nlon', fm(g['nlon']), '--nlat', fm(g['nlat'])]
        w = rng.choice(['nx', 'ny', 'nlon', 'type', 'center', 'odd', 'none', 'halo', 'schmidt', 'tri3', 'nest'])
        if w == 'nx':
            a[3] = len(g['xb']) + 1
        elif w == 'ny':
            a[5] = len(g['yb']) + 1
        elif w == 'nlon':
            a[9] += ',4'
        elif w == 'type':
            a[1] = 'regular_grid'
        elif w == 'center':
            a += ['--center', 'u_cell']
        elif w == 'odd':
            a[9] = fm([3] * len(g['nlon']))
            a += ['--center', rng.choice(['t_cell', 'c_cell'])]
        elif w == 'none':
            a = a[:8]
        elif w == 'halo':
            a += ['--out_halo', '1']
        elif w == 'schmidt':
            a += ['--do_schmidt', '--stretch_factor', '2', '--target_lon', '0', '--target_lat', '0']
        elif w == 'nest':
            a += ['--nest_grids', '1', '--parent_tile', '1', '--refine_ratio', '2', '--istart_nest', '3', '--iend_nest', '4', '--jstart_nest', '3', '--jend_nest', '4', '--halo', '1']
        elif w == 'tri3':
            a = ['--grid_type', 'tripolar_grid', '--nxbnds', 3, '--nybnds', 2, '--xbnds=0,180,360', '--ybnds=-80,90', '--nlon', '4,4', '--nlat', '8']
        refuse(c, a)
        c.check(not [n for n in os.listdir('.') if n.endswith('.nc')], 'output-on-error', os.listdir('.'))
        c.nontrivial = True
        return
    if k in ('lonlat', 'fplane', 'tripolar'):
        t = {'lonlat': 'regular_lonlat_grid', 'tripolar': 'tripolar_grid', 'fplane': 'beta_plane_grid' if g.get('beta') else 'f_plane_grid'}[k]
        a = ['--grid_type', t, '--nxbnds', len(g['xb']), '--nybnds', len(g['yb']), '--xbnds=' + fm(g['xb']), '--ybnds=' + fm(g['yb']), '--nlon', fm(g['nlon']), '--nlat', fm(g['nlat'])]
        if k == 'fplane':
            a += ['--f_plane_latitude=%s' % g['flat']]
        if k == 'tripolar' and g['lat_join']:
            a += ['--lat_join', g['lat_join']]
        xb, yb = bound(g['xb'], g['nlon'], g['center']), bound(g['yb'], g['nlat'], g['center'])
        if g['gc'] and np.diff(yb).max() > 170:
            return      # great circles through antipodal points are not defined
        if k == 'tripolar':
            d = np.abs(yb - (g['lat_join'] or 65))
            o = np.sort(d)
            # no cap at all, or a join half way between two rows (either may be taken)
            if len(yb) < 4 or int(np.argmin(d)) >= len(yb) - 1 or o[1] - o[0] < 1e-6:
                return
    elif k == 'legacy':
        if g['tri']:
            m = rng.choice([6, 10, 12, 15, 20])
            xbn, dxb = [-280.0, 80.0], [float(m), float(m)]
            xb = np.linspace(-280, 80, 2 * 360 // m + 1)
            ybn, dyb, yb = legacy(rng, 0.0, g['nreg'][1], g['center'])
            off = 90.0 - ybn[-1]
            ybn, yb = [v + off for v in ybn], yb + off
            o = np.sort(np.abs(yb - 65))
            if min(yb[-2:]) < 66 or yb[0] > 60 or o[1] - o[0] < 1e-6:
                return
        else:
            xbn, dxb, xb = legacy(rng, rng.choice([0.0, -100.0]), g['nreg'][0], g['center'])
            ybn, dyb, yb = legacy(rng, -40.0, g['nreg'][1], g['center'])
            if yb[-1] > 90 or yb[0] < -90:
                return
        a = ['--grid_type', 'tripolar_grid' if g['tri'] else 'regular_lonlat_grid', '--nxbnds', len(xbn), '--nybnds', len(ybn), '--xbnds=' + fm(xbn), '--ybnds=' + fm(ybn), '--dlon', fm(dxb), '--dlat', fm(dyb)]
        k = 'tripolar' if g['tri'] else 'lonlat'
        g = dict(g, xb=xbn, yb=ybn, lat_join=None)
    elif k == 'spectral':
        nx, ny = g['nlon'][0], g['nlat'][0]
        a = ['--grid_type', 'spectral_grid', '--nlon', nx, '--nlat', ny]
        ctr = []
        nj, ni = ny // 2, nx // 2
        s, w = np.polynomial.legendre.leggauss(nj)
        yb = np.zeros(ny + 1)
        yb[1::2] = np.arcsin(s) / geo.D
        lb = np.arcsin(np.clip(np.cumsum(w) - 1, -1, 1)) / geo.D
        yb[0], yb[-1] = -90, 90
        yb[2:-1:2] = lb[:-1]
        xb = (np.arange(nx + 1) / 2 - 0.5) * 360 / ni
    elif k == 'simple':
        nx, ny = g['nlon'][0], g['nlat'][0]
        a = ['--grid_type', 'simple_cartesian_grid', '--xbnds=' + fm(g['xb']), '--ybnds=' + fm(g['yb']), '--nlon', nx, '--nlat', ny, '--simple_dx', g['d'][0], '--simple_dy', g['d'][1]]
        ctr = []
        xb, yb = np.linspace(g['xb'][0], g['xb'][1], nx + 1), np.linspace(g['yb'][0], g['yb'][1], ny + 1)
    elif k == 'ascii':
        nx, ny = g['n']
        xb = np.cumsum([rng.uniform(-100, 100)] + [rng.uniform(0.1, 8) for _ in range(nx)])
        yb = np.sort([rng.uniform(-90, 90) for _ in range(ny + 1)])
        v = ['x-grid'] + [repr(float(q)) for q in xb] + ['y-grid of mine'] + [repr(float(q)) for q in yb]
        open('my', 'w').write('\n'.join(v[:-1] if g['short'] else v) + '\n')
        a = ['--grid_type', 'from_file', '--my_grid_file', 'my', '--nlon', nx, '--nlat', ny]
        ctr = []
        if g['short']:
            refuse(c, a + base)
            c.nontrivial = True
            return
    elif k == 'ncfile':
        return ncfile(g, c, rng, name, base)
    r = c.tool('make_hgrid', a + ctr + base, timeout=60)
    if r.rc != 0:
        return
    f = nc.read(name + '.nc')
    x, y = f.vars['x'].data, f.vars['y'].data
    dx, dy, area, ang = (f.vars[n].data for n in ('dx', 'dy', 'area', 'angle_dx'))
    X, Y = np.meshgrid(xb, yb)
    ny, nx = len(yb) - 1, len(xb) - 1
    if not c.check(x.shape == (ny + 1, nx + 1) and y.shape == x.shape and dx.shape == (ny + 1, nx) and dy.shape == (ny, nx + 1) and area.shape == (ny, nx) and ang.shape == x.shape,
                   'shape', lambda: '%s %s %s %s expected %s' % (x.shape, dx.shape, dy.shape, area.shape, (ny, nx))):
        return
    c.nontrivial = nx * ny > 4
    c.count('cells', nx * ny)
    c.check(all(np.isfinite(v).all() for v in (x, y, dx, dy, area, ang)), 'finite', 'non-finite values')
    if k != 'tripolar':
        tol = 2e-11
        c.check(np.abs(x - X).max() <= tol * 400 and np.abs(y - Y).max() <= (tol * 400 if k != 'spectral' else 1e-7), 'vertices', lambda: 'x err %g y err %g' % (np.abs(x - X).max(), np.abs(y - Y).max()))
        c.check((ang == 0).all(), 'angle', 'rotation angle of an unrotated grid')
        c.check((np.diff(x, axis=1) > 0).all() and (np.diff(y, axis=0) > 0).all(), 'monotone', 'vertices not increasing')
        X, Y = x, y
    sl = np.sin(np.clip(Y, -90, 90) * geo.D)
    cosl = np.cos(Y * geo.D)
    if k == 'simple':
        c.check((dx == g['d'][0]).all() and (dy == g['d'][1]).all() and np.allclose(area, g['d'][0] * g['d'][1], rtol=1e-14), 'simple-metrics', '')
    elif k == 'fplane':
        cf = np.cos(g['flat'] * geo.D)
        close(c, 'dx', dx + R * 1e-9, np.diff(X, axis=1) * geo.D * R * cf + R * 1e-9, 1e-6)
        close(c, 'dy', dy, np.diff(Y, axis=0) * geo.D * R, 1e-11)
        close(c, 'area', area + R, np.diff(X, axis=1)[:-1] * np.diff(Y, axis=0)[:, :-1] * geo.D ** 2 * R * R * cf + R, 1e-10)
    elif k != 'tripolar':
        close(c, 'dx', dx + 1e-3, np.diff(X, axis=1) * geo.D * R * cosl[:, :-1] + 1e-3, 1e-6)
        close(c, 'dy', dy, np.diff(Y, axis=0) * geo.D * R, 1e-10)
        if g['gc'] and k not in ('ascii',):
            ref = geo.gc_cell_area(X, Y)
            d = np.abs(area - ref)
            c.check((d <= 1e-7 * ref + 5e-11 * R * R).all(), 'area-gc', lambda: 'great circle areas differ by %.3g R^2' % (d.max() / R / R))
        else:
            close(c, 'area', area, np.diff(X, axis=1)[:-1] * geo.D * np.diff(sl, axis=0)[:, :-1] * R * R, 1e-9)
            tot = (xb[-1] - xb[0]) * geo.D * (np.sin(yb[-1] * geo.D) - np.sin(yb[0] * geo.D)) * R * R
            c.check(abs(area.sum() / tot - 1) < 1e-10, 'total-area', '%r %r' % (area.sum(), tot))
    else:
        lon0 = g['xb'][0]
        jj = int(np.argmin(np.abs(yb - (g['lat_join'] or 65))))
        p = geo.xyz(x, y)
        q = geo.xyz(X, Y)
        e = np.abs(p[:jj + 1] - q[:jj + 1]).max()
        c.check(e < 1e-9 and np.abs(x[:jj + 1] - X[:jj + 1]).max() < 1e-6, 'vertices', lambda: 'below the join: %g' % e)
        cap, _ = bipolar(xb, yb, jj, lon0)
        e = np.abs(p[jj:] - cap).max()
        c.check(e < 3e-8, 'cap-vertices', lambda: 'bipolar cap off by %g at %s' % (e, np.argwhere(np.abs(p[jj:] - cap).max(-1) > 3e-8)[:4].tolist()))
        # the last row folds onto itself, first and last column coincide
        e = np.abs(p[-1] - p[-1, ::-1]).max()
        c.check(e < 1e-9, 'fold', 'the fold row does not meet itself: %g' % e)
        e = np.abs(p[:, 0] - p[:, -1]).max()
        c.check(e < 1e-9, 'cyclic', 'first and last column differ: %g' % e)
        # the spherical part stops where the cap begins; exact lengths there, approximate (metric mean) in the cap
        close(c, 'dx', dx[:jj] + 1e-3, (np.diff(X, axis=1) * geo.D * R * cosl[:, :-1])[:jj] + 1e-3, 1e-6)
        close(c, 'dy', dy[:jj], (np.diff(Y, axis=0) * geo.D * R)[:jj], 1e-10)
        a0 = (np.diff(X, axis=1)[:-1] * geo.D * np.diff(sl, axis=0)[:, :-1] * R * R)[:jj]
        tot = 2 * np.pi * R * R * (1 - np.sin(yb[0] * geo.D))
        if g['gc']:
            ref = geo.gc_cell_area(x, y)
            close(c, 'area-gc', area + R * R * 1e-10, np.abs(ref) + R * R * 1e-10, 1e-4, 'great circle areas')
        else:
            close(c, 'area', area[:jj], a0, 1e-9)
            c.check((area > 0).all(), 'cap-area-sign', lambda: 'non-positive areas at %s' % np.argwhere(area <= 0)[:5].tolist())
            c.check(abs(area.sum() / tot - 1) < 1e-7, 'total-area', lambda: 'sum %r, exact %r (%.3g)' % (area.sum(), tot, area.sum() / tot - 1))
            # symmetry of the cap about the line through both poles and across it
            close(c, 'cap-symmetry', area[jj:] + R * R * 1e-9, area[jj:, ::-1] + R * R * 1e-9, 1e-6)
        s = geo.gcdist(p[:, 1:], p[:, :-1]) * R
        w = dx[jj:] / np.maximum(s[jj:], 1)
        big = s[jj:] > R * 1e-7
        if big.any():
            c.check((w[big] > 0.8).all() and (w[big] < 1.5).all(), 'cap-dx', lambda: 'dx/chord %g..%g' % (w[big].min(), w[big].max()))
        s = geo.gcdist(p[1:], p[:-1]) * R
        w = dy[jj:] / np.maximum(s[jj:], 1)
        big = s[jj:] > R * 1e-7
        if big.any():
            c.check((w[big] > 0.8).all() and (w[big] < 1.5).all(), 'cap-dy', lambda: 'dy/chord %g..%g' % (w[big].min(), w[big].max()))
        c.check((ang[:jj] == 0).all() and (np.abs(ang) <= 180).all(), 'angle', '')
        rot = angle(x, y)
        ok = np.ones_like(rot, bool)
        ok[:, 0] = ok[:, -1] = False
        ok[:jj] = False
        ok &= np.abs(np.roll(x, -1, 1) - np.roll(x, 1, 1)) < 170
        c.check(np.allclose(ang[ok], rot[ok], atol=1e-6), 'cap-angle', lambda: '%s' % np.abs(ang - rot)[ok].max())
    c.check(f.atts.get('great_circle_algorithm') == ('TRUE' if g['gc'] else f.atts.get('great_circle_algorithm')), 'gc-att', str(f.atts))
    c.check(('great_circle_algorithm' in f.atts) == g['gc'], 'gc-att', str(f.atts))


def angle(x, y):
    d = np.zeros_like(x)
    d[:, 1:-1] = np.arctan2(y[:, 2:] - y[:, :-2], (x[:, 2:] - x[:, :-2]) * np.cos(y[:, 1:-1] * geo.D)) / geo.D
    return d


def ncfile(g, c, rng, name, base):
    ni, nj = g['n']
    files, ref = [], []
    for t in range(g['nt']):
        f = nc.F('NETCDF3_CLASSIC')
        f.dims = {'grid_x': ni + 1, 'grid_y': nj + 1, 'grid_xt': ni, 'grid_yt': nj}
        lon0, lat0 = rng.uniform(-150, 100), rng.uniform(-60, 40)
        xs = lon0 + np.cumsum([0] + [rng.uniform(0.5, 4) for _ in range(2 * ni)])
        ys = lat0 + np.cumsum([0] + [rng.uniform(0.1, 1) for _ in range(2 * nj)])
        X, Y = np.meshgrid(xs, ys)
        v = g['v']
        if v.endswith('curv'):
            # smooth curvilinear grid whose centres are close to the middle of their cells
            X, Y = np.meshgrid(lon0 + rng.uniform(0.5, 2) * np.arange(2 * ni + 1), lat0 + rng.uniform(0.5, 1) * np.arange(2 * nj + 1))
            X, Y = X + 0.3 * np.sin(Y * 0.3) * 0.5, Y + 0.05 * np.cos(X * 0.2)
        if v.startswith('v1'):
            for n, d in (('grid_lon', X[::2, ::2]), ('grid_lat', Y[::2, ::2])):
                f.vars[n] = nc.V('double', ('grid_y', 'grid_x'), {}, d)
            for n, d in (('grid_lont', X[1::2, 1::2]), ('grid_latt', Y[1::2, 1::2])):
                f.vars[n] = nc.V('double', ('grid_yt', 'grid_xt'), {}, d)
        elif v[:2] in ('rl', 'ij'):
            # centres and the four corners of every cell, counterclockwise from the south-west one
            dx, dy = ('rlon', 'rlat') if v[:2] == 'rl' else ('i', 'j')
            f.dims = {dx: ni, dy: nj, 'vertices': 4}
            for n, Z in (('lon', X), ('lat', Y)):
                f.vars[n] = nc.V('double', (dy, dx), {}, Z[1::2, 1::2])
                f.vars[n + '_vertices'] = nc.V('double', (dy, dx, 'vertices'), {}, np.stack([Z[:-2:2, :-2:2], Z[:-2:2, 2::2], Z[2::2, 2::2], Z[2::2, :-2:2]], -1))
        elif v == 'lonlat':
            f.dims = {'lon': ni, 'lat': nj, 'bnds': 2}
            for n, z in (('lon', xs), ('lat', ys)):
                f.vars[n] = nc.V('double', (n,), {}, z[1::2])
                f.vars[n + '_bnds'] = nc.V('double', (n, 'bnds'), {}, np.stack([z[:-2:2], z[2::2]], -1))
        elif v == 'axes':
            # only the cell centres of a global grid; latitudes from either pole
            f.dims = {'grid_xt': ni, 'grid_yt': nj}
            w = np.array([rng.uniform(1, 1.5) for _ in range(ni)])
            xt = rng.choice([-180, 0, 0.5, -279.5, 20]) + (np.cumsum(w) - w[0]) * 360 / w.sum()
            w = np.array([rng.uniform(1, 1.5) for _ in range(nj + 1)])
            yt = -90 + np.cumsum(w)[:-1] * 180 / w.sum()
            xc = np.r_[0.5 * (xt[0] + xt[-1] - 360), 0.5 * (xt[1:] + xt[:-1]), 0.5 * (xt[0] + xt[-1] + 360)]
            yc = np.r_[-90, 0.5 * (yt[1:] + yt[:-1]), 90]
            xs, ys = np.empty(2 * ni + 1), np.empty(2 * nj + 1)
            xs[::2], xs[1::2], ys[::2], ys[1::2] = xc, xt, yc, yt
            X, Y = np.meshgrid(xs, ys)
            f.vars['grid_xt'] = nc.V('double', ('grid_xt',), {}, xt)
            f.vars['grid_yt'] = nc.V('double', ('grid_yt',), {}, yt[::-1] if rng.random() < 0.5 else yt)
        else:
            # piece of the grid of the North American Regional Reanalysis, lambert conformal projection
            f.dims = {'x': ni, 'y': nj}
            h = rng.choice([0.005, 0.01, 0.02])
            P, Q = np.meshgrid(rng.uniform(-0.3, 0.1) + h * 0.5 * np.arange(2 * ni + 1), rng.uniform(-0.3, 0.1) + h * 0.5 * np.arange(2 * nj + 1))
            if g['bent']:
                P, Q = (P + 0.1 * Q, Q) if g['bent'] == 'x' else (P, Q + 0.1 * P)
            k, f0 = np.sin(50 * geo.D), 50 * geo.D
            F = np.cos(f0) * np.tan(np.pi / 4 + f0 / 2) ** k / k
            r0 = F / np.tan(np.pi / 4 + f0 / 2) ** k
            rho = np.hypot(P, r0 - Q)
            X = -107 + np.arctan2(P, r0 - Q) / k / geo.D
            Y = (2 * np.arctan((F / rho) ** (1 / k)) - np.pi / 2) / geo.D
            f.vars['lon'] = nc.V('double', ('y', 'x'), {}, X[1::2, 1::2] + (360 if rng.random() < 0.3 else 0))
            f.vars['lat'] = nc.V('double', ('y', 'x'), {}, Y[1::2, 1::2])
        fn = 'u%d.nc' % t
        nc.write(fn, f)
        files.append(fn)
        ref.append((X, Y))
    a = ['--grid_type', 'from_file', '--my_grid_file', ','.join(files)]
    if g['am']:
        a.append('--angular_midpoint')
    if g.get('bent'):
        # not a grid of that projection: the corners can not be known
        c.tool('make_hgrid', a + base, timeout=60, expect='fail')
        return
    r = c.tool('make_hgrid', a + base, timeout=60)
    if r.rc != 0:
        return
    c.nontrivial = True
    for t, (X, Y) in enumerate(ref):
        f = nc.read(name + ('.tile%d' % (t + 1) if g['nt'] > 1 else '') + '.nc')
        x, y = f.vars['x'].data, f.vars['y'].data
        if not c.check(x.shape == X.shape, 'shape', lambda: '%s %s' % (x.shape, X.shape)):
            return
        e = max(np.abs(x - X)[::2, ::2].max(), np.abs(y - Y)[::2, ::2].max(), np.abs(x - X)[1::2, 1::2].max(), np.abs(y - Y)[1::2, 1::2].max())
        c.check(e < (1e-5 if g['v'] == 'narr' else 1e-12), 'file-vertices', 'given points moved by %g' % e)
        uni = g['v'] in ('v1', 'rlon', 'ij', 'lonlat', 'axes')
        p = geo.xyz(x, y)
        if not uni and not (ni == 1 and nj == 1) and not (ni == 1 or nj == 1):
            for (s0, s1, m) in (((np.s_[::2, :-2:2]), (np.s_[::2, 2::2]), (np.s_[::2, 1::2])), ((np.s_[:-2:2, ::2]), (np.s_[2::2, ::2]), (np.s_[1::2, ::2]))):
                if g['am']:
                    e = max(np.abs(x[m] - 0.5 * (x[s0] + x[s1])).max(), np.abs(y[m] - 0.5 * (y[s0] + y[s1])).max())
                    c.check(e < 1e-10, 'angular-midpoint', '%g' % e)
                else:
                    q = p[s0] + p[s1]
                    q /= np.sqrt((q ** 2).sum(-1))[..., None]
                    e = np.abs(p[m] - q).max()
                    c.check(e < 1e-10, 'midpoint', '%g' % e)
        elif uni:
            c.check(np.abs(x - X).max() < 1e-12 and np.abs(y - Y).max() < 1e-12, 'uniform', '%g %g' % (np.abs(x - X).max(), np.abs(y - Y).max()))
        close(c, 'dx', f.vars['dx'].data, geo.gcdist(p[:, 1:], p[:, :-1]) * geo.R, 1e-7)
        close(c, 'dy', f.vars['dy'].data, geo.gcdist(p[1:], p[:-1]) * geo.R, 1e-7)
        ar = geo.gc_cell_area(x, y) if g['gc'] else geo.ll_cell_area(x, y)
        close(c, 'area', f.vars['area'].data, ar, 1e-5 if g['gc'] else 1e-8)
        c.check((f.vars['angle_dx'].data == 0).all(), 'angle', '')
        c.count('cells', ar.size)
