"""runoff_regrid: conservation and relocation of runoff."""
import os, random
import numpy as np
from vlib import nc, freg, xg, grids
from checks import c18

ID = 'C20'
TOOLS = ['make_hgrid', 'make_solo_mosaic', 'runoff_regrid', 'runoff_regrid_parallel']
MIN = 60
RULE = ('random runoff fields (2-d and records, missing points, float and double, either latitude order) put on random ocean grids (lon-lat, tripolar, grids that end before the south pole) with random land; every output value is recomputed from the '
        'overlap areas and the nearest wet point of each land point, the totals are compared, and land must be dry. Non-trivial: runoff was moved off land; distinct by case.')
ASSUMPTIONS = ['runoff is not negative and its missing points are the same at all times', 'output cells span less than 170 degrees of longitude and hold no pole in their interior']


def gen(rng, tier):
    cs = []
    for i in range(330 if tier == 'quick' else 1200):
        g = {'seed': rng.randrange(1 << 30)}
        g['ocn'] = c18.pick(rng, ['tripolar', 'latlon', 'latlon', 'regional'])
        g['south'] = round(rng.uniform(-85, -60), 2) if g['ocn']['kind'] == 'latlon' and rng.random() < 0.6 else None
        g['nx'], g['ny'] = rng.randint(4, 30), rng.randint(3, 20)
        g['x0'] = rng.choice([0, 0.5, -180, 20.3, -279.5, round(rng.uniform(-300, 300), 2)])
        g['uni'] = rng.random() < 0.5
        g['pole'] = rng.random() < 0.15
        g['flip'] = rng.random() < 0.2
        g['nt'] = rng.choice([0, 0, 1, 2, 4])
        g['type'] = rng.choice(['float', 'double'])
        g['miss'] = rng.choice([None, -1e20, 1e20, -999.0, -1e34, 0.0])
        g['level'] = rng.choice([0, 0, 0, 50.0, -20.0])
        g['p'] = rng.choice([0.0, 0.3, 0.6, 0.9, 0.98])
        g['allland'] = rng.random() < 0.06
        g['names'] = rng.random() < 0.4
        g['dirs'] = rng.random() < 0.3
        g['mpi'] = rng.choice([0, 0, 0, 2, 3])
        cs.append(g)
    return cs


def edges(t):
    m = 0.5 * (t[1:] + t[:-1])
    return np.concatenate([[2 * t[0] - m[0]], m, [2 * t[-1] - m[-1]]])


def run_case(g, c):
    rng = random.Random(g['seed'])
    og = dict(g['ocn'])
    if g['south'] is not None:
        og.update(kind='regional', x1=og['x0'] + 360, y0=g['south'], y1=90)
    O = freg.make(og, c, 'ocn')
    if c.viol:
        return
    south = 1 if O.tiles[0][1][0, 0] > -90 + 1e-10 else 0
    CO = xg.Cells(*c18.extend(O, south)[0])
    ny, nx = CO.ny, CO.nx
    # runoff grid
    if g['uni']:
        xs = g['x0'] + 360.0 / g['nx'] * (0.5 + np.arange(g['nx']))
        ys = -90 + 180.0 / g['ny'] * (0.5 + np.arange(g['ny']))
        if g['pole']:
            ys = np.linspace(-90, 90, g['ny'])
    else:
        w = np.cumsum([rng.uniform(0.7, 1.3) for _ in range(g['nx'] + 1)])
        xs = g['x0'] + (w[:-1] - w[0]) / (w[-1] - w[0]) * 358.0
        w = np.cumsum([rng.uniform(0.8, 1.2) for _ in range(g['ny'])])
        ys = -75 + (w - w[0]) / (w[-1] - w[0]) * 150
    ye = np.clip(edges(ys), -90, 90)
    CI = xg.Cells(*np.meshgrid(edges(xs), ye))
    dt = np.float32 if g['type'] == 'float' else np.float64
    nt = max(g['nt'], 1)
    d = np.array([0.0 if rng.random() < 0.4 else rng.uniform(0, 1e-3) if rng.random() < 0.9 else 7.5 for _ in range(nt * g['nx'] * g['ny'])]).astype(dt).reshape(nt, g['ny'], g['nx'])
    mis = np.array([rng.random() < (0.4 if g['miss'] is not None else 0) for _ in range(g['nx'] * g['ny'])]).reshape(g['ny'], g['nx'])
    if g['miss'] is not None:
        d[:, mis] = dt(g['miss'])
        mis = d[0] == dt(g['miss'])
        d[:, mis] = dt(g['miss'])
    f = nc.F('NETCDF3_CLASSIC')
    yn, xn = ('lat', 'lon') if g['seed'] % 2 else ('yt', 'xt')
    f.dims[xn], f.dims[yn] = g['nx'], g['ny']
    fl = -1 if g['flip'] else 1
    f.vars[xn] = nc.V('double', [xn], {'units': 'degrees_east'}, xs)
    f.vars[yn] = nc.V('double', [yn], {'units': 'degrees_north'}, ys[::fl])
    dims = [yn, xn]
    if g['nt']:
        f.dims['time'] = nt
        f.rec = ['time'] if isinstance(f.rec, list) else 'time'
        f.vars['time'] = nc.V('double', ['time'], {'units': 'days since 0001-01-01 00:00:00', 'calendar': 'noleap'}, np.cumsum([rng.uniform(0.1, 40) for _ in range(nt)]))
        dims = ['time'] + dims
    at = {'long_name': 'river runoff', 'units': 'kg/m2/s'}
    if g['miss'] is not None:
        at['missing_value'] = np.array([g['miss']], dt)
    dd = d[:, ::fl]
    f.vars['Runoff'] = nc.V(g['type'], dims, at, dd if g['nt'] else dd[0])
    p = ''
    if g['dirs']:
        os.mkdir('in')
        p = 'in/'
        for q in [O.mosaic] + O.files:
            os.rename(q, p + q)
    nc.write(p + 'runoff_in.nc', f)
    # depth
    t = nc.F('NETCDF3_CLASSIC')
    t.dims['nx'], t.dims['ny'] = nx, ny - south
    dep = np.array([rng.choice([-500.0, 0.0, 50.0, -20.0, round(rng.uniform(-300, -1), 2)]) if rng.random() < g['p'] else 3000.0 for _ in range(nx * (ny - south))]).reshape(ny - south, nx)
    if g['allland']:
        dep[:] = -100.0
    elif not (dep > g['level']).any():
        dep[0, 0] = 3000.0
    t.vars['depth'] = nc.V('double', ['ny', 'nx'], {'units': 'meters'}, dep)
    nc.write(p + 'topog.nc', t)
    a = ['--input_file', p + 'runoff_in.nc', '--input_fld_name', 'Runoff', '--output_mosaic', p + O.mosaic, '--output_topog', p + 'topog.nc']
    fn, vn = 'runoff.nc', 'runoff'
    if g['names']:
        fn, vn = 'out_file.nc', 'ro'
        a += ['--output_file', fn, '--output_fld_name', vn]
    if g['level']:
        a += ['--sea_level', g['level']]
    mpi = g['mpi'] if g['mpi'] <= min(nx, ny) else 0
    c.sig = repr(g['seed'])
    tool = 'runoff_regrid_parallel' if mpi else 'runoff_regrid'
    wet = np.zeros((ny, nx), bool)
    wet[south:] = dep > g['level']
    ov = xg.overlap(CI, CO)
    W = np.zeros((g['ny'] * g['nx'], ny * nx))
    for (i, o), v in ov.items():
        if v > 1e-6 * min(CI.area[i], CO.area[o]):
            W[i, o] = v
    z = np.where(mis[None], 0.0, d.astype(float)).reshape(nt, -1)
    amt = z @ W
    land = ~wet.ravel()
    if g['allland']:
        if (amt[:, land] > 0).any():
            c.tool(tool, a, mpi=mpi, expect='fail')
            c.count('refused')
        return
    r = c.tool(tool, a, mpi=mpi)
    if r.rc or c.viol:
        return
    # nearest wet points; ties within rounding are grouped
    x, y = [np.radians(q) for q in O.centers(0)]
    if south:
        yc = np.radians(O.corners(0)[1])
        x = np.concatenate([x[:1], x])
        y = np.concatenate([0.5 * (-np.pi / 2 + yc[:1, :-1]), y])
    v = np.stack([np.cos(y) * np.cos(x), np.cos(y) * np.sin(x), np.sin(y)], -1).reshape(-1, 3)
    wi = np.nonzero(~land)[0]
    par = {int(q): int(q) for q in wi}

    def root(q):
        while par[q] != q:
            q = par[q]
        return q
    dest = {}
    for l in np.nonzero(land & (amt.max(0) > 0))[0]:
        ds = np.sqrt(((v[wi] - v[l]) ** 2).sum(1))
        near = wi[ds <= ds.min() + 1e-9]
        dest[int(l)] = root(int(near[0]))
        for q in near[1:]:
            par[root(int(q))] = root(int(near[0]))
        c.count('moved')
    exp = np.where(land, 0.0, amt)
    for l, q in dest.items():
        exp[:, q] += amt[:, l]
    grp = np.array([root(int(q)) if not land[q] else q for q in range(nx * ny)])
    o = nc.read(fn)
    if not c.check(vn in o.vars, 'field-name', '%s' % sorted(o.vars)):
        return
    got = o.vars[vn].data.reshape(nt, ny - south, nx)
    c.check(list(o.vars[vn].dims) == (['Time'] if g['nt'] else []) + ['grid_y_T', 'grid_x_T'], 'dims', str(o.vars[vn].dims))
    full = np.zeros((nt, ny, nx))
    full[:, south:] = got
    full = full.reshape(nt, -1) * CO.area
    slack = 2e-6 * (z.max() if z.size else 0)
    for k in range(nt):
        c.check(not (full[k][land] != 0).any(), 'land', lambda: 'record %d: runoff left on land' % k)
        e, h, ar = np.zeros(nx * ny), np.zeros(nx * ny), np.zeros(nx * ny)
        np.add.at(e, grp, exp[k])
        np.add.at(h, grp, full[k])
        np.add.at(ar, grp, CO.area)
        nl = np.zeros(nx * ny)
        for l, q in dest.items():
            nl[grp[q]] += CO.area[l]
        bad = np.abs(e - h) - (1e-8 * np.abs(e) + slack * (ar + nl))
        i = int(np.argmax(bad))
        c.check(bad[i] <= 0, 'value', lambda: 'record %d cell (%d,%d): runoff %r, expected %r' % (k, i // nx, i % nx, h[i], e[i]))
        c.check(abs(e.sum() - h.sum()) <= 1e-6 * e.sum() + 1e-12, 'total', lambda: 'record %d: total %r, was %r' % (k, h.sum(), e.sum()))
        c.count('cells', nx * ny)
    if O.globl or g['south'] is not None or g['ocn']['kind'] == 'tripolar':
        tot = (z * CI.area).sum(1)
        sc = 1e-5 if CI.bb[:, 1].max() - CI.bb[:, 0].min() <= 2 * np.pi + 1e-9 else 1
        for k in range(nt):
            if sc < 1:
                c.check(abs(full[k].sum() - tot[k]) <= sc * tot[k], 'conservation', lambda: 'record %d: %r in, %r out' % (k, tot[k], full[k].sum()))
                c.count('totals')
    if g['nt']:
        tv = o.vars['Time']
        c.check(np.array_equal(tv.data, f.vars['time'].data) and tv.atts.get('units') == f.vars['time'].atts['units'] and tv.atts.get('calendar') == 'noleap', 'time', 'time axis changed')
    c.check(o.vars[vn].atts.get('units') == 'kg/m2/s' and o.vars[vn].atts.get('long_name') == 'river runoff', 'atts', str(o.vars[vn].atts))
    c.check(np.allclose(o.vars['grid_x_T'].data, O.centers(0)[0][0], rtol=0, atol=1e-9), 'x-axis', 'x axis')
    if O.kind != 'tripolar':
        c.check(np.allclose(o.vars['grid_y_T'].data, O.centers(0)[1][:, 0], rtol=0, atol=1e-9), 'y-axis', 'y axis')
    c.nontrivial = bool(dest)
