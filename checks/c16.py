"""fregrid: first-order conservative data."""
import os, random
import numpy as np
from vlib import nc, freg, xg, cubed

ID = 'C16'
TOOLS = ['make_hgrid', 'make_solo_mosaic', 'fregrid', 'fregrid_parallel']
MIN = 120
RULE = ('fields of every type (packed, with missing points given by missing_value or _FillValue, with or without levels, records and a diurnal axis, means, sums, with cell areas or volumes in the file or an associated file, weighted) on cubed-sphere, tripolar, '
        'lon-lat and curvilinear grids are regridded by fregrid, directly, from a stored exchange grid, on one or several processes and for selected levels and records; every value written is compared with the one implied by the '
        'stored exchange grid, and axes, bounds, attributes and copied variables with the input. Non-trivial: values were compared; distinct by case.')
ASSUMPTIONS = ['the stored exchange grid is right (C15)', 'integer and packed fields without a missing value are regridded to covered targets']
KINDS = ['cube', 'cube', 'latlon', 'tripolar', 'split', 'regional', 'skew']


def draw(rng, kinds):
    while True:
        g = freg.draw(rng, kinds)
        if g['kind'] in ('latlon', 'split') and 360.0 / g['nx'] * (1 if g['uni'] else 2.2) >= 165:
            continue
        if g['kind'] == 'regional' and (g['x1'] - g['x0']) / g['nx'] * (1 if g['uni'] else 1.7) >= 165:
            continue
        return g


def gen(rng, tier, n=None, o2=False):
    cs = []
    for i in range(n or (220 if tier == 'quick' else 2500)):
        g = {'seed': rng.randrange(1 << 30), 'src': draw(rng, ['cube'] if o2 else KINDS)}
        if o2:
            g['o2'] = rng.choice(['cli', 'cli', 'cli', 'att', 'mono', 'mono'])
        if rng.random() < 0.3:
            g['size'] = [0, 360, -90, 90, rng.randint(4, 14), rng.randint(3, 10)]
            if rng.random() < 0.4:
                lb = rng.choice([0, -180, 30, 350.5, round(rng.uniform(-280, 300), 1)])
                ab = rng.choice([-90, -60, -35.5, 0, 20])
                g['size'][:4] = [lb, lb + rng.choice([360, 360, 120, 75.5]), ab, rng.choice([90, 60, 45.5])]
        else:
            g['dst'] = draw(rng, KINDS)
        g['nt'] = rng.choice([0, 1, 2, 3])
        g['nz'] = rng.choice([0, 0, 1, 2, 4])
        g['nn'] = rng.choice([0, 0, 0, 0, 2])
        g['mode'] = rng.choice(['direct', 'direct', 'both', 'reuse', 'reuse'])
        g['weight'] = rng.random() < 0.2
        g['target'] = rng.random() < 0.2
        g['chk'] = rng.random() < 0.15
        g['fmt'] = rng.choice([None, None, None, 'netcdf4', 'classic', '64bit_offset', 'netcdf4_classic'])
        g['deflate'] = g['fmt'] in ('netcdf4', 'netcdf4_classic') and rng.random() < 0.5
        g['std'] = rng.random() < 0.1
        g['lsel'] = g['nt'] > 1 and rng.random() < 0.3
        g['ksel'] = g['nz'] > 1 and rng.random() < 0.3
        g['nonc'] = rng.random() < 0.3
        g['mpi'] = rng.choice([0, 0, 0, 2, 3])
        if g['mpi']:
            ny = g['size'][5] if g.get('size') else g['dst'].get('ny', 2 * g['dst'].get('n', 4))
            ny = min(ny, 2) if not g.get('size') and g['dst']['kind'] == 'split' else ny
            g['mpi'] = g['mpi'] if ny >= 3 * g['mpi'] else 0
        fs = []
        for k in range(rng.choice([1, 1, 2, 3])):
            f = {'name': ['temp', 'q_%d' % k, 'precip'][k], 'type': rng.choice(['float', 'float', 'double', 'int', 'short'])}
            d = []
            if g['nt'] and rng.random() < 0.8:
                d.append('t')
            if g['nn'] and rng.random() < 0.6:
                d.append('n')
            if g['nz'] and rng.random() < 0.7:
                d.append('z')
            f['d'] = d
            f['miss'] = rng.choice(['', 'missing_value', 'missing_value', '_FillValue', 'both'])
            f['pack'] = f['type'] in ('short', 'int') and rng.random() < 0.7 or rng.random() < 0.05
            f['cm'] = rng.choice(['', '', '', '', 'sum', 'area2', 'area3', 'vol', 'assoc', 'mean'])
            if f['cm'] == 'area3' and 't' not in d or f['cm'] == 'vol' and not ('t' in d and 'z' in d and 'n' not in d):
                f['cm'] = 'area2'
            f['im'] = rng.choice(['', '', '', 'conserve_order1'])
            if o2:
                f['im'] = rng.choice(['', '', 'conserve_order1', 'conserve_order2'])
                if g['o2'] == 'att' and k == 0:
                    f['im'] = 'conserve_order2'
            f['vals'] = rng.choice(['rand', 'rand', 'rand', 'const', 'index'])
            f['pm'] = rng.choice([0, 0.1, 0.5, 0.95])
            f['zero'] = rng.random() < 0.2
            fs.append(f)
        g['f'] = fs
        ms = sum(f['cm'] in ('area2', 'area3', 'vol', 'assoc') for f in fs)
        if 0 < ms < len(fs):
            g['weight'] = False      # weights and cell measures are exclusive
        g['copy'] = rng.random() < 0.5
        g['xb'] = rng.choice(['', '', '', 'bounds', 'edges', 'int'])
        if g['xb'] == 'int' and not (g.get('size') or g['std']):
            g['xb'] = 'bounds'      # integer axes are refused for other targets
        g['zb'] = rng.choice(['', '', 'bounds', 'edges']) if g['nz'] else ''
        g['crd'] = rng.random() < 0.2
        g['dirs'] = rng.random() < 0.15
        g['copyt'] = g['copy'] and g['nt'] > 0 and rng.random() < 0.5
        cs.append(g)
    return cs


TY = {'float': 'f4', 'double': 'f8', 'int': 'i4', 'short': 'i2'}


def field(f, g, t, nx, ny, rng, shp, covered):
    """raw data, real data (nan: missing), attributes"""
    dt = TY[f['type']]
    at = {'long_name': 'field %s' % f['name'], 'units': 'K'}
    sc, of = (0.25, -3.0) if f['pack'] else (1.0, 0.0)
    if f['vals'] == 'const':
        raw = np.full(shp, 7.0)
    elif f['vals'] == 'index':
        raw = np.arange(int(np.prod(shp))).reshape(shp) % 900 + 11.0 * t
    else:
        raw = rng.normal(size=shp) * 50 + 20
        if f['type'] in ('int', 'short'):
            raw = rng.integers(-300, 900, size=shp).astype('f8')
    if f['zero']:
        raw = np.where(rng.random(shp) < 0.3, 0.0, raw)
    raw = raw.astype(dt)
    m = np.zeros(shp, bool)
    miss = f['miss'] or ('missing_value' if f['type'] in ('int', 'short') and not covered else '')
    if miss:
        mv = np.dtype(dt).type({'i2': -9999, 'i4': -99999, 'f4': -1e10, 'f8': 1e20}[dt])
        if miss == 'both':
            at['missing_value'], at['_FillValue'] = mv, np.dtype(dt).type(mv + 1 if dt[0] == 'i' else mv * 2)
        else:
            at[miss] = mv
        m = rng.random(shp) < f['pm']
        raw = np.where(m, mv, raw).astype(dt)
    real = raw.astype('f8')
    if f['pack']:
        at['scale_factor'], at['add_offset'] = np.float64(sc), np.float64(of)
        real = real * sc + of
    real = np.where(m, np.nan, real)
    if f['cm'] == 'sum':
        at['cell_methods'] = rng.choice(['time: mean area: sum', 'area: sum'])
    elif f['cm'] == 'mean':
        at['cell_methods'] = 'time: mean area: mean'
    elif f['cm']:
        at['cell_methods'] = 'area: mean'
        at['cell_measures'] = {'area2': 'area: area2', 'area3': 'area: area3', 'vol': 'volume: vol', 'assoc': 'area: cell_area'}[f['cm']]
    if f['im']:
        at['interp_method'] = f['im']
    return raw, real, at


def limit(ALL, t, G, f, j, i, base, d, lo, hi, c):
    """scale the second-order part of each source cell so that no overlap leaves the range of its neighbourhood"""
    mx, mn = np.full(f.shape, -np.inf), np.full(f.shape, np.inf)
    s = ALL[0] == t
    aj, ai = ALL[2][s], ALL[1][s]
    x = f[aj, ai] + G[0][aj, ai] * ALL[3][s] + G[1][aj, ai] * ALL[4][s]
    ok = ~np.isnan(x)
    np.maximum.at(mx, (aj[ok], ai[ok]), x[ok])
    np.minimum.at(mn, (aj[ok], ai[ok]), x[ok])
    mx, mn = mx[j, i], mn[j, i]
    ok = ~np.isnan(d)
    with np.errstate(all='ignore'):
        s1 = np.where(mx > hi, (hi - base) / (mx - base), 1.0)
        s2 = np.where(mn < lo, (base - lo) / (base - mn), 1.0)
    c.count('limited_overlaps', int((ok & (np.minimum(s1, s2) < 1)).sum()))
    c.count('limited_both', int((ok & (s1 < 1) & (s2 < 1)).sum()))
    return base + np.minimum(s1, s2) * (d - base)


def run_case(g, c):
    rng = np.random.default_rng(g['seed'])
    A = freg.make(g['src'], c, 'src')
    o2 = g.get('o2')
    if o2:
        Q = cubed.Cubed(A)
    a0 = ['--input_mosaic', A.mosaic, '--maxxgrid', 40000, '--interp_method', {'cli': 'conserve_order2', 'mono': 'conserve_order2_monotonic'}.get(o2, 'conserve_order1')]
    if g.get('size'):
        lb, le, ab, ae, nlon, nlat = g['size']
        B = freg.bysize(lb, le, ab, ae, nlon, nlat, True)
        a0 += ['--nlon', nlon, '--nlat', nlat]
        if g['size'][:4] != [0, 360, -90, 90]:
            a0 += ['--lonBegin', lb, '--lonEnd', le, '--latBegin', ab, '--latEnd', ae]
    else:
        B = freg.make(g['dst'], c, 'dst')
        a0 += ['--output_mosaic', B.mosaic]
    if c.viol:
        return
    nt, nz, nn = g['nt'], g['nz'], g['nn']
    nA, nB = len(A.tiles), len(B.tiles)
    covered = A.globl
    sizes = {'t': nt, 'z': nz, 'n': nn}
    dn = {'t': 'time', 'z': 'pfull', 'n': 'hour'}
    real, atts, meas, wts, raws = [], None, [], [], []
    lev = np.sort(rng.random(nz) * 1000) if nz else None
    tim = np.cumsum(rng.random(nt)) if nt else None
    extra = rng.normal(size=nz) if nz else None
    for t in range(nA):
        ny, nx = (n // 2 for n in np.array(A.tiles[t][0].shape))
        f = nc.F('NETCDF3_64BIT_OFFSET')
        for k, v in (('grid_xt', nx), ('grid_yt', ny)):
            f.dims[k] = v
        f.atts = {'title': 'case', 'comment': 'global comment'}
        f.vars['grid_xt'] = nc.V('double', ['grid_xt'], {'cartesian_axis': 'X', 'units': 'degrees_E', 'long_name': 'T lon'}, np.arange(1., nx + 1))
        f.vars['grid_yt'] = nc.V('double', ['grid_yt'], {'cartesian_axis': 'Y', 'units': 'degrees_N', 'long_name': 'T lat'}, np.arange(1., ny + 1))
        xb, zb = g.get('xb', ''), g.get('zb', '')
        if xb == 'int':
            for k in ('grid_xt', 'grid_yt'):
                f.vars[k].type = 'int'
                f.vars[k].data = f.vars[k].data.astype('i4')
        elif xb:
            for k, n in (('grid_xt', nx), ('grid_yt', ny)):
                if xb == 'bounds':
                    f.dims['nv'] = 2
                    f.vars['nv'] = nc.V('double', ['nv'], {'cartesian_axis': 'N'}, np.array([1., 2]))
                    f.vars[k].atts['bounds'] = k + '_bd'
                    f.vars[k + '_bd'] = nc.V('double', [k, 'nv'], {'units': 'degrees'}, np.stack([np.arange(n) + 0.5, np.arange(n) + 1.5], 1))
                else:
                    f.dims[k + '_ed'] = n + 1
                    f.vars[k].atts['edges'] = k + '_ed'
                    f.vars[k + '_ed'] = nc.V('double', [k + '_ed'], {'units': 'degrees', 'cartesian_axis': k[5].upper()}, np.arange(n + 1) + 0.5)
        if nz:
            f.dims['pfull'] = nz
            f.vars['pfull'] = nc.V('double', ['pfull'], {'cartesian_axis': 'Z', 'units': 'mb', 'positive': 'down'}, lev)
            ph = np.concatenate([[lev[0] - 1], 0.5 * (lev[1:] + lev[:-1]), [lev[-1] + 1]])
            if zb == 'bounds':
                f.dims['nv'] = 2
                f.vars['nv'] = nc.V('double', ['nv'], {'cartesian_axis': 'N'}, np.array([1., 2]))
                f.vars['pfull'].atts['bounds'] = 'pbnds'
                f.vars['pbnds'] = nc.V('double', ['pfull', 'nv'], {'units': 'mb'}, np.stack([ph[:-1], ph[1:]], 1))
            elif zb:
                f.dims['phalf'] = nz + 1
                f.vars['pfull'].atts['edges'] = 'phalf'
                f.vars['phalf'] = nc.V('double', ['phalf'], {'cartesian_axis': 'Z', 'units': 'mb'}, ph)
        if nn:
            f.dims['hour'] = nn
            f.vars['hour'] = nc.V('double', ['hour'], {'cartesian_axis': 'N', 'units': 'h'}, np.arange(1., nn + 1))
        if nt:
            f.dims['time'] = nt
            f.dims['nv'] = 2
            f.rec = 'time'
            f.vars['time'] = nc.V('double', ['time'], {'cartesian_axis': 'T', 'units': 'days since 2000-01-01', 'calendar': 'noleap', 'bounds': 'time_bnds'}, tim)
            f.vars['nv'] = nc.V('double', ['nv'], {'cartesian_axis': 'N'}, np.array([1., 2]))
            f.vars['time_bnds'] = nc.V('double', ['time', 'nv'], {'units': 'days'}, np.stack([tim - 0.1, tim + 0.1], 1))
        me = {'area2': rng.uniform(0.3, 1, size=(ny, nx)) * 1e10, 'area3': rng.uniform(0.3, 1, size=(max(nt, 1), ny, nx)) * 1e10,
              'vol': rng.uniform(0.3, 1, size=(max(nt, 1), max(nz, 1), ny, nx)) * 1e12, 'assoc': rng.uniform(0.3, 1, size=(ny, nx)) * 1e10}
        used = {x['cm'] for x in g['f']}
        for k, d in (('area2', ['grid_yt', 'grid_xt']), ('area3', ['time', 'grid_yt', 'grid_xt']), ('vol', ['time', 'pfull', 'grid_yt', 'grid_xt'])):
            if k in used:
                f.vars[k] = nc.V('double', d, {'units': 'm2', 'missing_value': np.float64(-1e20)}, me[k])
        if 'assoc' in used:
            f.atts['associated_files'] = 'land_area: other.nc cell_area: areas.nc'
            h = nc.F('NETCDF3_64BIT_OFFSET')
            h.dims['grid_xt'], h.dims['grid_yt'] = nx, ny
            h.vars['grid_xt'], h.vars['grid_yt'] = f.vars['grid_xt'], f.vars['grid_yt']
            h.vars['cell_area'] = nc.V('double', ['grid_yt', 'grid_xt'], {'units': 'm2'}, me['assoc'])
            nc.write('areas.tile%d.nc' % (t + 1) if nA > 1 else 'areas.nc', h)
        meas.append(me)
        rl, aa = {}, {}
        for x in g['f']:
            shp = tuple(sizes[k] for k in x['d']) + (ny, nx)
            raw, rr, at = field(x, g, t, nx, ny, rng, shp, covered)
            rl[x['name']] = rr
            if atts is None:
                aa[x['name']] = at
                if g.get('crd'):
                    at['coordinates'] = 'geolon geolat'
            else:
                at = atts[x['name']]
            f.vars[x['name']] = nc.V(x['type'], [dn[k] for k in x['d']] + ['grid_yt', 'grid_xt'], at, raw)
        if atts is None:
            atts = aa
        f.vars['unused'] = nc.V('float', ['grid_yt', 'grid_xt'], {}, np.zeros((ny, nx), 'f4'))
        if g.get('copyt'):
            f.vars['solar'] = nc.V('double', ['time'], {'units': 'W'}, tim * 3 - 1)
        if g['copy'] and nz:
            f.vars['bk'] = nc.V('double', ['pfull'], {'units': '1'}, extra)
        real.append(rl)
        if g.get('dirs'):
            os.makedirs('din', exist_ok=True)
            os.makedirs('dout', exist_ok=True)
        nc.write(('din/' if g.get('dirs') else '') + ('in.tile%d.nc' % (t + 1) if nA > 1 else 'in.nc'), f)
        if g['weight']:
            w = rng.uniform(0, 1, size=(ny, nx)) * (rng.random((ny, nx)) > 0.1)
            wts.append(w)
            h = nc.F('NETCDF3_64BIT_OFFSET')
            h.dims['grid_xt'], h.dims['grid_yt'] = nx, ny
            h.vars['frac'] = nc.V('double', ['grid_yt', 'grid_xt'], {}, w)
            nc.write('wt.tile%d.nc' % (t + 1) if nA > 1 else 'wt.nc', h)
    measured = any(x['cm'] in ('area2', 'area3', 'vol', 'assoc') for x in g['f'])
    names = [x['name'] for x in g['f']]
    copy = g['copy'] and nz
    lst = names + (['bk'] if copy else []) + (['solar'] if g.get('copyt') else [])
    if g['seed'] % 3 == 0:
        lst = lst[len(names):] + names
    a = ['--input_file', 'in' if g['nonc'] else 'in.nc', '--output_file', 'out' if g['nonc'] else 'out.nc', '--scalar_field', ','.join(lst)]
    if g.get('dirs'):
        a += ['--input_dir', 'din', '--output_dir', 'dout']
    if g['weight']:
        a += ['--weight_file', 'wt.nc' if nA == 1 else 'wt', '--weight_field', 'frac']
    if g['target']:
        a += ['--target_grid']
    if g['chk']:
        a += ['--check_conserve']
    if g['fmt']:
        a += ['--format', g['fmt']]
    if g['deflate']:
        a += ['--deflation', 3, '--shuffle', 1]
    if g['std']:
        a += ['--standard_dimension']
    l0, l1, k0, k1 = 0, nt, 0, nz
    if g['lsel']:
        l0 = int(rng.integers(0, nt)); l1 = int(rng.integers(l0 + 1, nt + 1))
        a += ['--LstepBegin', l0 + 1, '--LstepEnd', l1]
    if g['ksel']:
        k0 = int(rng.integers(0, nz)); k1 = int(rng.integers(k0 + 1, nz + 1))
        a += ['--KlevelBegin', k0 + 1, '--KlevelEnd', k1]
    ar = ['conserve_order2' if o2 and v == 'conserve_order1' else v for v in a0]
    tool = 'fregrid_parallel' if g['mpi'] else 'fregrid'
    md = g['mode']
    if md == 'reuse':
        if c.tool('fregrid', ar + ['--remap_file', 'rm.nc']).rc:
            return
        had = sorted(n for n in freg.remap_names('rm', nB) if os.path.exists(n))
        r = c.tool(tool, a0 + ['--remap_file', 'rm.nc'] + a, mpi=g['mpi'])
    elif md == 'both':
        r = c.tool(tool, a0 + ['--remap_file', 'rm.nc'] + a, mpi=g['mpi'])
    else:
        r = c.tool(tool, a0 + a, mpi=g['mpi'])
        if not r.rc:
            c.tool('fregrid', ar + ['--remap_file', 'rm.nc'])
    if r.rc or c.viol:
        return
    CA, CB = A.cells(), B.cells()
    ncmp = 0
    G2 = {}
    cons = {}
    if o2 == 'mono':
        # extremes of each source cell over all its overlaps
        RM = [freg.rms(n) for n in freg.remap_names('rm', nB) if os.path.exists(n)]
        ALL = [np.concatenate([np.asarray(r[k]) for r in RM]) if RM else np.zeros(0, int) for k in (0, 1, 2, 6, 7)]
    for tb in range(nB):
        ony, onx = (n // 2 for n in B.tiles[tb][0].shape)
        fn = ('dout/' if g.get('dirs') else '') + ('out.tile%d.nc' % (tb + 1) if nB > 1 else 'out.nc')
        if not c.check(os.path.exists(fn), 'output-missing', '%s was not written' % fn):
            return
        o = nc.read(fn)
        rm = freg.remap_names('rm', nB)[tb]
        if os.path.exists(rm):
            R = [np.asarray(v) for v in freg.rms(rm)]
            T, i1, j1, i2, j2, ar = R[:6]
            di, dj = R[6:8] if o2 else (None, None)
        else:
            T = i1 = j1 = i2 = j2 = np.zeros(0, int); ar = di = dj = np.zeros(0)
        q = j2 * onx + i2
        yn, xn = None, None
        for x in g['f']:
            nm = x['name']
            if not c.check(nm in o.vars, 'field-missing', '%s: no field %s' % (fn, nm)):
                return
            v = o.vars[nm]
            want = [dn[k] for k in x['d']]
            c.check(list(v.dims[:-2]) == want and len(v.dims) == len(want) + 2, 'field-dims', '%s %s: dimensions %s, expected %s,y,x' % (fn, nm, v.dims, want))
            if len(v.dims) != len(want) + 2:
                return
            yn, xn = v.dims[-2:]
            sel = [{'t': slice(l0, l1), 'z': slice(k0, k1), 'n': slice(None)}[k] for k in x['d']]
            lead = tuple(len(range(*s.indices(sizes[k]))) for s, k in zip(sel, x['d']))
            if not c.check(tuple(v.data.shape) == lead + (ony, onx), 'field-shape', '%s %s: shape %s, expected %s' % (fn, nm, v.data.shape, lead + (ony, onx))):
                return
            c.check(v.type == x['type'], 'field-type', '%s %s: type %s' % (fn, nm, v.type))
            at = atts[nm]
            for k, w in at.items():
                if k == 'coordinates' and g['std'] or k == 'interp_method' or k.startswith('cell_'):
                    continue
                c.check(k in v.atts and (v.atts[k] == w), 'field-attribute', '%s %s: attribute %s is %r, was %r' % (fn, nm, k, v.atts.get(k), w))
            mv = at.get('missing_value', at.get('_FillValue'))
            sc, of = float(at.get('scale_factor', 1)), float(at.get('add_offset', 0))
            full = [real[t][nm] for t in range(nA)]
            out = v.data
            for ix in np.ndindex(*lead):
                src = tuple((range(*s.indices(sizes[k])))[n] for s, k, n in zip(sel, x['d'], ix))
                lv = dict(zip(x['d'], src))
                num, den = np.zeros(ony * onx), np.zeros(ony * onx)
                tot = np.zeros(ony * onx)
                touch = np.zeros(ony * onx, bool)
                big = 0.0
                second = o2 and (o2 == 'mono' or x['im'] == 'conserve_order2' or x['im'] == '' and o2 == 'cli')
                dev = None
                if second:
                    lo, hi = np.full(ony * onx, np.inf), np.full(ony * onx, -np.inf)
                    if (nm, src) not in G2:
                        fl = [full[t][src] for t in range(nA)]
                        ar3 = Q.around(fl)
                        G2[nm, src] = [tuple(np.where(b | np.isnan(z), 0, z) for z in gr) + (l, h) for gr, (b, l, h) in zip(Q.gradient(fl), ar3)]
                for t in range(nA):
                    s = T == t
                    if not s.any():
                        continue
                    d = full[t][src][j1[s], i1[s]]
                    if second:
                        gx, gy, l3, h3 = (z[j1[s], i1[s]] for z in G2[nm, src][t])
                        base = d
                        inc = gx * di[s] + gy * dj[s]
                        big = max(big, np.abs(inc[~np.isnan(d)]).max() if (~np.isnan(d)).any() else 0)
                        d = d + inc
                        if o2 == 'mono':
                            np.minimum.at(lo, q[s], np.where(np.isnan(d), np.inf, l3))
                            np.maximum.at(hi, q[s], np.where(np.isnan(d), -np.inf, h3))
                            d = limit(ALL, t, G2[nm, src][t], full[t][src], j1[s], i1[s], base, d, l3, h3, c)
                    w = ar[s].copy()
                    ca = CA[t].area.reshape(CA[t].ny, CA[t].nx)[j1[s], i1[s]]
                    if g['weight'] and not measured:
                        w = w * wts[t][j1[s], i1[s]]
                    mult = 1.0
                    if x['cm'] == 'sum':
                        w = w / ca
                    elif x['cm'] in ('area2', 'area3', 'vol', 'assoc'):
                        mm = meas[t][x['cm']]
                        mm = mm[lv['t']] if x['cm'] == 'area3' else mm[lv['t'], lv['z']] if x['cm'] == 'vol' else mm
                        mult = mm[j1[s], i1[s]] / ca
                        w = w * mult
                    ok = ~np.isnan(d)
                    np.add.at(num, q[s][ok], (d * w)[ok])
                    np.add.at(den, q[s][ok], w[ok])
                    np.add.at(tot, q[s], ar[s] * mult)
                    touch[q[s][ok]] = True
                    if ok.any():
                        big = max(big, np.abs(d[ok]).max())
                if x['cm'] == 'sum':
                    ref = np.where(touch, num, np.nan)
                    ref = np.where(touch & (den == 0), 0.0, ref)
                else:
                    with np.errstate(all='ignore'):
                        ref = np.where(den > 0, num / den, np.where(touch, 0.0, np.nan))
                    if g['target'] and x['cm'] != 'vol':
                        ref = ref * tot / CB[tb].area
                got = out[ix].reshape(-1)
                isn = np.isnan(ref)
                if mv is not None:
                    gm = got == mv
                else:
                    gm = got < -1e19 if x['type'] in ('float', 'double') else np.zeros(len(got), bool)
                if not c.check(np.array_equal(gm, isn), 'missing', lambda: '%s %s%s: missing at %s, expected at %s' % (fn, nm, list(src), np.flatnonzero(gm & ~isn)[:5], np.flatnonzero(isn & ~gm)[:5])):
                    return
                un = got.astype('f8') * sc + of
                tol = {'float': 3e-7 * (big + abs(of)), 'double': 1e-9 * big, 'int': 0.500001 * sc, 'short': 0.500001 * sc}[x['type']] + 1e-9 * big + 3e-7 * np.abs(np.where(isn, 0, ref)) + 1e-12
                e = np.abs(np.where(isn, 0, un - np.where(isn, 0, ref)))
                c.check(np.all(e <= tol), 'value', lambda: '%s %s%s: cell %d is %r, exchange grid gives %r' % (fn, nm, list(src), int(np.argmax(e)), float(un[np.argmax(e)]), float(ref[np.argmax(e)])))
                ncmp += int((~isn).sum())
                if second and o2 == 'mono' and x['cm'] == '' and not g['target']:
                    c.check(np.all((un >= lo - tol - 1e-6 * big)[~isn & (den > 0)]) and np.all((un <= hi + tol + 1e-6 * big)[~isn & (den > 0)]), 'bounds', lambda: '%s %s%s: a value outside the range of the source cells around it' % (fn, nm, list(src)))
                if A.globl and B.globl and x['cm'] in ('', 'mean', 'sum') and not g['weight'] and x['type'] in ('float', 'double'):
                    e0 = cons.setdefault((nm, src), [0.0, 0.0])
                    wa = 1.0 if x['cm'] == 'sum' else CB[tb].area
                    e0[0] += (un * wa)[~isn].sum()
                    e0[1] += isn.sum()
                c.count('missing_cells', int(isn.sum()))
                if x['vals'] == 'const' and not second and not g['target'] and x['cm'] != 'sum' and not g['weight'] and not x['zero']:
                    kk = ~isn
                    c.check(np.all(np.abs(un[kk] - (7 * sc + of)) <= 1e-5), 'constant', lambda: '%s %s: constant field became %s' % (fn, nm, un[kk][np.argmax(np.abs(un[kk] - 7 * sc - of))]))
            if g['chk'] and A.globl and B.globl and x['cm'] == '' and not g['weight'] and tb == 0:
                c.count('conserve_checks')
        c.check('unused' not in o.vars, 'extra-field', '%s: field unused was written' % fn)
        if nt and any('t' in x['d'] for x in g['f']):
            if c.check('time' in o.vars and o.vars['time'].data.size == l1 - l0, 'time', '%s: time axis %s' % (fn, o.vars.get('time') and o.vars['time'].data)):
                c.check(np.array_equal(o.vars['time'].data, tim[l0:l1]), 'time', '%s: times %s, expected %s' % (fn, o.vars['time'].data, tim[l0:l1]))
                c.check(o.vars['time'].atts.get('units') == 'days since 2000-01-01' and o.vars['time'].atts.get('calendar') == 'noleap' and o.rec == 'time', 'time-attribute', '%s: time %s, record dimension %s' % (fn, o.vars['time'].atts, o.rec))
            if c.check('time_bnds' in o.vars, 'time-bounds', '%s: no time_bnds' % fn):
                c.check(np.array_equal(o.vars['time_bnds'].data, np.stack([tim - 0.1, tim + 0.1], 1)[l0:l1]), 'time-bounds', '%s: %s' % (fn, o.vars['time_bnds'].data))
        if nz and any('z' in x['d'] for x in g['f']):
            c.check('pfull' in o.vars and np.array_equal(o.vars['pfull'].data, lev[k0:k1]), 'levels', '%s: levels %s, expected %s' % (fn, o.vars.get('pfull') and o.vars['pfull'].data, lev[k0:k1]))
            pb = {'bounds': 'pbnds', 'edges': 'phalf'}.get(g.get('zb'))
            if pb and c.check(pb in o.vars, 'level-bounds', '%s: no %s' % (fn, pb)):
                pw = np.stack([ph[:-1], ph[1:]], 1)[k0:k1] if pb == 'pbnds' else ph[k0:k1 + 1]
                c.check(np.array_equal(o.vars[pb].data, pw), 'level-bounds', lambda: '%s: %s is %s, expected %s' % (fn, pb, o.vars[pb].data.ravel(), pw.ravel()))
        if copy and c.check('bk' in o.vars, 'copied', '%s: bk missing' % fn):
            c.check(np.array_equal(o.vars['bk'].data, extra[k0:k1] if any('z' in x['d'] for x in g['f']) else extra), 'copied', lambda: '%s: bk is %s, was %s' % (fn, o.vars['bk'].data, extra))
        if g.get('copyt') and c.check('solar' in o.vars, 'copied', '%s: solar missing' % fn):
            c.check(np.array_equal(o.vars['solar'].data, (tim[l0:l1] if any('t' in x['d'] for x in g['f']) else tim) * 3 - 1), 'copied', lambda: '%s: solar is %s, was %s' % (fn, o.vars['solar'].data, tim * 3 - 1))
        if g.get('size'):
            bx, by = B.centers(0)
            c.check(xn in o.vars and np.allclose(o.vars[xn].data, bx[0], atol=1e-4), 'lon-axis', '%s: %s is %s, expected %s' % (fn, xn, o.vars.get(xn) and o.vars[xn].data, bx[0]))
            c.check(yn in o.vars and np.allclose(o.vars[yn].data, by[:, 0], atol=1e-4), 'lat-axis', '%s: %s is %s, expected %s' % (fn, yn, o.vars.get(yn) and o.vars[yn].data, by[:, 0]))
            mx, my = B.tiles[tb][0], B.tiles[tb][1]
            for k, w, n in ((xn, mx[0, ::2], onx), (yn, my[::2, 0], ony)):
                bn = o.vars[k].atts.get('bounds') or o.vars[k].atts.get('edges') if k in o.vars else None
                if c.check(bool(bn) and bn in o.vars, 'axis-bounds', '%s: no bounds of %s' % (fn, k)):
                    bd = o.vars[bn].data
                    bd = bd if bd.ndim == 2 else np.stack([bd[:-1], bd[1:]], 1)
                    c.check(bd.shape == (n, 2) and np.allclose(bd[:, 0], w[:-1], atol=1e-4) and np.allclose(bd[:, 1], w[1:], atol=1e-4), 'axis-bounds', lambda: '%s: bounds of %s are %s, expected %s' % (fn, k, bd.ravel(), w))
        c.check(o.atts.get('comment') == 'global comment', 'global-attribute', '%s: %s' % (fn, o.atts))
    for (nm, src), (tot_out, nmiss) in cons.items():
        x = [v for v in g['f'] if v['name'] == nm][0]
        fl = [real[t][nm][src].reshape(-1) for t in range(nA)]
        if nmiss or any(np.isnan(v).any() for v in fl):
            continue
        ws = [np.ones(len(v)) if x['cm'] == 'sum' else CA[t].area for t, v in enumerate(fl)]
        tin = sum((v * w).sum() for v, w in zip(fl, ws))
        mag = sum((np.abs(v) * w).sum() for v, w in zip(fl, ws))
        c.count('totals')
        c.check(abs(tot_out - tin) <= 2e-6 * mag, 'conservation', lambda: '%s%s: total %r in, %r out (%.2g of the magnitude)' % (nm, list(src), tin, tot_out, (tot_out - tin) / mag))
    c.count('values', ncmp)
    c.count('mode:' + md)
    for x in g['f']:
        c.count('type:' + x['type'])
        if x['cm']:
            c.count('measure:' + x['cm'])
    if g['mpi']:
        c.count('parallel_runs')
    c.nontrivial = ncmp > 0
    c.sig = repr(sorted((k, v) for k, v in g.items() if k not in ('mpi', 'seed')))[:400]
