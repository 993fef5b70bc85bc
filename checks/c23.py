"""plevel: every value is interpolated in log pressure between the model levels around it."""
import os, random
import numpy as np
from vlib import nc, land

ID = 'C23'
TOOLS = ['plevel.sh', 'plevel-interp']
MIN = 60
RULE = ('random hybrid-coordinate history files (2-8 levels, pk/bk with and without a zero top, records, levels on mid and interface points, surface and static '
        'fields, float/double/short packed, missing lowest levels, time bounds or averages, 4 formats) through plevel.sh and the bounds-checked plevel-interp '
        'with random output levels, field lists, time selections and extrapolation; every value, missing point, height and sea level pressure is compared with '
        'a float64 reference, and failed runs must report failure and not disturb the next run. Non-trivial: a field on levels was written; distinct by seed.')
ASSUMPTIONS = ['levels run from the top down and every column has at least two valid levels', 'missing data only at the bottom of a column']
GRAV, RD, RV = 9.80, 287.04, 461.50
TFREEZE = 273.16
NCEP = '100000 92500 85000 70000 60000 50000 40000 30000 25000 20000 15000 10000  7000  5000  3000  2000  1000'


def gen(rng, tier):
    cs = []
    for i in range(500 if tier == 'quick' else 2500):
        g = {'seed': rng.randrange(1 << 30), 'fmt': rng.choice(land.FMTS), 'nk': rng.randint(2, 8), 'nx': rng.randint(1, 5), 'ny': rng.randint(1, 5), 'nt': rng.choice([1, 1, 2, 3, 5]),
             'pk': rng.choice(['hybrid', 'hybrid', 'sigma', 'none', 'zero']), 'x': rng.random() < 0.35, 'm': rng.random() < 0.2, 'miss': rng.random() < 0.3,
             'mode': rng.choice(['a', 'a', '3', 'list', 'list', 'a+']), 'p': rng.choice([None, 'few', 'few', 'many', 'one', 'up']), 't': rng.choice([None, None, None, 'beg', 'end', 'inc', 'all', 'skip']),
             'avg': rng.choice(['bounds', 'none', 'none', 'T', 'both', 'climo']), 'zs': rng.random() < 0.8, 'q': rng.random() < 0.8, 'tmp': rng.random() < 0.9, 'zero': rng.random() < 0.5,
             'name': rng.choice([None, 'out.nc']), 'z': rng.choice([None, None, 3]), 'edges': rng.random() < 0.3, 'd': rng.choice([None, None, 0, 2]), 'res': rng.random() < 0.1,
             'bad': rng.choice([None] * 12 + ['nops', 'nobk', 'nofile', 'nofield', 'garbage', 'z']), 'again': rng.random() < 0.2}
        cs.append(g)
    return cs


def build(g, rng, r):
    f = nc.F(g['fmt'])
    nk, ny, nx, nt = g['nk'], g['ny'], g['nx'], g['nt']
    f.dims.update(lon=nx, lat=ny, pfull=nk, phalf=nk + 1, time=nt, nv=2)
    f.rec = 'time'
    lon, lat = {'units': 'degrees_E', 'cartesian_axis': 'X'}, {'units': 'degrees_N', 'cartesian_axis': 'Y'}
    if g['edges']:
        f.dims.update(lonb=nx + 1, latb=ny + 1)
        lon['edges'], lat['edges'] = 'lonb', 'latb'
        f.vars['lonb'] = nc.V('double', ['lonb'], {'units': 'degrees_E'}, np.linspace(0, 360, nx + 1))
        f.vars['latb'] = nc.V('double', ['latb'], {'units': 'degrees_N'}, np.linspace(-90, 90, ny + 1))
    f.vars['lon'] = nc.V('double', ['lon'], lon, r.uniform(0, 360, nx))
    f.vars['lat'] = nc.V('double', ['lat'], lat, r.uniform(-90, 90, ny))
    ta = {'units': 'days since 2000-01-01 00:00:00', 'calendar': 'noleap', 'cartesian_axis': 'T'}
    if g['avg'] in ('bounds', 'both'):
        ta['bounds'] = 'time_bounds'
    if g['avg'] == 'climo':
        ta['climatology'] = 'time_bounds'
    tm = np.cumsum(r.uniform(0.1, 30, nt))
    f.vars['time'] = nc.V('double', ['time'], ta, tm)
    if g['avg'] in ('bounds', 'both', 'climo'):
        if rng.random() < 0.5:
            f.vars['nv'] = nc.V('double', ['nv'], {'long_name': 'vertex number'}, np.array([1.0, 2.0]))
        f.vars['time_bounds'] = nc.V('double', ['time', 'nv'], {'units': 'days'}, np.stack([tm - 0.05, tm + 0.05], 1))
    av = {}
    if g['avg'] in ('T', 'both'):
        av = {'time_avg_info': 'average_T1,average_T2,average_DT'}
        for k, q in enumerate(('average_T1', 'average_T2', 'average_DT')):
            f.vars[q] = nc.V('double', ['time'], {'units': 'days'}, tm + k)
    # coordinate: from the top down
    s = np.sort(r.uniform(0, 1, nk - 1))
    s = np.concatenate([[0.0], s + 0.02 * np.arange(1, nk), [1.0 + 0.02 * nk]]) / (1.0 + 0.02 * nk)
    s = np.concatenate([[0.0], np.maximum(s[1:], 0.002 * np.arange(1, nk + 1) / nk)])
    if g['pk'] == 'hybrid':
        bk = np.maximum(0, (s - 0.2) / 0.8) ** 1.2
        bk[-1] = 1.0
        pk = s * 1e5 * (1 - bk) * 0.9
        pk[0] = r.choice([100.0, 1.0, 0.0])
        pk[-1] = 0.0
        pk[1:-1] += pk[0] + 1
    else:
        bk, pk = s.copy(), np.zeros(nk + 1)
        if g['pk'] == 'sigma':
            pk[0] = 50.0
            bk = np.concatenate([[0.0], np.maximum(bk[1:], 0.01)])
    f.vars['bk'] = nc.V('double', ['phalf'], {'units': 'none'}, bk)
    if g['pk'] != 'none':
        f.vars['pk'] = nc.V('double', ['phalf'], {'units': 'pascal'}, pk)
    else:
        pk = np.zeros(nk + 1)
    ps = r.uniform(50000, 105000, (nt, ny, nx))
    pt = rng.choice(['float', 'double'])
    ps = ps.astype(nc.TYPES[pt])
    f.vars['ps'] = nc.V(pt, ['time', 'lat', 'lon'], dict(av, units='Pa', long_name='surface pressure', **({'cell_methods': 'time: mean'} if g['avg'] == 'bounds' else {})), ps)
    dep = np.full((nt, ny, nx), nk)
    if g['miss'] and nk > 2:
        dep = r.integers(2, nk + 1, (1, ny, nx)).repeat(nt, 0)
    if g['res']:
        f.vars['res'] = nc.V('double', ['lat', 'lon'], {}, r.choice([1.0, 1.0, 1.2], (ny, nx)))
    vals = {}

    def field(n, lev, lo, hi, types, miss, static=False):
        t = rng.choice(types)
        nz = {'full': nk, 'half': nk + 1, 'sfc': 0}[lev]
        dims = ([] if static else ['time']) + ([{'full': 'pfull', 'half': 'phalf'}[lev]] if nz else []) + ['lat', 'lon']
        d = r.uniform(lo, hi, [f.dims[q] for q in dims])
        if r.random() < 0.2:
            d[r.random(d.shape) < 0.3] = 0.0 if lo <= 0 else lo
        at = {'long_name': n + ' field', 'units': 'x'}
        if not static:
            at.update(av)
        pack = None
        if t == 'short':
            pack = ((hi - lo) / 15000.0, 0.5 * (lo + hi))
            at['scale_factor'], at['add_offset'] = np.array([pack[0]]), np.array([pack[1]])
            d = np.round((d - pack[1]) / pack[0])
        a = d.astype(nc.TYPES[t])
        mv = None
        if miss:
            mv = {'short': -32768, 'int': -99999}.get(t) if t in ('short', 'int') else rng.choice([-1e20, 1e20, -999.0])
            mv = np.array([mv]).astype(nc.TYPES[t])
            for q in rng.choice([['missing_value'], ['missing_value', '_FillValue'], ['_FillValue']]):
                at[q] = mv
            if nz == nk and not static:
                w = np.arange(nk)[None, :, None, None] >= dep[:, None]
                a[w] = mv[0]
            elif lev == 'sfc' and n != 'zsurf':
                a[r.random(a.shape) < 0.3] = mv[0]
        f.vars[n] = nc.V(t, dims, at, a)
        u = a.astype(float)
        if pack:
            u = u * pack[0] + pack[1]
        vals[n] = (t, lev, u, pack, mv, static)

    mi = g['miss'] or rng.random() < 0.5
    ft = ['float', 'double', 'float', 'short']
    if g['tmp']:
        field('temp', 'full', 190.0, 230.0 if g['x'] else 310.0, ft[:3] if g['x'] else ft, mi)
    if g['q']:
        field('sphum', 'full', 0.0, 0.02, ft[:3] if g['x'] else ft, mi)
    if g['zs']:
        field('zsurf', 'sfc', -50.0, 4000.0, ['float', 'double'], rng.random() < 0.3, True)
    for i in range(rng.randint(0, 4)):
        lev = rng.choice(['full', 'full', 'half', 'sfc'])
        m = mi if lev == 'full' and (g['miss'] or i == 0) else rng.random() < 0.6
        field('v%d' % i, lev, rng.choice([-30.0, 0.0, 5.0]), 40.0, ft + ['double'], m, lev == 'sfc' and rng.random() < 0.4)
    if rng.random() < 0.3:
        f.vars['scal'] = nc.V('int', [], {'long_name': 'a scalar'}, np.array(3, 'i4'))
    f.vars['one'] = nc.V('double', ['lat'], {}, np.arange(ny) * 1.0)
    if rng.random() < 0.4:                # any order of definition
        k = list(f.vars)
        rng.shuffle(k)
        f.vars = {q: f.vars[q] for q in k}
    f.atts['title'] = 'test file'
    if rng.random() < 0.5:
        f.atts['filename'] = 'in.nc'
    return f, vals, bk, pk, ps, dep


def full(ph):
    l = np.where(ph > 0, ph * np.log(np.where(ph > 0, ph, 1)), 0)
    return np.exp(np.diff(l, axis=1) / np.diff(ph, axis=1) - 1)


def weights(p, pout, kbot):
    """index of the level below, factor, below the lowest level"""
    nt, nk, ny, nx = p.shape
    with np.errstate(divide='ignore'):
        lp = np.log(p)
    lo = np.log(pout)
    sh = (nt, len(pout), ny, nx)
    I, W, B, near = np.zeros(sh, int), np.zeros(sh), np.zeros(sh, bool), np.zeros(sh, bool)
    for t, n, j, i in np.ndindex(sh):
        b = kbot[t, j, i]
        k = b - 1
        B[t, n, j, i] = True
        for q in range(1, b):
            if abs(lo[n] - lp[t, q, j, i]) < 1e-12:
                near[t, n, j, i] = True
            if lo[n] <= lp[t, q, j, i]:
                k = q
                B[t, n, j, i] = False
                break
        I[t, n, j, i] = k
        w = (lo[n] - lp[t, k, j, i]) / (lp[t, k - 1, j, i] - lp[t, k, j, i])
        W[t, n, j, i] = min(1.5, max(-0.5, w))
    return I, W, B, near, lp, lo


def satvap(T):
    """saturation vapour pressure, Smithsonian tables p. 350"""
    t0, t1 = TFREEZE, TFREEZE + 100
    ice = 10 ** (-9.09718 * (t0 / T - 1) - 3.56654 * np.log10(t0 / T) + 0.876793 * (1 - T / t0) + np.log10(610.71))
    wat = 10 ** (-7.90298 * (t1 / T - 1) + 5.02808 * np.log10(t1 / T) - 1.3816e-7 * (10 ** ((1 - T / t1) * 11.344) - 1) + 8.1328e-3 * (10 ** ((t1 / T - 1) * -3.49149) - 1) + np.log10(101324.60))
    a = np.clip((T - t0 + 20) / 20, 0, 1)
    return a * wat + (1 - a) * ice


def interp(a, I, W):
    b = np.take_along_axis(a, I, 1)
    u = np.take_along_axis(a, I - 1, 1)
    return b + W * (u - b)


def run_case(g, c):
    rng = random.Random(g['seed'])
    r = np.random.default_rng(g['seed'])
    f, vals, bk, pk, ps, dep = build(g, rng, r)
    nk, nt = g['nk'], g['nt']
    a = []
    bad = g['bad']
    if bad == 'nops':
        del f.vars['ps']
    if bad == 'nobk':
        del f.vars['bk']
    nc.write('in.nc', f)
    if bad == 'garbage':
        open('in.nc', 'wb').write(b'CDF\x01garbage' * 9)
    out = g['name'] or 'plevel.nc'
    # options
    extra = []
    ask = []
    can_h = g['tmp'] and (g['zs'] or g['zero']) and (g['q'] or g['zero'])
    can_s = g['tmp'] and (g['zs'] or g['zero'])
    if can_h and rng.random() < 0.5:
        extra.append('hght')
    if can_s and rng.random() < 0.5:
        extra.append('slp')
    levs = NCEP
    if g['p']:
        n = {'few': rng.randint(2, 6), 'many': rng.randint(20, 60), 'one': 1, 'up': 5}[g['p']]
        v = [rng.choice([rng.randint(20, 110000), rng.randint(1000, 105000)]) for _ in range(n)]
        v = sorted(set(v), reverse=g['p'] != 'up')
        levs = ' '.join(map(str, v))
        a += ['-p', levs]
    pout = np.array([float(q) for q in levs.split()])
    mode = g['mode']
    names = list(vals) + ['ps']
    if mode == 'list':
        ask = rng.sample(names, rng.randint(0, len(names)))
        if not ask and not extra:
            ask = ['ps']
    elif mode in ('a', 'a+'):
        a += ['-a']
        if mode == 'a+':
            ask = rng.sample(names, min(2, len(names)))
    else:
        a += ['-3']
        if not any(v[1] != 'sfc' for v in vals.values()) and not extra:
            ask = ['ps']
    for q, o in (('x', '-x'), ('m', '-m'), ('zero', '-0')):
        if g[q]:
            a.append(o)
    if g['d'] is not None:
        a += ['-d', g['d']]
    if g['name']:
        a += ['-o', out]
    if g['z'] is not None:
        a += ['-z', g['z'] if bad != 'z' else 12]
    elif bad == 'z':
        a += ['-z', 12]
    sel = list(range(nt))
    if g['t']:
        b, e, n = rng.randint(1, nt), rng.randint(1, nt), rng.randint(1, 3)
        b, e = min(b, e), max(b, e)
        s = {'beg': '%d' % b, 'end': ',%d' % e, 'inc': ',,%d' % n, 'all': '%d,%d,%d' % (b, e, n), 'skip': '%d,,%d' % (b, n)}[g['t']]
        lo, hi, st = {'beg': (b, nt, 1), 'end': (1, e, 1), 'inc': (1, nt, n), 'all': (b, e, n), 'skip': (b, nt, n)}[g['t']]
        sel = list(range(lo - 1, hi, st))
        a += ['-t', s]
    fl = ask + extra
    if rng.random() < 0.5:
        rng.shuffle(fl)
    if bad == 'nofield':
        a = [q for q in a if q not in ('-a', '-3')]
        fl = []
    inp = 'in.nc' if bad != 'nofile' else 'absent.nc'
    run = lambda aa, **k: c.tool('plevel.sh', aa, **k)
    if bad:
        r1 = run(a + ['-i', inp] + fl, expect='fail')
        c.count('refused')
        c.nontrivial = True
        c.sig = 'bad' + bad
        if bad in ('nofile', 'z', 'nofield') or r1.rc == 0:
            return
        # the next run in this directory is not affected by the failed one
        f, vals, bk, pk, ps, dep = build(g, random.Random(g['seed']), np.random.default_rng(g['seed']))
        nc.write('in2.nc', f)
        inp = 'in2.nc'
        c.count('run after a failure')
    before = set(os.listdir('.'))
    r1 = run(a + ['-i', inp] + fl, expect=None if g['x'] else 0)
    if r1.rc and 'saturation vapor pressure error' in r1.out:
        c.count('outside the table')         # the documented limit of the humidity table
        return
    c.check(r1.rc == 0, 'exit', lambda: 'failed: %s' % (r1.out + r1.err)[-400:])
    if r1.rc or c.viol:
        return
    c.check(set(os.listdir('.')) - before <= {out}, 'leftover', str(set(os.listdir('.')) - before - {out}))
    if not c.check(os.path.exists(out), 'nooutput', '%s missing' % out):
        return
    o = nc.read(out)
    c.check(o.fmt == g['fmt'] or o.fmt.replace('_OFFSET', '') == g['fmt'].replace('_OFFSET', ''), 'format', '%s -> %s' % (g['fmt'], o.fmt))
    # which fields
    want = list(fl)
    if mode in ('a', 'a+', '3'):
        for n, v in list(vals.items()) + [('ps', ('', 'sfc', None, None, None, False))]:
            if mode != '3' or (v[1] != 'sfc'):
                want.append(n)
    want = set(want)
    if 'temp' in want and not g['tmp']:
        want.discard('temp')
    axes = {'lon', 'lat', 'lonb', 'latb', 'time', 'level', 'nv', 'time_bounds', 'average_T1', 'average_T2', 'average_DT'}
    got = set(o.vars) - axes
    c.check(got == want, 'fields', lambda: 'written %s, expected %s' % (sorted(got), sorted(want)))
    # axes
    lv = o.vars['level'].data if 'level' in o.vars else np.array([])
    c.check(lv.shape == pout.shape and np.allclose(lv, pout * 0.01, rtol=1e-6), 'level', lambda: 'levels %s for %s' % (lv, pout))
    for q in ('lon', 'lat', 'lonb', 'latb'):
        if q in f.vars:
            c.check(q in o.vars and np.array_equal(o.vars[q].data, f.vars[q].data) and o.vars[q].atts.keys() == f.vars[q].atts.keys(), 'axis', q)
    ts = ['time'] + (['time_bounds'] if 'time_bounds' in f.vars else []) + ([k for k in ('average_T1', 'average_T2', 'average_DT')] if g['avg'] in ('T', 'both') else [])
    for q in ts:
        if c.check(q in o.vars, 'time-axis', q + ' missing'):
            c.check(np.array_equal(o.vars[q].data, f.vars[q].data[sel]), 'time-axis', lambda: '%s %s, expected %s' % (q, o.vars[q].data, f.vars[q].data[sel]))
    c.check(all(k in o.atts and np.array_equal(o.atts[k], v) for k, v in f.atts.items() if k != 'filename'), 'atts', str(o.atts.keys()))
    if 'filename' in f.atts:
        c.check(o.atts.get('filename') == out, 'atts', 'filename %r' % o.atts.get('filename'))
    if c.viol:
        return
    # reference
    psd = ps.astype(float)
    if g['res']:
        psd = psd * f.vars['res'].data
    ph = pk[None, :, None, None] + bk[None, :, None, None] * psd[:, None]
    pf = full(ph)
    # the bottom of each column follows the first field of temperature, humidity or the file that has missing values
    kb = np.full(psd.shape, nk)
    need_t = 'temp' in want or 'hght' in want or 'slp' in want
    src = None
    order = [n for n in f.vars if n in vals]
    if 'hght' in want or 'temp' in want:
        src = 'temp'
        if 'hght' in want and 'temp' not in want and g['q']:
            src = 'sphum'
    elif 'sphum' in want:
        src = 'sphum'
    else:
        src = next((n for n in order if vals[n][1] == 'full' and vals[n][4] is not None), None)
    if src and vals[src][4] is not None:
        kb = dep.copy()
    full_w = weights(pf, pout, kb)
    I, W, B, near, lp, lo = full_w
    half_w = None

    def compare(n, e, isneg, tol, t, unp):
        d = o.vars[n].data.astype(float)
        if not c.check(d.shape == e.shape, 'shape', '%s %s, expected %s' % (n, d.shape, e.shape)):
            return
        bad = np.abs(d - e) > tol
        bad &= ~isneg
        c.check(not bad.any(), 'value', lambda: '%s at %s: %r, expected %r' % (n, np.argwhere(bad)[0], d[bad][0], e[bad][0]))
        c.count('values', int(d.size))

    q_in = vals['sphum'][2] if g['q'] else np.zeros(pf.shape)
    for n in sorted(want - {'hght', 'slp'}):
        if n == 'ps':
            c.check(np.array_equal(o.vars[n].data, ps[sel]), 'copied', 'ps changed')
            c.count('copied')
            continue
        t, lev, u, pack, mv, static = vals[n]
        ov = o.vars[n]
        c.check(ov.type == t, 'type', '%s %s -> %s' % (n, t, ov.type))
        for k in f.vars[n].atts:
            if k not in ('missing_value', '_FillValue'):
                c.check(k in ov.atts and np.array_equal(np.ravel(ov.atts[k]), np.ravel(f.vars[n].atts[k])), 'fieldatt', '%s:%s' % (n, k))
        mo = mv
        if g['m'] and t in ('float', 'double', 'short'):
            mo = np.array([nc.FILL[t]]).astype(nc.TYPES[t])
        if mv is not None:
            c.check('missing_value' in ov.atts and np.array_equal(np.ravel(ov.atts['missing_value']), mo), 'missing-att', lambda: '%s: %r, expected %r' % (n, ov.atts.get('missing_value'), mo))
        elif not g['m']:
            c.check('missing_value' not in ov.atts and '_FillValue' not in ov.atts, 'missing-added', lambda: '%s: missing value %r, the input has none' % (n, ov.atts.get('missing_value')))
        if static or lev == 'sfc':
            raw = f.vars[n].data
            if mv is not None:
                raw = np.where(raw == mv[0], mo[0], raw)
            c.check(np.array_equal(ov.data, raw if static else raw[sel]), 'copied', '%s changed' % n)
            c.count('copied')
            continue
        w = full_w
        if lev == 'half':
            half_w = half_w or weights(ph, pout, kb)
            w = half_w
        I, W, B, near, lp2, _ = w
        rh = np.zeros(B.shape, bool)
        with np.errstate(all='ignore'):
            e = interp(u, I, W)
        skip = near | ~np.isfinite(e)
        if not g['x']:
            if mv is None and g['m']:
                skip |= B                      # unclear whether the default applies to fields that have none
            if mo is not None:
                e[B] = float(mo[0])
        else:
            if n == 'temp':
                k1 = np.take_along_axis(lp, I - 1, 1)
                rg = 0.5 * (RD / GRAV) * (lo[None, :, None, None] - k1)
                x = np.take_along_axis(u, I - 1, 1) * (1 / 6.5e-3 + rg) / (1 / 6.5e-3 - rg)
                e = np.where(B, x, e)
            if n == 'sphum' and g['tmp'] and ('temp' in want or 'hght' in want):
                # relative humidity of the lowest level kept, at the extrapolated temperature
                T = vals['temp'][2]
                T1, q1, p1 = (np.take_along_axis(z, I - 1, 1) for z in (T, u, pf))
                rg = 0.5 * (RD / GRAV) * (lo[None, :, None, None] - np.take_along_axis(lp, I - 1, 1))
                T2 = T1 * (1 / 6.5e-3 + rg) / (1 / 6.5e-3 - rg)
                with np.errstate(all='ignore'):
                    po = np.exp(lo)[None, :, None, None]
                    e1, e2 = satvap(T1), satvap(T2)
                    m = q1 / (1 - q1) * (e2 / (po - e2)) / (e1 / (p1 - e1))
                    x = m / (1 + m)
                e = np.where(B, x, e)
                skip |= ~np.isfinite(e) | (B & ((e2 > 0.2 * po) | (e1 > 0.2 * p1)))
                rh = B
        if pack:
            pe = np.where(B & (not g['x']), e, (e - pack[1]) / pack[0]) if mo is not None else (e - pack[1]) / pack[0]
            skip |= np.abs(pe) > 32500 if g['x'] or mo is None else (np.abs(pe) > 32500) & ~B
            compare(n, pe[sel], skip[sel], 0.5001 + np.where(rh, 5e-4 * np.abs(pe), 0)[sel], t, pack)
        else:
            compare(n, e[sel], skip[sel], (2e-6 if t == 'float' else 1e-7) * (1 + np.abs(e[sel])) * np.where(rh, 0.001, 1)[sel] + np.where(rh, 5e-4 * np.abs(e), 0)[sel], t, pack)
        c.nontrivial = True
    zs = vals['zsurf'][2] if g['zs'] else np.zeros(psd.shape[1:])
    if g['res'] and (f.vars['res'].data > 1.0001).any():
        zs = np.zeros(psd.shape[1:])
    if 'hght' in want:
        T = vals['temp'][2]
        msk = np.zeros(T.shape, bool)
        if src and vals[src][4] is not None:
            msk = np.arange(nk)[None, :, None, None] >= dep[:, None]
        vt = T * (1 + (RV - RD) / RD * q_in) * RD
        zf = np.zeros(T.shape)
        with np.errstate(all='ignore'):
            lh = np.log(ph)
        zb = np.broadcast_to(zs * GRAV, psd.shape).copy()
        top0 = (ph[:, 0] <= 0).reshape(nt, -1).any(1)
        for k in range(nk - 1, -1, -1):
            wb = lh[:, k + 1] - lp[:, k]
            wa = lp[:, k] - lh[:, k]
            if k == 0:
                wa = np.where(top0[:, None, None], wb, wa)
            zt = zb + vt[:, k] * (wa + wb)
            zf[:, k] = (zb + vt[:, k] * wb) / GRAV
            z2 = GRAV * 288.0 * (1 - (pf[:, k] / 101325.0) ** (RD * 6.5e-3 / GRAV)) / 6.5e-3
            zf[:, k] = np.where(msk[:, k], 0.5 * (z2 + zb) / GRAV, zf[:, k])
            zt = np.where(msk[:, k], z2, zt)
            zb = zt
        I, W, B, near, lp2, _ = full_w
        to, qo = interp(T, I, W), interp(q_in, I, W)
        skip = near.copy()
        if g['x']:
            skip |= B
        tv = to * (1 + (RV - RD) / RD * qo)
        tvin = np.take_along_axis(T * (1 + (RV - RD) / RD * q_in), I, 1)
        e = (np.take_along_axis(lp, I, 1) - lo[None, :, None, None]) * (tv + tvin) * 0.5 * RD / GRAV + np.take_along_axis(zf, I, 1)
        if not g['x']:
            e[B] = float(nc.FILL['float']) if g['m'] else -1000.0
        compare('hght', e[sel], skip[sel], 2e-6 * (1 + np.abs(e[sel])) + 1e-3, 'float', None)
        c.count('heights')
        c.nontrivial = True
    if 'slp' in want:
        T = vals['temp'][2]
        e = np.zeros(psd.shape)
        skip = np.zeros(psd.shape, bool)
        gorg = GRAV / (RD * 6.5e-3)
        for t, j, i in np.ndindex(psd.shape):
            b = kb[t, j, i]
            pb = ph[t, b, j, i]
            e[t, j, i] = 0.01 * pb
            if abs(zs[j, i]) > 1e-4:
                sg = pf[t, :b, j, i] / pb
                k = np.nonzero(sg > 0.8)[0]
                if abs(sg - 0.8).min() < 1e-9 or not len(k):
                    skip[t, j, i] = True
                    continue
                tb = T[t, k[0], j, i] * sg[k[0]] ** (-1 / gorg)
                e[t, j, i] = 0.01 * pb * (1 + 6.5e-3 * zs[j, i] / tb) ** gorg
        compare('slp', e[sel], skip[sel], 2e-6 * np.abs(e[sel]), 'float', None)
        c.count('sea level pressures')
    c.sig = repr(g['seed'])
    if g['again']:
        a1 = open(out, 'rb').read()
        os.remove(out)
        run(a + ['-i', inp] + fl)
        o2 = nc.read(out)
        c.check(all(np.array_equal(o2.vars[q].data, o.vars[q].data) for q in o.vars), 'again', 'a second run gives other data')
