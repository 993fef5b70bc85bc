"""timavg: every output record is the time-weighted mean of its file."""
import os, random
import numpy as np
from vlib import nc, land

ID = 'C09'
TOOLS = ['timavg', 'time_average']
MIN = 60
RULE = ('random history files (1-4 files of 1-6 records, record or static variables of 0-4 further dimensions, float/double/int/short/byte/char, '
        'missing values, time bounds present/climatological/absent, unequal intervals, 4 formats) through the bounds-checked time_average and its '
        'script with random options; means, weights, missing decisions, time axis, bounds, static data and attributes are compared with a float64 '
        'reference. Non-trivial: a file of 2 or more records; distinct by configuration.')
ASSUMPTIONS = ['missing_value/_FillValue have the type of their variable, as CF demands']
TYPES = ['float', 'float', 'double', 'double', 'int', 'short', 'byte', 'char']


def gen(rng, tier):
    cs = []
    for i in range(900 if tier == 'quick' else 2500):
        nf = rng.choice([1, 1, 2, 2, 3, 4])
        cs.append({'seed': rng.randrange(1 << 30), 'fmt': rng.choice(land.FMTS), 'nt': [rng.choice([1, 2, 3, 4, 6]) for _ in range(nf)],
                   'bnds': rng.choice(['bounds', 'bounds', 'bounds', 'gaps', 'climo', 'none']), 'nvars': rng.randint(1, 7),
                   'units': rng.choice(['days since 2000-01-01 00:00:00', 'hours since 1990-01-01', 'days', 'seconds since 2000-01-01', 'minutes since x', 'furlongs per']),
                   'b': rng.random() < 0.3, 'm': rng.random() < 0.4, 'w': rng.choice([None, None, '0.25', '0.5', '0.75', '1.0']),
                   'z': rng.choice([None, None, None, '0', '4']), 's': rng.choice([None, None, '0', '1']), 'rec': rng.choice(['time', 'time', 'Time', 't']),
                   'cm': rng.choice([None, None, 'time: point', 'time: mean', 'area: mean']), 'cal': rng.random() < 0.3, 'deflate': rng.random() < 0.3})
    for i in range(40 if tier == 'quick' else 60):
        g = dict(rng.choice(cs))
        g.update(bad=['shape', 'nvars', 'absent', 'garbage', 'many', 'rank', 'noout'][i % 7], seed=rng.randrange(1 << 30))
        g['nt'] = (g['nt'] * 3)[:3]
        if g['bad'] == 'many':
            g.update(nvars=1, nt=[1, 1, 1], bnds='bounds')
        cs.append(g)
    return cs


def run_bad(g, c):
    files, bname, has = build(g)
    names = []
    b = g['bad']
    rng = random.Random(g['seed'] ^ 5)
    for k, (f, lo, hi) in enumerate(files):
        n = 'in%d.nc' % k
        if k == 2 and b in ('shape', 'nvars', 'rank'):
            f.vars = dict(f.vars)
            t = g['rec']
            base = f.vars[t]
            if b == 'nvars':
                f.vars['extra'] = nc.V('double', (t,), {}, base.data)
            else:
                f.dims['xx'] = f.dims['x'] + (1 if b == 'shape' else 0)
        if b in ('shape', 'rank'):
            sh = ('x',) if k < 2 or b == 'rank' else ('xx',)
            if b == 'rank':
                for d in ('d1', 'd2', 'd3', 'd4', 'd5'):
                    f.dims[d] = 2
                sh = ('d1', 'd2', 'd3', 'd4', 'd5')
                if rng.random() < 0.5:
                    sh = (g['rec'],) + sh
            f.vars['s'] = nc.V('double', sh, {}, np.ones([f.dims[d] for d in sh]))
        nc.write(os.path.join(c.dir, n), f)
        names.append(n)
    if b == 'absent':
        names.insert(1, 'nofile.nc')
    elif b == 'garbage':
        open(os.path.join(c.dir, names[rng.randrange(3)]), 'wb').write(rng.randbytes(500))
    elif b == 'many':
        names = [names[0]] * 201
    before = {n: open(os.path.join(c.dir, n), 'rb').read() for n in set(names) if n != 'nofile.nc'}
    c.tool('timavg', ['-o', 'no/such/dir/avg.nc' if b == 'noout' else 'avg.nc'] + names, expect='fail', abort_ok=True)
    c.count('refused')
    c.nontrivial = True
    c.sig = [g['seed']]
    for n in before:
        c.check(open(os.path.join(c.dir, n), 'rb').read() == before[n], 'avg:input', n)


def build(g):
    rng = random.Random(g['seed'])
    nr = np.random.default_rng(g['seed'])
    rec = g['rec']
    dims = [('x', rng.randint(1, 5)), ('y', rng.randint(1, 4)), ('z', rng.randint(1, 3)), ('q', rng.randint(1, 3)), (rec, None)]
    has = g['bnds'] != 'none'
    if has:
        dims.append(('nv', 2))
    rng.shuffle(dims)
    D = dict(dims)
    bname = rng.choice(['time_bnds', 'b', 'climatology_bounds' if g['bnds'] == 'climo' else 'time_bounds'])
    vs = []
    for i in range(g['nvars']):
        t = rng.choice(TYPES)
        sh = rng.choice([(), ('x',), ('y', 'x'), ('z', 'y', 'x'), ('q', 'z', 'y', 'x'), ('x', 'z')])
        if rng.random() < 0.75:
            sh = (rec,) + sh
        a = land.atts(rng, nr)
        if rng.random() < 0.5 and t != 'char':
            m = np.asarray(rng.choice([-99, 100, 7]), nc.TYPES[t]).reshape(1)
            if rng.random() < 0.8:
                a['missing_value'] = m
            if rng.random() < 0.6 or 'missing_value' not in a:
                a['_FillValue'] = m[0]
        if g['cm'] and sh[:1] == (rec,):
            a['cell_methods'] = g['cm'].replace('time', rec)
        vs.append(('v%d' % i, t, sh, a))
    ta = {'units': g['units'], 'cartesian_axis': 'T'}
    if has:
        ta['climatology' if g['bnds'] == 'climo' else 'bounds'] = bname
    vs.append((rec, 'double', (rec,), ta))
    if has:
        vs.append((bname, 'double', (rec, 'nv'), {'units': 'days'}))
        if rng.random() < 0.5:
            vs.append(('nv', 'double', ('nv',), {}))
    if rng.random() < 0.3:
        vs.append(('average_T1', 'double', (rec,), {}))
    if rng.random() < 0.3:
        vs.append(('x', 'double', ('x',), {'cartesian_axis': 'X'}))
    rng.shuffle(vs)
    gat = land.atts(rng, nr)
    if rng.random() < 0.5:
        gat['filename'] = 'old.nc'
    files = []
    t0 = float(rng.choice([0, 10, 730000]))
    static = {}
    for k, nt in enumerate(g['nt']):
        if g['cal']:
            dt = nr.choice([28., 30., 31.], nt)
        elif rng.random() < 0.3:
            dt = np.full(nt, 1.0)
        else:
            dt = nr.integers(1, 9, nt) * 0.25
        lo = t0 + np.concatenate([[0], np.cumsum(dt)[:-1]])
        hi = lo + dt
        if g['bnds'] in ('gaps', 'climo'):
            sh_ = np.arange(nt) * 365.
            lo, hi = lo + sh_, hi + sh_
        t0 = float(hi[-1])
        f = nc.F(g['fmt'])
        f.rec = rec
        for d, n in dims:
            f.dims[d] = nt if d == rec else n
        for n, t, sh, a in vs:
            v = nc.V(t, sh, a)
            shape = tuple(f.dims[d] for d in sh)
            if n == rec:
                v.data = (lo + hi) / 2
            elif has and n == bname:
                v.data = np.stack([lo, hi], 1)
            else:
                if n not in static or rec in sh:
                    d = nc.randdata(nr, t, shape)
                    mv = a.get('missing_value', [a.get('_FillValue')])[0]
                    if mv is not None and rec in sh and np.size(d):
                        p = rng.choice([0.1, 0.5, 0.9])
                        hit = nr.random(shape) < p
                        d = np.where(hit, np.asarray(mv, d.dtype), d)
                        if d.ndim > 1 and rng.random() < 0.5:
                            d[(slice(None),) + (0,) * (d.ndim - 1)] = mv
                    static[n] = d
                v.data = static[n]
            f.vars[n] = v
        f.atts = dict(gat)
        files.append((f, lo, hi))
    return files, bname, has


def run_case(g, c):
    if g.get('bad'):
        return run_bad(g, c)
    files, bname, has = build(g)
    names = []
    for k, (f, lo, hi) in enumerate(files):
        n = 'in%d.nc' % k
        nc.write(os.path.join(c.dir, n), f)
        if g['deflate'] and f.fmt.startswith('NETCDF4'):
            import subprocess
            subprocess.run(['nccopy', '-d', '3', n, 'x.nc'], cwd=c.dir, check=True)
            os.replace(os.path.join(c.dir, 'x.nc'), os.path.join(c.dir, n))
        names.append(n)
    args = ['-o', 'avg.nc']
    for o in ('b', 'm'):
        if g[o]:
            args.append('-' + o)
    for o in ('w', 'z', 's'):
        if g[o] is not None:
            args += ['-' + o, g[o]]
    before = {n: open(os.path.join(c.dir, n), 'rb').read() for n in names}
    r = c.tool('timavg', args + names)
    c.nontrivial = max(g['nt']) > 1
    c.sig = [g['seed']]
    if c.viol:
        return
    now = sorted(os.listdir(c.dir))
    c.check(now == sorted(names + ['avg.nc']), 'avg:files', now)
    for n in names:
        c.check(open(os.path.join(c.dir, n), 'rb').read() == before[n], 'avg:input', n)
    o = nc.read(os.path.join(c.dir, 'avg.nc'))
    f0 = files[0][0]
    rec = g['rec']
    c.check(o.fmt == f0.fmt, 'avg:format', '%s %s' % (o.fmt, f0.fmt))
    c.check(o.rec == rec and o.dims.get(rec) == len(files), 'avg:records', '%s %s' % (o.rec, o.dims))
    climo = g['bnds'] in ('gaps', 'climo') and g['nt'][0] > 1
    added = g['b'] and not has
    frac = max(min(float(g['w'] or 0), 1 - 1e-6), 0)
    skip = {n for n, v in f0.vars.items() if v.type in ('byte', 'char') or n == 'average_T1'}
    ren = {bname: 'climatology_bounds'} if g['bnds'] == 'gaps' and climo else {}
    exp = {ren.get(n, n) for n in f0.vars if n not in skip}
    nothing = not any(rec in v.dims and n not in skip and n not in (rec, bname) for n, v in f0.vars.items())
    tbn = None
    if has:
        tbn = ren.get(bname, bname)
    elif added:
        tbn = 'climatology_bounds' if climo and has else rec + '_bounds'
        exp |= {'nv', tbn}
    c.check(set(o.vars) == exp, 'avg:vars', '%s expected %s' % (sorted(o.vars), sorted(exp)))
    if c.viol:
        return
    for n, v in f0.vars.items():
        if n in skip:
            continue
        w = o.vars[ren.get(n, n)]
        c.check(w.type == v.type and w.dims == v.dims, 'avg:vardef', '%s %s%s' % (n, w.type, w.dims))
        for k, a in v.atts.items():
            if k == 'cell_methods' and rec in v.dims:
                continue
            if n == rec and k == 'bounds' and ren:
                c.check('climatology' in w.atts, 'avg:climo-att', w.atts)
                continue
            c.check(k in w.atts and nc.atteq(a, w.atts[k]), 'avg:varatts', '%s:%s' % (n, k))
        if rec in v.dims and n != rec and n != bname and tbn:
            cm = w.atts.get('cell_methods', '')
            c.check((rec + ': mean') in cm and '\0' not in cm, 'avg:cell_methods', '%s: %r' % (n, cm))
        if rec not in v.dims:
            c.count('static')
            c.check(nc.biteq(w.data, v.data), 'avg:static', lambda: '%s %s' % (n, nc.diffwhere(w.data, v.data)))
            continue
        if n == rec or n == bname:
            continue
        mv = v.atts.get('missing_value', [v.atts.get('_FillValue')])[0]
        for k, (f, lo, hi) in enumerate(files):
            x = f.vars[n].data.astype('f8')
            wt = (hi - lo if has else np.ones(len(lo))).reshape((-1,) + (1,) * (x.ndim - 1))
            if mv is None:
                e = (wt * x).sum(0) / wt.sum()
                ok = np.ones(e.shape, bool)
                mag = (wt * abs(x)).sum(0) / wt.sum()
            else:
                val = x != float(mv)
                ws = (wt * val).sum(0)
                ok = ws > frac * wt.sum()
                if len(lo) == 1 and frac == 0:
                    ok = val[0]
                e = np.where(ok, (wt * np.where(val, x, 0)).sum(0) / np.where(ok, ws, 1), float(mv))
                mag = (wt * abs(x)).sum(0) / np.where(ok, ws, 1)
            got = w.data[k].astype('f8')
            c.count('means', int(e.size))
            c.count('missing_means', int((~ok).sum()))
            if v.type in ('int', 'short'):
                r_ = np.where(ok, np.trunc(e + np.copysign(0.5, e)), e)
                good = (got == r_) | (ok & (abs(got - e) <= 0.5 + 1e-6) & (abs(abs(e - np.floor(e)) - 0.5) < 1e-6))
            else:
                tol = (3e-7 if v.type == 'float' else 1e-13) * (mag + abs(e)) + 1e-300
                good = np.where(ok, abs(got - e) <= tol, got == e)
                if len(lo) == 1:
                    good &= abs(got - e) <= (1e-15 if v.type == 'double' else 0) * abs(e) * 4
            c.check(good.all(), 'avg:mean', lambda: '%s %s file %d (nt %d): %s' % (n, v.type, k, len(lo), nc.diffwhere(np.where(good, e, got), e)))
    for k, (f, lo, hi) in enumerate(files):
        t = f.vars[rec].data
        if has:
            b = (lo[0], hi[-1])
        elif len(t) > 1 and not nothing:
            b = (2 * t[0] - t[1], t[-1])
        else:
            b = None
        if tbn and b:
            got = o.vars[tbn].data[k]
            c.check(abs(got - np.asarray(b)).max() <= 1e-9, 'avg:bounds', 'file %d: %s expected %s' % (k, got, b))
        tt = o.vars[rec].data[k]
        if not g['m']:
            c.check(tt == t[-1], 'avg:endtime', '%s %s' % (tt, t[-1]))
        elif climo:
            c.check(abs(tt - 0.5 * (lo[-1] + hi[-1])) < 1e-9, 'avg:climotime', '%s %s %s' % (tt, lo, hi))
        elif b:
            c.check(abs(tt - 0.5 * (b[0] + b[1])) < 1e-9, 'avg:midtime', 'file %d: %s, expected %s' % (k, tt, b))
    for k, a in f0.atts.items():
        if k == 'filename':
            c.check(o.atts.get(k) == 'avg.nc', 'avg:filename', o.atts.get(k))
        else:
            c.check(k in o.atts and nc.atteq(a, o.atts[k]), 'avg:gatts', k)
