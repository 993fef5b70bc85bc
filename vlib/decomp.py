"""Random domain-decomposed file sets and a reference model of combining them."""
import os, random
import numpy as np
from . import nc

FMTS = ['NETCDF3_CLASSIC', 'NETCDF3_64BIT_OFFSET', 'NETCDF4', 'NETCDF4_CLASSIC', 'NETCDF3_64BIT_DATA']
TYPES = ['byte', 'char', 'short', 'int', 'float', 'double']


def cuts(rng, n, parts):
    """n cells into `parts` non-empty contiguous pieces -> list of (start,end) inclusive"""
    c = sorted(rng.sample(range(1, n), parts - 1)) if parts > 1 else []
    e = [0] + c + [n]
    return [(e[i], e[i + 1] - 1) for i in range(parts)]


def randatts(rng, nr, typ=None, extra=True):
    a = {}
    words = ['long_name', 'units', 'note', 'cell_methods', 'valid_range', 'scale_hint', 'interp_method', 'time_avg_info']
    for w in rng.sample(words, rng.randint(0, 4)):
        k = rng.randint(0, 5)
        n = rng.randint(1, 3)
        if k in (0, 1):
            a[w] = ''.join(rng.choice('abc XYZ_09:/') for _ in range(rng.randint(1, 30))).strip() or 'z'
        elif k == 2:
            a[w] = np.asarray(nr.integers(-1000, 1000, n), 'i4')
        elif k == 3:
            a[w] = np.asarray(nr.standard_normal(n), 'f4')
        elif k == 4:
            a[w] = np.asarray(nr.standard_normal(n), 'f8')
        else:
            a[w] = np.asarray(nr.integers(-100, 100, n), 'i2')
    return a


def gen_global(cfg):
    """cfg -> (F global file, decomposition info {dim: cuts}, layout)"""
    rng = random.Random(cfg['seed'])
    nr = np.random.default_rng(cfg['seed'])
    f = nc.F(cfg['fmt'])
    nx, ny, nz, nrec = cfg['nx'], cfg['ny'], cfg['nz'], cfg['nrec']
    npx, npy = cfg['npx'], cfg['npy']
    order = ['xt', 'yt', 'zt', 'nv', 'time']
    sizes = {'xt': nx, 'yt': ny, 'zt': nz, 'nv': 2, 'time': nrec}
    dec = {'xt': cuts(rng, nx, npx), 'yt': cuts(rng, ny, npy)}
    if cfg.get('stag'):
        order += ['xq', 'yq']
        sizes['xq'], sizes['yq'] = nx + 1, ny + 1
        dec['xq'] = [(a + (1 if i else 0), b + 1) for i, (a, b) in enumerate(dec['xt'])]
        dec['yq'] = [(a + (1 if i else 0), b + 1) for i, (a, b) in enumerate(dec['yt'])]
    rng.shuffle(order)
    if not cfg['rec']:
        order.remove('time')
    for d in order:
        f.dims[d] = sizes[d]
    f.rec = 'time' if cfg['rec'] else None
    gst = {d: (rng.choice([1, 1, 1, 5, 0, 11]) if cfg.get('goff') else 1) for d in dec}
    names = []
    V = []
    for d in order:
        if d in dec or (d == 'time') or rng.random() < 0.6:
            t = rng.choice(['float', 'double', 'double', 'int'])
            V.append((d, t, (d,)))
    xs = [('xt', 'yt')] * 3 + ([('xq', 'yt'), ('xt', 'yq'), ('xq', 'yq')] if cfg.get('stag') else [])
    for i in range(cfg['nvars']):
        t = rng.choice(TYPES)
        x, y = rng.choice(xs)
        shapes = [(), (x,), (y,), (y, x), (y, x), (x, y), ('zt', y, x), ('zt',), ('nv',), ('zt', 'nv'), ('nv', 'zt', y, x),
                  (y, 'zt', x), ('nv', y), (x, 'nv'), (y, x, 'nv')]
        dims = rng.choice(shapes)
        if cfg['rec'] and rng.random() < 0.65:
            dims = ('time',) + dims
        nm = 'v%d' % i
        if rng.random() < 0.1:
            nm += '_' + 'abcdefghij' * rng.randint(1, 9)
        V.append((nm, t, dims))
    rng.shuffle(V)
    for n, t, dims in V:
        v = nc.V(t, dims, randatts(rng, nr))
        shape = tuple(sizes[d] for d in dims)
        if n in sizes:
            v.data = (np.arange(shape[0]) * rng.choice([1, 2, 3]) + rng.randint(-5, 5)).astype(nc.TYPES[t])
        else:
            v.data = nc.randdata(nr, t, shape)
            if rng.random() < 0.5 and t != 'char':
                mv = np.asarray(rng.choice([-99, 7, 101]), nc.TYPES[t]).reshape(1)
                v.atts['missing_value'] = mv
                if rng.random() < 0.3:
                    v.atts['_FillValue'] = mv[0]
        f.vars[n] = v
    f.atts = randatts(rng, nr)
    if rng.random() < 0.7:
        f.atts['filename'] = 'orig_name.nc'
    return f, dec, gst


def pieces(f, dec, gst, npx, npy, masked=()):
    """-> list of (pe, F) for the PEs that are not masked"""
    out = []
    for p in range(npx * npy):
        if p in masked:
            continue
        px, py = p % npx, p // npx
        g = nc.F(f.fmt)
        g.rec = f.rec
        sl = {}
        for d in f.dims:
            if d in dec:
                a, b = dec[d][px if d[0] == 'x' else py]
                sl[d] = slice(a, b + 1)
                g.dims[d] = b - a + 1
            else:
                sl[d] = slice(None)
                g.dims[d] = f.dims[d]
        for n, v in f.vars.items():
            w = nc.V(v.type, v.dims, v.atts)
            w.data = v.data[tuple(sl[d] for d in v.dims)] if v.dims else v.data
            if n in dec:
                a, b = dec[n][px if n[0] == 'x' else py]
                o = gst[n]
                w.atts = dict(v.atts)
                w.atts['domain_decomposition'] = np.asarray([o, o + f.dims[n] - 1, o + a, o + b], 'i4')
            g.vars[n] = w
        g.atts = dict(f.atts)
        out.append((p, g))
    for p, g in out:
        g.atts['NumFilesInSet'] = np.int32(len(out))
    return out


def expect_combined(f, dec, npx, npy, masked, usemiss):
    """what the unified file must hold"""
    e = nc.F(f.fmt)
    e.dims, e.rec, e.atts = dict(f.dims), f.rec, dict(f.atts)
    for n, v in f.vars.items():
        w = nc.V(v.type, v.dims, v.atts, v.data.copy())
        dd = [d for d in v.dims if d in dec]
        if dd and masked:
            cov = np.zeros(v.data.shape, bool)
            for p in range(npx * npy):
                if p in masked:
                    continue
                px, py = p % npx, p // npx
                s = []
                for d in v.dims:
                    if d in dec:
                        a, b = dec[d][px if d[0] == 'x' else py]
                        s.append(slice(a, b + 1))
                    else:
                        s.append(slice(None))
                cov[tuple(s)] = True
            if v.type == 'char':
                w.data[~cov] = b'\0'
            else:
                fillv = 0
                if usemiss and 'missing_value' in v.atts:
                    fillv = v.atts['missing_value'][0]
                w.data[~cov] = fillv
        e.vars[n] = w
    return e


def compare(got, exp, c, outname=None, key='combine', ignore_gatts=(), fmt=None, attskip=()):
    """monitor: `got` file must equal `exp` bit for bit"""
    if fmt:
        c.check(got.fmt == fmt, key + ':format', 'format %s, expected %s' % (got.fmt, fmt))
    c.check(list(got.dims.items()) == list(exp.dims.items()) and got.rec == exp.rec, key + ':dims',
            'dims %s rec %s, expected %s rec %s' % (got.dims, got.rec, exp.dims, exp.rec))
    c.check(set(got.vars) == set(exp.vars), key + ':vars', 'variables %s expected %s' % (sorted(got.vars), sorted(exp.vars)))
    for n, v in exp.vars.items():
        w = got.vars.get(n)
        if w is None:
            continue
        c.check(w.type == v.type and w.dims == v.dims, key + ':vardef', '%s: %s%s expected %s%s' % (n, w.type, w.dims, v.type, v.dims))
        ga = {k: a for k, a in w.atts.items() if k not in attskip}
        ea = {k: a for k, a in v.atts.items() if k not in attskip}
        c.check(set(ga) == set(ea) and all(nc.atteq(ga[k], ea[k]) for k in ea), key + ':varatts',
                '%s: %s expected %s' % (n, ga, ea))
        c.count('values_compared', int(np.size(v.data)))
        c.check(nc.biteq(w.data, v.data), key + ':data', lambda: '%s%s %s: got vs expected: %s' % (n, v.dims, v.type, nc.diffwhere(w.data, v.data)))
    ga = {k: a for k, a in got.atts.items() if k not in ignore_gatts}
    ea = {k: a for k, a in exp.atts.items() if k not in ignore_gatts}
    if outname and 'filename' in ea:
        ea['filename'] = outname
    c.check(set(ga) == set(ea) and all(nc.atteq(ga[k], ea[k]) for k in ea), key + ':gatts', 'global atts %s expected %s' % (ga, ea))


def outfmt(infmt, opts):
    if '-n4' in opts:
        return 'NETCDF4_CLASSIC'
    if '-64' in opts:
        return 'NETCDF3_64BIT_OFFSET'
    return {'NETCDF3_CLASSIC': 'NETCDF3_64BIT_OFFSET', 'NETCDF3_64BIT_OFFSET': 'NETCDF3_64BIT_OFFSET'}.get(infmt, infmt)


def rand_cfg(rng, big=False):
    npx, npy = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 1), (1, 5), (3, 3), (4, 4), (5, 2)] if big else
                          [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 1), (1, 4), (3, 3)])
    return {'seed': rng.randrange(1 << 30), 'fmt': rng.choice(FMTS), 'npx': npx, 'npy': npy,
            'nx': rng.randint(npx, npx + 6), 'ny': rng.randint(npy, npy + 6), 'nz': rng.randint(1, 4),
            'rec': rng.random() < 0.85, 'nrec': rng.choice([1, 1, 2, 3, 4, 5, 7, 11]), 'nvars': rng.randint(2, 9),
            'stag': rng.random() < 0.4, 'goff': rng.random() < 0.3}
