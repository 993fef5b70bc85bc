"""mppncscatter: the pieces partition the file, and combining them gives the file back."""
import os, random
import numpy as np
from vlib import nc, decomp

ID = 'C03'
TOOLS = ['mppncscatter', 'mppnccombine']
MIN = 40
RULE = ('random files (5 formats, all classic types, scalars to 5 dims, static and record variables in any order, several X and Y dims, '
        'axes recognised by units, by cartesian_axis or by -X/-Y, names up to the netCDF limit) scattered by the ASan/UBSan tool with '
        'random layouts, io-layouts, start numbers, widths, prefixes. Monitor: file names, every piece equals its slice bit for bit, '
        'the slices tile each axis without gap or overlap, decomposition attributes agree, sizes differ by at most 2; then the real '
        'mppnccombine must return the original. Non-trivial: at least 2 pieces and a scattered variable; distinct by configuration.')
ASSUMPTIONS = ['round trip is asked only when every scattered dimension has its coordinate variable']
NAMES = {'x': ['lon', 'xt', 'grid_x_T', 'i'], 'y': ['lat', 'yt', 'grid_y_T', 'j']}


def gen(rng, tier):
    cs = []
    for _ in range(260 if tier == 'quick' else 2500):
        npx, npy = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 1), (1, 5), (3, 3), (4, 2), (6, 2), (4, 4)])
        c = {'seed': rng.randrange(1 << 30), 'fmt': rng.choice(decomp.FMTS), 'npx': npx, 'npy': npy, 'nx': rng.randint(npx, npx + 9),
             'ny': rng.randint(npy, npy + 9), 'rec': rng.random() < 0.8, 'nrec': rng.choice([0, 1, 2, 3, 5]), 'nvars': rng.randint(2, 9),
             'nxdims': rng.randint(1, 3), 'nydims': rng.randint(1, 3), 'start': rng.choice([0, 0, 0, 1, 7, 96, 9997]),
             'width': rng.choice([4, 4, 4, 6, 3]), 'prefix': rng.choice([None, None, None, 'sub', './sub']), 'verbose': rng.random() < 0.15,
             'longname': rng.random() < 0.06, 'path': rng.random() < 0.2, 'dry': rng.random() < 0.05}
        u = rng.random()
        if u < 0.03:
            npx, npy = rng.choice([(12, 1), (11, 3), (1, 14), (12, 9)])
            c.update(npx=npx, npy=npy, nx=rng.randint(npx, npx + 9), ny=rng.randint(npy, npy + 9), nvars=3)
        elif u < 0.05:
            c['nvars'] = rng.randint(40, 110)
        elif u < 0.07:
            c.update(nx=rng.randint(80, 180), ny=rng.randint(60, 120))
        if rng.random() < 0.25:
            ix = [k for k in range(1, npx + 1) if npx % k == 0]
            iy = [k for k in range(1, npy + 1) if npy % k == 0]
            c['io'] = [rng.choice(ix), rng.choice(iy)]
        cs.append(c)
    return cs


def build(g):
    rng = random.Random(g['seed'])
    nr = np.random.default_rng(g['seed'])
    f = nc.F(g['fmt'])
    axes, optX, optY, coordless = {}, [], [], []
    dims = []
    for ax, n, base in (('x', g['nxdims'], g['nx']), ('y', g['nydims'], g['ny'])):
        for k in range(n):
            d = NAMES[ax][k]
            dims.append((d, base + rng.choice([0, 0, 1]), ax))
            axes[d] = ax
    for d, n in (('z', rng.randint(1, 4)), ('nv', 2), ('lev', rng.randint(1, 3))):
        dims.append((d, n, None))
    if g['rec']:
        dims.append(('time', g['nrec'], 't'))
        f.rec = 'time'
    rng.shuffle(dims)
    V = []
    for d, n, ax in dims:
        f.dims[d] = n
        how = None
        if ax in ('x', 'y'):
            how = rng.choice(['units', 'units', 'cart', 'opt', 'both', 'bare'])
        has = ax in ('x', 'y') and how != 'bare' or ax == 't' or rng.random() < 0.5
        a = decomp.randatts(rng, nr)
        for k in ('units', 'cartesian_axis'):
            a.pop(k, None)
        if how in ('units', 'both'):
            a['units'] = rng.choice({'x': ['degrees_east', 'degree_E', 'Degrees_East', 'degrees_E', 'degreeE'],
                                     'y': ['degrees_north', 'degree_N', 'DEGREES_NORTH', 'degrees_N', 'degreeN']}[ax])
        if how in ('cart', 'both'):
            a['cartesian_axis'] = ax.upper() if rng.random() < 0.7 else ax
            if how == 'cart' and rng.random() < 0.6:
                a['units'] = rng.choice(['none', 'm', '', 'meters', 'u' * rng.choice([20, 300, 1000])]) or 'none'
        if how in ('opt', 'bare'):
            (optX if ax == 'x' else optY).append(d)
        if how == 'bare':
            coordless.append(d)
        if ax is None and has and rng.random() < 0.7:
            a['units'] = rng.choice(['m', 'hPa', 'degrees', '1'])
            if rng.random() < 0.5:
                a['cartesian_axis'] = 'Z'
        if has:
            V.append((d, rng.choice(['float', 'double', 'int']), (d,), a))
    xs = [d for d in f.dims if axes.get(d) == 'x']
    ys = [d for d in f.dims if axes.get(d) == 'y']
    for i in range(g['nvars']):
        x, y = rng.choice(xs), rng.choice(ys)
        sh = rng.choice([(), (x,), (y,), (y, x), (y, x), (x, y), ('z', y, x), ('z',), ('z', 'nv'), ('nv', 'z', y, x), (y, 'z', x),
                         ('nv', y), (x, 'nv'), (y, x, 'nv'), (y, x, 'z', 'nv'), ('lev', 'nv', y, x)])
        if g['rec'] and rng.random() < 0.6:
            sh = ('time',) + sh
        nm = 'v%d' % i
        if g['longname']:
            nm += '_' + 'n' * rng.choice([100, 200, 250, 252])
        V.append((nm, rng.choice(decomp.TYPES), sh, decomp.randatts(rng, nr)))
    rng.shuffle(V)
    for n, t, dm, a in V:
        v = nc.V(t, dm, a)
        shape = tuple(f.dims[d] for d in dm)
        v.data = nc.randdata(nr, t, shape) if n not in f.dims else (np.arange(shape[0]) * 2 + 1).astype(nc.TYPES[t])
        if n not in f.dims and t != 'char' and rng.random() < 0.3:
            v.atts['missing_value'] = np.asarray(rng.choice([-9, 100]), nc.TYPES[t]).reshape(1)
        f.vars[n] = v
    f.atts = decomp.randatts(rng, nr)
    if 'filename' not in f.atts and rng.random() < 0.5:
        f.atts['filename'] = 'in.nc'
    return f, axes, optX, optY, coordless


def run_case(g, c):
    f, axes, optX, optY, coordless = build(g)
    indir = c.dir
    name = 'in.nc' if not g['longname'] else 'i' * 200 + '.nc'
    if g['path']:
        indir = os.path.join(c.dir, 'deep', 'p' * 100)
        os.makedirs(indir)
    src = os.path.join(indir, name)
    nc.write(src, f)
    src_bytes = open(src, 'rb').read()
    arg = name if not g['path'] else os.path.relpath(src, c.dir)
    a = ['-x', g['npx'], '-y', g['npy']]
    rng = random.Random(g['seed'] + 1)
    extra = []
    if optX:
        extra.append(['-X', ','.join(optX)])
    if optY:
        extra.append(['-Y', ','.join(optY)])
    if g['start']:
        extra.append(['-s', g['start']])
    if g['width'] != 4:
        extra.append(['-w', g['width']])
    if g['prefix']:
        os.makedirs(os.path.join(c.dir, 'sub'))
        extra.append(['-p', g['prefix']])
    if g['verbose']:
        extra.append(['-V'])
    if g['dry']:
        extra.append(['-n'])
    io = g.get('io')
    if io:
        extra.append(['-i', io[0], '-j', io[1]])
    rng.shuffle(extra)
    for e in extra:
        a += e
    outd = os.path.join(c.dir, 'sub') if g['prefix'] else c.dir
    pre = set(os.listdir(outd))
    r = c.tool('mppncscatter', a + [arg])
    npx, npy = io if io else (g['npx'], g['npy'])
    c.nontrivial = npx * npy > 1 and any(set(v.dims) & set(axes) for v in f.vars.values())
    c.sig = [g['seed']]
    c.check(open(src, 'rb').read() == src_bytes, 'scatter:input-changed', 'input file modified')
    if c.viol:
        return
    new = sorted(set(os.listdir(outd)) - pre)
    names = ['%s.%0*d' % (name, g['width'], g['start'] + k) for k in range(npx * npy)]
    if g['dry']:
        c.check(new == [], 'scatter:dry-run-wrote', new)
        return
    c.check(new == sorted(names), 'scatter:files', lambda: 'files %s expected %s' % (new[:5], names[:5]))
    if c.viol:
        return
    P = [nc.read(os.path.join(outd, n)) for n in names]
    # the extents, from the piece dimensions
    off = {}
    for d, ax in axes.items():
        k = npx if ax == 'x' else npy
        lens = [P[i if ax == 'x' else i * npx].dims.get(d, -1) for i in range(k)]
        c.check(sum(lens) == f.dims[d] and min(lens) >= 1, 'scatter:cover', '%s: pieces %s do not tile %d' % (d, lens, f.dims[d]))
        if not io:
            c.check(max(lens) - min(lens) <= 2, 'scatter:uneven', '%s: %s' % (d, lens))
        off[d] = [sum(lens[:i]) for i in range(k)]
        for py in range(npy):
            for px in range(npx):
                i = px if ax == 'x' else py
                c.check(P[py * npx + px].dims.get(d) == lens[i], 'scatter:ragged', d)
    if io and not c.viol:
        # an io layout is made of whole compute divisions
        d2 = os.path.join(c.dir, 'full')
        os.mkdir(d2)
        b = []
        for k, v in zip(a[::1], a[1:] + [None]):
            if k in ('-X', '-Y'):
                b += [k, v]
        c.tool('mppncscatter', ['-x', g['npx'], '-y', g['npy']] + b + [src], cwd=d2)
        if not c.viol:
            for d, ax in axes.items():
                full = [nc.read(os.path.join(d2, '%s.%04d' % (name, i if ax == 'x' else i * g['npx']))).dims[d] for i in range(g['npx'] if ax == 'x' else g['npy'])]
                step = len(full) // len(off[d])
                want = [sum(full[:i * step]) for i in range(len(off[d]))]
                c.check(off[d] == want, 'scatter:io-layout', '%s: io pieces start at %s, compute divisions %s' % (d, off[d], full))
    if c.viol:
        return
    fmt = {'NETCDF3_64BIT_DATA': None}.get(f.fmt, f.fmt)
    for py in range(npy):
        for px in range(npx):
            e = nc.F(f.fmt)
            e.rec, e.atts = f.rec, dict(f.atts)
            e.atts['NumFilesInSet'] = np.int32(npx * npy)
            sl = {}
            for d, n in f.dims.items():
                if d in axes:
                    o = off[d][px if axes[d] == 'x' else py]
                    n = P[py * npx + px].dims[d]
                    sl[d] = slice(o, o + n)
                else:
                    sl[d] = slice(None)
                e.dims[d] = n
            for n, v in f.vars.items():
                w = nc.V(v.type, v.dims, dict(v.atts), v.data[tuple(sl[d] for d in v.dims)] if v.dims else v.data)
                if n in axes:
                    w.atts['domain_decomposition'] = np.asarray([1, f.dims[n], sl[n].start + 1, sl[n].stop], 'i4')
                e.vars[n] = w
            decomp.compare(P[py * npx + px], e, c, key='scatter', fmt=fmt)
    if c.viol or coordless:
        return
    # converse: combine
    comb = os.path.join(c.dir, 'comb')
    os.mkdir(comb)
    cn = ['p.%04d' % k for k in range(len(names))]
    for n, m in zip(names, cn):
        os.rename(os.path.join(outd, n), os.path.join(comb, m))
    c.tool('mppnccombine', ['back.nc'] + cn, cwd=comb)
    if c.viol:
        return
    exp = nc.F(f.fmt)
    exp.dims, exp.rec, exp.atts, exp.vars = f.dims, f.rec, f.atts, f.vars
    decomp.compare(nc.read(os.path.join(comb, 'back.nc')), exp, c, 'back.nc', key='roundtrip')
    c.count('round_trips')
