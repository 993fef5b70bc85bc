"""Random compressed-by-gathering (land restart) files, their pieces and the dense reference."""
import random
import numpy as np
from . import nc

FMTS = ['NETCDF3_CLASSIC', 'NETCDF3_64BIT_OFFSET', 'NETCDF4', 'NETCDF4_CLASSIC']
WORDS = ['long_name', 'units', 'note', 'valid_range']


def atts(rng, nr):
    a = {}
    for w in rng.sample(WORDS, rng.randint(0, 3)):
        a[w] = rng.choice([lambda: 'text %d' % rng.randint(0, 99), lambda: np.asarray(nr.standard_normal(2), 'f8'),
                           lambda: np.asarray(nr.integers(-9, 9, 3), 'i4'), lambda: np.asarray(nr.standard_normal(1), 'f4')])()
    return a


def rand_cfg(rng, scatter=False):
    npx, npy = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 1), (1, 4)])
    g = {'seed': rng.randrange(1 << 30), 'fmt': rng.choice(FMTS), 'npx': npx, 'npy': npy,
            'nlon': npx * rng.randint(1, 4), 'nlat': npy * rng.randint(1, 4), 'ntile': rng.randint(1, 4), 'ncoh': rng.randint(1, 3),
            'nz': rng.randint(1, 4), 'rec': rng.random() < 0.6, 'nrec': rng.choice([1, 1, 2, 3]), 'dens': rng.choice([0.0, 0.05, 0.2, 0.5, 1.0]),
            'nvars': rng.randint(1, 7), 'scatter': scatter, 'cohort': rng.random() < 0.5, 'ocean': rng.random() < 0.3,
            'emptyland': rng.random() < 0.4}
    u = rng.random()
    if u < 0.04:
        g['npx'], g['npy'] = rng.choice([(12, 1), (4, 3), (1, 11), (6, 5)])
        g['nlon'], g['nlat'] = g['npx'] * rng.randint(1, 3), g['npy'] * rng.randint(1, 3)
    elif u < 0.08:
        g['nlon'], g['nlat'], g['ntile'] = npx * rng.randint(8, 15), npy * rng.randint(6, 12), rng.randint(3, 8)
    elif u < 0.11:
        g['nz'], g['nrec'], g['ncoh'] = rng.randint(8, 30), rng.randint(4, 12), rng.randint(3, 7)
    elif u < 0.13:
        g['nvars'] = rng.randint(30, 80)
    return g


def build(g):
    """the global compressed file: index sorted ascending, no invalid entries"""
    rng = random.Random(g['seed'])
    nr = np.random.default_rng(g['seed'])
    f = nc.F(g['fmt'])
    nlon, nlat, nt, ncoh = g['nlon'], g['nlat'], g['ntile'], g['ncoh']
    land = nr.random((nt, nlat, nlon)) < g['dens']
    if g['emptyland']:
        land[:, :, : max(1, nlon // g['npx'])] = False
    idx = {'tile_index': np.flatnonzero(land)}
    shapes = {'tile_index': ('tile', 'lat', 'lon')}
    if g['cohort']:
        coh = (nr.random((ncoh, nt, nlat, nlon)) < 0.5) & land[None]
        idx['cohort_index'] = np.flatnonzero(coh)
        shapes['cohort_index'] = ('cohort', 'tile', 'lat', 'lon')
    dims = [('lon', nlon), ('lat', nlat), ('tile', nt), ('zfull', g['nz']), ('tile_index', None)]
    if g['cohort']:
        dims += [('cohort', ncoh), ('cohort_index', None)]
    if not g['scatter']:
        dims += [('band', 2)]
    if g['rec']:
        dims += [('time', g['nrec'])]
        f.rec = 'time'
    rng.shuffle(dims)
    for d, n in dims:
        f.dims[d] = len(idx[d]) if d in idx else n
    V = []
    for d, n in dims:
        if d in idx:
            V.append((d, 'int', (d,)))
        elif d in ('lon', 'lat', 'time') or rng.random() < 0.6:
            V.append((d, rng.choice(['double', 'float', 'int']), (d,)))
    comp = list(idx)
    for i in range(g['nvars']):
        t = rng.choice(['int', 'float', 'double', 'double'])
        k = rng.choice(comp)
        if g['scatter']:
            sh = rng.choice([(k,), (k,), ('zfull', k), ('zfull',), ()])
            if g['rec'] and sh and sh != ('zfull',) and rng.random() < 0.5:
                sh = ('time',) + sh
            if g['rec'] and rng.random() < 0.1:
                sh = ('time',)
        else:
            sh = rng.choice([(k,), (k,), ('zfull', k), ('band', k), ('zfull', 'band', k), (k, 'zfull'), ('zfull',), (), ('lat', 'lon'), ('band', 'zfull')])
            if g['rec'] and rng.random() < 0.5:
                sh = ('time',) + sh
        V.append(('v%d' % i, t, sh))
    rng.shuffle(V)
    for n, t, sh in V:
        v = nc.V(t, sh, atts(rng, nr))
        shape = tuple(f.dims[d] for d in sh)
        if n in idx:
            v.data = idx[n].astype('i4')
            v.atts['compress'] = ' '.join(shapes[n])
        elif n in f.dims:
            v.data = (np.arange(shape[0]) * 3 + 1).astype(nc.TYPES[t])
        else:
            v.data = nc.randdata(nr, t, shape)
            m = np.asarray(rng.choice([-999, 12345, 1]), nc.TYPES[t]).reshape(1)
            if rng.random() < 0.4:
                v.atts['missing_value'] = m
            if rng.random() < 0.3:
                v.atts['_FillValue'] = m[0]
            if g['ocean'] and rng.random() < 0.5 and set(sh) & set(idx):
                v.atts['ocean_fillvalue'] = np.asarray([0], nc.TYPES[t])
        f.vars[n] = v
    f.atts = atts(rng, nr)
    return f, idx, shapes


def owner(g, d, ind):
    """(px,py) of a compressed index"""
    i = ind % g['nlon']
    j = (ind // g['nlon']) % g['nlat']
    return (j // (g['nlat'] // g['npy'])) * g['npx'] + i // (g['nlon'] // g['npx'])


def pieces(g, f, idx, order=None):
    """cut the file as the model would: each PE holds its points in any order, a PE with none a single invalid entry"""
    rng = np.random.default_rng(g['seed'] + 7)
    out = []
    for p in range(g['npx'] * g['npy']):
        q = nc.F(f.fmt)
        q.rec, q.atts = f.rec, dict(f.atts)
        pos, bad = {}, {}
        for d in idx:
            w = np.flatnonzero(owner(g, d, idx[d]) == p) if len(idx[d]) else np.zeros(0, int)
            if order == 'shuffled':
                w = rng.permutation(w)
            bad[d] = len(w) == 0
            pos[d] = w
        for d, n in f.dims.items():
            q.dims[d] = (max(1, len(pos[d])) if d in idx else n)
        for n, v in f.vars.items():
            w = nc.V(v.type, v.dims, v.atts)
            a = v.data
            for ax, d in enumerate(v.dims):
                if d in idx:
                    if bad[d]:
                        sh = list(a.shape)
                        sh[ax] = 1
                        a = np.full(sh, -1 if n in idx else 77, a.dtype)
                    else:
                        a = np.take(a, pos[d], axis=ax)
            w.data = a
            q.vars[n] = w
        out.append(q)
    return out
