"""Random iceberg restart sets."""
import random
import numpy as np
from . import nc, land


def rand_cfg(rng, nmin=2):
    return {'seed': rng.randrange(1 << 30), 'n': rng.randint(nmin, 7), 'fmt': rng.choice(land.FMTS), 'nvars': rng.randint(1, 6),
            'pempty': rng.choice([0.0, 0.3, 0.7, 1.0]), 'maj': rng.choice([0, 0, 1, 2]), 'min': rng.choice([1, 1, 2, 10])}


def build(g):
    """-> (pieces, expected combined file)"""
    rng = random.Random(g['seed'])
    nr = np.random.default_rng(g['seed'])
    if g['maj']:
        g = dict(g, min=rng.choice([0, 1, 3]))
    cnt = [0 if rng.random() < g['pempty'] else rng.choice([1, 1, 2, 3, 10, 25]) for _ in range(g['n'])]
    vs = []
    for i in range(g['nvars']):
        vs.append(('v%d' % i, rng.choice(['int', 'double', 'double', 'float']), rng.choice([('i',), ('i',), ('i',), ('i', 'k'), ('k',)]), land.atts(rng, nr)))
    nk = rng.randint(1, 3)
    dims = [('i', None), ('k', nk)]
    rng.shuffle(dims)
    static = {n: nc.randdata(nr, t, (nk,)) for n, t, sh, a in vs if sh == ('k',)}
    ps = []
    gat = land.atts(rng, nr)
    for p in range(g['n']):
        f = nc.F(g['fmt'])
        f.rec = 'i'
        for d, n in dims:
            f.dims[d] = cnt[p] if d == 'i' else n
        for n, t, sh, a in vs:
            f.vars[n] = nc.V(t, sh, a, static[n] if sh == ('k',) else nc.randdata(nr, t, tuple(f.dims[d] for d in sh)))
        f.atts = dict(gat)
        f.atts['file_format_major_version'] = np.int32(g['maj'])
        f.atts['file_format_minor_version'] = np.int32(g['min'])
        f.atts['NumFilesInSet'] = np.int32(g['n'])
        ps.append(f)
    e = nc.F(g['fmt'])
    e.rec = 'i'
    for d, n in dims:
        e.dims[d] = sum(cnt) if d == 'i' else n
    for n, t, sh, a in vs:
        e.vars[n] = nc.V(t, sh, a, static[n] if sh == ('k',) else np.concatenate([p.vars[n].data for p in ps]))
    e.atts = {k: v for k, v in ps[0].atts.items() if k != 'NumFilesInSet'}
    return ps, e, cnt


def compare(got, e, c, key):
    """NCO may reorder dimensions and add its own global attributes"""
    used = set(d for v in e.vars.values() for d in v.dims)
    c.check({d: n for d, n in got.dims.items() if d in used} == {d: n for d, n in e.dims.items() if d in used},
            key + ':dims', '%s vs %s' % (got.dims, e.dims))
    c.check(got.rec == 'i' or 'i' not in used, key + ':rec', got.rec)
    c.check(set(got.vars) == set(e.vars), key + ':vars', '%s vs %s' % (set(got.vars), set(e.vars)))
    for n, v in e.vars.items():
        w = got.vars.get(n)
        if w is None:
            continue
        c.check(w.type == v.type and w.dims == v.dims, key + ':vardef', n)
        c.check(set(w.atts) == set(v.atts) and all(nc.atteq(w.atts[k], v.atts[k]) for k in v.atts), key + ':varatts', '%s: %s vs %s' % (n, w.atts, v.atts))
        c.count('values_compared', int(np.size(v.data)))
        c.check(nc.biteq(w.data, v.data), key + ':data', lambda: '%s: %s' % (n, nc.diffwhere(w.data, v.data)))
    for k, a in e.atts.items():
        c.check(k in got.atts and nc.atteq(got.atts[k], a), key + ':gatts', k)
    c.check('NumFilesInSet' not in got.atts, key + ':numfiles', 'NumFilesInSet kept')
