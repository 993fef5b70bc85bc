"""decompress-ncc: every point lands in its cell, every other cell is missing."""
import os, random
import numpy as np
from vlib import nc, decomp, land

ID = 'C06'
TOOLS = ['decompress-ncc', 'combine-ncc']
MIN = 40
RULE = ('random compressed-by-gathering files, whole or in pieces in any order, expanded by the ASan/bounds-checked tool; the dense file is '
        'compared bit for bit with a reference expansion (missing_value, else _FillValue, else the type default, or ocean_fillvalue where '
        'no point is), with and without -m. Non-trivial: has points and empty cells; distinct by configuration.')
ASSUMPTIONS = ['int, float and double variables, as land restarts have']
DEF = {'int': np.int32(-2147483647), 'float': np.float32(9.9692099683868690e+36), 'double': np.float64(9.9692099683868690e+36)}


def gen(rng, tier):
    return [dict(land.rand_cfg(rng), perm=rng.randrange(1 << 20), whole=rng.random() < 0.4, m=rng.random() < 0.4)
            for _ in range(900 if tier == 'quick' else 9000)]


def run_case(g, c):
    f, idx, shapes = land.build(g)
    if any(len(v) == 0 for v in idx.values()):
        g = dict(g, whole=False)
    ps = [f] if g['whole'] else land.pieces(g, f, idx, 'shuffled')
    names = []
    for i, p in enumerate(ps):
        n = 'in.nc.%04d' % i
        nc.write(os.path.join(c.dir, n), p)
        names.append(n)
    random.Random(g['perm']).shuffle(names)
    c.tool('decompress-ncc', (['-m'] if g['m'] else []) + names + ['out.nc'])
    c.nontrivial = any(0 < len(v) < int(np.prod([f.dims[d] for d in shapes[k]])) for k, v in idx.items())
    c.sig = [g['seed'], g['perm']]
    if c.viol:
        return
    got = nc.read(os.path.join(c.dir, 'out.nc'))
    exp = nc.F(f.fmt)
    exp.rec, exp.atts = f.rec, f.atts
    exp.dims = {d: n for d, n in f.dims.items() if d not in idx}
    for n, v in f.vars.items():
        if n in idx:
            continue
        k = [d for d in v.dims if d in idx]
        if not k:
            exp.vars[n] = v
            continue
        k = k[0]
        ax = v.dims.index(k)
        nd = v.dims[:ax] + shapes[k] + v.dims[ax + 1:]
        full = int(np.prod([f.dims[d] for d in shapes[k]]))
        a = dict(v.atts)
        if g['m'] and 'missing_value' not in a and '_FillValue' not in a:
            a['missing_value'] = np.asarray([DEF[v.type]])
        fill = DEF[v.type]
        for w in ('_FillValue', 'missing_value', 'ocean_fillvalue'):
            if w in a:
                fill = np.asarray(a[w]).reshape(-1)[0]
        sh = list(v.data.shape)
        sh[ax] = full
        dense = np.full(sh, fill, v.data.dtype)
        sel = [slice(None)] * len(sh)
        sel[ax] = idx[k]
        dense[tuple(sel)] = v.data
        exp.vars[n] = nc.V(v.type, nd, a, dense.reshape([f.dims[d] for d in nd]))
    decomp.compare(got, exp, c, key='decompress', fmt=f.fmt)
