"""combine-ncc: the union of the pieces, every point once, in index order."""
import os, random
import numpy as np
from vlib import nc, decomp, land

ID = 'C04'
TOOLS = ['combine-ncc', 'is-compressed']
MIN = 40
RULE = ('random compressed-by-gathering sets (layout, tiles, cohorts, empty PEs with an invalid entry, points in any order, pieces in any '
        'order, 4 formats, 3 types, 0-3 extra dims, records) combined by the ASan/bounds-checked tool; output compared bit for bit with '
        'the global file the set was cut from (index ascending, invalid entries gone, nothing lost or doubled). Non-trivial: 2 or more '
        'pieces and at least one point; distinct by configuration.')
ASSUMPTIONS = ['uncompressed variables and attributes agree in all pieces, as the model writes them']


def gen(rng, tier):
    return [dict(land.rand_cfg(rng), perm=rng.randrange(1 << 20), ptorder=rng.choice(['asc', 'shuffled']), exist=rng.random() < 0.1,
                 v=rng.random() < 0.1) for _ in range(900 if tier == 'quick' else 9000)]


def run_case(g, c):
    f, idx, shapes = land.build(g)
    ps = land.pieces(g, f, idx, g['ptorder'])
    names = []
    for i, p in enumerate(ps):
        n = 'land.res.nc.%04d' % i
        nc.write(os.path.join(c.dir, n), p)
        names.append(n)
    r = c.tool('is-compressed', [names[0]])
    random.Random(g['perm']).shuffle(names)
    if g['exist']:
        open(os.path.join(c.dir, 'land.res.nc'), 'w').write('old')
    before = {n: open(os.path.join(c.dir, n), 'rb').read() for n in names}
    c.tool('combine-ncc', (['-v'] if g['v'] else []) + names + ['land.res.nc'])
    c.nontrivial = len(ps) > 1 and all(len(v) for v in idx.values())
    c.sig = [g['seed'], g['perm']]
    for n, b in before.items():
        c.check(open(os.path.join(c.dir, n), 'rb').read() == b, 'ncc:input-changed', n)
    if c.viol:
        return
    got = nc.read(os.path.join(c.dir, 'land.res.nc'))
    # a dimension without points stays with one unset entry
    empty = [d for d in idx if not len(idx[d])]
    exp = nc.F(f.fmt)
    exp.rec, exp.atts = f.rec, f.atts
    exp.dims = {d: (max(n, 1) if d in idx else n) for d, n in f.dims.items()}
    exp.vars = {n: v for n, v in f.vars.items() if not set(v.dims) & set(empty)}
    for n in list(got.vars):
        if set(got.vars[n].dims) & set(empty):
            if n in idx:
                c.check((got.vars[n].data < 0).all(), 'ncc:phantom', 'index %s of a set without points' % got.vars[n].data)
            del got.vars[n]
    decomp.compare(got, exp, c, key='ncc', fmt=f.fmt)
