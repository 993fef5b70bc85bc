"""scatter-ncc: pieces partition the points by domain; combine-ncc gives the file back."""
import os
import numpy as np
from vlib import nc, decomp, land

ID = 'C05'
TOOLS = ['scatter-ncc', 'combine-ncc']
MIN = 40
RULE = ('random compressed-by-gathering restarts scattered by the ASan/bounds-checked tool over random io layouts; every piece must hold '
        'exactly the points of its rectangle with the values of the input, every point must be in one piece, empty rectangles hold no '
        'valid point; combine-ncc of the pieces must be the input bit for bit. Non-trivial: 2 or more pieces and a point; distinct by '
        'configuration.')
ASSUMPTIONS = ['variables have the shapes the tool documents: compressed dimension fastest, zfull, time']


def gen(rng, tier):
    return [land.rand_cfg(rng, True) for _ in range(900 if tier == 'quick' else 9000)]


def run_case(g, c):
    f, idx, shapes = land.build(g)
    if any(len(v) == 0 for v in idx.values()):
        # a file without points has one invalid entry per compressed dimension
        f2 = land.pieces(dict(g, npx=1, npy=1), f, idx)[0]
    else:
        f2 = f
    src = os.path.join(c.dir, 'land.nc')
    nc.write(src, f2)
    b0 = open(src, 'rb').read()
    c.tool('scatter-ncc', ['-i', g['npx'], '-j', g['npy'], 'land.nc'])
    np_ = g['npx'] * g['npy']
    c.nontrivial = np_ > 1 and all(len(v) for v in idx.values())
    c.sig = [g['seed']]
    if c.viol:
        return
    c.check(open(src, 'rb').read() == b0, 'sncc:input-changed', '')
    names = ['land.nc.%04d' % i for i in range(np_)]
    have = sorted(n for n in os.listdir(c.dir) if n.startswith('land.nc.'))
    c.check(have == names, 'sncc:files', '%s vs %s' % (have, names))
    if c.viol:
        return
    total = {d: 0 for d in idx}
    for p, n in enumerate(names):
        q = nc.read(os.path.join(c.dir, n))
        for d in idx:
            own = idx[d][land.owner(g, d, idx[d]) == p] if len(idx[d]) else idx[d]
            got = q.vars[d].data
            good = got[got >= 0]
            total[d] += len(good)
            c.check(sorted(good.tolist()) == sorted(own.tolist()), 'sncc:points', '%s piece %d: %s expected %s' % (d, p, good, own))
            c.check(len(got) == max(1, len(own)), 'sncc:dimlen', '%s piece %d: %d' % (d, p, len(got)))
            if c.viol:
                return
            if len(own) == 0:
                continue
            pos = {int(v): k for k, v in enumerate(idx[d])}
            sel = [pos[int(v)] for v in good]
            for vn, v in f.vars.items():
                if d in v.dims:
                    e = np.take(v.data, sel, axis=v.dims.index(d))
                    c.count('values_compared', e.size)
                    c.check(nc.biteq(q.vars[vn].data, e), 'sncc:data', lambda: '%s piece %d: %s' % (vn, p, nc.diffwhere(q.vars[vn].data, e)))
    for d in idx:
        c.check(total[d] == len(idx[d]), 'sncc:conservation', '%s: %d points of %d' % (d, total[d], len(idx[d])))
    if c.viol:
        return
    c.tool('combine-ncc', names + ['back.nc'])
    if c.viol:
        return
    got = nc.read(os.path.join(c.dir, 'back.nc'))
    empty = [d for d in idx if not len(idx[d])]
    exp = nc.F(f.fmt)
    exp.rec, exp.atts = f.rec, f.atts
    exp.dims = {d: (max(n, 1) if d in idx else n) for d, n in f.dims.items()}
    exp.vars = {n: v for n, v in f.vars.items() if not set(v.dims) & set(empty)}
    for n in list(got.vars):
        if set(got.vars[n].dims) & set(empty):
            del got.vars[n]
    decomp.compare(got, exp, c, key='sncc-roundtrip', fmt=f.fmt)
    c.count('round_trips')
