"""make_vgrid: vertical grids."""
import os, math
import numpy as np
from vlib import nc

ID = 'C19'
TOOLS = ['make_vgrid']
MIN = 150
RULE = ('random vertical regions for both algorithms, all centerings, up and down, 2 to 99 bounds; every level compared with an independent monotone cubic (or cosine) construction, and with what the grid promises: bounds at their levels, '
        'strictly monotone, t- or c-cell centering. Wrong counts, centers and non-integral regions must be refused without a file. Non-trivial: levels were compared or a refusal was due; distinct by arguments.')
ASSUMPTIONS = ['bounds strictly monotone']


def fmt(v):
    return ','.join('%.10g' % q for q in v)


def gen(rng, tier):
    cs = []
    for i in range(2500 if tier == 'quick' else 5000):
        k = rng.choice(['cubic', 'cubic', 'cubic', 'legacy', 'legacy', 'bad'])
        nb = rng.choice([2, 3, 3, 4, 5, 6, 8, 12, 99 if rng.random() < 0.3 else 20])
        g = {'kind': k, 'center': rng.choice(['none', 't_cell', 'c_cell', '']), 'name': rng.choice(['', '', 'vg', 'ocean.v', 'x' * 100]), 'seed': rng.randrange(1 << 30)}
        if k == 'legacy':
            g['center'] = rng.choice(['t_cell', 'c_cell'])
            nb = min(nb, 8)
            d = [round(rng.choice([1.0, 10.0, rng.uniform(0.5, 60)]), 3)]
            b = [rng.choice([0.0, 0.0, 10.0, -50.0])]
            for _ in range(nb - 1):
                d.append(d[-1] if rng.random() < 0.4 else round(d[-1] * rng.uniform(0.5, 3), 3))
                b.append(b[-1] + rng.randint(2, 25) * 0.5 * (d[-1] + d[-2]))
            if rng.random() < 0.15:
                q = rng.randrange(1, nb)
                s = 0.37 * 0.5 * (d[q - 1] + d[q])
                b = b[:q] + [z + s for z in b[q:]]
                g['fail'] = True
            g.update(bnds=b, dbnds=d)
        else:
            s = rng.choice([1, 1, 1, -1])
            b = [rng.choice([0.0, 10.0, -5.0, 5500.0 if s < 0 else 0.0])]
            for _ in range(nb - 1):
                b.append(b[-1] + s * round(rng.choice([10.0, 100.0, rng.uniform(0.01, 900)]), rng.choice([0, 2])) or b[-1] + s)
            b = [float('%.10g' % q) for q in b]
            b = [q for n, q in enumerate(b) if n == 0 or q != b[n - 1]]
            if len(b) < 2:
                b.append(b[0] + s)
            nb = len(b)
            z = [rng.choice([2, 2, 4, 6, 10, 20, 2 * rng.randint(1, 30)]) for _ in range(nb - 1)]
            if g['center'] in ('none', ''):
                z = [max(1, q - rng.randint(0, 1)) for q in z]
            g.update(bnds=b, nz=z)
            if k == 'bad':
                how = rng.choice(['nb', 'nz', 'odd', 'center', 'none', 'nbnds1', 'opt', 'both'])
                g.update(how=how, fail=True)
        cs.append(g)
    return cs


def pchip(b, z, refine):
    """Fritsch-Carlson monotone cubic through the bounds at their level numbers"""
    x = np.concatenate([[0], np.cumsum([q // refine for q in z])]).astype(float)
    t = np.arange(x[-1] + 1)
    y = np.array(b)
    if len(b) == 2:
        return y[0] + (y[1] - y[0]) * t / x[-1]
    h, m = np.diff(x), np.diff(y) / np.diff(x)
    d = np.zeros(len(x))
    for k in range(1, len(x) - 1):
        if m[k] * m[k - 1] > 0:
            w1, w2 = 2 * h[k] + h[k - 1], h[k] + 2 * h[k - 1]
            d[k] = (w1 + w2) / (w1 / m[k - 1] + w2 / m[k])

    def end(h0, h1, m0, m1):
        e = ((2 * h0 + h1) * m0 - h0 * m1) / (h0 + h1)
        if e * m0 < 0:
            return 0.0
        if m0 * m1 < 0 and abs(e) > 3 * abs(m0):
            return 3 * m0
        return e
    d[0], d[-1] = end(h[0], h[1], m[0], m[1]), end(h[-1], h[-2], m[-1], m[-2])
    r = np.empty(len(t))
    for i, q in enumerate(t):
        k = min(int(np.searchsorted(x, q, 'right')) - 1, len(h) - 1)
        s = q - x[k]
        c = (3 * m[k] - 2 * d[k] - d[k + 1]) / h[k]
        e = (d[k] - 2 * m[k] + d[k + 1]) / h[k] ** 2
        r[i] = y[k] + s * (d[k] + s * (c + s * e))
    return r


def run_case(g, c):
    b = list(g['bnds'])
    nbnds, z, center = len(b), list(g.get('nz', [])), g['center']
    how = g.get('how', '')
    a = []
    if how == 'nb':
        nbnds += 1 if g['seed'] % 2 else -1
    if how == 'nz':
        z = z + [2] if g['seed'] % 2 else z[:-1] + ([2, 2] if len(z) < 2 else [])
    if how == 'odd':
        center = 't_cell' if g['seed'] % 2 else 'c_cell'
        z[g['seed'] % len(z)] = 3
    if how == 'center':
        center = 'corner'
    if how == 'nbnds1':
        nbnds, b = 1, b[:1]
    if how == 'both':
        b = b[:1] + b
        nbnds = len(b) - 1
    a = ['--nbnds', nbnds, '--bnds', fmt(b)]
    if g['kind'] == 'legacy':
        a += ['--dbnds', fmt(g['dbnds'])]
    elif how != 'none':
        a += ['--nz', ','.join('%d' % q for q in z)]
    if center:
        a += ['--center', center]
    if how == 'opt':
        a += ['--unknown', '1']
    if g['name']:
        a += ['--grid_name', g['name']]
    fn = (g['name'] or 'vertical_grid') + '.nc'
    c.sig = [g['kind'], how, center, b, z]
    c.nontrivial = True
    if g.get('fail'):
        c.tool('make_vgrid', a, expect='fail')
        c.check(not os.path.exists(fn), 'file-after-refusal', '%s written by a refused run: %s' % (fn, a))
        c.count('refusals')
        return
    r = c.tool('make_vgrid', a)
    if r.rc or c.viol:
        return
    f = nc.read(fn)
    v = f.vars['zeta']
    got = v.data
    c.check(v.atts.get('units') == 'meters' and list(v.dims) == ['nzv'], 'header', '%s %s' % (v.dims, v.atts))
    c.check(got.dtype == np.float64, 'type', str(got.dtype))
    sc = max(abs(q) for q in b) + 1
    if g['kind'] == 'legacy':
        d = g['dbnds']
        n = [int(round((b[l + 1] - b[l]) / (0.5 * (d[l] + d[l + 1])))) for l in range(len(b) - 1)]
        lev = [b[0]]
        if not c.check(len(got) == 2 * sum(n) + 1, 'size', '%d levels for %s cells' % (len(got), n)):
            return
        if center == 't_cell':
            for l, m in enumerate(n):
                for i in range(m):
                    w = 0.5 * (d[l] + d[l + 1]) - 0.5 * (d[l + 1] - d[l]) * math.cos(math.pi / m * (i + 0.5))
                    lev += [lev[-1] + w / 2, lev[-1] + w]
        else:
            us = [0.5 * (d[l] + d[l + 1]) - 0.5 * (d[l + 1] - d[l]) * math.cos(math.pi / m * (i + 1)) for l, m in enumerate(n) for i in range(m)]
            lev.append(lev[0] + d[0] / 2)
            for i, w in enumerate(us):
                lev.append(lev[-1] + w / 2)
                if i < len(us) - 1:
                    lev.append(lev[-1] + w / 2)
        exp = np.array(lev)
        at = np.concatenate([[0], 2 * np.cumsum(n)])
        tol = 1e-5 * (b[-1] - b[0])
    else:
        ref = 1 if center in ('none', '') else 2
        t = pchip(b, z, ref)
        if not c.check(len(got) == sum(z) + 1, 'size', '%d levels, %d asked for' % (len(got), sum(z) + 1)):
            return
        if ref == 1:
            exp = t
        else:
            exp = np.empty(2 * len(t) - 1)
            exp[1::2] = 0.5 * (t[1:] + t[:-1])
            if center == 't_cell':
                exp[::2] = t
            else:
                exp[0], exp[-1] = t[0], t[-1]
                exp[2:-1:2] = 0.5 * (exp[1:-2:2] + exp[3::2])
        at = np.concatenate([[0], np.cumsum(z)])
        tol = 1e-9 * sc
        if center == 'c_cell':
            at = at[[0, -1]]
            b = [b[0], b[-1]]
    c.check(np.abs(got - exp).max() <= 1e-9 * sc, 'levels', lambda: 'level %d: %r, expected %r' % (int(np.argmax(np.abs(got - exp))), got[int(np.argmax(np.abs(got - exp)))], exp[int(np.argmax(np.abs(got - exp)))]))
    c.check(np.abs(got[at] - np.array(b)).max() <= tol, 'bounds', lambda: 'bounds %s, grid has %s there' % (b, got[at].tolist()))
    s = np.diff(got) * (1 if b[-1] > b[0] else -1)
    c.check(s.min() > 0, 'monotone', lambda: 'levels not strictly monotone: %s' % got.tolist())
    if center == 't_cell':
        c.check(np.abs(got[1::2] - 0.5 * (got[:-1:2] + got[2::2])).max() <= 1e-10 * sc, 't-cell', 'centres not half way')
    if center == 'c_cell' and len(got) > 3:
        c.check(np.abs(got[2:-1:2] - 0.5 * (got[1:-2:2] + got[3::2])).max() <= 1e-10 * sc, 'c-cell', 'corners not half way between centres')
    c.count('levels', len(got))
