"""fregrid: bilinear interpolation from the cubed sphere."""
import os, random
import numpy as np
from vlib import nc, freg, cubed

ID = 'C30'
TOOLS = ['make_hgrid', 'make_solo_mosaic', 'fregrid']
MIN = 100
RULE = ('scalar fields (float, double, short; records, levels, missing points) on plain, shifted and stretched cubed spheres of 2x2 to 12x12 cells are interpolated by fregrid --interp_method bilinear onto global and regional lon-lat grids, with and without '
        '--center_y, --finer_step 1 and 2, --fill_missing and stored weights; every value is compared with the weighted mean of the four cell centres (three at the corners of the cube) around the target point, the mean of such values over the finer points '
        'around it, and the axes with the ones asked for. Non-trivial: values were compared; distinct by case.')
ASSUMPTIONS = ['a point on the border of two quadrangles of cell centres may take the weights of either', 'end rows of a refined target take the finer value at the same point, as the code documents for poles']


def gen(rng, tier):
    cs = []
    for i in range(220 if tier == 'quick' else 2500):
        g = {'seed': rng.randrange(1 << 30), 'src': {'kind': 'cube', 'seed': rng.randrange(1 << 30), 'n': rng.choice([2, 3, 4, 4, 6, 8, 12]), 'shift': rng.choice([None, None, 18, 9.5, 0]),
                                                     'st': rng.choice([None, None, None, [2.0, 350.0, -90.0], [1.5, 20.0, 90.0], [3.0, 100.0, -90.0], [1.2, 200.0, 40.0]])}}
        if g['src']['st']:
            # cells less than 60 degrees wide
            g['src']['n'] = max(g['src']['n'], 8 if g['src']['st'][0] > 2 else 6)
        g['fs'] = rng.choice([0, 0, 0, 1, 1, 2])
        g['cy'] = rng.random() < 0.4
        g['nlon'], g['nlat'] = rng.randint(3, 20), rng.randint(3, 14)
        if rng.random() < 0.5:
            g['box'] = [0, 360, -90, 90]
        else:
            lb = rng.choice([0, -180, -20, 350, 170, -280, round(rng.uniform(-180, 300), 2)])
            a, b = sorted([rng.choice([-90, 90, -89, 30, 0, -37.5, round(rng.uniform(-89, 89), 2)]) for _ in range(2)])
            if b - a < 5:
                a, b = (a, a + 12) if a < 70 else (a - 30, b)
            g['box'] = [lb, lb + rng.choice([360, 360, 40, 100.5, 7]), a, b]
        if rng.random() < 0.03:
            # fine latitudes: the search of the cells around a point is local
            g.update(fs=0, nlon=72, nlat=rng.randint(91, 121), box=rng.choice([[-180, 180, -90, 90], [-90, 270, -60, 75], [0, 360, -90, 90]]))
            g['src'].update(n=24, st=None)
        g['nt'] = rng.choice([0, 1, 2])
        g['nz'] = rng.choice([0, 0, 1, 3])
        g['fill'] = rng.random() < 0.3
        g['mode'] = rng.choice(['direct', 'direct', 'both', 'reuse'])
        fs = []
        for k in range(rng.choice([1, 1, 2])):
            d = (['t'] if g['nt'] and rng.random() < 0.8 else []) + (['z'] if g['nz'] and rng.random() < 0.8 else [])
            fs.append({'name': ['temp', 'q2'][k], 'type': rng.choice(['float', 'double', 'double']), 'd': d, 'miss': rng.choice([None, None, 'missing_value', '_FillValue']), 'val': rng.choice(['rand', 'rand', 'const', 'smooth'])})
        if rng.random() < 0.35:
            # the last field is a vector
            g['vec'] = True
            fs[-1].update(name='ucomp', val=rng.choice(['rand', 'rot']))
            if rng.random() < 0.5:
                fs = fs[-1:]
        g['f'] = fs
        cs.append(g)
    return cs


def axes(g):
    """target points and the points of the refined grid (degrees)"""
    lb, le, ab, ae = g['box']
    nx, ny, s = g['nlon'], g['nlat'], 2 ** g['fs']
    dx = (le - lb) / nx
    x = lb + (np.arange(nx) + 0.5) * dx
    dy = (ae - ab) / (ny if g['cy'] else ny - 1)
    y0 = ab + (0.5 * dy if g['cy'] else 0)
    y = y0 + np.arange(ny) * dy
    return x, y, x[0] + np.arange(nx * s) * dx / s, y0 + np.arange(s * (ny - 1) + 1) * dy / s


def east(G):
    """unit vectors to the east and to the north at the cell centres"""
    L = [np.radians(z) for z in (np.stack([G.centers(t)[0] for t in range(6)]), np.stack([G.centers(t)[1] for t in range(6)]))]
    x, y = L
    return np.stack([-np.sin(x), np.cos(x), 0 * x], -1), np.stack([-np.sin(y) * np.cos(x), -np.sin(y) * np.sin(x), np.cos(y)], -1)


def quads(G):
    """(vertices [4,3], cells [4]) of every quadrangle of neighbouring cell centres, three points at the corners of the cube"""
    K = cubed.Cubed(G)
    n = K.T[0].shape[0]
    P = K.halo(K.T)
    I = K.halo([np.arange(n * n, dtype=float).reshape(n, n) + t * n * n for t in range(6)])
    v, c = [], []
    for t in range(6):
        for j in range(n + 1):
            for i in range(n + 1):
                # south-west, north-west, north-east, south-east
                q = [(j, i), (j + 1, i), (j + 1, i + 1), (j, i + 1)]
                q = [p for p in q if not np.isnan(I[t][p])]
                v.append([P[t][p] for p in q])
                c.append([int(I[t][p]) for p in q])
    return v, c


def d2s(a, b, p):
    """distance of p from the great circle through a and b"""
    n = np.cross(a, b)
    n /= np.linalg.norm(n)
    return np.arcsin(np.clip(np.abs(p @ n), 0, 1))


def candidates(G, pts):
    """for every point the list of (cells, weights) it may take"""
    V, C = quads(G)
    out = [[] for _ in pts]
    seen = [set() for _ in pts]
    for v, c in zip(V, C):
        v = np.array(v)
        m = len(c)
        ctr = v.sum(0)
        ctr /= np.linalg.norm(ctr)
        ins = pts @ ctr > 0.1
        for k in range(m):
            nn = np.cross(v[k], v[(k + 1) % m])
            nn /= np.linalg.norm(nn)
            sg = np.sign(nn @ ctr)
            ins &= sg * (pts @ nn) > -1e-7
        for p in np.nonzero(ins)[0]:
            key = tuple(sorted(c))
            if key in seen[p]:
                continue
            seen[p].add(key)
            P = pts[p]
            d = [d2s(v[k], v[(k + 1) % m], P) for k in range(m)]
            if m == 4:
                # side k joins vertices k and k+1; a vertex is weighted with its distance from the two sides that do not touch it
                w = np.array([d[1] * d[2], d[2] * d[3], d[3] * d[0], d[0] * d[1]])
            else:
                w = np.array([d[1], d[2], d[0]])
            out[p].append((c, w / w.sum()))
    return out


def run_case(g, c):
    rng = np.random.default_rng(g['seed'])
    G = freg.make(g['src'], c, 'src')
    n = g['src']['n']
    MV = -1e10
    data = {}
    for f in g['f']:
        shp = ([g['nt']] if 't' in f['d'] else []) + ([g['nz']] if 'z' in f['d'] else []) + [6, n, n]
        if f['val'] == 'const':
            a = np.broadcast_to(rng.uniform(-100, 100, shp[:-3] + [1, 1, 1]), shp).copy()
        elif f['val'] == 'smooth':
            P = np.stack([cubed.xyz(*G.centers(t)) for t in range(6)])
            a = np.broadcast_to(P @ rng.uniform(-5, 5, 3), shp) * rng.uniform(0.5, 2, shp[:-3] + [1, 1, 1])
        else:
            a = rng.uniform(-50, 250, shp)
        if f['miss']:
            a = np.where(rng.random(shp) < rng.choice([0.02, 0.15]), MV, a)
        a = a.astype('f4' if f['type'] == 'float' else 'f8')
        data[f['name']] = a
    names = [f['name'] for f in g['f']]
    if g.get('vec'):
        f = g['f'][-1]
        names.append('vcomp')
        a = data['ucomp']
        E, N = east(G)
        b = np.where(a == a.dtype.type(MV), MV, rng.uniform(-50, 250, a.shape))
        if f['miss']:
            b = np.where(rng.random(a.shape) < 0.05, MV, b)
        if f['val'] == 'rot':
            # solid rotation
            P = np.stack([cubed.xyz(*G.centers(t)) for t in range(6)])
            V = np.cross(rng.uniform(-5, 5, 3), P)
            a = np.where(a == a.dtype.type(MV), MV, (V * E).sum(-1))
            b = np.where(b == MV, MV, (V * N).sum(-1))
        data['ucomp'], data['vcomp'] = (z.astype('f4' if f['type'] == 'float' else 'f8') for z in (a, b))
        g = dict(g, f=g['f'] + [dict(f, name='vcomp')])
    for t in range(6):
        h = nc.F('NETCDF3_64BIT')
        h.dims = {'time': None, 'pfull': max(g['nz'], 1), 'grid_yt': n, 'grid_xt': n}
        h.vars['grid_xt'] = nc.V('double', ('grid_xt',), {'units': 'degrees_E', 'cartesian_axis': 'X'}, np.arange(1., n + 1))
        h.vars['grid_yt'] = nc.V('double', ('grid_yt',), {'units': 'degrees_N', 'cartesian_axis': 'Y'}, np.arange(1., n + 1))
        h.vars['pfull'] = nc.V('double', ('pfull',), {'units': 'mb', 'cartesian_axis': 'Z'}, 10. * np.arange(1, max(g['nz'], 1) + 1))
        h.vars['time'] = nc.V('double', ('time',), {'units': 'days since 1900-01-01', 'cartesian_axis': 'T'}, np.arange(g['nt']) * 3 + 0.5)
        for f in g['f']:
            at = {'units': 'K', 'long_name': f['name'] + ' long'}
            if f['miss']:
                at[f['miss']] = (np.float32 if f['type'] == 'float' else np.float64)(MV)
            d = tuple((['time'] if 't' in f['d'] else []) + (['pfull'] if 'z' in f['d'] else []) + ['grid_yt', 'grid_xt'])
            h.vars[f['name']] = nc.V(f['type'], d, at, data[f['name']][..., t, :, :])
        nc.write('in.tile%d.nc' % (t + 1), h)
    lb, le, ab, ae = g['box']
    a = ['--input_mosaic', G.mosaic, '--interp_method', 'bilinear', '--nlon', g['nlon'], '--nlat', g['nlat']]
    if g['box'] != [0, 360, -90, 90]:
        a += ['--lonBegin', lb, '--lonEnd', le, '--latBegin', ab, '--latEnd', ae]
    if g['cy']:
        a.append('--center_y')
    if g['fs']:
        a += ['--finer_step', g['fs']]
    if g['fill']:
        a.append('--fill_missing')
    b = ['--input_file', 'in', '--output_file', 'out.nc']
    if [k for k in names if k[1:] != 'comp']:
        b += ['--scalar_field', ','.join(k for k in names if k[1:] != 'comp')]
    if g.get('vec'):
        b += ['--u_field', 'ucomp', '--v_field', 'vcomp']
    if g['mode'] == 'reuse':
        r = c.tool('fregrid', a + ['--remap_file', 'w.nc'])
        if r.rc != 0:
            return
        c.check(os.path.exists('w.nc'), 'weights', 'no weight file')
    r = c.tool('fregrid', a + b + (['--remap_file', 'w.nc'] if g['mode'] != 'direct' else []))
    if r.rc != 0:
        return
    o = nc.read('out.nc')
    x, y, xf, yf = axes(g)
    X, Y = np.meshgrid(xf, yf)
    pts = cubed.xyz(X, Y).reshape(-1, 3)
    cand = candidates(G, pts)
    if not c.check(all(cand), 'oracle', 'no quadrangle around a point'):
        return
    for ax, ref in (('grid_xt', x), ('grid_yt', y)):
        if not c.check(ax in o.vars and o.vars[ax].data.shape == ref.shape, 'axis', lambda: '%s %s' % (ax, {k: v.data.shape for k, v in o.vars.items()})):
            return
        c.check(np.abs(o.vars[ax].data - ref).max() < 1e-9, 'axis', lambda: '%s %s %s' % (ax, o.vars[ax].data, ref))
    for ax in ('pfull', 'time'):
        if any(('z' if ax == 'pfull' else 't') in f['d'] for f in g['f']):
            c.check(ax in o.vars and np.array_equal(o.vars[ax].data, h.vars[ax].data), 'axis', ax)
    for f in g['f']:
        A = data[f['name']].astype('f8')
        ov = o.vars.get(f['name'])
        shp = A.shape[:-3] + (g['nlat'], g['nlon'])
        if not c.check(ov is not None and ov.data.shape == shp, 'shape', lambda: '%s' % (ov and ov.data.shape,)):
            continue
        c.check(ov.type == f['type'] and ov.atts.get('units') == 'K' and ov.atts.get('long_name') == f['name'] + ' long', 'attributes', lambda: str((ov.type, ov.atts)))
        if f['miss']:
            c.check(ov.atts.get(f['miss']) == (np.float32 if f['type'] == 'float' else np.float64)(MV), 'attributes', lambda: str(ov.atts))
        mv = float(np.float32(MV)) if f['type'] == 'float' else MV
        A = A.reshape(-1, 6 * n * n)
        if g.get('vec') and f['name'][1:] == 'comp':
            U, W = (data[k].astype('f8').reshape(A.shape) for k in ('ucomp', 'vcomp'))
            E, N = (z.reshape(-1, 3) for z in east(G))
            x_, y_ = np.radians(X.ravel()), np.radians(Y.ravel())
            D = np.stack([-np.sin(x_), np.cos(x_), 0 * x_] if f['name'] == 'ucomp' else [-np.sin(y_) * np.cos(x_), -np.sin(y_) * np.sin(x_), np.cos(y_)], -1)
        else:
            U = None
        O = ov.data.astype('f8').reshape(-1, g['nlat'], g['nlon'])
        for l in range(A.shape[0]):
            if U is not None:
                m_ = (U[l] == mv) | (W[l] == mv) if f['miss'] else np.zeros(6 * n * n, bool)
                V_ = U[l][:, None] * E + W[l][:, None] * N
                fun = lambda p, ids: (V_[ids] @ D[p], m_[ids])
                sc = 2 * np.abs(V_[~m_]).max() if (~m_).any() else 1
            else:
                fun = lambda p, ids: (A[l][ids], A[l][ids] == mv if f['miss'] else np.zeros(len(ids), bool))
                ok = A[l][A[l] != mv] if f['miss'] else A[l]
                sc = max(np.ptp(ok), 1e-3 * np.abs(ok).max()) if ok.size else 1
            one(g, c, f, fun, sc, A[l], O[l], cand, len(yf), len(xf), yf, mv if f['miss'] else None, '%s[%d]' % (f['name'], l))
    c.nontrivial = True
    c.sig = repr(sorted((k, repr(v)) for k, v in g.items() if k != 'seed'))


def one(g, c, f, fun, sc, A, O, cand, nyf, nxf, yf, mv, what):
    lo, hi = np.empty(len(cand)), np.empty(len(cand))
    mayv, maym = np.zeros(len(cand), bool), np.zeros(len(cand), bool)
    for p, cs in enumerate(cand):
        L, H = np.inf, -np.inf
        for ids, w in cs:
            d, dm = fun(p, ids)
            if dm.any():
                if not g['fill']:
                    maym[p] = True
                    continue
                for k in np.nonzero(w >= w.max() - 1e-6)[0]:
                    if dm[k]:
                        maym[p] = True
                    else:
                        mayv[p] = True
                        L, H = min(L, d[k]), max(H, d[k])
            else:
                v = float(d @ w)
                mayv[p] = True
                L, H = min(L, v), max(H, v)
        lo[p], hi[p] = L, H
    sh = (nyf, nxf)
    lo, hi, mayv, maym = lo.reshape(sh), hi.reshape(sh), mayv.reshape(sh), maym.reshape(sh)
    lat = np.radians(yf)
    for s in range(g['fs']):
        lo, hi, mayv, maym = coarse(lo, hi, mayv, maym, lat)
        lat = np.linspace(-np.pi / 2, np.pi / 2, lo.shape[0])
    ok = A if mv is None else A[A != mv]
    tol = 2e-6 * sc + (1e-6 * np.abs(ok).max() if f['type'] == 'float' and ok.size else 0)
    if f['val'] == 'const':
        tol = (1e-6 if f['type'] == 'float' else 1e-12) * (np.abs(ok).max() if ok.size else 1)
    m = np.zeros(O.shape, bool) if mv is None else O == mv
    bad = m & ~maym
    c.check(not bad.any(), 'missing', lambda: '%s: missing at %s where the data around it are valid' % (what, np.argwhere(bad)[:4].tolist()))
    bad2 = ~m & ~mayv
    c.check(not bad2.any(), 'value-missing', lambda: '%s: value at %s where it should be missing' % (what, [(i, O[tuple(i)]) for i in np.argwhere(bad2)[:4].tolist()]))
    k = ~m & mayv
    e = np.where(k, np.maximum(lo - O, O - hi), 0)
    j = np.unravel_index(np.argmax(e), e.shape)
    c.check(e.max() <= tol, 'value', lambda: '%s%s: %.9g not in %.9g..%.9g (scale %g; %d points)' % (what, j, O[j], lo[j], hi[j], sc, (e > tol).sum()))
    c.count('points', O.size)
    c.count('missing', int(m.sum()))


def coarse(lo, hi, mv, mm, lat):
    """half the resolution: 1-2-1 means, weighted in latitude with the cosine (none at the end rows), end rows copied"""
    ny, nx = lo.shape
    Y, X = (ny - 1) // 2 + 1, nx // 2
    cs = np.cos(lat)
    cs[0] = cs[-1] = 0
    def red(a, w):
        i = np.arange(0, nx, 2)
        t = 0.25 * (a[:, (i - 1) % nx] + 2 * a[:, i] + a[:, (i + 1) % nx])
        r = np.empty((Y, X))
        r[0], r[-1] = a[0, i], a[-1, i]
        for J in range(1, Y - 1):
            j = 2 * J
            r[J] = (t[j] * cs[j] + 0.5 * (t[j - 1] * cs[j - 1] + t[j + 1] * cs[j + 1])) / (cs[j] + 0.5 * (cs[j - 1] + cs[j + 1]))
        return r
    with np.errstate(invalid='ignore'):
        L, H = red(lo, 0), red(hi, 0)
    def anyof(a):
        i = np.arange(0, nx, 2)
        t = a[:, (i - 1) % nx] | a[:, i] | a[:, (i + 1) % nx]
        r = np.empty((Y, X), bool)
        r[0], r[-1] = a[0, i], a[-1, i]
        for J in range(1, Y - 1):
            r[J] = t[2 * J - 1] | t[2 * J] | t[2 * J + 1]
        return r
    return L, H, ~anyof(~mv), anyof(mm)
