"""make_hgrid: cubed-sphere grids, stretched, refined and nested."""
import os, random
import numpy as np
from vlib import nc, geo

ID = 'C13'
TOOLS = ['make_hgrid']
MIN = 200
RULE = ('random gnomonic_ed and conformal cubic requests (size, shift, Schmidt and cube transform with random stretch and target, 0-3 nests including nests in nests and rectangular ones, global '
        'refinement, halo output, no_length_angle); vertices are compared with a closed-form construction, neighbouring tiles must share their edges, nests must coincide with their parent, '
        'lengths and areas are recomputed on the sphere and the six tiles must cover it exactly; bad requests must be refused. Non-trivial: six tiles were checked; distinct by case.')
ASSUMPTIONS = ['rotation angles of the six faces are described by the code as a workaround and only checked to be finite']
R = geo.R


def gen(rng, tier):
    cs = []
    for i in range(350 if tier == 'quick' else 4000):
        k = rng.choice(['gnom', 'gnom', 'schmidt', 'schmidt', 'cube', 'nest', 'nest', 'nest', 'gr', 'gr', 'halo', 'conf', 'bad'])
        g = {'kind': k, 'seed': rng.randrange(1 << 30), 'nlon': 2 * rng.choice([2, 3, 4, 5, 6, 8, 10, 12, 15]), 'shift': rng.choice([None, None, 0, 18, 9, 36.5]), 'nola': rng.random() < 0.15,
             'gca': rng.random() < 0.2, 'stretch': rng.choice([1, 1, 1.5, 2, 3, 2.25, 0.5]), 'tgt': [rng.choice([0, 20, 350, 262.4, 180]), rng.choice([-90, -40, 0, 40, 35.4, 10, 90])],
             'tr': None}
        if k == 'schmidt':
            g['tr'] = 'do_schmidt'
        elif k == 'cube':
            g['tr'] = 'do_cube_transform'
        elif k in ('nest', 'gr', 'halo'):
            g['tr'] = rng.choice([None, None, 'do_schmidt', 'do_cube_transform'])
        if k == 'nest':
            g['nlon'] = 2 * rng.choice([8, 10, 12, 15])
            g['halo'] = rng.choice([1, 1, 2])
            sizes = {t: (g['nlon'] // 2, g['nlon'] // 2) for t in range(1, 7)}
            ns = []
            for m in range(rng.choice([1, 2, 2, 3])):
                p = 6 + len(ns) if ns and rng.random() < 0.5 else rng.choice(list(sizes))
                ni, nj = sizes[p]
                h = g['halo']
                if ni - 2 * h < 2 or nj - 2 * h < 2:
                    continue
                i0 = rng.randint(1 + h, ni - h)
                i1 = rng.randint(i0, min(ni - h, i0 + 4))
                j0 = rng.randint(1 + h, nj - h)
                j1 = rng.randint(j0, min(nj - h, j0 + 4))
                r = rng.choice([2, 2, 3, 4])
                ns.append([p, r, i0, i1, j0, j1])
                sizes[6 + len(ns)] = ((i1 - i0 + 1) * r, (j1 - j0 + 1) * r)
            g['nests'] = ns
            g['nh'] = rng.random() < 0.2
            if rng.random() < 0.1 and ns:
                g['out'] = True          # one nest does not fit its parent
        if k == 'gr':
            g['ratio'] = rng.choice([2, 3])
        if k == 'conf':
            g['nratio'] = rng.choice([1, 2, 3])
        cs.append(g)
    return cs


def face(u, t):
    U, V = np.meshgrid(u, u)
    o = np.ones_like(U)
    v = [(o, U, V), (-U, o, V), (-U, -V, o), (-o, -V, -U), (V, -o, -U), (V, U, -o)][t]
    p = np.stack(v, -1)
    return p / np.linalg.norm(p, axis=-1, keepdims=True)


def rotz(p, a):
    c, s = np.cos(a), np.sin(a)
    return np.stack([c * p[..., 0] - s * p[..., 1], s * p[..., 0] + c * p[..., 1], p[..., 2]], -1)


def cube(n, shift, tr, f, lonp, latp):
    al = np.arcsin(1 / np.sqrt(3.0))
    u = np.sqrt(2.0) * np.tan(-al + 2 * al * np.arange(n + 1) / n)
    out = []
    for t in range(6):
        p = face(u, t)
        if not tr:
            if shift is None or shift > 1e-4:
                p = rotz(p, -np.pi / (shift or 18))
        else:
            if tr == 'do_cube_transform':
                p = rotz(p, np.pi)
            # Schmidt: stretch from the south pole, keeping longitude
            s = p[..., 2]
            a, b = 1 + f * f, 1 - f * f
            s2 = (b + a * s) / (a + b * s)
            h = np.sqrt(np.maximum(0, 1 - s2 * s2))
            l = np.hypot(p[..., 0], p[..., 1])
            l = np.where(l == 0, 1, l)
            p = np.stack([p[..., 0] / l * h, p[..., 1] / l * h, s2], -1)
            # send the south pole to the target
            sp, cp = np.sin(latp * geo.D), np.cos(latp * geo.D)
            x = -p[..., 2] * cp + p[..., 0] * sp
            y = -p[..., 1]
            z = -(sp * p[..., 2] + cp * p[..., 0])
            p = rotz(np.stack([x, y, z], -1), lonp * geo.D)
        out.append(p)
    return out


def nrm(p):
    return p / np.linalg.norm(p, axis=-1, keepdims=True)


def slerp(b, p, q):
    b = np.asarray(b)[..., None]
    w = geo.gcdist(p, q)[..., None]
    s = np.sin(w)
    s = np.where(s == 0, 1, s)
    return np.where(w == 0, p, (np.sin((1 - b) * w) * p + np.sin(b * w) * q) / s)


def refine(P, r, i0, i1, j0, j1):
    """nest on parent cells i0..i1, j0..j1 (1 based)"""
    ni, nj = (i1 - i0 + 1) * r, (j1 - j0 + 1) * r
    j, i = np.meshgrid(np.arange(nj + 1), np.arange(ni + 1), indexing='ij')
    jc, ic = j0 - 1 + j // r, i0 - 1 + i // r
    jn, in_ = np.minimum(jc + 1, P.shape[0] - 1), np.minimum(ic + 1, P.shape[1] - 1)
    bj, bi = (j % r) / r, (i % r) / r
    q1 = slerp(bj, P[jc, ic], P[jn, ic])
    q2 = slerp(bj, P[jc, in_], P[jn, in_])
    return slerp(bi, q1, q2)


def sup(P):
    nj, ni = P.shape[0] - 1, P.shape[1] - 1
    S = np.zeros((2 * nj + 1, 2 * ni + 1, 3))
    S[::2, ::2] = P
    S[1::2, ::2] = nrm(P[1:] + P[:-1])
    S[::2, 1::2] = nrm(P[:, 1:] + P[:, :-1])
    S[1::2, 1::2] = nrm(P[1:, 1:] + P[1:, :-1] + P[:-1, 1:] + P[:-1, :-1])
    return S


def area(P):
    a = geo.tri_area(P[:-1, :-1], P[:-1, 1:], P[1:, 1:]) + geo.tri_area(P[:-1, :-1], P[1:, 1:], P[1:, :-1])
    return np.abs(a) * R * R


def edges(S):
    """the four edges of each tile, in the order that makes neighbours equal: (a, b) pairs"""
    n = S[0].shape[0] - 1
    W, E, So, N = (lambda t: S[t][:, 0]), (lambda t: S[t][:, n]), (lambda t: S[t][0]), (lambda t: S[t][n])
    r = lambda a: a[::-1]
    return [('1E-2W', E(0), W(1)), ('1N-3W', r(N(0)), W(2)), ('1W-5N', r(W(0)), N(4)), ('1S-6N', So(0), N(5)), ('2N-3S', N(1), So(2)), ('2E-4S', r(E(1)), So(3)),
            ('2S-6E', r(So(1)), E(5)), ('3E-4W', E(2), W(3)), ('3N-5W', r(N(2)), W(4)), ('4N-5S', N(3), So(4)), ('4E-6S', r(E(3)), So(5)), ('5E-6W', E(4), W(5))]


def halo(S, t):
    """vertices of tile t with one row from each neighbour; corners nan"""
    n = S[0].shape[0] - 1
    H = np.full((n + 3, n + 3, 3), np.nan)
    H[1:-1, 1:-1] = S[t]
    k = np.arange(n + 1)
    if t % 2 == 0:
        H[1:-1, 0] = S[(t - 2) % 6][n - 1, n - k]
        H[1:-1, -1] = S[(t + 1) % 6][k, 1]
        H[0, 1:-1] = S[(t - 1) % 6][n - 1, k]
        H[-1, 1:-1] = S[(t + 2) % 6][n - k, 1]
    else:
        H[1:-1, 0] = S[(t - 1) % 6][k, n - 1]
        H[1:-1, -1] = S[(t + 2) % 6][1, n - k]
        H[0, 1:-1] = S[(t - 2) % 6][n - k, n - 1]
        H[-1, 1:-1] = S[(t + 1) % 6][1, k]
    return H


def run_case(g, c):
    rng = random.Random(g['seed'])
    k, n = g['kind'], g['nlon'] // 2
    c.sig = g
    tr, f, (lonp, latp) = g['tr'], g['stretch'], g['tgt']
    if k == 'conf':
        a = ['--grid_type', 'conformal_cubic_grid', '--nlon', g['nlon'], '--nratio', g['nratio'], '--grid_name', 'g']
    else:
        a = ['--grid_type', 'gnomonic_ed', '--nlon', g['nlon'], '--grid_name', 'g']
        if g['shift'] is not None:
            a += ['--shift_fac', g['shift']]
        if tr:
            a += ['--' + tr, '--stretch_factor', f, '--target_lon', lonp, '--target_lat=%s' % latp]
        if g['gca']:
            a += ['--great_circle_algorithm']
        if g['nola']:
            a += ['--no_length_angle']
    if k == 'bad':
        w = rng.choice(['odd', 'odd', 'oddconf', 'both', 'halo2', 'nest_out', 'stretch', 'angl', 'two'])
        if w == 'odd':
            a[3] = g['nlon'] + 1
        elif w == 'oddconf':
            a = ['--grid_type', 'conformal_cubic_grid', '--nlon', g['nlon'] + 1]
        elif w == 'both':
            a += ['--do_schmidt', '--do_cube_transform', '--stretch_factor', 2, '--target_lon', 0, '--target_lat', 10]
        elif w == 'halo2':
            a += ['--out_halo', 2]
        elif w == 'stretch':
            a += ['--do_schmidt', '--target_lon', 0, '--target_lat', 10]
        elif w == 'angl':
            a[1] = 'gnomonic_dist'
        elif w == 'two':
            a[3] = '%d,%d' % (g['nlon'], g['nlon'])
        elif w == 'nest_out':
            a += ['--nest_grids', 1, '--parent_tile', 2, '--refine_ratio', 2, '--istart_nest', 1, '--iend_nest', 2, '--jstart_nest', 1, '--jend_nest', 2, '--halo', 1]
        c.tool('make_hgrid', a, expect='fail', abort_ok=True)
        c.check(not [x for x in os.listdir('.') if x.endswith('.nc')], 'output-on-error', os.listdir('.'))
        c.count('refusals')
        c.nontrivial = True
        return
    ns = g.get('nests') or []
    if ns:
        if g.get('out'):
            ns[rng.randrange(len(ns))][rng.choice([2, 4])] = 1
        J = lambda q: ','.join(str(q(x)) for x in ns)
        a += ['--nest_grids', len(ns), '--parent_tile', J(lambda x: x[0]), '--refine_ratio', J(lambda x: x[1]), '--istart_nest', J(lambda x: 2 * x[2] - 1), '--iend_nest', J(lambda x: 2 * x[3]),
              '--jstart_nest', J(lambda x: 2 * x[4] - 1), '--jend_nest', J(lambda x: 2 * x[5]), '--halo', g['halo']]
        if g.get('out'):
            c.tool('make_hgrid', a, expect='fail', abort_ok=True)
            c.nontrivial = True
            return
    if k == 'gr':
        a += ['--nest_grids', 1, '--parent_tile', 0, '--refine_ratio', g['ratio']]
    if k == 'halo' or g.get('nh'):
        a += ['--out_halo', 1]
    r = c.tool('make_hgrid', a, timeout=60)
    if r.rc != 0:
        return
    nt = 6 + len(ns)
    want = sorted('g.tile%d.nc' % (t + 1) for t in range(nt))
    if not c.check(sorted(x for x in os.listdir('.') if x.endswith('.nc')) == want, 'files', lambda: os.listdir('.')):
        return
    fs = [nc.read('g.tile%d.nc' % (t + 1)) for t in range(nt)]
    la = not (g['nola'] and k != 'conf')
    names = ['x', 'y', 'area'] + (['dx', 'dy', 'angle_dx'] + (['angle_dy'] if k != 'conf' else []) if la else [])
    d = [{v: np.array(q.vars[v].data, float) for v in names if v in q.vars} for q in fs]
    for t in range(nt):
        if not c.check(all(v in d[t] for v in names) and (la or 'dx' not in fs[t].vars), 'variables', lambda: 'tile %d: %s' % (t + 1, sorted(fs[t].vars))):
            return
        c.check(''.join(x.decode() if isinstance(x, bytes) else str(x) for x in np.ravel(fs[t].vars['tile'].data)).strip('\0 ').startswith('tile%d' % (t + 1)), 'tile-name', '')
    full = d
    if k == 'halo' or g.get('nh'):
        # nests have no neighbours: no halo
        d = [{v: q[v][1:-1, 1:-1] for v in q} for q in full[:6]] + full[6:]
    m = n * g.get('ratio', 1)
    size = [(2 * m, 2 * m)] * 6 + [(2 * (x[5] - x[4] + 1) * x[1], 2 * (x[3] - x[2] + 1) * x[1]) for x in ns]
    for t in range(nt):
        ny, nx = size[t]
        sh = {'x': (ny + 1, nx + 1), 'y': (ny + 1, nx + 1), 'area': (ny, nx), 'dx': (ny + 1, nx), 'dy': (ny, nx + 1), 'angle_dx': (ny + 1, nx + 1), 'angle_dy': (ny + 1, nx + 1)}
        if not c.check(all(d[t][v].shape == sh[v] for v in names), 'shape', lambda: 'tile %d %s' % (t + 1, {v: d[t][v].shape for v in names})):
            return
        c.check(all(np.isfinite(d[t][v]).all() for v in names), 'finite', lambda: 'tile %d %s' % (t + 1, [v for v in names if not np.isfinite(d[t][v]).all()]))
        c.check((np.abs(d[t]['y']) <= 90 + 1e-12).all() and (np.abs(d[t]['x']) <= 360 + 1e-9).all(), 'range', lambda: 'tile %d' % (t + 1))
    c.nontrivial = True
    c.count('tiles', nt)
    c.count('cells', sum(x * y for x, y in size))
    S = [geo.xyz(q['x'], q['y']) for q in d]

    def near(key, A, B, tol, what, pole=False):
        e = np.abs(A - B).max(-1)
        if pole:      # points close to a pole are put on it
            e = np.where((np.hypot(B[..., 0], B[..., 1]) < 5e-4) & (np.hypot(A[..., 0], A[..., 1]) < 1e-9), 0, e)
        return c.check(bool((e <= tol).all()), key, lambda: '%s: off by %.3g at %s' % (what, np.nanmax(e), np.argwhere(~(e <= tol))[:4].tolist()))

    for nm, A, B in edges(S[:6]):
        near('edges', A, B, 1e-8, 'edge ' + nm)
    if k == 'conf':
        for t in range(6):
            w = area(S[t])
            e = np.abs(d[t]['area'] / w - 1).max()
            c.check((d[t]['area'] > 0).all() and e < 0.25, 'conf-area', lambda: 'tile %d area/quad %g' % (t + 1, e))
            for v, s in (('dx', geo.gcdist(S[t][:, 1:], S[t][:, :-1]) * R), ('dy', geo.gcdist(S[t][1:], S[t][:-1]) * R)):
                q = d[t][v] / s
                c.check(q.min() > 0.9 and q.max() < 1.25, 'conf-' + v, lambda: '%g %g' % (q.min(), q.max()))
        tot = sum(q['area'].sum() for q in d)
        c.check(abs(tot / (4 * np.pi * R * R) - 1) < 2e-3, 'total-area', lambda: 'areas of the six tiles add up to %.6g of the sphere' % (tot / (4 * np.pi * R * R)))
        return
    exp = cube(n, g['shift'], tr, f, lonp, latp)
    for t in range(nt):
        P = S[t][::2, ::2]
        if t < 6 and k != 'gr':
            ok = near('vertices', P, exp[t], 1e-9, 'tile %d' % (t + 1), bool(tr))
        elif t < 6:
            near('vertices', P[::g['ratio'], ::g['ratio']], exp[t], 1e-9, 'tile %d coarse points' % (t + 1), bool(tr))
            near('refined', P, refine(P[::g['ratio'], ::g['ratio']], g['ratio'], 1, n, 1, n), 2e-8, 'tile %d' % (t + 1))
        else:
            p, rr, i0, i1, j0, j1 = ns[t - 6]
            near('nest', P, refine(S[p - 1][::2, ::2], rr, i0, i1, j0, j1), 2e-8, 'nest tile %d in %d' % (t + 1, p))
            near('nest-parent', P[::rr, ::rr], S[p - 1][::2, ::2][j0 - 1:j1 + 1, i0 - 1:i1 + 1], 1e-12, 'nest tile %d points shared with %d' % (t + 1, p))
            c.check(nc.text(fs[t].atts.get('nest_grids', '')) == 'TRUE' if hasattr(nc, 'text') else str(fs[t].atts.get('nest_grids')) == 'TRUE', 'nest-attr', '')
            if la:
                c.check((d[t]['angle_dx'] == 0).all() and (d[t]['angle_dy'] == 0).all(), 'nest-angle', '')
        near('midpoints', S[t], sup(P), 1e-9, 'tile %d' % (t + 1))
        w = area(S[t])
        e = np.abs(d[t]['area'] - w)
        c.check((e <= 1e-7 * w + 5e-11 * R * R).all() and (d[t]['area'] > 0).all(), 'area', lambda: 'tile %d: off by %.3g' % (t + 1, (e / w).max()))
        if la:
            for v, s in (('dx', geo.gcdist(S[t][:, 1:], S[t][:, :-1]) * R), ('dy', geo.gcdist(S[t][1:], S[t][:-1]) * R)):
                e = np.abs(d[t][v] - s)
                tol = 1e-7 * s + 1e-8 * R
                if k == 'gr' and v == 'dy' and (not tr or f == 1):
                    tol = 0.03 * s       # the lengths in y are those in x of the mirrored edge
                c.check((e <= tol).all(), v, lambda: 'tile %d: off by %.3g m at %s' % (t + 1, e.max(), np.argwhere(e > tol)[:4].tolist()))
    tot = sum(q['area'].sum() for q in d[:6])
    c.check(abs(tot / (4 * np.pi * R * R) - 1) < 1e-8, 'total-area', lambda: 'areas of the six tiles add up to %.12g of the sphere' % (tot / (4 * np.pi * R * R)))
    if k == 'halo' or g.get('nh'):
        for t in range(6):
            H = halo(S, t)
            h = {v: np.where(q == -9999.0, np.nan, q) for v, q in full[t].items()}
            e = np.abs(geo.xyz(h['x'], h['y']) - H)
            c.check(np.array_equal(np.isnan(h['x']), np.isnan(H[..., 0])) and np.nanmax(e) < 1e-12, 'halo-vertices', lambda: 'tile %d %g' % (t + 1, np.nanmax(e)))
            A = area(H)
            c.check(np.array_equal(np.isnan(h['area']), np.isnan(A)) and np.nanmax(np.abs(h['area'] - A) / A) < 1e-5, 'halo-area', lambda: 'tile %d' % (t + 1))
            if la:
                for v, s in (('dx', geo.gcdist(H[:, 1:], H[:, :-1]) * R), ('dy', geo.gcdist(H[1:], H[:-1]) * R)):
                    c.check(np.array_equal(np.isnan(h[v]), np.isnan(s)) and np.nanmax(np.abs(h[v] - s)) < 1e-6 * R, 'halo-' + v, lambda: 'tile %d' % (t + 1))
