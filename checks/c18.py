"""make_coupler_mosaic: exchange grids."""
import os, random
import numpy as np
from vlib import nc, grids, freg, xg

ID = 'C18'
TOOLS = ['make_hgrid', 'make_solo_mosaic', 'make_coupler_mosaic', 'make_coupler_mosaic_parallel']
MIN = 60
RULE = ('random atmosphere, land, ocean and wave grids (cubed spheres, lon-lat, tripolar, several tiles, shared mosaics, oceans that end before the south pole) with random depths or ocean fractions; every exchange cell of atmosphere, land, '
        'ocean and waves is compared with the intersection of the cells times the ocean or land fraction, centroid offsets with the moments of the intersections, atmosphere cells with the sum of their exchange cells, and masks, '
        'contacts and the coupler mosaic with them. Non-trivial: exchange cells were compared; distinct by case.')
ASSUMPTIONS = ['cells span less than 170 degrees of longitude and hold no pole in their interior', 'together with its southern extension the ocean grid covers the globe']
FR = 1e-4


def pick(rng, kinds):
    while True:
        g = freg.draw(rng, kinds)
        if g['kind'] in ('latlon', 'split') and 360.0 / g['nx'] * (1 if g['uni'] else 2.2) >= 120:
            continue
        if g['kind'] == 'regional' and abs(g['x1'] - g['x0']) / g['nx'] * 2.2 >= 120:
            continue
        if g['kind'] == 'cube':
            g['n'] = rng.choice([2, 4, 4, 6])
        return g


def fine(rng, kinds):
    """great-circle cells below about 20 degrees"""
    while True:
        g = freg.draw(rng, kinds)
        if g['kind'] == 'cube':
            g['n'], g['st'] = rng.choice([6, 6, 8]), None
        else:
            g['nx'], g['ny'], g['uni'] = rng.randint(18, 22), rng.randint(9, 12), True
            if g['kind'] == 'split':
                continue
        return g


def gen(rng, tier):
    cs = []
    for i in range(90 if tier == 'quick' else 900):
        g = {'seed': rng.randrange(1 << 30), 'atm': pick(rng, ['cube', 'cube', 'latlon', 'split'])}
        g['lnd'] = pick(rng, ['cube', 'latlon', 'latlon', 'split']) if rng.random() < 0.5 else None
        g['ocn'] = pick(rng, ['tripolar', 'latlon', 'latlon', 'split', 'cube'])
        g['south'] = round(rng.uniform(-85, -60), 2) if g['ocn']['kind'] == 'latlon' and rng.random() < 0.5 else None
        g['same'] = rng.random() < 0.1
        if g['same']:
            g['lnd'], g['ocn'], g['south'] = None, None, None
        g['wav'] = rng.choice(['no', 'no', 'no', 'ocn', 'new'])
        if g['wav'] == 'new':
            g['wg'] = pick(rng, ['cube', 'latlon', 'split'])
        g['order'] = rng.choice([0, 1, 2])
        g['frac'] = rng.random() < 0.4
        g['level'] = rng.choice([0, 0, 100.0, -20.0])
        g['thresh'] = rng.choice([0, 0, 0, 1e-3])
        g['check'] = rng.random() < 0.3
        g['verbose'] = rng.random() < 0.1
        g['dirs'] = rng.random() < 0.3
        g['name'] = rng.choice(['', '', 'grid_spec', 'cm2'])
        g['mpi'] = rng.choice([0, 0, 0, 2, 3, 4])
        g['p'] = rng.choice([0.0, 0.3, 0.5, 0.9])
        g['land'] = rng.choice([False, False, False, True])
        if g['atm']['kind'] == 'cube' and rng.random() < 0.2:
            n = g['atm']['n'] = rng.choice([4, 6])
            rr = rng.choice([2, 2, 3])
            i, j = sorted(rng.sample(range(2, n), 2)), sorted(rng.sample(range(2, n), 2))
            g['atm']['nest'] = [rng.randint(1, 6), rr, i[0], i[1], j[0], j[1]]
            if g['lnd'] is None and rng.random() < 0.8:
                g['lnd'], g['same'] = pick(rng, ['cube', 'latlon', 'split']), False
                g['ocn'] = g['ocn'] or pick(rng, ['latlon', 'cube'])
        g['gc'] = rng.random() < 0.16
        if g['gc']:
            g['atm'] = fine(rng, ['cube', 'latlon'])
            g['lnd'] = fine(rng, ['cube', 'latlon']) if g['lnd'] or not g['same'] and rng.random() < 0.6 else None
            if g['ocn']:
                g['ocn'] = fine(rng, ['cube', 'latlon'])
                if g['ocn']['kind'] != 'latlon':
                    g['south'] = None
            if g['wav'] == 'new':
                g['wg'] = fine(rng, ['cube', 'latlon'])
            g['order'] = 1
            g['badorder'] = rng.random() < 0.1
        cs.append(g)
    return cs


def ccw(p):
    return p if not p or xg.flat(p) > 0 else p[::-1]


class GC(xg.GCells):
    def __init__(self, x, y):
        super().__init__(x, y)
        self.mid = np.zeros(len(self.p))
        self.bb = list(zip(self.cen, self.rad))


def over_gc(qs, bb, B, pb):
    out = {}
    cen, rad = bb
    for b in np.nonzero(np.arccos(np.clip(B.cen @ cen, -1, 1)) < rad + B.rad + 1e-9)[0]:
        if B.p[b]:
            r = [(1, w) for _, q in qs for w in [xg.gclip(q, B.p[b])] if len(w) > 2 and xg.garea(w) > 0]
            if r:
                out[int(b)] = [(0.0, r)]
    return out


def over_ll(qs, bb, B, pb):
    """[(sign, polygon)] x cells of B -> {cell: (shift, [(sign, polygon)])}"""
    out = {}
    x0, x1, y0, y1 = bb
    for k in (-2, -1, 0, 1, 2):
        d = k * xg.TP
        for b in np.nonzero((B.bb[:, 0] + d < x1) & (B.bb[:, 1] + d > x0) & (B.bb[:, 2] < y1) & (B.bb[:, 3] > y0))[0]:
            r = []
            for s1, q in qs:
                for s2, cc in pb[b]:
                    w = xg.clip(q, xg.shift(cc, d))
                    if len(w) > 2:
                        r.append((s1 * s2, w))
            if r:
                out.setdefault(int(b), []).append((d, r))
    return out


def mom(r, lon0):
    """area and moments of a region, and how much the trapezoidal line integral of its pieces may be off"""
    if len(r[0][1][0]) == 3:
        return np.array([sum(xg.garea(p) for _, p in r), 0, 0, 0, 0])
    m = [(s, xg.moments(p, lon0)) for s, p in r]
    return np.append(sum((s * q for s, q in m), np.zeros(4)), sum(abs(q[2] - q[3]) for s, q in m))


class Set:
    """exchange cells of one pair of grids: key (t1, c1, t2, c2) -> area, moments about the first and second cell, slack"""

    def __init__(self):
        self.d = {}

    def add(self, k, f, r, m1, m2, lim, thr):
        a = mom(r, m1) * f
        if a[0] <= 0:
            return
        b = mom(r, m2) * f
        o = self.d.setdefault(k, [np.zeros(5), np.zeros(5), 0.0, 0])
        if a[0] > thr * lim * (1 + 1e-4):
            o[0] += a
            o[1] += b
        elif a[0] > thr * lim * (1 - 1e-4):      # on the threshold: either way
            o[0] += a
            o[1] += b
            o[2] += a[0]
        else:
            o[3] += 1


def tops(g, c, O, rng, south):
    f = nc.F('NETCDF3_CLASSIC')
    n = len(O.tiles)
    frac = []
    if n > 1:
        f.dims['ntiles'] = n
    for t in range(n):
        x, y = O.corners(t)
        ny, nx = x.shape[0] - 1, x.shape[1] - 1
        sx = '' if n == 1 else '_tile%d' % (t + 1)
        f.dims['nx' + sx], f.dims['ny' + sx] = nx, ny
        dep = np.array([rng.choice([-500.0, 0.0, 100.0, 1e-3, 50.0, 99.99, 4000.0, -20.0, round(rng.uniform(-300, 5000), 2)]) for _ in range(nx * ny)]).reshape(ny, nx)
        dep[np.array([rng.random() for _ in range(nx * ny)]).reshape(ny, nx) < g['p']] = 3000.0
        if g['land']:
            dep[:] = -100.0 if rng.random() < 0.5 else dep
        f.vars['depth' + sx] = nc.V('double', ['ny' + sx, 'nx' + sx], {'units': 'meters'}, dep)
        fr = (dep > g['level']).astype(float)
        if g['frac']:
            fr = np.array([rng.choice([0.0, 1.0, 1.0, 5e-5, 1 - 5e-5, 0.5, 2e-4, round(rng.random(), 3)]) for _ in range(nx * ny)]).reshape(ny, nx)
            f.vars['area_frac' + sx] = nc.V('double', ['ny' + sx, 'nx' + sx], {'units': 'none'}, fr)
        frac.append(np.concatenate([np.zeros((1, nx)), fr]) if south else fr)
    return f, frac


def near(v, w, tol):
    return abs(v - w) <= tol


def compare(c, what, names, N1, N2, C1, C2, T1, T2, S, south, order, thr, gots):
    """recorded exchange cells of one pair of mosaics against the reference set S"""
    got = {}
    for t1 in range(len(C1)):
        for t2 in range(len(C2)):
            fn = names(t1, t2)
            if not os.path.exists(fn):
                continue
            gots.append(fn)
            f = nc.read(fn)
            v = f.vars
            con = grids.text(v['contact'].data)
            c.check(con == '%s:%s::%s:%s' % (N1, T1[t1], N2, T2[t2]), 'contact', '%s: contact %r' % (fn, con))
            n = len(v['xgrid_area'].data)
            if not c.check(('tile1_distance' in v) == (order == 2) and v['tile1_cell'].data.shape == (n, 2), 'variables', '%s: %s' % (fn, sorted(v))):
                return got
            a = v['contact'].atts
            c.check(a.get('parent1_cell') == 'tile1_cell' and a.get('parent2_cell') == 'tile2_cell' and a.get('xgrid_area_field') == 'xgrid_area', 'contact-att', '%s: %s' % (fn, a))
            for e in range(n):
                i1, j1 = [int(q) - 1 for q in v['tile1_cell'].data[e]]
                i2, j2 = [int(q) - 1 for q in v['tile2_cell'].data[e]]
                j2 += south
                if not c.check(0 <= i1 < C1[t1].nx and 0 <= j1 < C1[t1].ny and 0 <= i2 < C2[t2].nx and 0 <= j2 < C2[t2].ny, 'index', '%s: cell %d: (%d,%d) (%d,%d)' % (fn, e, i1, j1, i2, j2)):
                    return got
                k = (t1, j1 * C1[t1].nx + i1, t2, j2 * C2[t2].nx + i2)
                c.check(k not in got, 'duplicate', '%s: pair %s recorded twice' % (fn, k))
                got[k] = (float(v['xgrid_area'].data[e]),) + (tuple(v['tile1_distance'].data[e]) + tuple(v['tile2_distance'].data[e]) if order == 2 else ())
    for k in sorted(set(got) | set(S.d)):
        a1, a2 = C1[k[0]].area[k[1]], C2[k[2]].area[k[3]]
        lim = min(a1, a2)
        o = S.d.get(k)
        v = got[k][0] if k in got else 0.0
        w = float(o[0][0]) if o else 0.0
        sl = (o[2] if o else 0.0) + 2e-7 * lim + 1e-9 * w
        if k not in got:
            sl += 1.1 * max(thr, 1e-6) * lim
        c.check(abs(v - w) <= sl, what + '-area', lambda: '%s: %s recorded %r, expected %r (smaller cell %r, slack %r)' % (what, k, v if k in got else None, w, lim, sl))
        c.count(what)
    return got


def totals(pairs, side, nest=None):
    tot, bad = {}, set()
    for S, got in pairs:
        for k, o in S.d.items():
            u = k[2 * side:2 * side + 2]
            if side == 1 and k[0] == nest:        # overlaps its parent
                continue
            if k in got:
                tot[u] = tot.get(u, 0) + o[side]
            if o[2] or (o[3] and k in got):
                bad.add(u)
    return tot, bad


def distances(c, what, S, got, side, area, tot, bad):
    for k, r in sorted(got.items()):
        u = k[2 * side:2 * side + 2]
        if k not in S.d or S.d[k][2] or S.d[k][3] or u in bad:
            continue
        m, base = S.d[k][side], tot[u]
        tol = 3e-6 + 1e-8 * area[u[0]][u[1]] / m[0]
        lat = m[1] / m[0] - base[1] / base[0]
        lon = [m[q] / m[0] - base[q] / base[0] for q in (2, 3)]
        di, dj = r[1 + 2 * side], r[2 + 2 * side]
        c.check(abs(dj - lat) <= tol, 'distance-lat', lambda: '%s: %s side %d: dj %r, centroid offset %r' % (what, k, side + 1, dj, lat))
        # the trapezoidal line integral depends on where the sides are divided: pieces of concave cells may differ by its error
        amb = 4 * (m[4] / m[0] + base[4] / base[0])
        c.check(min(abs(di - q) for q in lon) <= tol + amb, 'distance-lon', lambda: '%s: %s side %d: di %r, centroid offset %r, slack %r (piece %r, cell %r)' % (what, k, side + 1, di, lon, tol + amb, m, base))
        c.count('distances')


def extend(O, south):
    """corner arrays of the ocean with the row added to the south"""
    r = []
    for t in range(len(O.tiles)):
        x, y = O.corners(t)
        if south:
            x, y = np.concatenate([x[:1], x]), np.concatenate([np.full_like(y[:1], -90.0), y])
        r.append((x, y))
    return r


def run_case(g, c):
    rng = random.Random(g['seed'])
    gc = g.get('gc', False)
    A = freg.make(g['atm'], c, 'atm', gc)
    L = freg.make(g['lnd'], c, 'lnd', gc) if g['lnd'] else A
    if g['same']:
        O = A
    else:
        og = dict(g['ocn'])
        if g['south'] is not None:
            og.update(kind='regional', x1=og['x0'] + 360, y0=g['south'], y1=90)
        O = freg.make(og, c, 'ocn', gc)
    W = None if g['wav'] == 'no' else O if g['wav'] == 'ocn' else freg.make(g['wg'], c, 'wav', gc)
    south = 1 if len(O.tiles) == 1 and O.tiles[0][1][0, 0] > -90 + 1e-5 else 0
    f, frac = tops(g, c, O, rng, south)
    d = ''
    if g['dirs']:
        os.mkdir('in')
        d = os.path.join('in', '')
        for G in {id(q): q for q in (A, L, O, W) if q}.values():
            for q in [G.mosaic] + G.files:
                os.rename(q, d + q)
    nc.write(d + 'topog.nc', f)
    order = g['order'] or 2
    thr = g['thresh'] or 1e-6
    a = ['--atmos_mosaic', d + A.mosaic, '--ocean_mosaic', d + O.mosaic, '--ocean_topog', d + 'topog.nc', '--maxxgrid', 20000]
    if g['lnd']:
        a += ['--land_mosaic', d + L.mosaic]
    if W:
        a += ['--wave_mosaic', d + W.mosaic]
    if g['order'] and not g.get('badorder'):
        a += ['--interp_order', g['order']]
    if g['level']:
        a += ['--sea_level', g['level']]
    if g['thresh']:
        a += ['--area_ratio_thresh', g['thresh']]
    if g['check']:
        a += ['--check']
    if g['verbose']:
        a += ['--verbose']
    if g['name']:
        a += ['--mosaic_name', g['name']]
    # every tile is divided among all processes; the tool refuses tiles that are too small for that
    mpi = g['mpi'] if g['mpi'] <= min(n - 1 for G in (A, L, O, W) if G for t in range(len(G.tiles)) for n in G.corners(t)[0].shape) else 0
    nest = 6 if g['atm'].get('nest') else None
    if g.get('badorder') or nest and not g['lnd']:
        c.tool('make_coupler_mosaic', a, expect='fail')
        c.count('refused')
        c.sig, c.nontrivial = repr(g['seed']), True
        return
    r = c.tool('make_coupler_mosaic_parallel' if mpi else 'make_coupler_mosaic', a, mpi=mpi, expect=None if g['verbose'] else 0)
    if g['verbose']:          # its own check that the fractions tile the ocean fails when tiny pieces are dropped
        c.check(r.rc == 0 or 'omask is not equal ocn_frac' in r.err + r.out, 'exit:make_coupler_mosaic', 'rc=%s %s' % (r.rc, r.err[-500:]))
    if r.rc or c.viol:
        return
    K = GC if gc else xg.Cells
    CA = [K(*A.corners(t)) for t in range(len(A.tiles))]
    CL = [K(*L.corners(t)) for t in range(len(L.tiles))] if g['lnd'] else CA
    CO = [K(*q) for q in extend(O, south)]
    CW = [K(*W.corners(t)) for t in range(len(W.tiles))] if W else []
    over = over_gc if gc else over_ll
    turn = (lambda p: p) if gc else ccw
    P = lambda C: [[[(s, q) for s, q in xg.parts(p)] if p else [] for p in t.p] for t in C]
    pl, po = ([None] * len(CL), [None] * len(CO)) if gc else (P(CL), P(CO))
    fr = [q.ravel() for q in frac]
    SO, SL = Set(), Set()
    for ta, ca in enumerate(CA):
        for ia, p in enumerate(ca.p):
            if not p:
                continue
            q = [(1, turn(p))]
            land = []
            if g['lnd']:
                for tl, cl in enumerate(CL):
                    for il, lst in over(q, ca.bb[ia], cl, pl[tl]).items():
                        for dl, rr in lst:
                            v = mom(rr, 0)[0]
                            if v > 0:
                                land.append((tl, il, dl, rr, v, min(cl.area[il], ca.area[ia])))
            else:
                land.append((ta, ia, 0.0, q, ca.area[ia], ca.area[ia]))
            # overlaps of atmosphere and land below the threshold take no part
            for to, co in enumerate(CO):
                for io, lst in over(q, ca.bb[ia], co, po[to]).items():
                    for do, rr in lst:
                        if fr[to][io] > FR:
                            SO.add((ta, ia, to, io), fr[to][io], rr, ca.mid[ia], co.mid[io] + do, min(co.area[io], ca.area[ia]), thr)
            for tl, il, dl, rr, v, lim in land:
                e = SL.d.setdefault((ta, ia, tl, il), [np.zeros(5), np.zeros(5), 0.0, 0])
                if v <= thr * lim * (1 - 1e-4):
                    e[3] += 1
                    continue
                sure = v > thr * lim * (1 + 1e-4)
                bb = ca.bb[ia] if gc else (min(w[0] for _, z in rr for w in z), max(w[0] for _, z in rr for w in z), min(w[1] for _, z in rr for w in z), max(w[1] for _, z in rr for w in z))
                for to, co in enumerate(CO):
                    for io, lst in over(rr, bb, co, po[to]).items():
                        for do, r3 in lst:
                            if 1 - fr[to][io] > FR:
                                SL.add((ta, ia, tl, il), 1 - fr[to][io], r3, ca.mid[ia], CL[tl].mid[il] + dl, lim, thr)
                if not sure:
                    e[2] += v
    used = []
    an, ln, on = 'atm_mosaic', ('lnd_mosaic' if g['lnd'] else 'atm_mosaic'), ('atm_mosaic' if g['same'] else 'ocn_mosaic')
    wn = W and ('wav_mosaic' if g['wav'] == 'new' else on)
    tn = lambda G: ['tile%d' % (t + 1) for t in range(len(G.tiles))]
    pre = ('atm_', 'lnd_', 'ocn_', 'wav_') if g['same'] else ('', '', '', '')
    nm = lambda i, n1, T1, j, n2, T2: (lambda t1, t2: '%s%s_%sX%s%s_%s.nc' % (pre[i], n1, T1[t1], pre[j], n2, T2[t2]))
    go = compare(c, 'aXo', nm(0, an, tn(A), 2, on, tn(O)), an, on, CA, CO, tn(A), tn(O), SO, south, order, thr, used)
    nao = list(used)
    gl = compare(c, 'aXl', nm(0, an, tn(A), 1, ln, tn(L)), an, ln, CA, CL, tn(A), tn(L), SL, 0, order, thr, used)
    nal = used[len(nao):]
    if c.viol:
        return
    nlo, nwo = [], []
    area = lambda C: [q.area for q in C]
    if order == 2:
        ta = totals([(SO, go), (SL, gl)], 0)
        distances(c, 'aXo', SO, go, 0, area(CA), *ta)
        distances(c, 'aXl', SL, gl, 0, area(CA), *ta)
        distances(c, 'aXo', SO, go, 1, area(CO), *totals([(SO, go)], 1, nest))
        distances(c, 'aXl', SL, gl, 1, area(CL), *totals([(SL, gl)], 1, nest))
    # every atmosphere cell is made of its exchange cells
    if thr <= 1e-6:
        s = [np.zeros(len(q.p)) for q in CA]
        for k, v in list(go.items()) + list(gl.items()):
            s[k[0]][k[1]] += v[0]
        for t, q in enumerate(CA):
            n = np.array([sum(1 for z in SO.d if z[:2] == (t, i)) + 1 for i in range(len(q.p))])
            e = np.abs(s[t] - q.area) - (3e-5 * n + 2.1e-4 * (1 if g['frac'] else 0)) * q.area
            i = int(np.argmax(e))
            c.check(e[i] <= 0, 'tiling', lambda: 'atmosphere tile %d cell %d: area %r, exchange cells %r' % (t, i, q.area[i], s[t][i]))
            c.count('tiled_cells', len(q.p))
    for X, CX, xn, what, key in ((L if g['lnd'] else None, CL, ln, 'lXo', 1), (W, CW, wn, 'wXo', 3)):
        if not X:
            continue
        S = Set()
        for t, cx in enumerate(CX):
            for i, p in enumerate(cx.p):
                for to, co in enumerate(CO):
                    for io, lst in (over([(1, turn(p))], cx.bb[i], co, po[to]).items() if p else ()):
                        if fr[to][io] <= FR or (what == 'wXo' and g['wav'] == 'ocn' and to != t):
                            continue
                        for do, rr in lst:
                            S.add((t, i, to, io), fr[to][io], rr, cx.mid[i], co.mid[io] + do, min(co.area[io], cx.area[i]), thr)
        n0 = len(used)
        gx = compare(c, what, nm(key, xn, tn(X), 2, on, tn(O)), xn, on, CX, CO, tn(X), tn(O), S, south, order, thr, used)
        (nlo if what == 'lXo' else nwo).extend(used[n0:])
        if c.viol:
            return
        if order == 2:
            distances(c, what, S, gx, 0, area(CX), *totals([(S, gx)], 0))
            distances(c, what, S, gx, 1, area(CO), *totals([(S, gx)], 1))
        if what == 'wXo':
            masks(c, 'wave_mask', X, CX, 0, gx, 0)
    o = masks(c, 'ocean_mask', O, CO, south, go, 1, nest)
    l = masks(c, 'land_mask', L, CL, 0, gl, 1, nest)
    for t, v in enumerate(o):
        c.check(np.allclose(v['areaO'].data.ravel(), CO[t].area.reshape(CO[t].ny, -1)[south:].ravel(), rtol=1e-7), 'areaO', 'ocean areas differ')
    for t, v in enumerate(l):
        c.check(np.allclose(v['area_lnd'].data.ravel(), CL[t].area, rtol=1e-7), 'area_lnd', 'land areas differ')
        if not g['lnd']:
            c.check(np.allclose(v['area_atm'].data.ravel(), CA[t].area, rtol=1e-7), 'area_atm', 'atmosphere areas differ')
    m = nc.read((g['name'] or 'mosaic') + '.nc').vars
    tx = lambda k: grids.text(m[k].data) if k in m else None
    dd = d or './'
    for k, q, n in (('atm', A, an), ('lnd', L, ln), ('ocn', O, on), ('wav', W, wn)):
        if not q:
            c.check(k + '_mosaic' not in m, 'mosaic-wave', 'wave mosaic named')
            continue
        c.check((tx(k + '_mosaic_dir'), tx(k + '_mosaic_file'), tx(k + '_mosaic')) == (dd, q.mosaic, n), 'mosaic-entry', lambda: '%s: %r' % (k, (tx(k + '_mosaic_dir'), tx(k + '_mosaic_file'), tx(k + '_mosaic'))))
    c.check((tx('ocn_topog_dir'), tx('ocn_topog_file')) == (dd, 'topog.nc'), 'mosaic-topog', lambda: '%r' % ((tx('ocn_topog_dir'), tx('ocn_topog_file')),))
    for k, fs in (('aXo', nao), ('aXl', nal), ('lXo', nlo if g['lnd'] else nao), ('wXo', nwo)):
        lst = [grids.text(q) for q in m[k + '_file'].data] if k + '_file' in m else []
        c.check(sorted(lst) == sorted(fs), 'mosaic-files', lambda: '%s: listed %s, written %s' % (k, lst, fs))
    c.count('cells', len(go) + len(gl))
    c.sig = repr(g['seed'])
    if go or gl:
        c.nontrivial = True


def masks(c, name, G, C, south, got, side, nest=None):
    r = []
    n = len(C)
    s = [np.zeros(len(q.p)) for q in C]
    for k, v in got.items():
        if side == 1 and k[0] == nest:
            continue
        s[k[2 * side]][k[2 * side + 1]] += v[0]
    for t in range(n):
        fn = name + ('.nc' if n == 1 else '_tile%d.nc' % (t + 1))
        if not c.check(os.path.exists(fn), 'mask-file', fn + ' missing'):
            continue
        v = nc.read(fn).vars
        w = (s[t] / np.where(C[t].area > 0, C[t].area, 1)).reshape(C[t].ny, -1)[south:]
        c.check(v['mask'].data.shape == w.shape and np.abs(v['mask'].data - w).max() <= 1e-7, 'mask', lambda: '%s: mask differs from the exchange cells by %r' % (fn, float(np.abs(v['mask'].data - w).max())))
        r.append(v)
    return r
