"""make_solo_mosaic: contacts between tiles."""
import os, random, re
import numpy as np
from vlib import nc, geo, grids

ID = 'C14'
TOOLS = ['make_solo_mosaic', 'make_hgrid']
MIN = 250
RULE = ('cubed-sphere (gnomonic, stretched, shifted, refined, nested, conformal), tripolar, lon-lat, periodic and torus grids and random walls of lon-lat or planar tiles of different resolution whose edges '
        'overlap in part are given to make_solo_mosaic; every contact is turned into vertex ranges and compared with the set found by an independent search in 3-D space (cubes: each of the 24 edges exactly once) or '
        'by interval arithmetic (walls); names, file lists and location must be as given; bad requests must be refused. Non-trivial: contacts were compared; distinct by case.')
ASSUMPTIONS = ['contacts between like edges (west-west ...) are not claimed: the code says they are not supported', 'tiles have at least 6 supergrid columns']
PAIRS = [('e', 'w'), ('e', 's'), ('s', 'n'), ('s', 'e'), ('w', 'e'), ('w', 'n'), ('n', 's'), ('n', 'w')]


def gen(rng, tier):
    cs = []
    for i in range(400 if tier == 'quick' else 2500):
        k = rng.choice(['cube', 'cube', 'cube', 'conf', 'nest', 'nest', 'gr', 'tripolar', 'lonlat', 'wall', 'wall', 'wall', 'wall', 'bad'])
        g = {'kind': k, 'seed': rng.randrange(1 << 30)}
        if k in ('cube', 'conf', 'nest', 'gr'):
            g['n'] = 2 * rng.choice([2, 3, 4, 5, 6, 8, 12])
            g['shift'] = rng.choice([None, None, 0, 18, 9, 36.5])
            g['tr'] = rng.choice([None, None, 'do_schmidt', 'do_cube_transform'])
            g['stretch'] = rng.choice([1, 1.5, 2, 3, 2.25, 0.5])
            g['tgt'] = [rng.choice([0, 20, 350, 262.4, 180, 90]), rng.choice([-90, -40, 0, 40, 35.4, 10, 90])]
            if k == 'nest':
                g['n'] = 2 * rng.choice([8, 10, 12])
                m = g['n'] // 2
                sizes = {t: (m, m) for t in range(1, 7)}
                ns = []
                for q in range(rng.choice([1, 2, 3])):
                    p = rng.choice(list(sizes))
                    if ns and rng.random() < 0.4:
                        p = 6 + len(ns)
                    ni, nj = sizes[p]
                    if ni < 4 or nj < 4:
                        continue
                    i0, j0 = rng.randint(2, ni - 2), rng.randint(2, nj - 2)
                    i1, j1 = rng.randint(i0 + 1, min(ni - 1, i0 + 5)), rng.randint(j0 + 1, min(nj - 1, j0 + 5))
                    r = rng.choice([2, 3, 4])
                    ns.append([p, r, i0, i1, j0, j1])
                    sizes[6 + len(ns)] = ((i1 - i0 + 1) * r, (j1 - j0 + 1) * r)
                g['nests'] = ns
        cs.append(g)
    return cs


def edge(A, e):
    return {'e': A[:, -1], 'w': A[:, 0], 's': A[0], 'n': A[-1]}[e]


def canon(t1, e1, a0, a1, t2, e2, b0, b1):
    p, q = (t1, e1, a0, a1), (t2, e2, b0, b1)
    if (q[0], q[1], min(q[2:])) < (p[0], p[1], min(p[2:])):
        p, q = q, p
    if p[2] > p[3]:
        p, q = (p[0], p[1], p[3], p[2]), (q[0], q[1], q[3], q[2])
    return p + q


def search(P, per=None):
    """P: list of (nyp,nxp,d) vertex positions -> set of canonical contacts"""
    out = set()
    for n in range(len(P)):
        for m in range(n, len(P)):
            for e1, e2 in (PAIRS if n != m else [('e', 'w'), ('s', 'n')]):
                A, B = edge(P[n], e1), edge(P[m], e2)
                d = np.abs(A[:, None] - B[None]).max(-1)
                ii, jj = np.nonzero(d < 1e-11)
                if len(ii) < 2 or len(set(jj)) < 2:
                    continue
                a0, a1 = ii.min(), ii.max()
                b0, b1 = jj[ii == a0].min(), jj[ii == a1].max()
                if a0 == a1 or b0 == b1:
                    continue
                out.add(canon(n, e1, int(a0), int(a1), m, e2, int(b0), int(b1)))
    return out


def overlaps(P):
    out = set()
    for n in range(len(P)):
        for m in range(n + 1, len(P)):
            for a, b in ((n, m), (m, n)):       # b inside a
                C = [P[b][0, 0], P[b][0, -1], P[b][-1, 0], P[b][-1, -1]]
                w = [np.argwhere(np.abs(P[a] - q).max(-1) < 1e-11) for q in C]
                if not all(len(x) for x in w):
                    continue
                (j0, i0), (j1, i1), (j2, i2), (j3, i3) = [tuple(map(int, x[0])) for x in w]
                if j0 != j1 or j2 != j3 or i0 != i2 or i1 != i3 or j0 == j2 or i0 == i1:
                    continue
                ra = (a, i0, i1, j0, j2)
                rb = (b, 0, P[b].shape[1] - 1, 0, P[b].shape[0] - 1)
                out.add(tuple(sorted([ra, rb])))
                break
    return out


def parse(names, ctx, idx, mos, sizes, c):
    al, ov, fold = [], [], []
    for s, ix in zip(ctx, idx):
        m = re.match(r'^(.*):([^:]*)::(.*):([^:]*)$', s)
        q = re.match(r'^(\d+):(\d+),(\d+):(\d+)::(\d+):(\d+),(\d+):(\d+)$', ix)
        if not c.check(m and q and m.group(1) == mos and m.group(3) == mos and m.group(2) in names and m.group(4) in names, 'contact-string', '%r %r' % (s, ix)):
            return None
        t = [names.index(m.group(2)), names.index(m.group(4))]
        v = list(map(int, q.groups()))
        r = []
        kinds = []
        for h in range(2):
            i0, i1, j0, j1 = v[4 * h:4 * h + 4]
            ny, nx = sizes[t[h]]
            if not c.check(1 <= min(i0, i1) and max(i0, i1) <= nx and 1 <= min(j0, j1) and max(j0, j1) <= ny, 'contact-range', '%s outside %dx%d' % (ix, nx, ny)):
                return None
            rng_ = lambda a, b: (a - 1, b) if a <= b else (a, b - 1)
            if i0 == i1 and i0 in (1, nx) and j0 != j1:
                r.append((t[h], 'w' if i0 == 1 else 'e') + rng_(j0, j1))
                kinds.append('a')
            elif j0 == j1 and j0 in (1, ny) and i0 != i1:
                r.append((t[h], 's' if j0 == 1 else 'n') + rng_(i0, i1))
                kinds.append('a')
            else:
                r.append((t[h], i0 - 1, i1, j0 - 1, j1))
                kinds.append('o')
        if kinds == ['a', 'a']:
            if t[0] == t[1] and r[0][1] == r[1][1]:
                fold.append(canon(*(r[0] + r[1])))
            else:
                al.append(canon(*(r[0] + r[1])))
        elif kinds == ['o', 'o']:
            ov.append(tuple(sorted(r)))
        else:
            c.check(False, 'contact-kind', '%s is neither an edge contact nor an overlap' % ix)
    return al, ov, fold


def wall(rng, c):
    """a wall of bricks on an integer lattice; tile = refined block"""
    planar = rng.random() < 0.3
    per = rng.random() < 0.6
    ncol = rng.randint(1, 4)
    W, H = 12, 12
    cuts = sorted(rng.sample(range(3, W - 2), min(ncol - 1, 3))) if ncol > 1 else []
    cuts = [a for i, a in enumerate(cuts) if i == 0 or a - cuts[i - 1] >= 3]
    xs = [0] + cuts + [W]
    if per or not planar:
        x0, ux = (rng.choice([0, -280, 20, -180]), 30.0) if not planar else (0.0, 1000.0)
    else:
        x0, ux = 0.0, 1000.0
    if not per and not planar:
        ux = rng.choice([5, 10, 7.5])
    y0, uy = (-60, 10.0) if not planar else (0.0, 500.0)
    pery = planar and rng.random() < 0.5
    T = []
    for a, b in zip(xs, xs[1:]):
        nrow = rng.randint(1, 3)
        rc = sorted(rng.sample(range(2, H - 1), nrow - 1))
        rc = [v for i, v in enumerate(rc) if i == 0 or v - rc[i - 1] >= 2]
        lo, hi = rng.choice([0, 0, 2]), rng.choice([H, H, H - 2])
        rc = [v for v in rc if lo + 2 <= v <= hi - 2]
        ys = [lo] + rc + [hi]
        for p, q in zip(ys, ys[1:]):
            T.append([a, b, p, q, rng.choice([2, 2, 3, 4]), rng.choice([2, 2, 3, 4])])
    rng.shuffle(T)
    tiles = []
    for a, b, p, q, rx, ry in T:
        kx = np.arange((b - a) * rx + 1) / rx + a
        ky = np.arange((q - p) * ry + 1) / ry + p
        tiles.append(np.meshgrid(x0 + kx * ux, y0 + ky * uy))
    if not per and not pery and rng.random() < 0.7:
        for n in range(len(T)):
            if rng.random() < 0.4:       # turn the tile: i runs to the south, j to the east
                tiles[n] = [np.ascontiguousarray(q[::-1].T) for q in tiles[n]]
        c.count('turned')
        return tiles, search([np.stack(q, -1) * 1e-3 for q in tiles]), 0, 0
    exp = set()
    for n in range(len(T)):
        for m in range(n, len(T)):
            A, B = T[n], T[m]
            for e1, e2 in (('e', 'w'), ('w', 'e'), ('s', 'n'), ('n', 's')):
                if n == m and (e1, e2) in (('w', 'e'), ('n', 's')):
                    continue
                if e1 in 'ew':
                    u, v = (A[1], B[0]) if e1 == 'e' else (A[0], B[1])
                    ok = u == v or (per and abs(u - v) == W)
                    lo, hi = max(A[2], B[2]), min(A[3], B[3])
                    ra, rb, oa, ob = A[5], B[5], A[2], B[2]
                else:
                    u, v = (A[2], B[3]) if e1 == 's' else (A[3], B[2])
                    ok = u == v or (pery and abs(u - v) == H)
                    lo, hi = max(A[0], B[0]), min(A[1], B[1])
                    ra, rb, oa, ob = A[4], B[4], A[0], B[0]
                if ok and hi > lo:
                    exp.add(canon(n, e1, (lo - oa) * ra, (hi - oa) * ra, m, e2, (lo - ob) * rb, (hi - ob) * rb))
    return tiles, exp, (W * ux if per else 0), (H * uy if pery else 0)


def run_case(g, c):
    rng = random.Random(g['seed'])
    k = g['kind']
    c.sig = g
    mos = rng.choice(['solo', 'C_mosaic', 'atmos_mosaic', 'm.x'])
    per = pery = 0
    folds = set()
    os.mkdir('in')
    if k in ('cube', 'conf', 'nest', 'gr'):
        n = g['n']
        if k == 'conf':
            a = ['--grid_type', 'conformal_cubic_grid', '--nlon', n, '--nratio', rng.choice([1, 2]), '--grid_name', 'g']
        else:
            a = ['--grid_type', 'gnomonic_ed', '--nlon', n, '--grid_name', 'g']
            if g['shift'] is not None:
                a += ['--shift_fac', g['shift']]
            if g['tr']:
                a += ['--' + g['tr'], '--stretch_factor', g['stretch'], '--target_lon', g['tgt'][0], '--target_lat=%s' % g['tgt'][1]]
        ns = g.get('nests') or []
        if ns:
            J = lambda q: ','.join(str(q(x)) for x in ns)
            a += ['--nest_grids', len(ns), '--parent_tile', J(lambda x: x[0]), '--refine_ratio', J(lambda x: x[1]), '--istart_nest', J(lambda x: 2 * x[2] - 1), '--iend_nest', J(lambda x: 2 * x[3]),
                  '--jstart_nest', J(lambda x: 2 * x[4] - 1), '--jend_nest', J(lambda x: 2 * x[5]), '--halo', 1]
        if k == 'gr':
            a += ['--nest_grids', 1, '--parent_tile', 0, '--refine_ratio', rng.choice([2, 3])]
        if c.tool('make_hgrid', a, timeout=60).rc:
            return
        nt = 6 + len(ns)
        order = list(range(nt))
        if rng.random() < 0.3:
            rng.shuffle(order)
        files = ['g.tile%d.nc' % (t + 1) for t in order]
        fs = [nc.read(f) for f in files]
        for f in files:
            os.rename(f, 'in/' + f)
        names = [grids.text(f.vars['tile'].data) for f in fs]
        X = [np.array(f.vars['x'].data) for f in fs]
        Y = [np.array(f.vars['y'].data) for f in fs]
        P = [geo.xyz(x, y) for x, y in zip(X, Y)]
        exp, ovl = search(P), overlaps(P)
        cube = {q for q in exp if order[q[0]] < 6 and order[q[4]] < 6}
        if not c.check(len(cube) == 12 and len({(q[0], q[1]) for q in cube} | {(q[4], q[5]) for q in cube}) == 24, 'grid', lambda: 'the six tiles share only %d edges' % len(cube)):
            return
    elif k == 'tripolar':
        nx = 4 * rng.choice([4, 6, 9, 10])
        ny = 2 * rng.choice([6, 8, 11])
        a = ['--grid_type', 'tripolar_grid', '--nxbnd', 2, '--nybnd', 2, '--xbnd', '-280,80', '--ybnd', '-80,90', '--nlon', nx, '--nlat', ny, '--lat_join', rng.choice([60, 65]), '--grid_name', 'g']
        if c.tool('make_hgrid', a).rc:
            return
        files = ['g.nc']
        f = nc.read('g.nc')
        os.rename('g.nc', 'in/g.nc')
        names = [grids.text(f.vars['tile'].data)]
        X, Y = [np.array(f.vars['x'].data)], [np.array(f.vars['y'].data)]
        per = rng.choice([360, 360, 0])
        NX, NY = X[0].shape[1] - 1, X[0].shape[0] - 1
        exp = {canon(0, 'e', 0, NY, 0, 'w', 0, NY)} if per else set()
        folds = {canon(0, 'n', 0, NX // 2, 0, 'n', NX, NX // 2)}
        ovl = set()
    else:
        if k == 'lonlat':
            nx, ny = rng.randint(6, 20), rng.randint(2, 10)
            lo = rng.choice([0, -280, 20.3])
            glob = rng.random() < 0.6
            hi = lo + (360 if glob else 100)
            x, y = np.meshgrid(np.linspace(lo, hi, nx + 1), np.linspace(-90, 90, ny + 1))
            tiles = [(x, y)]
            per = 360 if glob and rng.random() < 0.7 else 0
            exp = {canon(0, 'e', 0, ny, 0, 'w', 0, ny)} if per else set()
        else:
            tiles, exp, per, pery = wall(rng, c)
        ovl = set()
        X, Y = [t[0] for t in tiles], [t[1] for t in tiles]
        names = ['tile%d' % (i + 1) for i in range(len(tiles))] if rng.random() < 0.7 else ['t-%s%d' % (rng.choice('abc'), i) for i in range(len(tiles))]
        if rng.random() < 0.15:
            files = ['horizontal_grid.tile%d.nc' % (i + 1) for i in range(len(tiles))] if len(tiles) > 1 else ['horizontal_grid.nc']
        else:
            files = ['%s.%s.nc' % (rng.choice(['grid', 'ocean_hgrid']), nm) for nm in names]
            if rng.random() < 0.15:
                files = ['%s_%s' % ('long' * 12, f) for f in files]
        for f, nm, x, y in zip(files, names, X, Y):
            grids.hgrid('in/' + f, x, y, nm)
    loc = rng.choice(['in', 'in/', './in', os.path.abspath('in'), './in/'])
    a = ['--num_tiles', len(files), '--dir', loc, '--mosaic_name', mos]
    if not files[0].startswith('horizontal_grid'):
        a += ['--tile_file', ','.join(files)]
    if per:
        a += ['--periodx', '%r' % per]
    if pery:
        a += ['--periody', '%r' % pery]
    if k == 'bad':
        w = rng.choice(['count', 'nofile', 'nodir', 'many'])
        if w == 'count':
            a[1] = len(files) + 1
            if '--tile_file' not in a:
                a += ['--tile_file', files[0]]
                a[1] = 2
        elif w == 'nofile':
            os.remove('in/' + rng.choice(files))
        elif w == 'nodir':
            a[3] = 'elsewhere'
        else:
            a[1] = 101
        c.tool('make_solo_mosaic', a, expect='fail', abort_ok=True)
        c.check(not os.path.exists(mos + '.nc'), 'output-on-error', '')
        c.count('refusals')
        c.nontrivial = True
        return
    if rng.random() < 0.15:
        a += ['--grid_descriptor', 'd' * 100]
    if c.tool('make_solo_mosaic', a).rc:
        return
    m = nc.read(mos + '.nc')
    T = lambda v: grids.text(m.vars[v].data)
    c.check(T('mosaic') == mos, 'mosaic-name', T('mosaic'))
    c.check(T('gridlocation') == (loc if loc.endswith('/') else loc + '/'), 'gridlocation', T('gridlocation'))
    c.check(T('gridfiles') == files, 'gridfiles', lambda: '%s' % T('gridfiles'))
    c.check(T('gridtiles') == names, 'gridtiles', lambda: '%s' % T('gridtiles'))
    has = 'contacts' in m.vars
    c.check(has == bool(exp or ovl or folds), 'has-contacts', lambda: 'expected %d contacts' % len(exp | ovl | folds))
    if not has:
        c.nontrivial = True
        return
    r = parse(names, T('contacts'), T('contact_index'), mos, [(x.shape[0] - 1, x.shape[1] - 1) for x in X], c)
    if r is None:
        return
    al, ov, fo = r
    for nm, got, want in (('align', al, exp), ('overlap', ov, ovl), ('fold', fo, folds)):
        c.check(len(got) == len(set(got)), nm + '-twice', lambda: '%s' % sorted(got))
        c.check(set(got) == want, nm, lambda: 'missing %s, extra %s' % (sorted(want - set(got))[:4], sorted(set(got) - want)[:4]))
    c.count('contacts', len(al) + len(ov) + len(fo))
    c.count(k)
    c.nontrivial = True
