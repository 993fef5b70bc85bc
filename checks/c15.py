"""fregrid: the exchange grid."""
import os, random
import numpy as np
from vlib import nc, freg, xg

ID = 'C15'
TOOLS = ['make_hgrid', 'make_solo_mosaic', 'fregrid', 'fregrid_parallel']
MIN = 120
RULE = ('pairs of cubed-sphere, tripolar, lon-lat (global, regional, cut in tiles of different size) and curvilinear grids of random size, origin and spacing are given to fregrid, which writes the exchange grid; '
        'every recorded overlap is compared with the area of the intersection of the two cells computed independently (lon-lat sides, or great circles where the grid asks for them), no pair may be missing or recorded '
        'twice, the overlaps of a covered cell must add up to it, and second-order distances must be the offset of the centroids; some runs use several processes. Non-trivial: overlaps were compared; distinct by case.')
ASSUMPTIONS = ['cells span less than 170 degrees of longitude and hold no pole in their interior', 'great-circle grids have cells below about 20 degrees (the code documents its range check)']
KINDS = ['cube', 'cube', 'cube', 'latlon', 'tripolar', 'split', 'regional', 'skew']


def wide(g):
    if g['kind'] in ('latlon', 'split'):
        return 360.0 / g['nx'] * (1 if g['uni'] else 2.2) >= 165
    if g['kind'] == 'regional':
        return (g['x1'] - g['x0']) / g['nx'] * (1 if g['uni'] else 1.7) >= 165
    return False


def draw(rng, kinds):
    while True:
        g = freg.draw(rng, kinds)
        if not wide(g):
            return g


def fine(rng):
    k = rng.choice(['cube', 'latlon', 'latlon', 'regional'])
    g = freg.draw(rng, [k])
    if k == 'cube':
        g['n'] = rng.choice([6, 8, 10, 12])
    elif k == 'latlon':
        g['nx'], g['ny'] = rng.randint(18, 32), rng.randint(9, 20)
    else:
        g['x1'] = g['x0'] + rng.choice([20, 47.5, 60])
        g['nx'], g['ny'] = rng.randint(4, 12), rng.randint(6, 14)
    return g


def gen(rng, tier):
    cs = []
    for i in range(260 if tier == 'quick' else 2500):
        k = rng.choice(['o1', 'o1', 'o1', 'o2', 'o2', 'size', 'gc'])
        g = {'kind': k, 'mpi': rng.choice([0, 0, 0, 2, 3]) if k != 'gc' else rng.choice([0, 0, 2])}
        if k == 'gc':
            g['src'], g['dst'] = fine(rng), fine(rng)
        else:
            g['src'] = draw(rng, ['cube'] if k == 'o2' else KINDS)
            if k == 'size' or (k == 'o2' and rng.random() < 0.3):
                lb = rng.choice([0, 0, -180, 20])
                le = rng.choice([360, 360, lb + 200])
                le = lb + 360 if le == 360 else le
                ab, ae = rng.choice([(-90, 90), (-90, 90), (-30, 60)])
                g['size'] = [lb, le, ab, ae, rng.randint(4, 16), rng.randint(3, 12), rng.random() < 0.6]
                if g['size'][4] < 4 or (le - lb) / g['size'][4] > 160:
                    g['size'][4] = 5
            else:
                g['dst'] = draw(rng, KINDS)
        if g['mpi']:
            ny = g['size'][5] if g.get('size') else g['dst'].get('ny', 2 * g['dst'].get('n', 4))
            ny = min(ny, 2) if not g.get('size') and g['dst']['kind'] == 'split' else ny
            g['mpi'] = g['mpi'] if ny >= 3 * g['mpi'] else 0
        cs.append(g)
    return cs


def run_case(g, c):
    gc = g['kind'] == 'gc'
    o2 = g['kind'] == 'o2'
    A = freg.make(g['src'], c, 'src', gc)
    a = ['--input_mosaic', A.mosaic, '--remap_file', 'rm.nc', '--maxxgrid', 40000, '--interp_method', 'conserve_order2' if o2 else 'conserve_order1']
    if g.get('size'):
        lb, le, ab, ae, nlon, nlat, cy = g['size']
        B = freg.bysize(lb, le, ab, ae, nlon, nlat, True)
        a += ['--nlon', nlon, '--nlat', nlat, '--lonBegin', lb, '--lonEnd', le, '--latBegin', ab, '--latEnd', ae] + (['--center_y'] if cy else [])
    else:
        B = freg.make(g['dst'], c, 'dst', gc)
        a += ['--output_mosaic', B.mosaic]
    r = c.tool('fregrid_parallel' if g['mpi'] else 'fregrid', a, mpi=g['mpi'])
    if r.rc or c.viol:
        return
    K = xg.GCells if gc else xg.Cells
    CA = [K(*A.corners(t)) for t in range(len(A.tiles))]
    CB = [K(*B.corners(t)) for t in range(len(B.tiles))]
    rows = [np.zeros(len(x.p)) for x in CA]
    mrow = [np.zeros((len(x.p), 2)) for x in CA]
    nover = 0
    disterr = []
    tsum = [np.zeros(len(x.p)) for x in CA]
    for tb, fn in enumerate(freg.remap_names('rm', len(B.tiles))):
        ref = {}
        for ta in range(len(CA)):
            q = xg.overlap_gc(CA[ta], CB[tb]) if gc else xg.overlap(CA[ta], CB[tb], o2)
            for (s, d), v in q.items():
                ref[(ta, s, d)] = v
        got = {}
        if os.path.exists(fn):
            m = freg.rms(fn)
            if not c.check(len(m) == (8 if o2 else 6), 'distance-var', '%s: tile1_distance %s' % (fn, len(m))):
                return
            for e in zip(*m):
                t, i1, j1, i2, j2, ar = e[:6]
                ok = 0 <= t < len(CA) and 0 <= i1 < CA[t].nx and 0 <= j1 < CA[t].ny and 0 <= i2 < CB[tb].nx and 0 <= j2 < CB[tb].ny
                if not c.check(ok, 'index', '%s: %s' % (fn, e)):
                    return
                k = (int(t), int(j1 * CA[t].nx + i1), int(j2 * CB[tb].nx + i2))
                c.check(k not in got, 'duplicate', '%s: pair %s recorded twice' % (fn, k))
                got[k] = e[5:]
        if o2:
            for k, v in ref.items():
                tsum[k[0]][k[1]] += v[3]
        area = lambda k: 0.0 if k not in ref else float(ref[k][0] if o2 else ref[k])
        cols = np.zeros(len(CB[tb].p))
        for k in sorted(set(got) | set(ref)):
            lim = min(CA[k[0]].area[k[1]], CB[tb].area[k[2]])
            v, w = (float(got[k][0]) if k in got else 0.0), area(k)
            c.check(abs(v - w) <= 1.1e-6 * lim if k not in got else abs(v - w) <= 2e-7 * lim + 1e-9 * w, 'overlap-area',
                    lambda: '%s: source tile %d cell %d, target cell %d: recorded %r, intersection %r (smaller cell %r)' % (fn, k[0], k[1], k[2], v if k in got else None, w, lim))
            cols[k[2]] += v
            rows[k[0]][k[1]] += v
            nover += k in got
        if A.globl:
            big = CB[tb].area > 1e-4 * CB[tb].area.max()
            c.check(np.all(np.abs(cols - CB[tb].area)[big] <= 2e-5 * CB[tb].area[big]), 'cover-target', lambda: '%s: overlaps do not add up to the target cells: %s' % (fn, np.abs(cols / CB[tb].area - 1)[big].max()))
        if o2:
            for k, e in got.items():
                di, dj = float(e[1]), float(e[2])
                mrow[k[0]][k[1]] += e[0] * np.array([di, dj])
                if k not in ref or ref[k][0] < 1e-5 * CA[k[0]].area[k[1]]:
                    continue
                disterr.append((tb, k, di, dj, ref[k]))
    if B.globl:
        for t in range(len(CA)):
            c.check(np.all(np.abs(rows[t] - CA[t].area) <= 2e-5 * CA[t].area), 'cover-source', lambda: 'source tile %d: overlaps do not add up to the source cells: %s' % (t, np.abs(rows[t] / CA[t].area - 1).max()))
    if o2 and nover:
        whole = []
        for t in range(len(CA)):
            whole.append([xg.moments(p if xg.flat(p) > 0 else p[::-1], CA[t].mid[n]) if p else None for n, p in enumerate(CA[t].p)])
        for tb, k, di, dj, rf in disterr:
            w = whole[k[0]][k[1]]
            ex = CA[k[0]].bb[k[1]]
            cov = rows[k[0]][k[1]] / CA[k[0]].area[k[1]]
            tol = 3e-6 + (0 if abs(cov - 1) < 1e-6 or abs(cov - 1) > 1.05e-3 else 1e-2)
            lat = rf[1] / rf[0] - w[1] / w[0]
            lon = rf[2] / rf[0] - w[2] / w[0]
            c.count('centroids')
            c.check(abs(dj - lat) <= tol * 1 + 1e-8 * w[0] / rf[0], 'distance-lat', lambda: 'target tile %d %s: dj %r, centroid offset %r' % (tb, k, dj, lat))
            if max(abs(ex[2]), abs(ex[3])) > 1.57:
                c.check(abs(di) <= ex[1] - ex[0], 'distance-lon', lambda: 'target tile %d %s: di %r outside the cell %s' % (tb, k, di, ex))
                continue
            base = tsum[k[0]][k[1]] / CA[k[0]].area[k[1]] if abs(cov - 1) < 1e-3 else w[3] / w[0]
            lt = rf[3] / rf[0] - base
            e = min(abs(di - lon), abs(di - lt))
            c.worst = max(getattr(c, 'worst', 0), e)
            c.check(e <= tol + 1e-8 * w[0] / rf[0], 'distance-lon', lambda: 'target tile %d %s: di %r, centroid offset %r (line integral by sides: %r; cell %s)' % (tb, k, di, lon, lt, ex))
        for t in range(len(CA)):
            full = np.abs(rows[t] / CA[t].area - 1) < 1e-6
            bad = np.abs(mrow[t][full]) / CA[t].area[full][:, None]
            c.check(not bad.size or bad.max() < 3e-6, 'distance-sum', lambda: 'source tile %d: area-weighted distances of a covered cell add up to %s' % (t, bad.max()))
    c.count('overlaps', nover)
    c.count('kind:' + g['kind'])
    c.count('pair:%s-%s' % (A.kind, B.kind))
    if g['mpi']:
        c.count('parallel_runs')
    c.nontrivial = nover > 0
    c.sig = repr(sorted((k, v) for k, v in g.items() if k != 'mpi'))[:300]
