"""remap_land: every tile of the new restart is an intact tile of the nearest source cell of its kind."""
import os, random
import numpy as np
from vlib import nc, freg

ID = 'C29'
TOOLS = ['remap_land', 'remap_land_parallel', 'make_hgrid', 'make_solo_mosaic']
MIN = 60
RULE = ('random land restarts (cube, global and regional source and target grids; several soil tiles, glacier and lake tiles in any order, empty faces, cohorts, levels, carbon cohorts, time, species names) remapped for every file type. Every entry of the output carries the identity of the source tile it came from: '
        'checked are the set of tiles of each target cell, that they come whole and in order from a nearest source cell having that kind of tile, the tile numbering, the fractions, every other variable of the entry (levels, cohorts, tags), the axes and scalars, and that a remap file reproduces the run. '
        'Inconsistent inputs and cells needing more tiles than the source file has must be refused. Non-trivial: at least one tile was moved to another cell number or face or a refusal was due; distinct by case.')
ASSUMPTIONS = ['index variables precede the data variables', 'axis variables as written by the land model (double or int)', 'cells equally near within 1e-7 rad are accepted either way']
FI, FD = -2147483647, 9.9692099683868690e36
TYPES = ['land', 'soil', 'cana', 'snow', 'lake', 'glac', 'vegn', 'fire']
BAD = ['srclon', 'coldlon', 'landcoldlon', 'noland', 'landgiven', 'tileaxis', 'notile', 'nomosaic', 'norestart', 'index', 'cohortaxis', 'type']


def gen(rng, tier):
    cs = []
    for i in range(260 if tier == 'quick' else 3000):
        g = {'seed': rng.randrange(1 << 30), 'type': rng.choice(TYPES + ['vegn', 'vegn', 'land', 'soil'])}
        for k in ('src', 'dst'):
            q = freg.draw(rng, ['cube', 'cube', 'latlon', 'latlon', 'regional', 'skew'])
            if q['kind'] == 'cube':
                q['n'] = rng.choice([2, 2, 4, 4, 6])
            g[k] = q
        g['same'] = rng.random() < 0.12
        g['mpi'] = rng.choice([0, 0, 0, 0, 0, 2, 3, 4])
        g['nsoil'] = rng.choice([1, 2, 3, 3, 6])
        g['dens'] = rng.choice([0.02, 0.2, 0.5, 0.9, 1])
        g['glac'] = [rng.choice([0, 0.1, 0.3, 0.3]), rng.choice([0, 0.1, 0.3])]
        g['lake'] = [rng.choice([0, 0.1, 0.3, 0.3]), rng.choice([0, 0.1, 0.3])]
        g['ddens'] = rng.choice([0.05, 0.3, 0.8, 1])
        g['cdens'] = rng.choice([1, 2, 3])
        g['empty'] = rng.random() < 0.2
        g['extra'] = rng.choice([0, 0, 1, 2, 2, 2, 5])
        g['time'] = rng.choice([None, None, 'time', 'Time'])
        g['nt'] = rng.choice([1, 1, 3]) if g['type'] == 'vegn' else 1
        g['nz'] = rng.choice([0, 1, 3, 5])
        g['nco'] = rng.choice([1, 2, 3, 5])
        g['sc'], g['lc'], g['nsp'] = rng.choice([0, 1, 3]), rng.choice([0, 1, 2]), rng.choice([0, 0, 2, 4])
        g['mdf'] = rng.choice([0, 3])
        g['tilevar'] = [rng.random() < 0.6, rng.random() < 0.6]
        g['covar'] = [rng.random() < 0.6, rng.random() < 0.6]
        g['rm'] = rng.random() < 0.25
        g['fill'] = rng.random() < 0.15
        g['bad'] = rng.choice([None] * 11 + [rng.choice(BAD)])
        cs.append(g)
    return cs


def land(r, shape, nface, dens, nsoil, pg, pl, maxed=None):
    """per face {cell: [(kind, tag, vegtag, frac)...]} in tile order"""
    ny, nx = shape
    out = []
    for n in range(nface):
        d = {}
        for s in range(nx * ny):
            if r.random() > dens:
                continue
            k = ['soil'] * r.randint(0 if pg or pl else 1, nsoil)
            if r.random() < pg:
                k.append('glac')
            if r.random() < pl:
                k.append('lake')
            r.shuffle(k)
            if not k:
                k = ['soil']
            w = np.array([r.uniform(0.05, 1) for _ in k])
            w *= r.uniform(0.3, 1) / w.sum()
            d[s] = [(q, r.randint(1, 9), r.randint(1, 5), f) for q, f in zip(k, w)]
        out.append(d)
    return out


def entries(face, npts, kinds=None):
    """[(tile number, cell, tile)] sorted by index"""
    return sorted([(t, s, q) for s, l in face.items() for t, q in enumerate(l) if kinds is None or q[0] in kinds], key=lambda z: (z[0], z[1]))


def base(g, lon, lat, ntile, e, npts, tilevar, r):
    f = nc.F('NETCDF3_64BIT_OFFSET')
    f.dims.update(lon=len(lon), lat=len(lat), tile=ntile, tile_index=max(1, len(e)))
    f.vars['lon'] = nc.V('double', ['lon'], {'units': 'degrees_east'}, np.array(lon))
    f.vars['lat'] = nc.V('double', ['lat'], {'units': 'degrees_north'}, np.array(lat))
    if tilevar:
        f.vars['tile'] = nc.V('int', ['tile'], {}, np.arange(1, ntile + 1, dtype='i4'))
    f.vars['tile_index'] = nc.V('int', ['tile_index'], {'compress': 'tile lat lon'}, np.array([t * npts + s for t, s, q in e] or [FI], 'i4'))
    return f


def addland(f, e):
    f.vars['frac'] = nc.V('double', ['tile_index'], {'units': '1'}, np.array([q[3] for t, s, q in e] or [FD]))
    for k in ('glac', 'lake', 'soil', 'vegn'):
        f.vars[k] = nc.V('int', ['tile_index'], {}, np.array([(q[2] if k == 'vegn' else q[1]) if q[0] == ('soil' if k == 'vegn' else k) else FI for t, s, q in e] or [FI], 'i4'))


def fname(n, nf, t):
    return (n if n.endswith('.nc') else n + '.nc') if nf == 1 else '%s.tile%d.nc' % (n, t + 1)


def kindsof(ty):
    return {'land': None, 'cana': None, 'snow': None, 'soil': ('soil',), 'vegn': ('soil',), 'fire': ('soil',), 'glac': ('glac',), 'lake': ('lake',)}[ty]


def run_case(g, c):
    r = random.Random(g['seed'])
    ty, bad = g['type'], g['bad']
    S = freg.make(g['src'], c, 'src')
    Dg = S if g['same'] else freg.make(g['dst'], c, 'dst')
    dmos = S.mosaic if g['same'] else Dg.mosaic
    nfs, nfd = len(S.tiles), len(Dg.tiles)
    ny, nx = S.centers(0)[0].shape
    my, mx = Dg.centers(0)[0].shape
    ns, nd = nx * ny, mx * my
    src = land(r, (ny, nx), nfs, g['dens'], g['nsoil'], g['glac'][0], g['lake'][0])
    dst = land(r, (my, mx), nfd, g['ddens'], g['cdens'], g['glac'][1], g['lake'][1])
    if g['empty'] and nfs > 1:
        src[r.randrange(nfs)] = {}
    if g['empty'] and nfd > 1:
        dst[r.randrange(nfd)] = {}
    if not any(src):
        src[0][0] = [('soil', 1, 1, 0.5)]
    if not any(dst):
        dst[-1][nd - 1] = [('soil', 1, 1, 0.5)]
    ntile = max([len(l) for d in src for l in d.values()]) + g['extra']
    ncold = max([len(l) for d in dst for l in d.values()]) + r.choice([0, 0, 2])
    kinds = kindsof(ty)
    nt = g['nt'] if g['time'] else 1
    nco = g['nco']
    ext = r.choice(['.nc', '', '.res'])
    SL, CL = 'land_src' + ext, 'land_cold' + ext
    SR, CR = (SL, CL) if ty == 'land' else (ty + '_src' + ext, ty + '_cold' + ext)
    acc = []
    srce, coh, data = [], [], {}
    ident = 0
    FL = []
    spec = np.array([[b'abcdefgh'[(i + j) % 8:(i + j) % 8 + 1] for j in range(6)] for i in range(max(1, g['nsp']))])
    for n in range(nfs):
        lon, lat = S.centers(n)[0][0], S.centers(n)[1][:, 0]
        e0 = entries(src[n], ns)
        e = entries(src[n], ns, kinds)
        srce.append(e)
        for nm in {SL, SR}:
            own = nm == SR
            ee = e if own else e0
            f = base(g, lon, lat, ntile, ee, ns, g['tilevar'][0], r)
            if nm == SL:
                addland(f, ee)
            if own:
                T = []
                if g['time']:
                    T = [g['time']]
                    f.dims[g['time']] = None
                    f.rec = g['time']
                    f.vars[g['time']] = nc.V('double', T, {'units': 'days'}, np.arange(nt) * 30.0 + 15)
                m = max(1, len(ee))
                ids = np.arange(ident + 1, ident + 1 + m, dtype='i4')
                ident += m
                A = {}
                nz = g['nz']
                if nz:
                    f.dims['zfull'] = nz
                    f.vars['zfull'] = nc.V('double', ['zfull'], {'units': 'm'}, np.arange(nz) * 0.5 + 0.1)
                if ty in ('soil', 'vegn'):
                    for k, q in (('soilCCohort', g['sc']), ('litterCCohort', g['lc']), ('nspecies', g['nsp'])):
                        if q:
                            f.dims[k] = q
                            f.vars[k] = nc.V('double', [k], {}, np.arange(1.0, q + 1))
                    if g['nsp']:
                        f.dims['textlen'] = 6
                        f.vars['textlen'] = nc.V('double', ['textlen'], {}, np.arange(1.0, 7))
                        f.vars['species_names'] = nc.V('char', ['nspecies', 'textlen'], {}, spec)
                if ty == 'fire' and g['mdf']:
                    f.dims['mdf_day'] = g['mdf']
                    f.vars['mdf_day'] = nc.V('double', ['mdf_day'], {}, np.arange(1.0, g['mdf'] + 1))
                if ty == 'vegn':
                    ch = sorted((cc, t, s) for t, s, q in ee for cc in range(r.randint(1, nco)))
                    coh.append(ch)
                    f.dims['cohort'] = nco
                    f.dims['cohort_index'] = max(1, len(ch))
                    if g['covar'][0]:
                        f.vars['cohort'] = nc.V('int', ['cohort'], {}, np.arange(1, nco + 1, dtype='i4'))
                    f.vars['cohort_index'] = nc.V('int', ['cohort_index'], {'compress': 'cohort tile lat lon'}, np.array([cc * ntile * ns + t * ns + s for cc, t, s in ch] or [FI], 'i4'))
                f.vars['n_accum'] = nc.V('int', [], {}, np.int32(7 + n))
                f.vars['nmn_acm'] = nc.V('int', [], {}, np.int32(90 + n))
                acc.append((7 + n, 90 + n))
                f.vars['ident'] = nc.V('int', ['tile_index'], {'long_name': 'identity'}, ids)
                rnd = np.random.default_rng(g['seed'] ^ n)
                def var(name, dims, typ='double'):
                    sh = [nt if d in T else f.dims[d] for d in dims]
                    a = rnd.integers(1, 1000000, sh).astype('i4') if typ == 'int' else rnd.normal(size=sh) * 10 ** rnd.uniform(-3, 6)
                    if g.get('fill') and dims[-1] == 'tile_index':
                        a[rnd.random(sh) < 0.2] = FI if typ == 'int' else FD
                    f.vars[name] = nc.V(typ, dims, {'units': 'u%d' % len(name), 'long_name': name}, a)
                var('temp', ['tile_index'])
                var('flag', ['tile_index'], 'int')
                if nz:
                    var('wl', ['zfull', 'tile_index'])
                    var('kk', ['zfull', 'tile_index'], 'int')
                if T:
                    var('tt', T + ['tile_index'])
                    var('ti', T + ['tile_index'], 'int')
                    if nz:
                        var('tz', T + ['zfull', 'tile_index'])
                if ty in ('soil', 'vegn'):
                    if g['lc']:
                        var('litter', ['litterCCohort', 'tile_index'])
                        var('litteri', ['litterCCohort', 'tile_index'], 'int')
                    if g['sc'] and nz:
                        var('carbon', ['soilCCohort', 'zfull', 'tile_index'])
                        var('carboni', ['soilCCohort', 'zfull', 'tile_index'], 'int')
                if ty == 'fire' and g['mdf']:
                    var('burn', ['mdf_day', 'tile_index'])
                if ty == 'vegn':
                    var('cid', ['cohort_index'], 'int')
                    f.vars['cid'].data = np.arange(1, f.dims['cohort_index'] + 1, dtype='i4') + 100000 * (n + 1)
                    var('height', ['cohort_index'])
                    var('stat', ['cohort_index'], 'int')
                    if T:
                        var('tcoh', T + ['cohort_index'])
                FL.append(f)
            if bad == 'srclon' and own and n == nfs - 1:
                f = base(g, np.arange(len(lon) + 1.0), lat, ntile, ee, ns, g['tilevar'][0], r)
            if bad == 'tileaxis' and own and n == nfs - 1 and nfs > 1:
                f.vars['tile'] = nc.V('int', ['tile'], {}, np.arange(2, ntile + 2, dtype='i4'))
            if bad == 'cohortaxis' and own and n == nfs - 1 and ty == 'vegn' and nfs > 1:
                f.vars['cohort'] = nc.V('int', ['cohort'], {}, np.arange(2, nco + 2, dtype='i4'))
            if bad == 'notile' and own and n == 0:
                f = nc.F('NETCDF3_64BIT_OFFSET')
                f.dims.update(lon=len(lon), lat=len(lat), tile_index=max(1, len(ee)))
                f.vars['tile_index'] = nc.V('int', ['tile_index'], {}, np.array([t * ns + s for t, s, q in ee] or [FI], 'i4'))
            if bad == 'index' and own and ty in ('cana', 'snow') and n == nfs - 1:
                a = f.vars['tile_index'].data.copy()
                a[-1] += 1
                f.vars['tile_index'].data = a
            if not (bad == 'norestart' and own and n == nfs - 1):
                nc.write(fname(nm, nfs, n), f)
    for n in range(nfd):
        lon, lat = Dg.centers(n)[0][0], Dg.centers(n)[1][:, 0]
        for nm in {CL, CR}:
            ee = entries(dst[n], nd, None if nm == CL else kinds)
            l2 = np.arange(len(lon) + 1.0) if bad == 'coldlon' and nm == CR or bad == 'landcoldlon' and nm == CL else lon
            f = base(g, l2, lat, ncold, ee, nd, g['tilevar'][1], r)
            if nm == CL:
                addland(f, ee)
            if nm == CR and ty == 'vegn':
                f.dims['cohort'] = nco
                if g['covar'][1]:
                    f.vars['cohort'] = nc.V('int', ['cohort'], {}, np.arange(1, nco + 1, dtype='i4'))
            nc.write(fname(nm, nfd, n), f)
    # what the specification needs of each target cell
    P = [np.array([[np.cos(np.radians(a)) * np.cos(np.radians(o)), np.cos(np.radians(a)) * np.sin(np.radians(o)), np.sin(np.radians(a))] for o, a in zip(*[q.ravel() for q in S.centers(n)])]) for n in range(nfs)]
    Q = [np.array([[np.cos(np.radians(a)) * np.cos(np.radians(o)), np.cos(np.radians(a)) * np.sin(np.radians(o)), np.sin(np.radians(a))] for o, a in zip(*[q.ravel() for q in Dg.centers(n)])]) for n in range(nfd)]
    have = {k: [(n, s) for n in range(nfs) for s in sorted(src[n]) if any(q[0] == k for q in src[n][s])] for k in ('soil', 'glac', 'lake')}
    pos = {k: np.array([P[n][s] for n, s in v]) for k, v in have.items() if v}
    anyk = {k: any(q[0] == k for d in dst for l in d.values() for q in l) for k in ('soil', 'glac', 'lake')}
    fail, maybe = False, False
    need = {}
    for n in range(nfd):
        for s, l in dst[n].items():
            cand = {}
            for k in ('soil', 'glac', 'lake'):
                if any(q[0] == k for q in l):
                    if not have[k]:
                        fail = True
                        continue
                    d = np.linalg.norm(pos[k] - Q[n][s], axis=1)
                    d = 2 * np.arcsin(np.minimum(1, d / 2))
                    cand[k] = [have[k][i] for i in np.flatnonzero(d <= d.min() + 1e-7)]
            need[n, s] = cand
            cnt = {sum(q[0] == 'soil' for q in src[a][b]) for a, b in cand['soil']} if 'soil' in cand else {0}
            tot = {'land': ('glac', 'lake'), 'cana': ('glac', 'lake'), 'snow': ('glac', 'lake'), 'glac': ('glac',), 'lake': ('glac', 'lake')}.get(ty, ())
            if ty == 'glac' and 'glac' not in cand or ty == 'lake' and 'lake' not in cand:
                tot, cnt = (), {0}
            ext = sum(k in cand for k in tot)
            if min(cnt) + ext > ntile:
                fail = True
            elif max(cnt) + ext > ntile:
                maybe = True
    args = ['--src_mosaic', S.mosaic, '--dst_mosaic', dmos, '--src_restart', SR, '--dst_restart', 'out.nc', '--dst_cold_restart', CR, '--file_type', ty if bad != 'type' else 'sea']
    if (ty != 'land') != (bad in ('noland', 'landgiven') and (bad == 'noland') == (ty != 'land')):
        args += ['--land_src_restart', SL, '--land_cold_restart', CL]
    if bad == 'nomosaic':
        args[1] = 'absent.nc'
    if g['rm']:
        args += ['--remap_file', 'remap.nc']
    if g['seed'] % 5 == 0:
        args += ['--print_memory']
    badreal = {'srclon': True, 'coldlon': True, 'landcoldlon': True, 'noland': ty != 'land', 'landgiven': ty == 'land', 'tileaxis': nfs > 1 and g['tilevar'][0], 'notile': True,
               'nomosaic': True, 'norestart': True, 'index': ty in ('cana', 'snow'), 'cohortaxis': nfs > 1 and ty == 'vegn' and g['covar'][0], 'type': True}.get(bad, False)
    if bad == 'tileaxis' and nfs > 1 and not g['tilevar'][0] or bad == 'cohortaxis' and nfs > 1 and ty == 'vegn' and not g['covar'][0]:
        return
    tool = 'remap_land_parallel' if g['mpi'] else 'remap_land'
    if badreal or fail:
        c.tool(tool, args, expect='fail', mpi=g['mpi'])
        c.count('refused')
        c.sig, c.nontrivial = (ty, bad, fail, nfs, nfd), True
        return
    p = c.tool(tool, args, expect=None if maybe else 0, mpi=g['mpi'])
    if p.rc != 0:
        return
    outs = [nc.read(fname('out.nc', nfd, n)) for n in range(nfd)]
    # source tiles by identity
    byid = {}
    for n in range(nfs):
        for i, (t, s, q) in enumerate(srce[n]):
            byid[int(FL[n].vars['ident'].data[i])] = (n, i, t, s, q)
    moved = 0
    for n in range(nfd):
        f = outs[n]
        cells = [s for s in sorted(dst[n]) if need[n, s]]
        exp = []
        for s in cells:
            cand, k0 = need[n, s], 0
            if 'soil' in cand:
                k0 = None
            exp.append((s, cand))
        c.check(f.dims.get('lon') == mx and f.dims.get('lat') == my and f.dims.get('tile') == ntile, 'dims', 'dimensions %s' % f.dims)
        lon, lat = Dg.centers(n)[0][0], Dg.centers(n)[1][:, 0]
        c.check(np.allclose(f.vars['lon'].data, lon, rtol=0, atol=1e-9) and np.allclose(f.vars['lat'].data, lat, rtol=0, atol=1e-9), 'axes', 'lon/lat axes are not those of the target grid')
        if g['tilevar'][0] or g['tilevar'][1]:
            c.check('tile' in f.vars and list(f.vars['tile'].data) == list(range(1, ntile + 1)), 'tilevar', 'tile axis')
        if g['nz']:
            c.check(np.array_equal(f.vars['zfull'].data, np.arange(g['nz']) * 0.5 + 0.1), 'zfull', 'level axis')
        for a in FL[0].vars:
            c.check(a in f.vars and f.vars[a].type == FL[0].vars[a].type and list(f.vars[a].dims) == list(FL[0].vars[a].dims), 'vars', 'variable %s missing or of other type or shape' % a)
            for q, w in FL[0].vars[a].atts.items():
                c.check(nc.atteq(f.vars[a].atts.get(q), w), 'atts', 'attribute %s:%s is %r' % (a, q, f.vars[a].atts.get(q)))
        if ty == 'vegn' and (g['covar'][0] or g['covar'][1]):
            c.check('cohort' in f.vars and list(f.vars['cohort'].data) == list(range(1, nco + 1)), 'cohortvar', 'cohort axis')
        if g['time']:
            c.check(np.array_equal(f.vars[g['time']].data, np.arange(nt) * 30.0 + 15), 'time', 'time axis')
        wantk = {'soil': kinds is None or 'soil' in kinds, 'glac': kinds is None or 'glac' in kinds, 'lake': kinds is None or 'lake' in kinds}
        anyent = any(k in need[n, s] and wantk[k] for s in cells for k in wantk)
        if not anyent:
            c.check(f.dims['tile_index'] == 1 and f.vars['tile_index'].data[0] == FI, 'empty', 'a face without tiles has an entry')
            continue
        w = nfs == nfd and acc[n] or acc[0]
        c.check((int(f.vars['n_accum'].data), int(f.vars['nmn_acm'].data)) == w, 'scalars', 'n_accum, nmn_acm')
        for a in ('soilCCohort', 'litterCCohort', 'nspecies', 'textlen', 'mdf_day', 'species_names'):
            if a in FL[0].vars:
                c.check(np.array_equal(f.vars[a].data, FL[0].vars[a].data), 'axis:' + a, '%s differs from the source' % a)
        ti = f.vars['tile_index'].data
        if not c.check((np.diff(ti) > 0).all() and ti.min() >= 0 and ti.max() < ntile * nd, 'order', 'tile_index not increasing or out of range'):
            return
        got = {}
        for j, v in enumerate(ti):
            got.setdefault(int(v) % nd, []).append((int(v) // nd, j))
        c.check(set(got) == {s for s in cells if any(wantk[k] for k in need[n, s])}, 'cells', 'cells with tiles differ from those of the cold restart: %s' % sorted(set(got) ^ set(cells))[:5])
        idd = f.vars['ident'].data
        for s in cells:
            cand = need[n, s]
            ent = sorted(got.get(s, []))
            ids = [byid.get(int(idd[j])) for _, j in ent]
            if not c.check(all(q is not None for q in ids), 'ident', 'entry with identity of no source tile'):
                return
            nsoil = [i for i, q in enumerate(ids) if q[4][0] == 'soil']
            # numbering: soil, then glacier, then lake
            used, okc = 0, True
            if 'soil' in cand:
                opts = [[z for z in srce_of(srce, a, b) if z[4][0] == 'soil'] for a, b in cand['soil']]
                if wantk['soil']:
                    mine = [ids[i] for i in nsoil]
                    okc &= any([(z[0], z[1]) for z in o] == [(z[0], z[1]) for z in mine] for o in opts)
                    c.check(okc, 'soil', 'cell %d of face %d has soil tiles %s, expected those of source cell %s' % (s, n, [(z[0], z[3], z[2]) for z in mine], cand['soil']))
                    used = [len(mine)]
                else:
                    used = [sum(q[0] == 'soil' for q in src[a][b]) for a, b in cand['soil']]
            else:
                c.check(not nsoil, 'nosoil', 'soil tile in a cell without soil in the cold restart')
                used = [0]
            want = []
            if wantk['soil']:
                want = list(range(used[0]))
            poss = []
            for u in used:
                wl = list(want)
                o = u
                for k in ('glac', 'lake'):
                    if k in cand:
                        if wantk[k]:
                            wl.append(o)
                        o += 1
                poss.append(wl)
            c.check([t for t, _ in ent] in poss, 'numbers', 'cell %d has tile numbers %s, expected %s' % (s, [t for t, _ in ent], poss[0]))
            for k in ('glac', 'lake'):
                z = [q for q in ids if q[4][0] == k]
                if not wantk[k] or k not in cand:
                    c.check(not z, 'extra' + k, 'unwanted %s tile' % k)
                    continue
                c.check(len(z) == 1 and (z[0][0], z[0][3]) in cand[k], k, '%s tile of cell %d comes from %s, expected %s' % (k, s, [(q[0], q[3]) for q in z], cand[k]))
            if wantk['soil'] and [q[4][0] for q in ids] != sorted([q[4][0] for q in ids], key='soil glac lake'.split().index):
                c.check(False, 'kinds', 'order of kinds')
            if ty == 'land':
                tot = sum(q[3] for q in dst[n][s] if q[0] == 'soil')
                st = sum(z[4][3] for z in ids if z[4][0] == 'soil')
                for (t, j), z in zip(ent, ids):
                    k = z[4][0]
                    x = z[4][3] * tot / st if k == 'soil' else [q[3] for q in dst[n][s] if q[0] == k][0]
                    c.check(abs(f.vars['frac'].data[j] - x) <= 1e-12 * (1 + abs(x)), 'frac', 'fraction of a %s tile is %r, expected %r' % (k, f.vars['frac'].data[j], x))
            moved += sum(1 for z in ids if z[3] != s or z[0] != n)
            c.count('cells')
        # all other variables follow the identity
        m = [byid.get(int(v)) for v in idd]
        for a, v in FL[0].vars.items():
            if a in ('frac',) or 'tile_index' not in v.dims or a == 'tile_index':
                continue
            x = f.vars[a].data
            y = np.stack([FL[z[0]].vars[a].data[..., z[1]] for z in m], -1)
            c.check(x.shape == y.shape and np.array_equal(x, y), 'data:' + a, '%s differs from the source tile at %s' % (a, np.argwhere(x != y)[:3].tolist() if x.shape == y.shape else x.shape))
            c.count('variables')
        if ty == 'vegn':
            lut = {}
            for k in range(nfs):
                for i, (cc, t, s) in enumerate(coh[k]):
                    lut.setdefault((k, t, s), []).append((cc, i))
            want = []
            for (tn, s), z in [((int(v) // nd, int(v) % nd), byid[int(idd[j])]) for j, v in enumerate(ti)]:
                for cc, i in lut[z[0], z[2], z[3]]:
                    want.append((cc * ntile * nd + tn * nd + s, z[0], i))
            want.sort()
            ci = f.vars['cohort_index'].data
            if c.check(list(ci) == [q[0] for q in want], 'cohort_index', 'cohort_index differs: %s expected %s' % (ci[:5], [q[0] for q in want[:5]])):
                for a, v in FL[0].vars.items():
                    if 'cohort_index' in v.dims and a != 'cohort_index':
                        x = f.vars[a].data
                        y = np.stack([FL[k].vars[a].data[..., i] for _, k, i in want], -1)
                        c.check(np.array_equal(x, y), 'cohort:' + a, '%s is not that of the source cohorts' % a)
                        c.count('cohort variables')
    c.sig, c.nontrivial = (ty, nfs, nfd, ntile, moved), moved > 0
    c.count('moved tiles', moved)
    if g['rm']:
        c.check(os.path.exists(fname('remap.nc', nfd, 0)), 'remapfile', 'no remap file written')
        args[args.index('out.nc')] = 'again.nc'
        c.tool('remap_land', args)
        for n in range(nfd):
            h = nc.read(fname('again.nc', nfd, n))
            for a, v in h.vars.items():
                c.check(np.array_equal(v.data, outs[n].vars[a].data), 'again', '%s differs when the remap file is read' % a)
        c.count('remap files')


def srce_of(srce, n, s):
    return [(n, i, t, q, x) for i, (t, q, x) in enumerate(srce[n]) if q == s]
