"""make_quick_mosaic: land and ocean share every cell."""
import os, random
import numpy as np
from vlib import nc, grids, freg
from checks.c18 import pick

ID = 'C24'
TOOLS = ['make_hgrid', 'make_solo_mosaic', 'make_quick_mosaic']
MIN = 120
RULE = ('random mosaics of one or several tiles with a topography (depths or masks, sea levels), land fractions, or a coupled mosaic whose exchange cells give the land; land and ocean area of every cell are recomputed and compared with the masks and all three sets of exchange '
        'files, which must also add up to the cells exactly, and names, contacts and copied files with the coupler mosaic. Wrong requests must be refused. Non-trivial: exchange cells were compared or a refusal was due; distinct by case.')
ASSUMPTIONS = ['paths shorter than 200 characters', 'land fractions between 0 and 1']


def gen(rng, tier):
    cs = []
    for i in range(400 if tier == 'quick' else 2500):
        g = {'seed': rng.randrange(1 << 30), 'mode': rng.choice(['topog', 'topog', 'frac', 'coupled', 'coupled']), 'G': pick(rng, ['cube', 'latlon', 'latlon', 'split', 'split', 'skew', 'tripolar', 'regional']),
             'level': rng.choice([None, None, 0, 100.0, -20.0]), 'mask': rng.random() < 0.4, 'p': rng.choice([0.0, 0.3, 0.7, 1.0]), 'name': rng.choice([None, 'quick', 'grid_spec']),
             'dir': rng.choice(['', '', 'INPUT', './in/put', 'd' * 60 + '/' + 'e' * 70]), 'bad': rng.choice([None] * 10 + ['tiles', 'size', 'field', 'coupled', 'cwd', 'negative', 'nofile', 'ndim', 'gridfiles']),
             'order': rng.choice([1, 2]), 'fmt': rng.choice(['NETCDF3_CLASSIC', 'NETCDF3_64BIT_OFFSET', 'NETCDF4'])}
        cs.append(g)
    return cs


def run_case(g, c):
    rng = random.Random(g['seed'])
    r = np.random.default_rng(g['seed'])
    mode, bad = g['mode'], g['bad']
    d = g['dir']
    if mode == 'coupled' and not d:
        d = 'src'
    if bad == 'cwd':
        mode, d = 'coupled', ''
    G = freg.make(g['G'], c, 'grd')
    if c.viol:
        return
    nt = len(G.tiles)
    tn = ['tile%d' % (t + 1) for t in range(nt)]
    if rng.random() < 0.3 and G.kind != 'cube' and G.kind != 'tripolar':
        tn = rng.choice([['face_%d' % (t + 1) for t in range(nt)], ['t' * (t + 1) for t in range(nt)]])
        grids.mosaic(G.mosaic, 'grd_mosaic', G.files, tn)
    raw = {f: open(f, 'rb').read() for f in G.files + [G.mosaic]}
    if d:
        os.makedirs(d)
        for f in raw:
            os.rename(f, os.path.join(d, f))
    pre = d + '/' if d else rng.choice(['', './'])
    cells = [q.area.reshape(q.ny, q.nx) for q in G.cells()]
    a = ['--input_mosaic', pre + G.mosaic]
    L, O = [], []
    must = False
    if mode == 'topog':
        f = nc.F(g['fmt'])
        f.dims['ntiles'] = nt + (bad == 'tiles')
        for t in range(nt):
            ny, nx = cells[t].shape
            sx = '' if nt == 1 else '_tile%d' % (t + 1)
            f.dims['nx' + sx], f.dims['ny' + sx] = nx + (bad == 'size' and t == nt - 1), ny
            sh = (ny, f.dims['nx' + sx])
            lv = g['level'] or 0.0
            dep = r.choice([-500.0, 0.0, 100.0, 1e-3, 99.99, -20.0, lv, np.nextafter(lv, 1e9), 4000.0], sh)
            dep[r.random(sh) < g['p']] = r.choice([3000.0, -3000.0])
            f.vars['depth' + sx] = nc.V(rng.choice(['double', 'double', 'float']), ['ny' + sx, 'nx' + sx], {'units': 'meters'}, dep)
            if f.vars['depth' + sx].type == 'float':
                dep = dep.astype('f4')
                f.vars['depth' + sx].data = dep
            w = dep.astype(float) > lv
            if g['mask']:
                m = r.choice([0.0, 1.0, 1.0, 0.5, 0.999], sh)
                f.vars['area_frac' + sx] = nc.V('double', ['ny' + sx, 'nx' + sx], {}, m)
                w = m == 1
            if bad != 'size':
                O.append(np.where(w, cells[t], 0))
                L.append(np.where(w, 0, cells[t]))
        tf = rng.choice(['topog.nc', 'tp/topog.nc'])
        if '/' in tf:
            os.makedirs('tp')
        nc.write(tf, f)
        must = bad in ('tiles', 'size')
        a += ['--ocean_topog', tf if bad != 'nofile' else 'absent.nc']
        must |= bad == 'nofile'
        if g['level'] is not None:
            a += ['--sea_level', g['level']]
    elif mode == 'frac':
        tf = rng.choice(['frac.nc', 'frac.nc', 'frac'] if nt > 1 else ['frac.nc'])
        for t in range(nt):
            ny, nx = cells[t].shape
            f = nc.F(g['fmt'])
            f.dims.update(gx=nx, gy=ny + (bad == 'size' and t == nt - 1))
            fr = r.choice([0.0, 1.0, 0.5, 1e-9, 0.999999], (f.dims['gy'], nx))
            k = r.random(fr.shape) < 0.4
            fr[k] = r.random(int(k.sum()))
            if r.random() < 0.2:
                fr[:] = r.choice([0.0, 1.0])
            nm = 'land_frac'
            if bad == 'ndim':
                f.dims['z'] = 1
                f.vars[nm] = nc.V('double', ['z', 'gy', 'gx'], {}, fr[None])
            else:
                f.vars[nm] = nc.V('double', ['gy', 'gx'], {}, fr)
            if not (bad == 'nofile' and t == nt - 1):
                nc.write(tf if nt == 1 else 'frac.tile%d.nc' % (t + 1), f)
            if bad != 'size':
                L.append(cells[t] * fr)
                O.append(cells[t] * (1 - fr))
        a += ['--land_frac_file', tf]
        if bad != 'field':
            a += ['--land_frac_field', 'land_frac']
        must = bad in ('size', 'nofile', 'field', 'ndim')
    else:
        nf = nt if nt > 1 else rng.randint(1, 3)
        L = [np.zeros(q.shape) for q in cells]
        ax = ['a%dXl%d.nc' % (k, k) for k in range(nf)]
        for k in range(nf):
            t = k if nt > 1 else 0
            C = cells[t]
            idx = np.arange(C.size)
            idx = idx[r.random(C.size) < r.choice([0.0, 0.5, 1.0, 0.9])]
            rows = []
            for q in idx:
                left = 1 - L[t].flat[q] / C.flat[q]
                if left <= 0.01:
                    continue
                fr = float(r.choice([1.0, 1.0, 0.5, 1 - 5e-7, 1 + 5e-5, r.random() * 0.99, 0.999]))
                if nf != nt:
                    fr *= left * (1 if k == nf - 1 else 0.5)
                if bad == 'negative' and q == idx[-1]:
                    fr = 1.2 * left
                    must = True
                n = rng.randint(1, 3)
                for z in range(n):
                    rows.append((q, fr * C.flat[q] / n))
            rng.shuffle(rows)
            for q, v in rows:
                L[t].flat[q] += v
            f = nc.F(g['fmt'])
            f.dims.update(string=255, ncells=len(rows) or 1, two=2)
            if not rows:
                f.rec = 'ncells'
                f.dims['ncells'] = 0
            q = np.array([z[0] for z in rows], int)
            nx = C.shape[1]
            n = len(rows)
            f.vars['contact'] = nc.V('char', ['string'], {'standard_name': 'grid_contact_spec'}, grids.chars('atmos_mosaic:tile1::grd_mosaic:' + tn[t]))
            f.vars['tile1_cell'] = nc.V('int', ['ncells', 'two'], {}, r.integers(1, 9, (n, 2)).astype('i4'))
            f.vars['tile2_cell'] = nc.V('int', ['ncells', 'two'], {}, np.stack([q % nx + 1, q // nx + 1], 1).astype('i4').reshape(n, 2))
            f.vars['xgrid_area'] = nc.V('double', ['ncells'], {'units': 'm2'}, np.array([z[1] for z in rows], float))
            if g['order'] == 2:
                for z in ('tile1_distance', 'tile2_distance'):
                    f.vars[z] = nc.V('double', ['ncells', 'two'], {}, r.uniform(-1, 1, (n, 2)))
            nc.write((d + '/' if d else '') + ax[k], f)
        f = nc.F(g['fmt'])
        f.dims.update(string=255, nfile_aXl=nf)
        if bad != 'coupled':
            f.vars['lnd_mosaic_file'] = nc.V('char', ['string'], {}, grids.chars(G.mosaic))
        f.vars['lnd_mosaic'] = nc.V('char', ['string'], {}, grids.chars('grd_mosaic'))
        f.vars['aXl_file'] = nc.V('char', ['nfile_aXl', 'string'], {}, np.array([grids.chars(q) for q in ax]))
        nc.write((d + '/' if d else '') + 'cpl.nc', f)
        a[1] = (d + '/' if d else '') + 'cpl.nc'
        must |= bad in ('coupled', 'cwd')
        O = []
        for t in range(nt):
            C = cells[t]
            o = C - L[t]
            O.append(np.where((C < L[t] + 1e-6 * C) & (C > L[t] - 1e-4 * C), 0, o))
    if bad == 'gridfiles' and mode != 'coupled':
        f = nc.F()
        f.dims['string'] = 255
        f.vars['mosaic'] = nc.V('char', ['string'], {}, grids.chars('x'))
        nc.write('other.nc', f)
        a[1] = 'other.nc'
        must = True
    if bad == 'nofile' and mode == 'coupled':
        os.remove(os.path.join(d, ax[-1]))
        must = True
    if g['name']:
        a += ['--mosaic_name', g['name']]
    out = (g['name'] or 'mosaic') + '.nc'
    if must:
        c.tool('make_quick_mosaic', a, expect='fail')
        c.check(not os.path.exists(out), 'written', 'a refused request wrote %s' % out)
        c.count('refused')
        c.nontrivial = True
        c.sig = 'bad%s%s' % (bad, mode)
        return
    before = set(os.listdir('.'))
    c.tool('make_quick_mosaic', a)
    if c.viol:
        return
    exp = {out}
    for f in raw:
        c.check(os.path.exists(f) and open(f, 'rb').read() == raw[f], 'copy', '%s is not the grid given' % f)
        exp.add(f)
    F = {'aXl': ['atmos_mosaic_%sXland_mosaic_%s.nc' % (t, t) for t in tn], 'aXo': ['atmos_mosaic_%sXocean_mosaic_%s.nc' % (t, t) for t in tn],
         'lXo': ['land_mosaic_%sXocean_mosaic_%s.nc' % (t, t) for t in tn]}
    if not c.check(os.path.exists(out), 'nooutput', out):
        return
    m = nc.read(out).vars
    for k in F:
        exp |= set(F[k])
        got = grids.text(m[k + '_file'].data)
        c.check(got == F[k], 'names', lambda: '%s: %s, expected %s' % (k, got, F[k]))
    for k, v in (('atm', 'atmos'), ('lnd', 'land'), ('ocn', 'ocean')):
        c.check(grids.text(m[k + '_mosaic_file'].data) == G.mosaic and grids.text(m[k + '_mosaic'].data) == v + '_mosaic', 'names', k)
        c.check(grids.text(m[k + '_mosaic_dir'].data) == './', 'names', k + ' dir')
    if mode == 'topog':
        c.check(grids.text(m['ocn_topog_file'].data) == 'topog.nc', 'names', lambda: 'topography %s' % grids.text(m['ocn_topog_file'].data))
    sx = [''] if nt == 1 else ['_tile%d' % (t + 1) for t in range(nt)]
    exp |= {'land_mask%s.nc' % q for q in sx} | {'ocean_mask%s.nc' % q for q in sx}
    got = set(os.listdir('.'))
    c.check(exp <= got and got - before <= exp, 'files', lambda: str(sorted((got - before) ^ exp)))
    if c.viol:
        return
    for t in range(nt):
        C = cells[t]
        ny, nx = C.shape
        ml, mo = nc.read('land_mask%s.nc' % sx[t]).vars['mask'].data, nc.read('ocean_mask%s.nc' % sx[t]).vars['mask'].data
        c.check(ml.shape == C.shape and mo.shape == C.shape, 'mask-shape', str(ml.shape))
        tol = 1e-9 if mode != 'coupled' else 1e-6
        for n, q, w in (('land', ml, L[t]), ('ocean', mo, O[t])):
            e = w / C
            b = np.abs(q - e) > tol
            if mode == 'coupled' and n == 'ocean':      # cells that are land but for rounding
                b &= ~((q == 0) & (np.abs(e) < 2e-6))
            c.check(not b.any(), 'mask', lambda: 'tile %d %s mask %r at %s, expected %r' % (t, n, q[b][0], np.argwhere(b)[0], e[b][0]))
        if mode != 'coupled':
            c.check(np.abs(ml + mo - 1).max() < 1e-12, 'share', 'land and ocean do not fill the cells')
        for k, q, who in (('aXl', ml, ('atmos', 'land')), ('aXo', mo, ('atmos', 'ocean')), ('lXo', mo, ('land', 'ocean'))):
            x = nc.read(F[k][t])
            v = x.vars
            n = int((q > 0).sum())
            i, j = v['tile1_cell'].data[:, 0], v['tile1_cell'].data[:, 1]
            c.check(np.array_equal(v['tile1_cell'].data, v['tile2_cell'].data), 'cells', k + ': the two cells differ')
            if not c.check(len(i) == n and len(set(zip(i, j))) == n and (n == 0 or (i.min() >= 1 and j.min() >= 1 and i.max() <= nx and j.max() <= ny)), 'cells', '%s tile %d: %d cells, expected %d' % (k, t, len(i), n)):
                continue
            ar = np.zeros(C.shape)
            ar[j - 1, i - 1] = v['xgrid_area'].data
            e = q * C
            b = np.abs(ar - e) > 1e-7 * C
            c.check(not b.any(), 'area', lambda: '%s tile %d at %s: %r, expected %r' % (k, t, np.argwhere(b)[0], ar[b][0], e[b][0]))
            c.check(((ar > 0) == (q > 0)).all(), 'cells', k)
            z = [v[w].data for w in ('tile1_distance', 'tile2_distance') if w in v]
            c.check(len(z) == 2 and all(w.shape == (n, 2) and not w.any() for w in z), 'distance', k)
            c.check(grids.text(v['contact'].data) == '%s_mosaic:%s::%s_mosaic:%s' % (who[0], tn[t], who[1], tn[t]), 'contact', grids.text(v['contact'].data))
            c.count('exchange cells', n)
            if n:
                c.nontrivial = True
    c.sig = repr(g['seed'])
