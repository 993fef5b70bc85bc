"""split_ncvars: every field ends up complete and unchanged in its own file."""
import os, random
import numpy as np
from vlib import nc, land

ID = 'C10'
TOOLS = ['list_ncvars', 'list_ncvars.sh', 'split_ncvars.pl']
MIN = 40
RULE = ('random history files (1-3 in time order, 1-4 records each, optional tile suffix, static fields, 1-7 time fields of rank 0-4 on random axes with bounds, edges, coordinates, '
        'cell_measures, formula terms, time_avg_info, time bounds, scalar_axis, geolon/geolat, names that are suffixes of each other) through split_ncvars with random options; every '
        'file written is read back: field data bit-exact and in file order, axes and auxiliary data, attributes, file set, exit status on failures. '
        'Non-trivial: two or more fields split; distinct by case.')
ASSUMPTIONS = ['variable names are CF names (letters, digits, underscores); NCO tools (ncks, ncrcat, ncatted, ncrename) are trusted']


def gen(rng, tier):
    return [{'seed': rng.randrange(1 << 30), 'fmt': rng.choice(['NETCDF3_CLASSIC', 'NETCDF3_64BIT_OFFSET', 'NETCDF4_CLASSIC', 'NETCDF3_64BIT_OFFSET']), 'nt': [rng.randint(1, 4) for _ in range(rng.choice([1, 1, 2, 3]))],
             'nv': rng.randint(1, 7), 'tile': rng.choice([None, None, None, [1], [2, 1], [1, 10], [6, 11, 1]]), 'ext': rng.random() < 0.12, 'opt': rng.choice(['', '', 's', 'v', 'v', 'f', 'a', 'c', 'p', 'p']), 'l': rng.random() < 0.3,
             'i': rng.random() < 0.3, 'o': rng.random() < 0.7, 'tb': rng.choice(['bounds', 'bounds', 'climatology', None]), 'avg': rng.random() < 0.6, 'geo': rng.random() < 0.3,
             'bad': rng.choice([None] * 8 + ['ncks', 'ncrcat'])} for _ in range(70 if tier == 'quick' else 900)]


NAMES = ['u', 'tau', 'temp', 'atemp', 'tas', 'ps', 'q', 'sphum_q', 'slp', 'p', 'ua', 'T', 'precip', 'areacello_x']


def build(g, rng):
    """files: list of F in time order (for one tile), same header, static data equal"""
    np_ = np.random.default_rng(rng.randrange(1 << 30))
    f = nc.F(g['fmt'])
    pn, phn = 'pfull', 'phalf'
    f.dims = {'time': 0, 'lat': rng.randint(1, 4), 'lon': rng.randint(1, 4), pn: 3, phn: 4, 'bnds': 2, 'lone': 0, 'scalar_axis': 1}
    f.dims['lone'] = f.dims['lon'] + 1
    if rng.random() < 0.6:
        del f.dims['scalar_axis']
    f.rec = 'time'
    f.atts = {'title': 'x y'}
    if rng.random() < 0.7:
        f.atts['filename'] = 'orig.nc'
    V = f.vars
    tat = {'units': 'days since 2000-01-01', 'cartesian_axis': 'T'}
    if rng.random() < 0.5:
        tat['calendar_type'] = 'NOLEAP'
    if rng.random() < 0.4:
        tat['calendar'] = 'NoLeap'
    if g['tb']:
        tat[g['tb']] = 'time_bnds'
        V['time_bnds'] = nc.V('double', ('time', 'bnds'), {}, None)
    V['time'] = nc.V('double', ('time',), tat, None)

    def coord(d, ax, att=None, typ='double'):
        V[d] = nc.V(typ, (d,), dict({'cartesian_axis': ax, 'units': rng.choice(['degrees', 'none', 'm'])}, **(att or {})), nc.randdata(np_, typ, (f.dims[d],)))
    coord('lat', 'Y', {'bounds': 'lat_bnds'} if rng.random() < 0.6 else None)
    coord('lon', 'X', {'edges': 'lone'} if rng.random() < 0.6 else None)
    if 'bounds' in V['lat'].atts:
        V['lat_bnds'] = nc.V('double', ('lat', 'bnds'), {}, nc.randdata(np_, 'double', (f.dims['lat'], 2)))
    coord('lone', 'X')
    ft = rng.random() < 0.5
    coord(pn, 'Z', {'formula_terms': 'ap: pk b: bk ps: ps'} if ft else None)
    coord(phn, 'Z')
    coord('bnds', 'N')
    if 'scalar_axis' in f.dims:
        coord('scalar_axis', 'Z')
    V['pk'] = nc.V('float', (phn,), {}, nc.randdata(np_, 'float', (4,)))
    V['bk'] = nc.V('float', (phn,), {}, nc.randdata(np_, 'float', (4,)))
    V['height2m'] = nc.V('double', (), {'units': 'm'}, np.float64(2.0))
    V['area_st'] = nc.V('float', ('lat', 'lon'), {'units': 'm2'}, nc.randdata(np_, 'float', (f.dims['lat'], f.dims['lon'])))
    V['zsurf'] = nc.V('double', ('lat',), {'bounds': 'zs_b'}, nc.randdata(np_, 'double', (f.dims['lat'],)))
    V['zs_b'] = nc.V('double', ('lat', 'bnds'), {}, nc.randdata(np_, 'double', (f.dims['lat'], 2)))
    if g['geo']:
        for n in ('geolon', 'geolat'):
            V[n] = nc.V('float', ('lat', 'lon'), {'units': 'deg'}, nc.randdata(np_, 'float', (f.dims['lat'], f.dims['lon'])))
    if g['avg']:
        for n in ('average_T1', 'average_T2', 'average_DT'):
            V[n] = nc.V('double', ('time',), {'units': 'days'}, None)
    names = rng.sample(NAMES, g['nv'])
    if (ft or g['opt'] == 'p') and 'ps' not in names:
        names.append('ps')
    shapes = [('time',), ('time', 'lat', 'lon'), ('time', 'lat', 'lon'), ('time', pn, 'lat', 'lon'), ('time', phn, 'lat', 'lon'), ('time', 'lat'), ('time', pn)]
    if 'scalar_axis' in f.dims:
        shapes.append(('time', 'scalar_axis', 'lat', 'lon'))
    for n in names:
        d = rng.choice(shapes) if n != 'ps' else ('time', 'lat', 'lon')
        t = rng.choice(['float', 'float', 'double', 'int', 'short'])
        if 'scalar_axis' in d:
            t = rng.choice(['float', 'double'])
        at = {'units': rng.choice(['K', 'none', 'm s-1']), 'long_name': 'the ' + n}
        if rng.random() < 0.5:
            at['missing_value'] = nc.randdata(np_, t, (1,))
        if g['avg'] and rng.random() < 0.8:
            at['time_avg_info'] = 'average_T1,average_T2,average_DT'
        if rng.random() < 0.3:
            at['cell_measures'] = rng.choice(['area: areacella', 'volume: volcello area: area_st'])
        if rng.random() < 0.35:
            at['coordinates'] = rng.choice(['zsurf', 'height2m', 'zsurf height2m', 'nosuch zsurf'])
        if rng.random() < 0.3:
            at['standard_name'] = 'std_' + n
        V[n] = nc.V(t, d, at, None)
    order = list(V)
    rng.shuffle(order)
    f.vars = {n: V[n] for n in order}
    out = []
    t0 = 0.0
    for nt in g['nt']:
        h = nc.F(g['fmt'])
        h.dims = dict(f.dims, time=nt)
        h.rec = 'time'
        h.atts = dict(f.atts)
        for n, v in f.vars.items():
            if 'time' in v.dims:
                sh = [h.dims[d] for d in v.dims]
                data = nc.randdata(np_, v.type, sh)
                if n == 'time':
                    data = t0 + np.arange(nt) + 0.5
                h.vars[n] = nc.V(v.type, v.dims, v.atts, data)
            else:
                h.vars[n] = v
        t0 += nt
        out.append(h)
    return out, names


def sel(f, want):
    """names pulled in by ncks -v: the list plus the coordinate variables, and what NCO adds by itself is allowed"""
    out = set(want)
    for n in list(want):
        for d in f.vars[n].dims:
            if d in f.vars:
                out.add(d)
    return out


def run_case(g, c):
    rng = random.Random(g['seed'])
    tiles = g['tile'] or [None]
    idir = 'in' if g['i'] else '.'
    os.makedirs(idir, exist_ok=True)
    sets, args = {}, []
    for t in tiles:
        r2 = random.Random(g['seed'] ^ 99)
        fs, names = build(g, r2)
        if t is not None and t != tiles[0]:
            dd = np.random.default_rng(g['seed'] ^ t)
            for h in fs:
                for n in names:
                    v = h.vars[n]
                    h.vars[n] = nc.V(v.type, v.dims, v.atts, nc.randdata(dd, v.type, v.data.shape))
        ext = '.0003' if g['ext'] else ''
        if ext:
            fs = fs[:1]
        for k, h in enumerate(fs):
            n = 'h%d%s.nc%s' % (k, '' if t is None else '.tile%d' % t, ext)
            nc.write(os.path.join(idir, n), h)
            args.append(n)
        sets[t] = fs
    first = sets[tiles[0]][0]
    opts = []
    sel_v = None
    if g['opt'] == 's':
        opts.append('-s')
    elif g['opt'] in 'vf' and g['opt']:
        pool = names + ['area_st', 'nosuchvar']
        sel_v = rng.sample(pool, rng.randint(1, len(pool)))
        if len(g['nt']) * len(tiles) > 1:
            sel_v = [n for n in sel_v if n != 'area_st'] or [names[0]]
        if not set(sel_v) & set(names):
            sel_v.append(names[0])
        opts += ['-v', ','.join(sel_v)]
        if g['opt'] == 'f':
            if len(args) > 1:
                args = args[:1]
                sets = {tiles[0]: sets[tiles[0]][:1]}
                tiles = tiles[:1]
            opts += ['-f', 'one.nc']
    elif g['opt'] in ('a', 'c', 'p'):
        opts.append('-' + g['opt'])
    if g['opt'] == 's' and len(g['nt']) > 1:
        args = [a for a in args if a.startswith('h0')]
        sets = {t: fs[:1] for t, fs in sets.items()}
    odir = '.'
    if g['o']:
        odir = 'out/sub'
        opts += ['-o', odir]
    if g['l']:
        opts.append('-l')
    if g['i']:
        opts += ['-i', 'in']
    env = {'LIST_NCVARS': c.bins['list_ncvars.sh'], 'PKGLIBEXECDIR': os.path.dirname(c.bins['list_ncvars'])}
    nruns = sum(len(v) for v in sets.values())
    bad = g['bad'] if not (g['bad'] == 'ncrcat' and (nruns < 2 or g['opt'] in ('s', 'f') or g['ext'] or len(sets[tiles[0]]) < 2)) else None
    if bad:
        with open('stub', 'w') as s:
            s.write('#!/bin/sh\nn=$(cat stubcnt 2>/dev/null || echo 0); n=$((n+1)); echo $n > stubcnt\n[ $n = %d ] && exit %d\nexec /usr/bin/%s "$@"\n' % (1, rng.choice([1, 2, 139]), bad))
        os.chmod('stub', 0o755)
        env[bad.upper()] = os.path.abspath('stub')
    before = {os.path.join(idir, a): open(os.path.join(idir, a), 'rb').read() for a in args}
    had = set(os.listdir(odir)) if os.path.isdir(odir) else set()
    r = c.tool('split_ncvars.pl', opts + args, env=env, timeout=240, expect='fail' if bad else 0)
    for p, b in before.items():
        if not c.check(os.path.exists(p) and open(p, 'rb').read() == b, 'input-changed', p):
            return
    if bad:
        c.check(os.path.exists('stubcnt'), 'stub-unused', 'the %s stub never ran' % bad)
        c.count('failing_helpers')
        c.nontrivial, c.sig = True, g['seed']
        return
    # expected list of fields
    tb = 'time_bnds' if g['tb'] else None

    def skip(n):
        return first.vars[n].type == 'char' or n[-3:] in ('_T1', '_T2', '_DT')
    if sel_v is not None:
        fields = [n for n in sel_v if n in first.vars]
    elif g['opt'] == 's':
        fields = [n for n, v in first.vars.items() if 'time' not in v.dims and not skip(n)]
    else:
        fields = [n for n, v in first.vars.items() if 'time' in v.dims and not skip(n) and n != tb]
    if g['opt'] == 'f':
        o = nc.read('one.nc')
        for n in fields:
            if c.check(n in o.vars, 'field-missing', n):
                c.check(nc.biteq(o.vars[n].data, first.vars[n].data), 'field-data', lambda: n + nc.diffwhere(o.vars[n].data, first.vars[n].data))
        c.nontrivial, c.sig = len(fields) > 1, g['seed']
        return
    exp = {}
    for t in sets:
        for n in fields:
            exp['%s%s.nc%s' % (n, '' if t is None else '.tile%d' % t, '.0003' if g['ext'] else '')] = (t, n)
    got = {n for n in os.listdir(odir) if '.nc' in n} - had - {'stub', 'stubcnt'}
    c.check(got == set(exp), 'fileset', lambda: 'missing %s extra %s' % (sorted(set(exp) - got), sorted(got - set(exp))))
    c.check(not [n for n in os.listdir('.') if n.startswith('.split')], 'leftover', lambda: os.listdir('.'))
    for fn in sorted(set(exp) & got):
        t, n = exp[fn]
        o = nc.read(os.path.join(odir, fn))
        fs = sets[t]
        ref = fs[0]
        v0 = ref.vars[n]
        cmip = g['opt'] == 'c' or (g['opt'] == 'a' and 'standard_name' in v0.atts)
        want = [n]
        for d in v0.dims:
            if d == 'time' and g['opt'] != 's':
                continue
            if d in ref.vars:
                for k in ('bounds', 'edges'):
                    if k in ref.vars[d].atts:
                        want.append(ref.vars[d].atts[k])
                if 'formula_terms' in ref.vars[d].atts:
                    want += ['pk', 'bk']
        ren = {}
        for k in v0.atts.get('coordinates', '').split():
            if k in ref.vars:
                want.append(k)
                if k == 'height2m':
                    ren[k] = 'height'
                if 'bounds' in ref.vars[k].atts:
                    want.append(ref.vars[k].atts['bounds'])
        if g['geo']:
            want += ['geolon', 'geolat']
        pwant = g['opt'] == 'p' and len(v0.dims) >= 4 and ('pfull' in v0.dims or 'phalf' in v0.dims)
        if pwant:
            want += ['ps', 'pk', 'bk']
        if g['opt'] != 's':
            if not cmip and 'time_avg_info' in v0.atts:
                want += ['average_T1', 'average_T2', 'average_DT']
            if tb:
                want.append(tb)
        want = sel(ref, want)
        if 'scalar_axis' in ref.dims:
            want.discard('scalar_axis')
        for k in sorted(want):
            ko = ren.get(k, k)
            if not c.check(ko in o.vars, 'aux-missing' if k != n else 'field-missing', '%s: %s; has %s' % (fn, ko, list(o.vars))):
                continue
            vi, vo = ref.vars[k], o.vars[ko]
            if 'time' in vi.dims:
                data = np.concatenate([h.vars[k].data for h in fs], axis=0)
            else:
                data = np.asarray(vi.data)
            dims = tuple(d for d in vi.dims if d != 'scalar_axis')
            if len(dims) != len(vi.dims):
                data = data.reshape([data.shape[i] for i, d in enumerate(vi.dims) if d != 'scalar_axis'])
            c.check(vo.dims == dims, 'dims', lambda: '%s %s %s %s' % (fn, k, vo.dims, dims))
            deg = 'scalar_axis' in ref.dims and 'scalar_axis' in v0.dims
            c.check(nc.biteq(vo.data, data), 'field-data' if k == n else 'aux-data', lambda: '%s %s: %s' % (fn, k, nc.diffwhere(vo.data, data) if vo.data.dtype == data.dtype else (vo.data.dtype, data.dtype)))
            c.count('variables_compared')
            # attributes
            ea = dict(vi.atts)
            if k == n and 'coordinates' in ea and 'height2m' in ea['coordinates']:
                ea['coordinates'] = ' '.join(ren.get(x, x) for x in ea['coordinates'].split() if x in ref.vars)
            if k == n and cmip:
                ea.pop('time_avg_info', None)
            if cmip and (k in v0.dims or k in [ref.vars[d].atts.get('bounds') for d in v0.dims if d in ref.vars] or k == 'bnds'):
                ca = ea.pop('cartesian_axis', None)
                ea.pop('axis', None)
                cal, calt = ea.get('calendar'), ea.pop('calendar_type', None)
                if k == 'time' and (cal or calt):
                    ea['calendar'] = 'noleap'
                if ea.get('units') == 'none':
                    ea['units'] = '1'
                oa = dict(vo.atts)
                if k in ('lat', 'lon'):
                    oa.pop('standard_name', None)
                if ca and ca != 'N':
                    c.check(oa.get('axis') == ca, 'axis-att', '%s %s %s' % (fn, k, oa))
                oa.pop('axis', None)
            else:
                oa = dict(vo.atts)
            if deg:
                oa.pop('cell_methods', None)
            oa.pop('_FillValue', None) if '_FillValue' not in ea else None
            bad_ = [a for a in set(ea) | set(oa) if a not in ea or a not in oa or not nc.atteq(ea[a], oa[a])]
            if k == 'bnds' and cmip:
                bad_ = []
            c.check(not bad_, 'atts', lambda: '%s %s: %s expected %s got %s' % (fn, k, bad_, ea, oa))
        ft = 'formula_terms' in ref.vars['pfull'].atts   # NCO follows formula terms by itself
        others = [x for x in fields if x != n and x in o.vars and x not in want and 'time' in ref.vars[x].dims and x != 'time' and not (x == 'ps' and ft)]
        c.check(not others, 'foreign-fields', lambda: '%s %s' % (fn, others))
        if g['opt'] == 'c':
            c.check('average_T1' not in o.vars, 'cmip-avg', fn)
        if g['opt'] == 'p' and not pwant and n != 'ps' and not ft:
            c.check('ps' not in o.vars, 'ps-extra', fn)
        if 'filename' in ref.atts:
            c.check(o.atts.get('filename') == fn.replace('.nc.0003', '.nc'), 'filename-att', lambda: '%s %s' % (fn, o.atts.get('filename')))
        x = v0.atts.get('cell_measures', '').split()
        if x and v0.dims and g['opt'] != 's':
            ext = o.atts.get('external_variables', '').split()
            c.check(set(w for w in x if not w.endswith(':')) <= set(ext), 'external', '%s %s' % (fn, ext))
        c.check(len(o.dims) == 0 or o.dims.get('time', sum(g['nt'])) in (sum(h.dims['time'] for h in fs),) or 'time' not in v0.dims, 'time-length', lambda: '%s %s' % (fn, o.dims))
    if g['l']:
        c.check(os.path.exists(os.path.join(odir, 'README')), 'readme')
    c.nontrivial = len(exp) > 1
    c.sig = g['seed']
    c.count('files', len(exp))
