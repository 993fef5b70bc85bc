"""Inspection tools answer exactly what the file holds: list_ncvars, ncexists, is-compressed."""
import os, random
import numpy as np
from vlib import nc, land

ID = 'C11'
TOOLS = ['list_ncvars', 'list_ncvars.sh', 'ncexists', 'is-compressed']
MIN = 80
RULE = ('random netCDF files (4 formats, 0-14 variables of rank 0-6, all types, record dimension first/absent/elsewhere, names with the skipped suffixes and near misses, '
        'names up to 200 characters, random attributes, compress attributes on dimension variables, on other variables, or on none) and random queries, plus absent, '
        'damaged and unreadable inputs; answers are compared with a direct reading of the file. Non-trivial: file with 3 or more variables; distinct by case.')
ASSUMPTIONS = []
TY = ['float', 'double', 'int', 'short', 'byte', 'char']


def gen(rng, tier):
    return [{'seed': rng.randrange(1 << 30), 'fmt': rng.choice(land.FMTS), 'nv': rng.randint(0, 14), 'nf': rng.choice([1, 1, 2, 3])} for _ in range(420 if tier == 'quick' else 2500)]


def mkfile(rng, g):
    f = nc.F(g['fmt'])
    f.dims = {'x': 3, 'y': 2, 'z': 1, 'c': 4, 'str': 5}
    r = rng.choice(['time', 'Time', None, 'x'])
    if r:
        f.dims.setdefault(r, 2)
    f.rec = r
    np_ = np.random.default_rng(rng.randrange(1 << 30))
    names = list(f.dims)
    base = ['temp', 'u', 'average_T1', 'average_T2', 'average_DT', 'a_NITEMS', 'T1', '_T1', 'xT1', 'DT', 'b_DTx', 'X_t1', 'NITEMS', '_NITEMS', 'n_NITEM', 'q.v-1+2', 'v_' + 'l' * 190, 'd']
    nv = rng.sample(base, min(g['nv'], len(base)))
    for d in names:
        if rng.random() < 0.5 and d != 'str':
            nv.append(d)
    rng.shuffle(nv)
    comp = rng.choice(['no', 'no', 'dim', 'dim', 'nondim'])
    for n in nv:
        if n in f.dims:
            dims = (n,) if rng.random() < 0.9 else ()
            t = rng.choice(['int', 'double', 'float'])
        else:
            rank = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6])
            pool = [d for d in f.dims if d != r]
            dims = tuple(rng.choice(pool) for _ in range(rank))
            if len(set(dims)) != len(dims) and g['fmt'] == 'NETCDF3_CLASSIC':
                pass
            if r and rng.random() < 0.5 and dims:
                dims = (r,) + dims[1:]
            t = rng.choice(TY)
        at = {}
        for k in rng.sample(['units', 'long_name', 'valid_range', 'missing_value', 'A'], rng.randint(0, 3)):
            at[k] = np.array([1.0, 2.0]) if k == 'valid_range' else rng.choice(['txt', 'txt', '', np.zeros(0, 'i4'), np.zeros(0, 'f8'), np.int32(0), 'long text ' * 40])
        if n in f.dims and comp == 'dim' and rng.random() < 0.6:
            at['compress'] = rng.choice(['x y', 'x y', 'x', '', np.zeros(0, 'i4'), 'y x ' * 100])
        if n not in f.dims and comp == 'nondim':
            at['compress'] = 'x y'
        f.vars[n] = nc.V(t, dims, at, nc.randdata(np_, t, [f.dims[d] for d in dims]))
    for k in rng.sample(['title', 'history', 'g1', 'G1'], rng.randint(0, 3)):
        f.atts[k] = rng.choice(['v', '', np.zeros(0, 'i4'), np.float32(0), 'text ' * 60])
    return f


def listed(f, s, t, ranks):
    out = []
    for n, v in f.vars.items():
        if v.type == 'char' or n[-3:] in ('_T1', '_T2', '_DT') or n.endswith('_NITEMS'):
            continue
        rec = bool(v.dims) and v.dims[0] == f.rec
        if not (t if rec else s):
            continue
        k = len(v.dims) - rec
        if k <= 4 and str(k) not in ranks:
            continue
        out.append(n)
    return out


def run_case(g, c):
    rng = random.Random(g['seed'])
    fs = []
    for i in range(g['nf']):
        f = mkfile(rng, g)
        nc.write('f%d.nc' % i, f)
        # what the file really says
        fs.append(nc.read('f%d.nc' % i))
    c.nontrivial = len(fs[0].vars) >= 3
    c.sig = g['seed']
    # --- list_ncvars
    for _ in range(3):
        s, t = rng.choice([(1, 0), (0, 1), (1, 1)])
        ranks = ''.join(sorted(rng.sample('01234', rng.randint(1, 5))))
        opt = ['-' + ('s' if s else '') + ('t' if t else '') + ranks]
        if rng.random() < 0.4:
            opt = ['-s'] * s + ['-t'] * t + ['-' + k for k in ranks]
        r = c.tool('list_ncvars.sh', opt + ['f%d.nc' % i for i in range(g['nf'])])
        exp = [n for f in fs for n in listed(f, s, t, ranks)]
        got = [l.strip() for l in r.out.splitlines()]
        c.check(got == exp, 'list', lambda: '%s: got %s expected %s' % (opt, got, exp))
        c.count('listings')
    # --- ncexists
    f = fs[0]
    for _ in range(6):
        k = rng.choice('gva')
        if k == 'g':
            n = rng.choice(list(f.atts) + ['title', 'hist', 'units', 'x'])
            args, exp = ['-g', n], n in f.atts
        else:
            n = rng.choice(list(f.vars) + ['temp', 'tem', 'title', 'x', 'str'])
            args, exp = ['-v', n], n in f.vars
            if k == 'a':
                a = rng.choice((list(f.vars[n].atts) if n in f.vars else []) + ['units', 'unit', 'compress', 'title'])
                args += ['-a', a]
                exp = exp and a in f.vars[n].atts
        args = ['-f', 'f0.nc'] + args
        if rng.random() < 0.3:
            m = {'-f': '--filename', '-g': '--global', '-v': '--variable', '-a': '--attribute'}
            args = [m.get(a, a) for a in args]
        r = c.tool('ncexists', args)
        c.check(r.out.strip() == ('1' if exp else '0'), 'ncexists', lambda: '%s: %r expected %s' % (args, r.out, exp))
        c.count('existence_queries')
    # --- is-compressed
    for i, f in enumerate(fs):
        exp = any(d in f.vars and 'compress' in f.vars[d].atts for d in f.dims)
        r = c.tool('is-compressed', ['f%d.nc' % i], expect=None)
        c.check((r.rc == 0) == exp, 'is-compressed', lambda: 'rc %s expected %s; %s' % (r.rc, exp, {n: list(v.atts) for n, v in f.vars.items()}))
        c.count('compress_queries')
    # --- bad inputs never give an answer
    b = rng.choice(['absent', 'garbage', 'empty', 'dir'])
    if b == 'garbage':
        open('bad.nc', 'wb').write(bytes(rng.randrange(256) for _ in range(300)))
    elif b == 'empty':
        open('bad.nc', 'wb')
    elif b == 'dir':
        os.mkdir('bad.nc')
    o = (['f0.nc'] if rng.random() < 0.5 else []) + ['bad.nc'] + (['f0.nc'] if rng.random() < 0.5 else [])
    c.tool('list_ncvars.sh', ['-st', '-01234'] + o, expect='fail')
    r = c.tool('ncexists', ['-f', 'bad.nc', '-v', 'x'], expect='fail')
    c.check(r.out.strip() not in ('0', '1'), 'answer-on-bad', r.out)
    c.tool('is-compressed', ['bad.nc'], expect='fail')
    o = rng.choice([['-s'], ['-t'], ['-0'], ['-14'], ['-23'], []])
    c.tool('list_ncvars.sh', o + ['f0.nc'], expect='fail')
    c.check(not [n for n in os.listdir('.') if n.startswith('nml')], 'leftover', os.listdir('.'))
    for i, f in enumerate(fs):
        c.check(list(nc.read('f%d.nc' % i).vars) == list(f.vars), 'input-changed')
    c.count('bad_inputs', 4)
