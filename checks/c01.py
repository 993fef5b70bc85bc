"""mppnccombine: the unified file is exactly the decomposed data put back together."""
import os, random
from vlib import nc, decomp

ID = 'C01'
TOOLS = ['mppnccombine']
MIN = 20
RULE = ('random decomposed file sets (layout, uneven extents, staggered dims, offsets of the global index, 6 types, 0-5 dims, '
        'record/static, attributes, 5 netCDF formats, masked PEs, 0..11 records) x options (-k, -m, -h, -n, -e, -64, -n4, -d, -s, -v, '
        '-M, file order, 4/6 digits) run through the ASan/UBSan mppnccombine; the output is compared bit for bit with the global '
        'file the set was cut from. Non-trivial: more than one piece and a decomposed variable; distinct by configuration.')
ASSUMPTIONS = ['netCDF library reads and writes what it is told', 'variables have at most 4 non-record dimensions, as the tool documents by construction']


def gen(rng, tier):
    n = 260 if tier == 'quick' else 2000
    cs = []
    for i in range(n):
        g = decomp.rand_cfg(rng, tier != 'quick')
        npe = g['npx'] * g['npy']
        if g['rec'] and rng.random() < 0.05:
            g['nrec'] = 0
        if rng.random() < 0.02:
            g['nrec'], g['nvars'] = rng.choice([101, 130]), 2
        u = rng.random()
        if u < 0.03:
            g['npx'], g['npy'] = rng.choice([(12, 11), (11, 1), (1, 13), (8, 9)])
            g['nx'], g['ny'], g['nvars'] = rng.randint(g['npx'], g['npx'] + 6), rng.randint(g['npy'], g['npy'] + 6), 3
        elif u < 0.05:
            g['nx'], g['ny'], g['nz'] = rng.randint(90, 200), rng.randint(60, 140), rng.choice([1, 12])
        elif u < 0.07:
            g['nvars'] = rng.randint(40, 130)
        elif u < 0.09:
            g['nz'] = rng.randint(20, 60)
        npe = g['npx'] * g['npy']
        opts = []
        if rng.random() < 0.7:
            opts += ['-k', str(rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 100, 200]))]
        if rng.random() < 0.3:
            opts += ['-h', str(rng.choice([0, 1, 4, 512, 16384, 60000]))]
        n4 = rng.random() < 0.2
        if n4:
            opts += ['-n4']
        elif rng.random() < 0.2:
            opts += ['-64']
        if n4 or g['fmt'].startswith('NETCDF4') and '-64' not in opts:
            if rng.random() < 0.4:
                opts += ['-d', str(rng.randint(0, 9))] + (['-s'] if rng.random() < 0.5 else [])
        if rng.random() < 0.5:
            opts += ['-m']
        for o in ('-v', '-M', '-vv'):
            if rng.random() < 0.08:
                opts.append(o)
        masked = []
        if npe > 2 and rng.random() < 0.4:
            masked = sorted(rng.sample(range(npe), rng.randint(1, npe - 1)))
        mode = rng.choice(['auto', 'auto', 'range', 'explicit', 'explicit'])
        if masked and mode == 'auto':
            mode = 'range'
        cs.append({'g': g, 'opts': opts, 'masked': masked, 'mode': mode, 'start': rng.choice([0, 0, 0, 3, 12, 98, 9997]),
                   'width': rng.choice([4, 4, 6]), 'shuffle': rng.randrange(1 << 20) if rng.random() < 0.5 else None,
                   'append': rng.random(), 'nonum': rng.random() < 0.1, 'out0000': rng.random() < 0.1, 'remove': rng.random() < 0.2})
    return cs


def run_case(case, c):
    g = case['g']
    f, dec, gst = decomp.gen_global(g)
    masked = set(case['masked'])
    ps = decomp.pieces(f, dec, gst, g['npx'], g['npy'], masked)
    args = list(case['opts'])
    files = []
    st = case['start'] if case['mode'] != 'explicit' else 0
    # a -e range is a run of consecutive numbers; masked sets with holes are given explicitly
    for i, (p, pf) in enumerate(ps):
        name = 'out.nc.%0*d' % (case['width'], (i if case['mode'] == 'range' else p) + st)
        if case.get('nonum') and case['mode'] != 'auto':
            pf.atts.pop('NumFilesInSet', None)
        nc.write(os.path.join(c.dir, name), pf)
        files.append(name)
    if case['remove']:
        args.append('-r')
    if case['mode'] in ('auto', 'range'):
        if st:
            args += ['-n', str(st)]
        if case['mode'] == 'range':
            args += ['-e', str(st + len(ps) - 1)]
    args.append('out.nc.0000' if case['out0000'] and case['mode'] != 'auto' and case['width'] == 6 else 'out.nc')
    order = list(files)
    if case['mode'] == 'explicit':
        if case['shuffle'] is not None:
            random.Random(case['shuffle']).shuffle(order)
        args += order
    if case['mode'] == 'explicit' and case.get('append', 1) < 0.2 and len(order) > 1:
        # the set comes in two parts, the second one appended to the first
        k = 1 + int(case['append'] * 1e6) % (len(order) - 1)
        c.tool('mppnccombine', [a for a in args if a not in order] + order[:k])
        args = ['-a'] + [a for a in args if a not in order] + order[k:]
        c.count('appended')
    r = c.tool('mppnccombine', args)
    c.nontrivial = len(files) > 1 and any(set(v.dims) & set(dec) for v in f.vars.values())
    c.sig = [g['npx'], g['npy'], g['fmt'], g['nrec'], g['rec'], case['opts'], case['mode'], len(masked), g['seed']]
    out = os.path.join(c.dir, 'out.nc')
    if c.viol:
        return
    c.check(os.path.exists(out), 'combine:nofile', 'no output')
    if c.viol:
        return
    exp = decomp.expect_combined(f, dec, g['npx'], g['npy'], masked, '-m' in case['opts'])
    decomp.compare(nc.read(out), exp, c, 'out.nc', fmt=decomp.outfmt(g['fmt'], case['opts']))
    left = sorted(x for x in os.listdir(c.dir) if x.startswith('out.nc.'))
    c.check(left == ([] if case['remove'] else sorted(files)), 'combine:inputs', 'inputs left %s' % left)
