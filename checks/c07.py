"""combine_restarts: every set of a directory is combined once by the right program, nothing else is touched."""
import os, random
import numpy as np
from vlib import nc, berg, land, decomp

ID = 'C07'
TOOLS = ['combine_restarts', 'iceberg_comb.sh', 'is-compressed', 'combine-ncc', 'mppnccombine']
MIN = 30
RULE = ('random run directories holding 1-5 sets (grid files, land-compressed, icebergs) with confusable names, bystander files and, in some, '
        'one damaged set or an existing output; combine_restarts runs with the sanitizer-built programs and options -n, -r, -v, -C, -M. The whole '
        'directory is compared before/after with the expected combined files. Non-trivial: 2 or more sets; distinct by directory.')
ASSUMPTIONS = ['file names without blanks (a shell script)', 'netCDF and NCO behave']
NAMES = ['ocean.res.nc', 'oceanXres.nc', 'ocean.res-nc', 'ice.res.nc', 'ice.res.tile1.nc', 'ice.res.tile11.nc', 'a.ice.res.nc', 'land.res.nc',
         'x+y.res.nc', 'xxy.res.nc', 'fv_core.res.tile6.nc', 'diag.nc', 'diag.nc.old.nc', 'vegn1.res.nc', 'icebergs.res.nc', 'coupler.res']
BYST = ['notes.txt', 'coupler.res.txt', 'data.0001', 'ocean.res.nc.00001', 'ocean.res.nc.001', 'x.nc', 'y.res.nc.0001.bak', 'res', 'nc.log', 'ocean_res.nc']


def gen(rng, tier):
    n = 330 if tier == 'quick' else 700
    cs = []
    for i in range(n):
        ns = rng.sample(NAMES, rng.randint(1, 4))
        if rng.random() < 0.3:
            ns = list(set(ns) | set(rng.choice([['ocean.res.nc', 'oceanXres.nc'], ['ice.res.nc', 'a.ice.res.nc'], ['x+y.res.nc', 'xxy.res.nc'], ['ice.res.tile1.nc', 'ice.res.tile11.nc']])))
        sets = []
        for n_ in sorted(ns):
            k = rng.choice(['mpp', 'mpp', 'land', 'berg'])
            if k == 'mpp':
                g = decomp.rand_cfg(rng)
                g['nrec'] = min(g['nrec'], 3)
                g['masked'] = sorted(rng.sample(range(g['npx'] * g['npy']), 1)) if g['npx'] * g['npy'] > 2 and rng.random() < 0.4 else []
            elif k == 'land':
                g = land.rand_cfg(rng)
                g['dens'] = rng.choice([0.3, 0.8])
            else:
                g = berg.rand_cfg(rng)
            sets.append({'name': n_, 'kind': k, 'g': g, 'exists': k != 'berg' and rng.random() < 0.2})
        bad = rng.choice(ns) if rng.random() < 0.4 else None
        stub = rng.choice([1, 2, 3, 127, 137, 255]) if bad and rng.random() < 0.6 else None
        cs.append({'stub': stub, 'sets': sets, 'byst': rng.sample(BYST, rng.randint(1, 5)), 'bad': bad, 'n': rng.random() < 0.25, 'r': rng.random() < 0.5,
                   'v': rng.choice([0, 0, 1, 2, 3]), 'M': rng.choice([None, None, '-m', '-64 -k 2', '-n4']), 'C': rng.choice([None, None, '-v'])})
    return cs


def expected(s):
    g = s['g']
    if s['kind'] == 'mpp':
        f, dec, gst = decomp.gen_global(g)
        ps = decomp.pieces(f, dec, gst, g['npx'], g['npy'], set(g['masked']))
        return [p for _, p in ps], [i for i, _ in ps], lambda opts: decomp.expect_combined(f, dec, g['npx'], g['npy'], set(g['masked']), '-m' in opts)
    if s['kind'] == 'land':
        f, idx, sh = land.build(g)
        ps = land.pieces(g, f, idx)
        return ps, range(len(ps)), lambda o: (f, idx)
    ps, e, cnt = berg.build(g)
    return ps, range(len(ps)), lambda o: e


def run_case(case, c):
    os.environ['LC_ALL'] = 'C'
    S = {}
    for s in case['sets']:
        ps, num, ex = expected(s)
        names = []
        for i, p in zip(num, ps):
            n = '%s.%04d' % (s['name'], i)
            nc.write(os.path.join(c.dir, n), p)
            names.append(n)
        if s['name'] == case['bad'] and not case['stub']:
            open(os.path.join(c.dir, names[-1]), 'wb').write(b'not a netCDF file' * 20)
        if s['exists']:
            open(os.path.join(c.dir, s['name']), 'w').write('old')
        S[s['name']] = (s, names, ex)
    for b in case['byst']:
        if not os.path.exists(os.path.join(c.dir, b)):
            open(os.path.join(c.dir, b), 'w').write('bystander ' + b)
    snap = {n: open(os.path.join(c.dir, n), 'rb').read() for n in os.listdir(c.dir)}
    args = []
    if case['n']:
        args.append('-n')
    if case['r']:
        args.append('-r')
    args += ['-v'] * case['v']
    mopts = '-h 16384 -m'
    if case['M']:
        mopts = case['M']
        args += ['-M', mopts]
    if case['C']:
        args += ['-C', case['C']]
    fail = case['bad'] and not case['n']
    env = {'LC_ALL': 'C'}
    if case['stub']:
        # the combiner of the bad set fails with this status, after it wrote part of its output
        import tempfile
        sd = tempfile.mkdtemp(prefix='stub', dir=os.path.dirname(c.dir))
        prog = {'mpp': 'mppnccombine', 'land': 'combine-ncc', 'berg': 'iceberg_comb.sh'}[S[case['bad']][0]['kind']]
        real = c.bins[prog]
        with open(os.path.join(sd, prog), 'w') as f:
            f.write('#!/bin/sh\ncase " $* " in *" -c "*) exec %s "$@";; *" %s.0"*) echo partial > %s; exit %d;; esac\nexec %s "$@"\n' % (
                real, case['bad'], case['bad'], case['stub'], real))
        os.chmod(os.path.join(sd, prog), 0o755)
        env['PATH'] = sd + ':' + os.path.dirname(real) + ':/usr/local/bin:/usr/bin:/bin'
        c.count('combiner_failures')
    r = c.tool('combine_restarts', args, expect='fail' if fail else 0, env=env)
    now = {n: open(os.path.join(c.dir, n), 'rb').read() for n in os.listdir(c.dir)}
    c.nontrivial = len(S) > 1
    c.sig = [[(s['name'], s['kind']) for s in case['sets']], case['n'], case['r'], case['bad'], [s['g']['seed'] for s in case['sets']]]
    if case['n']:
        c.count('dry_runs')
        c.check(now == snap, 'cr:dryrun', 'a dry run changed the directory: %s' % (set(now) ^ set(snap)))
        for n, (s, names, ex) in S.items():
            if case['bad'] == n and not case['stub']:
                continue
            prog = {'mpp': 'mppnccombine', 'land': 'combine-ncc', 'berg': 'iceberg_comb.sh'}[s['kind']]
            ls = [l.split() for l in r.out.splitlines() if l.split()[:1] == [prog] and n in l.split()]
            c.check(len(ls) == 1 and sorted(w for w in ls[0] if w in snap and w != n) == sorted(names), 'cr:dryrun-cmd', '%s %s\n%s' % (n, names, r.out))
        return
    inputs = {f for _, names, _ in S.values() for f in names}
    for b in snap:
        if b not in inputs and b not in S:
            c.check(now.get(b) == snap[b], 'cr:bystander', '%s touched' % b)
    for b in now:
        c.check(b in snap or b in S, 'cr:stray', '%s appeared' % b)
    for n, (s, names, ex) in sorted(S.items()):
        after = fail and n > case['bad']
        if fail and n == case['bad']:
            for f in names:
                c.check(now.get(f) == snap[f], 'cr:lost-input', '%s of the failed set' % f)
            continue
        done = n in now and now[n] != b'old'
        if not after:
            c.check(done, 'cr:notcombined', '%s\n%s' % (n, r))
        for f in names:
            if f in now:
                c.check(now[f] == snap[f], 'cr:input-changed', f)
                if case['r'] and done and not after:
                    c.violation('cr:notremoved', '%s with -r' % f)
            else:
                c.check(case['r'] and done, 'cr:removed', '%s removed' % f)
        if not done or c.viol:
            continue
        c.count('sets_' + s['kind'])
        got = nc.read(os.path.join(c.dir, n))
        if s['kind'] == 'mpp':
            decomp.compare(got, ex(mopts), c, key='cr-mpp', outname=n)
        elif s['kind'] == 'berg':
            berg.compare(got, ex(''), c, 'cr-berg')
        else:
            f, idx = ex('')
            if all(len(v) for v in idx.values()):
                decomp.compare(got, f, c, key='cr-land', fmt=f.fmt)
