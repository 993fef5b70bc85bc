"""iceberg_comb.sh: every iceberg once, refuses incomplete or foreign sets."""
import os, random
import numpy as np
from vlib import nc, berg

ID = 'C08'
TOOLS = ['iceberg_comb.sh']
MIN = 30
RULE = ('random iceberg restart sets (2-7 files, empty files, 4 formats, file versions) through the real script and NCO; the combined file '
        'must be the concatenation of the records in the order given, with every attribute and without NumFilesInSet. Also sets with a '
        'missing, foreign, damaged or duplicate-count file, an existing output: must exit non-zero, write nothing and leave the inputs. '
        'Non-trivial: at least one iceberg or a refused set; distinct by configuration.')
ASSUMPTIONS = ['ncrcat and ncatted do what they document', 'file names without blanks (a shell script)']
BAD = ['missing', 'extra', 'absent', 'foreign', 'garbage', 'counts', 'exists', 'oldversion', 'few']


def gen(rng, tier):
    n = 280 if tier == 'quick' else 800
    cs = []
    for i in range(n):
        g = berg.rand_cfg(rng)
        g['bad'] = rng.choice(BAD) if rng.random() < 0.4 else None
        g['v'] = rng.choice([0, 0, 1, 2])
        g['perm'] = rng.randrange(1 << 20) if rng.random() < 0.3 else None
        g['base'] = rng.choice(['icebergs.res.nc', 'b.res.nc', 'calving+1.res.nc'])
        cs.append(g)
    return cs


def run_case(g, c):
    rng = random.Random(g['seed'] + 1)
    ps, e, cnt = berg.build(g)
    bad = g['bad']
    names = []
    for i, p in enumerate(ps):
        n = '%s.%04d' % (g['base'], i)
        if bad in ('foreign', 'oldversion', 'counts') and i == g['seed'] % len(ps):
            p.atts = dict(p.atts)
            if bad == 'foreign':
                del p.atts[rng.choice(['NumFilesInSet', 'file_format_major_version'])]
            elif bad == 'oldversion':
                p.atts['file_format_major_version'] = np.int32(0)
                p.atts['file_format_minor_version'] = np.int32(0)
            else:
                p.atts['NumFilesInSet'] = np.int32(g['n'] + 1)
        nc.write(os.path.join(c.dir, n), p)
        names.append(n)
    ordr = list(range(len(names)))
    if g['perm'] is not None:
        random.Random(g['perm']).shuffle(ordr)
        for n, v in e.vars.items():
            if v.dims[0] == 'i':
                v.data = np.concatenate([ps[k].vars[n].data for k in ordr])
    args = [names[k] for k in ordr]
    if bad == 'missing':
        args.pop(rng.randrange(len(args)))
    elif bad == 'extra':
        args.insert(rng.randrange(len(args)), rng.choice(args))
    elif bad == 'absent':
        os.unlink(os.path.join(c.dir, args[rng.randrange(len(args))]))
    elif bad == 'garbage':
        open(os.path.join(c.dir, args[rng.randrange(len(args))]), 'wb').write(rng.randbytes(300))
    elif bad == 'exists':
        open(os.path.join(c.dir, g['base']), 'w').write('old')
    elif bad == 'few':
        args = args[:1]
    out = g['base']
    # -c on every file
    for k in range(min(2, len(args))):
        f = args[k]
        if os.path.exists(os.path.join(c.dir, f)):
            p = ps[names.index(f)]
            ok = 'NumFilesInSet' in p.atts and 'file_format_major_version' in p.atts and not (bad == 'oldversion' and names.index(f) == g['seed'] % len(ps))
            if bad == 'garbage':
                continue
            r = c.tool('iceberg_comb.sh', ['-c', f], expect=None)
            c.check(r.rc == (0 if ok else 255), 'berg:check', '%s: %s' % (f, r))
    snap = {n: open(os.path.join(c.dir, n), 'rb').read() for n in os.listdir(c.dir)}
    r = c.tool('iceberg_comb.sh', ['-v'] * g['v'] + args + [out], expect='fail' if bad else 0)
    c.nontrivial = bool(bad) or sum(cnt) > 0
    c.sig = [g['seed'], bad]
    c.count('refused' if bad else 'combined')
    now = {n: open(os.path.join(c.dir, n), 'rb').read() for n in os.listdir(c.dir)}
    if bad:
        c.check(now == snap, 'berg:refused-touched', 'files changed on a refused set (%s)' % bad)
        return
    new = now.pop(out, None)
    c.check(now == snap, 'berg:inputs', 'inputs changed')
    if c.check(new is not None, 'berg:nooutput', r) and not c.viol:
        berg.compare(nc.read(os.path.join(c.dir, out)), e, c, 'berg')
