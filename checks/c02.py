"""mppnccombine never destroys data: faults, kills, missing, corrupt and pre-existing files."""
import os, random
from vlib import nc, decomp, iot
from checks import c01

ID = 'C02'
TOOLS = ['mppnccombine']
MIN = 40
RULE = ('random decomposed sets with -r in most cases, under an LD_PRELOAD I/O monitor: the n-th write to the output fails (ENOSPC/EIO, '
        'once or for good), the process is killed at the n-th file event, input files are missing, truncated, garbage or disagree on '
        'the number of records, the output exists already, extra files lie next to the set, -f, -x. The monitor replays the event log '
        '(nothing but the output is written; no input is unlinked before the output is closed; no file outside the set is unlinked) '
        'and checks: exit 0 implies an exact output; any other outcome leaves all inputs. Non-trivial: the fault, kill or defect was '
        'actually observed; distinct by scenario and position.')
ASSUMPTIONS = ['process kill, not power loss: page cache contents survive', 'fault positions are sampled, not enumerated']


def prepare(bins):
    return {'iotrace': iot.prepare()}


def gen(rng, tier):
    cs = []
    n = {'fault': 70, 'kill': 70, 'missing': 25, 'corrupt': 25, 'exists': 12, 'recs': 8, 'dry': 8, 'neighbours': 25}
    for k, m in n.items():
        for _ in range(m if tier == 'quick' else m * 10):
            g = decomp.rand_cfg(rng)
            g['nrec'] = rng.choice([1, 2, 3, 5])
            if k == 'recs':
                g['rec'], g['nrec'] = True, rng.choice([2, 3])
                g['npx'], g['npy'] = 2, 2
                g['nx'], g['ny'] = max(g['nx'], 2), max(g['ny'], 2)
            opts = []
            if rng.random() < 0.6:
                opts += ['-k', str(rng.choice([0, 1, 2, 10]))]
            if rng.random() < 0.3:
                opts += ['-m']
            if rng.random() < 0.2:
                opts += ['-n4']
            if rng.random() < 0.15:
                opts += ['-h', '0']
            cs.append({'kind': k, 'g': g, 'opts': opts, 'r': rng.random() < 0.85, 'mode': rng.choice(['auto', 'range', 'explicit']),
                       'pos': rng.random(), 'early': rng.random() < 0.2, 'late': rng.random() < 0.35, 'sticky': rng.random() < 0.4,
                       'errno': rng.choice([28, 5, 122]), 'f': rng.random() < 0.4, 'how': rng.randrange(4), 'width': rng.choice([4, 6]),
                       'start': rng.choice([0, 0, 2])})
    return cs


def run_case(case, c):
    g = case['g']
    kind = case['kind']
    f, dec, gst = decomp.gen_global(g)
    ps = decomp.pieces(f, dec, gst, g['npx'], g['npy'])
    d = os.path.join(c.dir, 'w')
    os.mkdir(d)
    log = os.path.join(c.dir, 'log')
    st = case['start'] if case['mode'] != 'explicit' else 0
    files = ['out.nc.%0*d' % (case['width'], p + st) for p, _ in ps]
    for n, (p, pf) in zip(files, ps):
        nc.write(os.path.join(d, n), pf)
    args = list(case['opts'])
    if case['r']:
        args.append('-r')
    if st:
        args += ['-n', str(st)]
    if case['mode'] == 'range':
        args += ['-e', str(st + len(files) - 1)]
    args += ['out.nc'] + (files if case['mode'] == 'explicit' else [])
    outp = os.path.join(d, 'out.nc')
    rng = random.Random(g['seed'])
    bystanders = {}
    for n in ('out.nc.%0*d' % (case['width'], st + len(files)), 'out.nc.%0*d' % (case['width'], st + len(files) + 1), 'other.nc.0000', 'out.nc.bak'):
        if kind == 'neighbours' or rng.random() < 0.5:
            nc.write(os.path.join(d, n), ps[0][1])
    if st:
        nc.write(os.path.join(d, 'out.nc.%0*d' % (case['width'], st - 1)), ps[0][1])
    expect_fail = False
    tampered = None
    if kind == 'missing':
        if case['f']:
            args.insert(0, '-f')
        miss = rng.sample(files, rng.randint(1, max(1, len(files) - 1)))
        if case['how'] == 0:
            miss = [files[-1]]
        if len(files) == 1 or case['mode'] == 'auto' and files[0] in miss and not case['how']:
            miss = files[:]
        if case['mode'] == 'range' and set(miss) != set(files) and (files[0] in miss):
            miss = [files[-1]]      # leading holes of a range are tolerated by the tool
        for n in miss:
            os.unlink(os.path.join(d, n))
        expect_fail = True
    elif kind == 'corrupt':
        tampered = rng.choice(files)
        p = os.path.join(d, tampered)
        b = open(p, 'rb').read()
        if case['how'] == 0:
            b = b'this is not a netCDF file\n' * 10
        elif case['how'] == 1:
            b = b[:rng.randint(0, 3)]
        elif case['how'] == 2:
            b = b''
        else:
            b = b'\0\0\0\0' + b[4:]
        open(p, 'wb').write(b)
        expect_fail = True
    elif kind == 'recs':
        i = rng.randrange(len(ps))
        g2 = dict(g, nrec=g['nrec'] + 1)
        f2, dec2, gst2 = decomp.gen_global(g2)
        q = decomp.pieces(f2, dec2, gst2, g['npx'], g['npy'])[i]
        nc.write(os.path.join(d, files[i]), q[1])
        expect_fail = any('time' in v.dims for v in f.vars.values())
    elif kind == 'exists':
        if case['how'] % 2:
            open(outp, 'wb').write(b'precious\n')
        else:
            nc.write(outp, ps[0][1])
        expect_fail = True
    elif kind == 'dry':
        args.insert(0, '-x')
    before = iot.snapshot(d)
    ev_env = {}
    if kind in ('fault', 'kill'):
        # reference pass to learn how many events there are
        d0 = os.path.join(c.dir, 'ref')
        os.mkdir(d0)
        for n, b in before.items():
            open(os.path.join(d0, n), 'wb').write(b)
        l0 = os.path.join(c.dir, 'log0')
        c.tool('mppnccombine', args, cwd=d0, env=iot.env(c.bins, l0, match='/out.nc'))
        if c.viol:
            return
        e0 = [e for e in iot.events(l0) if '/out.nc' in e[2]]
        if kind == 'fault':
            tot = sum(1 for e in e0 if e[1] in ('write', 'ftruncate'))
            if tot == 0:
                return
            n = 1 if case['early'] else max(1, tot - int(case['pos'] * 3)) if case['late'] else 1 + int(case['pos'] * tot)
            ev_env = dict(fault='%d:%d%s' % (min(n, tot), case['errno'], ':sticky' if case['sticky'] else ''))
        else:
            tot = len(e0)
            n = max(1, tot - int(case['pos'] * (len(files) + 3))) if case['late'] else 1 + int(case['pos'] * tot)
            ev_env = dict(kill=n)
        if case['r']:
            left = sorted(x for x in os.listdir(d0))
            want = sorted((set(before) - set(files)) | {'out.nc'})
            c.check(left == want, 'safety:removal', 'after -r: %s, expected %s' % (left, want))
    n0 = len(c.viol)
    r = c.tool('mppnccombine', args, cwd=d, env=iot.env(c.bins, log, match='/out.nc', **ev_env), expect=None)
    if kind == 'kill':
        c.viol[n0:] = [v for v in c.viol[n0:] if not v[0].startswith('signal:mppnccombine:-9')]
    if kind == 'fault' and r.san and any(l in r.san[0][1].split('#1')[0] for l in ('libhdf5', 'libnetcdf')):
        # after a failed write the HDF5 library may fall over itself: an abnormal end, judged like any failure
        c.count('library_crash_after_fault')
        del c.viol[n0:]
        r.san = []
    if r.san or r.hang or len(c.viol) > n0:
        return
    after = iot.snapshot(d)
    evs = iot.events(log)
    c.count('io_events', len(evs))
    # ---- trace specification
    closed_after = None
    openout = False
    removed = set()
    for pid, op, p, p2, n in evs:
        if not p.startswith(d + '/'):
            continue
        b = os.path.relpath(p, d)
        if op in ('openw', 'write', 'ftruncate', 'rename'):
            c.check(b == 'out.nc', 'trace:write-to-other', '%s %s' % (op, b))
            if op == 'openw':
                openout = True
        elif op == 'close' and b == 'out.nc':
            openout = False
        elif op == 'unlink':
            if b == 'out.nc':
                continue
            c.check(b in files, 'trace:unlink-outside-set', b)
            c.check(case['r'], 'trace:unlink-without-r', b)
            c.check(not openout, 'trace:unlink-before-close', b)
            removed.add(b)
    # ---- end state
    for n, b in before.items():
        if n == 'out.nc':
            c.check(after.get(n) == b, 'safety:overwrote-output', 'existing output changed or removed')
        elif n in files:
            c.check(n not in after or after[n] == b, 'safety:input-changed', n)
        else:
            c.check(after.get(n) == b, 'safety:bystander', '%s %s' % (n, 'removed' if n not in after else 'changed'))
    gone = [n for n in files if n in before and n not in after]
    inj = any(e[1] == 'FAULT' for e in evs)
    killed = r.rc in (-9, 137)
    if kind != 'exists' and kind != 'dry' and (r.rc == 0 or gone) and not expect_fail:
        # claimed success, or destroyed inputs: the output must be whole
        c.check(os.path.exists(outp), 'safety:no-output', 'rc %s, inputs gone %s, no output' % (r.rc, gone))
        if os.path.exists(outp):
            try:
                got = nc.read(outp)
            except Exception as e:
                got = None
                c.violation('safety:unreadable', 'rc %s, inputs gone %s: %s' % (r.rc, gone, e))
            if got is not None:
                exp = decomp.expect_combined(f, dec, g['npx'], g['npy'], set(), '-m' in case['opts'])
                decomp.compare(got, exp, c, 'out.nc', key='safety:output')
    if expect_fail:
        c.check(r.rc != 0, 'safety:undetected-' + kind, 'exit 0; %s' % r)
    if r.rc not in (0, None) and not killed or not case['r'] or kind == 'dry':
        c.check(not gone, 'safety:inputs-removed-on-failure', 'rc %s removed %s' % (r.rc, gone))
    if kind == 'dry':
        c.check(r.rc == 0, 'safety:dry-rc', r)
        c.check(after == before, 'safety:dry-touched', 'files %s -> %s' % (sorted(before), sorted(after)))
    if r.rc == 0 and case['r'] and kind != 'dry':
        c.check(len(gone) == len(files), 'safety:not-removed', 'left %s' % sorted(set(files) - set(gone)))
    if inj:
        c.count('faults_injected')
    if killed:
        c.count('kills')
    c.count('kind_' + kind)
    c.nontrivial = inj or killed or kind not in ('fault', 'kill')
    c.sig = [kind, case['mode'], case['r'], case['how'], ev_env.get('fault', ''), ev_env.get('kill', ''), g['seed'], r.rc]
