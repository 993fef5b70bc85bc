"""Runs a check: build, generate cases, execute them on the instrumented tools,
collect monitor verdicts, confirm, match known findings, write evidence."""
import glob, importlib, json, multiprocessing as mp, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from . import build as B

VERIF = B.VERIF
OUT = os.path.join(VERIF, '.out')
MPI_ENV = {
    'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
    'OMPI_MCA_rmaps_base_oversubscribe': '1', 'OMPI_MCA_hwloc_base_binding_policy': 'none',
    'OMPI_MCA_mpi_yield_when_idle': '1', 'OMPI_MCA_pml': 'ob1', 'OMPI_MCA_btl': 'self,vader',
    'OMPI_MCA_btl_vader_single_copy_mechanism': 'none', 'OMPI_MCA_plm_rsh_agent': 'sh',
}


class Result:
    __slots__ = ('rc', 'out', 'err', 'san', 'hang', 'cmd')

    def __repr__(self):
        return 'rc=%s hang=%s san=%s\n--out\n%s\n--err\n%s' % (self.rc, self.hang, self.san, self.out[-1500:], self.err[-1500:])


def san_key(txt, repo=B.REPO):
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', txt)
    kind = None
    if m:
        kind = 'asan:' + m.group(1)
    else:
        m = re.search(r'runtime error: ([^\n]*)', txt)
        if m:
            kind = 'ubsan:' + re.sub(r'0x[0-9a-f]+|-?\d[\d.e+]*', 'N', m.group(1))[:60]
        else:
            m = re.search(r'(Fortran runtime error: [^\n]*)', txt)
            if m:
                kind = 'fcheck:' + re.sub(r'\d+', 'N', m.group(1))[:80]
    if not kind:
        return 'san:' + txt[:60]
    fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+?):(\d+)', txt)
    for fn, path, line in fr:
        if path.startswith(repo + '/') or '/src/' in path and 'sanitizer' not in path and 'netcdf' not in path:
            return '%s@%s:%s' % (kind, os.path.basename(path), fn)
    m = re.search(r'(\w[\w./-]*\.(?:c|F90|f90|h)):\d+', txt)
    return '%s@%s' % (kind, os.path.basename(m.group(1)) if m else '?')


def run(cmd, cwd, env=None, timeout=120, fill=None, stdin=None, retry=True, keepenv=False):
    """Run one instrumented command.  Sanitizer reports go to files so that wrapper
    scripts cannot swallow them."""
    logd = tempfile.mkdtemp(prefix='san', dir=os.environ.get('VERIF_SCRATCH') or None)
    e = dict(os.environ)
    e.pop('VERIF_TIER', None)
    e.update(MPI_ENV)
    e['LANG'] = 'C.UTF-8'
    e['HOME'] = cwd
    a = 'detect_leaks=0:exitcode=97:abort_on_error=0:allocator_may_return_null=1:max_malloc_fill_size=1073741824:log_path=%s/a' % logd
    if fill is not None:
        a += ':malloc_fill_byte=%d' % fill
    e['ASAN_OPTIONS'] = a
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=97:print_stacktrace=1:log_path=%s/u' % logd
    if env:
        e.update(env)
    r = Result()
    r.cmd = [str(c) for c in cmd]
    r.hang = False
    try:
        p = subprocess.Popen(r.cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            o, er = p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            r.hang = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            o, er = p.communicate()
        r.rc = p.returncode
        r.out = o.decode('utf-8', 'replace')
        r.err = er.decode('utf-8', 'replace')
        r.san = []
        for f in sorted(glob.glob(logd + '/*')):
            t = open(f, errors='replace').read()
            if 'ERROR: AddressSanitizer' in t or 'runtime error:' in t:
                r.san.append((san_key(t), t[:3000]))
        if not r.san and 'Fortran runtime error' in r.err and ('bound' in r.err or 'index' in r.err.lower() or 'Substring' in r.err):
            r.san.append((san_key(r.err), r.err[:3000]))
    finally:
        shutil.rmtree(logd, ignore_errors=True)
    return r


class Case:
    """What a monitor reports while it watches one case."""

    def __init__(self, bins, scratch):
        self.bins = bins
        self.dir = scratch
        self.viol = []          # (key, message)
        self.events = {}
        self.nontrivial = False
        self.sig = None

    def violation(self, key, msg):
        self.viol.append((key, str(msg)[:3000]))

    def count(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def check(self, cond, key, msg=''):
        self.count('assertions')
        if not cond:
            self.violation(key, msg() if callable(msg) else msg)
        return cond

    def tool(self, name, args, cwd=None, env=None, timeout=120, expect=0, fill=0xbe, label=None, mpi=0, stdin=None, abort_ok=False):
        """run a tool; sanitizer reports, signals and hangs are violations by
        themselves.  expect: 0 -> must succeed, 'fail' -> must exit non-zero,
        None -> either"""
        cmd = [self.bins[name]] + [str(a) for a in args]
        if mpi:
            cmd = ['mpirun', '--oversubscribe', '-np', str(mpi)] + cmd
        cwd = cwd or self.dir
        e = {'PATH': os.path.dirname(self.bins[name]) + ':/usr/local/bin:/usr/bin:/bin'}
        if env:
            e.update(env)
        r = run(cmd, cwd, e, timeout, fill, stdin)
        self.count('tool_runs')
        lab = label or name
        if r.hang:
            r2 = run(cmd, cwd, e, timeout * 2, fill, stdin)
            if r2.hang:
                self.violation('hang:' + lab, 'no termination in %ss twice: %s' % (timeout, r.cmd))
                return r2
            r = r2
        for k, t in r.san:
            self.violation(k, '%s\n%s' % (' '.join(r.cmd), t))
        if not r.san:
            if r.rc is not None and (r.rc < 0 or r.rc in (134, 136, 139)) and not (abort_ok and r.rc in (-6, 134)):
                self.violation('signal:%s:%s' % (lab, r.rc), '%s\n%s' % (r.cmd, r))
            elif expect == 0 and r.rc != 0:
                self.violation('exit:%s' % lab, 'expected success: %s\n%s' % (r.cmd, r))
            elif expect == 'fail' and r.rc == 0:
                self.violation('noerror:%s' % lab, 'expected a non-zero exit: %s\n%s' % (r.cmd, r))
        return r


def _scratch_root():
    for d in ('/dev/shm', '/tmp'):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 2 << 30 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return '/tmp'


_G = {}


def _one(args):
    idx, case = args
    mod, bins, root = _G['mod'], _G['bins'], _G['root']
    d = tempfile.mkdtemp(prefix='c%d_' % idx, dir=root)
    os.environ['VERIF_SCRATCH'] = root
    c = Case(bins, d)
    err = None
    t0 = time.time()
    try:
        os.chdir(d)
        mod.run_case(case, c)
    except Exception:
        err = traceback.format_exc()
    finally:
        os.chdir(root)
        if not _G.get('keep'):
            shutil.rmtree(d, ignore_errors=True)
    return idx, c.viol, c.nontrivial, c.sig, c.events, err, time.time() - t0


def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def run_pool(mod, bins, cases, workers, keep=False):
    root = tempfile.mkdtemp(prefix='verif_', dir=_scratch_root())
    _G.update(mod=mod, bins=bins, root=root, keep=keep)
    res = []
    try:
        ctx = mp.get_context('fork')
        with ctx.Pool(workers) as pool:
            for r in pool.imap_unordered(_one, list(enumerate(cases))):
                res.append(r)
    finally:
        if not keep:
            shutil.rmtree(root, ignore_errors=True)
        else:
            print('kept', root)
    res.sort(key=lambda r: r[0])
    return res


def main(prop, tier, replay=None, keep=False):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('checks.' + prop.lower())
    assert mod.ID == prop
    # a clean evidence file must come from this run
    evp = os.path.join(os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence'), prop + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    if os.path.exists(evp) and not replay:
        os.unlink(evp)
    try:
        bins = B.Builder().build(mod.TOOLS, harness=getattr(mod, 'HARNESS', ()))
        if hasattr(mod, 'prepare'):
            bins.update(mod.prepare(bins) or {})
    except B.BuildError as e:
        print('BUILD-ERROR', e)
        return 3
    tb = time.time() - t0
    if replay:
        cases = [json.load(open(replay))['case']]
    else:
        rng = random.Random('%s-%d-%s' % (prop, seed, tier))
        cases = mod.gen(rng, tier)
    workers = min(getattr(mod, 'WORKERS', 8), 8)
    res = run_pool(mod, bins, cases, workers, keep)
    errs = [r for r in res if r[5]]
    if errs:
        # harness trouble: one more try for those cases, then give up loudly
        sub = [cases[r[0]] for r in errs]
        res2 = run_pool(mod, bins, sub, workers)
        m = {errs[i][0]: r for i, r in enumerate(res2)}
        res = [((r[0],) + m[r[0]][1:]) if r[0] in m else r for r in res]
        errs = [r for r in res if r[5]]
        # an output the monitor cannot even interpret (missing variable, wrong shape, unreadable file), twice in a row,
        # is a violation; only trouble of the machine itself (memory, disk, processes) stays a harness error
        left = []
        for r in errs:
            last = r[5].strip().split('\n')[-1]
            if re.match(r'(MemoryError|BlockingIOError|OSError: \[Errno (12|24|28|11)\])', last):
                left.append(r)
            else:
                r[1].append(('uninterpretable:' + re.sub(r'[^A-Za-z:]+', '_', last)[:60], 'monitor could not interpret the output:\n' + r[5][-1500:]))
        errs = left
    known = load_known(prop)
    vio = {}
    for r in res:
        for k, msg in r[1]:
            vio.setdefault(k, []).append((r[0], msg))
    events = {}
    for r in res:
        for k, n in r[4].items():
            events[k] = events.get(k, 0) + n
    # confirm: a violation must show again in one of two re-runs of the same case
    confirmed, known_seen, flaky = {}, {}, {}
    for k, lst in vio.items():
        kf = [d for kk, d in known if kk == k]
        if kf:
            known_seen[k] = kf[0]
            continue
        ok = False
        for idx, msg in lst[:3]:
            for _ in range(2):
                rr = run_pool(mod, bins, [cases[idx]], 1)
                if any(kk == k for kk, _ in rr[0][1]) or (k.startswith('uninterpretable:') and rr[0][5]):
                    ok = True
                    break
            if ok:
                confirmed[k] = (idx, msg, len(lst))
                break
        if not ok:
            flaky[k] = lst[0][1]
    sigs = {}
    for r in res:
        if r[2]:
            sigs.setdefault(json.dumps(r[3], sort_keys=True, default=str), r[0])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': len(res),
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': [cases[i] for i in list(sigs.values())[:3]],
            'monitor_events': events,
            'unreproduced': {k: v[:300] for k, v in flaky.items()},
            'build_s': round(tb, 1),
            'slowest_case_s': round(max([r[6] for r in res] or [0]), 1),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 1),
        'violations': len(confirmed),
    }
    if not replay:
        with open(evp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
    for k, d in known:
        if k in known_seen:
            print('KNOWN-FINDING: property=%s %s' % (prop, d))
    for k, m in flaky.items():
        print('NOTE: not reproduced on re-run, not reported: %s' % k)
    os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
    n = 0
    for k, (idx, msg, cnt) in sorted(confirmed.items(), key=lambda t: -t[1][2]):
        n += 1
        if n > 12:
            break
        rp = os.path.join(OUT, 'replay', '%s-%d.json' % (prop, n))
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'key': k, 'message': msg, 'case': cases[idx]}, f, indent=1, default=str)
        print('--- %s: %s (seen in %d cases)\n%s' % (prop, k, cnt, msg[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs (build %.1fs) events=%s' % (
        prop, tier, seed, len(res), len(sigs), len(confirmed), time.time() - t0, tb, json.dumps(events)))
    if confirmed:
        return 1
    if errs:
        print('HARNESS-ERROR in %d cases, first:\n%s' % (len(errs), errs[0][5]))
        print(json.dumps(cases[errs[0][0]], default=str)[:2000])
        return 4
    if not replay and len(sigs) < getattr(mod, 'MIN', 1):
        print('HARNESS-ERROR: only %d non-trivial cases observed' % len(sigs))
        return 5
    return 0
