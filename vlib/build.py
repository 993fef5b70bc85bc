"""Builds the FRE-NCtools programs a check needs, straight from /repo's working
tree, with sanitizers on.  Source lists come from the project's own Makefile.am
files, so a file that is added to a program is picked up."""
import fcntl, hashlib, os, re, subprocess, sys, concurrent.futures as cf

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.join(VERIF, '.build')

SAN_C = ('-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined '
         '-fno-sanitize-recover=all -ftrivial-auto-var-init=pattern -w').split()
PLAIN_C = '-g -O2 -w'.split()
SAN_F = ('-g -O1 -fno-omit-frame-pointer -fsanitize=address -fcheck=bounds '
         '-fbacktrace -w').split()
PLAIN_F = '-g -O2 -w'.split()
BASE_F = '-ffree-line-length-none -fcray-pointer -fdefault-real-8'.split()

CONFIG_H = '''
#define COPYRIGHT_YEAR "2026"
#define GIT_HEADHASH "verif"
#define GIT_REVISION "verif"
#define HAVE_CRAY_POINTER 1
#define HAVE_C__GENERIC 1
#define HAVE_GETRUSAGE 1
#define HAVE_GETTID 1
#define HAVE_INTTYPES_H 1
#define HAVE_MPI 1
#define HAVE_NETCDFF 1
#define HAVE_SCHED_GETAFFINITY 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "fre-nctools"
#define PACKAGE_BUGREPORT "https://github.com/NOAA-GFDL/FRE-NCtools/issues"
#define PACKAGE_NAME "FRE NCTools"
#define PACKAGE_STRING "FRE NCTools 2026.01"
#define PACKAGE_TARNAME "fre-nctools"
#define PACKAGE_URL "https://github.com/NOAA-GFDL/FRE-NCtools"
#define PACKAGE_VERSION "2026.01"
#define STDC_HEADERS 1
#define VERSION "2026.01"
'''
VERSION_H = '''extern char const *Version;
extern void print_version(const char *command_name);
'''
VERSION_INC = '''interface
  subroutine print_version (command_name) bind(c)
    use iso_c_binding
    character(kind=c_char), intent(in) :: command_name(*)
  end subroutine print_version
end interface

INTEGER, PARAMETER :: EXIT_SUCCESS = 0
INTEGER, PARAMETER :: EXIT_FAILURE = 1
'''

FORTRAN = {'decompress-ncc', 'combine-ncc', 'scatter-ncc', 'list_ncvars',
           'plevel-interp', 'time_average'}
SCRIPTS = {
    'combine_restarts': 'combine-restarts/combine_restarts.in',
    'iceberg_comb.sh': 'iceberg-comb/iceberg_comb.sh.in',
    'list_ncvars.sh': 'list-ncvars/list_ncvars.sh.in',
    'list_ncvars.csh': 'list-ncvars/list_ncvars.csh.in',
    'plevel.sh': 'plevel/plevel.sh.in',
    'split_ncvars.pl': 'split_ncvars/split_ncvars.pl.in',
    'timavg': 'timeavg/timavg.sh.in',
    'timavg.csh': 'timeavg/timavg.csh.in',
}


class BuildError(Exception):
    pass


def _sources(mk, name, base):
    txt = open(mk).read().replace('\\\n', ' ')
    m = re.search(r'^%s_SOURCES\s*=(.*)$' % re.escape(name), txt, re.M)
    if not m:
        raise BuildError('no %s_SOURCES in %s' % (name, mk))
    out = []
    for w in m.group(1).split():
        v = re.match(r'^\$\((\w+)_SOURCES\)$', w)
        if v:
            out += _sources(mk, v.group(1), base)
        elif re.search(r'\.(c|f90|F90)$', w):
            out.append(os.path.join(base, w))
    return out


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


class Builder:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.src = os.path.join(self.repo, 'src')
        self.lib = os.path.join(self.repo, 'lib')
        self.objdir = os.path.join(ROOT, 'obj')
        self.gen = os.path.join(ROOT, 'gen')
        os.makedirs(self.objdir, exist_ok=True)
        os.makedirs(self.gen, exist_ok=True)
        for n, t in (('config.h', CONFIG_H), ('version.h', VERSION_H), ('version.inc', VERSION_INC)):
            p = os.path.join(self.gen, n)
            if not os.path.exists(p) or open(p).read() != t:
                with open(p + '.%d' % os.getpid(), 'w') as f:
                    f.write(t)
                os.replace(p + '.%d' % os.getpid(), p)
        self._hdr = {}

    def hdrhash(self, d):
        if d not in self._hdr:
            h = []
            for n in sorted(os.listdir(d)):
                if n.endswith(('.h', '.inc')):
                    h.append(n)
                    h.append(_read(os.path.join(d, n)))
            self._hdr[d] = _h(*h)
        return self._hdr[d]

    def run(self, cmd, cwd=None):
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))

    def cc(self, src, flags, incs=()):
        """compile one C file -> object path (content addressed)"""
        libinc = os.path.join(self.lib, 'libfrencutils')
        cmd = ['gcc'] + flags + ['-I' + self.gen, '-I' + libinc, '-I' + os.path.dirname(src)]
        for i in incs:
            cmd.append('-I' + i)
        cmd += ['-I/usr/include/hdf5/serial']
        pre = subprocess.run(cmd + ['-E', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if pre.returncode != 0:
            raise BuildError('%s\n%s' % (' '.join(cmd), pre.stderr.decode(errors='replace')[-4000:]))
        key = _h(' '.join(cmd), src, pre.stdout)
        obj = os.path.join(self.objdir, os.path.basename(src) + '.' + key + '.o')
        if not os.path.exists(obj):
            tmp = obj + '.%d.tmp.o' % os.getpid()
            self.run(cmd + ['-c', src, '-o', tmp])
            os.replace(tmp, obj)
        return obj

    def mpi_flags(self):
        o = subprocess.run(['mpicc', '--showme:compile'], capture_output=True, text=True).stdout.split()
        l = subprocess.run(['mpicc', '--showme:link'], capture_output=True, text=True).stdout.split()
        return o, l

    def frenc_objs(self, flags, pool, incs=()):
        mk = os.path.join(self.lib, 'libfrencutils', 'local.mk')
        try:
            srcs = _sources(mk, 'libfrencutils_libfrencutils_a', self.lib)
        except BuildError:
            d = os.path.join(self.lib, 'libfrencutils')
            srcs = [os.path.join(d, n) for n in sorted(os.listdir(d)) if n.endswith('.c')]
        return [pool.submit(self.cc, s, flags, incs) for s in srcs]

    def _archive(self, objs, name):
        key = _h(*objs)
        a = os.path.join(self.objdir, '%s.%s.a' % (name, key))
        if not os.path.exists(a):
            tmp = a + '.%d' % os.getpid()
            if os.path.exists(tmp):
                os.unlink(tmp)
            self.run(['ar', 'rcs', tmp] + objs)
            os.replace(tmp, a)
        return a

    def build(self, tools, san=True, harness=()):
        """-> dict name->path.  names ending _parallel are MPI programs.
        harness: list of (name, [sources], [extra flags], [libs]) linked with libfrencutils"""
        mode = 'san' if san else 'plain'
        bindir = os.path.join(ROOT, 'bin-' + mode + '-' + _h(self.repo)[:6])
        os.makedirs(bindir, exist_ok=True)
        out = {}
        lock = open(os.path.join(ROOT, 'lock'), 'w')
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            with cf.ThreadPoolExecutor(8) as pool:
                cflags = list(SAN_C if san else PLAIN_C)
                mk = os.path.join(self.src, 'Makefile.am')
                ctools = [t for t in tools if t not in FORTRAN and t not in SCRIPTS]
                ftools = [t for t in tools if t in FORTRAN]
                need_ser = any(not t.endswith('_parallel') for t in ctools) or harness
                need_par = any(t.endswith('_parallel') for t in ctools)
                ser = self.frenc_objs(cflags, pool) if need_ser else []
                par = []
                if need_par:
                    mo, ml = self.mpi_flags()
                    pflags = cflags + ['-Duse_libMPI'] + mo
                    par = self.frenc_objs(pflags, pool)
                vobj = pool.submit(self.cc, os.path.join(self.src, 'version.c'), cflags)
                jobs = {}
                for t in ctools:
                    fl = cflags
                    if t.endswith('_parallel'):
                        fl = pflags
                    srcs = _sources(mk, re.sub(r'\W', '_', t), self.src)
                    jobs[t] = [pool.submit(self.cc, s, fl) for s in srcs]
                hjobs = {}
                for name, srcs, fl, libs in harness:
                    hjobs[name] = [pool.submit(self.cc, s, cflags + list(fl),
                                               [self.src] + [os.path.join(self.src, d) for d in sorted(os.listdir(self.src))
                                                             if os.path.isdir(os.path.join(self.src, d))])
                                   for s in srcs]
                fjob = pool.submit(self.fortran, ftools, san, bindir) if ftools else None
                vo = vobj.result()
                nclibs = ['-lnetcdf', '-lm']
                links = []

                def link(t, objs, extra):
                    dst = os.path.join(bindir, t)
                    stamp = dst + '.stamp'
                    key = _h(*objs, *extra, *cflags)
                    if not (os.path.exists(dst) and os.path.exists(stamp) and open(stamp).read() == key):
                        if os.path.exists(stamp):
                            os.unlink(stamp)
                        self.run(['gcc'] + cflags + objs + extra + ['-o', dst + '.tmp'])
                        os.replace(dst + '.tmp', dst)
                        with open(stamp, 'w') as f:
                            f.write(key)
                    return dst
                sera = self._archive([f.result() for f in ser], 'libfrenc') if ser else None
                para = self._archive([f.result() for f in par], 'libfrencmpi') if par else None
                for t in ctools:
                    objs = [f.result() for f in jobs[t]] + [vo]
                    if t.endswith('_parallel'):
                        links.append((t, pool.submit(link, t, objs, [para] + nclibs + ml)))
                    else:
                        links.append((t, pool.submit(link, t, objs, [sera] + nclibs)))
                for name, srcs, fl, libs in harness:
                    objs = [f.result() for f in hjobs[name]] + [vo]
                    links.append((name, pool.submit(link, name, objs, [sera] + nclibs + list(libs))))
                for t, f in links:
                    out[t] = f.result()
                if fjob:
                    out.update(fjob.result())
            for t in tools:
                if t in SCRIPTS:
                    out[t] = self.script(t, bindir)
        finally:
            fcntl.flock(lock, fcntl.LOCK_UN)
            lock.close()
        return out

    def script(self, t, bindir):
        s = open(os.path.join(self.src, SCRIPTS[t])).read()
        sub = {'prefix': bindir, 'pkglibexecdir': bindir, 'NCDUMP': '/usr/bin/ncdump',
               'NCRCAT': '/usr/bin/ncrcat', 'NCATTED': '/usr/bin/ncatted', 'NCKS': '/usr/bin/ncks',
               'SED': '/usr/bin/sed', 'EGREP': '/usr/bin/grep -E'}
        for k, v in sub.items():
            s = s.replace('@' + k + '@', v)
        lines = s.split('\n')
        lines[0] = re.sub(r'/usr/bin/env perl$', '/usr/bin/perl', lines[0])
        s = '\n'.join(lines)
        dst = os.path.join(bindir, t)
        with open(dst + '.tmp', 'w') as f:
            f.write(s)
        os.chmod(dst + '.tmp', 0o755)
        os.replace(dst + '.tmp', dst)
        return dst

    def fortran(self, ftools, san, bindir):
        flags = BASE_F + (SAN_F if san else PLAIN_F)
        cflags = list(SAN_C if san else PLAIN_C)
        srcs = {t: _sources(os.path.join(self.src, 'Makefile.am'), re.sub(r'\W', '_', t), self.src) for t in ftools}
        common = [os.path.join(self.src, 'nct_nc_utils.F90')]
        nfu = _sources(os.path.join(self.lib, 'libnfu', 'local.mk'), 'libnfu_libnfu_a', self.lib)
        vo = self.cc(os.path.join(self.src, 'version.c'), cflags)
        out = {}

        def one(t):
            need = []
            if t in ('decompress-ncc', 'combine-ncc', 'scatter-ncc'):
                need = nfu
            files = common + list(need) + srcs[t]
            parts = [' '.join(flags), t]
            for f in files:
                parts.append(_read(f))
                parts.append(self.hdrhash(os.path.dirname(f)))
            key = _h(*parts)
            dst = os.path.join(bindir, t)
            stamp = dst + '.stamp'
            if os.path.exists(dst) and os.path.exists(stamp) and open(stamp).read() == key:
                return dst
            d = os.path.join(ROOT, 'f-%s-%s' % (t, 'san' if san else 'plain'))
            os.makedirs(d, exist_ok=True)
            for n in os.listdir(d):
                os.unlink(os.path.join(d, n))
            objs = []
            for f in files:
                o = os.path.join(d, os.path.basename(f) + '.o')
                self.run(['gfortran'] + flags + ['-I' + d, '-J' + d, '-I' + self.gen, '-I/usr/include',
                                                 '-I' + os.path.dirname(f), '-c', f, '-o', o])
                objs.append(o)
            self.run(['gfortran'] + flags + objs + [vo] + (['-fsanitize=undefined'] if san else []) + ['-lnetcdff', '-lnetcdf', '-lm', '-o', dst + '.tmp'])
            os.replace(dst + '.tmp', dst)
            with open(stamp, 'w') as f:
                f.write(key)
            return dst
        with cf.ThreadPoolExecutor(6) as p:
            for t, r in zip(ftools, p.map(one, ftools)):
                out[t] = r
        return out


ALL = ['mppnccombine', 'mppncscatter', 'is-compressed', 'ncexists', 'check_mask', 'fregrid', 'fregrid_parallel',
       'make_coupler_mosaic', 'make_coupler_mosaic_parallel', 'make_hgrid', 'make_land_domain', 'make_quick_mosaic',
       'make_regional_mosaic', 'make_remap_file', 'make_solo_mosaic', 'make_topog', 'make_topog_parallel', 'make_vgrid',
       'remap_land', 'remap_land_parallel', 'river_regrid', 'runoff_regrid', 'runoff_regrid_parallel',
       'transfer_to_mosaic_grid'] + sorted(FORTRAN) + sorted(SCRIPTS)

if __name__ == '__main__':
    import time
    t0 = time.time()
    b = Builder()
    r = b.build(sys.argv[1:] or ALL)
    print('\n'.join(r.values()))
    print(time.time() - t0)
