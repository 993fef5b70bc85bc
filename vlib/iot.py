"""The I/O trace monitor: compile it, switch it on for a run, read its events."""
import os, subprocess
from . import build as B

SRC = os.path.join(B.VERIF, 'preload', 'iotrace.c')


def prepare():
    txt = open(SRC, 'rb').read()
    so = os.path.join(B.ROOT, 'iotrace-%s.so' % B._h(txt)[:10])
    if not os.path.exists(so):
        r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', SRC, '-o', so + '.tmp', '-ldl'], capture_output=True, text=True)
        if r.returncode:
            raise B.BuildError(r.stderr)
        os.replace(so + '.tmp', so)
    asan = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    return so, asan


def env(bins, log, match=None, fault=None, kill=None):
    so, asan = bins['iotrace']
    e = {'LD_PRELOAD': '%s %s' % (asan, so), 'IOT_LOG': log}
    if match:
        e['IOT_MATCH'] = match
    if fault:
        e['IOT_FAULT'] = fault
    if kill:
        e['IOT_KILL'] = str(kill)
    return e


def events(log):
    """-> list of (pid, op, path, path2, n)"""
    out = []
    if os.path.exists(log):
        for l in open(log, errors='replace'):
            w = l.split()
            if len(w) == 5:
                out.append((int(w[0]), w[1], os.path.normpath(w[2]), w[3], int(w[4])))
    return out


def snapshot(d):
    """bytes of every regular file below d"""
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            if os.path.isfile(p):
                out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out
