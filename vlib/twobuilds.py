"""P17: a second build (bounds checks, zero-filled memory) beside the
sanitized one, and the comparison of what both recorded."""
import json
import os
import shutil
import subprocess

from . import build

HERE = os.path.dirname(os.path.abspath(__file__))


def poison(dst, flags=()):
    inc = subprocess.run([build.PY, '-c', 'import numpy,sysconfig;print(numpy.get_include(), sysconfig.get_paths()["include"])'],
                         stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', os.path.join(HERE, 'poison.c'), '-o', os.path.join(dst, '_poison' + build.SUFFIX)]
                       + ['-I' + i for i in inc] + list(flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise build.BuildError(r.stdout[-3000:])


def prepare(path, meta):
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    lib2 = subprocess.run(['gcc', '-print-file-name=libubsan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    std = subprocess.run(['gcc', '-print-file-name=libstdc++.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    for v in meta['variants']:
        if v.get('preload') == '@ASAN@':
            v['preload'] = ' '.join(os.path.realpath(p) for p in (lib, lib2, std))
    poison(path)
    b = os.path.join(path, '_b')
    os.makedirs(b)
    build.copy_tree(b)
    exts = build.list_extensions(b)
    build.compile_exts(b, set(exts), '-O1 -ftrivial-auto-var-init=zero', '', json.dumps({'boundscheck': True, 'wraparound': False}))
    poison(b)


def records(path):
    out = {}
    try:
        with open(path) as f:
            for line in f:
                try:
                    k, i, e = json.loads(line)
                except ValueError:
                    continue
                out[k, i] = e
    except OSError:
        pass
    return out


OOB = 'Out of bounds on buffer access'


def differ(a, b):
    """None, or how two results differ."""
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(b, str) and OOB in b and not (isinstance(a, str) and OOB in a):
            return 'index out of bounds: %s' % b
        if isinstance(a, str) and isinstance(b, str):
            return None
        return 'one execution raised and the other did not: %s' % (a if isinstance(a, str) else b)
    if len(a) != len(b):
        return 'different number of arrays'
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return 'different sizes %s, %s' % (x[0], y[0])
        if x[1] != y[1]:
            return 'values not a finite number: %d, %d of %d' % (x[1], y[1], x[0])
        scale = max(abs(x[3]), abs(y[3]))
        for p, q in zip(x[2:], y[2:]):
            if not abs(p - q) <= 1e-8*scale:
                return 'different values, %.6e and %.6e (sum of magnitudes %.6e)' % (p, q, scale)
    return None


def postprocess(path, results):
    viol, errors = [], []
    compared = 0
    by = {}
    for r in results:
        by.setdefault(r['shard'] // 2, {})[r['variant']] = r
        if r['variant'] == 'asan' and r['rc'] not in (0, None) and ('AddressSanitizer' in r['log'] or 'runtime error:' in r['log']):
            pass
    for k, d in sorted(by.items()):
        if len(d) < 2:
            continue
        A = records(d['asan']['out'] + '.rec')
        B = records(d['bounds']['out'] + '.rec')
        for key in A:
            if key not in B:
                continue
            for n, ((na, ra), (nb, rb)) in enumerate(zip(A[key], B[key])):
                if na != nb:
                    if nb == 'unraisable' and OOB in str(rb):
                        viol.append(dict(kind=key[0], idx=key[1], what='index out of bounds in %s' % na, case=dict(call=n)))
                    break
                compared += 1
                how = differ(ra, rb)
                if how:
                    what = 'out of bounds' if 'out of bounds' in how else 'depends on uninitialised memory'
                    viol.append(dict(kind=key[0], idx=key[1], what='%s: %s (%s)' % (na, what, how), case=dict(call=n, name=na)))
                    break
    return dict(violations=viol[:20], errors=errors, events={'results compared': compared})
