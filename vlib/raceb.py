"""P18: builds of the field module for ThreadSanitizer and for the access log."""
import glob
import json
import os
import shutil
import subprocess

from . import build

HERE = os.path.dirname(os.path.abspath(__file__))
# every module with OpenMP directives in its sources is instrumented
FLAGS = '-fsanitize=thread -g1 -O1 -fno-omit-frame-pointer'


def parallel_modules(path, exts):
    out = []
    for name, srcs in exts.items():
        text = ''
        for s in srcs:
            try:
                text += open(os.path.join(path, s)).read()
            except OSError:
                pass
        if 'prange' in text or 'pragma omp' in text or 'cython.parallel' in text:
            out.append(name)
    return out


def shim(out, *flags):
    r = subprocess.run(['gcc', '-O1', '-g', '-shared', '-fPIC', os.path.join(HERE, 'gompshim.c'), '-o', out, '-lpthread'] + list(flags),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise build.BuildError(r.stdout[-3000:])


def prepare(path, meta):
    lib = subprocess.run(['gcc', '-print-file-name=libtsan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    for v in meta['variants']:
        if v.get('preload'):
            v['preload'] = v['preload'].replace('@TSAN@', os.path.realpath(lib)).replace('@SCRATCH@', path)
    shim(os.path.join(path, '_log.so'), '-DLOGRT')
    shim(os.path.join(path, '_thr.so'))
    for sub, ld in (('_tsan', '-fsanitize=thread'), ('_log', '')):
        d = os.path.join(path, sub)
        os.makedirs(d)
        build.copy_tree(d)
        exts = build.list_extensions(d)
        mods = parallel_modules(d, exts) or ['panels.models.clpt_bardell_field']
        for n in exts:
            if n not in mods:
                so = n.replace('.', '/') + build.SUFFIX
                shutil.copy2(os.path.join(path, so), os.path.join(d, so))
        build.compile_exts(d, mods, FLAGS, ld)
        meta['instrumented'] = mods
    prepare.mods = mods


def postprocess(path, results):
    viol, other, reports = [], 0, 0
    seen = set()
    for f in glob.glob(os.path.join(path, '_tsanlog*')):
        text = open(f, errors='replace').read()
        for block in text.split('=================='):
            if 'WARNING: ThreadSanitizer' not in block:
                continue
            reports += 1
            head = block.split('Thread T')[0]
            if any(m.split('.')[-1] in block for m in prepare.mods) and 'data race' in block or 'heap-use-after-free' in block:
                key = '\n'.join(l.strip()[:80] for l in head.splitlines() if '#0' in l or '#1' in l)[:300]
                if key not in seen:
                    seen.add(key)
                    viol.append(dict(kind=None, idx=None, what='ThreadSanitizer: data race', case=dict(report=block[:1800])))
            else:
                other += 1
    return dict(violations=viol[:5], errors=[], events={'ThreadSanitizer reports elsewhere': other} if other else {})
