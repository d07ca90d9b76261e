"""Scratch build of the code under test from /repo's current working tree.

The tracked sources are copied to a scratch directory outside /repo and
/verif.  An extension module already built in /repo is reused only when the
stamp written by the project's own build proves (by content hash) that it was
made from exactly the sources now in the tree; anything else is compiled here
through the project's own setup.py.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('PANELS_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
SUFFIX = '.cpython-312-x86_64-linux-gnu.so'

DRIVER = r'''
import sys, os, runpy
import setuptools, Cython.Build
only = sys.argv[1].split(',') if sys.argv[1] else None
mode = sys.argv[2]
found = []
real_cy = Cython.Build.cythonize
real_setup = setuptools.setup
def cythonize(exts, *a, **k):
    exts = list(exts)
    if mode == 'list':
        for e in exts:
            print('EXT\t%s\t%s' % (e.name, '\t'.join(os.path.normpath(s) for s in e.sources)))
        return []
    if only is not None:
        exts = [e for e in exts if e.name in only]
    extra = os.environ.get('VERIF_CXXFLAGS', '').split()
    extral = os.environ.get('VERIF_LDFLAGS', '').split()
    macros = os.environ.get('VERIF_LINETRACE')
    for e in exts:
        e.extra_compile_args = list(e.extra_compile_args) + extra
        e.extra_link_args = list(e.extra_link_args) + extral
    k['force'] = True
    k['nthreads'] = 0
    if os.environ.get('VERIF_CYDIRECTIVES'):
        import json
        d = dict(k.get('compiler_directives') or {})
        d.update(json.loads(os.environ['VERIF_CYDIRECTIVES']))
        k['compiler_directives'] = d
    return real_cy(exts, *a, **k)
def setup(**k):
    if mode == 'list':
        return
    real_setup(**k)
Cython.Build.cythonize = cythonize
setuptools.setup = setup
# parallel jobs must not write the same object file: one folder per extension
import copy
from setuptools.command.build_ext import build_ext
real_build = build_ext.build_extension
def build_extension(self, ext):
    own = copy.copy(self)
    own.build_temp = os.path.join(self.build_temp, ext.name)
    own.compiler = copy.copy(self.compiler)
    return real_build(own, ext)
build_ext.build_extension = build_extension
sys.argv = ['setup.py', 'build_ext', '--inplace', '--force', '-j8']
runpy.run_path('setup.py', run_name='__main__')
'''


class BuildError(Exception):
    pass


def _sha(path):
    h = hashlib.sha256()
    with open(path, 'rb') as f:
        h.update(f.read())
    return h.hexdigest()


def _env(scratch):
    env = dict(os.environ)
    env.update(PATH='/usr/lib/ccache:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               LC_ALL='C.UTF-8', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, '.mpl'),
               CCACHE_DIR=os.path.join(scratch, '.ccache'), CYTHON_FORCE_REGEN='1',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env.pop('PYTHONPATH', None)
    return env


def copy_tree(scratch):
    """Copy the sources (never generated code nor binaries)."""
    for f in ('setup.py', 'pyproject.toml', 'README.md', 'LICENSE'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            shutil.copy2(p, os.path.join(scratch, f))
    for top in ('panels', 'tests'):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = [d for d in dirs if d not in ('__pycache__', '.git')]
            rel = os.path.relpath(root, REPO)
            os.makedirs(os.path.join(scratch, rel), exist_ok=True)
            names = set(files)
            for f in files:
                base, ext = os.path.splitext(f)
                if ext in ('.so', '.pyc', '.o'):
                    continue
                if ext in ('.cpp', '.c') and base + '.pyx' in names:
                    continue
                shutil.copy2(os.path.join(root, f), os.path.join(scratch, rel, f))


def list_extensions(scratch):
    drv = os.path.join(scratch, '_verif_driver.py')
    with open(drv, 'w') as f:
        f.write(DRIVER)
    r = subprocess.run([PY, drv, '', 'list'], cwd=scratch, env=_env(scratch),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exts = {}
    for line in r.stdout.splitlines():
        if line.startswith('EXT\t'):
            p = line.split('\t')
            exts[p[1]] = p[2:]
    if r.returncode or not exts:
        raise BuildError('setup.py does not load:\n' + r.stdout[-3000:])
    return exts


def _stamp():
    """{relative path: sha} of the last project build, None if unusable."""
    try:
        lines = open(os.path.join(REPO, 'build', 'vp-stamp')).read().splitlines()
    except OSError:
        return None
    out = {}
    versions = set()
    for line in lines:
        parts = line.split(None, 1)
        if len(parts) == 2 and len(parts[0]) == 64:
            out[parts[1]] = parts[0]
        else:
            versions.add(line.strip().lower())
    r = subprocess.run([PY, '-c', 'import importlib.metadata as m; print(m.version("cython"))'], stdout=subprocess.PIPE, text=True)
    if r.returncode or 'cython==' + r.stdout.strip().lower() not in versions:
        return None
    return out


def reusable(scratch, exts):
    st = _stamp()
    if st is None:
        return set()
    common = ['setup.py', 'pyproject.toml']
    for root, _, files in os.walk(os.path.join(scratch, 'panels')):
        for f in files:
            if f.endswith(('.hpp', '.h', '.pxd', '.pxi')):
                common.append(os.path.relpath(os.path.join(root, f), scratch))
    have = {p: _sha(os.path.join(scratch, p)) for p in common if os.path.exists(os.path.join(scratch, p))}
    if any(st.get(p) != h for p, h in have.items()):
        return set()
    ok = set()
    for name, srcs in exts.items():
        so = name.replace('.', '/') + SUFFIX
        rp = os.path.join(REPO, so)
        if not os.path.exists(rp) or st.get(so) != _sha(rp):
            continue
        if all(os.path.exists(os.path.join(scratch, s))
               and st.get(os.path.relpath(s, '.')) == _sha(os.path.join(scratch, s)) for s in srcs):
            ok.add(name)
    return ok


def compile_exts(scratch, names, cxxflags='', ldflags='', directives=None, log=None):
    env = _env(scratch)
    if cxxflags:
        env['VERIF_CXXFLAGS'] = cxxflags
    if ldflags:
        env['VERIF_LDFLAGS'] = ldflags
    if directives:
        env['VERIF_CYDIRECTIVES'] = directives
    drv = os.path.join(scratch, '_verif_driver.py')
    r = subprocess.run([PY, drv, ','.join(sorted(names)), 'build'], cwd=scratch, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if log:
        with open(log, 'w') as f:
            f.write(r.stdout)
    names = set(names)
    missing = [n for n in names if not os.path.exists(os.path.join(scratch, n.replace('.', '/') + SUFFIX))]
    if r.returncode or missing:
        raise BuildError('build failed (%s)\n%s' % (missing, r.stdout[-4000:]))


class Scratch(object):
    """with Scratch() as s: s.path is importable (PYTHONPATH)."""

    def __init__(self, cxxflags='', ldflags='', directives=None, reuse=True):
        self.opts = (cxxflags, ldflags, directives)
        self.reuse = reuse and not cxxflags and not directives
        self.path = None

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='panels-verif-', dir='/tmp')
        try:
            copy_tree(self.path)
            vp = os.path.join(self.path, 'panels', 'version.py')
            exts = list_extensions(self.path)
            self.exts = exts
            ok = reusable(self.path, exts) if self.reuse else set()
            for n in ok:
                so = n.replace('.', '/') + SUFFIX
                shutil.copy2(os.path.join(REPO, so), os.path.join(self.path, so))
            todo = set(exts) - ok
            self.rebuilt = sorted(todo)
            self.reused = sorted(ok)
            if todo:
                compile_exts(self.path, todo, *self.opts)
            if not os.path.exists(vp):
                raise BuildError('setup.py wrote no panels/version.py')
            os.makedirs(os.path.join(self.path, '.mpl'), exist_ok=True)
        except BaseException:
            self.close()
            raise
        return self

    def close(self):
        if self.path and self.path.startswith('/tmp/panels-verif-'):
            shutil.rmtree(self.path, ignore_errors=True)

    def __exit__(self, *a):
        self.close()
