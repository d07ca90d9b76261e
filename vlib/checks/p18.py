META = dict(
    shards=(6, 9), budget=(100, 2400), timeout=(700, 9000),
    rule='random fields (displacements, linear and non-linear strains, stresses; 1 to 60 points; 1 to 24 threads; 1 to 30 terms) of panels, '
         'assemblies and bays in three builds: ThreadSanitizer with real threads, delays and concurrent callers; an access log with one '
         'thread at a time switched at seeded random memory accesses (every access of every thread judged); the plain build with the real '
         'OpenMP runtime (bit-identity). Non-trivial with two or more threads; distinct by kind, terms, points, threads and interleaving',
    require=('parallel regions', 'threads in regions', 'accesses judged', 'thread switches', 'distinct interleavings', 'entries traced',
             'concurrent evaluations', 'repeated evaluations', 'thread counts compared', 'under ThreadSanitizer'),
    prepare='raceb', postprocess='raceb',
    variants=[
        dict(name='tsan', sub='_tsan', preload='@TSAN@ @SCRATCH@/_thr.so',
             env=dict(TSAN_OPTIONS='exitcode=0:halt_on_error=0:log_path=@SCRATCH@/_tsanlog:history_size=4:report_thread_leaks=0:'
                                   'report_signal_unsafe=0:report_mutex_bugs=0:report_destroy_locked=0')),
        dict(name='log', sub='_log', preload='@SCRATCH@/_log.so'),
        dict(name='plain'),
    ],
    assumptions=['the only parallel code of the library is in the field module', 'races inside numpy, scipy or Python are not judged'],
)
# --- end of META
import ctypes
import os
import sys
import threading

import numpy as np

from .. import gen
from .p12 import quiet

U = ('u', 'v', 'w', 'phix', 'phiy')
E = ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')
S = ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')


def shim(ctx):
    lib = ctypes.CDLL(None)
    lib.shim_get.restype = ctypes.c_long
    lib.shim_seed.argtypes = [ctypes.c_uint64, ctypes.c_int]
    if hasattr(lib, 'shim_report'):
        lib.shim_report.restype = ctypes.c_char_p
        lib.shim_writers.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_void_p]
    return lib


def problem(rng, big=None):
    cfg = gen.config(rng, 1, 6, big=big)
    s = gen.shell(cfg)
    s._rebuild()
    n = s.get_size()
    c = rng.standard_normal(n)*1e-3
    k = int(rng.choice([1, 2, 3, 7, 12, int(rng.integers(1, 60))]))
    xs, ys = rng.uniform(0, s.a, k), rng.uniform(0, s.b, k)
    what = str(rng.choice(['uvw', 'strain', 'strain', 'stress']))
    nl = bool(rng.integers(0, 2))
    return cfg, s, c, xs, ys, what, nl


def evaluate(s, c, xs, ys, what, nl):
    kw = {} if what == 'uvw' else dict(NLgeom=nl)
    r = getattr(s, what)(c, xs=xs, ys=ys, **kw)[1]
    names = U if what == 'uvw' else E if what == 'strain' else E + S
    return {k: r[k] for k in names}


def same_bits(a, b):
    return set(a) == set(b) and all(np.asarray(a[k]).tobytes() == np.asarray(b[k]).tobytes() for k in a)


def run(ctx):
    variant = os.environ['VERIF_VARIANT']
    lib = None if variant == 'plain' else shim(ctx)
    orders = set()
    if variant == 'tsan':
        ctx.count('under ThreadSanitizer', int('libtsan' in open('/proc/self/maps').read()))

    def one(case):
        """one evaluation with a given number of threads; in every variant"""
        rng = case.rng
        cfg, s, c, xs, ys, what, nl = problem(rng, big=30 if variant != 'log' or case.idx % 8 == 0 else None)
        nt = int(rng.choice([1, 2, 3, 4, 5, 8, 13, 24]))
        case.note(config=gen.brief(cfg), points=xs.size, what=what, NLgeom=nl, threads=nt)
        s.out_num_cores = 1
        want = {k: v.copy() for k, v in evaluate(s, c, xs, ys, what, nl).items()}
        s.out_num_cores = nt
        rounds = 2 if variant == 'log' else 3
        first = None
        for k in range(rounds):
            if lib:
                lib.shim_seed(int(rng.integers(1, 2**31)), int(k == 1))
                before = [lib.shim_get(i) for i in range(8)]
            if variant == 'log':
                lib.shim_clear()
            got = evaluate(s, c, xs, ys, what, nl)
            if lib:
                after = [lib.shim_get(i) for i in range(8)]
                d = [b - a for a, b in zip(before, after)]
                ctx.count('parallel regions', d[0])
                ctx.count('threads in regions', d[1])
                if variant == 'log':
                    ctx.count('thread switches', d[2])
                    ctx.count('accesses judged', d[3])
                    h = lib.shim_get(100)
                    if nt > 1 and h not in orders:
                        orders.add(h)
                        ctx.count('distinct interleavings')
                    case.ok(d[4] == 0, 'conflicting accesses of two threads: ' + lib.shim_report().decode()[:600], accesses=d[3])
                    traced(case, lib, got, xs.size, what)
                else:
                    ctx.count('evaluations with real threads')
            got = {k: v.copy() for k, v in got.items()}
            if first is None:
                first = got
            case.ok(same_bits(first, got), 'a repeated evaluation differs', threads=nt, repetition=k)
            ctx.count('repeated evaluations')
        for name in want:
            sc = np.abs(want[name]).max() if want[name].size else 0.
            case.near(float(np.abs(first[name] - want[name]).max()), 1e-12*sc + 1e-300,
                      'field evaluated by several threads differs from that of one thread')
        ctx.count('thread counts compared')
        if nt > 1:
            case.seen(what, nl, s.m, s.n, xs.size, nt, variant)

    def traced(case, lib, got, npts, what):
        for name, v in got.items():
            if name in S:
                continue
            a = np.asarray(v)
            if a.size == 0 or not a.flags.c_contiguous:
                continue
            w = np.zeros(a.size, np.int32)
            lib.shim_writers(a.__array_interface__['data'][0], a.size, w.ctypes.data)
            if (w == -1).all():
                continue                # computed elsewhere and copied
            case.ok((w >= 0).all(), 'entries of the field %s were written by no thread' % name,
                    entries=np.flatnonzero(w < 0)[:10])
            ctx.count('entries traced', a.size)

    def objects(rng, k):
        """k evaluations on different objects: functions returning arrays"""
        from panels.multidomain import MultiDomain
        from . import p14
        out, desc = [], []
        for i in range(k):
            kind = str(rng.choice(['shell', 'shell', 'shell', 'multi', 'bay']))
            if kind == 'shell':
                cfg, s, c, xs, ys, what, nl = problem(rng, big=30 if rng.random() < 0.3 else None)
                s.out_num_cores = int(rng.choice([1, 2, 3, 6]))
                f = lambda s=s, c=c, xs=xs, ys=ys, what=what, nl=nl: evaluate(s, c, xs, ys, what, nl)
                desc.append('%s %dx%d %d points, %d threads' % (what, s.m, s.n, xs.size, s.out_num_cores))
            elif kind == 'multi':
                a, b = float(rng.uniform(0.5, 2)), float(rng.uniform(0.5, 2))
                ps = []
                for _ in range(2):
                    cfg = gen.config(rng, 1, 5)
                    cfg['a'], cfg['b'] = a, b
                    if 'r' in cfg:
                        cfg['r'] = b*2
                    p = gen.shell(cfg)
                    p.group = 'g'
                    p.out_num_cores = int(rng.choice([1, 2, 3]))
                    p._rebuild()
                    ps.append(p)
                md = MultiDomain(ps)
                c = rng.standard_normal(md.get_size())*1e-3
                what = str(rng.choice(['uvw', 'strain', 'stress']))
                gx, gy = int(rng.integers(2, 7)), int(rng.integers(2, 7))

                def f(md=md, c=c, what=what, gx=gx, gy=gy):
                    r = getattr(md, what)(c, 'g', gridx=gx, gridy=gy)
                    names = dict(uvw=U, strain=E, stress=S)[what]
                    return {'%s%d' % (n, i): np.asarray(v) for n in names if n in r for i, v in enumerate(r[n])}
                desc.append('assembly ' + what)
            else:
                b = p14.Bay(rng)
                B = b.bay
                quiet(B.calc_kC, silent=True)
                c = rng.standard_normal(b.size)*1e-3
                gx = int(rng.integers(2, 7))

                def f(B=B, c=c, gx=gx):
                    r = B.uvw_skin(c, gridx=gx, gridy=3)
                    r = r[1] if isinstance(r, tuple) and isinstance(r[1], dict) else r
                    r = r if isinstance(r, dict) else dict(enumerate(r))
                    return {k: np.asarray(v) for k, v in r.items() if v is not None}
                desc.append('bay skin')
            out.append(f)
        return out, desc

    def concurrent(case):
        rng = case.rng
        k = int(rng.integers(2, 5))
        fs, desc = objects(rng, k)
        case.note(evaluations=desc)
        want = [{n: v.copy() for n, v in f().items()} for f in fs]
        reps = 12 if variant == 'plain' else 5
        bad = []
        gate = threading.Barrier(k)
        if lib:
            lib.shim_seed(int(rng.integers(1, 2**31)), int(case.idx % 2))

        def caller(i):
            try:
                gate.wait()
                for r in range(reps):
                    got = {n: v.copy() for n, v in fs[i]().items()}
                    if not same_bits(got, want[i]):
                        bad.append('%s, repetition %d' % (desc[i], r))
                        return
            except Exception as e:
                bad.append('%s raised %s: %s' % (desc[i], type(e).__name__, e))
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ths = [threading.Thread(target=caller, args=(i,)) for i in range(k)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
        finally:
            sys.setswitchinterval(old)
        case.ok(not bad, 'fields evaluated concurrently on different objects differ from those evaluated alone: ' + '; '.join(bad)[:400])
        ctx.count('concurrent evaluations', k*reps)
        case.seen('concurrent', variant, case.idx)

    ctx.run('one', {'log': 90, 'tsan': 60, 'plain': 200}[variant], {'log': 3000, 'tsan': 2000, 'plain': 6000}[variant], one)
    if variant != 'log':
        ctx.run('concurrent', {'tsan': 30, 'plain': 60}[variant], {'tsan': 700, 'plain': 2000}[variant], concurrent)
