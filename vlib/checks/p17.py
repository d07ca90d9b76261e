_SAN = ('-fsanitize=address,undefined,float-cast-overflow -fno-sanitize=alignment,vptr -fno-sanitize-recover=all '
        '-fno-omit-frame-pointer -g1 -O1 -ftrivial-auto-var-init=pattern')
META = dict(
    shards=(8, 8), budget=(200, 3000), timeout=(700, 9000),
    rule='the workloads of P01 to P16 plus extreme sizes, unusual memory layouts and hostile arguments, executed twice: (a) compiled with '
         'AddressSanitizer and UBSan, fresh heap, numpy and stack memory filled with 0xFF/0xFE patterns; (b) compiled with Cython bounds '
         'checks, fresh memory zero. A sanitizer report, a signal, an index out of bounds in (b) that (a) does not refuse, or a result '
         'that differs between (a) and (b) is a violation; non-trivial when results were recorded; distinct by workload and case',
    require=('results recorded', 'results compared', 'extreme sizes', 'layouts', 'hostile refused', 'poisoned allocations',
             'sanitized modules'),
    cxxflags=_SAN, ldflags='-fsanitize=address,undefined', prepare='twobuilds', postprocess='twobuilds',
    variants=[
        dict(name='asan', preload='@ASAN@',
             env=dict(ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:malloc_fill_byte=255:max_malloc_fill_size=1073741824:'
                                   'max_free_fill_size=1048576:free_fill_byte=254:detect_stack_use_after_return=1:'
                                   'allocator_may_return_null=1',
                      UBSAN_OPTIONS='print_stacktrace=1:abort_on_error=1', PYTHONMALLOC='malloc', VERIF_FILL='255')),
        dict(name='bounds', sub='_b', env=dict(VERIF_FILL='0', PYTHONMALLOC='malloc')),
    ],
    assumptions=['memory leaks are not judged', 'compiled with -O1 instead of -O2',
                 'the modules are called through the public classes and functions'],
)
# --- end of META
import importlib
import json
import os
import sys

import numpy as np

from .. import core, gen, ref, monitors

OTHERS = ['p%02d' % i for i in range(1, 17)]
# executions per kind of workload of the other checks: (quick, thorough)
FEW = {'p01': (60, 2000), 'p02': (40, 800), 'p10': (10, 400), 'p11': (8, 300), 'p12': (6, 200), 'p14': (6, 200), 'p15': (4, 150), 'p16': (6, 150)}
CALLS = dict(
    Shell=['calc_kC', 'calc_kG', 'calc_kM', 'calc_kA', 'calc_cA', 'calc_kT', 'calc_fint', 'calc_fext', 'uvw', 'strain', 'stress',
           'calc_kC_conn'],
    MultiDomain=['calc_kC', 'calc_kG', 'calc_kM', 'calc_kT', 'calc_fint', 'calc_fext', 'uvw', 'strain', 'stress', 'get_kC_conn',
                 'calc_kA', 'calc_cA'],
    StiffPanelBay=['calc_kC', 'calc_kG', 'calc_kM', 'calc_kA', 'calc_cA', 'calc_fext', 'uvw_skin', 'uvw_stiffener'],
)


def flat(r, out):
    if r is None or isinstance(r, str):
        return out
    if hasattr(r, 'todense'):
        r = r.tocsr().copy()
        r.sum_duplicates()
        out.append(np.asarray(r.shape, float))
        out.append(r.data)
    elif isinstance(r, dict):
        for k in sorted(r, key=str):
            flat(r[k], out)
    elif isinstance(r, (tuple, list)):
        for v in r:
            flat(v, out)
    else:
        try:
            a = np.asarray(r, float)
        except (TypeError, ValueError):
            return out
        out.append(a)
    return out


def digest(r):
    out = []
    for a in flat(r, []):
        a = np.ravel(a)
        bad = ~np.isfinite(a)
        g = np.where(bad, 0., a)
        with np.errstate(all='ignore'):
            out.append([int(a.size), int(bad.sum()), float(np.sum(g)), float(np.sum(np.abs(g))),
                        float(np.sum(g*np.cos(np.arange(a.size)*0.7 + 0.1)))])
    return out


class Recorder(object):
    """Every public call of the library leaves a digest of its result."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.depth = 0
        self.log = open(ctx.curfile.replace('.cur', '.rec'), 'w')
        self.entries = None
        import panels.bardell
        import panels.legendre_gauss_quadrature
        from panels import Shell
        from panels.multidomain import MultiDomain
        from panels.stiffpanelbay import StiffPanelBay
        self.classes = [Shell, MultiDomain, StiffPanelBay]
        for cls in self.classes:
            for name in CALLS[cls.__name__]:
                if hasattr(cls, name):
                    setattr(cls, name, self.wrap(getattr(cls, name), '%s.%s' % (cls.__name__, name)))
        for name in dir(panels.bardell):
            if name.startswith('calc_'):
                setattr(panels.bardell, name, self.wrap(getattr(panels.bardell, name), name))
        self.state = [(cls, dict(vars(cls))) for cls in self.classes]
        self.unraisable = []
        sys.unraisablehook = lambda u: self.add('unraisable', 'exc:%s:%s' % (type(u.exc_value).__name__, u.exc_value))

    def restore(self):
        for cls, d in self.state:
            for k, v in d.items():
                if callable(v) and vars(cls).get(k) is not v:
                    setattr(cls, k, v)

    def add(self, name, what):
        if self.entries is not None and len(self.entries) < 4000:
            self.entries.append([name, what])
            self.ctx.count('results recorded')

    def wrap(self, orig, name):
        rec = self

        def wrapper(*a, **k):
            rec.depth += 1
            try:
                r = orig(*a, **k)
            except Exception as e:
                if rec.depth == 1:
                    rec.add(name, 'exc:%s:%s' % (type(e).__name__, str(e)[:120]))
                raise
            finally:
                rec.depth -= 1
            if rec.depth == 0:
                rec.add(name, digest(r))
            return r
        wrapper.__wrapped__ = orig
        wrapper.__name__ = getattr(orig, '__name__', name)
        return wrapper

    def begin(self, kind, idx):
        self.entries = []
        self.kind, self.idx = kind, idx

    def end(self):
        self.log.write(json.dumps([self.kind, self.idx, self.entries]) + '\n')
        self.log.flush()
        n = len(self.entries)
        self.entries = None
        return n


class Everything(object):
    def __contains__(self, key):
        return True


class Proxy(object):
    """The context given to the workload of another check: its verdicts do
    not count here, only the executions matter."""

    def __init__(self, ctx, rec, pid, few):
        self.ctx, self.rec, self.pid, self.few = ctx, rec, pid, few
        self.tier, self.seed = ctx.tier, ctx.seed
        self.quick = ctx.quick
        self.known_keys = Everything()
        self.evaluations = 0
        self.margins = {}
        self.known_hits = {}
        self.keys = set()
        self.scratch = ctx.scratch
        self.shard, self.nshards = ctx.shard, ctx.nshards

    def count(self, name, n=1):
        pass

    def run(self, kind, nquick, nthorough, func, every_shard=False):
        proxy = self

        def one(case):
            inner = core.Case(proxy, kind, case.idx)
            proxy.rec.begin(case.kind, case.idx)
            case.note(workload=proxy.pid, kind=kind)
            try:
                func(inner)
            except core.Violation:
                proxy.ctx.count('functional deviations left to the other checks')
            except core.Skip:
                pass
            except Exception:
                proxy.ctx.count('functional deviations left to the other checks')
            finally:
                n = proxy.rec.end()
            proxy.ctx.evaluations += n
            if n:
                case.seen(proxy.pid, kind, case.idx)
        inner_q = max(2, min(nquick, self.few[0]))
        inner_t = max(2, min(nthorough, self.few[1]))
        self.ctx.run('%s:%s' % (self.pid, kind), inner_q, inner_t, one)


def extreme(case):
    """Valid input at the documented limits."""
    rng = case.rng
    ctx = case.ctx
    big = case.idx % 3
    cfg = gen.config(rng, 1, 4)
    cfg['m'] = int(rng.choice([30, 29, 30, 16, 1]) if big == 0 else rng.integers(1, 12))
    cfg['n'] = int(rng.choice([30, 1, 16]) if big == 1 else rng.integers(1, 5))
    if cfg['m'] > 12 and cfg['n'] > 12:
        cfg['n'] = int(rng.integers(1, 4))
    s = gen.shell(cfg)
    s.nx = int(rng.choice([max(s.m, 1), 64, 63, 31]))
    s.ny = int(rng.choice([max(s.n, 1), 64, 33]))
    if s.m*s.n > 40:
        s.nx, s.ny = s.m, max(s.n, 2)
    s.Nxx, s.Nyy, s.Nxy = 1., 2., 3.
    s.aeromu, s.beta, s.gamma = 1., 2., 3.
    if rng.random() < 0.3:
        gen.partial(rng, s)
    s._rebuild()
    n = s.get_size()
    case.note(config=gen.brief(cfg), nx=s.nx, ny=s.ny)
    pos = int(rng.choice([0, 1, 7, 100]))
    size = n + pos + int(rng.choice([0, 0, 1, 50]))
    kw = dict(size=size, row0=pos, col0=pos, silent=True)
    c = rng.standard_normal(size)*1e-3
    numeric = case.idx % 2
    small = s.m*s.n <= 40
    s.calc_kG(**kw)
    s.calc_kA(silent=True, **{k: kw[k] for k in ('size', 'row0', 'col0')})
    s.calc_kC(**kw)
    s.calc_kM(**kw)
    if numeric and small:
        F = np.broadcast_to(s.ABD, (s.nx, s.ny, 6, 6)).copy()
        s.calc_kC(c=c, nx=s.nx, ny=s.ny, ABDnxny=F, NLgeom=bool(rng.integers(0, 2)), **kw)
        s.calc_kG(c=c, nx=s.nx, ny=s.ny, ABDnxny=F, NLgeom=bool(rng.integers(0, 2)), **kw)
        s.calc_fint(c, size=size, col0=pos, silent=True)
        s.calc_kM(h_nxny=np.full((s.nx, s.ny), 1e-3), rho_nxny=np.full((s.nx, s.ny), 1e3), nx=s.nx, ny=s.ny, **kw)
    s.add_point_load(s.a, s.b, 1., 2., 3.)
    s.add_point_load(0., 0., 1., 2., 3., cte=False)
    s.calc_fext(size=size, col0=pos, silent=True)
    # fields at the corners, at one point and at many
    cc = rng.standard_normal(n)*1e-3
    for k in (1, 2, 17):
        s.out_num_cores = int(rng.choice([1, 2, 3, 5, 8, 40]))
        xs = rng.uniform(0, s.a, (k, int(rng.integers(1, 9))))
        ys = rng.uniform(0, s.b, xs.shape)
        xs.flat[0], ys.flat[0] = s.a, s.b
        s.uvw(cc, xs=xs, ys=ys)
        s.strain(cc, xs=xs, ys=ys, NLgeom=bool(rng.integers(0, 2)))
        s.stress(cc, xs=xs, ys=ys, NLgeom=bool(rng.integers(0, 2)))
    ctx.count('extreme sizes')


def layouts(rng, a):
    """The same values in several memory layouts and types."""
    a = np.asarray(a, float)
    yield 'list', a.tolist()
    big = np.zeros(tuple(2*k for k in a.shape)) + np.nan
    v = big[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    yield 'strided', v
    yield 'fortran', np.asfortranarray(a)
    yield 'reversed', np.ascontiguousarray(a[::-1])[::-1]
    ro = a.copy()
    ro.setflags(write=False)
    yield 'read-only', ro
    yield 'float32', a.astype(np.float32)
    yield 'integers', np.round(a*100).astype(int)
    yield 'big endian', a.astype('>f8')
    un = np.zeros(a.size*8 + 1, np.uint8)[1:].view(np.float64)
    un[:] = a.ravel()
    yield 'unaligned', un.reshape(a.shape)
    yield 'matrix', np.matrix(a) if a.ndim == 2 else a


def layout(case):
    """Arguments of any layout or type are either used properly or refused."""
    rng = case.rng
    cfg = gen.config(rng, 1, 4)
    s = gen.shell(cfg)
    s.nx, s.ny = int(rng.integers(s.m, 7)), int(rng.integers(s.n, 7))
    s._rebuild()
    n = s.get_size()
    c = rng.standard_normal(n)*1e-3
    xs = rng.uniform(0, s.a, (3, 4))
    ys = rng.uniform(0, s.b, (3, 4))
    F = gen.hetABD(rng, ref.Panel.of(s), s.nx, s.ny)
    case.note(config=gen.brief(cfg))
    calls = [('uvw', lambda c, xs, ys, F: s.uvw(c, xs=xs, ys=ys), (0, 1, 2)),
             ('strain', lambda c, xs, ys, F: s.strain(c, xs=xs, ys=ys, NLgeom=True), (0, 1, 2)),
             ('stress', lambda c, xs, ys, F: s.stress(c, xs=xs, ys=ys), (0, 1, 2)),
             ('fint', lambda c, xs, ys, F: s.calc_fint(c, silent=True), (0,)),
             ('fint F', lambda c, xs, ys, F: s.calc_fint(c, ABDnxny=F, nx=s.nx, ny=s.ny, silent=True), (0, 3)),
             ('kC', lambda c, xs, ys, F: s.calc_kC(c=c, ABDnxny=F, nx=s.nx, ny=s.ny, silent=True), (0, 3)),
             ('kG', lambda c, xs, ys, F: s.calc_kG(c=c, ABDnxny=F, nx=s.nx, ny=s.ny, silent=True), (0, 3))]
    base = [c, xs, ys, F]
    for name, f, which in calls:
        for w in which:
            for what, v in layouts(rng, base[w]):
                args = list(base)
                args[w] = v
                if what == 'integers' and w == 0:
                    args[w] = np.round(base[0]*1e3).astype(int)
                try:
                    r = f(*args)
                except (ValueError, TypeError, BufferError, AttributeError, IndexError):
                    case.ctx.count('layouts refused')
                    continue
                case.ctx.count('layouts')
                if what in ('float32', 'integers') or hasattr(r, 'todense') and name == 'kC' and False:
                    continue
                want = f(*base)
                for x, y in zip(flat(copyr(r), []), flat(copyr(want), [])):
                    case.ok(x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-12*(np.abs(y).max() if y.size else 0), equal_nan=True),
                            '%s with a %s argument differs from the same values in a plain array' % (name, what), argument=w)
    case.seen('layout', case.idx)


def copyr(r):
    return {k: np.array(v) for k, v in r.items() if v is not None} if isinstance(r, dict) else r


def hostile_calls(rng):
    """(name, function that must raise)"""
    cfg = gen.config(rng, 2, 4)
    mk = lambda **k: gen.shell(dict(cfg, **k))

    def reb(**k):
        s = mk(**k)
        s._rebuild()
        return s
    def redefined(k, bad):
        t = reb()
        setattr(t, k, bad)
        return t
    s = reb()
    s.nx, s.ny = max(s.nx, s.m) , max(s.ny, s.n)
    n = s.get_size()
    c = rng.standard_normal(n)*1e-3
    xs, ys = rng.uniform(0, s.a, (3, 2)), rng.uniform(0, s.b, (3, 2))
    P = ref.Panel.of(s)
    out = []
    add = lambda name, f: out.append((name, f))
    for bad in (0, -1, 31, 40, 1000, 2**31 - 1):
        for k in ('m', 'n'):
            for name, f in (('kC', lambda t: t.calc_kC(silent=True)), ('kM', lambda t: t.calc_kM(silent=True)),
                            ('kG', lambda t: t.calc_kG(silent=True)), ('fext', lambda t: t.calc_fext(silent=True)),
                            ('kC num', lambda t: t.calc_kC(nx=4, ny=4, c=np.zeros(max(0, min(t.m*t.n*3, 10000))), silent=True)),
                            ('uvw', lambda t: t.uvw(np.zeros(60000), xs=xs, ys=ys)),
                            ('strain', lambda t: t.strain(np.zeros(60000), xs=xs, ys=ys))):
                add('%s=%d %s' % (k, bad, name), lambda f=f, k=k, bad=bad: f(redefined(k, bad)))
    for bad in (0, -3, 65, 128, 10**6):
        for nm in ('nx', 'ny'):
            for name, f in (('kC', lambda **k: reb().calc_kC(c=c, silent=True, **k)), ('kG', lambda **k: reb().calc_kG(c=c, silent=True, **k)),
                            ('fint', lambda **k: reb().calc_fint(c, silent=True, **k)),
                            ('kM', lambda **k: reb().calc_kM(h_nxny=np.full((k['nx'], k['ny']), 1e-3) if bad <= 128 and bad >= 0 else np.full((4, 4), 1e-3),
                                                             rho_nxny=np.full((k['nx'], k['ny']), 1e-3) if bad <= 128 and bad >= 0 else np.full((4, 4), 1e-3),
                                                             silent=True, **k))):
                other = 'ny' if nm == 'nx' else 'nx'
                add('%s=%d %s' % (nm, bad, name), lambda f=f, nm=nm, bad=bad, other=other: f(**{nm: bad, other: 4}))
    for pos in (-1, -100, n + 1, 10**9):
        for name, f in (('kC', lambda p: s.calc_kC(size=2*n, row0=p, col0=p, silent=True)),
                        ('kC num', lambda p: s.calc_kC(c=np.zeros(2*n), size=2*n, row0=p, col0=p, silent=True)),
                        ('kG', lambda p: s.calc_kG(size=2*n, row0=p, col0=p, silent=True)),
                        ('kG num', lambda p: s.calc_kG(c=np.zeros(2*n), size=2*n, row0=p, col0=p, silent=True)),
                        ('kM', lambda p: s.calc_kM(size=2*n, row0=p, col0=p, silent=True)),
                        ('kA', lambda p: reb(beta=1., gamma=0.).calc_kA(size=2*n, row0=p, col0=p, silent=True)),
                        ('cA', lambda p: reb(aeromu=1.).calc_cA(1., size=min(p, n - 1), silent=True)),
                        ('fint', lambda p: s.calc_fint(np.zeros(2*n), size=2*n, col0=p, silent=True)),
                        ('fext', lambda p: loaded().calc_fext(size=2*n, col0=p, silent=True))):
            add('position %d of %d in %d: %s' % (pos, n, 2*n, name), lambda f=f, pos=pos: f(pos))

    def loaded():
        t = reb()
        t.add_point_load(t.a/2, t.b/2, 1., 2., 3.)
        t.add_distr_load_fixed_x(t.a, lambda y: 1., None, None)
        return t
    for name, size in (('0', 0), ('1', 1), ('n-1', n - 1), ('-5', -5)):
        for nm, f in (('kC', lambda z: s.calc_kC(size=z, silent=True)), ('kG', lambda z: s.calc_kG(size=z, silent=True)),
                      ('kM', lambda z: s.calc_kM(size=z, silent=True)), ('fint', lambda z: s.calc_fint(c, size=z, silent=True)),
                      ('fext', lambda z: loaded().calc_fext(size=z, silent=True)),
                      ('kC num', lambda z: s.calc_kC(c=c, size=z, silent=True))):
            add('size %s: %s' % (name, nm), lambda f=f, size=size: f(size))
    bads = [('one short', c[:-1]), ('empty', np.zeros(0)), ('scalar', 1.), ('text', 'abc'), ('2-D', np.zeros((n, 2))),
            ('nested', [[1.]*n])]
    for name, bad in bads:
        for nm, f in (('kC', lambda v: s.calc_kC(c=v, silent=True)), ('kG', lambda v: s.calc_kG(c=v, silent=True)),
                      ('fint', lambda v: s.calc_fint(v, silent=True)),
                      ('uvw', lambda v: s.uvw(v, xs=xs, ys=ys)), ('strain', lambda v: s.strain(v, xs=xs, ys=ys)),
                      ('stress', lambda v: s.stress(v, xs=xs, ys=ys))):
            add('state %s: %s' % (name, nm), lambda f=f, bad=bad: f(bad))
    for name, bx, by in (('longer xs', np.zeros((3, 3)), ys), ('longer ys', xs, np.zeros(50)), ('text', xs, 'ab'),
                         ('one of them', xs, np.zeros(0))):
        for nm, f in (('uvw', lambda x, y: s.uvw(c, xs=x, ys=y)), ('strain', lambda x, y: s.strain(c, xs=x, ys=y)),
                      ('stress', lambda x, y: s.stress(c, xs=x, ys=y))):
            add('grid %s: %s' % (name, nm), lambda f=f, bx=bx, by=by: f(bx, by))
    for cores in (0, -1):
        def f(cores=cores):
            t = reb()
            t.out_num_cores = cores
            t.uvw(c, xs=xs, ys=ys)
        add('out_num_cores %d' % cores, f)
    nx, ny = s.m + 2, s.n + 1
    F = gen.hetABD(rng, P, nx, ny)
    for name, bad in (('one row short', F[:-1]), ('one column short', F[:, :-1]), ('transposed', F.swapaxes(0, 1)), ('6 x 5', F[..., :5]),
                      ('5 x 6', F[..., :5, :]), ('empty', np.zeros((0, 0, 6, 6))), ('text', 'x'), ('flat', F.ravel())):
        for nm, f in (('kC', lambda v: reb().calc_kC(c=c, ABDnxny=v, nx=nx, ny=ny, silent=True)),
                      ('kG', lambda v: reb().calc_kG(c=c, ABDnxny=v, nx=nx, ny=ny, silent=True)),
                      ('fint', lambda v: reb().calc_fint(c, ABDnxny=v, nx=nx, ny=ny, silent=True))):
            if nx == ny and name == 'transposed':
                continue
            add('laminates %s: %s' % (name, nm), lambda f=f, bad=bad: f(bad))
    h = np.full((nx, ny), 1e-3)
    for name, bad in (('row short', h[:-1]), ('column short', h[:, :-1]), ('flat', h.ravel()), ('empty', np.zeros((0, 0))), ('text', 'x')):
        add('thickness %s' % name, lambda bad=bad: reb().calc_kM(h_nxny=bad, rho_nxny=h, nx=nx, ny=ny, silent=True))
        add('density %s' % name, lambda bad=bad: reb().calc_kM(h_nxny=h, rho_nxny=bad, nx=nx, ny=ny, silent=True))
    add('thickness and density, row short', lambda: reb().calc_kM(h_nxny=h[:-1], rho_nxny=h[:-1], nx=nx, ny=ny, silent=True))
    add('thickness and density, column short', lambda: reb().calc_kM(h_nxny=h[:, :-1], rho_nxny=h[:, :-1], nx=nx, ny=ny, silent=True))

    # quadrature and shape functions
    from panels.legendre_gauss_quadrature import get_points_weights
    for k in (0, -1, 65, 1000, -2**31):
        add('rule with %d points' % k, lambda k=k: get_points_weights(k, np.zeros(2000), np.zeros(2000)))
    add('rule, short points', lambda: get_points_weights(8, np.zeros(7), np.zeros(8)))
    add('rule, short weights', lambda: get_points_weights(8, np.zeros(8), np.zeros(7)))
    add('rule, integer points', lambda: get_points_weights(8, np.zeros(8, int), np.zeros(8)))
    add('rule, empty', lambda: get_points_weights(1, np.zeros(0), np.zeros(0)))
    add('rule, strided', lambda: get_points_weights(8, np.zeros(16)[::2], np.zeros(8)))
    add('rule, None', lambda: get_points_weights(8, None, np.zeros(8)))

    # assemblies and bays
    from panels.multidomain import MultiDomain
    t1, t2 = mk(), mk()
    md = MultiDomain([t1, t2])
    conn = [dict(p1=t1, p2=t2, func='SSycte', ycte1=t1.b, ycte2=0.)]
    tot = 2*n
    for name, bad in (('one short', np.zeros(tot - 1)), ('one panel', np.zeros(n)), ('empty', np.zeros(0)), ('text', 'abc'),
                      ('2-D', np.zeros((tot, 2)))):
        add('assembly state %s: uvw' % name, lambda bad=bad: field('uvw', bad))
        add('assembly state %s: strain' % name, lambda bad=bad: field('strain', bad))
        add('assembly state %s: stress' % name, lambda bad=bad: field('stress', bad))
        add('assembly state %s: gauss' % name, lambda bad=bad: field('gauss', bad))
        add('assembly state %s: fint' % name, lambda bad=bad: md.calc_fint(bad, silent=True))
        add('assembly state %s: kT' % name, lambda bad=bad: mdT(bad))
        add('assembly state %s: kG' % name, lambda bad=bad: md.calc_kG(c=bad, silent=True))

    def mdT(bad):
        md.conn = conn
        return md.calc_kT(c=bad, silent=True)

    def field(what, bad):
        for p in md.panels:
            p.group = 'g'
            p._rebuild()
        if what == 'gauss':
            return md.uvw_gauss_points(bad, 'g', np.zeros((2, 2)), np.zeros((2, 2)))
        return getattr(md, what)(bad, group='g', gridx=4, gridy=4)
    for bad in (0, 31, 64):
        for k in ('m', 'n'):
            def g(name, k=k, bad=bad):
                q1, q2 = mk(), redefined(k, bad)
                return getattr(MultiDomain([q1, q2]), name)(silent=True)
            for name in ('calc_kC', 'calc_kG', 'calc_kM', 'calc_fext'):
                add('assembly of a panel with %s=%d: %s' % (k, bad, name), lambda g=g, name=name: g(name))
    from panels.stiffpanelbay import StiffPanelBay

    def bay(m=3, n=3):
        B = StiffPanelBay()
        B.a, B.b, B.m, B.n = 1., 0.5, m, n
        B.stack, B.plyt, B.laminaprop, B.rho = [0, 90], 1e-3, gen.MATS[0], 1e3
        B.add_panel(y1=0, y2=0.25)
        B.add_panel(y1=0.25, y2=0.5)
        B.add_bladestiff2d(ys=0.25, bb=0.05, bstack=[0], bplyt=1e-3, blaminaprop=gen.MATS[0], bf=0.05, fstack=[0, 90],
                           fplyt=1e-3, flaminaprop=gen.MATS[0])
        B.calc_kC(silent=True)
        return B
    for bad in (0, -1, 31, 100):
        for k in ('m', 'n'):
            for name in ('calc_kC', 'calc_kM'):
                add('bay with %s=%d: %s' % (k, bad, name), lambda k=k, bad=bad, name=name: getattr(bay(**{k: bad}), name)(silent=True))
    for name, d in (('one short', -1), ('one long', 1), ('skin only', None), ('empty', -10**6)):
        def state(B, d=d):
            return np.zeros(27 if d is None else max(0, B.get_size() + d))

        def skin(B, st):
            return B.uvw_skin(st, gridx=3, gridy=3)

        def flange(B, st):
            return B.uvw_stiffener(st, 0, gridx=3, gridy=3)

        def kG(B, st):
            return B.calc_kG(c=st, silent=True)
        for f in (skin, flange, kG):
            add('bay state %s: %s' % (name, f.__name__), lambda f=f, state=state: (lambda B: f(B, state(B)))(bay()))
    return out


def hostile(case):
    """Invalid arguments raise an exception, do not end the process, and the
    objects keep on working."""
    calls = hostile_calls(case.rng)
    n = case.ctx.nhostile
    k0 = case.idx % n
    for name, f in calls[k0::n]:
        case.note(call=name)
        try:
            r = f()
        except Exception as e:
            case.ctx.count('hostile refused')
            case.ctx.evaluations += 1
            continue
        case.ok(False, 'invalid argument accepted: ' + name, returned=repr(r)[:200])
    case.desc.pop('call', None)
    case.seen('hostile', k0)


def run(ctx):
    name = os.environ['VERIF_VARIANT']
    sys.path.insert(0, ctx.scratch)
    import _poison
    _poison.install(int(os.environ['VERIF_FILL']))
    rec = Recorder(ctx)
    monitors.Monitors.wrap = lambda *a, **k: None
    if name == 'asan':
        maps = open('/proc/self/maps').read()
        import panels.bardell
        ctx.count('sanitized modules', int('libasan' in maps))
    ctx.nhostile = 4

    def recorded(f):
        def g(case):
            rec.begin(case.kind, case.idx)
            try:
                f(case)
            finally:
                n = rec.end()
            case.seen(case.kind, case.idx)
        return g
    ctx.run('hostile', 4, 60, recorded(hostile))
    ctx.run('layout', 4, 60, recorded(layout))
    ctx.run('extreme', 24, 600, recorded(extreme))
    for pid in OTHERS:
        mod = importlib.import_module('vlib.checks.' + pid)
        few = FEW.get(pid, (16, 400))
        proxy = Proxy(ctx, rec, pid, few)
        try:
            mod.run(proxy)
        finally:
            rec.restore()
    ctx.count('poisoned allocations', _poison.count())
