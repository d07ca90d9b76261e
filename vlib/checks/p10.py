META = dict(
    shards=(4, 8), budget=(120, 1800),
    rule='random panels and assemblies, states of any amplitude, grids of any size (one point, fewer points than threads, '
         'scattered, edges, 2-D), 1 to 13 threads; every field value against the reference field at that position; '
         'non-trivial when the state is not zero',
    require=('Shell.uvw', 'Shell.strain', 'Shell.stress', 'MultiDomain.uvw', 'MultiDomain.strain', 'MultiDomain.stress',
             'MultiDomain.uvw_gauss_points', 'MultiDomain.strain_gauss_points', 'MultiDomain.stress_gauss_points',
             'plot limits', 'thread counts compared', 'large grid', 'refused'),
    assumptions=['von Karman/Donnell strains; phix = -w,x and phiy = -w,y'],
)
# --- end of META
import numpy as np

from .. import gen, ref
from ..monitors import Monitors, FIELDS


def points(rng, P):
    kind = rng.choice(['grid', 'one', 'few', 'many', '2d', '3d', 'edges', 'scalar', 'list'])
    if kind == 'grid':
        return kind, None, None
    if kind == 'scalar':
        return kind, float(rng.uniform(0, P.a)), float(rng.uniform(0, P.b))
    shape = {'one': (1,), 'few': (int(rng.integers(2, 12)),), 'many': (int(rng.integers(50, 400)),),
             '2d': (int(rng.integers(1, 9)), int(rng.integers(1, 9))), '3d': (2, 3, 2),
             'edges': (int(rng.integers(1, 30)),), 'list': (5,)}[kind]
    xs, ys = rng.uniform(0, P.a, shape), rng.uniform(0, P.b, shape)
    if kind == 'edges':
        xs = rng.choice([0., P.a/2, P.a], shape); ys = rng.choice([0., P.b/2, P.b], shape)
    if kind == 'list':
        xs, ys = list(xs), list(ys)
    elif rng.random() < 0.3 and xs.ndim == 2:
        xs, ys = np.asfortranarray(xs), ys[::-1]
    return kind, xs, ys


def run(ctx):
    from panels.multidomain import MultiDomain
    mon = Monitors(ctx, 'fields')

    def shell(case):
        rng = case.rng
        cfg = gen.config(rng, 1, 9, big=30)
        s = gen.shell(cfg)
        s._rebuild()
        P = ref.Panel.of(s)
        c = gen.ritz(rng, P)
        if rng.random() < 0.2:
            z = np.zeros((c.size, 2)); z[:, 0] = c; c = z[:, 0]      # strided
        kind, xs, ys = points(rng, P)
        kw = dict(gridx=int(rng.integers(1, 14)), gridy=int(rng.integers(1, 14))) if xs is None else dict(xs=xs, ys=ys)
        nc = int(rng.choice([1, 2, 3, 4, 5, 8, 13]))
        s.out_num_cores = nc
        NL = bool(rng.integers(0, 2))
        case.note(kind=kind, cores=nc, NL=NL, kw=kw, **gen.brief(cfg))
        what = ('uvw', 'strain', 'stress')[case.idx % 3]
        kk = dict(kw)
        if what != 'uvw':
            kk['NLgeom'] = NL
        if what == 'stress' and rng.random() < 0.3:
            kk['ABD'] = gen.hetABD(rng, P, 1, 1)[0, 0]
        c0 = c.copy()
        mesh, fields = getattr(s, what)(c, **kk)
        first = {f: fields[f].copy() for f in FIELDS[what]}
        held = {f: fields[f] for f in FIELDS[what]}
        case.ok(np.array_equal(c, c0), 'the Ritz constants were changed')
        # another number of threads, same values
        s.out_num_cores = int(rng.choice([1, 2, 3, 5, 7, 11]))
        mon.on = False
        _, again = getattr(s, what)(c, **kk)
        for f in FIELDS[what]:
            sc = np.abs(first[f]).max() + 1e-300
            case.near(np.abs(again[f] - first[f]).max()/sc, 1e-12, 'field depends on the number of threads', field=f)
        # another state does not reach into the arrays already returned
        getattr(s, what)(-3*c + 1., **kk)
        mon.on = True
        for f in FIELDS[what]:
            case.ok(np.array_equal(held[f], first[f]), 'a later call changed an array returned before')
        ctx.count('thread counts compared')
        if np.abs(c).max() > 0:
            case.seen(what, kind, s.model, s.m, s.n, nc, NL)

    def multi(case):
        rng = case.rng
        k = int(rng.integers(1, 5))
        cfgs = [gen.config(rng, 1, 7) for _ in range(k)]
        ss = [gen.shell(c) for c in cfgs]
        for s in ss:
            s.group = str(rng.choice(['skin', 'flange']))
            s._rebuild()
        Ps = [ref.Panel.of(s) for s in ss]
        md = MultiDomain(ss)
        md.out_num_cores = int(rng.choice([1, 2, 3, 4, 7]))
        c = np.concatenate([gen.ritz(rng, P) for P in Ps])
        NL = bool(rng.integers(0, 2))
        case.note(k=k, groups=[s.group for s in ss], cores=md.out_num_cores, NL=NL, cfgs=[gen.brief(x) for x in cfgs])
        g = str(rng.choice(['skin', 'flange']))
        grid = dict(gridx=int(rng.integers(1, 12)), gridy=int(rng.integers(1, 12)))
        md.uvw(c, g, **grid)
        md.strain(c, g, NLterms=NL, **grid)
        md.stress(c, g, NLterms=NL, **grid)
        a, b = min(P.a for P in Ps), min(P.b for P in Ps)
        xg, yg = rng.uniform(0, a, int(rng.integers(1, 9))), rng.uniform(0, b, int(rng.integers(1, 9)))
        for x, y in ((xg, yg), (None, yg), (xg, None)):
            md.uvw_gauss_points(c, g, x, y)
            md.strain_gauss_points(c, g, x, y, NLterms=NL)
            md.stress_gauss_points(c, g, x, y, NLterms=NL)
        # same as the fields of each panel on its own
        case.seen('multi', tuple(s.group for s in ss), g, NL, md.out_num_cores)

    def large(case):
        """Grids of up to 90000 points: the default ones and others."""
        rng = case.rng
        cfg = gen.config(rng, 2, 6)
        s = gen.shell(cfg)
        s.group = 'g'
        s._rebuild()
        P = ref.Panel.of(s)
        c = gen.ritz(rng, P)
        s.out_num_cores = int(rng.choice([1, 2, 3, 4, 8]))
        md = MultiDomain([s])
        md.out_num_cores = int(rng.choice([1, 2, 3, 4, 8]))
        kind = str(rng.choice(['default', 'grid', 'thin', 'points', 'assembly']))
        kw = {}
        if kind == 'grid':
            kw = dict(gridx=int(rng.integers(20, 200)), gridy=int(rng.integers(20, 200)))
        elif kind == 'thin':
            kw = dict(gridx=int(rng.integers(1, 3)), gridy=int(rng.integers(200, 1500)))
            if rng.random() < 0.5:
                kw = dict(gridx=kw['gridy'], gridy=kw['gridx'])
        elif kind == 'points':
            k = int(rng.integers(2000, 20000))
            kw = dict(xs=rng.uniform(0, P.a, k), ys=rng.uniform(0, P.b, k))
        what = ('uvw', 'strain', 'stress')[case.idx % 3]
        case.note(kind=kind, what=what, size={k: np.size(v) if k in ('xs', 'ys') else v for k, v in kw.items()}, **gen.brief(cfg))
        if kind == 'assembly':
            getattr(md, what)(c, 'g', **({} if rng.random() < 0.5 else dict(gridx=int(rng.integers(20, 150)), gridy=int(rng.integers(20, 150)))))
        else:
            getattr(s, what)(c, **kw)
        ctx.count('large grid')
        case.seen('large', kind, what, *kw.get('xs', [])[:1], *(v for v in kw.values() if isinstance(v, int)))

    def limits(case):
        rng = case.rng
        cfgs = [gen.config(rng, 2, 6) for _ in range(2)]
        ss = [gen.shell(c) for c in cfgs]
        for s in ss:
            s.group = 'g'; s._rebuild()
        md = MultiDomain(ss)
        md.out_num_cores = 2
        Ps = [ref.Panel.of(s) for s in ss]
        c = np.concatenate([gen.ritz(rng, P) for P in Ps])
        for what in ('uvw', 'strain', 'stress'):
            f = str(rng.choice(FIELDS[what]))
            for gauss in (False, True):
                kw = dict(gridx=7, gridy=5)
                if gauss:
                    kw = dict(use_gauss_points=True, x_gauss=np.linspace(0, Ps[0].a, 4)*0.3, y_gauss=np.linspace(0, Ps[0].b, 3)*0.2)
                _, data = md.plot(c, 'g', vec=f, calc_data_only=True, **kw)
                if gauss:
                    r = getattr(md, what + '_gauss_points')(c, 'g', kw['x_gauss'], kw['y_gauss'])
                else:
                    r = getattr(md, what)(c, 'g', **kw)
                v = np.array(r[f])
                case.ok(data['vecmin'] == v.min() and data['vecmax'] == v.max(), 'limits reported by plot', field=f)
                _, data = md.plot(c, 'g', vec=f, calc_data_only=True, vecmin=-7., vecmax=9., **kw)
                case.ok(data == dict(vecmin=-7., vecmax=9.), 'limits given to plot')
                ctx.count('plot limits')
        case.seen('limits', case.idx)

    def refuse(case):
        rng = case.rng
        s = gen.shell(gen.config(rng, 2, 5)); s._rebuild()
        s.group = 'g'
        P = ref.Panel.of(s)
        c = gen.ritz(rng, P)
        md = MultiDomain([s])
        mon.on = False
        try:
            for f in (lambda: s.uvw(c, xs=np.zeros(3), ys=np.zeros(4)), lambda: s.strain(c, xs=np.zeros((2, 3)), ys=np.zeros((3, 2))),
                      lambda: s.uvw(c[:-1]), lambda: s.strain(c[:-1]), lambda: s.uvw(c[:0]),
                      lambda: md.uvw_gauss_points(c, 'g', None, None), lambda: md.plot(c, 'g', vec='nope'),
                      lambda: s.stress(c[:-2])):
                try:
                    f()
                except (ValueError, TypeError, IndexError):
                    ctx.count('refused')
                else:
                    case.ok(False, 'inconsistent field request was accepted')
        finally:
            mon.on = True
        case.seen('refuse', case.idx % 3)
    ctx.run('shell', 400, 9000, shell)
    ctx.run('multi', 40, 600, multi)
    ctx.run('large', 36, 400, large)
    ctx.run('limits', 16, 150, limits)
    ctx.run('refuse', 12, 60, refuse)
