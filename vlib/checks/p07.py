META = dict(
    shards=(6, 8), budget=(120, 2400),
    rule='random panels with random sets of point loads, line loads, prescribed displacements, constant and '
         'incremented, and load factors; non-trivial when the vector is not zero',
    require=('Shell.calc_fext', 'MultiDomain.fext'),
    assumptions=['line loads are integrated with as many Gauss points as terms along the line (as the code documents)'],
)
# --- end of META
import numpy as np

from .. import gen, ref
from ..monitors import Monitors


def add_random_loads(rng, s, log):
    n = int(rng.integers(1, 7))
    for _ in range(n):
        kind = rng.choice(['pt', 'lx', 'ly', 'ppd', 'dx', 'dy'])
        cte = bool(rng.integers(0, 2))
        x = float(rng.choice([0., s.a, rng.uniform(0, s.a)])); y = float(rng.choice([0., s.b, rng.uniform(0, s.b)]))
        f = [float(v) for v in rng.standard_normal(3)*(rng.random(3) < 0.7)]
        co = rng.standard_normal((3, 3))
        on = rng.random(3) < 0.7
        on[int(rng.integers(0, 3))] = True
        fun = [(lambda t, q=co[k]: float(q[0] + q[1]*t + q[2]*t*t)) if on[k] else None for k in range(3)]
        if kind == 'pt':
            s.add_point_load(x, y, *f, cte=cte)
        elif kind == 'lx':
            s.add_distr_load_fixed_x(x, *fun, cte=cte)
        elif kind == 'ly':
            s.add_distr_load_fixed_y(y, *fun, cte=cte)
        elif kind == 'ppd':
            k = [float(v) for v in 10**rng.uniform(2, 6, 3)]
            s.add_point_pd(x, y, k[0], f[0], k[1], f[1], k[2], f[2], cte=cte)
        else:
            k = [float(v) if on[i] else None for i, v in enumerate(10**rng.uniform(2, 6, 3))]
            kw = dict(ku=k[0], kv=k[1], kw=k[2], funcu=fun[0], funcv=fun[1], funcw=fun[2], cte=cte)
            (s.add_distr_pd_fixed_x if kind == 'dx' else s.add_distr_pd_fixed_y)(x if kind == 'dx' else y, **kw)
        log.append((kind, round(x, 4), round(y, 4), cte))
        # what the loads mean, independent of how the object stores them
        if kind in ('pt', 'ppd'):
            q = f if kind == 'pt' else [k[i]*f[i] for i in range(3)]
            yield ('point', x, y, q, cte)
        else:
            g = fun if kind in ('lx', 'ly') else [
                (lambda t, i=i, fi=fun[i], ki=k[i]: ki*fi(t)) if on[i] else None for i in range(3)]
            yield ('x' if kind in ('lx', 'dx') else 'y', x, y, g, cte)


def reference(P, meaning, inc):
    loads = {n: [] for n in ('point_loads', 'point_loads_inc', 'distr_loads', 'distr_loads_inc',
                             'point_pds', 'point_pds_inc', 'distr_pds', 'distr_pds_inc')}
    for kind, x, y, q, cte in meaning:
        sfx = '' if cte else '_inc'
        if kind == 'point':
            loads['point_loads' + sfx].append([x, y] + list(q))
        elif kind == 'x':
            loads['distr_loads' + sfx].append([x, None] + list(q))
        else:
            loads['distr_loads' + sfx].append([None, y] + list(q))
    from ..monitors import fext_ref
    return fext_ref(P, loads, inc)


def run(ctx):
    mon = Monitors(ctx, 'fext')
    from panels.multidomain import MultiDomain

    def check(case, f, R, S, P, what):
        err = float((np.abs(f - R)/S).max())
        from ..monitors import num_tol
        case.near(err, num_tol(P.m, P.n)*10, what)

    def one(case):
        rng = case.rng
        cfg = gen.config(rng, 1, 10, big=30)
        s = gen.shell(cfg)
        log = []
        meaning = list(add_random_loads(rng, s, log))
        inc = float(rng.choice([0., 1., rng.uniform(-2, 3)]))
        case.note(inc=inc, loads=log, **gen.brief(cfg))
        kw = dict(inc=inc)
        P = ref.Panel.of(s)
        off = 0
        if rng.random() < 0.3:
            off = int(rng.integers(0, 6))
            kw['col0'] = off; kw['size'] = P.size + off + int(rng.integers(0, 5))
        f = s.calc_fext(**kw)
        R, S = reference(P, meaning, inc)
        check(case, f[off:off + P.size], R, S, P, 'fext is not the virtual work of the requested loads')
        f2 = s.calc_fext(**kw)
        case.ok(np.array_equal(f, f2), 'fext is not repeatable')
        # affine in the load factor
        f0, f1 = s.calc_fext(inc=0.), s.calc_fext(inc=1.)
        fi = s.calc_fext(inc=inc)
        sc = np.abs(f0).max() + np.abs(f1).max() + 1e-300
        case.near(np.abs(fi - (f0 + inc*(f1 - f0))).max()/sc/(1 + abs(inc)), 1e-12, 'fext is not affine in inc')
        if np.abs(f).max() > 0:
            case.seen(s.model, s.m, s.n, str(sorted(set(k[0] + str(k[3]) for k in log))))

    def multi(case):
        rng = case.rng
        k = int(rng.integers(2, 5))
        ps, ms = [], []
        for i in range(k):
            s = gen.shell(gen.config(rng, 1, 6))
            ps.append(s); ms.append(list(add_random_loads(rng, s, [])))
        md = MultiDomain(ps)
        inc = float(rng.uniform(-2, 3))
        case.note(panels=[(p.m, p.n) for p in ps], inc=inc)
        f = md.calc_fext(inc=inc, silent=True)
        o = 0
        case.ok(f.shape == (md.get_size(),), 'assembly fext: shape')
        for s, m in zip(ps, ms):
            P = ref.Panel.of(s)
            R, S = reference(P, m, inc)
            check(case, f[o:o + P.size], R, S, P, 'assembly fext is not the loads of its panels')
            o += P.size
        ctx.count('MultiDomain.fext')
        case.seen('multi', k, tuple((p.m, p.n) for p in ps))
    ctx.run('fext', 800, 8000, one)
    ctx.run('multi', 120, 800, multi)
