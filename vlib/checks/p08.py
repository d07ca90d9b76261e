META = dict(
    shards=(6, 8), budget=(120, 1800),
    rule='random panels, positions (edges included), penalty values and subsets of constrained components; '
         'non-trivial when the matrix is not zero',
    require=('point constraint', 'point penalty', 'x line penalty', 'y line penalty', 'penalty constants',
             'restrained response'),
    assumptions=['penalty of a constraint: k times the square of the constrained component, integrated along the line'],
)
# --- end of META
import numpy as np

from .. import gen, ref
from ..monitors import num_tol


def pos(rng, L):
    return float(rng.choice([0., L, L/2, rng.uniform(0, L)]))


def judge(case, blk, R, P, k, what, length=1.):
    """Entry sizes: Cauchy-Schwarz of the reference, not below the rounding of
    a basis function that vanishes at the constraint."""
    d = np.sqrt(np.abs(np.diag(R)))
    top = 1e-3*np.sqrt(max(k)*length)
    s = np.maximum(np.outer(d, d), top*top*1e-2)
    s = np.maximum(s, top*np.maximum(d[:, None], d[None, :]))
    case.near(float((np.abs(blk - R)/s).max()), num_tol(P.m, P.n), what, m=P.m, n=P.n)


def place(case, K, P, size, r, what):
    case.ok(K.shape == (size, size), '%s: shape' % what)
    K = ref.full_from_upper(K)
    blk = K[r:r + P.size, r:r + P.size].copy()
    K[r:r + P.size, r:r + P.size] = 0
    case.ok(not K.any(), '%s: entries outside of the block of the panel' % what)
    return blk


def run(ctx):
    from panels.multidomain import connections as cn

    def point(case):
        rng = case.rng
        cfg = gen.config(rng, 1, 9, big=30)
        s = gen.shell(cfg); s._rebuild()
        P = ref.Panel.of(s)
        x, y = pos(rng, P.a), pos(rng, P.b)
        on = [bool(v) for v in rng.integers(0, 2, 5)]
        kw = dict(zip(('u', 'v', 'w', 'phix', 'phiy'), on))
        default = rng.random() < 0.2
        kt, kp = (1e6, 1e5) if default else (float(10**rng.uniform(2, 9)), float(10**rng.uniform(1, 8)))
        if not default:
            kw.update(kuvw=kt, kphi=kp)
        case.note(x=x, y=y, kw=kw, **gen.brief(cfg))
        if rng.random() < 0.1:
            for q in ('u', 'v', 'w', 'phix', 'phiy'):
                kw.pop(q)
            on = [True, True, True, False, False]
        g = P.gvec(x, y)
        R = np.zeros((P.size, P.size))
        for i, k in enumerate((kt, kt, kt, kp, kp)):
            if on[i]:
                R += k*np.outer(g[i], g[i])
        K = s.calc_stiffness_point_constraint(x, y, **kw)
        case.ok(K.shape == (P.size,)*2, 'shape')
        sc = max(1., 2/P.a*P.m**2, 2/P.b*P.n**2)
        judge(case, ref.dense(K), R, P, (kt, kp*sc**2), 'point constraint is not the penalty of the chosen components')
        case.ok(np.array_equal(ref.dense(K), ref.dense(s.calc_stiffness_point_constraint(x, y, **kw))), 'repeatable')
        ctx.count('point constraint')
        if np.abs(R).max() > 0:
            case.seen('pc', tuple(on), P.m, P.n, x in (0, P.a), y in (0, P.b))

    def line(case):
        rng = case.rng
        cfg = gen.config(rng, 1, 9, big=30)
        s = gen.shell(cfg); s._rebuild()
        P = ref.Panel.of(s)
        x, y = pos(rng, P.a), pos(rng, P.b)
        k = [float(v) for v in 10**rng.uniform(2, 8, 3)*(rng.random(3) < 0.7)]
        off = int(rng.integers(0, 8)); size = P.size + off + int(rng.integers(0, 5))
        kind = ('point', 'x', 'y')[case.idx % 3]
        case.note(kind=kind, x=x, y=y, k=k, off=off, **gen.brief(cfg))
        if kind == 'point':
            K = cn.fkCpd(*k, s, x, y, size, off, off); R = ref.line_penalty(P, *k, x=x, y=y); L = 1.
            ctx.count('point penalty')
        elif kind == 'x':
            K = cn.fkCld_xcte(*k, s, x, size, off, off); R = ref.line_penalty(P, *k, x=x); L = P.b
            ctx.count('x line penalty')
        else:
            K = cn.fkCld_ycte(*k, s, y, size, off, off); R = ref.line_penalty(P, *k, y=y); L = P.a
            ctx.count('y line penalty')
        blk = place(case, K, P, size, off, kind)
        if not any(k):
            case.ok(not blk.any(), 'zero penalties give a zero matrix')
        else:
            judge(case, blk, R, P, k, 'penalty of a prescribed displacement (%s)' % kind, L)
        if np.abs(R).max() > 0:
            case.seen(kind, tuple(bool(v) for v in k), P.m, P.n, x in (0, P.a), y in (0, P.b))

    def constants(case):
        rng = case.rng
        s = gen.shell(gen.config(rng, 2, 4)); s._rebuild()
        P = ref.Panel.of(s)
        A = P.lam.A
        for f, ex in ((cn.calc_ku_kv_kw_point_pd, 1.), (cn.calc_ku_kv_kw_line_pd_xcte, 1/P.b),
                      (cn.calc_ku_kv_kw_line_pd_ycte, 1/P.a)):
            got = f(s)
            for g, e in zip(got, (A[0, 0]*ex, A[1, 1]*ex, A[0, 0]*ex)):
                case.near(abs(g - e)/e, 1e-10, 'penalty constants of prescribed displacements')
        ctx.count('penalty constants')
        case.seen('const', round(P.a, 5))

    def restrain(case):
        """The penalty does what it is for: with a strong penalty the solved
        panel does not move at the constraint, or takes the prescribed value
        when the matching load is added."""
        rng = case.rng
        cfg = gen.config(rng, 5, 8, style='ss', offset=False)
        s = gen.shell(cfg)
        K = ref.dense(s.calc_kC())
        P = ref.Panel.of(s)
        x, y = float(rng.uniform(0.3, 0.7)*P.a), float(rng.uniform(0.3, 0.7)*P.b)
        free = np.abs(np.diag(K)) > 0
        kw = float(np.abs(np.diag(K))[2::3].max()*1e3)
        wp = float(rng.choice([0., rng.uniform(-1, 1)*P.lam.h]))
        s.add_point_load(0.4*P.a, 0.45*P.b, 0., 0., float(rng.standard_normal()*kw*P.lam.h*1e-6))
        if wp:
            s.add_point_pd(x, y, 0., 0., 0., 0., kw, wp)
        f = s.calc_fext()
        for KP in (ref.full_from_upper(cn.fkCpd(0., 0., kw, s, x, y, P.size, 0, 0)),
                   ref.dense(s.calc_stiffness_point_constraint(x, y, False, False, True, kuvw=kw))):
            M = (K + KP)[np.ix_(free, free)]
            D = 1/np.sqrt(np.diag(M))
            c = np.zeros(P.size)
            c[free] = D*np.linalg.solve(M*D[:, None]*D[None, :], D*f[free])
            s.out_num_cores = 1
            _, fld = s.uvw(c, xs=np.array([[x]]), ys=np.array([[y]]))
            got = float(fld['w'].ravel()[0])
            # Sherman-Morrison: free response and compliance at the point
            M0 = K[np.ix_(free, free)]
            D = 1/np.sqrt(np.diag(M0))
            g = P.N('w', x, y)[0][free]
            sol = lambda b: D*np.linalg.solve(M0*D[:, None]*D[None, :], D*b)
            C = g.dot(sol(g))
            f0 = f[free] - (kw*wp*g if wp else 0.)
            w0 = g.dot(sol(f0))
            ex = (w0 + kw*wp*C)/(1 + kw*C)
            case.near(abs(got - ex)/(abs(w0)/(1 + kw*C) + abs(wp) + 1e-300), 1e-5,
                      'response of the constrained panel', got=got, ex=ex)
        ctx.count('restrained response')
        case.seen('restrain', P.m, P.n, bool(wp))
    ctx.run('point', 900, 6000, point)
    ctx.run('line', 1350, 9000, line)
    ctx.run('constants', 300, 1500, constants)
    ctx.run('restrain', 120, 500, restrain)
