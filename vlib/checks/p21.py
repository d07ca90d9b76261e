META = dict(
    shards=(6, 8), budget=(140, 1800),
    rule='cross-ply panels (flat and cylindrical, offset, any proportion) with supports for which the exact eigenvalues are trigonometric, '
         'strips with every pair of end conditions against beam theory, exact static solutions and subdivided panels; '
         'non-trivial when at least one exact eigenvalue or displacement was reached',
    require=('buckling', 'vibration', 'flat', 'cylinder', 'offset', 'bounds', 'converged', 'refined', 'beam vibration', 'beam buckling',
             'beam deflection', 'bar', 'point load', 'assembly', 'flutter', 'unstable', 'numeric integration', 'initial state',
             'post-buckled', 'large deflection', 'arch'),
    assumptions=['classical lamination theory, Donnell shallow shells, rotary inertia included',
                 'how close to the exact value is judged only when the series has at least three terms per half wave'],
)
# --- end of META
import numpy as np
import scipy.linalg

from .. import gen, ref
from ..core import Skip

FLAGS = ref.FLAGS


def crossply(rng, sym=None):
    mat = gen.MATS[int(rng.integers(0, len(gen.MATS)))]
    half = [float(rng.choice([0., 90.])) for _ in range(int(rng.integers(1, 4)))]
    sym = bool(rng.integers(0, 2)) if sym is None else sym
    stack = half + half[::-1] if sym else half + [float(rng.choice([0., 90.])) for _ in range(int(rng.integers(0, 3)))]
    t = float(10**rng.uniform(-4, -2.5))
    d = dict(stack=stack, laminaprop=mat, plyt=t, rho=float(rng.uniform(500, 8000)))
    d['offset'] = float(rng.uniform(-1, 1)*t*len(stack)) if not sym and rng.random() < 0.5 else 0.
    return d


def supports():
    """Edges on which the trigonometric solutions are exact: w and the displacement along the edge are zero."""
    d = {f: 1. for f in FLAGS}
    for e in ('x1', 'x2'):
        d[e + 'v'] = d[e + 'w'] = 0.
    for e in ('y1', 'y2'):
        d[e + 'u'] = d[e + 'w'] = 0.
    return d


def exact(P, N0, imax):
    """Exact eigenvalues with their half waves: [(value, i, j)] for vibration (N0 None) or buckling under (Nxx, Nyy)."""
    out = []
    ABD, (I0, I1, I2) = P.lam.ABD, P.lam.I
    for i in range(0, imax + 1):
        for j in range(0, imax + 1):
            al, be = i*np.pi/P.a, j*np.pi/P.b
            B = np.array([[-al, 0, 0], [0, -be, 1/P.r if P.r else 0.], [be, al, 0],
                          [0, 0, al*al], [0, 0, be*be], [0, 0, -2*al*be]])
            if i == 0 and j == 0:
                continue
            # i = 0: only u = sin(beta y); j = 0: only v = sin(alpha x)
            act = [0, 1, 2] if i and j else ([0] if i == 0 else [1])
            K = B.T.dot(ABD).dot(B)[np.ix_(act, act)]
            if N0 is None:
                M = np.array([[I0, 0, -I1*al], [0, I0, -I1*be], [-I1*al, -I1*be, I0 + I2*(al*al + be*be)]])[np.ix_(act, act)]
                for v in scipy.linalg.eigh(K, M, eigvals_only=True):
                    out.append((float(v), i, j))
            elif len(act) == 3:
                g = N0[0]*al*al + N0[1]*be*be
                k = K[2, 2] - K[2, :2].dot(np.linalg.solve(K[:2, :2], K[:2, 2]))
                if g < 0:
                    out.append((float(-k/g), i, j))
    return sorted(out)


def spectrum(K, M, buckling, k):
    """Lowest k eigenvalues of (K, M), or the lowest k load factors of K + l M."""
    K, M = ref.dense(K), ref.dense(M)
    act = np.abs(K).sum(axis=0) > 0
    K, M = K[np.ix_(act, act)], M[np.ix_(act, act)]
    D = 1/np.sqrt(np.diag(K))
    K, M = K*D[:, None]*D[None, :], M*D[:, None]*D[None, :]
    n = len(K)
    k = min(k, n)
    if buckling:
        mu = scipy.linalg.eigh(-M, K, eigvals_only=True, subset_by_index=[n - k, n - 1])[::-1]
        return np.array([1/v for v in mu if v > 0])
    # the largest eigenvalues of M x = mu K x are the accurate ones
    mu = scipy.linalg.eigh(M, K, eigvals_only=True, subset_by_index=[n - k, n - 1])[::-1]
    return 1/mu


BEAMS = {  # end conditions: (roots of the vibration, factor of the buckling load pi^2 EI/L^2)
    'ss': ([np.pi, 2*np.pi], 1.),
    'cc': ([4.730040744862704, 7.853204624095838], 4.),
    'cs': ([3.926602312047919, 7.068582745628732], 2.0457481),
    'cf': ([1.8751040687119611, 4.694091132974175], 0.25),
    'ff': ([4.730040744862704, 7.853204624095838], None),
}
EXACT_CS = 4.493409457909064**2/np.pi**2


def run(ctx):
    from panels.multidomain import MultiDomain

    def panel(case):
        rng = case.rng
        d = crossply(rng)
        cyl = bool(rng.integers(0, 2))
        h = d['plyt']*len(d['stack'])
        d['a'] = float(h*10**rng.uniform(1.3, 2.4))
        d['b'] = float(d['a']*10**rng.uniform(-0.4, 0.4))
        if cyl:
            d['r'] = float(d['b']*10**rng.uniform(-0.2, 1.5))
        d.update(supports())
        d['m'], d['n'] = (int(v) for v in rng.integers(7, 13, 2))
        buckling = bool(rng.integers(0, 2))
        s = gen.shell(d)
        P = ref.Panel.of(s)
        N0 = None
        if buckling:
            N = P.ABD[0, 0]*10**rng.uniform(-6, -2)
            N0 = [(-N, 0.), (0., -N), (-N, -N*rng.uniform(0, 2)), (-N, N*rng.uniform(0, 0.5))][int(rng.integers(0, 4))]
        case.note(buckling=buckling, N0=N0, **gen.brief(d))
        numeric = rng.random() < 0.3
        state = buckling and rng.random() < 0.3

        def matrices(s):
            if not buckling:
                kw = {}
                if numeric:
                    s._rebuild()
                    shape = (s.m + 2, s.n + 2)
                    kw = dict(h_nxny=np.full(shape, P.lam.h), rho_nxny=np.full(shape, d['rho']), nx=shape[0], ny=shape[1]) \
                        if d['offset'] == 0. else {}
                return s.calc_kC(silent=True), s.calc_kM(silent=True, **kw)
            K = s.calc_kC(silent=True, **(dict(ABDnxny=P.ABD, nx=s.m + 2, ny=s.n + 2) if numeric else {}))
            if state:
                # the same membrane forces from a homogeneous state of strain of the panel with free in-plane edges
                f = gen.shell(dict(d, m=s.m, n=s.n, **{e + q: 1. for e in ('x1', 'x2', 'y1', 'y2') for q in ('u', 'v', 'ur', 'vr')}))
                ex, ey = np.linalg.solve(P.lam.A[:2, :2], np.array(N0))
                c = np.zeros((s.n, s.m, 3))
                line = np.array([0., 1., 1., 1.])      # the straight line from 0 to 1 in the first four terms
                one = np.array([1., 0., 1., 0.])
                c[:4, :4, 0] = ex*P.a*one[:, None]*line[None, :]
                c[:4, :4, 1] = ey*P.b*line[:, None]*one[None, :]
                ctx.count('initial state')
                return K, f.calc_kG(c=c.ravel(), silent=True)
            s.Nxx, s.Nyy = float(N0[0]), float(N0[1])
            return K, s.calc_kG(silent=True)
        K, M = matrices(s)
        k = 4
        lam = spectrum(K, M, buckling, k)
        ex = exact(P, N0, 40)[:k]
        judge(case, lam, ex, P.m, P.n)
        # more terms: closer to the exact values, never farther
        if rng.random() < 0.4:
            s.m, s.n = s.m + int(rng.integers(0, 4)), s.n + int(rng.integers(1, 4))
            K, M = matrices(s)
            lam2 = spectrum(K, M, buckling, k)
            q = min(len(lam), len(lam2))
            case.near(float(((lam2[:q] - lam[:q])/lam[:q]).max()), 1e-7, 'an eigenvalue rises with more terms')
            judge(case, lam2, ex, s.m, s.n)
            ctx.count('refined')
        ctx.count('buckling' if buckling else 'vibration')
        ctx.count('cylinder' if cyl else 'flat')
        if numeric:
            ctx.count('numeric integration')
        if d['offset']:
            ctx.count('offset')
        case.seen('panel', buckling, cyl, P.m, P.n, tuple(d['stack']))

    def judge(case, lam, ex, m, n):
        close = True
        for q, (v, i, j) in enumerate(ex):
            if q >= len(lam):
                break
            case.near((v - lam[q])/v, 1e-6, 'an eigenvalue lies below the exact one', ritz=lam[q], exact=v, waves=(i, j))
            ctx.count('bounds')
            close = close and m >= 3*i + 3 and n >= 3*j + 3
            if close:
                case.near((lam[q] - v)/v, 5e-4, 'an eigenvalue does not converge to the exact one', ritz=lam[q], exact=v, waves=(i, j), m=m, n=n)
                ctx.count('converged')

    def strip(case):
        """Plates without Poisson effect, free along two edges: every beam."""
        rng = case.rng
        e1 = float(10**rng.uniform(9, 11.3))
        d = dict(laminaprop=(e1, e1*float(rng.choice([1., rng.uniform(0.05, 1)])), 0., e1/3, e1/3, e1/3), plyt=float(10**rng.uniform(-4, -2.5)),
                 rho=float(rng.uniform(500, 8000)))
        half = [float(rng.choice([0., 90.])) for _ in range(int(rng.integers(1, 3)))]
        d['stack'] = half + half[::-1]
        h = d['plyt']*len(d['stack'])
        L = float(h*10**rng.uniform(3, 4))
        W = float(L*10**rng.uniform(-0.7, 0.7))
        along = str(rng.choice(['x', 'y']))
        ends = str(rng.choice(list(BEAMS) + ['cf', 'cf']))
        turn = bool(rng.integers(0, 2))
        fl = {f: 1. for f in FLAGS}
        e1n, e2n = [along + k for k in ('12'[::-1] if turn else '12')]
        for e, k in zip((e1n, e2n), ends):
            if k in 'sc':
                fl[e + 'w'] = 0.
            if k == 'c':
                fl[e + 'wr'] = 0.
                fl[e + 'u'] = fl[e + 'v'] = 0.
        d.update(fl)
        N = int(rng.integers(9, 14))
        d['a'], d['b'] = (L, W) if along == 'x' else (W, L)
        d['m'], d['n'] = (N, 4) if along == 'x' else (4, N)
        s = gen.shell(d)
        P = ref.Panel.of(s)
        EI = P.lam.D[0, 0] if along == 'x' else P.lam.D[1, 1]
        EA = P.lam.A[0, 0] if along == 'x' else P.lam.A[1, 1]
        case.note(ends=ends, along=along, turn=turn, L=L, W=W, **gen.brief(d))
        # states that are uniform across the strip
        T = np.zeros((P.n, P.m, 3, N))
        for i in range(N):
            if along == 'x':
                T[0, i, 2, i] = T[2, i, 2, i] = 1.
            else:
                T[i, 0, 2, i] = T[i, 2, 2, i] = 1.
        T = T.reshape(P.size, N)
        K = ref.dense(s.calc_kC(silent=True))
        roots, col = BEAMS[ends]
        what = str(rng.choice(['vibration', 'buckling'] + ['deflection', 'deflection', 'bar']*(ends == 'cf')))
        act = np.abs(K.dot(T)).max(axis=0) > 0
        T = T[:, act]
        KT = T.T.dot(K).dot(T)
        if what == 'vibration':
            M = ref.dense(s.calc_kM(silent=True))
            v, x = scipy.linalg.eigh(KT, T.T.dot(M).dot(T))
            for q, root in enumerate(roots):
                k = q + (2 if ends == 'ff' else 0)
                ex = EI*root**4/(P.lam.I[0]*L**4)
                case.near((ex - v[k])/ex, 1e-4, 'a frequency of the strip lies below that of the beam', got=v[k], exact=ex)
                case.near((v[k] - ex)/ex, 1e-3 if q else 1e-4, 'frequency of the strip', got=v[k], exact=ex)
                c = T.dot(x[:, k])
                r = K.dot(c) - v[k]*M.dot(c)
                case.near(float(np.abs(r).max()/(np.abs(K).dot(np.abs(c)).max())), 1e-7, 'mode of the strip')
            if ends == 'ff':
                case.near(float(np.abs(v[:2]).max()/v[2]), 1e-6, 'rigid motions of the free strip')
            ctx.count('beam vibration')
        elif what == 'buckling':
            if col is None:
                raise Skip('free strip')
            ex = np.pi**2*EI/L**2*(EXACT_CS if ends == 'cs' else col)
            if along == 'x':
                s.Nxx = -1.
            else:
                s.Nyy = -1.
            G = ref.dense(s.calc_kG(silent=True))
            mu = scipy.linalg.eigh(-T.T.dot(G).dot(T), KT, eigvals_only=True)[-1]
            case.near(abs(1/mu - ex)/ex, 1e-5, 'buckling load of the strip', got=1/mu, exact=ex)
            ctx.count('beam buckling')
        else:
            F = float(rng.choice([-1, 1]))*10**rng.uniform(-3, 3)
            end = 0. if turn else L
            f = lambda t: F + 0*t
            k = dict(funcz=f) if what == 'deflection' else {'func' + along: f}
            (s.add_distr_load_fixed_x if along == 'x' else s.add_distr_load_fixed_y)(end, cte=bool(rng.integers(0, 2)), **k)
            fext = np.asarray(s.calc_fext(silent=True)).ravel()
            t = np.linspace(0, 1, 7)*L
            if what == 'deflection':
                c = T.dot(np.linalg.solve(KT, T.T.dot(fext)))
                ex = F*t**2*(3*L - t)/(6*EI)
                var = 'w'
            else:
                var = 'u' if along == 'x' else 'v'
                U = np.zeros((P.n, P.m, 3, N))
                for i in range(N):
                    if along == 'x':
                        U[0, i, 0, i] = U[2, i, 0, i] = 1.
                    else:
                        U[i, 0, 1, i] = U[i, 2, 1, i] = 1.
                U = U.reshape(P.size, N)
                U = U[:, np.abs(K.dot(U)).max(axis=0) > 0]
                c = U.dot(np.linalg.solve(U.T.dot(K).dot(U), U.T.dot(fext)))
                ex = F*t/EA
            x, y = (t, np.full(7, W/3)) if along == 'x' else (np.full(7, W/3), t)
            if turn:
                x, y = (L - x, y) if along == 'x' else (x, L - y)
            _, fld = s.uvw(c, xs=x, ys=y)
            case.near(float(np.abs(fld[var].ravel() - ex).max()/np.abs(ex).max()), 1e-7, 'displacement of the strip', got=fld[var].ravel(), exact=ex)
            r = K.dot(c) - fext
            case.near(float(np.abs(r).max()/(np.abs(K).dot(np.abs(c)).max())), 1e-7, 'equilibrium of the strip')
            ctx.count('beam deflection' if what == 'deflection' else 'bar')
        case.seen('strip', ends, along, turn, what, N)

    def point(case):
        """Deflection under a point load against the double series, from below."""
        rng = case.rng
        d = crossply(rng)
        h = d['plyt']*len(d['stack'])
        d['a'] = float(h*10**rng.uniform(1.3, 2.4))
        d['b'] = float(d['a']*10**rng.uniform(-0.3, 0.3))
        if rng.random() < 0.5:
            d['r'] = float(d['b']*10**rng.uniform(0, 1.5))
        d.update(supports())
        d['m'], d['n'] = (int(v) for v in rng.integers(10, 15, 2))
        s = gen.shell(d)
        P = ref.Panel.of(s)
        x, y = float(rng.uniform(0.3, 0.7)*P.a), float(rng.uniform(0.3, 0.7)*P.b)
        F = float(rng.choice([-1, 1]))*10**rng.uniform(-3, 3)
        case.note(x=x, y=y, F=F, **gen.brief(d))
        n = 250
        i, j = (v.ravel() for v in np.meshgrid(np.arange(1, n + 1), np.arange(1, n + 1)))
        al, be = i*np.pi/P.a, j*np.pi/P.b
        z = np.zeros(al.shape)
        B = np.array([[-al, z, z], [z, -be, z + (1/P.r if P.r else 0.)], [be, al, z], [z, z, al*al], [z, z, be*be], [z, z, -2*al*be]])
        K = np.einsum('aik,ab,bjk->kij', B, P.lam.ABD, B)
        Kuu, Kuw = K[:, :2, :2], K[:, :2, 2]
        kw = K[:, 2, 2] - np.einsum('ki,ki->k', Kuw, np.linalg.solve(Kuu, Kuw[..., None])[..., 0])
        ex = F*float((4/(P.a*P.b)*(np.sin(al*x)*np.sin(be*y))**2/kw).sum())
        s.add_point_load(x, y, 0., 0., F, cte=bool(rng.integers(0, 2)))
        f = np.asarray(s.calc_fext(silent=True)).ravel()
        K = ref.dense(s.calc_kC(silent=True))
        act = np.abs(K).sum(axis=0) > 0
        D = np.zeros(P.size)
        D[act] = 1/np.sqrt(np.diag(K)[act])
        c = np.zeros(P.size)
        c[act] = D[act]*np.linalg.solve((K*D[:, None]*D[None, :])[np.ix_(act, act)], (D*f)[act])
        _, fld = s.uvw(c, xs=np.array([x]), ys=np.array([y]))
        got = float(fld['w'].ravel()[0])
        case.near((got - ex)/ex, 2e-3, 'deflection larger than the exact one', got=got, exact=ex)
        case.near((ex - got)/ex, 0.8 if P.r and P.b**2/(P.r*h) > 10 else 0.3, 'deflection far from the exact one', got=got, exact=ex)
        case.near(abs(F*got - c.dot(K).dot(c))/abs(F*got), 1e-7, 'work of the load')
        ctx.count('point load')
        case.seen('point', bool(P.r), P.m, P.n)

    def assembly(case):
        """A panel cut into parts that are connected again."""
        rng = case.rng
        d = crossply(rng, sym=True)
        h = d['plyt']*len(d['stack'])
        d['a'] = float(h*10**rng.uniform(2.3, 3))
        d['b'] = float(d['a']*10**rng.uniform(-0.2, 0.2))
        if rng.random() < 0.4:
            d['r'] = float(d['b']*10**rng.uniform(0.5, 1.5))
        d.update(supports())
        d['m'] = d['n'] = int(rng.integers(8, 11))
        whole = gen.shell(d)
        P = ref.Panel.of(whole)
        along = str(rng.choice(['x', 'y']))
        k = int(rng.integers(2, 4))
        cuts = np.sort(np.concatenate(([0., 1.], (np.arange(1, k) + rng.uniform(-0.2, 0.2, k - 1))/k)))
        parts = []
        for q in range(k):
            e = dict(d)
            L = float(cuts[q + 1] - cuts[q])
            e['a' if along == 'x' else 'b'] *= L
            for end, inner in ((along + '1', q > 0), (along + '2', q < k - 1)):
                if inner:
                    e.update({end + t: 1. for t in ('u', 'v', 'w', 'ur', 'vr', 'wr')})
            p = gen.shell(e)
            p.group = 'g'
            parts.append(p)
        name = along + 'cte'
        conn = [dict(p1=p, p2=q, func='SS' + name, **{name + '1': (p.a if along == 'x' else p.b), name + '2': 0.})
                for p, q in zip(parts[:-1], parts[1:])]
        order = [int(v) for v in rng.permutation(k)]
        md = MultiDomain([parts[q] for q in order], conn)
        buckling = bool(rng.integers(0, 2))
        N0 = None
        case.note(along=along, cuts=list(cuts), order=order, buckling=buckling, **gen.brief(d))
        K = md.calc_kC(silent=True)
        if buckling:
            N0 = (-P.ABD[0, 0]*1e-4, 0.)
            for p in parts:
                p.Nxx = float(N0[0])
            M = md.calc_kG(silent=True)
        else:
            M = md.calc_kM(silent=True)
        lam = spectrum(K, M, buckling, 2)
        ex = exact(P, N0, 40)[:2]
        for v, (e, i, j) in zip(lam, ex):
            if max(i, j) > 2:
                break
            case.near((e - v)/e, 5e-3 + 8*h/min(P.a, P.b), 'eigenvalue of the connected parts below that of the whole', got=v, exact=e)
            case.near((v - e)/e, 3e-3, 'eigenvalue of the connected parts above that of the whole', got=v, exact=e)
            ctx.count('assembly')
        case.seen('assembly', along, k, buckling, bool(P.r))

    def large_deflection(case):
        """Strips and shallow arches bent into one direction beyond the linear range: buckled under a shortening, or under
        pressure between immovable ends; the membrane force is uniform and the exact deflection trigonometric or hyperbolic."""
        rng = case.rng
        d = crossply(rng, sym=True)
        d.pop('offset', None)
        h = d['plyt']*len(d['stack'])
        L = float(h*10**rng.uniform(1.5, 3))
        W = float(L*10**rng.uniform(-0.7, 0.7))
        buckled = rng.random() < 0.5
        along = str(rng.choice(['x', 'y']))
        arch = not buckled and along == 'y' and rng.random() < 0.7
        ends = str(rng.choice(['ss', 'cc'] if buckled else ['ss', 'cc', 'sc']))
        us, ut, t = ('u', 'v', 'y') if along == 'x' else ('v', 'u', 'x')
        fl = {f: 0. for f in FLAGS}
        for k, e in zip(ends, '12'):
            fl[along + e + 'wr'] = 1. if k == 's' else 0.
            fl[along + e + us], fl[along + e + us + 'r'] = float(buckled), 1.
            fl[t + e + us] = fl[t + e + 'w'] = 1.
        d.update(fl)
        N = int(rng.integers(15, 19))
        d['a'], d['b'] = (L, W) if along == 'x' else (W, L)
        d['m'], d['n'] = (N, 4) if along == 'x' else (4, N)
        if arch:
            d['r'] = float(L*L/h*10**rng.uniform(-1.5, 1))
        s = gen.shell(d)
        P = ref.Panel.of(s)
        q = 0 if along == 'x' else 1
        A, D = P.lam.A[q, q], P.lam.D[q, q]
        S = np.polynomial.legendre.leggauss(60)
        sg, wg = (S[0] + 1)/2, S[1]/2      # in units of L
        if buckled:
            k = np.pi*(1 if ends == 'ss' else 2)
            amp = h*10**rng.uniform(-0.4, 1)*float(rng.choice([-1, 1]))
            Nm = -D*k*k/L**2
            if ends == 'ss':
                w = lambda z, e=0: amp*(np.sin(k*z), k*np.cos(k*z), -k*k*np.sin(k*z))[e]
            else:
                w = lambda z, e=0: amp/2*(1 - np.cos(k*z), k*np.sin(k*z), k*k*np.cos(k*z))[e]
            pres = 0.
        else:
            tau = float(rng.uniform(0.5, 6))
            sign = -1. if arch and rng.random() < 0.6 else 1.
            k = np.sqrt(complex(-sign))*tau        # N = -D k^2/L^2
            Nm = sign*D*tau**2/L**2
            f = lambda z: np.array([1 + 0*z, z, np.cos(k*z), np.sin(k*z), z*z/(2*k*k)], dtype=complex)
            f1 = lambda z: np.array([0*z, 1 + 0*z, -k*np.sin(k*z), k*np.cos(k*z), z/k**2], dtype=complex)
            f2 = lambda z: np.array([0*z, 0*z, -k*k*np.cos(k*z), -k*k*np.sin(k*z), 1/k**2 + 0*z], dtype=complex)
            rows = []
            for e, z in zip(ends, (0., 1.)):
                z = np.array(z)
                rows += [f(z), f2(z) if e == 's' else f1(z)]
            R = np.array(rows)
            if np.linalg.cond(R[:, :4]) > 1e4:
                raise Skip('near a buckling load')
            co = np.append(np.linalg.solve(R[:, :4], -R[:, 4]), 1.)
            phi = lambda z, e=0: (co @ (f, f1, f2)[e](z)).real
            # immovable ends: N L/A - Q I1/r L - Q^2 I2/(2L) = 0,  w = Q*phi
            I1, I2 = (wg*phi(sg)).sum(), (wg*phi(sg, 1)**2).sum()
            c2, c1, c0 = I2/(2*L), (I1*L/P.r if P.r else 0.), -Nm*L/A
            disc = c1*c1 - 4*c2*c0
            if disc <= 0.02*c1*c1:
                raise Skip('no such state, or near a limit point')
            Q = (-c1 + float(rng.choice([-1, 1]))*np.sqrt(disc))/(2*c2)
            w = lambda z, e=0: Q*phi(z, e)
            pres = D*Q/L**4 + (Nm/P.r if P.r else 0.)
        case.note(along=along, ends=ends, buckled=buckled, force=Nm, pressure=pres, amplitude=float(np.abs(w(sg)).max()/h), **gen.brief(d))
        T = np.zeros((2, P.n, P.m, 3, N))
        for j, var in enumerate((q, 2)):
            for i in range(N):
                if along == 'x':
                    T[j, 0, i, var, i] = T[j, 2, i, var, i] = 1.
                else:
                    T[j, i, 0, var, i] = T[j, i, 2, var, i] = 1.
        U, T = T.reshape(2, P.size, N)
        fu = P.f('u', 2*sg - 1) if along == 'x' else P.g('v', 2*sg - 1)
        fw = P.f('w', 2*sg - 1) if along == 'x' else P.g('w', 2*sg - 1)
        fu, fw = (F if F.shape[0] == sg.size else F.T for F in (fu, fw))
        au, aw = (np.abs(F).max(axis=0) > 0 for F in (fu, fw))
        # the exact state in the terms of the series
        du = Nm/A*L - (w(sg)/P.r*L if P.r else 0.) - w(sg, 1)**2/(2*L)
        delta = (wg*du).sum()
        leg = np.polynomial.legendre.Legendre
        u = leg.fit(sg, du, 30, domain=[0, 1]).integ(lbnd=0.)(sg)
        cu, cw = np.zeros(N), np.zeros(N)
        cu[au] = np.linalg.lstsq(fu[:, au], u, rcond=None)[0]
        cw[aw] = np.linalg.lstsq(fw[:, aw], w(sg), rcond=None)[0]
        if buckled:
            cu[0], cu[2] = 0., delta
            au[[0, 2]] = False
        G = np.concatenate([U[:, au], T[:, aw]], axis=1)
        c = U.dot(cu) + T.dot(cw)*(1 + 0.02*float(rng.uniform(-1, 1)))
        fext = np.zeros(P.size)
        fext += T.dot((wg[:, None]*fw).sum(axis=0)*pres*L)*(W/2)*1.
        # the two terms across share the load
        n1, n2 = 2*N + 2, 8
        nn = dict(nx=n1, ny=n2) if along == 'x' else dict(nx=n2, ny=n1)
        for it in range(25):
            KT = G.T.dot(ref.dense(s.calc_kT(c=c, **nn))).dot(G)
            r = G.T.dot(fext - np.asarray(s.calc_fint(c, **nn)).ravel())
            sc = 1/np.sqrt(np.abs(np.diag(KT)) + 1e-300)
            Ks = KT*sc[:, None]*sc[None, :]
            if it == 0 and np.abs(np.linalg.eigvalsh(Ks)).min() < 1e-9:
                raise Skip('near a limit point')
            step = sc*np.linalg.solve(Ks, sc*r)
            c = c + G.dot(step)
            if np.abs(step/sc).max() <= 1e-11*np.abs(G.T.dot(c)/sc).max():
                break
        z = np.linspace(0, 1, 11)
        x, y = (z*L, np.full(11, W/3)) if along == 'x' else (np.full(11, W/3), z*L)
        _, fld = s.uvw(c, xs=x, ys=y)
        top = np.abs(w(sg)).max()
        tol = 2e-4
        case.near(float(np.abs(fld['w'].ravel() - w(z)).max()/top), tol, 'deflection beyond the linear range', iterations=it)
        _, st = s.stress(c, xs=x[1:-1], ys=y[1:-1], NLgeom=True)
        e = 'xx' if along == 'x' else 'yy'
        mem = A*np.abs(w(sg, 1)).max()**2/(2*L*L) + abs(Nm)
        case.near(float(np.abs(st['N' + e].ravel() - Nm).max()/mem), 10*tol, 'membrane force beyond the linear range')
        case.near(float(np.abs(st['M' + e].ravel() + D*w(z[1:-1], 2)/L**2).max()/(D*np.abs(w(sg, 2)).max()/L**2)), 50*tol, 'moment beyond the linear range')
        fint = np.asarray(s.calc_fint(c, **nn)).ravel()
        out = fint - fext
        if buckled:
            got = U[:, [0, 2]].T.dot(fint)/W
            case.near(float(np.abs(got - [-2*Nm/2, 2*Nm/2]).max()/abs(Nm)), 10*tol, 'reaction of the buckled strip')
            for i in (0, 2):
                out = out*(U[:, i] == 0)
            ctx.count('post-buckled')
        else:
            ctx.count('arch' if arch else 'large deflection')
        big = np.abs(ref.dense(s.calc_kT(c=c, **nn))).dot(np.abs(c)).max()
        case.near(float(np.abs(out).max()/big), 1e-8, 'equilibrium beyond the linear range')
        if np.abs(Nm) > 0:
            case.seen('large deflection', along, ends, buckled, arch, N)

    def flutter(case):
        """Eigenvalues in supersonic flow against the coupled sine modes."""
        rng = case.rng
        d = crossply(rng)
        h = d['plyt']*len(d['stack'])
        d['a'] = float(h*10**rng.uniform(1.3, 2.4))
        d['b'] = float(d['a']*10**rng.uniform(-0.3, 0.3))
        if rng.random() < 0.4:
            d['r'] = float(d['b']*10**rng.uniform(0.5, 1.5))
        d.update(supports())
        flow = str(rng.choice(['x', 'y']))
        N = int(rng.integers(10, 13))
        d['m'], d['n'] = (N, 8) if flow == 'x' else (8, N)
        s = gen.shell(d)
        P = ref.Panel.of(s)
        L = P.a if flow == 'x' else P.b
        D = P.lam.D - P.lam.B.dot(np.linalg.solve(P.lam.A, P.lam.B))
        beta = float((D[0, 0] if flow == 'x' else D[1, 1])/L**3*10**rng.uniform(1.2, 2.8))
        s.flow, s.beta = flow, beta
        if rng.random() < 0.5:
            # the same pressure from the flow conditions; flat panels only, the curvature adds a term
            if not P.r:
                s.beta, s.Mach, s.rho_air = None, float(rng.uniform(1.2, 4)), 1.2
                s.V = float(np.sqrt(beta*np.sqrt(s.Mach**2 - 1)/s.rho_air))
        case.note(flow=flow, beta=beta, **gen.brief(d))
        k = 40
        w = np.arange(1, k + 1)
        one = np.ones(k)
        i, j = (w, one) if flow == 'x' else (one, w)
        al, be = i*np.pi/P.a, j*np.pi/P.b
        z = np.zeros(k)
        B = np.array([[-al, z, z], [z, -be, z + (1/P.r if P.r else 0.)], [be, al, z], [z, z, al*al], [z, z, be*be], [z, z, -2*al*be]])
        Kb = np.einsum('aik,ab,bjk->kij', B, P.lam.ABD, B)
        I0, I1, I2 = P.lam.I
        K, M = np.zeros((3*k, 3*k)), np.zeros((3*k, 3*k))
        for q in range(k):
            t = slice(3*q, 3*q + 3)
            K[t, t] = Kb[q]
            M[t, t] = [[I0, 0, -I1*al[q]], [0, I0, -I1*be[q]], [-I1*al[q], -I1*be[q], I0 + I2*(al[q]**2 + be[q]**2)]]
        I, Q = np.meshgrid(w, w, indexing='ij')
        odd = (I + Q) % 2 == 1
        A = np.where(odd, 4*beta*Q*I/np.where(odd, I*I - Q*Q, 1.)/L, 0.)
        K[2::3, 2::3] += A
        ex = scipy.linalg.eigvals(K, M)
        ex = ex[np.argsort(np.abs(ex))]
        Kr, Mr, Ar = (ref.dense(v) for v in (s.calc_kC(silent=True), s.calc_kM(silent=True), s.calc_kA(silent=True)))
        act = np.abs(Kr).sum(axis=0) > 0
        D = 1/np.sqrt(np.diag(Kr)[act])
        Kr, Mr = [v[np.ix_(act, act)]*D[:, None]*D[None, :] for v in (Kr + Ar, Mr)]
        # the largest eigenvalues of the inverse problem are the accurate ones
        got = 1/scipy.linalg.eigvals(Mr, Kr)
        for e in ex[:2]:
            dist = np.abs(got - e).min()/abs(e)
            # close to the flutter point both eigenvalues coincide and depend on everything like a square root
            gap = np.abs(ex[:4] - e)
            gap = gap[gap > 0].min()/abs(e) if (gap > 0).any() else 0.
            case.near(dist, 2e-3 + (0.1 if gap < 3e-2 else 0.), 'eigenvalue in the flow', exact=str(e), got=str(got[np.abs(got - e).argmin()]))
            ctx.count('flutter')
            if abs(e.imag) > 1e-6*abs(e):
                ctx.count('unstable')
        case.seen('flutter', flow, bool(P.r), N)
    ctx.run('panel', 200, 4000, panel)
    ctx.run('flutter', 60, 1000, flutter)
    ctx.run('strip', 150, 3000, strip)
    ctx.run('point', 40, 600, point)
    ctx.run('assembly', 40, 600, assembly)
    ctx.run('large deflection', 40, 800, large_deflection)
