META = dict(
    shards=(7, 8), budget=(140, 1800),
    rule='random dimensions, laminates, loads, numbers of panels and terms, defects and flow of every ready-made analysis; the '
         'assembly described in the documentation is built again by the reference (panels and gap energies) and the returned '
         'panels, eigenvalues, modes and static states are judged against it; non-trivial when an eigenpair was judged',
    require=('cylinder cte', 'cylinder static', 'blades cte', 'blades static', 'compression cte', 'compression static', 'freq',
             'flutter', 'spla', 'scaled', 'refused', 'eigenpair', 'curved', 'defect', 'no defect'),
    assumptions=['the eigenvalue and non-linear solvers of structsolve are not under test; a run they give up is not judged',
                 'panels are assembled in the documented order (skin, base and flange alternating from the top)'],
)
# --- end of META
import copy
import signal
import warnings

import numpy as np
import scipy.linalg

from .. import ref
from ..core import Skip
from ..ref import dense, full_from_upper
from .p12 import quiet

ISO = (70e9, 70e9, 0.33, 70e9/2.66, 70e9/2.66, 70e9/2.66)
CFRP = (142.5e9, 8.7e9, 0.28, 5.1e9, 5.1e9, 5.1e9)
GLASS = (39e9, 9e9, 0.26, 3.6e9, 3.6e9, 3.0e9)


class Slow(BaseException):
    """An eigenvalue solver that does not converge; not judged."""


def ring(*a):
    raise Slow()


class Part(object):
    """One panel the analysis is documented to consist of."""

    def __init__(self, group, x0, y0, a, b, r, m, n, stack, plyt, prop, rho, restrained, N=0., nx=None, ny=None):
        flags = {k: 1. for k in ref.FLAGS}
        for k in restrained:
            flags[k] = 0.
        k = len(stack)
        lam = ref.Laminate(stack, [plyt]*k, [prop]*k, [rho]*k)
        self.group, self.x0, self.y0, self.N, self.nx, self.ny = group, x0, y0, N, nx, ny
        self.P = ref.Panel(a, b, r, m, n, flags, lam)


class Model(object):
    def __init__(self, parts, conns):
        self.parts, self.conns = parts, conns
        self.o = np.concatenate(([0], np.cumsum([p.P.size for p in parts]))).astype(int)
        self.size = int(self.o[-1])

    def blocks(self, f):
        K = np.zeros((self.size,)*2)
        for i, p in enumerate(self.parts):
            s = slice(self.o[i], self.o[i + 1])
            K[s, s] = f(i, p)
        return K

    def kC(self):
        K = self.blocks(lambda i, p: p.P.kC())
        for kind, i, j, q1, q2 in self.conns:
            if j < i:
                i, j, q1, q2 = j, i, q2, q1
            A, B = self.parts[i].P, self.parts[j].P
            kt, kr = ref.kt_kr({'SB': 'bot-top'}.get(kind, kind[2:]), A.lam, B.lam, min(A.a, A.b))
            k, _ = ref.connection(kind, A, B, kt, kr, q1, q2, A.lam.h/2 + B.lam.h/2)
            idx = np.concatenate((np.arange(self.o[i], self.o[i + 1]), np.arange(self.o[j], self.o[j + 1])))
            K[np.ix_(idx, idx)] += k
        return K

    def kG_cte(self):
        return self.blocks(lambda i, p: p.P.kG_state(p.N, 0., 0.))

    def kG_c(self, c, quad):
        return self.blocks(lambda i, p: p.P.kG(c[self.o[i]:self.o[i + 1]], nx=quad[i][0], ny=quad[i][1]))

    def kM(self):
        return self.blocks(lambda i, p: p.P.kM())

    def kA(self, which, beta, gamma, flow):
        return self.blocks(lambda i, p: p.P.kA(beta, gamma, flow) if i in which else 0.)

    def line(self, xs):
        """xs: position along x of the load of each loaded panel, by number"""
        f = np.zeros(self.size)
        for i, (x, N) in xs.items():
            P = self.parts[i].P
            q, w = np.polynomial.legendre.leggauss(max(P.n, 4) + 2)
            f[self.o[i]:self.o[i + 1]] = N*P.N('u', np.full(q.size, x), (q + 1)*P.b/2).T.dot(w*P.b/2)
        return f


def cylinder_model(A, loads=None, blades=False, analysis=True):
    k = A['npanels']
    b = 2*np.pi*A['r']/k
    fix = ['x1u', 'x1v', 'x1w', 'x2v', 'x2w'] + ([] if analysis else ['x2u'])
    parts = [Part('skin', 0., i*b, A['height'], b, A['r'], A['m'], A['n'], A['stack'], A['plyt'], A['laminaprop'], 0., fix)
             for i in range(k)]
    conns = [('SSycte', i, i + 1, b, 0.) for i in range(k - 1)] + [('SSycte', k - 1, 0, b, 0.)]
    if blades:
        for i in range(k):
            parts.append(Part('blade_%02d' % i, 0., i*b, A['height'], A['width_blades'][i], None, A['m'], A['n'],
                              A['stack_blades'][i], A['plyt'], A['laminaprop'], 0., fix))
            conns.append(('BFycte', i, k + i, 0., 0.))
    for p, N in zip(parts, loads or []):
        p.N = N
    return Model(parts, conns)


def tstiff_model(A, clamp_u):
    """15 panels; rows of panels from the top (x=a) to the loaded edge."""
    a, b, ys, bb, bf = (A[k] for k in ('a', 'b', 'ys', 'bb', 'bf'))
    d = A['defect_a']*a
    hole = d > 0
    if not hole:
        d = 0.33*a
    L = (a - d)/2
    rows = [(L + d, L), (L, d), (0., L)]
    cols = [(ys + bb/2, b - ys - bb/2), (ys - bb/2, bb), (0., ys - bb/2)]
    g = lambda k, alt: A[alt] if A.get(k) is None else A[k]
    mb, nb, mf, nf = g('mb', 'm'), g('nb', 'n'), g('mf', 'm'), g('nf', 'n')
    parts = []
    edge = lambda e, u: [e + 'v', e + 'w'] + ([e + 'u'] if u else [])
    q = lambda k: A.get(k)
    for i, (x0, la) in enumerate(rows):
        for j, (y0, lb_) in enumerate(cols):
            fix = (edge('x2', True) if i == 0 else []) + (edge('x1', clamp_u) if i == 2 else [])
            fix += (edge('y2', False) if j == 0 else []) + (edge('y1', False) if j == 2 else [])
            parts.append(Part('skin', x0, y0, la, lb_, A.get('r'), A['m'], A['n'], A['stack_skin'], A['plyt'], A['laminaprop'],
                              A['rho'], fix, A.get('Nxx_skin') or 0., q('nx'), q('ny')))
    for i, (x0, la) in enumerate(rows):
        parts.append(Part('base', x0, ys - bb/2, la, bb, A.get('r'), mb, nb, A['stack_base'], A['plyt'], A['laminaprop'], A['rho'],
                          [], A.get('Nxx_base') or 0., q('nxb'), q('nyb')))
        fix = (edge('x2', True) if i == 0 else []) + (edge('x1', clamp_u) if i == 2 else [])
        parts.append(Part('flange', x0, 0., la, bf, None, mf, nf, A['stack_flange'], A['plyt'], A['laminaprop'], A['rho'],
                          fix, A.get('Nxx_flange') or 0., q('nxf'), q('nyf')))
    conns = []
    W = [c[1] for c in cols]
    for i in range(3):
        for j in range(3):
            k = 3*i + j
            if j < 2:
                conns.append(('SSycte', k, k + 1, 0., W[j + 1]))
            if i < 2:
                conns.append(('SSxcte', k, k + 3, 0., rows[i + 1][1]))
        base, flange = 9 + 2*i, 10 + 2*i
        if not (hole and i == 1):
            conns.append(('SB', 3*i + 1, base, None, None))
        conns.append(('BFycte', base, flange, bb/2, 0.))
        if i < 2:
            conns.append(('SSxcte', base, base + 2, 0., rows[i + 1][1]))
            conns.append(('SSxcte', flange, flange + 2, 0., rows[i + 1][1]))
    return Model(parts, conns), hole


def solver_gave_up(e):
    tb, last = e.__traceback__, ''
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return 'panels' not in last.replace('\\', '/').split('/') or 'site-packages' in last


def run(ctx):
    import panels.multidomain as pm
    from panels.multidomain import cylinder as cy, cylinder_blade_stiffened as cb

    def solvable(M, load, vibration=False):
        """The solver on the matrices of the reference."""
        import structsolve
        from scipy.sparse import csr_matrix
        K = M.kC()
        if load is not None:
            keep = np.flatnonzero(np.diag(K) > 0)
            c = np.zeros(M.size)
            c[keep] = np.linalg.solve(K[np.ix_(keep, keep)], load[keep])
            other = M.kG_c(c, [(12, 12)]*len(M.parts))
        else:
            other = M.kM() if vibration else M.kG_cte()
        try:
            (structsolve.freq if vibration else structsolve.lb)(csr_matrix(K), csr_matrix(other), silent=True, num_eigvalues=3)
        except RuntimeError:
            return False
        return True

    def call(f, expect=None, **A):
        """The analysis; its arguments must come back as they were."""
        B = copy.deepcopy(A)
        signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, 12 if ctx.quick else 60)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                out = quiet(f, **A)
        except Slow:
            ctx.count('solver too slow')
            raise Skip()
        except RuntimeError as e:
            if solver_gave_up(e):
                ctx.count('solver gave up')
                if expect is not None and solvable(*expect):
                    ctx.case.ok(False, 'the problem was given to the solver in a form that it refuses: %s' % str(e)[:200])
                raise Skip()
            raise
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return out, A == B

    def material(rng):
        s = float(10**rng.uniform(-1, 1)) if rng.random() < 0.3 else 1.
        lp = (ISO, CFRP, GLASS)[int(rng.integers(3))]
        return tuple(v*s if i != 2 else v for i, v in enumerate(lp))

    def stack(rng):
        half = [float(rng.choice([0, 90, 45, -45, 30, rng.uniform(-90, 90)])) for _ in range(int(rng.integers(1, 4)))]
        return half + half[::-1] if rng.random() < 0.7 else half

    def panels_ok(case, assy, M, has_r=True):
        got = list(assy.panels)
        case.ok(len(got) == len(M.parts), 'number of panels of the assembly')
        case.ok(assy.get_size() == M.size, 'size of the assembly')
        for i, (p, q) in enumerate(zip(got, M.parts)):
            P = q.P
            L = P.a + P.b + abs(q.x0) + abs(q.y0)
            for what, g, e in (('a', p.a, P.a), ('b', p.b, P.b), ('x0', p.x0, q.x0), ('y0', p.y0, q.y0)):
                case.near(abs(g - e)/L, 1e-12, '%s of a panel of the assembly' % what, panel=i + 1)
            case.ok((p.m, p.n) == (P.m, P.n), 'number of terms of a panel', panel=i + 1)
            case.ok(p.group == q.group, 'group of a panel', panel=i + 1, group=p.group)
            case.ok(abs((p.r or 0.) - P.r) <= 1e-12*P.r, 'radius of a panel', panel=i + 1)
            for k in ref.FLAGS:
                case.ok(float(getattr(p, k)) == P.flags[k], 'boundary flag of a panel', panel=i + 1, flag=k)
            case.near(ref.relerr(np.asarray(p.ABD), P.ABD), 1e-10, 'laminate of a panel', panel=i + 1)
            if q.nx is not None:
                case.ok(p.nx == q.nx, 'points along x of a panel', panel=i + 1)
            if q.ny is not None:
                case.ok(p.ny == q.ny, 'points along y of a panel', panel=i + 1)

    class Energy(object):
        """K scaled and factorised: norms are energy norms, so a penalty of a connection does not hide anything."""

        def __init__(self, K):
            self.keep = np.flatnonzero(np.diag(K) > 0)
            A = K[np.ix_(self.keep, self.keep)]
            self.d = 1/np.sqrt(np.diag(A))
            self.A = A*np.outer(self.d, self.d)
            self.L = np.linalg.cholesky(self.A)

        def to(self, G):
            """L^-1 D G D L^-T"""
            G = G[np.ix_(self.keep, self.keep)]*np.outer(self.d, self.d)
            X = scipy.linalg.solve_triangular(self.L, G, lower=True)
            return scipy.linalg.solve_triangular(self.L, X.conj().T, lower=True).conj().T

        def vec(self, v):
            """coordinates in which K is the identity"""
            return self.L.T.dot(v[self.keep]/self.d)

        def force(self, f):
            return scipy.linalg.solve_triangular(self.L, f[self.keep]*self.d, lower=True)

    def energy(case, K):
        try:
            return Energy(K)
        except np.linalg.LinAlgError:
            raise Skip()

    def judge_lb(case, K, KG, lam, vec, num, what):
        case.ok(lam.ndim == 1 and vec.shape == (K.shape[0], lam.size), 'shape of the modes (%s)' % what)
        case.ok(1 <= lam.size <= num, 'number of load multipliers')
        E = energy(case, K)
        H = E.to(KG)
        mu = np.linalg.eigvalsh((H + H.T)/2)
        pos, neg = np.sort(-1/mu[mu < -1e-12*np.abs(mu).max()]), np.sort(1/mu[mu > 1e-12*np.abs(mu).max()])
        lam = np.asarray(lam, float)
        lp = lam[lam > 0]
        case.ok(len(lp) >= min(num, len(pos), 1), 'no positive load multiplier')
        k = min(len(lp), len(pos))
        # far from the first one they approach the round-off of the null space
        near = lambda v: 1e-5*(1 + 0.1*v/v[0])
        k = int(np.count_nonzero(pos[:k] < 1e4*pos[0])) if k else 0
        if k:
            case.near((np.abs(np.sort(lp)[:k]/pos[:k] - 1)/near(pos[:k])).max(), 1., 'load multipliers (%s)' % what)
        ln = -lam[lam < 0]
        k2 = min(len(ln), len(neg))
        k2 = int(np.count_nonzero(neg[:k2] < 1e4*neg[0])) if k2 else 0
        if k2:
            case.near((np.abs(np.sort(ln)[:k2]/neg[:k2] - 1)/near(neg[:k2])).max(), 1., 'load multipliers of the reversed load (%s)' % what)
        for i in range(min(lam.size, 6)):
            if not np.isfinite(lam[i]) or abs(lam[i]) > 1e4*min(np.abs(lam)):
                continue
            y = E.vec(vec[:, i])
            ny = np.linalg.norm(y)
            case.ok(ny > 0, 'mode is null')
            case.near(np.linalg.norm(y + lam[i]*H.dot(y))/ny, 1e-4, 'mode does not solve the buckling problem (%s)' % what, mode=i)
            dead = np.setdiff1d(np.arange(K.shape[0]), E.keep)
            case.ok(not np.any(vec[dead, i]), 'mode moves a restrained degree of freedom')
            ctx.count('eigenpair')

    def judge_static(case, K, f, c, what):
        E = energy(case, K)
        y, g = E.vec(np.asarray(c, float)), E.force(f)
        case.ok(np.linalg.norm(g) > 0, 'oracle: no load')
        case.near(np.linalg.norm(y - g)/np.linalg.norm(g), 1e-5, 'static state is not in equilibrium with the loads (%s)' % what)

    # ------------------------------------------------------------------ cylinders
    def cyl_args(rng, blades):
        r = float(10**rng.uniform(-1, 0.3))
        h = float(r*10**rng.uniform(-0.3, 0.5))
        k = int(rng.integers(2, 6))
        A = dict(height=h, r=r, stack=stack(rng), plyt=float(r*10**rng.uniform(-3.3, -2.3)), laminaprop=material(rng), npanels=k,
                 m=int(rng.integers(4, 7)), n=int(rng.integers(4, 6)))
        if blades:
            A['stack_blades'] = [stack(rng) for _ in range(k)]
            A['width_blades'] = [float(2*np.pi*r/k*rng.uniform(0.02, 0.4)) for _ in range(k)]
        return A

    def loads(rng, k):
        v = -10**rng.uniform(0, 5)*rng.uniform(0.3, 3., k)
        if rng.random() < 0.2:
            v[int(rng.integers(k))] *= -0.5
        if rng.random() < 0.15:
            v[:] = v[0]
        return [float(x) for x in v]

    def cylinder(case):
        rng = case.rng
        blades, fs = bool(case.idx % 2), bool(case.idx//2 % 2)
        A = cyl_args(rng, blades)
        k = A['npanels']
        N = loads(rng, 2*k if blades else k)
        kw = dict(A)
        if blades:
            kw.update(Nxxs_skin=N[:k], Nxxs_blade=N[k:])
        else:
            kw.update(Nxxs=N)
        num = 20
        if rng.random() < 0.6:
            num = kw['num_eigvalues'] = int(rng.integers(3, 12))
        case.note(static=fs, **kw)
        f = {(False, False): cy.cylinder_compression_lb_Nxx_cte, (False, True): cy.cylinder_compression_lb_Nxx_from_static,
             (True, False): cb.cylinder_blade_stiffened_compression_lb_Nxx_cte,
             (True, True): cb.cylinder_blade_stiffened_compression_lb_Nxx_from_static}[blades, fs]
        M = cylinder_model(A, N, blades)
        load = M.line({i: (A['height'], v) for i, v in enumerate(N)})
        out, same = call(f, (M, load if fs else None), **kw)
        name = ('blades ' if blades else 'cylinder ') + ('static' if fs else 'cte')
        case.ok(same, 'the arguments of the analysis were changed')
        assy = out[0]
        panels_ok(case, assy, M)
        K = M.kC()
        if fs:
            case.ok(len(out) == 4, 'results of the analysis')
            c, lam, vec = out[1:]
            judge_static(case, K, load, c, name)
            KG = M.kG_c(np.asarray(c, float), [(p.nx, p.ny) for p in assy.panels])
        else:
            case.ok(len(out) == 3, 'results of the analysis')
            lam, vec = out[1:]
            KG = M.kG_cte()
        judge_lb(case, K, KG, lam, vec, num, name)
        ctx.count(name)
        case.seen(name, k, A['m'], A['n'])

    # ------------------------------------------------------------- stiffened panels
    def t_args(rng, what):
        b = float(10**rng.uniform(-0.5, 0.3))
        bb = float(b*rng.uniform(0.08, 0.35))
        A = dict(a=float(b*10**rng.uniform(-0.2, 0.5)), b=b, bb=bb, bf=float(b*rng.uniform(0.03, 0.3)),
                 ys=float(rng.choice([b/2, rng.uniform(0.3*b, 0.7*b)])),
                 defect_a=float(rng.choice([0., rng.uniform(0.05, 0.85)])), rho=float(rng.uniform(500, 8000)),
                 plyt=float(b*10**rng.uniform(-3.7, -2.7)), laminaprop=material(rng), stack_skin=stack(rng), stack_base=stack(rng),
                 stack_flange=stack(rng), m=int(rng.integers(4, 6)), n=int(rng.integers(4, 5)))
        if rng.random() < 0.6:
            for k in ('mb', 'nb', 'mf', 'nf'):
                if rng.random() < 0.7:
                    A[k] = int(rng.integers(4, 6))
        if rng.random() < 0.4:
            A['r'] = float(b*rng.uniform(1., 20.))
            ctx.count('curved')
        if what == 'compression' and rng.random() < 0.4:
            for k in ('nx', 'ny', 'nxb', 'nyb', 'nxf', 'nyf'):
                if rng.random() < 0.6:
                    A[k] = int(rng.integers(5, 12))
        ctx.count('defect' if A['defect_a'] > 0 else 'no defect')
        return A

    def dead_load(M, A):
        """the load of each part enters at x=0 of the loaded panels, positive Nxx is tension"""
        return -M.line({i: (0., M.parts[i].N) for i in (6, 7, 8, 13, 14)})

    def compression(case):
        rng = case.rng
        A = t_args(rng, 'compression')
        fs = bool(case.idx % 2)
        for k in ('Nxx_skin', 'Nxx_base', 'Nxx_flange'):
            A[k] = float(-10**rng.uniform(0, 3)*(1 if rng.random() < 0.85 else -0.3))
        kw = dict(A)
        if not fs or rng.random() < 0.5:
            kw['run_static_case'] = fs
        case.note(**kw)
        M, hole = tstiff_model(A, not fs)
        out, same = call(pm.tstiff2d_1stiff_compression, (M, dead_load(M, A) if fs else None), **kw)
        case.ok(same, 'the arguments of the analysis were changed')
        assy = out[0]
        panels_ok(case, assy, M)
        K = M.kC()
        name = 'compression ' + ('static' if fs else 'cte')
        case.ok(len(out) == (4 if fs else 3), 'results of the analysis')
        if fs:
            c, lam, vec = out[1:]
            judge_static(case, K, dead_load(M, A), c, name)
            KG = M.kG_c(np.asarray(c, float), [(p.nx, p.ny) for p in assy.panels])
        else:
            lam, vec = out[1:]
            KG = M.kG_cte()
        judge_lb(case, K, KG, lam, vec, 25, name)
        ctx.count(name)
        case.seen(name, A['m'], A['n'], hole, 'r' in A)

    def judge_freq(case, K, M, lam, vec, what):
        """(K + lam M) v = 0; returns the worst residual instead of judging when what is None"""
        case.ok(lam.ndim == 1 and vec.shape == (K.shape[0], lam.size), 'shape of the modes')
        case.ok(lam.size >= 3, 'number of modes')

    def freq(case):
        rng = case.rng
        A = t_args(rng, 'freq')
        case.note(**A)
        M, hole = tstiff_model(A, False)
        out, same = call(pm.tstiff2d_1stiff_freq, (M, None, True), **A)
        case.ok(same, 'the arguments of the analysis were changed')
        case.ok(len(out) == 3, 'results of the analysis')
        assy, lam, vec = out
        panels_ok(case, assy, M)
        K, kM = M.kC(), M.kM()
        judge_freq(case, K, kM, lam, vec, 'freq')
        E = energy(case, K)
        H = E.to(kM)
        w2 = 1/np.linalg.eigvalsh((H + H.T)/2)[::-1]
        got = np.sort(-np.asarray(lam).real)
        case.near(np.abs(np.asarray(lam).imag).max()/np.abs(lam).max(), 1e-7, 'free vibration with a complex eigenvalue')
        k = min(len(got), 20)
        case.near(np.abs(got[:k]/w2[:k] - 1).max(), 1e-5, 'natural frequencies')
        for i in range(min(lam.size, 6)):
            y = E.vec(vec[:, i])
            case.near(np.linalg.norm(y + lam[i]*H.dot(y))/np.linalg.norm(y), 1e-4, 'mode does not solve the vibration problem', mode=i)
            ctx.count('eigenpair')
        ctx.count('freq')
        case.seen('freq', A['m'], A['n'], hole, 'r' in A)

    def flutter(case):
        rng = case.rng
        A = t_args(rng, 'flutter')
        fs = bool(case.idx % 2)
        flow = A['flow'] = str(rng.choice(['x', 'y']))
        A['Mach'] = float(rng.choice([1.2, 2., rng.uniform(1.05, 4)]))
        A['rho_air'] = float(rng.uniform(0.1, 1.3))
        A['speed_sound'] = float(rng.uniform(290, 340))
        loaded = bool(rng.random() < 0.7)
        M, hole = tstiff_model(A, False)
        K0, kM = M.kC(), M.kM()
        E = energy(case, K0)
        # flow of the size of the stiffness of the panel: some cases flutter
        unit = M.kA(range(9), 1., 0., flow)
        A['air_speed'] = V = float(rng.uniform(100, 1200))
        top = np.abs(np.linalg.eigvals(E.to(unit))).max()
        s = (A['Mach']**2 - 1)**0.5
        A['rho_air'] = float(10**rng.uniform(-2, 0.5)/top*s/V**2)
        for k in ('Nxx_skin', 'Nxx_base', 'Nxx_flange'):
            A[k] = 0.
        if loaded:
            for p, k in ((M.parts[0], 'Nxx_skin'), (M.parts[9], 'Nxx_base'), (M.parts[10], 'Nxx_flange')):
                A[k] = 1. if rng.random() < 0.7 else -1.
            if fs:
                M, hole = tstiff_model(A, False)
                c1 = np.zeros(M.size)
                c1[E.keep] = np.linalg.solve(K0[np.ix_(E.keep, E.keep)], dead_load(M, A)[E.keep])
                G1 = M.kG_c(c1, [(12, 12)]*15)
            else:
                M, hole = tstiff_model(A, False)
                G1 = M.kG_cte()
            big = np.abs(np.linalg.eigvalsh(E.to(G1))).max()
            for k in ('Nxx_skin', 'Nxx_base', 'Nxx_flange'):
                A[k] *= float(rng.uniform(0.05, 0.4)/big)
        elif fs and rng.random() < 0.5:
            for k in ('Nxx_skin', 'Nxx_base', 'Nxx_flange'):
                A.pop(k)
        kw = dict(A)
        if not fs or rng.random() < 0.5:
            kw['run_static_case'] = fs
        case.note(**kw)
        out, same = call(pm.tstiff2d_1stiff_flutter, **kw)
        case.ok(same, 'the arguments of the analysis were changed')
        M, hole = tstiff_model(A, False)
        case.ok(len(out) == (4 if fs else 3), 'results of the analysis')
        assy = out[0]
        panels_ok(case, assy, M)
        KG = 0.
        if fs:
            c = out[1]
            if loaded:
                judge_static(case, K0, dead_load(M, A), c, 'flutter')
                KG = M.kG_c(np.asarray(c, float), [(p.nx, p.ny) for p in assy.panels])
            else:
                case.ok(c is None or not np.any(c), 'static state without loads')
        else:
            KG = M.kG_cte()
        lam, vec = out[-2:]
        judge_freq(case, K0, kM, lam, vec, 'flutter')
        beta = A['rho_air']*V**2/s
        gamma = beta/(2*A['r']*s) if 'r' in A and flow == 'x' else 0.   # axial flow only
        kA = M.kA(range(9), beta, gamma, flow)
        # the recorded finding: upper triangle of -beta w_A,s w_B + gamma w_A w_B mirrored with the opposite sign
        X = M.blocks(lambda i, p: (lambda Z: -np.triu(Z) + np.triu(Z, 1).T)(p.P.kA(beta, gamma, flow).T) if i < 9 else 0.)
        H = E.to(kM)

        def worst(KA):
            T = E.to(K0 + KG + KA)
            w = 1/np.linalg.eigvals(np.linalg.solve(T, H))
            res = 0.
            for i in range(min(lam.size, 6)):
                y = E.vec(vec[:, i])
                r = np.linalg.solve(T, T.dot(y) + lam[i]*H.dot(y))
                res = max(res, np.linalg.norm(r)/np.linalg.norm(y))
            # the lowest eigenvalues must be among those returned
            low = w[np.argsort(np.abs(w))][:4]
            low = low[np.sqrt(low.astype(complex)).real > 1e-3*np.sqrt(np.abs(low))]
            miss = max([np.abs(-np.asarray(lam) - z).min()/np.abs(z) for z in low] or [0.])
            return res, miss
        full, skew = worst(kA), worst(X)
        case.note(full=full, skew=skew)
        if max(full) <= 1e-4:
            pass
        elif max(skew) <= 1e-4:
            case.known('ka-skew', 'flutter with the skew-symmetric aerodynamic matrix')
        else:
            case.near(skew[0], 1e-4, 'mode does not solve the flutter problem', full=full)
            case.near(skew[1], 1e-4, 'lowest eigenvalues of the flutter problem', full=full)
        if np.abs(np.asarray(lam)[:6].imag).max() > 1e-6*np.abs(lam).max():
            ctx.count('flutter with complex pairs')
        ctx.count('eigenpair', 6)
        ctx.count('flutter')
        case.seen('flutter', flow, fs, loaded, hole, 'r' in A)

    # ------------------------------------------------------------------ the rest
    def spla(case):
        rng = case.rng
        A = cyl_args(rng, False)
        A.update(npanels=2 + case.idx % 2, m=4, n=4, stack=[0., 90., 0.])
        A['plyt'] = float(A['r']*10**rng.uniform(-2.6, -2.2))
        h = 3*A['plyt']
        E = A['laminaprop'][0]
        Nx = -0.05*E*h*h/A['r']*float(rng.uniform(0.3, 1))
        # deflections of a good part of the thickness: the equations of the
        # linear analysis are far from satisfied
        F = E*h**3/A['r']*float(rng.uniform(0.5, 3))
        if case.idx % 2:
            # the perturbation dominates
            Nx *= 1e-4
        case.note(Nxx=Nx, SPLA=F, **A)
        (assy, incs, cs), same = call(pm.cylinder_spla, Nxx=Nx, SPLA=F, **A)
        case.ok(same, 'the arguments of the analysis were changed')
        M = cylinder_model(A)
        panels_ok(case, assy, M)
        case.ok(len(incs) == len(cs) >= 1, 'increments and states')
        case.near(abs(incs[-1] - 1.), 1e-9, 'the last increment is not the full load')
        K = M.kC()
        links = K - M.blocks(lambda i, p: p.P.kC())
        P = M.parts[0].P
        point = np.zeros(M.size)
        point[:P.size] = -F*P.N('w', P.a/2, P.b/2)[0]
        axial = M.line({i: (A['height'], Nx) for i in range(A['npanels'])})
        keep = np.flatnonzero(np.diag(K) > 0)
        wt = 1/np.sqrt(np.diag(K)[keep])
        for inc, c in zip(incs, cs):
            c = np.asarray(c, float)
            res = {}
            for shear in (1., 2.):
                f = links.dot(c)
                for i, (p, q) in enumerate(zip(M.parts, assy.panels)):
                    sl = slice(M.o[i], M.o[i + 1])
                    f[sl] += p.P.fint(c[sl], nx=q.nx, ny=q.ny, shear=shear)
                # the perturbation is applied with the load or before it
                for how, g in (('together', inc*(point + axial)), ('before', point + inc*axial)):
                    # forces weighted as in the convergence criterion of the solver
                    res[shear, how] = np.linalg.norm((f - g)[keep]*wt)/max(np.linalg.norm(g[keep]*wt), np.linalg.norm(f[keep]*wt))
            case.near(min(res.values()), 1e-5, 'state of the non-linear analysis is not in equilibrium', inc=inc, res=res)
            ctx.count('spla state')
        ctx.count('spla')
        case.seen('spla', case.idx)

    def scaled(case):
        """loads, stiffness, density and lengths by factors"""
        rng = case.rng
        what = case.idx % 4
        s, e, d, q = (float(10**rng.uniform(-0.5, 0.5)) for _ in range(4))
        up = lambda t: tuple(v*e if i != 2 else v for i, v in enumerate(t))
        if what < 2:
            A = cyl_args(rng, False)
            f = (cy.cylinder_compression_lb_Nxx_cte, cy.cylinder_compression_lb_Nxx_from_static)[what]
            A['Nxxs'] = [float(-v) for v in rng.uniform(1, 3, A['npanels'])]
            B = dict(A, height=A['height']*s, r=A['r']*s, plyt=A['plyt']*s, laminaprop=up(A['laminaprop']),
                     Nxxs=[v*q for v in A['Nxxs']])
            factor = e*s/q
        else:
            A = t_args(rng, 'x')
            B = dict(A, laminaprop=up(A['laminaprop']), **{k: A[k]*s for k in ('a', 'b', 'bb', 'bf', 'ys', 'plyt', 'r') if k in A})
            if what == 2:
                f = pm.tstiff2d_1stiff_freq
                B['rho'] = A['rho']*d
                factor = e/d/s**2
            else:
                f = pm.tstiff2d_1stiff_compression
                for k in ('Nxx_skin', 'Nxx_base', 'Nxx_flange'):
                    A[k] = float(-rng.uniform(1, 3))
                    B[k] = A[k]*q
                A['run_static_case'] = B['run_static_case'] = bool(rng.random() < 0.5)
                factor = e*s/q
        case.note(what=f.__name__, s=s, e=e, d=d, q=q, **A)
        la, lb_ = call(f, **A)[0][-2], call(f, **B)[0][-2]
        la, lb_ = (np.sort(np.abs(np.asarray(v).real)) for v in (la, lb_))
        k = min(len(la), len(lb_), 3)
        # bot-top penalty is divided by a length only once
        tol = 1e-5
        case.near(np.abs(lb_[:k]/la[:k]/factor - 1).max(), tol, 'eigenvalues do not scale as the theory demands (%s)' % f.__name__)
        ctx.count('scaled')
        case.seen('scaled', what)

    def refuse(case):
        rng = case.rng
        A = cyl_args(rng, False)
        B = cyl_args(rng, True)
        k, kb = A['npanels'], B['npanels']
        bad = [lambda: cy.create_cylinder_assy(**dict(A, npanels=1)),
               lambda: cb.create_cylinder_blade_stiffened(**dict(B, npanels=1)),
               lambda: cb.create_cylinder_blade_stiffened(**dict(B, stack_blades=B['stack_blades'][1:])),
               lambda: cb.create_cylinder_blade_stiffened(**dict(B, width_blades=B['width_blades']*2))]
        for d in (-1, 1):
            N = [-1.]*(k + d)
            bad += [lambda N=N: cy.cylinder_compression_lb_Nxx_cte(Nxxs=N, **A),
                    lambda N=N: cy.cylinder_compression_lb_Nxx_from_static(Nxxs=N, **A)]
            for u, v in ((kb + d, kb), (kb, kb + d)):
                for f in (cb.cylinder_blade_stiffened_compression_lb_Nxx_cte,
                          cb.cylinder_blade_stiffened_compression_lb_Nxx_from_static):
                    bad.append(lambda f=f, u=u, v=v: f(Nxxs_skin=[-1.]*u, Nxxs_blade=[-1.]*v, **B))
        for i, f in enumerate(bad):
            try:
                quiet(f)
            except ValueError:
                ctx.count('refused')
            else:
                case.ok(False, 'arguments that do not fit the number of panels were accepted', which=i)
        # the bare models
        M = cylinder_model(A, analysis=False)
        assy, conns = quiet(cy.create_cylinder_assy, **A)
        quiet(assy.calc_kC, conns, silent=True)
        panels_ok(case, assy, M)
        K, R = dense(quiet(assy.calc_kC, conns, silent=True)), M.kC()
        case.near(ref.scaled_err(K, R), 1e-8, 'stiffness of the cylinder')
        M = cylinder_model(B, blades=True, analysis=False)
        assy, conns = quiet(cb.create_cylinder_blade_stiffened, **B)
        K, R = dense(quiet(assy.calc_kC, conns, silent=True)), M.kC()
        panels_ok(case, assy, M)
        case.near(ref.scaled_err(K, R), 1e-8, 'stiffness of the stiffened cylinder')
        case.seen('refuse', case.idx)

    ctx.run('cylinder', 40, 600, cylinder)
    ctx.run('compression', 28, 300, compression)
    ctx.run('freq', 14, 150, freq)
    ctx.run('flutter', 21, 300, flutter)
    ctx.run('spla', 4, 24, spla)
    ctx.run('scaled', 12, 160, scaled)
    ctx.run('refuse', 4, 40, refuse)
