"""Online monitors: the public methods of the code under test are wrapped so
that every call (made by a workload or by the library itself) is judged by the
reference model against the attributes the object had when it was called."""
import numpy as np

from . import ref
from .ref import Panel, dense, scaled_err, blockerr, relerr, full_from_upper


def num_tol(*degs):
    """Monomial evaluation with 15-digit coefficients loses digits with the
    degree: measured 2e-13 (15 terms), 2.5e-10 (20), 9e-9 (25), 1.5e-6 (30)."""
    d = max(degs)
    return 1e-9 if d <= 14 else 1e-9*10**(0.45*(d - 14))


AN_TOL = 1e-10


def subdomain(s):
    """Integration limits, None when the whole domain is integrated."""
    px = s.x1 != -1 and s.x2 != -1
    py = s.y1 != -1 and s.y2 != -1
    if not (px or py):
        return None
    return (s.x1 if px else 0., s.x2 if px else s.a, s.y1 if py else 0., s.y2 if py else s.b)


def bound(orig, args, kw):
    import inspect
    ba = inspect.signature(orig).bind(*args, **kw)
    ba.apply_defaults()
    return ba.arguments


class Monitors(object):
    def __init__(self, ctx, *which):
        import panels
        from panels import Shell
        from panels.multidomain import MultiDomain
        self.ctx = ctx
        self.Shell, self.MultiDomain = Shell, MultiDomain
        self.on = True
        self.saved = []
        for name in which:
            getattr(self, 'install_' + name)()

    def remove(self):
        for cls, name, orig in reversed(self.saved):
            setattr(cls, name, orig)
        self.saved = []

    def wrap(self, cls, name, pre, post):
        orig = getattr(cls, name)
        self.saved.append((cls, name, orig))
        mon = self

        def wrapper(obj, *args, **kw):
            if not mon.on:
                return orig(obj, *args, **kw)
            st = pre(obj, bound(orig, (obj,) + args, kw))
            mon.on = name in ('calc_kT', 'solve') or cls is not mon.Shell
            try:
                res = orig(obj, *args, **kw)
            finally:
                mon.on = True
            mon.ctx.count('%s.%s' % (cls.__name__, name))
            post(obj, st, res)
            return res
        wrapper.__name__ = name
        wrapper.__wrapped__ = orig
        setattr(cls, name, wrapper)

    # ------------------------------------------------------------ snapshots
    def snap(self, s, k):
        k = dict(k)
        k['P'] = Panel.of(s)
        k['sub'] = subdomain(s)
        P = k['P']
        size = k.get('size')
        if size is None:
            size = P.size
        elif isinstance(size, str):
            size = int(size) + P.size
        k['size'] = size
        nx = k.get('nx'); ny = k.get('ny')
        if s.stack is not None and k.get('self') is not None:
            k['nx_'] = max(s.nx, s.m) if nx is None else nx
            k['ny_'] = max(s.ny, s.n) if ny is None else ny
        k['N0'] = (s.Nxx_cte, s.Nyy_cte, s.Nxy_cte)
        k['Nst'] = (s.Nxx, s.Nyy, s.Nxy)
        for name in ('c', 'c_cte', 'ABDnxny', 'h_nxny', 'rho_nxny'):
            if k.get(name) is not None:
                k[name] = np.array(k[name], float)
        k['flow'] = (s.flow, s.beta, s.gamma, s.Mach, s.V, s.rho_air)
        return k

    @staticmethod
    def local(P, v, col0):
        return None if v is None else v[col0:col0 + P.size]

    @staticmethod
    def F(P, k):
        A = k.get('ABDnxny')
        if A is None or A.ndim == 2:
            return P.ABD if A is None else A
        return A.reshape(-1, 6, 6)

    def place(self, k, K, local, what, sym=True, tol=1e-10, err=None):
        """K must be `local` at (row0, col0) of a (size, size) zero matrix."""
        case = self.ctx.case
        P = k['P']
        case.ok(K.shape == (k['size'],)*2, '%s: shape %s, expected %s' % (what, K.shape, (k['size'],)*2))
        K = dense(K)
        case.ok(np.all(np.isfinite(K)), '%s: not finite' % what)
        if sym:
            if k['finalize']:
                case.ok(np.array_equal(K, K.T) or np.abs(K - K.T).max() <= 1e-13*np.abs(K).max(),
                        '%s: not symmetric' % what)
            else:
                K = full_from_upper(K)
        r, c = k['row0'], k['col0']
        blk = K[r:r + P.size, c:c + P.size].copy()
        rest = K.copy(); rest[r:r + P.size, c:c + P.size] = 0.
        case.ok(not rest.any(), '%s: non-zero terms outside of its block' % what)
        return blk

    # ------------------------------------------------------------------- kC
    def expected_kC(self, k, shear=1.):
        P, sub = k['P'], k['sub']
        nx, ny = k['nx_'], k['ny_']
        c = self.local(P, k['c'], k['col0'])
        A = k['ABDnxny']
        NL = bool(k['NLgeom'])
        analytic = c is None and A is None and not NL and sub is None
        F = self.F(P, k)
        if analytic:
            K = P.kC()
        else:
            K = P.kC(c=c if NL else None, NL=NL, F=F, nx=nx, ny=ny, sub=sub)
        base = K.copy()
        N0 = k['N0']
        if k['c_cte'] is not None:
            K = K + P.kG(self.local(P, k['c_cte'], k['col0']), NL=NL, N0=N0, F=F, nx=nx, ny=ny, sub=sub, shear=shear)
        elif any(N0):
            if sub is None and not NL:
                K = K + P.kG_state(*N0)
            else:
                K = K + P.kG_state(*N0, nx=nx, ny=ny, sub=sub)
        return K, base, analytic

    def install_kC(self):
        self.wrap(self.Shell, 'calc_kC', self.snap, self.judge_kC)

    def judge_kC(self, s, k, K):
        case, P = self.ctx.case, k['P']
        blk = self.place(k, K, None, 'kC')
        R, base, analytic = self.expected_kC(k)
        tol = AN_TOL if analytic and k['c_cte'] is None else num_tol(P.m, P.n)
        self.ctx.count('kC analytic' if analytic else 'kC numeric')
        c = self.local(P, k['c'], k['col0'])
        D = P.kC_absdiag(c, bool(k['NLgeom']), self.F(P, k), k['nx_'] if not analytic else None,
                         k['ny_'] if not analytic else None, k['sub']) + np.abs(np.diag(R - base))

        if k['c_cte'] is not None:
            D = D + np.diag(P.kG_abs(self.local(P, k['c_cte'], k['col0']), bool(k['NLgeom']), k['N0'],
                                     self.F(P, k), k['nx_'], k['ny_'], k['sub']))

        def dev(X):
            return max(scaled_err(blk, X, np.diag(D)), blockerr(blk, X, 1e-4 if analytic else 1e-3, D))
        err = dev(R)
        if not err <= tol and k['c_cte'] is not None and k['NLgeom']:
            if dev(self.expected_kC(k, shear=2.)[0]) <= tol:
                case.known('nl-shear-doubled', 'initial stress from c_cte')
                return
        case.near(err, tol, 'kC is not the second derivative of the strain energy [%s]' % (
            'closed form' if analytic else 'quadrature'), m=P.m, n=P.n, r=P.r)
        if k['c_cte'] is None and not any(k['N0']) and k['ABDnxny'] is None and P.size <= 400:
            d = np.sqrt(np.maximum(np.diag(blk), 0.))
            d[d == 0] = 1.
            w = np.linalg.eigvalsh(blk/np.outer(d, d))
            case.ok(w.min() >= -1e-8*max(1., tol/1e-9), 'kC is not positive semi-definite', wmin=w.min())

    # ------------------------------------------------------------------- kG
    def expected_kG(self, k, shear=1.):
        P, sub = k['P'], k['sub']
        NL = bool(k['NLgeom'])
        if k['c'] is None and not NL and sub is None:
            return P.kG_state(*k['Nst']), True
        c = np.zeros(P.size) if k['c'] is None else self.local(P, k['c'], k['col0'])
        return P.kG(c, NL=NL, N0=k['Nst'], F=self.F(P, k), nx=k['nx_'], ny=k['ny_'], sub=sub, shear=shear), False

    def kG_scale(self, k):
        """PSD size of the geometric stiffness: same stresses in absolute value."""
        P, sub = k['P'], k['sub']
        c = np.zeros(P.size) if k['c'] is None else self.local(P, k['c'], k['col0'])
        return P.kG_abs(c, bool(k['NLgeom']), k['Nst'], self.F(P, k), k['nx_'], k['ny_'], sub)

    def install_kG(self):
        self.wrap(self.Shell, 'calc_kG', self.snap, self.judge_kG)

    def judge_kG(self, s, k, K):
        case, P = self.ctx.case, k['P']
        blk = self.place(k, K, None, 'kG')
        R, analytic = self.expected_kG(k)
        S = self.kG_scale(k)
        tol = AN_TOL if analytic else num_tol(P.m, P.n)
        self.ctx.count('kG analytic' if analytic else 'kG numeric')
        nw = np.ones(P.size, bool); nw[2::3] = False
        case.ok(not blk[nw].any(), 'kG acts on in-plane displacements')
        err = scaled_err(blk, R, S)
        if not err <= tol and k['NLgeom'] and k['c'] is not None:
            R2 = self.expected_kG(k, shear=2.)[0]
            if scaled_err(blk, R2, S) <= tol:
                case.known('nl-shear-doubled', 'kG with geometric non-linearity')
                return
        case.near(err, tol, 'kG is not the work of the membrane stress on w,x w,y [%s]' % (
            'closed form' if analytic else 'quadrature'), m=P.m, n=P.n, r=P.r)

    # ------------------------------------------------------------------- kM
    def install_kM(self):
        self.wrap(self.Shell, 'calc_kM', self.snap_kM, self.judge_kM)

    def snap_kM(self, s, k):
        k = self.snap(s, k)
        k['offset'] = s.offset
        return k

    def judge_kM(self, s, k, K):
        case, P, sub = self.ctx.case, k['P'], k['sub']
        blk = self.place(k, K, None, 'kM')
        nx, ny = k['nx_'], k['ny_']
        h, rho = k['h_nxny'], k['rho_nxny']
        analytic = h is None and rho is None and sub is None
        if h is None and rho is None:
            # documented: plies of several densities enter through the
            # thickness-weighted average, the laminate shifted by the offset
            H = P.lam.h; R0 = P.lam.I[0]/H
            I = (R0*H, R0*H*k['offset'], R0*(H**3/12 + H*k['offset']**2))
        else:
            H = np.full((nx, ny), P.lam.h) if h is None else h
            R0 = np.full((nx, ny), P.lam.I[0]/P.lam.h) if rho is None else rho
            H = H.ravel(); R0 = R0.ravel()
            I = (R0*H, R0*H*k['offset'], R0*(H**3/12 + H*k['offset']**2))
        if analytic:
            R = P.kM(I)
        else:
            R = P.kM(I, nx=nx, ny=ny, sub=sub)
        tol = AN_TOL if analytic else num_tol(P.m, P.n)
        self.ctx.count('kM analytic' if analytic else 'kM numeric')
        case.near(max(scaled_err(blk, R), blockerr(blk, R, 1e-3)), tol,
                  'kM is not the kinetic energy of the laminate [%s]' % ('closed form' if analytic else 'quadrature'),
                  m=P.m, n=P.n, r=P.r)
        if P.size <= 400:
            d = np.sqrt(np.maximum(np.diag(blk), 0.)); d[d == 0] = 1.
            w = np.linalg.eigvalsh(blk/np.outer(d, d))
            case.ok(w.min() >= -1e-8*max(1., tol/1e-9), 'kM is not positive semi-definite', wmin=w.min())

    # ----------------------------------------------------------------- fint
    def install_fint(self):
        self.wrap(self.Shell, 'calc_fint', self.snap, self.judge_fint)

    def judge_fint(self, s, k, f):
        case, P = self.ctx.case, k['P']
        f = np.asarray(f)
        case.ok(f.shape == (k['size'],), 'fint: shape %s' % (f.shape,))
        c0 = k['col0']
        loc = f[c0:c0 + P.size].copy()
        rest = f.copy(); rest[c0:c0 + P.size] = 0.
        case.ok(not rest.any(), 'fint: non-zero terms outside of its block')
        c = self.local(P, k['c'], c0)
        a = dict(F=self.F(P, k), nx=k['nx_'], ny=k['ny_'], sub=k['sub'])
        R = P.fint(c, **a)
        x, y, w = P.gauss(k['nx_'], k['ny_'], k['sub'])
        # size of each term before cancellation
        e = P.strains_abs(c, x, y, True); Fa = np.abs(a['F'])
        S = (Fa.dot(e) if Fa.ndim == 2 else np.einsum('pkl,lp->kp', Fa, e))*np.abs(w)
        B = np.abs(P.Blin(x, y))
        Nx = np.abs(P.N('w', x, y, 1, 0)); Ny = np.abs(P.N('w', x, y, 0, 1))
        wx = Nx.dot(np.abs(c))[:, None]; wy = Ny.dot(np.abs(c))[:, None]
        B[0] += wx*Nx; B[1] += wy*Ny; B[2] += wx*Ny + wy*Nx
        scale = np.einsum('kps,kp->s', B, S)
        tol = num_tol(P.m, P.n)
        floor = 1e-12*scale.max() if scale.size else 0.
        scale = np.maximum(scale, floor + 1e-300)
        err = float((np.abs(loc - R)/scale).max())
        if not err <= tol:
            R2 = P.fint(c, shear=2., **a)
            if float((np.abs(loc - R2)/scale).max()) <= tol:
                case.known('nl-shear-doubled', 'fint')
                return
        case.near(err, tol, 'fint is not the gradient of the strain energy', m=P.m, n=P.n, r=P.r)

    # ----------------------------------------------------------------- fext
    def install_fext(self):
        self.wrap(self.Shell, 'calc_fext', self.snap_fext, self.judge_fext)

    def snap_fext(self, s, k):
        k = self.snap(s, k)
        k['loads'] = {n: [list(x) for x in getattr(s, n)] for n in (
            'point_loads', 'point_loads_inc', 'distr_loads', 'distr_loads_inc',
            'point_pds', 'point_pds_inc', 'distr_pds', 'distr_pds_inc')}
        return k

    def judge_fext(self, s, k, f):
        case, P = self.ctx.case, k['P']
        f = np.asarray(f)
        case.ok(f.shape == (k['size'],), 'fext: shape %s' % (f.shape,))
        c0 = k['col0']
        loc = f[c0:c0 + P.size].copy()
        rest = f.copy(); rest[c0:c0 + P.size] = 0.
        case.ok(not rest.any(), 'fext: non-zero terms outside of its block')
        R, S = fext_ref(P, k['loads'], k['inc'])
        err = float((np.abs(loc - R)/S).max()) if S.size else 0.
        case.near(err, num_tol(P.m, P.n)*10, 'fext is not the virtual work of the loads', m=P.m, n=P.n)


    # ------------------------------------------------------------------- kA
    def install_kA(self):
        self.wrap(self.Shell, 'calc_kA', self.snap, self.judge_kA)

    def judge_kA(self, s, k, K):
        case, P, sub = self.ctx.case, k['P'], k['sub']
        blk = self.place(k, K, None, 'kA', sym=False) if k['finalize'] else self.place(
            k, K, None, 'kA', sym=False)
        flow, beta, gamma = k['flow'][0].lower(), k['flow'][1], k['flow'][2]
        if beta is None:
            Mach, V, rho = k['flow'][3:]
            beta, gamma = piston(Mach, V, rho, P.r)
        gamma = (gamma or 0.) if flow == 'x' else 0.  # curvature term: axial flow only
        a = dict(nx=k['nx_'], ny=k['ny_'], sub=sub)
        judge_aero(case, blk, P, beta, gamma, flow, k['finalize'], **a)


    # --------------------------------------------------------------- fields
    def install_fields(self):
        for name in ('uvw', 'strain', 'stress'):
            self.wrap(self.Shell, name, self.snap_field, self.judge_shell_field(name))
        for name in ('uvw', 'strain', 'stress'):
            self.wrap(self.MultiDomain, name, self.snap_group, self.judge_group(name))
            self.wrap(self.MultiDomain, name + '_gauss_points', self.snap_group, self.judge_group(name))

    def snap_field(self, s, k):
        k = dict(k)
        P = k['P'] = Panel.of(s)
        k['c'] = np.array(k['c'], float)
        if k['xs'] is None or k['ys'] is None:
            k['X'], k['Y'] = np.meshgrid(np.linspace(0, P.a, k['gridx']), np.linspace(0, P.b, k['gridy']))
        else:
            k['X'], k['Y'] = np.atleast_1d(np.array(k['xs'], float)), np.atleast_1d(np.array(k['ys'], float))
        if k.get('ABD') is not None:
            k['ABD'] = np.array(k['ABD'], float)
        k['in'] = [(k[n], np.array(k[n], copy=True)) for n in ('xs', 'ys') if isinstance(k[n], np.ndarray)]
        return k

    def judge_shell_field(self, name):
        def judge(s, k, res):
            case = self.ctx.case
            mesh, fields = res
            case.ok(mesh['Xs'].shape == k['X'].shape and mesh['Ys'].shape == k['X'].shape, '%s: mesh shape' % name)
            case.near(max(np.abs(mesh['Xs'] - k['X']).max()/k['P'].a, np.abs(mesh['Ys'] - k['Y']).max()/k['P'].b), 1e-14,
                      '%s: field evaluated at other positions' % name)
            for ob, cp in k['in']:
                case.ok(np.array_equal(ob, cp), '%s changed the positions it was given' % name)
            judge_fields(self.ctx, name, k['P'], k['c'], k['X'], k['Y'], fields, k.get('NLgeom', False), k.get('ABD'))
        return judge

    def snap_group(self, md, k):
        k = dict(k)
        k['c'] = np.array(k['c'], float)
        o, k['panels'] = 0, []
        for s in md.panels:
            P = Panel.of(s)
            if s.group == k['group']:
                if 'gridx' in k:
                    xs, ys = np.linspace(0, P.a, k['gridx']), np.linspace(0, P.b, k['gridy'])
                else:
                    xs = np.linspace(0, P.a, 50) if k['x_gauss'] is None else np.array(k['x_gauss'], float)
                    ys = np.linspace(0, P.b, 50) if k['y_gauss'] is None else np.array(k['y_gauss'], float)
                k['panels'].append((P, k['c'][o:o + P.size]) + tuple(np.meshgrid(xs, ys)))
            o += P.size
        return k

    def judge_group(self, name):
        def judge(md, k, res):
            case = self.ctx.case
            keys = ('x', 'y') + FIELDS[name]
            for key in keys:
                case.ok(len(res[key]) == len(k['panels']), '%s: one %s array per panel of the group' % (name, key))
            for i, (P, c, X, Y) in enumerate(k['panels']):
                f = {key: res[key][i] for key in keys}
                case.ok(f['x'].shape == X.shape and f['y'].shape == X.shape, '%s: mesh shape' % name)
                case.near(max(np.abs(f['x'] - X).max()/P.a, np.abs(f['y'] - Y).max()/P.b), 1e-14,
                          '%s: field evaluated at other positions' % name)
                judge_fields(self.ctx, name, P, c, X, Y, f, k.get('NLterms', False), None)
        return judge


FIELDS = {'uvw': ('u', 'v', 'w', 'phix', 'phiy'),
          'strain': ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy'),
          'stress': ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')}


def field_ref(P, what, c, X, Y, NL, ABD):
    """Values and their sizes (sum of the absolute terms), chunked."""
    X, Y = np.ravel(X), np.ravel(Y)
    out, size = [], []
    for i in range(0, max(X.size, 1), 4000):
        x, y = X[i:i + 4000], Y[i:i + 4000]
        if what == 'uvw':
            B = np.array([P.N('u', x, y), P.N('v', x, y), P.N('w', x, y), -P.N('w', x, y, 1, 0), -P.N('w', x, y, 0, 1)])
            e = np.einsum('kps,s->kp', B, c); S = np.einsum('kps,s->kp', np.abs(B), np.abs(c))
        else:
            e = P.strains(c, x, y, bool(NL)); S = P.strains_abs(c, x, y, bool(NL))
            if what == 'stress':
                F = P.ABD if ABD is None else ABD
                d = np.sqrt(np.abs(np.diag(F)))
                e = F.dot(e); S = np.maximum(np.abs(F), 1e-3*np.outer(d, d)).dot(S)
        out.append(e); size.append(S)
    return np.hstack(out), np.hstack(size)


def judge_fields(ctx, what, P, c, X, Y, fields, NL, ABD):
    case = ctx.case
    R, S = field_ref(P, what, c, X, Y, NL, ABD)
    # sizes of the terms away from their zeros
    t = np.linspace(0.07, 0.93, 4)
    GX, GY = np.meshgrid(t*P.a, t*P.b)
    S0 = field_ref(P, what, c, GX, GY, NL, ABD)[1].max(axis=1)
    tol = num_tol(P.m, P.n)
    for i, key in enumerate(FIELDS[what]):
        f = np.asarray(fields[key])
        case.ok(f.shape == np.shape(X), '%s: shape of %s' % (what, key))
        s = np.maximum(S[i], 1e-3*S0[i]) + 1e-290
        err = float((np.abs(f.ravel() - R[i])/s).max())
        case.near(err, tol, '%s is not the field of the Ritz constants' % what, field=key, m=P.m, n=P.n)
    ctx.count('field points', R.shape[1])


def piston(Mach, V, rho, r):
    """Linear piston theory."""
    Mach = 1.0001 if Mach == 1 else Mach
    q = (Mach**2 - 1)**0.5
    beta = rho*V**2/q
    return beta, (beta/(2*r*q) if r else 0.)


def judge_aero(case, blk, P, beta, gamma, flow, finalize=True, nx=None, ny=None, sub=None):
    x, y, w = P.gauss(nx or max(P.m, 4) + 2, ny or max(P.n, 4) + 2, sub)
    W = P.N('w', x, y)
    D = P.N('w', x, y, 1, 0) if flow == 'x' else P.N('w', x, y, 0, 1)
    WD = W.T.dot(w[:, None]*D); WW = W.T.dot(w[:, None]*W)
    R = beta*WD - gamma*WW
    aW, aD = np.abs(W), np.abs(D)
    S = abs(beta)*aW.T.dot(np.abs(w)[:, None]*aD) + abs(gamma)*aW.T.dot(np.abs(w)[:, None]*aW)
    S = S + S.T
    S = np.maximum(S, 1e-6*S.max(initial=0.)) + 1e-300
    # recorded finding: upper triangle -beta w_A,s w_B + gamma w_A w_B, mirrored skew
    T = -beta*WD.T + gamma*WW
    U = np.triu(T)
    M = U - np.triu(T, 1).T if finalize else U
    if not finalize:
        R = np.triu(R); blk = np.triu(blk)
    tol = num_tol(P.m, P.n)
    err = float((np.abs(blk - R)/S).max())
    if not err <= tol and float((np.abs(blk - M)/S).max()) <= tol:
        case.known('ka-skew', 'kA')
        return 'known'
    case.near(err, tol, 'kA is not the work of the piston pressure (flow %s)' % flow, m=P.m, n=P.n, beta=beta, gamma=gamma)
    return 'exact'


def fext_ref(P, loads, inc):
    """Virtual work of point loads and of line loads; line loads by the
    m (or n) point Gauss rule the library documents."""
    from numpy.polynomial.legendre import leggauss
    R = np.zeros(P.size); S = np.zeros(P.size)
    T = 0.  # size of the loads: a basis function that vanishes at the load is rounding
    for grp in ('point_loads', 'point_pds'):
        for suffix, fac in (('', 1.), ('_inc', inc)):
            for x, y, fx, fy, fz in loads[grp + suffix]:
                N = [P.N(v, x, y)[0] for v in 'uvw']
                for q, row in zip((fx, fy, fz), N):
                    R += fac*q*row; S += np.abs(fac*q*row); T += abs(fac*q)
    for grp in ('distr_loads', 'distr_pds'):
        for suffix, fac in (('', 1.), ('_inc', inc)):
            for x, y, fu, fv, fw in loads[grp + suffix]:
                L, npts = (P.a, P.m) if x is None else (P.b, P.n)
                p, w = leggauss(npts)
                for t, wt in zip((p + 1)*L/2, w*L/2):
                    X, Y = (t, y) if x is None else (x, t)
                    for fun, v in ((fu, 'u'), (fv, 'v'), (fw, 'w')):
                        if fun is None:
                            continue
                        row = fac*wt*fun(t)*P.N(v, X, Y)[0]
                        R += row; S += np.abs(row); T += abs(fac*wt*fun(t))
    return R, np.maximum(S, 1e-3*T + 1e-300)
