"""Independent reference model (oracle side of every monitor).

Nothing here imports the code under test.  The Ritz basis is written from its
mathematical definition through Legendre polynomials, all integrals are done
by Gauss-Legendre rules from numpy that are exact for the polynomial degrees
involved, the laminate is integrated ply by ply from classical lamination
theory, and every energy is assembled from strains.
"""
import numpy as np
from numpy.polynomial.legendre import leggauss

EDGES_X = ('x1', 'x2')
EDGES_Y = ('y1', 'y2')


# --------------------------------------------------------------------- basis
def legendre_table(xi, nmax):
    xi = np.asarray(xi, float)
    P = np.zeros((nmax + 1,) + xi.shape)
    P[0] = 1.
    if nmax >= 1:
        P[1] = xi
    for k in range(2, nmax + 1):
        P[k] = ((2*k - 1)*xi*P[k-1] - (k - 1)*P[k-2])/k
    return P


def basis(xi, nterms, t1, r1, t2, r2, d=0):
    """(npts, nterms) values of the d-th xi-derivative (d = 0, 1, 2)."""
    xi = np.atleast_1d(np.asarray(xi, float))
    out = np.zeros(xi.shape + (nterms,))
    cub = [
        (np.poly1d([1/4., 0, -3/4., 1/2.]), t1),
        (np.poly1d([1/8., -1/8., -1/8., 1/8.]), r1),
        (np.poly1d([-1/4., 0, 3/4., 1/2.]), t2),
        (np.poly1d([1/8., 1/8., -1/8., -1/8.]), r2),
    ]
    for i in range(min(4, nterms)):
        p, flag = cub[i]
        q = p.deriv(d) if d else p
        out[..., i] = q(xi)*flag
    if nterms > 4:
        P = legendre_table(xi, nterms)
        for i in range(4, nterms):
            if d == 2:
                out[..., i] = P[i-2]
            elif d == 1:
                out[..., i] = (P[i-1] - P[i-3])/(2*i - 3)
            else:
                out[..., i] = ((P[i] - P[i-2])/(2*i - 1)
                               - (P[i-2] - P[i-4])/(2*i - 5))/(2*i - 3)
    return out


# ------------------------------------------------------------------ laminate
class Laminate(object):
    """CLT integrals; z runs from offset-h/2 to offset+h/2, ply 0 first."""

    def __init__(self, stack, plyts, laminaprops, rhos, offset=0., ortho=False):
        h = float(sum(plyts))
        z = offset - h/2.
        A = np.zeros((3, 3)); B = np.zeros((3, 3)); D = np.zeros((3, 3))
        I0 = I1 = I2 = 0.
        for th, t, lp, rho in zip(stack, plyts, laminaprops, rhos):
            if len(lp) >= 4:
                e1, e2, nu12, g12 = lp[:4]
            else:
                e1 = e2 = lp[0]
                nu12 = lp[2] if len(lp) == 3 else lp[1]
                if len(lp) == 3:
                    e2 = lp[1]
                g12 = e1/(2*(1 + nu12))
            nu21 = nu12*e2/e1
            den = 1 - nu12*nu21
            Q = np.array([[e1/den, nu12*e2/den, 0],
                          [nu12*e2/den, e2/den, 0],
                          [0, 0, g12]])
            c = np.cos(np.deg2rad(th)); s = np.sin(np.deg2rad(th))
            # strain transformation: eps_12 = R eps_xy (engineering shear)
            R = np.array([[c*c, s*s, c*s],
                          [s*s, c*c, -c*s],
                          [-2*c*s, 2*c*s, c*c - s*s]])
            Qb = R.T.dot(Q).dot(R)
            z1 = z + t
            A += Qb*(z1 - z)
            B += Qb*(z1**2 - z**2)/2.
            D += Qb*(z1**3 - z**3)/3.
            I0 += rho*(z1 - z)
            I1 += rho*(z1**2 - z**2)/2.
            I2 += rho*(z1**3 - z**3)/3.
            z = z1
        self.h = h
        self.A, self.B, self.D = A, B, D
        self.ABD = np.block([[A, B], [B, D]])
        self.I = (I0, I1, I2)
        if ortho:
            for (i, j) in ((0, 2), (1, 2), (0, 5), (1, 5), (3, 2), (4, 2),
                           (3, 5), (4, 5)):
                self.ABD[i, j] = self.ABD[j, i] = 0.


FLAGS = [e + f + s for e in ('x1', 'x2', 'y1', 'y2') for f in 'uvw'
         for s in ('', 'r')]


class Panel(object):
    """Snapshot of the defining parameters of one Ritz domain."""

    def __init__(self, a, b, r, m, n, flags, lam=None, ABD=None):
        self.a, self.b, self.m, self.n = float(a), float(b), int(m), int(n)
        self.r = 0. if r is None else float(r)
        self.flags = dict(flags)
        self.lam = lam
        self.ABD = ABD if ABD is not None else (lam.ABD if lam is not None else None)
        self.size = 3*self.m*self.n

    @classmethod
    def of(cls, s, **kw):
        """From the *defining* attributes of a library Shell (or a dict)."""
        get = (lambda k: s[k]) if isinstance(s, dict) else (lambda k: getattr(s, k))
        flags = {k: float(get(k)) for k in FLAGS}
        stack = get('stack')
        plyts = get('plyts') or [get('plyt')]*len(stack)
        lps = get('laminaprops') or [get('laminaprop')]*len(stack)
        rhos = get('rhos') or [get('rho')]*len(stack)
        lam = Laminate(stack, plyts, lps, rhos, get('offset'),
                       ortho=bool(get('force_orthotropic_laminate')))
        r = get('r')
        try:
            model = get('model')
        except (KeyError, AttributeError):
            model = None
        if model is not None and 'plate' in model:
            r = None
        return cls(get('a'), get('b'), r, get('m'), get('n'), flags, lam, **kw)

    def f(self, var, xi, d=0):
        F = self.flags
        return basis(xi, self.m, F['x1'+var], F['x1'+var+'r'], F['x2'+var], F['x2'+var+'r'], d)

    def g(self, var, eta, d=0):
        F = self.flags
        return basis(eta, self.n, F['y1'+var], F['y1'+var+'r'], F['y2'+var], F['y2'+var+'r'], d)

    def N(self, var, x, y, dx=0, dy=0):
        """(npts, size) row(s) giving d^{dx+dy} var / dx^dx dy^dy at points."""
        x = np.atleast_1d(np.asarray(x, float)); y = np.atleast_1d(np.asarray(y, float))
        f = self.f(var, 2*x/self.a - 1, dx)*(2/self.a)**dx
        g = self.g(var, 2*y/self.b - 1, dy)*(2/self.b)**dy
        out = np.zeros((x.size, self.n, self.m, 3))
        out[..., 'uvw'.index(var)] = g[:, :, None]*f[:, None, :]
        return out.reshape(x.size, self.size)

    # linear strain rows: six (npts, size) matrices
    def Blin(self, x, y):
        N = self.N
        b = [N('u', x, y, 1, 0), N('v', x, y, 0, 1),
             N('u', x, y, 0, 1) + N('v', x, y, 1, 0),
             -N('w', x, y, 2, 0), -N('w', x, y, 0, 2), -2*N('w', x, y, 1, 1)]
        if self.r != 0.:
            b[1] = b[1] + N('w', x, y)/self.r
        return np.array(b)

    def strains(self, c, x, y, NL=False, shear=1.):
        # shear = 2 models the recorded finding (w,x w,y counted twice)
        e = np.einsum('kps,s->kp', self.Blin(x, y), c)
        if NL:
            wx = self.N('w', x, y, 1, 0).dot(c); wy = self.N('w', x, y, 0, 1).dot(c)
            e[0] += 0.5*wx*wx; e[1] += 0.5*wy*wy; e[2] += shear*wx*wy
        return e

    def BNL(self, c, x, y):
        """d strain / d c at state c."""
        B = self.Blin(x, y)
        Nx = self.N('w', x, y, 1, 0); Ny = self.N('w', x, y, 0, 1)
        wx = Nx.dot(c)[:, None]; wy = Ny.dot(c)[:, None]
        B[0] += wx*Nx; B[1] += wy*Ny; B[2] += wx*Ny + wy*Nx
        return B

    def dom(self, sub=None):
        """x1, x2, y1, y2 integration limits in physical coordinates."""
        if sub is None:
            return 0., self.a, 0., self.b
        return sub

    def gauss(self, nx, ny, sub=None):
        x1, x2, y1, y2 = self.dom(sub)
        p, wp = leggauss(nx); q, wq = leggauss(ny)
        x = x1 + (p + 1)*(x2 - x1)/2; y = y1 + (q + 1)*(y2 - y1)/2
        W = np.outer(wp*(x2 - x1)/2, wq*(y2 - y1)/2)
        X, Y = np.meshgrid(x, y, indexing='ij')
        return X.ravel(), Y.ravel(), W.ravel()

    # ------------------------------------------------------------- matrices
    @staticmethod
    def quad(B, w, F):
        """sum_p w_p B_p^T F_p B_p, B (k,p,s); F (k,k) or (p,k,k)."""
        F = np.asarray(F, float)
        if F.ndim == 2:
            FB = np.einsum('kl,lps->kps', F, B)
        else:
            FB = np.einsum('pkl,lps->kps', F, B)
        k, p, s = B.shape
        return B.reshape(k*p, s).T.dot((FB*w[None, :, None]).reshape(k*p, s))

    def kC(self, c=None, NL=False, F=None, nx=None, ny=None, sub=None):
        k = 2 if (NL and c is not None) else 1
        nx = nx or k*(max(self.m, 4) + 2); ny = ny or k*(max(self.n, 4) + 2)
        x, y, w = self.gauss(nx, ny, sub)
        B = self.BNL(c, x, y) if (NL and c is not None) else self.Blin(x, y)
        return self.quad(B, w, self.ABD if F is None else F)

    def kC_absdiag(self, c=None, NL=False, F=None, nx=None, ny=None, sub=None):
        """Diagonal of kC with every term in absolute value: the size of what
        is added up, hence of the rounding of any order of summation."""
        nx = nx or max(self.m, 4) + 2; ny = ny or max(self.n, 4) + 2
        x, y, w = self.gauss(nx, ny, sub)
        B = np.abs(self.Blin(x, y))
        if NL and c is not None:
            Nx = np.abs(self.N('w', x, y, 1, 0)); Ny = np.abs(self.N('w', x, y, 0, 1))
            ca = np.abs(c)
            wx = Nx.dot(ca)[:, None]; wy = Ny.dot(ca)[:, None]
            B[0] += wx*Nx; B[1] += wy*Ny; B[2] += wx*Ny + wy*Nx
        F = np.abs(self.ABD if F is None else F)
        FB = np.einsum('kl,lps->kps', F, B) if F.ndim == 2 else np.einsum('pkl,lps->kps', F, B)
        return np.einsum('kps,kps,p->s', B, FB, w)

    def kG_state(self, Nxx, Nyy, Nxy, nx=None, ny=None, sub=None):
        nx = nx or max(self.m, 4) + 2; ny = ny or max(self.n, 4) + 2
        x, y, w = self.gauss(nx, ny, sub)
        B = np.array([self.N('w', x, y, 1, 0), self.N('w', x, y, 0, 1)])
        return self.quad(B, w, np.array([[Nxx, Nxy], [Nxy, Nyy]], float))

    def kG(self, c, NL=False, N0=(0., 0., 0.), F=None, nx=None, ny=None, sub=None, shear=1.):
        nx = nx or 2*max(self.m, 4); ny = ny or 2*max(self.n, 4)
        x, y, w = self.gauss(nx, ny, sub)
        F = self.ABD if F is None else np.asarray(F)
        e = self.strains(c, x, y, NL, shear)
        if F.ndim == 2:
            S = F.dot(e)
        else:
            S = np.einsum('pkl,lp->kp', F, e)
        S = S[:3] + np.array(N0, float)[:, None]
        B = np.array([self.N('w', x, y, 1, 0), self.N('w', x, y, 0, 1)])
        T = np.empty((x.size, 2, 2))
        T[:, 0, 0] = S[0]; T[:, 1, 1] = S[1]; T[:, 0, 1] = T[:, 1, 0] = S[2]
        return self.quad(B, w, T)

    def strains_abs(self, c, x, y, NL):
        ca = np.abs(c)
        e = np.einsum('kps,s->kp', np.abs(self.Blin(x, y)), ca)
        if NL:
            wx = np.abs(self.N('w', x, y, 1, 0)).dot(ca); wy = np.abs(self.N('w', x, y, 0, 1)).dot(ca)
            e[0] += 0.5*wx*wx; e[1] += 0.5*wy*wy; e[2] += wx*wy
        return e

    def kG_abs(self, c, NL=False, N0=(0., 0., 0.), F=None, nx=None, ny=None, sub=None):
        """PSD size of the geometric stiffness (all terms in absolute value)."""
        nx = nx or 2*max(self.m, 4); ny = ny or 2*max(self.n, 4)
        x, y, w = self.gauss(nx, ny, sub)
        F = np.abs(self.ABD if F is None else np.asarray(F))
        e = self.strains_abs(c, x, y, NL)
        S = F.dot(e) if F.ndim == 2 else np.einsum('pkl,lp->kp', F, e)
        S = S[:3].sum(axis=0) + np.abs(N0).sum()
        B = np.array([self.N('w', x, y, 1, 0), self.N('w', x, y, 0, 1)])
        return self.quad(B, w, S[:, None, None]*np.eye(2))

    def energy(self, c, F=None, NL=True, nx=None, ny=None, sub=None):
        x, y, w = self.gauss(nx or 2*max(self.m, 4), ny or 2*max(self.n, 4), sub)
        F = self.ABD if F is None else np.asarray(F)
        e = self.strains(c, x, y, NL)
        S = F.dot(e) if F.ndim == 2 else np.einsum('pkl,lp->kp', F, e)
        return 0.5*float(np.sum(w*np.sum(e*S, axis=0)))

    def fint(self, c, F=None, nx=None, ny=None, sub=None, NL=True, shear=1.):
        x, y, w = self.gauss(nx or 2*max(self.m, 4), ny or 2*max(self.n, 4), sub)
        F = self.ABD if F is None else np.asarray(F)
        e = self.strains(c, x, y, NL, shear)
        S = F.dot(e) if F.ndim == 2 else np.einsum('pkl,lp->kp', F, e)
        B = self.BNL(c, x, y) if NL else self.Blin(x, y)
        return np.einsum('kps,kp->s', B, S*w[None, :])

    def kM(self, I=None, nx=None, ny=None, sub=None):
        """I = (I0, I1, I2) or arrays (3, npts)."""
        nx = nx or max(self.m, 4) + 2; ny = ny or max(self.n, 4) + 2
        x, y, w = self.gauss(nx, ny, sub)
        I = np.array(self.lam.I if I is None else I, float)
        if I.ndim == 1:
            I = np.repeat(I[:, None], x.size, axis=1)
        N = self.N
        u = N('u', x, y); v = N('v', x, y); W = N('w', x, y)
        wx = N('w', x, y, 1, 0); wy = N('w', x, y, 0, 1)
        i0 = (I[0]*w)[:, None]; i1 = (I[1]*w)[:, None]; i2 = (I[2]*w)[:, None]
        K = u.T.dot(i0*u) + v.T.dot(i0*v) + W.T.dot(i0*W)
        C = u.T.dot(i1*wx) + v.T.dot(i1*wy)
        K -= C + C.T
        K += wx.T.dot(i2*wx) + wy.T.dot(i2*wy)
        return K

    def kA(self, beta, gamma=0., flow='x', nx=None, ny=None, sub=None):
        """beta*int w_A w_B,s  - gamma*int w_A w_B  (piston pressure as load
        p = -beta w,s + gamma w, moved to the stiffness side)."""
        nx = nx or max(self.m, 4) + 2; ny = ny or max(self.n, 4) + 2
        x, y, w = self.gauss(nx, ny, sub)
        W = self.N('w', x, y)
        D = self.N('w', x, y, 1, 0) if flow == 'x' else self.N('w', x, y, 0, 1)
        return beta*W.T.dot(w[:, None]*D) - gamma*W.T.dot(w[:, None]*W)

    def wmass(self, nx=None, ny=None, sub=None):
        x, y, w = self.gauss(nx or max(self.m, 4) + 2, ny or max(self.n, 4) + 2, sub)
        W = self.N('w', x, y)
        return W.T.dot(w[:, None]*W)

    def gvec(self, x, y):
        """(5, size) rows u, v, w, phix, phiy."""
        return np.array([self.N('u', x, y)[0], self.N('v', x, y)[0], self.N('w', x, y)[0],
                         -self.N('w', x, y, 1, 0)[0], -self.N('w', x, y, 0, 1)[0]])


def dense(K):
    return np.asarray(K.todense()) if hasattr(K, 'todense') else np.asarray(K)


def relerr(A, B, floor=0.):
    """max|A-B| relative to the larger matrix norm (max-abs)."""
    A = np.asarray(A, float); B = np.asarray(B, float)
    if A.shape != B.shape:
        return np.inf
    if not (np.all(np.isfinite(A)) and np.all(np.isfinite(B))):
        return np.inf
    s = max(np.abs(A).max(initial=0.), np.abs(B).max(initial=0.), floor)
    return 0. if s == 0. else float(np.abs(A - B).max(initial=0.)/s)


def scaled_err(A, B, scale=None):
    """max |A-B|_ij / s_ij, s_ij = sqrt(S_ii S_jj) with S the (PSD) reference
    `scale` (default B): the Cauchy-Schwarz size of the entry, so an entry
    coupling two weak terms is judged on its own magnitude.  A tiny absolute
    floor covers entries that must vanish."""
    A = np.asarray(A, float); B = np.asarray(B, float)
    if A.shape != B.shape or not (np.all(np.isfinite(A)) and np.all(np.isfinite(B))):
        return np.inf
    S = B if scale is None else np.asarray(scale, float)
    d = np.sqrt(np.abs(np.diag(S)))
    top = max(np.abs(A).max(initial=0.), np.abs(B).max(initial=0.))
    if top == 0.:
        return 0.
    s = np.maximum(np.maximum(np.outer(d, d), np.abs(B)), 1e-6*top)
    # 1e-6 floor: entries below 1e-15 of the matrix norm are rounding
    return float((np.abs(A - B)/s).max())


def blockerr(A, B, floor=1e-4, diag=None):
    """Worst relative error over the 9 (u,v,w)x(u,v,w) sub-blocks, each scaled
    by its own magnitude but not below `floor` times the geometric mean of
    the magnitudes of the two diagonal blocks it couples."""
    A = np.asarray(A, float); B = np.asarray(B, float)
    if A.shape != B.shape:
        return np.inf
    dg = [max(np.abs(A[i::3, i::3]).max(initial=0.), np.abs(B[i::3, i::3]).max(initial=0.)) for i in range(3)]
    if diag is not None:
        dg = [max(dg[i], np.abs(diag[i::3]).max(initial=0.)) for i in range(3)]
    top = max(dg)
    worst = 0.
    for i in range(3):
        for j in range(3):
            worst = max(worst, relerr(A[i::3, j::3], B[i::3, j::3],
                                      floor=max(floor*np.sqrt(dg[i]*dg[j]), 1e-12*top)))
    return worst


def full_from_upper(K):
    """The symmetric matrix whose upper triangle is that of K."""
    K = dense(K)
    U = np.triu(K)
    return U + np.triu(K, 1).T


# --------------------------------------------------------------- connections
def line_points(A, B, along, pos1, pos2, npts=None):
    """Gauss points of the common line/area: (xA, yA, xB, yB, w)."""
    if along == 'x':      # SSycte, BFycte
        n = npts or max(A.m, B.m, 4) + 2
        p, w = leggauss(n); t = (p + 1)/2
        return t*A.a, np.full(n, pos1), t*B.a, np.full(n, pos2), w*A.a/2
    if along == 'y':      # SSxcte, BFxcte
        n = npts or max(A.n, B.n, 4) + 2
        p, w = leggauss(n); t = (p + 1)/2
        return np.full(n, pos1), t*A.b, np.full(n, pos2), t*B.b, w*A.b/2
    nx, ny = max(A.m, B.m, 4) + 2, max(A.n, B.n, 4) + 2
    p, wp = leggauss(nx); q, wq = leggauss(ny)
    X, Y = np.meshgrid((p + 1)/2, (q + 1)/2, indexing='ij')
    W = np.outer(wp*A.a/2, wq*A.b/2).ravel()
    X, Y = X.ravel(), Y.ravel()
    return X*A.a, Y*A.b, X*B.a, Y*B.b, W


def connection(kind, A, B, kt, kr, pos1=None, pos2=None, dsb=0.):
    """(3*mA*nA + 3*mB*nB) square matrix of the penalty energy of the gap:
    U = kt/2 int |translation gap|^2 + kr/2 int (rotation gap)^2, and the size
    of its terms, not below the size away from the zeros of the basis."""
    K, S = _connection(kind, A, B, kt, kr, pos1, pos2, dsb)
    L = {'x': ('b', 'b'), 'y': ('a', 'a')}.get('x' if kind.endswith('ycte') else 'y')
    S2 = _connection(kind, A, B, kt, kr, 0.37*getattr(A, L[0]), 0.61*getattr(B, L[1]), dsb)[1]
    return K, np.maximum(S, 1e-3*S2)


def _connection(kind, A, B, kt, kr, pos1=None, pos2=None, dsb=0.):
    along = {'SSycte': 'x', 'BFycte': 'x', 'SSxcte': 'y', 'BFxcte': 'y', 'SB': 'xy'}[kind]
    xa, ya, xb, yb, w = line_points(A, B, along, pos1, pos2)
    NA = {v: A.N(v, xa, ya) for v in 'uvw'}
    NB = {v: B.N(v, xb, yb) for v in 'uvw'}
    rot = None
    if kind in ('SSycte', 'BFycte'):
        rot = (A.N('w', xa, ya, 0, 1), B.N('w', xb, yb, 0, 1))
    elif kind in ('SSxcte', 'BFxcte'):
        rot = (A.N('w', xa, ya, 1, 0), B.N('w', xb, yb, 1, 0))
    if kind in ('SSycte', 'SSxcte'):
        gaps = [(NA[v], NB[v]) for v in 'uvw']
    elif kind == 'BFycte':
        gaps = [(NA['u'], NB['u']), (NA['v'], NB['w']), (NA['w'], -NB['v'])]
    elif kind == 'BFxcte':
        gaps = [(NA['u'], NB['w']), (NA['v'], NB['v']), (NA['w'], -NB['u'])]
    else:
        gaps = [(NA['u'] + dsb*A.N('w', xa, ya, 1, 0), NB['u']),
                (NA['v'] + dsb*A.N('w', xa, ya, 0, 1), NB['v']),
                (NA['w'], NB['w'])]
    K = np.zeros((A.size + B.size,)*2)
    S = np.zeros_like(K)
    for k, ga, gb in [(kt,) + g for g in gaps] + ([(kr,) + rot] if rot is not None else []):
        G = np.hstack((ga, -gb))
        K += k*G.T.dot(w[:, None]*G)
        Z = np.abs(G)
        S += abs(k)*Z.T.dot(np.abs(w)[:, None]*Z)
    return K, S


def kt_kr(kind, l1, l2, ab=None):
    """Penalty constants from the laminates being connected."""
    i, j = {'xcte': (0, 0), 'ycte': (1, 1), 'bot-top': (0, 0), 'xcte-ycte': (0, 1), 'ycte-xcte': (1, 0)}[kind]
    H = l1.h + l2.h
    a1, a2, d1, d2 = l1.A[i, i], l2.A[j, j], l1.D[i, i], l2.D[j, j]
    kt = 4*a1*a2/((a1 + a2)*H)
    if kind == 'bot-top':
        return kt/ab, None
    return kt, 4*d1*d2/((d1 + d2)*H)


def line_penalty(P, ku, kv, kw, x=None, y=None):
    """int (ku u^2 + kv v^2 + kw w^2) along x = const or y = const, or at a point."""
    if x is not None and y is not None:
        xs, ys, w = np.array([x]), np.array([y]), np.array([1.])
    elif x is not None:
        p, w = leggauss(max(P.n, 4) + 2)
        xs, ys, w = np.full(p.size, x), (p + 1)*P.b/2, w*P.b/2
    else:
        p, w = leggauss(max(P.m, 4) + 2)
        xs, ys, w = (p + 1)*P.a/2, np.full(p.size, y), w*P.a/2
    K = np.zeros((P.size, P.size)); S = np.zeros(P.size)
    for k, v in ((ku, 'u'), (kv, 'v'), (kw, 'w')):
        N = P.N(v, xs, ys)
        K += k*N.T.dot(w[:, None]*N)
    # size of the terms: sup of the basis is of order one
    return K
