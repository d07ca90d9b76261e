META = dict(
    shards=(6, 8), budget=(140, 1800),
    rule='random stiffened bays (flat or curved, 1 to 4 skin panels, 0 to 4 blade stiffeners of both kinds with base, flange or both, at '
         'the joints or at the edges), laminates, offsets, loads and flow; every matrix, vector and field against the sum of the parts; '
         'non-trivial when the matrix is not zero',
    require=('bay kC', 'bay kG', 'bay kG from c', 'bay kM', 'bay kA', 'bay cA', 'bay fext', 'skin field', 'flange field',
             'no stiffener', '1d', '2d', 'base only', 'flange only', 'parts one by one', 'refused'),
    assumptions=['coefficients of the one-dimensional flange (E1, F1, S1, df, position of the plies) as in the code',
                 'the base of a stiffener takes no geometric stiffness (documented)',
                 'the bay is evaluated after every panel was added'],
)
# --- end of META
import numpy as np

from .. import gen, ref
from .. import monitors
from ..monitors import num_tol
from ..ref import dense, scaled_err
from .p12 import quiet

DEF2D = dict(x1u=0., x1ur=0., x2u=0., x2ur=0., x1v=0., x1vr=0., x2v=0., x2vr=0., x1w=0., x1wr=1., x2w=0., x2wr=1.,
             y1u=1., y1ur=0., y2u=1., y2ur=0., y1v=1., y1vr=0., y2v=1., y2vr=0., y1w=1., y1wr=1., y2w=1., y2wr=1.)


def lam(rng, offset):
    d = gen.laminate(rng, ortho=False, offset=offset)
    if 'rhos' in d:
        d['rho'] = d.pop('rhos')[0]
    return d


def full(d, **kw):
    out = dict(d)
    n = len(out['stack'])
    out.setdefault('plyts', [out.get('plyt')]*n)
    out.setdefault('laminaprops', [out.get('laminaprop')]*n)
    out.update(rhos=None, force_orthotropic_laminate=False, model=None, **kw)
    return out


def mixed(d):
    """Same units for all parts of one bay."""
    props = d.get('laminaprops') or [d['laminaprop']]
    return any(p[0] < 1e3 for p in props)


def draw_lam(rng, offset):
    while True:
        d = lam(rng, offset)
        if not mixed(d):
            return d


class Bay(object):
    """A random bay: the library object and the reference parts."""

    def __init__(self, rng, hi=6, one_d=True, two_d=True, few=False):
        from panels.stiffpanelbay import StiffPanelBay
        B = self.bay = StiffPanelBay()
        geo = self.geo = dict(a=float(10**rng.uniform(-0.5, 0.5)), b=float(10**rng.uniform(-0.5, 0.5)), r=None,
                              m=int(rng.integers(2, hi + 1)), n=int(rng.integers(2, hi + 1)))
        if rng.random() < 0.5:
            geo['r'] = float(geo['b']*10**rng.uniform(0, 1.3))
        self.flags = gen.flags(rng)
        for k, v in list(geo.items()) + list(self.flags.items()):
            setattr(B, k, v)
        if rng.random() < 0.5:
            B.model = 'cylshell_clpt_donnell_bardell' if geo['r'] else 'plate_clpt_donnell_bardell'
        common = draw_lam(rng, False)
        for k in ('stack', 'plyt', 'plyts', 'laminaprop', 'laminaprops', 'rho'):
            if k in common:
                setattr(B, k, common[k])
        nt = int(rng.integers(1, 4 if few else 5))
        cuts = np.sort(rng.uniform(0.15, 0.85, nt - 1))*geo['b']
        edges = [0.] + [float(v) for v in cuts] + [geo['b']]
        self.panels, self.desc = [], []
        loads = lambda: {k: float(rng.uniform(-1, 1)*10**rng.uniform(0, 5)) for k in ('Nxx', 'Nyy', 'Nxy') if rng.random() < 0.6}
        for y1, y2 in zip(edges[:-1], edges[1:]):
            if rng.random() < 0.4:
                d, kw = dict(common), {}
            else:
                d = draw_lam(rng, True)
                if 'plyts' in common and 'plyt' in d:
                    # values listed for the bay would take precedence
                    d['plyts'] = [d.pop('plyt')]*len(d['stack'])
                    d['laminaprops'] = [d.pop('laminaprop')]*len(d['stack'])
                kw = {k: d[k] for k in d}
            N = loads()
            p = B.add_panel(y1=y1, y2=y2, **kw, **N)
            d['offset'] = kw.get('offset', 0.)
            P = ref.Panel.of(full(d, **geo, **self.flags))
            self.panels.append((p, P, (0., geo['a'], y1, y2), N))
        self.flanges, self.bases, self.beams, self.links = [], [], [], []
        self.size0 = self.size = 3*geo['m']*geo['n']
        self.two, self.all = [], []
        ns = int(rng.integers(0, 3 if few else 5)) if (one_d or two_d) else 0
        for _ in range(ns):
            i = int(rng.integers(0, nt + 1))
            ys = edges[i]
            kind = '1d' if (one_d and (rng.random() < 0.5 or not two_d)) else '2d'
            left, right = self.panels[max(i - 1, 0)], self.panels[min(i, nt - 1)]
            inner = 0 < i < nt
            parts = str(rng.choice(['base', 'flange', 'both'])) if inner else 'flange'
            kw, hb, base, rho = {}, 0., None, common['rho']
            if rng.random() < 0.7:
                rho = kw['rho'] = float(rng.uniform(500, 8000))
            h = 0.5*(left[1].lam.h + right[1].lam.h)
            if parts != 'flange':
                d = draw_lam(rng, False)
                room = min(ys, geo['b'] - ys)
                kw['bb'] = float(rng.uniform(0.1, 1.9)*room)
                kw['bstack'] = d['stack']
                for k in ('plyt', 'plyts', 'laminaprop', 'laminaprops'):
                    if k in d:
                        kw['b' + k] = d[k]
                hb = sum(d.get('plyts') or [d['plyt']]*len(d['stack']))
                d = dict(d, offset=-h/2. - hb/2., rho=rho)
                base = ref.Panel.of(full(d, **geo, **self.flags))
                self.bases.append((base, (0., geo['a'], ys - kw['bb']/2, ys + kw['bb']/2)))
            if parts != 'base':
                f = draw_lam(rng, False)
                kw['bf'] = float(geo['b']*10**rng.uniform(-1.5, -0.3))
                kw['fstack'] = f['stack']
                for k in ('plyt', 'plyts', 'laminaprop', 'laminaprops'):
                    if k in f:
                        kw['f' + k] = f[k]
                f = dict(f, offset=0., rho=rho)
            self.desc.append((kind, parts, ys))
            if kind == '1d':
                Fx = float(rng.uniform(-1, 1)*1e4) if parts != 'base' and rng.random() < 0.6 else None
                if Fx is not None and rng.random() < 0.5:
                    kw['Fx'] = Fx
                s = B.add_bladestiff1d(ys=ys, **kw)
                if parts != 'base':
                    if Fx is not None:
                        s.Fx = Fx
                    self.beams.append((s, full(f), ys, kw['bf'], hb, h, rho))
            else:
                if parts != 'base':
                    kw['mf'], kw['nf'] = int(rng.integers(2, hi + 1)), int(rng.integers(2, hi + 1))
                s = B.add_bladestiff2d(ys=ys, **kw)
                if parts != 'base':
                    F = dict(full(f, a=geo['a'], b=kw['bf'], r=None, m=kw['mf'], n=kw['nf']))
                    F.update(DEF2D)
                    P = ref.Panel.of(F)
                    N = loads()
                    for k, v in N.items():
                        setattr(s.flange, k, v)
                    self.flanges.append((s, P, self.size, N))
                    self.links.append((ref.kt_kr('ycte', (base or left[1]).lam, P.lam), ys, P, self.size))
                    self.size += P.size
                self.two.append(s)
            self.all.append(s)
        self.skin = self.panels[0][1]

    # ---- sums over the parts: matrix and its size
    def zero(self):
        return np.zeros((self.size, self.size)), np.zeros(self.size)

    def parts(self, base=True):
        # (first row, reference, limits, loads and integration points)
        for p, P, sub, N in self.panels:
            yield 0, P, sub, dict(N, q=dict(nx=p.nx, ny=p.ny))
        if base:
            for P, sub in self.bases:
                yield 0, P, sub, {}
        for s, P, r0, N in self.flanges:
            yield r0, P, None, dict(N, q=dict(nx=s.flange.nx, ny=s.flange.ny))

    def line(self, ys):
        P = self.skin
        p, w = ref.leggauss(max(P.m, 4) + 3)
        return (p + 1)*P.a/2, np.full(p.size, ys), w*P.a/2

    def kC(self):
        K, S = self.zero()
        for r0, P, sub, N in self.parts():
            i = slice(r0, r0 + P.size)
            K[i, i] += P.kC(sub=sub)
            S[i] += P.kC_absdiag(sub=sub)
        for (kt, kr), ys, F, r0 in self.links:
            C, Z = ref.connection('BFycte', self.skin, F, kt, kr, ys, 0.)
            i = np.concatenate((np.arange(self.size0), np.arange(r0, r0 + F.size)))
            K[np.ix_(i, i)] += C
            S[i] += np.diag(Z)
        T = np.zeros_like(K)
        for s, f, ys, bf, hb, h, rho in self.beams:
            x, y, w = self.line(ys)
            N = self.skin.N
            ux, wxx, wxy = N('u', x, y, 1, 0), N('w', x, y, 2, 0), N('w', x, y, 1, 1)
            E1, S1 = beam_stiffness(f)
            df, F1 = bf/2 + hb + h/2, bf**2/12*E1
            e = ux + df*wxx
            i = slice(0, self.size0)
            q = w[:, None]*bf
            X = e.T.dot(q*wxy)
            K[i, i] += E1*e.T.dot(q*e) + F1*wxx.T.dot(q*wxx) - S1*(X + X.T)
            hf = sum(f['plyts'])
            J = hf*bf**3/12 + bf*hf**3/12
            T[i, i] += J*wxy.T.dot(q*wxy)
            a = np.abs(ux) + df*np.abs(wxx)
            t = np.abs(wxy)
            S[i] += np.diag(E1*a.T.dot(q*a) + F1*wxx.T.dot(q*wxx) + abs(S1)*2*a.T.dot(q*t) + J*t.T.dot(q*t))
        return K, S, T

    def kG(self, c=None):
        K, S = self.zero()
        for r0, P, sub, N in self.parts(base=False):
            i = slice(r0, r0 + P.size)
            n = [N.get(k, 0.) for k in ('Nxx', 'Nyy', 'Nxy')]
            if c is None:
                K[i, i] += P.kG_state(*n, sub=sub)
                S[i] += np.diag(P.kG_abs(np.zeros(P.size), N0=n, sub=sub))
            else:
                K[i, i] += P.kG(c[i], N0=n, sub=sub, **N['q'])
                S[i] += np.diag(P.kG_abs(c[i], N0=n, sub=sub, **N['q']))
        for s, f, ys, bf, hb, h, rho in self.beams:
            x, y, w = self.line(ys)
            wx = self.skin.N('w', x, y, 1, 0)
            G = wx.T.dot(w[:, None]*wx)
            K[:self.size0, :self.size0] += (s.Fx or 0.)*G
            S[:self.size0] += abs(s.Fx or 0.)*np.maximum(np.diag(G), 1e-3*np.diag(G).max())
        return K, S

    def kM(self):
        K, S = self.zero()
        for r0, P, sub, N in self.parts():
            i = slice(r0, r0 + P.size)
            M = P.kM(sub=sub)
            K[i, i] += M
            S[i] += np.diag(P.kM(I=(P.lam.I[0], 0., P.lam.I[2]), sub=sub))
        for s, f, ys, bf, hb, h, rho in self.beams:
            x, y, w = self.line(ys)
            N = self.skin.N
            u, v, W, wx, wy = N('u', x, y), N('v', x, y), N('w', x, y), N('w', x, y, 1, 0), N('w', x, y, 0, 1)
            q = rho*sum(f['plyts'])*bf*w[:, None]
            d1 = h/2 + hb
            df, z2 = d1 + bf/2, d1**2 + d1*bf + bf**2/3
            C = df*(u.T.dot(q*wx) + v.T.dot(q*wy))
            Z = u.T.dot(q*u) + v.T.dot(q*v) + W.T.dot(q*W) + z2*(wx.T.dot(q*wx) + wy.T.dot(q*wy))
            K[:self.size0, :self.size0] += Z + C + C.T
            S[:self.size0] += np.maximum(np.diag(Z), 1e-3*np.diag(Z).max())
        return K, S

    def tol(self):
        return max(num_tol(P.m, P.n) for r0, P, sub, N in self.parts())

    def judge(self, case, got, K, S, what, sym=True):
        got = dense(got)
        case.ok(got.shape == (self.size, self.size), 'size of %s' % what, shape=got.shape, expected=self.size)
        if sym:
            case.ok(not (got != got.T).any() or np.abs(got - got.T).max() <= 1e-12*np.abs(got).max(), '%s is not symmetric' % what)
        case.near(scaled_err(got, K, np.diag(S)), self.tol(), '%s is not the sum of the parts' % what)


def beam_stiffness(f):
    E1 = S1 = 0.
    z = 0.
    for th, t, lp in zip(f['stack'], f['plyts'], f['laminaprops']):
        L = ref.Laminate([th], [t], [lp], [0.])
        Q = L.A/t
        mid = z + t/2
        z += t
        E1 += t*(Q[0, 0] - Q[0, 1]**2/Q[1, 1])
        S1 -= mid*t*(Q[0, 2] - Q[0, 1]*Q[0, 2]/Q[1, 1])
    return E1, S1


def run(ctx):
    def draw(case, **kw):
        b = Bay(case.rng, **kw)
        case.note(geo=b.geo, stiffeners=b.desc, tiles=[p[2][2:] for p in b.panels], free=' '.join(k for k in ref.FLAGS if b.flags[k]))
        for kind, parts, ys in b.desc:
            ctx.count(kind)
            if parts != 'both':
                ctx.count(parts + ' only')
        if not b.desc:
            ctx.count('no stiffener')
        return b

    def seen(case, b, what):
        case.seen(what, bool(b.geo['r']), b.geo['m'], b.geo['n'], len(b.panels), [d[:2] for d in b.desc])

    def matrices(case):
        rng = case.rng
        b = draw(case)
        B = b.bay
        order = [str(v) for v in rng.permutation(['kC', 'kG', 'kM', 'size'])]
        case.note(order=order)
        for what in order:
            if what == 'size':
                quiet(B.calc_kC) if rng.random() < 0.3 else B._rebuild()
                case.ok(B.get_size() == b.size, 'size of the bay', got=B.get_size(), expected=b.size)
                continue
            got = quiet(getattr(B, 'calc_' + what), silent=True)
            case.ok(got is getattr(B, what), 'stored matrix is not the one returned')
            if what == 'kC':
                K, S, T = b.kC()
                if T.any():
                    # recorded finding: torsion of the flange without its shear modulus
                    b.judge(case, got, K + T, S, 'kC of the bay')
                    case.known('blade1d-torsion', 'torsional stiffness of the one-dimensional flange has no modulus')
                else:
                    b.judge(case, got, K, S, 'kC of the bay')
            else:
                K, S = getattr(b, what)()
                b.judge(case, got, K, S, '%s of the bay' % what)
            ctx.count('bay ' + what)
            if np.abs(K).max() > 0:
                seen(case, b, what)
        if rng.random() < 0.4:
            direct(case, b)

    def direct(case, b):
        """the bay against its parts asked one by one, each on its own"""
        B, rng = b.bay, case.rng
        what = str(rng.choice(['kC', 'kG', 'kM']))
        whole = dense(quiet(getattr(B, 'calc_' + what), silent=True))
        own = [(p, 0, False) for p, P, sub, N in b.panels]
        row = b.size0
        for s in b.all:
            two = s in b.two
            own.append((s, row if two else 0, True))
            if two and s.flange is not None:
                row += s.flange.get_size()
        K, S = np.zeros(whole.shape), np.zeros(len(whole))
        for i in rng.permutation(len(own)):
            s, r0, stiffener = own[i]
            kw = dict(finalize=True) if rng.random() < 0.5 else {}
            got = quiet(getattr(s, 'calc_' + what), size=b.size, row0=r0, col0=r0, silent=True, **kw)
            if stiffener:
                got = getattr(s, what)
            got = dense(got)
            case.ok(got.shape == whole.shape, 'size of a part of the bay', what=what, part=type(s).__name__)
            case.ok(not (got != got.T).any() or np.abs(got - got.T).max() <= 1e-12*np.abs(got).max(), 'a part of the bay is not symmetric', what=what)
            K += got
            S += np.abs(np.diag(got))
        case.near(scaled_err(whole, K, np.diag(S)), 1e-9, 'the bay is not the sum of its parts asked one by one', what=what)
        ctx.count('parts one by one')

    def kG_c(case):
        rng = case.rng
        b = draw(case, one_d=False, few=True)
        c = np.zeros(b.size)
        c[:b.size0] = gen.ritz(rng, b.skin)
        for s, P, r0, N in b.flanges:
            c[r0:r0 + P.size] = gen.ritz(rng, P)
        got = quiet(b.bay.calc_kG, silent=True, c=c)
        K, S = b.kG(c)
        b.judge(case, got, K, S, 'kG of the bay from Ritz constants')
        ctx.count('bay kG from c')
        seen(case, b, 'kGc')

    def aero(case):
        rng = case.rng
        b = draw(case, few=True)
        B = b.bay
        B.flow = str(rng.choice(['x', 'y']))
        if rng.random() < 0.6:
            for e in ('x1w', 'x2w') if B.flow == 'x' else ('y1w', 'y2w'):
                b.flags[e] = 0.
                setattr(B, e, 0.)
                for p, P, sub, N in b.panels:
                    setattr(p, e, 0.)
                    P.flags[e] = 0.
        r = b.geo['r']
        if rng.random() < 0.5:
            B.Mach = float(rng.choice([1., 1.2, 2., rng.uniform(1.01, 5)]))
            B.V, B.rho_air, B.speed_sound = float(rng.uniform(100, 1500)), float(rng.uniform(0.1, 1.3)), float(rng.uniform(250, 350))
            beta, gamma = monitors.piston(B.Mach, B.V, B.rho_air, r)
            M = 1.0001 if B.Mach == 1 else B.Mach
            mu = beta/(M*B.speed_sound)*(M**2 - 2)/(M**2 - 1)
        else:
            beta = B.beta = float(10**rng.uniform(0, 6)) if rng.random() < 0.85 else 0.
            if rng.random() < 0.3:
                # a given coefficient prevails over the flow conditions
                B.Mach, B.V, B.rho_air, B.speed_sound = float(rng.uniform(1.1, 5)), 500., 0.5, 300.
            B.gamma = None if rng.random() < 0.5 else float(10**rng.uniform(0, 6))
            B.aeromu = float(10**rng.uniform(0, 4)) if rng.random() < 0.8 else None
            gamma, mu = B.gamma or 0., B.aeromu or 0.
        case.note(flow=B.flow, beta=beta, gamma=gamma, mu=mu)
        for what in rng.permutation(['kA', 'cA']):
            if what == 'kA':
                K = dense(quiet(B.calc_kA, silent=True))
                case.ok(K.shape == (b.size,)*2, 'size of kA of the bay')
                blk = K[:b.size0, :b.size0].copy()
                K[:b.size0, :b.size0] = 0
                case.ok(not K.any(), 'kA outside of the skin')
                monitors.judge_aero(case, blk, b.skin, beta, gamma if B.flow == 'x' else 0., B.flow)
            else:
                C = dense(quiet(B.calc_cA, silent=True))
                case.ok(C.shape == (b.size,)*2, 'size of cA of the bay')
                R = np.zeros(C.shape, complex)
                W = b.skin.wmass()
                R[:b.size0, :b.size0] = -1j*mu*W
                S = np.zeros(C.shape)
                S[:b.size0, :b.size0] = abs(mu)*W
                case.ok(not C.real.any(), 'cA is not imaginary')
                case.near(scaled_err(C.imag, R.imag, S), 1e-9, 'cA of the bay is not the damping of the skin')
            ctx.count('bay ' + str(what))
        seen(case, b, 'aero')

    def fields(case):
        rng = case.rng
        b = draw(case, few=True)
        B = b.bay
        B.out_num_cores = int(rng.integers(1, 6))
        # forces
        L = dict(point_loads=[], point_loads_inc=[], point_pds=[], point_pds_inc=[], distr_loads=[], distr_loads_inc=[],
                 distr_pds=[], distr_pds_inc=[])
        pos = lambda l: float(rng.choice([0., l, rng.uniform(0, l)]))
        R, S = np.zeros(b.size), np.zeros(b.size)

        def forces(P, r0):
            out = [[pos(P.a), pos(P.b)] + [float(v)*int(rng.random() < 0.7) for v in rng.standard_normal(3)*1e3]
                   for _ in range(int(rng.integers(0, 4)))]
            f, s = monitors.fext_ref(P, dict(L, point_loads=out), 1.)
            R[r0:r0 + P.size] += f
            S[r0:r0 + P.size] += s
            return out
        for f in forces(b.skin, 0):
            B.forces_skin.append(f)
        for s, P, r0, N in b.flanges:
            s.forces_flange = forces(P, r0)
        got = np.asarray(quiet(B.calc_fext, silent=True))
        case.ok(got.shape == (b.size,), 'size of the force vector of the bay', shape=got.shape, expected=b.size)
        case.near(float((np.abs(got - R)/np.maximum(S, 1e-300)).max()) if S.any() else float(np.abs(got).max()), 1e-11,
                  'force vector of the bay')
        ctx.count('bay fext')
        # fields
        c = np.zeros(b.size)
        c[:b.size0] = gen.ritz(rng, b.skin)
        for s, P, r0, N in b.flanges:
            c[r0:r0 + P.size] = gen.ritz(rng, P)
        c0 = c.copy()
        for _ in range(3):
            k = int(rng.integers(-1, len(b.flanges)))
            P, r0 = (b.skin, 0) if k < 0 else b.flanges[k][1:3]
            if rng.random() < 0.4:
                hi = 12 if rng.random() < 0.8 else 150
                kw = dict(gridx=int(rng.integers(1, hi)), gridy=int(rng.integers(1, hi)))
                if hi > 12 and rng.random() < 0.2:
                    kw = {}
                X, Y = np.meshgrid(np.linspace(0, P.a, kw.get('gridx', 300)), np.linspace(0, P.b, kw.get('gridy', 300)))
            else:
                shape = (int(rng.integers(1, 30)),) if rng.random() < 0.6 else (int(rng.integers(1, 7)), int(rng.integers(1, 7)))
                X, Y = rng.uniform(0, P.a, shape), rng.uniform(0, P.b, shape)
                kw = dict(xs=X, ys=Y)
            case.note(target=k, shape=X.shape)
            if k < 0:
                out = B.uvw_skin(c, **kw)
            else:
                out = B.uvw_stiffener(c, B.stiffeners.index(b.flanges[k][0]), **kw)
            case.ok(len(out) == 5, 'number of fields')
            V, Z = monitors.field_ref(P, 'uvw', c[r0:r0 + P.size], X.ravel(), Y.ravel(), False, None)
            for q, name in enumerate(('u', 'v', 'w', 'phix', 'phiy')):
                o = np.asarray(out[q])
                case.ok(o.shape == X.shape, 'shape of the field', field=name, shape=o.shape)
                case.ok(np.array_equal(o, getattr(B, name)), 'stored field is not the one returned', field=name)
                e = np.abs(o.ravel() - V[q])/np.maximum(Z[q], 1e-6*Z[q].max() + 1e-300)
                case.near(float(e.max()), num_tol(P.m, P.n), 'field of the bay', field=name)
            case.ok(np.array_equal(B.Xs, X) and np.array_equal(B.Ys, Y), 'stored positions are not the requested ones')
            ctx.count('skin field' if k < 0 else 'flange field')
        case.ok(np.array_equal(c, c0), 'Ritz constants altered')
        seen(case, b, 'fields')

    def refuse(case):
        rng = case.rng
        from panels.stiffpanelbay import StiffPanelBay
        what = case.idx % 6
        b = draw(case, few=True)
        B = b.bay
        quiet(B.calc_kC, silent=True)
        d = draw_lam(rng, False)
        st = dict(bf=0.1, fstack=d['stack'], fplyts=[1e-3]*len(d['stack']), flaminaprops=[gen.MATS[0]]*len(d['stack']))
        add = B.add_bladestiff1d if rng.random() < 0.5 else B.add_bladestiff2d
        exc = (ValueError, RuntimeError)
        try:
            if what == 0:
                B.uvw_skin(np.zeros(b.size + int(rng.choice([-1, 1, 5]))), gridx=3, gridy=3)
            elif what == 1:
                B.uvw_skin(np.zeros(b.size), xs=np.zeros(3), ys=np.zeros(4))
            elif what == 2:
                add(ys=float(b.panels[0][2][3]*0.731), **st)
            elif what == 3:
                add(ys=0.)
            elif what == 4:
                E = StiffPanelBay()
                E.a = E.b = 1.
                (E.add_bladestiff1d if rng.random() < 0.5 else E.add_bladestiff2d)(ys=0., **st)
            else:
                st.pop('fplyts')
                add(ys=0., **st)
        except exc:
            ctx.count('refused')
            case.seen('refused', what)
            return
        case.ok(False, 'invalid bay or request accepted', what=what)

    ctx.run('matrices', 150, 4000, matrices)
    ctx.run('kG from c', 40, 800, kG_c)
    ctx.run('aero', 60, 1200, aero)
    ctx.run('fields', 100, 2500, fields)
    ctx.run('refuse', 24, 120, refuse)
