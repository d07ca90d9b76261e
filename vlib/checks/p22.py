META = dict(
    shards=(6, 8), budget=(140, 1800),
    rule='random panels, assemblies and stiffened bays described twice: mirrored along x or y, with x and y exchanged, turned over, in other '
         'units, with plies split, lists instead of single values, values left to their documented defaults, panels or stiffeners '
         'listed in another order; all matrices, vectors and fields compared after the change of coordinates; '
         'non-trivial when the two descriptions differ and the results are not zero',
    require=('mirror x', 'mirror y', 'exchange x and y', 'turn over', 'units', 'plies split', 'lists', 'attributes', 'half turns', 'isotropic',
             'defaults', 'large radius', 'flat', 'curved', 'partial', 'kC', 'kG', 'kG state', 'kM', 'kA', 'cA', 'kT', 'fint', 'fext', 'uvw', 'strain', 'stress',
             'constraint', 'assembly', 'bay', 'bay defaults', 'assembly: BF', 'assembly: SS', 'bay: order', 'bay: inherited'),
    assumptions=['the aerodynamic matrix is compared where w is held at the edges across the flow'],
)
# --- end of META
import copy

import numpy as np

from .. import gen, ref
from ..ref import dense
from .p12 import quiet

XF = ('x1', 'x2')
SWAPS = {'x1': 'x2', 'x2': 'x1', 'y1': 'y2', 'y2': 'y1'}
MIRROR = dict(x=('u', 'phix', 'gxy', 'kxy', 'Nxy', 'Mxy'), y=('v', 'phiy', 'gxy', 'kxy', 'Nxy', 'Mxy'),
              z=('w', 'phix', 'phiy', 'kxx', 'kyy', 'kxy', 'Mxx', 'Myy', 'Mxy'))
PAIRS = [('u', 'v'), ('phix', 'phiy'), ('exx', 'eyy'), ('kxx', 'kyy'), ('Nxx', 'Nyy'), ('Mxx', 'Myy')]
UNITS = dict(u=(1, 0), v=(1, 0), w=(1, 0), phix=(0, 0), phiy=(0, 0), exx=(0, 0), eyy=(0, 0), gxy=(0, 0), kxx=(-1, 0), kyy=(-1, 0),
             kxy=(-1, 0), Nxx=(1, 1), Nyy=(1, 1), Nxy=(1, 1), Mxx=(2, 1), Myy=(2, 1), Mxy=(2, 1))


class Fun(object):
    """Polynomial load: value(t) = f*p((t0 + d*t)*q)."""

    def __init__(self, p, f=1., t0=0., d=1.):
        self.p, self.f, self.t0, self.d = list(p), f, t0, d

    def __call__(self, t):
        s = self.t0 + self.d*t
        return self.f*(self.p[0] + self.p[1]*s + self.p[2]*s*s)

    def times(self, k):
        return Fun(self.p, self.f*k, self.t0, self.d)

    def of(self, t0, d):
        # t -> t0 + d*t
        return Fun(self.p, self.f, self.t0 + self.d*t0, self.d*d)


def opt(g, k):
    return None if g is None else g.times(k)


class Desc(object):
    """A description of one panel and the map from the degrees of freedom of the first description."""

    def __init__(self, rng, cfg):
        self.cfg = cfg
        P = ref.Panel.of(gen.shell(cfg))
        self.size = P.size
        self.perm, self.sign = np.arange(P.size), np.ones(P.size)
        self.L, self.s, self.q = 1., 1., 1.
        self.after = {}          # attributes set after construction
        self.field = {k: (k, 1.) for k in UNITS}
        self.N = [float(v) for v in rng.standard_normal(3)*1e3*P.lam.h*1e3]
        self.Ncte = [float(v) for v in rng.standard_normal(3)*1e3] if rng.random() < 0.3 else [0., 0., 0.]
        a, b = cfg['a'], cfg['b']
        self.limits = None
        if rng.random() < 0.3:
            x, y = np.sort(rng.uniform(0, a, 2)), np.sort(rng.uniform(0, b, 2))
            self.limits = [float(v) for v in (*x, *y)]
            if rng.random() < 0.4:
                self.limits[0] = 0.
            if rng.random() < 0.4:
                self.limits[3] = b
        self.beta, self.flow = float(rng.uniform(1, 1e5)), str(rng.choice(['x', 'y']))
        self.points = [[x, y] + [float(v) for v in rng.standard_normal(3)] + [bool(rng.integers(0, 2))]
                       for x, y in self.spots(rng, a, b, int(rng.integers(0, 3)))]
        self.lines = []
        for _ in range(int(rng.integers(0, 3))):
            f = [Fun(rng.standard_normal(3)) if rng.random() < 0.7 else None for _ in range(3)]
            f[int(rng.integers(0, 3))] = Fun(rng.standard_normal(3))
            along = str(rng.choice(['x', 'y']))
            pos = float(rng.choice([0., 1., rng.uniform(0, 1)]))*(a if along == 'y' else b)
            self.lines.append([along, pos, f, bool(rng.integers(0, 2))])
        self.pds = [[x, y] + [float(v) for v in np.abs(rng.standard_normal(3))] + [float(v) for v in rng.standard_normal(3)]
                    for x, y in self.spots(rng, a, b, int(rng.integers(0, 2)))]
        self.constraint = self.spots(rng, a, b, 1)[0] + [bool(rng.integers(0, 2)) for _ in range(5)] + [1e6, 1e5]
        # some points inside give the size of the fields
        self.XY = np.array(self.spots(rng, a, b, int(rng.integers(0, 12))) + [[a*rng.uniform(0.1, 0.9), b*rng.uniform(0.1, 0.9)] for _ in range(4)]).T

    @staticmethod
    def spots(rng, a, b, n):
        return [[float(rng.choice([0., 1., rng.uniform(0, 1)]))*a, float(rng.choice([0., 1., rng.uniform(0, 1)]))*b] for _ in range(n)]

    def copy(self):
        return copy.deepcopy(self)

    @property
    def curved(self):
        return bool(self.cfg.get('r'))

    # ---- exact changes of description
    def _flip_names(self, pairs):
        old = dict(self.cfg)
        for e, f in pairs.items():
            for k in 'uvw':
                for r in ('', 'r'):
                    if e + k + r in old:
                        self.cfg[f + k + r] = old[e + k + r]

    def angles(self, f):
        self.cfg['stack'] = [f(t) for t in self.cfg['stack']]

    def mirror(self, d):
        c = self.cfg
        m, n = c['m'], c['n']
        a = c['a'] if d == 'x' else c['b']
        k = 0 if d == 'x' else 1
        self._flip_names({'x1': 'x2', 'x2': 'x1'} if d == 'x' else {'y1': 'y2', 'y2': 'y1'})
        self.angles(lambda t: -t)
        nt = m if d == 'x' else n
        assert nt >= 4
        to = np.arange(nt); to[:4] = 2, 3, 0, 1
        sg = (-1.)**np.arange(nt); sg[:4] = 1, -1, 1, -1
        new = np.empty(self.size, int); s = np.empty(self.size)
        for j in range(n):
            for i in range(m):
                for v in range(3):
                    i2, j2 = (to[i], j) if d == 'x' else (i, to[j])
                    new[3*(j*m + i) + v] = 3*(j2*m + i2) + v
                    s[3*(j*m + i) + v] = sg[i if d == 'x' else j]*(-1. if v == k else 1.)
        self.compose(new, s)
        self.N[2] *= -1; self.Ncte[2] *= -1
        if self.limits:
            i = 2*k
            self.limits[i], self.limits[i+1] = a - self.limits[i+1], a - self.limits[i]
        if self.flow == d:
            self.beta *= -1
        for p in self.points:
            p[k] = a - p[k]; p[2 + k] *= -1
        for p in self.pds:
            p[k] = a - p[k]; p[5 + k] *= -1
        for ln in self.lines:
            f = ln[2]
            if ln[0] == d:       # runs along d: positions reversed
                f = [g if g is None else g.of(a, -1.) for g in f]
            else:
                ln[1] = a - ln[1]
            f[k] = opt(f[k], -1.)
            ln[2] = f
        self.constraint[k] = a - self.constraint[k]
        self.XY[k] = a - self.XY[k]
        self.flip(MIRROR[d])

    def exchange(self):
        c = self.cfg
        assert not self.curved
        m, n = c['m'], c['n']
        old = dict(c)
        c['a'], c['b'], c['m'], c['n'] = old['b'], old['a'], n, m
        o = {'x': 'y', 'y': 'x', 'u': 'v', 'v': 'u', 'w': 'w'}
        for e in ('x1', 'x2', 'y1', 'y2'):
            for k in 'uvw':
                for r in ('', 'r'):
                    c[o[e[0]] + e[1] + o[k] + r] = old[e + k + r]
        self.angles(lambda t: 90. - t)
        new = np.empty(self.size, int)
        for j in range(n):
            for i in range(m):
                for v in range(3):
                    new[3*(j*m + i) + v] = 3*(i*n + j) + (1, 0, 2)[v]
        self.compose(new, np.ones(self.size))
        for N in (self.N, self.Ncte):
            N[0], N[1] = N[1], N[0]
        if self.limits:
            self.limits = self.limits[2:] + self.limits[:2]
        self.flow = o[self.flow]
        for p in self.points:
            p[0], p[1], p[2], p[3] = p[1], p[0], p[3], p[2]
        for p in self.pds:
            p[:] = [p[1], p[0], p[3], p[2], p[4], p[6], p[5], p[7]]
        for ln in self.lines:
            ln[0] = o[ln[0]]
            ln[2] = [ln[2][1], ln[2][0], ln[2][2]]
        q = self.constraint
        q[:] = [q[1], q[0], q[3], q[2], q[4], q[6], q[5], q[7], q[8]]
        self.XY = self.XY[::-1].copy()
        for x, y in PAIRS:
            self.field = {k: (y if g == x else x if g == y else g, f) for k, (g, f) in self.field.items()}

    def over(self):
        c = self.cfg
        assert not self.curved
        for k in ('stack', 'plyts', 'laminaprops', 'rhos'):
            if k in c:
                c[k] = list(c[k])[::-1]
        c['offset'] = -c.get('offset', 0.)
        s = np.ones(self.size); s[2::3] = -1
        self.compose(np.arange(self.size), s)
        for p in self.points:
            p[4] *= -1
        for p in self.pds:
            p[7] *= -1
        for ln in self.lines:
            ln[2][2] = opt(ln[2][2], -1.)
        self.flip(MIRROR['z'])

    def units(self, L, s, q):
        c = self.cfg
        for k in ('a', 'b', 'r', 'offset', 'plyt'):
            if c.get(k) is not None:
                c[k] *= L
        mat = lambda p: (p[0]*s, p[1]) if len(p) == 2 else (p[0]*s, p[1]*s, p[2], p[3]*s, p[4]*s, p[5]*s)
        if 'laminaprop' in c:
            c['laminaprop'] = mat(c['laminaprop'])
        if 'laminaprops' in c:
            c['laminaprops'] = [mat(p) for p in c['laminaprops']]
        if 'plyts' in c:
            c['plyts'] = [t*L for t in c['plyts']]
        if 'rho' in c:
            c['rho'] *= q
        if 'rhos' in c:
            c['rhos'] = [r*q for r in c['rhos']]
        self.N = [v*s*L for v in self.N]; self.Ncte = [v*s*L for v in self.Ncte]
        if self.limits:
            self.limits = [v*L for v in self.limits]
        self.beta *= s
        for p in self.points:
            p[:5] = [p[0]*L, p[1]*L] + [v*s*L*L for v in p[2:5]]
        for p in self.pds:
            p[:] = [p[0]*L, p[1]*L] + [v*s*L for v in p[2:5]] + [v*L for v in p[5:8]]
        for ln in self.lines:
            ln[1] *= L
            ln[2] = [g if g is None else g.of(0., 1/L).times(s*L) for g in ln[2]]
        self.constraint[0] *= L; self.constraint[1] *= L
        self.constraint[7] *= s*L; self.constraint[8] *= s*L**3
        self.XY = self.XY*L
        self.L *= L; self.s *= s; self.q *= q

    def compose(self, new, s):
        # dof k of the current description becomes new[k]
        self.sign = self.sign*s[self.perm]
        self.perm = new[self.perm]

    def flip(self, names):
        self.field = {k: (g, -f if g in names else f) for k, (g, f) in self.field.items()}

    # ---- the same description in other words
    def lists(self):
        c = self.cfg
        n = len(c['stack'])
        for k, ks in (('plyt', 'plyts'), ('laminaprop', 'laminaprops'), ('rho', 'rhos')):
            if k in c and ks not in c:
                c[ks] = [c.pop(k)]*n

    def split(self, rng):
        self.lists()
        c = self.cfg
        out = {k: [] for k in ('stack', 'plyts', 'laminaprops', 'rhos')}
        for i in range(len(c['stack'])):
            f = float(rng.uniform(0.1, 0.9))
            for g in (f, 1 - f):
                for k in out:
                    out[k].append(c[k][i]*g if k == 'plyts' else c[k][i])
        c.update(out)

    def isotropic(self):
        c = self.cfg
        mat = lambda p: (p[0], p[0], p[1]) + (p[0]/(2*(1 + p[1])),)*3 if len(p) == 2 else p
        if 'laminaprop' in c:
            c['laminaprop'] = mat(c['laminaprop'])
        if 'laminaprops' in c:
            c['laminaprops'] = [mat(p) for p in c['laminaprops']]

    # ---- the real object
    def make(self):
        cfg = dict(self.cfg)
        late = {k: cfg.pop(k) for k in self.after if k in cfg}
        s = gen.shell(cfg)
        for k, v in late.items():
            setattr(s, k, v)
        s.Nxx, s.Nyy, s.Nxy = self.N
        s.Nxx_cte, s.Nyy_cte, s.Nxy_cte = self.Ncte
        if self.limits:
            s.x1, s.x2, s.y1, s.y2 = self.limits
        s.beta, s.flow = self.beta, self.flow
        self.load(s)
        return s

    def load(self, s):
        for p in self.points:
            s.add_point_load(*p[:5], cte=p[5])
        for x, y, ku, kv, kw, up, vp, wp in self.pds:
            s.add_point_pd(x, y, ku, up, kv, vp, kw, wp)
        for along, pos, f, cte in self.lines:
            (s.add_distr_load_fixed_y if along == 'x' else s.add_distr_load_fixed_x)(pos, *f, cte=cte)

    def move(self, c):
        out = np.empty(self.size)
        out[self.perm] = self.sign*c*self.L
        return out

    def back(self, A):
        """Of the new description, in the degrees of freedom of the first one."""
        A = dense(A)
        if A.ndim == 1:
            return A[self.perm]*self.sign
        return A[np.ix_(self.perm, self.perm)]*self.sign[:, None]*self.sign[None, :]


def changes(rng, D, count):
    """Applies a random series of changes to the description D."""
    names = []
    todo = ['mirror x', 'mirror y', 'units', 'plies split', 'lists', 'attributes', 'half turns', 'isotropic', 'model']
    if not D.curved:
        todo += ['exchange x and y', 'turn over']*2
    for name in rng.choice(todo, int(rng.integers(1, 5))):
        name = str(name)
        c = D.cfg
        if name.startswith('mirror'):
            if c['m' if name[-1] == 'x' else 'n'] < 4:
                continue
            D.mirror(name[-1])
        elif name == 'exchange x and y':
            D.exchange()
        elif name == 'turn over':
            D.over()
        elif name == 'units':
            D.units(*(float(10**v) for v in rng.uniform(-5, 5, 3)))
        elif name == 'plies split':
            D.split(rng)
        elif name == 'lists':
            D.lists()
        elif name == 'attributes':
            D.after = [k for k in c if rng.random() < 0.5 and k not in ('m', 'n', 'plyts', 'laminaprops', 'rhos')]
        elif name == 'half turns':
            D.angles(lambda t: t + 180.*int(rng.integers(-2, 3)))
        elif name == 'isotropic':
            if not any(len(p) == 2 for p in c.get('laminaprops') or [c['laminaprop']]):
                continue
            D.isotropic()
        elif name == 'model':
            c['model'] = 'cylshell_clpt_donnell_bardell' if D.curved else 'plate_clpt_donnell_bardell'
        names.append(name)
        count(name)
    return names


def panel_results(D, s, c, inc, aeromu):
    """name -> (value in the first description's degrees of freedom and units, scale for rounding or None)"""
    L, sc, q = D.L, D.s, D.q
    yield 'kC', D.back(s.calc_kC())/(sc*L)
    yield 'kG', D.back(s.calc_kG())/(sc*L)
    yield 'kM', D.back(s.calc_kM())/(q*L**3)
    edges = [s.flow + '1w', s.flow + '2w']
    if not any(getattr(s, e) for e in edges) and D.limits is None:
        yield 'kA', D.back(s.calc_kA())/(sc*L)
    if D.limits is None:
        yield 'cA', D.back(s.calc_cA(aeromu).imag)/L**2
    c2 = D.move(c)
    yield 'kG state', D.back(s.calc_kG(c=c2))/(sc*L)
    yield 'kT', D.back(s.calc_kT(c=c2))/(sc*L)
    if not any(D.Ncte):
        yield 'fint', D.back(s.calc_fint(c2))/(sc*L*L)
    yield 'fext', D.back(s.calc_fext(inc=inc))/(sc*L*L)
    x, y, u, v, w, px, py, k, kr = D.constraint
    yield 'constraint', D.back(s.calc_stiffness_point_constraint(x, y, u=u, v=v, w=w, phix=px, phiy=py, kuvw=k, kphi=kr))/(sc*L)
    for what, kw in (('uvw', {}), ('strain', dict(NLgeom=True)), ('strain', dict(NLgeom=False)), ('stress', dict(NLgeom=True))):
        _, F = getattr(s, what)(c2, xs=D.XY[0], ys=D.XY[1], **kw)
        names = dict(uvw=('u', 'v', 'w', 'phix', 'phiy'), strain=('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy'),
                     stress=('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'))[what]
        yield what, np.array([F[D.field[k][0]]*D.field[k][1]/(L**UNITS[k][0]*sc**UNITS[k][1]) for k in names])


GROUPS = {'uvw': ((0, 1), (2,), (3, 4)), 'strain': ((0, 1, 2), (3, 4, 5)), 'stress': ((0, 1, 2), (3, 4, 5))}


def compare(case, name, A, B, tol, big, h, beta=0., size=None):
    if name in GROUPS:
        for i, g in enumerate(GROUPS[name]):
            # membrane forces and moments of a symmetric laminate: rounding of the other one
            floor = 0.
            if name == 'stress':
                floor = 1e-6*np.abs(A[:3]).max()*h if i else 1e-6*np.abs(A[3:]).max()/h
            if size and i == 0 and name != 'uvw':
                # w/r where nothing else stretches
                floor = max(floor, 1e-6*np.abs(A[3:]).max()*(size if name == 'strain' else size/h**2))
            case.near(ref.relerr(A[list(g)], B[list(g)], floor=floor), tol, name + ' of the two descriptions', what=name)
    elif A.ndim == 1:
        for i in range(3):
            case.near(ref.relerr(A[i::3], B[i::3], floor=1e-6*max(np.abs(A).max(), np.abs(B).max())), tol, name + ' of the two descriptions')
    elif name == 'kA':
        case.near(ref.relerr(A, B, floor=1e-5*beta), tol, name + ' of the two descriptions')
    else:
        case.near(ref.blockerr(A, B, floor=1e-3), tol, name + ' of the two descriptions')
    big[0] = max(big[0], float(np.abs(A).max(initial=0.)))


def run(ctx):
    count = ctx.count

    def panel(case):
        rng = case.rng
        cfg = gen.config(rng, 1, 8)
        cfg['m'], cfg['n'] = (v if rng.random() < 0.2 else max(v, 4) for v in (cfg['m'], cfg['n']))
        D0 = Desc(rng, cfg)
        D = D0.copy()
        names = changes(rng, D, count)
        P = ref.Panel.of(gen.shell(cfg))
        c = gen.ritz(rng, P)
        inc, mu = float(rng.uniform(0.1, 2)), float(rng.uniform(1, 1e3))
        case.note(cfg=gen.brief(cfg), changes=names, limits=D0.limits, units=(D.L, D.s, D.q))
        big = [0.]
        for (k, A), (k2, B) in zip(panel_results(D0, D0.make(), c, inc, mu), panel_results(D, D.make(), c, inc, mu)):
            assert k == k2
            compare(case, k, A, B, 1e-7, big, P.lam.h, abs(D0.beta)*max(cfg['a'], cfg['b']))
            count(k)
        count('curved' if D.curved else 'flat')
        if D0.limits:
            count('partial')
        if names and big[0] > 0:
            case.seen(*names, *(v for k, v in sorted(gen.brief(cfg).items())))
    ctx.run('panel', 240, 12000, panel)

    def defaults(case):
        """What is left out takes its documented default: simply supported edges, no loads, the whole domain, flow along x."""
        rng = case.rng
        from panels import Shell
        cfg = gen.config(rng, 2, 6)
        for f in ref.FLAGS:
            cfg.pop(f)
        lists = {k: cfg.pop(k) for k in ('plyts', 'laminaprops', 'rhos') if k in cfg}
        force = cfg.pop('force_orthotropic_laminate', False)
        full = dict(cfg, offset=cfg.get('offset', 0.))
        for f in ref.FLAGS:
            full[f] = 1. if f.endswith('r') else 0.
        full.update(Nxx=0., Nyy=0., Nxy=0., Nxx_cte=0., Nyy_cte=0., Nxy_cte=0., flow='x', gamma=0., r=cfg.get('r'),
                    force_orthotropic_laminate=force, model='cylshell_clpt_donnell_bardell' if 'r' in cfg else 'plate_clpt_donnell_bardell',
                    nx=2*cfg['m'], ny=2*cfg['n'])
        if not cfg.get('offset'):
            cfg.pop('offset', None)
        left = [k for k in full if k not in cfg and rng.random() < 0.85]
        if force:
            left = [k for k in left if k != 'force_orthotropic_laminate']
        c1 = {k: v for k, v in full.items() if k not in left}
        s1, s2 = Shell(**c1), Shell(**full)
        for s in (s1, s2):
            for k, v in lists.items():
                setattr(s, k, list(v))
            s.beta = 1e3
        case.note(cfg=gen.brief(cfg), left_out=sorted(left))
        c = gen.ritz(rng, ref.Panel.of(s2))
        for name, f in (('kC', lambda s: s.calc_kC()), ('kM', lambda s: s.calc_kM()), ('kG', lambda s: s.calc_kG()), ('kA', lambda s: s.calc_kA()),
                        ('fext', lambda s: s.calc_fext()), ('kG', lambda s: s.calc_kG(c=c)), ('kT', lambda s: s.calc_kT(c=c)),
                        ('fint', lambda s: s.calc_fint(c)), ('stress', lambda s: np.array([s.stress(c, gridx=4, gridy=5)[1][k].copy() for k in ('Nxx', 'Mxy')]))):
            A, B = dense(f(s1)), dense(f(s2))
            case.near(ref.relerr(A, B, floor=1e-2*cfg['b'] if name == 'kA' else 0.), 1e-9, 'defaults: ' + name, what=name)
            if name in ('kG', 'fext') and not np.abs(B).max():
                case.ok(not np.abs(A).max(), 'a load that nobody gave')
        if rng.random() < 0.1:
            g1, g2 = s1.uvw(c)[1]['w'], s2.uvw(c, gridx=300, gridy=300)[1]['w']
            case.near(ref.relerr(g1, g2), 1e-12, 'defaults: grid')
        count('defaults')
        case.seen('defaults', *sorted(left), cfg['m'], cfg['n'], 'r' in cfg)
    ctx.run('defaults', 60, 2000, defaults)

    def flat(case):
        """A cylinder with a growing radius becomes the plate."""
        rng = case.rng
        cfg = gen.config(rng, 2, 6, r=False)
        D0 = Desc(rng, cfg)
        D0.limits = None
        D = D0.copy()
        D.cfg['r'] = 1e12*max(cfg['a'], cfg['b'])
        P = ref.Panel.of(gen.shell(cfg))
        c = gen.ritz(rng, P)
        case.note(cfg=gen.brief(cfg))
        big = [0.]
        for (k, A), (_, B) in zip(panel_results(D0, D0.make(), c, 1., 10.), panel_results(D, D.make(), c, 1., 10.)):
            # kT, fint and stresses of soft states move by w/r
            compare(case, k, A, B, 1e-4, big, P.lam.h, abs(D0.beta)*max(cfg['a'], cfg['b']), size=max(cfg['a'], cfg['b']))
        count('large radius')
        case.seen('flat', *(v for k, v in sorted(gen.brief(cfg).items())))
    ctx.run('large radius', 24, 800, flat)

    def assembly(case):
        """The same assembly mirrored, exchanged, turned over, in other units or listed in another order."""
        rng = case.rng
        from panels.multidomain import MultiDomain
        k = int(rng.integers(2, 5))
        a, b = float(10**rng.uniform(-0.5, 0.5)), float(10**rng.uniform(-0.5, 0.5))
        ds = []
        big_modulus = rng.random() < 0.8
        for i in range(k):
            for _ in range(30):
                cfg = gen.config(rng, 4, 6, r=False)
                if (max(p[0] for p in (cfg.get('laminaprops') or [cfg['laminaprop']])) > 1e3) == big_modulus:
                    break
            cfg['a'], cfg['b'] = a, b
            d = Desc(rng, cfg)
            d.limits = None
            ds.append(d)
        if len({max(p[0] for p in (d.cfg.get('laminaprops') or [d.cfg['laminaprop']])) > 1e3 for d in ds}) > 1:
            from ..core import Skip
            raise Skip
        conn = []
        for _ in range(int(rng.integers(1, 4))):
            i, j = (int(v) for v in rng.choice(k, 2, replace=False))
            f = str(rng.choice(['SSycte', 'SSxcte', 'BFycte', 'BFxcte']))
            L = b if f.endswith('ycte') else a
            conn.append([i, j, f, float(rng.choice([0., L, L/3])), float(rng.choice([0., L]))])
            if f.startswith('BF') and i > j:
                conn[-1][0], conn[-1][1] = j, i
        flanges = {q[1] for q in conn if q[2].startswith('BF')}
        new = [d.copy() for d in ds]
        con2 = copy.deepcopy(conn)
        bf = any(q[2].startswith('BF') for q in conn)
        todo = ['units', 'lists', 'mirror x', 'mirror y', 'exchange x and y', 'turn over']
        names = []
        for name in rng.choice(todo, int(rng.integers(1, 4)), replace=False):
            name = str(name)
            A, B = new[0].cfg['a'], new[0].cfg['b']
            if name == 'units':
                v = [float(10**t) for t in rng.uniform(-5, 5, 3)]
                for d in new:
                    d.units(*v)
                for q in con2:
                    q[3] *= v[0]; q[4] *= v[0]
            elif name == 'lists':
                for d in new:
                    d.lists()
            elif name.startswith('mirror'):
                if bf:
                    continue
                ax = name[-1]
                for d in new:
                    d.mirror(ax)
                for q in con2:
                    if q[2].endswith(ax + 'cte'):
                        W = A if ax == 'x' else B
                        q[3], q[4] = W - q[3], W - q[4]
            elif name == 'exchange x and y':
                for d in new:
                    d.exchange()
                for q in con2:
                    q[2] = q[2][:2] + ('xcte' if q[2].endswith('ycte') else 'ycte')
            elif name == 'turn over':
                if bf:
                    continue
                for d in new:
                    d.over()
            names.append(name)
            count(name)
        order = [int(v) for v in rng.permutation(k)] if not bf and rng.random() < 0.5 else list(range(k))
        case.note(panels=[gen.brief(d.cfg) for d in ds], conn=conn, changes=names, order=order)

        def build(D, con, order):
            ss = [d.make() for d in D]
            for i, s in enumerate(ss):
                s.group = 'g'
            out = []
            for i, j, f, p1, p2 in con:
                e = f[2]
                out.append(dict(p1=ss[i], p2=ss[j], func=f, **{e + 'cte1': p1, e + 'cte2': p2}))
            return MultiDomain([ss[i] for i in order], conn=out), ss
        A1, S1 = quiet(build, ds, conn, range(k))
        A2, S2 = quiet(build, new, con2, order)
        # position of every degree of freedom of the first assembly in the second one
        perm = np.concatenate([S2[i].col_start + new[i].perm for i in range(k)])
        sign = np.concatenate([d.sign for d in new])
        L, sc, q = new[0].L, new[0].s, new[0].q
        c = np.concatenate([gen.ritz(rng, ref.Panel.of(gen.shell(d.cfg))) for d in ds])
        c2 = np.empty_like(c); c2[perm] = sign*c*L

        def back(X):
            X = dense(X)
            return X[perm]*sign if X.ndim == 1 else X[np.ix_(perm, perm)]*sign[:, None]*sign[None, :]
        for name, f, fac in (('kC', lambda A, x: A.calc_kC(silent=True), sc*L), ('kM', lambda A, x: A.calc_kM(silent=True), q*L**3),
                             ('kG', lambda A, x: A.calc_kG(silent=True), sc*L), ('kG state', lambda A, x: A.calc_kG(c=x, silent=True), sc*L),
                             ('kT', lambda A, x: A.calc_kT(c=x, silent=True), sc*L), ('fint', lambda A, x: A.calc_fint(c=x, silent=True), sc*L*L),
                             ('fext', lambda A, x: A.calc_fext(inc=0.7, silent=True), sc*L*L)):
            X, Y = dense(quiet(f, A1, c)), back(quiet(f, A2, c2))/fac
            case.near(ref.relerr(X, Y) if X.ndim == 1 else ref.blockerr(X, Y, floor=1e-3), 1e-7, 'assembly: %s of the two descriptions' % name, what=name)
        count('assembly')
        for q in conn:
            count('assembly: ' + q[2][:2])
        if names or order != list(range(k)):
            case.seen('assembly', *names, *map(str, conn))
    ctx.run('assembly', 60, 2500, assembly)

    def bay(case):
        """The same bay with values inherited or given, panels and stiffeners listed in another order, mirrored along x, in other units."""
        rng = case.rng
        from panels.stiffpanelbay import StiffPanelBay
        r = rng.random() < 0.4
        cfg = gen.config(rng, 4, 6, r=r, allow_hetero=False, ortho=False, offset=False)
        dflt = rng.random() < 0.4
        if dflt:
            for f in ref.FLAGS:
                cfg[f] = 0.
            for e in ('x1', 'x2', 'y1', 'y2'):
                cfg[e + 'wr'] = 1.
        a, b = cfg['a'], cfg['b']
        mat, t, rho = cfg['laminaprop'], cfg['plyt'], cfg['rho']
        npan = int(rng.integers(1, 4))
        edges = [0.] + [float(v) for v in np.sort(rng.uniform(0.2, 0.8, npan - 1))*b] + [b]
        angle = lambda: float(rng.choice([0, 90, 45, -45, rng.uniform(-90, 90)]))
        pans = []
        for y1, y2 in zip(edges[:-1], edges[1:]):
            own = rng.random() < 0.5
            pans.append(dict(y1=y1, y2=y2, stack=[angle() for _ in range(int(rng.integers(1, 4)))] if own else cfg['stack'],
                             plyt=t*float(rng.uniform(0.5, 2)) if own else t, rho=float(rng.uniform(500, 5000)) if own else rho,
                             N=[float(v) for v in rng.standard_normal(3)*1e3]))
        stif = []
        for _ in range(int(rng.integers(0, 3))):
            i = int(rng.integers(1, npan)) if npan > 1 else int(rng.choice([0, 1]))
            ys = edges[i]
            # a flange alone may lie at an edge
            parts = str(rng.choice(['b', 'f', 'bf'])) if 0 < ys < b else 'f'
            d = dict(kind=int(rng.integers(1, 3)), ys=ys, parts=parts, rho=rho if rng.random() < 0.5 else float(rng.uniform(500, 5000)))
            if 'b' in parts:
                d.update(bb=float(rng.uniform(0.1, 1.))*min(ys, b - ys), bstack=[angle() for _ in range(2)], bplyt=t)
            if 'f' in parts:
                d.update(bf=b*float(rng.uniform(0.05, 0.3)), fstack=[angle() for _ in range(2)], fplyt=1.5*t)
            stif.append(d)
        mirror = rng.random() < 0.5
        L, sc, q = (float(10**v) for v in rng.uniform(-5, 5, 3)) if rng.random() < 0.5 else (1., 1., 1.)
        if any(d['kind'] == 1 and 'f' in d['parts'] for d in stif):
            L = sc = 1.     # recorded finding blade1d-torsion: no modulus in the torsion term
        porder = [int(v) for v in rng.permutation(npan)]
        sorder = [int(v) for v in rng.permutation(len(stif))]
        explicit = rng.random() < 0.5
        forces = [[float(rng.uniform(0, a)), float(rng.uniform(0, b))] + [float(v) for v in rng.standard_normal(3)] for _ in range(2)]
        case.note(cfg=gen.brief(cfg), panels=[(p['y1'], p['y2']) for p in pans], stiffeners=[(d['kind'], d['parts'], d['ys']) for d in stif],
                  mirror=mirror, units=(L, sc, q), panel_order=porder, stiffener_order=sorder, explicit=explicit, default_flags=dflt)
        smat = (lambda p: (p[0]*sc, p[1]) if len(p) == 2 else (p[0]*sc, p[1]*sc, p[2], p[3]*sc, p[4]*sc, p[5]*sc))
        mf, nf = int(rng.integers(4, 7)), int(rng.integers(2, 6))

        def make(new):
            B = StiffPanelBay()
            l, s, p_ = (L, sc, q) if new else (1., 1., 1.)
            M = smat(mat) if new else mat
            sg = -1. if new and mirror else 1.
            B.a, B.b, B.m, B.n = a*l, b*l, cfg['m'], cfg['n']
            if r:
                B.r = cfg['r']*l
            if not new or not dflt:
                fl = {k: cfg[k] for k in ref.FLAGS}
                if sg < 0:
                    fl = {(SWAPS[k[:2]] if k[0] == 'x' else k[:2]) + k[2:]: v for k, v in fl.items()}
                for k, v in fl.items():
                    setattr(B, k, v)
            give = new and explicit
            B.stack = [sg*v for v in cfg['stack']]
            B.laminaprop, B.plyt, B.rho = M, t*l, rho*p_
            B.beta, B.flow = 100.*s*sg, 'x'
            ps = {}
            for i in (porder if new else range(npan)):
                p = pans[i]
                kw = {}
                if give or p['stack'] is not cfg['stack']:
                    kw = dict(stack=[sg*v for v in p['stack']], rho=p['rho']*p_)
                    if give:
                        kw.update(plyts=[p['plyt']*l]*len(p['stack']), laminaprops=[M]*len(p['stack']))
                    else:
                        kw.update(plyt=p['plyt']*l)
                N = [p['N'][0], p['N'][1], sg*p['N'][2]]
                ps[i] = B.add_panel(y1=p['y1']*l, y2=p['y2']*l, Nxx=N[0]*s*l, Nyy=N[1]*s*l, Nxy=N[2]*s*l, **kw)
            sts = {}
            for i in (sorder if new else range(len(stif))):
                d = stif[i]
                kw = {}
                if give or d['rho'] != rho:
                    kw['rho'] = d['rho']*p_
                for w in 'bf':
                    if w + 'stack' in d:
                        kw['b' + w] = d['b' + w]*l
                        kw[w + 'stack'] = [sg*v for v in d[w + 'stack']]
                        if give:
                            kw[w + 'plyts'] = [d[w + 'plyt']*l]*2
                            kw[w + 'laminaprops'] = [M]*2
                        else:
                            kw[w + 'plyt'] = d[w + 'plyt']*l
                            kw[w + 'laminaprop'] = M
                if d['kind'] == 2:
                    if 'f' in d['parts']:
                        kw.update(mf=mf, nf=nf)
                    sts[i] = B.add_bladestiff2d(ys=d['ys']*l, **kw)
                else:
                    sts[i] = B.add_bladestiff1d(ys=d['ys']*l, **kw)
                    if 'f' in d['parts']:
                        sts[i].Fx = 10.*s*l*l
            for x, y, fx, fy, fz in forces:
                B.forces_skin.append([(a - x if sg < 0 else x)*l, y*l, sg*fx*s*l*l, fy*s*l*l, fz*s*l*l])
            return B, sts
        B1, T1 = quiet(make, False)
        B2, T2 = quiet(make, True)
        # numbering: the skin first, then the flanges in the order of the two-dimensional stiffeners
        size0 = 3*cfg['m']*cfg['n']
        m, n = cfg['m'], cfg['n']

        def mirror_map(mm, nn):
            to = np.arange(mm); to[:4] = 2, 3, 0, 1
            sg = (-1.)**np.arange(mm); sg[:4] = 1, -1, 1, -1
            pr, sn = np.arange(3*mm*nn), np.ones(3*mm*nn)
            if mirror:
                for j in range(nn):
                    for i in range(mm):
                        for v in range(3):
                            pr[3*(j*mm + i) + v] = 3*(j*mm + to[i]) + v
                            sn[3*(j*mm + i) + v] = sg[i]*(-1. if v == 0 else 1.)
            return pr, sn
        two = [i for i, d in enumerate(stif) if d['kind'] == 2 and 'f' in d['parts']]
        fs = 3*mf*nf
        pos2 = {i: size0 + fs*k for k, i in enumerate([i for i in sorder if i in two])}
        parts = [mirror_map(m, n)] + [mirror_map(mf, nf) for _ in two]
        perm = np.concatenate([parts[0][0]] + [pos2[i] + parts[1 + k][0] for k, i in enumerate(two)])
        sign = np.concatenate([x[1] for x in parts])

        def back(X):
            X = dense(X)
            return X[perm]*sign if X.ndim == 1 else X[np.ix_(perm, perm)]*sign[:, None]*sign[None, :]
        c = rng.standard_normal(size0)*1e-3
        todo = [('kC', lambda B: B.calc_kC(silent=True), sc*L), ('kM', lambda B: B.calc_kM(silent=True), q*L**3),
                ('kG', lambda B: B.calc_kG(silent=True), sc*L), ('fext', lambda B: B.calc_fext(silent=True), sc*L*L)]
        if not (cfg['x1w'] or cfg['x2w']):
            todo.append(('kA', lambda B: B.calc_kA(silent=True), sc*L))
        for name, f, fac in todo:
            X, Y = dense(quiet(f, B1)), back(quiet(f, B2))/fac
            case.near(ref.relerr(X, Y, floor=1e-2*b if name == 'kA' else 0.) if X.ndim == 1 or name == 'kA' else ref.blockerr(X, Y, floor=1e-3), 1e-7, 'bay: %s of the two descriptions' % name, what=name)
        count('bay')
        if dflt:
            count('bay defaults')
        if explicit:
            count('bay: inherited')
        if porder != list(range(npan)) or sorder != list(range(len(stif))):
            count('bay: order')
        case.seen('bay', mirror, L != 1., porder, sorder, explicit, dflt, npan, [(d['kind'], d['parts']) for d in stif], m, n, r)
    ctx.run('bay', 70, 2500, bay)
