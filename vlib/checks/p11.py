META = dict(
    shards=(6, 8), budget=(120, 1800),
    rule='random panels cut into random tiles along x, y or both (2 to 12 tiles); the matrices and the internal force of the tiles '
         'against those of the whole panel; non-trivial when the matrix of the whole is not zero',
    require=('kC tiles', 'kG tiles', 'kM tiles', 'kA tiles', 'fint tiles', 'kT tiles', 'empty tile', 'full limits'),
    assumptions=['quadrature orders that integrate the polynomials exactly'],
)
# --- end of META
import numpy as np

from .. import gen, ref
from ..core import Skip
from ..monitors import num_tol
from ..ref import dense


def cuts(rng, L, k):
    return np.concatenate(([0.], np.sort(rng.uniform(0, L, k - 1)), [L]))


WHAT = ('kC', 'kG', 'kM', 'kA', 'fint', 'kT', 'kC0')


def make(rng, s, what, P, nl):
    """(function of no arguments, is it closed form on the whole panel)"""
    NLx, NLy = min(64, 2*max(P.m, 4) + 2), min(64, 2*max(P.n, 4) + 2)
    c = gen.ritz(rng, P)
    if what == 'kC0':
        return lambda: dense(s.calc_kC(nx=NLx, ny=NLy))
    if what == 'kC':
        kw = dict(nx=NLx, ny=NLy)
        if rng.random() < 0.5:
            kw.update(c=c, NLgeom=nl)
        if rng.random() < 0.4:
            kw['c_cte'] = gen.ritz(rng, P)
        return lambda: dense(s.calc_kC(**kw))
    if what == 'kG':
        s.Nxx, s.Nyy, s.Nxy = rng.standard_normal(3)*1e3
        kw = dict(nx=NLx, ny=NLy)
        if rng.random() < 0.6:
            kw.update(c=c, NLgeom=nl)
        return lambda: dense(s.calc_kG(**kw))
    if what == 'kM':
        return lambda: dense(s.calc_kM())
    if what == 'kA':
        s.flow = str(rng.choice(['x', 'y']))
        if rng.random() < 0.5:
            s.beta, s.gamma = 1.7, 0.
        else:
            s.beta = None; s.Mach, s.V, s.rho_air = 2., 700., 0.3
        return lambda: dense(s.calc_kA())
    if what == 'fint':
        return lambda: np.asarray(s.calc_fint(c, nx=NLx, ny=NLy))
    if what == 'kT':
        return lambda: dense(s.calc_kT(c=c, nx=NLx, ny=NLy))


def floor(s, what, P):
    """Size of the terms of an aerodynamic matrix, which may cancel exactly."""
    if what != 'kA':
        return 1e-300
    beta = s.beta if s.beta is not None else s.rho_air*s.V**2/(s.Mach**2 - 1)**0.5
    return 0.1*abs(beta)*np.abs(P.wmass()).max()/max(P.a, P.b) + 1e-300


def run(ctx):
    def tiles(case):
        rng = case.rng
        what = WHAT[case.idx % len(WHAT)]
        cfg = gen.config(rng, 1, 7, big=20)
        s = gen.shell(cfg)
        s.nx, s.ny = max(cfg['m'], 4) + 2, max(cfg['n'], 4) + 2
        P = ref.Panel.of(s)
        nl = bool(rng.integers(0, 2))
        try:
            f = make(rng, s, what, P, nl)
        except KeyError:
            raise Skip
        mode = ('x', 'y', 'xy')[int(rng.integers(0, 3))]
        xs = cuts(rng, s.a, int(rng.integers(2, 5))) if 'x' in mode else None
        ys = cuts(rng, s.b, int(rng.integers(2, 4))) if 'y' in mode else None
        case.note(what=what, mode=mode, nl=nl, xs=xs, ys=ys, **gen.brief(cfg))
        whole = f()
        total, size = 0., 0.
        for i in range(len(xs) - 1 if xs is not None else 1):
            for j in range(len(ys) - 1 if ys is not None else 1):
                if xs is not None:
                    s.x1, s.x2 = float(xs[i]), float(xs[i + 1])
                if ys is not None:
                    s.y1, s.y2 = float(ys[j]), float(ys[j + 1])
                t = f()
                total = total + t
                size = size + np.abs(t)
        if what == 'fint':
            sc = np.array([np.maximum(size[k::3].max(), 1e-6*size.max()) for k in range(3)])
            err = max(np.abs((whole - total)[k::3]).max()/sc[k] for k in range(3) if sc[k] > 0) if size.max() > 0 else np.abs(whole).max()
        elif np.abs(whole).max() == 0 and np.max(size) == 0:
            err = 0.
        else:
            err = ref.blockerr(whole, total, 1e-3, np.diag(size))
            if what == 'kA' or what == 'kG':
                sc = max(size.max(), np.abs(whole).max(), floor(s, what, P))
                err = np.abs(whole - total).max()/sc
        case.near(float(err), 10*num_tol(P.m, P.n), 'tiles do not add up to the whole panel (%s)' % what)
        ctx.count(what.replace('0', '') + ' tiles')
        if np.abs(whole).max() > 0:
            case.seen(what, mode, P.m, P.n, s.model, nl, len(xs) if xs is not None else 0, len(ys) if ys is not None else 0)

    def special(case):
        rng = case.rng
        what = WHAT[case.idx % len(WHAT)]
        cfg = gen.config(rng, 2, 6)
        s = gen.shell(cfg)
        s.nx, s.ny = max(cfg['m'], 4) + 2, max(cfg['n'], 4) + 2
        P = ref.Panel.of(s)
        f = make(rng, s, what, P, True)
        case.note(what=what, **gen.brief(cfg))
        whole = f()
        sc = max(np.abs(whole).max(), floor(s, what, P))
        # limits that cover the panel change nothing
        s.x1, s.x2, s.y1, s.y2 = 0., s.a, 0., s.b
        case.near(np.abs(f() - whole).max()/sc, 10*num_tol(P.m, P.n), 'limits equal to the edges change the result (%s)' % what)
        ctx.count('full limits')
        # a tile of no area holds nothing
        x = float(rng.uniform(0, s.a)); s.x1 = s.x2 = x
        case.near(np.abs(f()).max()/sc, 1e-12, 'a tile without area is not empty (%s)' % what)
        ctx.count('empty tile')
        # back to the whole
        s.x1 = s.x2 = s.y1 = s.y2 = -1
        case.near(np.abs(f() - whole).max()/sc, 1e-12, 'limits removed again (%s)' % what)
        # monotone: a larger tile holds at least the stiffness / mass of a smaller one
        if what in ('kC0', 'kM'):
            u = np.sort(rng.uniform(0, s.a, 4))
            s.x1, s.x2 = float(u[1]), float(u[2]); small = f()
            s.x1, s.x2 = float(u[0]), float(u[3]); large = f()
            d = large - small
            dd = np.sqrt(np.abs(np.diag(large))); dd[dd == 0] = 1.
            w = np.linalg.eigvalsh(d/np.outer(dd, dd))
            case.ok(w.min() > -1e-8, 'a larger tile holds less (%s)' % what, wmin=w.min())
        case.seen('special', what, P.m, P.n, s.model)
    ctx.run('tiles', 280, 6000, tiles)
    ctx.run('special', 84, 1400, special)
