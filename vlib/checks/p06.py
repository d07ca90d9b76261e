META = dict(
    shards=(6, 8), budget=(140, 2400),
    rule='random panels and displacement states of any amplitude (linear to strongly non-linear), per-point laminates, '
         'partial domains, quadrature orders; fint against the gradient, kT against the directional derivative of fint; '
         'non-trivial when the state is not zero',
    require=('Shell.calc_fint', 'kT vs fint', 'kT vs fint without twist', 'assembly kT vs fint'),
    assumptions=['strain energy of von Karman/Donnell kinematics with the laminate matrix'],
)
# --- end of META
import numpy as np

from .. import gen, ref
from ..monitors import Monitors, num_tol


def run(ctx):
    mon = Monitors(ctx, 'fint', 'kG', 'kC')

    def setup(case, twistfree=False):
        rng = case.rng
        cfg = gen.config(rng, 1, 7)
        case.note(**gen.brief(cfg))
        s = gen.shell(cfg)
        P = ref.Panel.of(s)
        c = gen.ritz(rng, P)
        kw = {}
        style = rng.choice(['plain', 'quad', 'abd', 'partial', 'block', 'linear'])
        if style == 'linear':
            c *= 1e-7
        if style == 'quad':
            kw['nx'], kw['ny'] = int(rng.integers(1, 24)), int(rng.integers(1, 24))
        if style == 'abd':
            kw['nx'], kw['ny'] = int(rng.integers(1, 12)), int(rng.integers(1, 12))
            kw['ABDnxny'] = gen.hetABD(rng, P, kw['nx'], kw['ny'])
        if style == 'partial':
            gen.partial(rng, s)
        if style == 'block':
            pad = int(rng.integers(0, 5))
            kw['col0'] = pad
            kw['size'] = P.size + pad + int(rng.integers(0, 4))
            cc = rng.standard_normal(kw['size']); cc[pad:pad + P.size] = c; c = cc
        case.note(style=style, dom=(s.x1, s.x2, s.y1, s.y2),
                  kw={k: (v if not isinstance(v, np.ndarray) else v.shape) for k, v in kw.items()})
        return s, P, c, kw, style, cfg

    def fint(case):
        s, P, c, kw, style, cfg = setup(case)
        f = s.calc_fint(c, **kw)
        if np.abs(f).max() > 0:
            case.seen(s.model, s.m, s.n, ''.join(str(int(cfg[k])) for k in ref.FLAGS), style)

    def tangent(case):
        s, P, c, kw, style, cfg = setup(case)
        twistfree = case.idx % 2 == 0
        if twistfree:
            # w depends on one coordinate only: w,x w,y = 0 and the recorded
            # finding on the shear strain cannot show
            s.y1w = s.y2w = 1.; s.y1wr = s.y2wr = 1.
            P = ref.Panel.of(s)
            if P.n < 3:
                raise_skip()
            col0 = kw.get('col0', 0)
            w = np.zeros((P.n, P.m)); v = c[col0:col0 + P.size].reshape(P.n, P.m, 3)
            w[0] = v[0, :, 2]; w[2] = w[0]
            v[:, :, 2] = w
        kk = dict(kw)
        if 'col0' in kk:
            kk['row0'] = kk['col0']
        K = ref.dense(s.calc_kT(c=c, **kk))
        h = 1e-4
        d = case.rng.standard_normal(c.size)*np.abs(c).max()
        if twistfree:
            v = d[kw.get('col0', 0):][:P.size].reshape(P.n, P.m, 3)
            w = np.zeros((P.n, P.m)); w[0] = v[0, :, 2]; w[2] = w[0]
            v[:, :, 2] = w
        # fint is cubic in c: a five point rule is exact
        mon.on = False
        F = {k: np.asarray(s.calc_fint(c + k*h*d, **kw)) for k in (-2, -1, 1, 2)}
        mon.on = True
        der = (8*(F[1] - F[-1]) - (F[2] - F[-2]))/(12*h)
        got = K.dot(d)
        scale = max(np.abs(der).max(), np.abs(got).max())
        fs = max(np.abs(v).max() for v in F.values())*1e-16/h*50 + 1e-8*scale + 1e-300
        err = np.abs(got - der).max()/(fs*1e1)
        if twistfree:
            ctx.count('kT vs fint without twist')
            case.near(err, 1., 'kT is not the derivative of fint (state without twist)', scale=scale)
        else:
            ctx.count('kT vs fint')
            if err > 1.:
                # the recorded finding: fint = f(true) + extra shear, kT as
                # implemented uses the doubled stress in kG only
                col0 = kw.get('col0', 0)
                a = dict(F=mon.F(P, dict(ABDnxny=kw.get('ABDnxny'))), nx=kw.get('nx', max(s.nx, s.m)),
                         ny=kw.get('ny', max(s.ny, s.n)))
                from ..monitors import subdomain
                a['sub'] = subdomain(s)
                cl, dl = c[col0:col0 + P.size], d[col0:col0 + P.size]
                kt = (P.kC(cl, NL=True, **a) + P.kG(cl, NL=True, shear=2., N0=(s.Nxx, s.Nyy, s.Nxy), **a)).dot(dl)
                FF = {k: P.fint(cl + k*h*dl, shear=2., **a) for k in (-2, -1, 1, 2)}
                dd = (8*(FF[1] - FF[-1]) - (FF[2] - FF[-2]))/(12*h)
                gl, de = got[col0:col0 + P.size], der[col0:col0 + P.size]
                if np.abs(gl - kt).max() <= fs*10 and np.abs(de - dd).max() <= fs*10:
                    case.known('nl-shear-doubled', 'kT')
                else:
                    case.near(err, 1., 'kT is not the derivative of fint', scale=scale)
            else:
                case.near(err, 1., 'kT is not the derivative of fint', scale=scale)
        case.seen('tangent', s.model, s.m, s.n, style, twistfree)

    def raise_skip():
        from ..core import Skip
        raise Skip

    def assembly(case):
        """fint(0) = 0 and kT(c) d = dfint for a connected pair of panels."""
        from panels.multidomain import MultiDomain
        rng = case.rng
        cfgs = []
        base = gen.config(rng, 3, 6, r=False)
        for k in range(2):
            cfg = dict(base); cfg.update(gen.flags(rng, 'free'))
            cfg['m'], cfg['n'] = base['m'], int(rng.integers(3, 6))
            cfgs.append(cfg)
        p = [gen.shell(c) for c in cfgs]
        conn = [dict(p1=p[0], p2=p[1], func='SSycte', ycte1=p[0].b, ycte2=0.)]
        case.note(**gen.brief(base))
        md = MultiDomain(p, conn)
        n = md.get_size()
        Ps = [ref.Panel.of(s) for s in p]
        # twist-free state
        c = np.concatenate([gen.ritz(rng, P) for P in Ps])
        d = np.concatenate([gen.ritz(rng, P) for P in Ps])
        for vec in (c, d):
            o = 0
            for P in Ps:
                v = vec[o:o + P.size].reshape(P.n, P.m, 3); o += P.size
                w0 = v[0, :, 2].copy(); v[:, :, 2] = 0.; v[0, :, 2] = w0; v[2, :, 2] = w0
        K = ref.dense(md.calc_kT(c=c, silent=True))
        h = 1e-4
        mon.on = False
        F = {k: np.asarray(md.calc_fint(c + k*h*d, silent=True)) for k in (-2, -1, 1, 2)}
        z = md.calc_fint(np.zeros(n), silent=True)
        mon.on = True
        case.ok(not np.any(z), 'fint of the undeformed assembly is not zero')
        der = (8*(F[1] - F[-1]) - (F[2] - F[-2]))/(12*h)
        got = K.dot(d)
        scale = max(np.abs(der).max(), np.abs(got).max())
        fs = max(np.abs(v).max() for v in F.values())*1e-16/h*50 + 1e-8*scale + 1e-300
        case.near(np.abs(got - der).max()/(fs*10), 1., 'assembly kT is not the derivative of fint')
        ctx.count('assembly kT vs fint')
        case.seen('assembly', p[0].m, p[0].n, p[1].n)
    ctx.run('fint', 400, 7000, fint)
    ctx.run('tangent', 160, 2500, tangent)
    ctx.run('assembly', 24, 300, assembly)
