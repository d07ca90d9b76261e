META = dict(
    shards=(6, 8), budget=(120, 1800),
    rule='random panels, flow direction, pressure coefficients given or derived from Mach number, velocity and air '
         'density, partial domains; non-trivial when the matrix is not zero',
    require=('Shell.calc_kA', 'exact', 'known', 'from flow conditions', 'cA', 'invalid flow rejected'),
    assumptions=['pressure p = -beta w,s + gamma w; kA = int w_A (beta w_B,s - gamma w_B); the '
                 'curvature coefficient gamma enters for axial flow only',
                 'damping matrix convention -i mu int w_A w_B'],
)
# --- end of META
import numpy as np

from .. import gen, ref
from ..monitors import Monitors, judge_aero, num_tol, AN_TOL


def run(ctx):
    import vlib.monitors as M
    orig = M.judge_aero

    def counted(*a, **k):
        r = orig(*a, **k)
        ctx.count(r)
        return r
    M.judge_aero = counted
    Monitors(ctx, 'kA')

    def flowcond(rng, s):
        if rng.random() < 0.5:
            s.Mach = float(rng.choice([1., 1.2, 2., rng.uniform(1.01, 5)]))
            s.V = float(rng.uniform(100, 1500)); s.rho_air = float(rng.uniform(0.1, 1.3))
            ctx.count('from flow conditions')
            s.beta = s.gamma = None
            return 'derived'
        # no pressure at all is a value like any other, and a given coefficient
        # prevails over the flow conditions
        s.beta = float(10**rng.uniform(0, 6)) if rng.random() < 0.9 else 0.
        if rng.random() < 0.3:
            s.Mach, s.V, s.rho_air = float(rng.uniform(1.1, 5)), float(rng.uniform(100, 1500)), float(rng.uniform(0.1, 1.3))
        s.gamma = None if rng.random() < 0.5 else float(10**rng.uniform(0, 6)*rng.choice([0., 1.]))
        return 'given'

    def one(case):
        rng = case.rng
        cfg = gen.config(rng, 1, 9, big=30)
        s = gen.shell(cfg)
        s.flow = str(rng.choice(['x', 'y', 'X', 'Y']))
        if rng.random() < 0.6:
            for e in ('x1w', 'x2w') if s.flow.lower() == 'x' else ('y1w', 'y2w'):
                setattr(s, e, 0.)
        how = flowcond(rng, s)
        style = str(rng.choice(['plain', 'plain', 'block', 'partial', 'quad']))
        kw = {}
        if style == 'block':
            kw['row0'] = kw['col0'] = int(rng.integers(0, 6))
            kw['size'] = 3*s.m*s.n + kw['row0'] + int(rng.integers(0, 4))
        if style == 'partial':
            gen.partial(rng, s)
        if style == 'quad':
            s.nx, s.ny = int(rng.integers(1, 30)), int(rng.integers(1, 30))
        if rng.random() < 0.2:
            kw['finalize'] = False
        case.note(style=style, flow=s.flow, beta=s.beta, gamma=s.gamma, Mach=s.Mach, kw=kw, **gen.brief(cfg))
        K = s.calc_kA(**kw)
        if style == 'plain' and how == 'derived':
            # other flow conditions on the same object
            K1 = ref.dense(K)
            f = float(rng.uniform(0.5, 2.))
            s.V *= f
            K2 = ref.dense(s.calc_kA(**kw))
            case.near(ref.relerr(K2, K1*f*f, floor=1e-3*s.rho_air*s.V**2*max(s.a, s.b)), 1e-11, 'kA does not scale with the dynamic pressure')
        if abs(K).max() > 0:
            case.seen(s.model, s.m, s.n, s.flow, style, how)

    def damping(case):
        rng = case.rng
        cfg = gen.config(rng, 1, 10, big=30)
        s = gen.shell(cfg)
        mu = float(rng.uniform(-1e3, 1e4))
        case.note(mu=mu, **gen.brief(cfg))
        C = ref.dense(s.calc_cA(mu))
        P = ref.Panel.of(s)
        R = -1j*mu*P.wmass()
        case.ok(C.shape == R.shape, 'shape')
        case.ok(np.abs(C.real).max() == 0., 'cA is not imaginary')
        case.near(ref.scaled_err(C.imag, R.imag, mu*P.wmass()), AN_TOL, 'cA is not the damping of w', m=P.m, n=P.n)
        ctx.count('cA')
        if np.abs(R).max() > 0:
            case.seen('cA', s.model, s.m, s.n)

    def invalid(case):
        rng = case.rng
        s = gen.shell(gen.config(rng, 2, 4))
        s.V, s.rho_air = 500., 1.
        what = case.idx % 3
        if what == 0:
            s.Mach = float(rng.uniform(0, 0.999))
        elif what == 1:
            s.Mach = None
        else:
            s.Mach, s.flow = 2., 'z'
        try:
            s.calc_kA()
        except ValueError:
            ctx.count('invalid flow rejected')
            case.seen('invalid', what)
            return
        case.ok(False, 'flow conditions outside of piston theory are silently accepted', what=what)
    ctx.run('kA', 800, 7000, one)
    ctx.run('cA', 240, 2000, damping)
    ctx.run('invalid', 12, 60, invalid)
