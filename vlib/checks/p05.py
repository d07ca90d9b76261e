META = dict(
    shards=(6, 8), budget=(120, 2400),
    rule='random panels, ply densities, offsets, per-point thickness and density, partial domains; non-trivial when '
         'the matrix has non-zero entries',
    require=('Shell.calc_kM', 'kM analytic', 'kM numeric', 'rigid body mass'),
    assumptions=['one density per point, the thickness-weighted average of the plies (as documented for rho_nxny), '
                 'laminate shifted by the offset'],
)
# --- end of META
import numpy as np

from .. import gen, ref
from ..monitors import Monitors


def run(ctx):
    Monitors(ctx, 'kM')

    def one(case):
        rng = case.rng
        cfg = gen.config(rng, 1, 9, big=30)
        case.note(**gen.brief(cfg))
        s = gen.shell(cfg)
        P = ref.Panel.of(s)
        hom = cfg['m'] <= 9 and cfg['n'] <= 9
        style = rng.choice(['plain', 'plain', 'h', 'rho', 'h+rho', 'partial', 'partial-h', 'block']) if hom else 'plain'
        kw = {}
        nx, ny = max(s.nx, s.m), max(s.ny, s.n)
        if rng.random() < 0.3 and hom:
            nx, ny = kw['nx'], kw['ny'] = int(rng.integers(1, 20)), int(rng.integers(1, 20))
        if style in ('h', 'h+rho', 'partial-h'):
            kw['h_nxny'] = P.lam.h*rng.uniform(0.3, 3., (nx, ny))
        if style in ('rho', 'h+rho'):
            kw['rho_nxny'] = rng.uniform(500, 8000, (nx, ny))
        if style.startswith('partial'):
            gen.partial(rng, s)
        if style == 'block':
            pad = int(rng.integers(0, 5))
            kw['row0'] = kw['col0'] = pad
            kw['size'] = P.size + pad + int(rng.integers(0, 4))
        if rng.random() < 0.2:
            kw['finalize'] = False
        case.note(style=style, dom=(s.x1, s.x2, s.y1, s.y2),
                  kw={k: (v if not isinstance(v, np.ndarray) else v.shape) for k, v in kw.items()})
        K = s.calc_kM(**kw)
        if abs(K).max() > 0:
            case.seen(s.model, s.m, s.n, ''.join(str(int(cfg[f])) for f in ref.FLAGS), style)

    def rigid(case):
        """Completely free panel: a unit rigid translation carries the mass."""
        rng = case.rng
        cfg = gen.config(rng, 4, 9, style='free')
        case.note(**gen.brief(cfg))
        s = gen.shell(cfg)
        P = ref.Panel.of(s)
        K = ref.dense(s.calc_kM())
        x, y = rng.uniform(0, P.a, 5*P.m*P.n), rng.uniform(0, P.b, 5*P.m*P.n)
        mass = sum(r*t for r, t in zip(cfg.get('rhos') or [cfg['rho']]*len(cfg['stack']),
                                       cfg.get('plyts') or [cfg['plyt']]*len(cfg['stack'])))*P.a*P.b
        # unit translation: f0 + f2 = 1 in each direction
        c = np.zeros(P.size)
        q = np.zeros(P.size)
        d = 'uvw'[int(rng.integers(0, 3))]
        k = 'uvw'.index(d)
        for j in (0, 2):
            for i in (0, 2):
                q[3*(j*P.m + i) + k] = 1.
        case.near(abs(P.N(d, 0.3*P.a, 0.6*P.b)[0].dot(q) - 1.), 1e-12, 'reference translation')
        case.near(abs(q.dot(K).dot(q) - mass)/mass, 1e-10, 'rigid translation does not carry the mass of the panel')
        ctx.count('rigid body mass')
        case.seen('rigid', d, s.model, s.m, s.n)
    ctx.run('kM', 1600, 12000, one)
    ctx.run('rigid', 120, 1000, rigid)
