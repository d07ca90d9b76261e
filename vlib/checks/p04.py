META = dict(
    shards=(6, 8), budget=(120, 2400),
    rule='random panels and stress states (uniform, from Ritz constants, per-point laminates, partial domains, any '
         'quadrature order); non-trivial when the matrix has non-zero entries',
    require=('Shell.calc_kG', 'kG analytic', 'kG numeric'),
    assumptions=['reference: classical lamination theory and Donnell strains assembled with Gauss rules in numpy'],
)
# --- end of META
import numpy as np

from .. import gen, ref
from ..monitors import Monitors


def run(ctx):
    Monitors(ctx, 'kG')

    def one(case):
        rng = case.rng
        cfg = gen.config(rng, 1, 9, big=30)
        case.note(**gen.brief(cfg))
        s = gen.shell(cfg)
        P = ref.Panel.of(s)
        hom = cfg['m'] <= 9 and cfg['n'] <= 9
        style = rng.choice(['state', 'c', 'c+state', 'NL', 'abd', 'abdNL', 'partial', 'partial-c', 'quad', 'block'])
        if not hom:
            style = rng.choice(['state', 'c'])
        kw = {}
        if style not in ('state', 'partial'):
            kw['c'] = gen.ritz(rng, P)
        if 'NL' in style:
            kw['NLgeom'] = True
        if style.startswith('abd'):
            kw['nx'], kw['ny'] = int(rng.integers(1, 14)), int(rng.integers(1, 14))
            kw['ABDnxny'] = gen.hetABD(rng, P, kw['nx'], kw['ny'])
        if style == 'quad':
            kw['nx'], kw['ny'] = int(rng.integers(1, 30)), int(rng.integers(1, 30))
            kw['NLgeom'] = bool(rng.integers(0, 2))
        if style in ('state', 'partial', 'c+state', 'block') or rng.random() < 0.2:
            st = 1e-3*P.ABD[0, 0]*rng.standard_normal(3)
            s.Nxx, s.Nyy, s.Nxy = [float(v)*float(rng.random() < 0.7) for v in st]
        if style.startswith('partial'):
            gen.partial(rng, s)
        if style == 'block':
            pad = int(rng.integers(0, 5))
            kw['row0'] = kw['col0'] = pad
            kw['size'] = P.size + pad + int(rng.integers(0, 4))
            c = rng.standard_normal(kw['size']); c[pad:pad + P.size] = kw['c']; kw['c'] = c
        if rng.random() < 0.2:
            kw['finalize'] = False
        # stresses of the constant state must not leak into kG
        if rng.random() < 0.2:
            s.Nxx_cte = float(1e-2*P.ABD[0, 0])
        case.note(style=style, N=(s.Nxx, s.Nyy, s.Nxy), dom=(s.x1, s.x2, s.y1, s.y2),
                  kw={k: (v if not isinstance(v, np.ndarray) else v.shape) for k, v in kw.items()})
        K = s.calc_kG(**kw)
        if abs(K).max() > 0:
            case.seen(s.model, s.m, s.n, ''.join(str(int(cfg[f])) for f in ref.FLAGS), style)
    ctx.run('kG', 700, 12000, one)
