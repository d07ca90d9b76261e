META = dict(
    shards=(6, 8), budget=(120, 2400),
    rule='random panels (plate/cylindrical, 24 boundary flags, laminates, offsets, sizes) and call styles; '
         'non-trivial when the matrix has non-zero entries; distinct by model, terms, boundary flags, call style',
    require=('Shell.calc_kC', 'kC analytic', 'kC numeric'),
    assumptions=['reference: classical lamination theory and Donnell strains assembled with Gauss rules in numpy'],
)
# --- end of META
import numpy as np

from .. import gen, ref
from ..monitors import Monitors


def run(ctx):
    Monitors(ctx, 'kC')

    def one(case):
        rng = case.rng
        cfg = gen.config(rng, 1, 9, big=30)
        case.note(**gen.brief(cfg))
        s = gen.shell(cfg)
        P = ref.Panel.of(s)
        hom = cfg['m'] <= 9 and cfg['n'] <= 9
        style = rng.choice(['linear', 'c', 'NL', 'abd', 'abdNL', 'cte', 'c_cte', 'partial', 'partialNL', 'quad', 'block'])
        if not hom:
            style = rng.choice(['linear', 'c', 'cte'])
        kw = {}
        if style in ('c', 'NL', 'partialNL', 'abdNL', 'block'):
            kw['c'] = gen.ritz(rng, P)
        if 'NL' in style:
            kw['NLgeom'] = True
        if style.startswith('abd'):
            kw['nx'], kw['ny'] = int(rng.integers(1, 14)), int(rng.integers(1, 14))
            kw['ABDnxny'] = gen.hetABD(rng, P, kw['nx'], kw['ny'])
        if style == 'quad':
            kw['nx'], kw['ny'] = int(rng.integers(1, 30)), int(rng.integers(1, 30))
            kw['c'] = gen.ritz(rng, P)
            kw['NLgeom'] = bool(rng.integers(0, 2))
        if style == 'cte' or rng.random() < 0.15:
            st = 1e-3*P.ABD[0, 0]*rng.standard_normal(3)
            s.Nxx_cte, s.Nyy_cte, s.Nxy_cte = [float(v)*float(rng.random() < 0.7) for v in st]
        if style == 'c_cte':
            kw['c_cte'] = gen.ritz(rng, P)
            kw['NLgeom'] = bool(rng.integers(0, 2))
        if style.startswith('partial'):
            gen.partial(rng, s)
        if style == 'block':
            pad = int(rng.integers(0, 5))
            kw['row0'] = kw['col0'] = pad
            kw['size'] = P.size + pad + int(rng.integers(0, 4))
            c = rng.standard_normal(kw['size']); c[pad:pad + P.size] = kw['c']; kw['c'] = c
        if rng.random() < 0.2:
            kw['finalize'] = False
        if rng.random() < 0.1 and style != 'block':
            kw['size'] = '+2'
            for q in ('c', 'c_cte'):
                if q in kw:
                    kw[q] = np.concatenate([kw[q], rng.standard_normal(2)])
        case.note(style=style, kw={k: (v if not isinstance(v, np.ndarray) else v.shape) for k, v in kw.items()},
                  dom=(s.x1, s.x2, s.y1, s.y2))
        K = s.calc_kC(**kw)
        if abs(K).max() > 0:
            case.seen(s.model, s.m, s.n, ''.join(str(int(cfg[f])) for f in ref.FLAGS), style)
    ctx.run('kC', 700, 12000, one)
