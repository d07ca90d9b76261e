META = dict(
    shards=(4, 8), budget=(120, 1800),
    rule='every term (30) x every combination of edge flags x sampled positions (edges, centre, outside rounding of '
         'the edges, random); non-trivial when the exact value is not zero',
    require=('scalar f', 'scalar fp', 'scalar fpp', 'vector f', 'vector fp', 'vector fpp', 'edge conditions'),
    assumptions=['tolerance: rounding of a double monomial sum with 15 digit coefficients'],
)
# --- end of META
import itertools

import numpy as np

from .. import exact

NT = 30


def run(ctx):
    from panels import bardell
    names = ('f', 'fp', 'fpp')
    C = [[np.array([float(c) for c in exact.poly(i, d)]) for i in range(NT)] for d in range(3)]
    flags = list(itertools.product((0., 1.), repeat=4))

    def expected(d, i, xi, fl):
        from fractions import Fraction as Fr
        X = Fr(xi)
        s = Fr(0)
        for c in reversed(exact.poly(i, d)):
            s = s*X + c
        g = fl[i] if i < 4 else 1.
        size = float(np.sum(np.abs(C[d][i])*np.abs(xi)**np.arange(C[d][i].size)))
        return float(s)*g, max(size, 1e-300)*abs(g if g else 0.) + 1e-300

    def one(case):
        rng = case.rng
        xi = [-1., 1., 0.][case.idx] if case.idx < 3 else float(rng.uniform(-1, 1))
        if case.idx >= 3 and rng.random() < 0.1:
            xi = float(np.nextafter(np.sign(xi), 0))
        fl = flags[int(rng.integers(0, 16))] if case.idx >= 6 else (1., 1., 1., 1.)
        if rng.random() < 0.1:
            fl = tuple(float(v) for v in rng.uniform(0, 1, 4))
        case.note(xi=xi, flags=fl)
        for d, name in enumerate(names):
            vec = getattr(bardell, 'calc_vec_' + name)(xi, *fl)
            sc = getattr(bardell, 'calc_' + name)
            case.ok(len(vec) == NT, 'number of terms')
            for i in range(NT):
                R, S = expected(d, i, xi, fl)
                case.near(abs(sc(i, xi, *fl) - R)/S, 2e-14, 'basis function, scalar %s' % name, term=i)
                case.near(abs(vec[i] - R)/S, 2e-14, 'basis function, vector %s' % name, term=i)
            ctx.count('scalar ' + name, NT)
            ctx.count('vector ' + name, NT)
        case.seen(round(xi, 6), fl)

    def edges(case):
        """What an edge flag means: with a flag off no term moves (rotates) at
        that edge, with it on exactly one term does, by one."""
        fl = flags[case.idx]
        case.note(flags=fl)
        for e, (xi, t, r) in enumerate(((-1., fl[0], fl[1]), (1., fl[2], fl[3]))):
            val = np.array([bardell.calc_f(i, xi, *fl) for i in range(NT)])
            slope = np.array([bardell.calc_fp(i, xi, *fl) for i in range(NT)])
            # rounding of 30 monomials at the edge
            bound = np.array([[2e-14*np.abs(C[d][i]).sum() for i in range(NT)] for d in range(2)])
            expv = np.zeros(NT); expv[2*e] = t
            exps = np.zeros(NT); exps[2*e + 1] = 0.5*r
            case.near(float((np.abs(val - expv)/bound[0]).max()), 1., 'edge displacement')
            case.near(float((np.abs(slope - exps)/bound[1]).max()), 1., 'edge rotation')
        ctx.count('edge conditions')
        case.seen('edges', fl)
    ctx.run('values', 2000, 40000, one)
    ctx.run('edges', 16, 16, edges)
