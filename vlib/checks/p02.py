META = dict(
    shards=(8, 8), budget=(150, 1800),
    rule='every pair of terms (30 x 30) of every family of integrals, all edge flags on, plus every on/off '
         'combination of the flags of the pairs with edge terms; every quadrature rule 1..64',
    require=('int ff', 'int ffp', 'int ffpp', 'int fpfp', 'int fpfpp', 'int fppfpp', 'quadrature rule',
             'rejected quadrature rule'),
    assumptions=['integrals are judged against exact rational arithmetic'],
)
# --- end of META
import itertools

import numpy as np

from .. import exact

FAM = [('ff', 0, 0), ('ffp', 0, 1), ('ffpp', 0, 2), ('fpfp', 1, 1), ('fpfpp', 1, 2), ('fppfpp', 2, 2)]
NT = 30


def run(ctx):
    from panels import bardell
    from panels import legendre_gauss_quadrature as lgq

    def pair(case):
        """One row of one family: term i against every j."""
        fam = FAM[case.idx // NT]
        name, di, dj = fam
        i = case.idx % NT
        rng = case.rng
        fun = getattr(bardell, 'calc_integral_' + name)
        case.note(family=name, i=i)
        for j in range(NT):
            R = exact.integral(i, di, j, dj)
            size = float(exact.integral(i, di, i, di)*exact.integral(j, dj, j, dj))**0.5
            combos = [[1.]*8]
            if i < 4 or j < 4:
                combos += [[float(v) for v in fl] for fl in itertools.product((0, 1), repeat=8)]
                combos += [[float(v) for v in rng.uniform(0, 1, 8)] for _ in range(2)]
            else:
                # interior terms ignore the flags
                combos.append([float(v) for v in rng.integers(0, 2, 8)])
            for fl in combos:
                g = (fl[i] if i < 4 else 1.)*(fl[4 + j] if j < 4 else 1.)
                got = fun(i, j, *fl)
                case.near(abs(got - float(R)*g)/size, 1e-13, 'closed-form integral int %s' % name, i=i, j=j, flags=fl)
                if R == 0 or g == 0:
                    case.ok(abs(got) <= 1e-14*size, 'integral that vanishes is not zero', i=i, j=j)
                ctx.count('int ' + name)
            if R != 0:
                case.seen(name, i, j)

    def rule(case):
        n = case.idx + 1
        case.note(n=n)
        p, w = np.zeros(n), np.zeros(n)
        lgq.get_points_weights(n, p, w)
        P, W = np.polynomial.legendre.leggauss(n)
        k = np.argsort(p)
        case.near(np.abs(p[k] - P).max(), 2e-15*4, 'quadrature points', n=n)
        case.near((np.abs(w[k] - W)/W).max(), 1e-11, 'quadrature weights', n=n)
        case.near(abs(w.sum() - 2.), 1e-13, 'sum of the weights')
        for q in range(0, 2*n):
            ex = 2./(q + 1) if q % 2 == 0 else 0.
            case.near(abs((w*p**q).sum() - ex), 1e-13, 'quadrature rule does not integrate a power exactly', n=n, power=q)
        case.ok(np.all(np.abs(p) < 1.) and np.all(w > 0), 'points inside, weights positive')
        ctx.count('quadrature rule')
        case.seen('rule', n)

    def bad(case):
        n = [0, -1, 65, 100, 1000][case.idx]
        p, w = np.zeros(max(n, 1)), np.zeros(max(n, 1))
        try:
            lgq.get_points_weights(n, p, w)
        except Exception:
            ctx.count('rejected quadrature rule')
            case.seen('bad', n)
            return
        case.ok(False, 'a rule that does not exist is silently accepted: n=%d gives sum of weights %g' % (n, w.sum()))
    ctx.run('integrals', 6*NT, 6*NT, pair)
    ctx.run('rules', 64, 64, rule)
    ctx.run('bad', 5, 5, bad)
