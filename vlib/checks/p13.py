META = dict(
    shards=(6, 8), budget=(140, 1800),
    rule='random pairs of panels (terms, boundary flags, laminates, sizes), every kind of connection, random positions and penalty '
         'constants, either panel named first; assemblies with several connections; non-trivial when the matrix is not zero',
    require=('SSycte', 'SSxcte', 'BFycte', 'BFxcte', 'SB', 'assembly connections', 'named the other way round', 'repeated',
             'penalty constants', 'SB_TSL', 'refused'),
    assumptions=['penalty energies of the multi-domain formulation; the panel listed first in the assembly is the skin or base'],
)
# --- end of META
import numpy as np

from .. import gen, ref
from ..monitors import num_tol
from ..ref import dense, scaled_err
from .p12 import quiet

KINDS = ('SSycte', 'SSxcte', 'BFycte', 'BFxcte', 'SB')


def pair(rng, kind, k=2, hi=8, big=14):
    out = []
    a, b = float(10**rng.uniform(-0.6, 0.6)), float(10**rng.uniform(-0.6, 0.6))
    for _ in range(k):
        cfg = gen.config(rng, 1, hi, big=big)
        cfg['a'] = a if kind in ('SSycte', 'BFycte', 'SB', 'all') else float(a*10**rng.uniform(-0.5, 0.5))
        cfg['b'] = b if kind in ('SSxcte', 'BFxcte', 'SB', 'all') else float(b*10**rng.uniform(-0.5, 0.5))
        if 'r' in cfg:
            cfg['r'] = float(cfg['b']*10**rng.uniform(-0.3, 1))
        out.append(cfg)
    return out


def where(rng, L):
    return float(rng.choice([0., L, rng.uniform(0, L)]))


def run(ctx):
    from panels.multidomain import MultiDomain, connections as cn
    MOD = {'SSycte': cn.kCSSycte, 'SSxcte': cn.kCSSxcte, 'BFycte': cn.kCBFycte, 'BFxcte': cn.kCBFxcte, 'SB': cn.kCSB}

    def blocks(case):
        rng = case.rng
        kind = KINDS[case.idx % 5]
        cfgs = pair(rng, kind)
        sA, sB = (gen.shell(c) for c in cfgs)
        sA._rebuild(); sB._rebuild()
        A, B = ref.Panel.of(sA), ref.Panel.of(sB)
        kt, kr = float(10**rng.uniform(2, 9)), float(10**rng.uniform(0, 7))
        dsb = float(rng.uniform(1e-3, 0.1))
        LA, LB = (A.b, B.b) if kind.endswith('ycte') else (A.a, B.a)
        p1, p2 = where(rng, LA), where(rng, LB)
        pad = [int(v) for v in rng.integers(0, 6, 3)]
        rA = pad[0]; rB = rA + A.size + pad[1]; N = rB + B.size + pad[2]
        case.note(kind=kind, kt=kt, kr=kr, pos=(p1, p2), rows=(rA, rB, N), A=gen.brief(cfgs[0]), B=gen.brief(cfgs[1]))
        M, f = MOD[kind], 'fkC' + kind
        g = lambda n: getattr(M, f + n)
        if kind == 'SB':
            K = g('11')(kt, dsb, sA, N, rA, rA) + g('12')(kt, dsb, sA, sB, N, rA, rB) + g('22')(kt, sA, sB, N, rB, rB)
        else:
            K = (g('11')(kt, kr, sA, p1, N, rA, rA) + g('12')(kt, kr, sA, sB, p1, p2, N, rA, rB)
                 + g('22')(kt, kr, sA, sB, p2, N, rB, rB))
        case.ok(K.shape == (N, N), 'shape of the connection matrix')
        K = ref.full_from_upper(K)
        R, S = ref.connection(kind, A, B, kt, kr, p1, p2, dsb)
        idx = np.concatenate((np.arange(rA, rA + A.size), np.arange(rB, rB + B.size)))
        got = K[np.ix_(idx, idx)]
        K[np.ix_(idx, idx)] = 0.
        case.ok(not K.any(), 'terms outside of the blocks of the two panels')
        case.near(scaled_err(got, R, S), num_tol(A.m, A.n, B.m, B.n), 'connection matrix is not the energy of the gap (%s)' % kind)
        ctx.count(kind)
        if np.abs(R).max() > 0:
            case.seen(kind, A.m, A.n, B.m, B.n, ''.join(str(int(cfgs[0][k])) for k in ref.FLAGS))

    def assembly(case):
        rng = case.rng
        k = int(rng.integers(2, 5))
        cfgs = pair(rng, 'all', k, hi=5, big=None)
        ss = [gen.shell(c) for c in cfgs]
        Ps = [ref.Panel.of(s) for s in ss]
        a, b = Ps[0].a, Ps[0].b
        conn, desc = [], []
        for _ in range(int(rng.integers(1, 5))):
            i, j = (int(v) for v in rng.choice(k, 2, replace=False))
            kind = str(rng.choice(KINDS + ('SB_TSL',)))
            L = b if kind.endswith('ycte') else a
            q1, q2 = where(rng, L), where(rng, L)
            d = dict(p1=ss[i], p2=ss[j], func=kind)
            if kind.endswith('ycte'):
                d.update(ycte1=q1, ycte2=q2)
            elif kind.endswith('xcte'):
                d.update(xcte1=q1, xcte2=q2)
            elif kind == 'SB_TSL':
                d['tsl_type'] = 'linear'
            conn.append(d); desc.append((kind, i, j, q1, q2))
        case.note(conn=desc, terms=[(P.m, P.n) for P in Ps])
        o = np.concatenate(([0], np.cumsum([P.size for P in Ps]))).astype(int)
        N = int(o[-1])
        R, S = np.zeros((N, N)), np.zeros((N, N))
        for kind, i, j, q1, q2 in desc:
            A, B, pa, pb = (i, j, q1, q2) if i < j else (j, i, q2, q1)
            lA, lB = Ps[A].lam, Ps[B].lam
            dsb = lA.h/2 + lB.h/2
            if kind == 'SB_TSL':
                kt, kr = 1e4/(a*b), None
                ctx.count('SB_TSL')
            else:
                kt, kr = ref.kt_kr({'SB': 'bot-top'}.get(kind, kind[2:]), lA, lB, min(a, b))
            k_, s_ = ref.connection('SB' if kind == 'SB_TSL' else kind, Ps[A], Ps[B], kt, kr, pa, pb, dsb)
            idx = np.concatenate((np.arange(o[A], o[A + 1]), np.arange(o[B], o[B + 1])))
            R[np.ix_(idx, idx)] += k_; S[np.ix_(idx, idx)] += s_
        tol = max(num_tol(*(v for P in Ps for v in (P.m, P.n))), 1e-9)
        md = MultiDomain(ss, conn)
        before = [dict(d) for d in conn]
        K = dense(quiet(md.get_kC_conn))
        case.ok(np.array_equal(K, K.T), 'connection matrix is not symmetric')
        case.near(scaled_err(K, R, S), tol, 'connections of the assembly')
        ctx.count('assembly connections')
        case.ok(all(d.keys() == e.keys() and all(d[q] is e[q] for q in d) for d, e in zip(conn, before)),
                'the description of the connections was changed')
        # positive semi-definite: a connection never gives energy back
        dg = np.sqrt(np.abs(np.diag(K))); dg[dg == 0] = 1.
        w = np.linalg.eigvalsh(K/np.outer(dg, dg))
        case.ok(w.min() > -1e-8, 'a connection releases energy', wmin=w.min())
        # again, from the cache, from a new assembly and as an argument
        again = dense(quiet(md.get_kC_conn))
        case.ok(np.array_equal(K, again), 'connection matrix changed when asked again')
        fresh = dense(quiet(MultiDomain(ss, conn).get_kC_conn))
        case.ok(np.array_equal(K, fresh), 'connection matrix of a second assembly')
        given = dense(quiet(MultiDomain(ss).get_kC_conn, conn=conn))
        case.ok(np.array_equal(K, given), 'connections given as an argument')
        ctx.count('repeated')
        # each connection named the other way round
        other = []
        for d in conn:
            e = dict(d, p1=d['p2'], p2=d['p1'])
            for q in ('xcte', 'ycte'):
                if q + '1' in d:
                    e[q + '1'], e[q + '2'] = d[q + '2'], d[q + '1']
            other.append(e)
        K2 = dense(quiet(MultiDomain(ss, other).get_kC_conn))
        case.near(scaled_err(K2, K, S), 1e-12, 'naming the panels of a connection the other way round')
        ctx.count('named the other way round')
        # a subset of the connections as an argument does not stay
        sub = conn[:1]
        quiet(md.get_kC_conn, conn=sub)
        case.ok(np.array_equal(K, dense(quiet(md.get_kC_conn))), 'connections given once replaced those of the assembly')
        U = dense(quiet(MultiDomain(ss, conn).get_kC_conn, finalize=False))
        case.near(scaled_err(ref.full_from_upper(U), K, S), 1e-12, 'upper triangle of the connection matrix')
        case.seen('assembly', tuple(desc and [d[0] for d in desc]), k)

    def constants(case):
        rng = case.rng
        cfgs = pair(rng, 'all', 2, hi=4, big=None)
        ss = [gen.shell(c) for c in cfgs]
        if rng.random() < 0.5:
            for s in ss:
                s._rebuild()
        Ps = [ref.Panel.of(s) for s in ss]
        for kind in ('xcte', 'ycte', 'bot-top', 'xcte-ycte', 'ycte-xcte'):
            got = cn.calc_kt_kr(ss[0], ss[1], kind)
            ex = ref.kt_kr(kind, Ps[0].lam, Ps[1].lam, min(Ps[0].a, Ps[0].b))
            for g, e in zip(got, ex):
                if e is None:
                    case.ok(g is None, 'rotation penalty of %s' % kind)
                else:
                    case.near(abs(g - e)/e, 1e-10, 'penalty constants')
            case.ok(got[0] > 0, 'translation penalty is not positive')
        case.near(abs(cn.calc_kw_tsl(ss[0], ss[1], 'linear')*Ps[0].a*Ps[0].b/1e4 - 1), 1e-12, 'constant of the interface law')
        ctx.count('penalty constants')
        bad = [lambda: quiet(MultiDomain(ss, [dict(p1=ss[0], p2=ss[1], func='nope')]).get_kC_conn),
               lambda: MultiDomain(ss).get_kC_conn()]
        ss[1].a *= 2
        bad.append(lambda: cn.calc_kw_tsl(ss[0], ss[1], 'linear'))
        for f in bad:
            try:
                f()
            except (ValueError, RuntimeError):
                ctx.count('refused')
            else:
                case.ok(False, 'an undefined connection was accepted')
        case.seen('constants', case.idx)
    ctx.run('blocks', 1200, 8000, blocks)
    ctx.run('assembly', 180, 900, assembly)
    ctx.run('constants', 180, 600, constants)
