META = dict(
    shards=(6, 8), budget=(140, 1800),
    rule='random assemblies of 1 to 6 panels (flat and curved, different numbers of terms, laminates, loads), connected at random; '
         'every assembly matrix and vector against the separately evaluated panels placed one after the other plus the connections; '
         'panels reordered; blocks at any position; non-trivial with two or more panels',
    require=('assembly kC', 'assembly kG', 'assembly kM', 'assembly kT', 'assembly fint', 'assembly fext', 'reordered',
             'single block', 'refused',
             'fields of the panels', 'state: some panels at rest', 'state: one panel moves', 'state: rest'),
    assumptions=['position of a panel: sum of 3 m n of the panels listed before it'],
)
# --- end of META
import copy

import numpy as np

from .. import gen, ref
from ..ref import dense, full_from_upper
from .p07 import add_random_loads


def assembly(rng, k):
    cfgs, ss = [], []
    a, b = float(10**rng.uniform(-0.5, 0.5)), float(10**rng.uniform(-0.5, 0.5))
    for _ in range(k):
        cfg = gen.config(rng, 1, 6)
        cfg['a'], cfg['b'] = a, b
        if 'r' in cfg:
            cfg['r'] = float(b*10**rng.uniform(-0.3, 1))
        cfgs.append(cfg)
        s = gen.shell(cfg)
        s.group = str(rng.choice(['skin', 'base']))
        s.Nxx, s.Nyy, s.Nxy = (float(v) for v in rng.standard_normal(3)*1e3)
        if rng.random() < 0.4:
            s.Nxx_cte, s.Nyy_cte = (float(v) for v in rng.standard_normal(2)*1e2)
        list(add_random_loads(rng, s, []))
        ss.append(s)
    conn = []
    for _ in range(int(rng.integers(1, 4))):
        i, j = (int(v) for v in rng.choice(k, 2, replace=False)) if k > 1 else (0, 0)
        if i == j:
            continue
        f = str(rng.choice(['SSycte', 'SSxcte', 'BFycte', 'BFxcte', 'SB']))
        d = dict(p1=ss[i], p2=ss[j], func=f)
        if f.endswith('ycte'):
            d.update(ycte1=float(rng.choice([0, b])), ycte2=float(rng.choice([0, b, b/3])))
        elif f.endswith('xcte'):
            d.update(xcte1=float(rng.choice([0, a])), xcte2=float(rng.choice([0, a, a/3])))
        conn.append(d)
    return cfgs, ss, conn


def quiet(f, *a, **k):
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def pick(rng, what):
    """keyword arguments of the assembly call, and of the call of one panel"""
    if what == 'kC':
        return dict(), dict()
    return {}, {}


def run(ctx):
    from panels.multidomain import MultiDomain

    def sizes(ss):
        n = [3*s.m*s.n for s in ss]
        return np.concatenate(([0], np.cumsum(n))).astype(int)

    def whole(case):
        rng = case.rng
        k = int(rng.integers(2, 7)) if case.idx % 6 else 2
        cfgs, ss, conn = assembly(rng, k)
        if not conn:
            conn = [dict(p1=ss[0], p2=ss[1], func='SSycte', ycte1=0., ycte2=ss[1].b)]
        alone = [copy.deepcopy(s) for s in ss]
        o = sizes(ss)
        N = int(o[-1])
        md = MultiDomain(ss, conn)
        case.note(k=k, terms=[(s.m, s.n) for s in ss], conn=[(d['func'], ss.index(d['p1']), ss.index(d['p2'])) for d in conn])
        case.ok(md.get_size() == N, 'size of the assembly')
        c = np.concatenate([gen.ritz(rng, ref.Panel.of(s)) for s in ss])
        shape = str(rng.choice(['full', 'full', 'some panels at rest', 'one panel moves', 'one term', 'rest']))
        if shape == 'some panels at rest':
            for i in range(k):
                if rng.random() < 0.5:
                    c[o[i]:o[i + 1]] = 0
        elif shape == 'one panel moves':
            i = int(rng.integers(0, k))
            c[:o[i]] = 0; c[o[i + 1]:] = 0
        elif shape == 'one term':
            i = int(rng.integers(0, N)); v = c[i]; c[:] = 0; c[i] = v
        elif shape == 'rest':
            c[:] = 0
        ctx.count('state: ' + shape)
        cl = [c[o[i]:o[i + 1]].copy() for i in range(k)]
        cin = c.copy()
        case.ok(all(tuple(int(v) for v in (s.row_start, s.row_end, s.col_start, s.col_end)) == (o[i], o[i + 1], o[i], o[i + 1])
                    for i, s in enumerate(ss)), 'place of each panel in the assembly')
        links = dense(quiet(md.get_kC_conn))
        case.ok(np.array_equal(links, links.T), 'connection matrix is symmetric')
        inc = float(rng.choice([0., 1., rng.uniform(-2, 2)]))
        lin = {i: dense(s.calc_kC()) for i, s in enumerate(alone)}
        order = list(rng.permutation(['kC', 'kCc', 'kG', 'kGc', 'kM', 'kT', 'fint', 'fext']))
        for what in order:
            if what == 'kC':
                K = dense(quiet(md.calc_kC, silent=True)); parts = [lin[i] for i in range(k)]
            elif what == 'kCc':
                K = dense(quiet(md.calc_kC, c=c, silent=True)); parts = [dense(s.calc_kC(c=v)) for s, v in zip(alone, cl)]
            elif what == 'kG':
                K = dense(md.calc_kG(silent=True)); parts = [dense(s.calc_kG()) for s in alone]
            elif what == 'kGc':
                K = dense(md.calc_kG(c=c, silent=True)); parts = [dense(s.calc_kG(c=v)) for s, v in zip(alone, cl)]
            elif what == 'kM':
                K = dense(md.calc_kM(silent=True)); parts = [dense(s.calc_kM()) for s in alone]
            elif what == 'kT':
                K = dense(quiet(md.calc_kT, c=c, silent=True)); parts = [dense(s.calc_kT(c=v)) for s, v in zip(alone, cl)]
            elif what == 'fint':
                K = np.asarray(quiet(md.calc_fint, c, silent=True)); parts = [np.asarray(s.calc_fint(v)) for s, v in zip(alone, cl)]
            else:
                K = np.asarray(md.calc_fext(inc=inc, silent=True)); parts = [np.asarray(s.calc_fext(inc=inc)) for s in alone]
            R = np.zeros(K.shape)
            case.ok(K.shape == ((N,) if what[0] == 'f' else (N, N)), 'shape of %s' % what)
            for i, part in enumerate(parts):
                if what[0] == 'f':
                    R[o[i]:o[i + 1]] = part
                else:
                    R[o[i]:o[i + 1], o[i]:o[i + 1]] = part
            S = np.abs(R)
            if what in ('kC', 'kCc', 'kT'):
                R = R + links; S = S + np.abs(links)
            elif what == 'fint':
                R = R + links.dot(c); S = S + np.abs(links).dot(np.abs(c))
            # each entry is a short sum: rounding relative to its terms
            err = float((np.abs(K - R)/(S + 1e-15*S.max() + 1e-300)).max())
            case.near(err, 1e-10, 'assembly %s is not the panels in sequence plus the connections' % what.rstrip('c'))
            ctx.count('assembly ' + (what.rstrip('c') if what != 'kCc' else 'kC'))
        case.ok(np.array_equal(c, cin), 'the displacement vector was changed')
        # fields of every panel come from its own part of the state
        groups = {}
        for i, s in enumerate(ss):
            groups.setdefault(s.group, []).append(i)
        for g, idx in groups.items():
            gx, gy = int(rng.integers(1, 6)), int(rng.integers(1, 6))
            for f, keys in (('uvw', ('u', 'v', 'w', 'phix', 'phiy')), ('stress', ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'))):
                res = getattr(md, f)(c, g, gridx=gx, gridy=gy)
                for q in keys:
                    case.ok(len(res[q]) == len(idx), 'number of fields of the group')
                for pos, i in enumerate(idx):
                    al = copy.deepcopy(ss[i])
                    al._rebuild()
                    own = getattr(al, f)(cl[i], gridx=gx, gridy=gy)[1]
                    for q in keys:
                        A, B = np.asarray(res[q][pos]).ravel(), np.asarray(own[q]).ravel()
                        case.near(np.abs(A - B).max()/(np.abs(B).max() + 1e-300), 1e-12,
                                  'the field of a panel of the assembly is not that of its own part of the state (%s)' % q)
        ctx.count('fields of the panels')
        case.seen('whole', k, tuple((s.m, s.n) for s in ss))

    def reorder(case):
        rng = case.rng
        k = int(rng.integers(2, 5))
        cfgs, ss, conn = assembly(rng, k)
        conn = [d for d in conn if d['func'].startswith('SS')] or [dict(p1=ss[0], p2=ss[1], func='SSycte', ycte1=0., ycte2=ss[1].b)]
        case.note(terms=[(s.m, s.n) for s in ss])
        o = sizes(ss)
        c = np.concatenate([gen.ritz(rng, ref.Panel.of(s)) for s in ss])

        def calc(panels, cc):
            links = [dict(d) for d in conn]
            md = MultiDomain(panels, links)
            return [dense(quiet(md.calc_kC, silent=True)), dense(md.calc_kG(c=cc, silent=True)), dense(md.calc_kM(silent=True)),
                    np.asarray(quiet(md.calc_fint, cc, silent=True)), np.asarray(md.calc_fext(inc=0.7, silent=True))]
        first = calc(ss, c)
        perm = [int(v) for v in rng.permutation(k)]
        idx = np.concatenate([np.arange(o[i], o[i + 1]) for i in perm])
        second = calc([ss[i] for i in perm], c[idx])
        for A, B in zip(first, second):
            A = A[np.ix_(idx, idx)] if A.ndim == 2 else A[idx]
            sc = np.abs(A).max() + 1e-300
            case.near(np.abs(A - B).max()/sc, 1e-9, 'the order of the panels changes the model')
        ctx.count('reordered')
        case.seen('reorder', tuple(perm), tuple((s.m, s.n) for s in ss))

    def single(case):
        """One panel placed anywhere in a larger problem."""
        rng = case.rng
        cfg = gen.config(rng, 1, 7)
        s = gen.shell(cfg)
        list(add_random_loads(rng, s, []))
        s.Nxx, s.Nyy, s.Nxy = (float(v) for v in rng.standard_normal(3)*1e3)
        s.flow, s.beta = str(rng.choice(['x', 'y'])), 2.3
        P = ref.Panel.of(s)
        n = P.size
        p = int(rng.integers(0, 20)); N = n + p + int(rng.integers(0, 20))
        c = np.zeros(N); c[p:p + n] = gen.ritz(rng, P)
        other = rng.standard_normal(N); other[p:p + n] = c[p:p + n]
        case.note(p=p, N=N, **gen.brief(cfg))
        al = copy.deepcopy(s)
        what = ('kC', 'kCc', 'kG', 'kGc', 'kM', 'kT', 'fint', 'fext', 'kA')[case.idx % 9]
        cl = c[p:p + n].copy()
        at = dict(size=N, row0=p, col0=p)
        if rng.random() < 0.25 and what not in ('fint', 'fext', 'kA'):
            # size as an increment of the size of the panel
            at['size'] = '+%d' % (N - n)
        call = {'kC': (lambda: s.calc_kC(**at), lambda: al.calc_kC()),
                'kCc': (lambda: s.calc_kC(c=other, NLgeom=True, **at), lambda: al.calc_kC(c=cl, NLgeom=True)),
                'kG': (lambda: s.calc_kG(**at), lambda: al.calc_kG()),
                'kGc': (lambda: s.calc_kG(c=other, **at), lambda: al.calc_kG(c=cl)),
                'kM': (lambda: s.calc_kM(**at), lambda: al.calc_kM()),
                'kT': (lambda: s.calc_kT(c=other, **at), lambda: al.calc_kT(c=cl)),
                'kA': (lambda: s.calc_kA(**at), lambda: al.calc_kA()),
                'fint': (lambda: s.calc_fint(other, size=N, col0=p), lambda: al.calc_fint(cl)),
                'fext': (lambda: s.calc_fext(inc=0.3, size=N, col0=p), lambda: al.calc_fext(inc=0.3))}[what]
        K, R = call[0](), call[1]()
        K, R = (np.asarray(K), np.asarray(R)) if what[0] == 'f' else (dense(K), dense(R))
        big = np.zeros((N,)*R.ndim)
        big[(slice(p, p + n),)*R.ndim] = R
        case.ok(K.shape == big.shape, 'shape')
        case.near(np.abs(K - big).max()/(np.abs(R).max() + 1e-300), 1e-13, 'block of the panel at another position (%s)' % what)
        out = K.copy(); out[(slice(p, p + n),)*R.ndim] = 0
        case.ok(not out.any(), 'something outside of the block of the panel (%s)' % what)
        ctx.count('single block')
        case.seen('single', what, p > 0, N > p + n, P.m, P.n)

    def refuse(case):
        rng = case.rng
        s = gen.shell(gen.config(rng, 2, 4))
        n = 3*s.m*s.n
        c = np.zeros(n)
        calls = [lambda k: s.calc_kC(**k), lambda k: s.calc_kG(**k), lambda k: s.calc_kM(**k), lambda k: s.calc_kA(**k)]
        s.beta = 1.
        for f in calls:
            for k in (dict(size=n, row0=1, col0=1), dict(size=n - 1), dict(size=n + 4, row0=5, col0=5), dict(size=n + 4, row0=-1, col0=-1)):
                if f is calls[3] and k.get('row0') == -1:
                    continue        # only the w terms are written, and they fit
                try:
                    f(k)
                except ValueError:
                    ctx.count('refused')
                else:
                    case.ok(False, 'a block that does not fit was accepted', k=k)
        for cc in (np.zeros(n + 1), np.zeros(n - 1), np.zeros((n, 1))):
            for f in (lambda: s.calc_kC(c=cc), lambda: s.calc_kG(c=cc), lambda: s.calc_fint(cc)):
                try:
                    f()
                except (ValueError, TypeError):
                    ctx.count('refused')
                else:
                    case.ok(False, 'a displacement vector of another size was accepted')
        case.seen('refuse', s.m, s.n)
    ctx.run('whole', 120, 900, whole)
    ctx.run('reorder', 60, 500, reorder)
    ctx.run('single', 360, 4000, single)
    ctx.run('refuse', 6, 40, refuse)
