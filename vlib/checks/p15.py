META = dict(
    shards=(6, 8), budget=(140, 1800),
    rule='random histories: two objects (panels, assemblies or stiffened bays) used in turn, 6 to 16 evaluations and edits each; every '
         'result against that of a fresh object with the same edits, every argument, definition and earlier result against a copy; '
         'non-trivial with at least three evaluations; distinct by the sequence of steps',
    require=('panel histories', 'assembly histories', 'bay histories', 'evaluations after an edit', 'evaluations repeated',
             'arguments compared', 'earlier results compared', 'edit flags', 'edit geometry', 'edit loads', 'edit flow',
             'edit connectivity', 'edit limits', 'edit laminate'),
    assumptions=['the values of the plies given to a panel (thickness, material, density) and its number of terms are not redefined',
                 'attributes that cache derived values (model, plies, sizes) are not part of the definition'],
)
# --- end of META
import copy

import numpy as np

from .. import gen, ref
from .p07 import add_random_loads
from .p12 import quiet
from . import p14

KEYS = dict(uvw=('u', 'v', 'w', 'phix', 'phiy'), strain=('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy'),
            stress=('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'))
DEFS = list(ref.FLAGS) + ['a', 'b', 'm', 'n', 'Nxx', 'Nyy', 'Nxy', 'Nxx_cte', 'Nyy_cte', 'Nxy_cte', 'offset', 'stack', 'flow', 'beta',
                          'gamma', 'aeromu', 'rho_air', 'speed_sound', 'Mach', 'V', 'x1', 'x2', 'y1', 'y2', 'rho', 'plyt', 'laminaprop',
                          'force_orthotropic_laminate', 'point_loads', 'point_loads_inc', 'distr_loads', 'distr_loads_inc',
                          'point_pds', 'point_pds_inc', 'distr_pds', 'distr_pds_inc', 'out_num_cores', 'forces_skin', 'forces_flange',
                          'Fx', 'ys', 'bb', 'bf', 'name']


def arrays(r, out=None):
    """All the arrays of a result, in order."""
    out = [] if out is None else out
    if r is None:
        out.append(None)
    elif hasattr(r, 'todense'):
        out.append(r)
    elif isinstance(r, dict):
        for k in sorted(r):
            out.append(k)
            arrays(r[k], out)
    elif isinstance(r, (tuple, list)) and not (len(r) and np.isscalar(r[0])):
        for v in r:
            arrays(v, out)
    else:
        out.append(np.asarray(r))
    return out


def value(v):
    return ref.dense(v) if hasattr(v, 'todense') else v


def copies(out):
    return [value(v).copy() if hasattr(v, 'copy') else v for v in out]


def definition(objs):
    d = []
    bay = len(objs) and hasattr(objs[0], 'panels')
    for o in objs:
        for k in DEFS:
            # a bay hands its flow conditions on to its panels
            if hasattr(o, k) and not (bay and o is not objs[0] and k in ('flow', 'beta', 'gamma')):
                v = getattr(o, k)
                d.append((k, copy.deepcopy(v) if not callable(v) else v))
    return repr(d)


def ready(s):
    s._rebuild()


# ------------------------------------------------------------ edits of a panel
def edit_shell(rng, s0):
    """(name, function(shell)) of a random redefinition."""
    what = str(rng.choice(['flags', 'geometry', 'loads', 'flow', 'limits', 'laminate', 'stress state', 'quadrature']))
    if what == 'flags':
        new = {k: float(rng.integers(0, 2)) for k in rng.choice(ref.FLAGS, int(rng.integers(1, 9)), replace=False)}
    elif what == 'geometry':
        new = dict(a=s0.a*float(rng.uniform(0.6, 1.6)), b=s0.b*float(rng.uniform(0.6, 1.6)))
        if s0.r:
            new['r'] = s0.r*float(rng.uniform(0.7, 1.5))
        new.update(x1=-1, x2=1, y1=-1, y2=1)
    elif what == 'loads':
        seed = int(rng.integers(0, 2**31))
        return what, lambda s: list(add_random_loads(np.random.default_rng(seed), s, []))
    elif what == 'flow':
        if rng.random() < 0.7:
            new = dict(Mach=float(rng.uniform(1.05, 4)), V=float(rng.uniform(100, 1000)), rho_air=float(rng.uniform(0.2, 1.2)),
                       beta=None, gamma=None, flow=str(rng.choice(['x', 'y'])))
        else:
            new = dict(beta=float(10**rng.uniform(0, 5)), gamma=None if rng.random() < 0.5 else 10., flow=str(rng.choice(['x', 'y'])))
    elif what == 'limits':
        if rng.random() < 0.3:
            new = dict(x1=-1, x2=1, y1=-1, y2=1)
        else:
            u, v = np.sort(rng.uniform(0, 1, 2)), np.sort(rng.uniform(0, 1, 2))
            new = dict(x1=float(u[0]*s0.a), x2=float(u[1]*s0.a), y1=float(v[0]*s0.b), y2=float(v[1]*s0.b))
    elif what == 'laminate':
        n = len(s0.stack)
        new = [dict(stack=[float(v) for v in rng.uniform(-90, 90, n)]), dict(offset=float(rng.uniform(-1, 1)*2e-3)),
               dict(force_orthotropic_laminate=bool(rng.integers(0, 2)))][int(rng.integers(0, 3))]
    elif what == 'stress state':
        new = {k: float(rng.standard_normal()*1e3) for k in ('Nxx', 'Nyy', 'Nxy', 'Nxx_cte', 'Nyy_cte', 'Nxy_cte') if rng.random() < 0.4}
    else:
        new = dict(nx=int(rng.integers(8, 16)), ny=int(rng.integers(8, 16)))

    def apply(s):
        for k, v in new.items():
            setattr(s, k, list(v) if isinstance(v, list) else v)
        if what == 'laminate':
            ready(s)
    return what, apply


def shell_op(rng, s, pool):
    """(name, call(shell, args), args) of a random evaluation."""
    N = 3*s.m*s.n
    c = pool[N][int(rng.integers(0, len(pool[N])))]
    what = str(rng.choice(['kC', 'kG', 'kM', 'kT', 'kA', 'cA', 'fint', 'fext', 'uvw', 'strain', 'stress']))
    a = {}
    if what in ('uvw', 'strain', 'stress'):
        if rng.random() < 0.5:
            a.update(gridx=int(rng.integers(1, 9)), gridy=int(rng.integers(1, 9)))
        else:
            a.update(xs=rng.uniform(0, s.a, 7), ys=rng.uniform(0, s.b, 7))
        if what != 'uvw':
            a['NLgeom'] = bool(rng.integers(0, 2))
        if what == 'stress' and rng.random() < 0.3:
            a['ABD'] = pool['ABD']

        def call(o, a):
            ready(o)
            pm, f = getattr(o, what)(a['c'], **{k: v for k, v in a.items() if k != 'c'})
            return [pm['Xs'], pm['Ys']] + [f[k] for k in KEYS[what]]
        a['c'] = c
        return what, call, a
    if what == 'cA':
        a['aeromu'] = float(rng.uniform(1, 100))
        return what, lambda o, a: o.calc_cA(**a), a
    if what == 'fext':
        if rng.random() < 0.6:
            a['inc'] = float(rng.uniform(0, 2))
        if rng.random() < 0.3:
            a.update(size=N + 5, col0=3)
        return what, lambda o, a: o.calc_fext(**a), a
    if what == 'fint':
        a['c'] = c
        if rng.random() < 0.3:
            a.update(nx=12, ny=11)
            a['ABDnxny'] = pool['ABDnxny'] if rng.random() < 0.7 else None
        return what, lambda o, a: o.calc_fint(**a), a
    if what in ('kC', 'kG', 'kT'):
        u = rng.random()
        if u < 0.5 or what == 'kT':
            a['c'] = c
        if what != 'kT' and rng.random() < 0.4:
            a['NLgeom'] = True
        if what == 'kC' and rng.random() < 0.2:
            a['c_cte'] = c
        if rng.random() < 0.3:
            a.update(nx=12, ny=11)
            if rng.random() < 0.6:
                a['ABDnxny'] = pool['ABDnxny']
    if what == 'kM' and rng.random() < 0.4:
        a.update(nx=12, ny=11, h_nxny=pool['h'], rho_nxny=pool['rho'])
    if 'c' not in a and 'c_cte' not in a and rng.random() < 0.3:
        a.update(size=N + 7, row0=4, col0=4)
    if rng.random() < 0.2:
        a['finalize'] = False
    if what == 'kA':
        def call(o, a):
            return o.calc_kA(**a)
        return what, call, a
    return what, lambda o, a, w=what: getattr(o, 'calc_' + w)(**a), a


class Panels(object):
    kind = 'panel'

    def __init__(self, rng):
        self.cfg = gen.config(rng, 2, 5)
        self.seed = int(rng.integers(0, 2**31))
        self.shared = dict(self.cfg)

    def make(self):
        # the lists that define the laminate are shared between the objects
        s = gen.shell(self.cfg)
        s.beta = 1e3
        list(add_random_loads(np.random.default_rng(self.seed), s, []))
        return s

    def parts(self, o):
        return [o]

    def sizes(self, o):
        return [3*o.m*o.n]

    edit = staticmethod(edit_shell)
    op = staticmethod(shell_op)


class Assemblies(object):
    kind = 'assembly'

    def __init__(self, rng):
        self.k = int(rng.integers(2, 4))
        self.cfgs = []
        a, b = float(10**rng.uniform(-0.4, 0.4)), float(10**rng.uniform(-0.4, 0.4))
        for i in range(self.k):
            c = gen.config(rng, 2, 4)
            c['a'], c['b'] = a, b
            if 'r' in c:
                c['r'] = 2*b
            self.cfgs.append(c)
        self.a, self.b = a, b
        self.conn = self.draw_conn(rng)
        self.seed = int(rng.integers(0, 2**31))

    def draw_conn(self, rng):
        out = []
        for _ in range(int(rng.integers(1, 4))):
            i, j = (int(v) for v in rng.choice(self.k, 2, replace=False))
            f = str(rng.choice(['SSycte', 'SSxcte', 'BFycte', 'BFxcte', 'SB']))
            L = self.b if f.endswith('ycte') else self.a
            p = (None, None) if f == 'SB' else tuple(float(rng.choice([0., L, L/3])) for _ in range(2))
            out.append((i, j, f) + p)
        return out

    @staticmethod
    def build_conn(md, spec):
        out = []
        for i, j, f, p, q in spec:
            d = dict(p1=md.panels[i], p2=md.panels[j], func=f)
            if f != 'SB':
                d.update({f[2:] + '1': p, f[2:] + '2': q})
            out.append(d)
        return out

    def make(self):
        from panels.multidomain import MultiDomain
        ss = [gen.shell(c) for c in self.cfgs]
        rng = np.random.default_rng(self.seed)
        for i, s in enumerate(ss):
            s.group = 'g%d' % (i % 2)
            s.Nxx = float(rng.standard_normal()*1e3)
            list(add_random_loads(rng, s, []))
        md = MultiDomain(ss)
        md.conn = self.build_conn(md, self.conn)
        md.out_num_cores = 2
        return md

    def parts(self, o):
        return list(o.panels)

    def sizes(self, o):
        return [sum(3*p.m*p.n for p in o.panels)]

    def edit(self, rng, md):
        if rng.random() < 0.4:
            if rng.random() < 0.5:
                spec = self.draw_conn(rng)

                def apply(o):
                    o.conn = self.build_conn(o, spec)
            else:
                i = int(rng.integers(0, len(md.conn)))
                u = float(rng.uniform(0, 1))

                def apply(o):
                    d = o.conn[min(i, len(o.conn) - 1)]
                    for k in d:
                        if k.startswith(('xcte', 'ycte')):
                            d[k] = u*(d['p1'].a if k[0] == 'x' else d['p1'].b)
            return 'connectivity', apply
        i = int(rng.integers(0, len(md.panels)))
        while True:
            what, f = edit_shell(rng, md.panels[i])
            if what not in ('geometry', 'limits'):
                break
        return what, lambda o: f(o.panels[i])

    def op(self, rng, md, pool):
        N = self.sizes(md)[0]
        c = pool[N][int(rng.integers(0, len(pool[N])))]
        what = str(rng.choice(['kC', 'kG', 'kM', 'kT', 'fint', 'fext', 'conn', 'uvw', 'strain', 'stress', 'conn arg']))
        if what in ('uvw', 'strain', 'stress'):
            a = dict(c=c, group=str(rng.choice(['g0', 'g1'])), gridx=int(rng.integers(2, 6)), gridy=int(rng.integers(2, 6)))
            if what != 'uvw':
                a['NLterms'] = bool(rng.integers(0, 2))

            def call(o, a):
                for p in o.panels:
                    ready(p)
                return getattr(o, what)(**a)
            return what, call, a
        if what == 'fext':
            return what, lambda o, a: o.calc_fext(silent=True, **a), dict(inc=float(rng.uniform(0, 2)))
        if what == 'fint':
            return what, lambda o, a: o.calc_fint(silent=True, **a), dict(c=c)
        if what == 'conn':
            a = dict(finalize=bool(rng.random() < 0.7))
            return what, lambda o, a: o.get_kC_conn(**a), a
        if what == 'conn arg':
            spec = self.draw_conn(rng)
            use = str(rng.choice(['kC', 'get']))

            def call(o, a):
                conn = self.build_conn(o, a['spec'])
                before = [dict(d) for d in conn]
                r = o.calc_kC(conn=conn, silent=True) if use == 'kC' else o.get_kC_conn(conn=conn)
                if [dict(d) for d in conn] != before:
                    raise AssertionError('connectivity altered')
                return r
            return what, call, dict(spec=spec)
        a = {}
        if what == 'kT' or (what in ('kC', 'kG') and rng.random() < 0.5):
            a['c'] = c
        return what, lambda o, a, w=what: getattr(o, 'calc_' + w)(silent=True, **a), a


class Bays(object):
    kind = 'bay'

    def __init__(self, rng):
        self.seed = int(rng.integers(0, 2**31))

    def make(self):
        b = p14.Bay(np.random.default_rng(self.seed), hi=4, few=True)
        B = b.bay
        B.beta, B.aeromu = 1e3, 5.
        B.out_num_cores = 2
        return B

    def parts(self, o):
        return [o] + list(o.panels) + list(o.stiffeners) + [s.flange for s in o.bladestiff2ds if s.flange is not None]

    def sizes(self, o):
        ready(o)
        return [o.get_size()]

    def edit(self, rng, B):
        what = str(rng.choice(['loads', 'flow', 'stress state', 'stiffener']))
        if what == 'loads':
            f = [float(rng.uniform(0, B.a)), float(rng.uniform(0, B.b))] + [float(v) for v in rng.standard_normal(3)]
            return what, lambda o: o.forces_skin.append(list(f))
        if what == 'flow':
            new = dict(Mach=float(rng.uniform(1.05, 4)), V=float(rng.uniform(100, 1000)), rho_air=float(rng.uniform(0.2, 1.2)),
                       speed_sound=340., beta=None, gamma=None, flow=str(rng.choice(['x', 'y'])))
            if rng.random() < 0.4:
                new = dict(beta=float(10**rng.uniform(0, 4)), aeromu=float(rng.uniform(1, 9)))

            def apply(o):
                for k, v in new.items():
                    setattr(o, k, v)
            return what, apply
        if what == 'stiffener' and B.stiffeners:
            i = int(rng.integers(0, len(B.stiffeners)))
            q = float(rng.standard_normal()*1e3)

            def apply(o):
                s = o.stiffeners[i]
                if hasattr(s, 'forces_flange'):
                    if s.flange is not None:
                        s.flange.Nxx = q
                        s.forces_flange.append([0.3*o.a, 0.4*s.flange.b, 1., q, -2.])
                else:
                    s.Fx = q
            return what, apply
        i = int(rng.integers(0, len(B.panels)))
        q = float(rng.standard_normal()*1e3)

        def apply(o):
            o.panels[i].Nxx = q
        return 'stress state', apply

    def op(self, rng, B, pool):
        N = self.sizes(B)[0]
        c = pool[N][int(rng.integers(0, len(pool[N])))]
        what = str(rng.choice(['kC', 'kG', 'kM', 'kA', 'cA', 'fext', 'skin', 'flange', 'kGc']))
        if what == 'kGc' and not any(s not in B.bladestiff2ds for s in B.stiffeners):
            return what, lambda o, a: o.calc_kG(silent=True, **a), dict(c=c)
        fl = [i for i, s in enumerate(B.stiffeners) if s in B.bladestiff2ds and s.flange is not None]
        a = dict(c=c, gridx=int(rng.integers(2, 6)), gridy=int(rng.integers(2, 6)))
        if what == 'flange' and fl:
            a['si'] = int(rng.choice(fl))
            return what, lambda o, a: (ready(o), o.uvw_stiffener(**a), o.Xs, o.Ys), a
        if what in ('skin', 'flange', 'kGc'):
            return 'skin', lambda o, a: (ready(o), o.uvw_skin(**a), o.Xs, o.Ys), a
        return what, lambda o, a, w=what: getattr(o, 'calc_' + w)(silent=True, **a), {}


def same(x, y):
    """None when equal up to rounding, else the deviation."""
    if len(x) != len(y):
        return 'number of arrays'
    worst = 0.
    for p, q in zip(x, y):
        if isinstance(p, str) or p is None or q is None:
            if not (p is None and q is None or p == q):
                return 'keys'
            continue
        if np.shape(p) != np.shape(q):
            return 'shape %s %s' % (np.shape(p), np.shape(q))
        if np.array_equal(p, q):
            continue
        if not (np.isfinite(p).all() and np.isfinite(q).all()):
            return 'not finite'
        s = max(np.abs(p).max(), np.abs(q).max())
        worst = max(worst, float(np.abs(p - q).max()/s))
    return worst


def run(ctx):
    def history(cls):
        def func(case):
            rng = case.rng
            W = [cls(rng) for _ in range(2)]
            objs = [w.make() for w in W]
            edits = [[], []]
            pool = dict(ABDnxny=None)
            for w in W:
                o = w.make()
                for N in w.sizes(o):
                    pool.setdefault(N, [rng.standard_normal(N)*1e-3 for _ in range(2)])
            q = gen.shell(gen.config(rng, 2, 3))
            pool['ABDnxny'] = gen.hetABD(rng, ref.Panel.of(q), 12, 11)
            pool['ABD'] = pool['ABDnxny'][0, 0].copy()
            pool['h'], pool['rho'] = rng.uniform(1e-3, 2e-3, (12, 11)), rng.uniform(1e3, 2e3, (12, 11))
            kept, steps, last = [], [], [None, None]
            nev = 0
            after = [False, False]
            for _ in range(int(rng.integers(6, 17))):
                i = int(rng.integers(0, 2))
                w, o = W[i], objs[i]
                if rng.random() < 0.3:
                    name, f = w.edit(rng, o)
                    quiet(f, o)
                    edits[i].append(f)
                    steps.append('%d:edit %s' % (i, name))
                    ctx.count('edit ' + name)
                    after[i] = True
                    continue
                if last[i] is not None and rng.random() < 0.2:
                    name, call, args = last[i]
                    ctx.count('evaluations repeated')
                else:
                    name, call, args = w.op(rng, o, pool)
                if name in ('uvw', 'strain', 'stress') and 'xs' in args and (args['xs'].max() > o.a or args['ys'].max() > o.b):
                    args = dict(args, xs=args['xs']*0.3, ys=args['ys']*0.3)
                last[i] = (name, call, args)
                steps.append('%d:%s %s' % (i, name, sorted(k for k in args if k != 'c') if args else ''))
                case.note(steps=steps)
                fresh = w.make()
                for f in edits[i]:
                    quiet(f, fresh)
                safe = copy.deepcopy(args)
                d0 = [definition(W[k].parts(objs[k])) for k in range(2)]
                got = arrays(quiet(call, o, args))
                d1 = [definition(W[k].parts(objs[k])) for k in range(2)]
                case.ok(d0 == d1, 'an evaluation altered the definition of an object', step=steps[-1])
                for k in safe:
                    v = args[k]
                    eq = np.array_equal(v, safe[k]) if isinstance(v, np.ndarray) else v == safe[k]
                    case.ok(eq, 'an evaluation altered its argument', argument=k, step=steps[-1])
                    ctx.count('arguments compared')
                want = arrays(quiet(call, fresh, safe))
                d = same(copies(got), copies(want))
                if isinstance(d, str):
                    case.ok(False, 'result of a history has another form than that of a fresh object: ' + d, step=steps[-1])
                case.near(d, 1e-12, 'result depends on the history', step=steps[-1])
                kept.append((steps[-1], got, copies(got)))
                nev += 1
                if after[i]:
                    ctx.count('evaluations after an edit')
            for name, now, then in kept:
                for p, q in zip(now, then):
                    if isinstance(p, str) or p is None:
                        continue
                    p = value(p)
                    case.ok(p.shape == q.shape and np.array_equal(p, q, equal_nan=True), 'an earlier result was altered', step=name)
                    ctx.count('earlier results compared')
            ctx.count('%s histories' % cls.kind)
            if nev >= 3:
                case.seen(cls.kind, *[s.split(' [')[0] for s in steps])
        return func

    ctx.run('panel', 240, 5000, history(Panels))
    ctx.run('assembly', 120, 2400, history(Assemblies))
    ctx.run('bay', 60, 1200, history(Bays))
