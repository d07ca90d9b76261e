META = dict(
    shards=(6, 8), budget=(140, 1800),
    rule='random panels and stiffened bays saved at a random point of a random history (in a scratch folder, any name, over an existing '
         'file), loaded in the same and in another process, then used and edited side by side with the original; '
         'non-trivial when a result after loading is not zero',
    require=('panel saved', 'bay saved', 'results after loading', 'results of the saved object', 'loaded in another process',
             'edited after loading', 'file overwritten', 'definition compared'),
    assumptions=['the functions of distributed loads can be pickled'],
)
# --- end of META
import copy
import os
import subprocess
import sys

import numpy as np

from .. import gen, ref
from . import p15
from .p12 import quiet
from .p15 import arrays, copies, same


class Poly(object):
    def __init__(self, q):
        self.q = [float(v) for v in q]

    def __call__(self, t):
        return self.q[0] + self.q[1]*t + self.q[2]*t*t

    def __repr__(self):
        return 'Poly(%r)' % (self.q,)


def loads(rng, s):
    for _ in range(int(rng.integers(1, 6))):
        x, y = float(rng.uniform(0, s.a)), float(rng.uniform(0, s.b))
        cte = bool(rng.integers(0, 2))
        f = [Poly(rng.standard_normal(3)) if rng.random() < 0.7 else None for _ in range(3)]
        f[int(rng.integers(0, 3))] = Poly(rng.standard_normal(3))
        k = int(rng.integers(0, 4))
        if k == 0:
            s.add_point_load(x, y, *[float(v) for v in rng.standard_normal(3)], cte=cte)
        elif k == 1:
            s.add_distr_load_fixed_x(x, *f, cte=cte)
        elif k == 2:
            s.add_distr_load_fixed_y(y, *f, cte=cte)
        else:
            s.add_point_pd(x, y, 1e3, 0.1, 1e4, -0.2, 1e5, 0.3, cte=cte)


class Panels(p15.Panels):
    def make(self):
        s = gen.shell(self.cfg)
        s.beta = 1e3
        loads(np.random.default_rng(self.seed), s)
        return s

    def edit(self, rng, s):
        what = 'loads'
        while what == 'loads':
            what, f = p15.edit_shell(rng, s)
        if rng.random() < 0.3:
            seed = int(rng.integers(0, 2**31))
            return 'loads', lambda s: loads(np.random.default_rng(seed), s)
        return what, f


OTHER = '''
import sys, pickle, numpy as np
kind, name, out = sys.argv[1:4]
if kind == 'panel':
    from panels.shell import load
else:
    from panels.stiffpanelbay.stiffpanelbay import load
o = load(name)
kw = {} if kind == 'panel' else {'silent': True}
np.savez(out, kC=o.calc_kC(**kw).toarray(), kM=o.calc_kM(**kw).toarray(), kG=o.calc_kG(**kw).toarray(), f=np.asarray(o.calc_fext()))
'''


def tree(d):
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


def run(ctx):
    root = os.path.join(ctx.scratch, '_save%d' % ctx.shard)
    os.makedirs(root, exist_ok=True)

    def history(cls):
        ext = 'Shell' if cls is Panels else 'StiffPanelBay'

        def func(case):
            from panels.shell import load as load_shell
            from panels.stiffpanelbay.stiffpanelbay import load as load_bay
            load = load_shell if cls is Panels else load_bay
            rng = case.rng
            w = cls(rng)
            o = w.make()
            N = w.sizes(w.make())[0]
            pool = {N: [rng.standard_normal(N)*1e-3 for _ in range(2)]}
            q = gen.shell(gen.config(rng, 2, 3))
            pool['ABDnxny'] = gen.hetABD(rng, ref.Panel.of(q), 12, 11)
            pool['ABD'] = pool['ABDnxny'][0, 0].copy()
            pool['h'], pool['rho'] = rng.uniform(1e-3, 2e-3, (12, 11)), rng.uniform(1e3, 2e3, (12, 11))
            steps, edits = [], []
            case.note(steps=steps)

            def step(*objs):
                if rng.random() < 0.3:
                    name, f = w.edit(rng, objs[0])
                    for x in objs:
                        quiet(f, x)
                    edits.append(f)
                    steps.append('edit ' + name)
                    return None
                name, call, args = w.op(rng, objs[0], pool)
                if name in ('uvw', 'strain', 'stress') and 'xs' in args:
                    args = dict(args, xs=args['xs']*0.3, ys=args['ys']*0.3)
                steps.append(name)
                return [copies(arrays(quiet(call, x, copy.deepcopy(args)))) for x in objs], (name, call, args)
            probes = []
            for _ in range(int(rng.integers(0, 7))):
                r = step(o)
                if r is None:
                    probes = []
                else:
                    probes.append((r[0][0], r[1]))
            # save
            folder = os.path.join(root, 'c%d' % case.idx)
            sub = str(rng.choice(['', 'x.y', 'with space', 'ünï']))
            os.makedirs(os.path.join(folder, sub), exist_ok=True)
            name = os.path.join(sub, str(rng.choice(['panel', 'a.b', 'Shell', 'p 1', '7'])))
            here = os.getcwd()
            os.chdir(folder)
            try:
                if rng.random() < 0.5:
                    open(name + '.' + ext, 'wb').write(bytes(rng.integers(0, 256, 60000, dtype=np.uint8)))
                    ctx.count('file overwritten')
                open('other', 'w').write('untouched')
                before = tree('.')
                o.name = name
                # fields asked for right before and right after saving, and of the loaded panel, before anything else is evaluated
                direct = None
                if cls is Panels and any(not k.startswith('edit') for k in steps) and rng.random() < 0.6:
                    cf, kf = pool[N][0], dict(gridx=3, gridy=4)
                    direct = lambda x: copies([getattr(x, what)(cf, **kf)[1][k] for what in p15.KEYS for k in p15.KEYS[what]])
                    before_save = direct(o)
                d0 = p15.definition(w.parts(o))
                quiet(o.save)
                steps.append('save')
                after = tree('.')
                target = os.path.normpath(name + '.' + ext)
                before.pop(target, None)
                case.ok(target in after and len(after.pop(target)) > 0, 'nothing saved under the name of the object', files=sorted(after))
                case.ok(after == before, 'saving touched another file', files=sorted(after))
                case.ok(p15.definition(w.parts(o)) == d0, 'saving altered the definition')
                full = rng.random() < 0.5
                p = quiet(load, name + ('.' + ext if full else ''))
                case.ok(type(p) is type(o), 'another type was loaded')
                ctx.count('%s saved' % cls.kind)
                d1 = p15.definition(w.parts(p))
                case.ok(d1 == d0, 'the definition loaded is not the one saved',
                        differ=[(u, v) for u, v in zip(d0.split("), ("), d1.split("), (")) if u != v][:3])
                ctx.count('definition compared')
                if direct is not None:
                    for who, x in (('saved', o), ('loaded', p)):
                        case.near(same(direct(x), before_save), 1e-12, 'fields of the %s panel' % who)
                    ctx.count('fields right after')
                if rng.random() < (0.12 if ctx.quick else 0.05):
                    r = subprocess.run([sys.executable, '-c', OTHER, cls.kind, name, os.path.join(folder, 'r.npz')],
                                       capture_output=True, text=True)
                    case.ok(r.returncode == 0, 'loading in another process failed', stderr=r.stderr[-1500:])
                    z = np.load(os.path.join(folder, 'r.npz'))
                    f = w.make()
                    for e in edits:
                        quiet(e, f)
                    kw = {} if cls is Panels else {'silent': True}
                    want = [f.calc_kC(**kw).toarray(), f.calc_kM(**kw).toarray(), f.calc_kG(**kw).toarray(), np.asarray(f.calc_fext())]
                    case.near(same([z[k] for k in ('kC', 'kM', 'kG', 'f')], want), 1e-12, 'another process loads another model')
                    ctx.count('loaded in another process')
            finally:
                os.chdir(here)
            # what was evaluated before the file was written must come out again
            for then, (nm, call, args) in probes:
                for x, which in ((p, 'results after loading'), (o, 'results of the saved object')):
                    d = same(copies(arrays(quiet(call, x, copy.deepcopy(args)))), then)
                    case.ok(not isinstance(d, str), '%s: %s' % (which, d), step=nm)
                    case.near(d, 1e-12, which + ' are not those before saving', step=nm)
                    ctx.count(which)
            nz = False
            for _ in range(5):
                r = step(o, p)
                if r is None:
                    ctx.count('edited after loading')
                    continue
                d = same(*r[0])
                case.ok(not isinstance(d, str), 'loaded and saved object differ: %s' % d)
                case.near(d, 1e-12, 'loaded and saved object differ', step=r[1][0])
                nz = nz or any(isinstance(v, np.ndarray) and v.dtype.kind in 'fc' and np.abs(v).max(initial=0) > 0 for v in r[0][1])
                ctx.count('results after loading')
            if nz:
                case.seen(cls.kind, *steps)
        return func

    ctx.run('panel', 240, 4000, history(Panels))
    ctx.run('bay', 60, 900, history(p15.Bays))
