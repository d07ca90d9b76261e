META = dict(
    shards=(6, 8), budget=(140, 1800),
    rule='random panels, assemblies (several groups, panels at their own positions) and stiffened bays with random states; every plotting '
         'function with random component, grid or positions, limits, deformation, options, own or given axes and file name; what is handed to '
         'matplotlib, the limits, the files and the objects afterwards against the reference; non-trivial when a non-constant field was drawn',
    require=('panel plot', 'assembly plot', 'skin plot', 'flange plot', 'contours judged', 'deformed', 'limits given', 'limits of the field',
             'file written', 'nothing written', 'given axes', 'fields kept', 'refused', 'gauss points', 'positions given', 'colour bar',
             'several panels'),
    assumptions=['a constant field cannot be drawn (matplotlib refuses equal limits)', 'the direction in which deform_u shifts along x is not judged',
                 'the axes are turned: y of the panel is horizontal'],
)
# --- end of META
import os
import shutil
import tempfile

import numpy as np

from .. import gen, monitors, ref
from ..core import Skip
from ..monitors import FIELDS, field_ref, num_tol
from . import p14
from .p12 import quiet


class Recorder(object):
    """What the plotting functions hand to matplotlib."""
    def __init__(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        from matplotlib.figure import Figure
        self.plt = plt
        self.contours, self.saved, self.bars = [], [], []
        contourf, savefig, colorbar = Axes.contourf, Figure.savefig, Figure.colorbar

        def rec_contourf(ax, *args, **kw):
            out = contourf(ax, *args, **kw)
            if len(args) >= 3:
                self.contours.append((ax, np.array(args[0], float), np.array(args[1], float), np.array(args[2], float),
                                      np.array(out.levels, float), out))
            else:
                self.contours.append(None)
            return out

        def rec_savefig(fig, fname, *args, **kw):
            self.saved.append((fig, str(fname), kw.get('dpi')))
            return savefig(fig, fname, *args, **kw)

        def rec_colorbar(fig, mappable, *args, **kw):
            out = colorbar(fig, mappable, *args, **kw)
            self.bars.append((mappable, np.array(out.get_ticks(), float)))
            return out
        Axes.contourf, Figure.savefig, Figure.colorbar = rec_contourf, rec_savefig, rec_colorbar

    def clear(self):
        self.plt.close('all')
        self.contours, self.saved, self.bars = [], [], []


def kind_of(vec):
    return [w for w in ('uvw', 'strain', 'stress') if vec in FIELDS[w]][0]


def run(ctx):
    from panels.plot_shell import plot_shell
    from panels.multidomain import MultiDomain
    rec = Recorder()
    cwd = os.getcwd()

    def options(rng, case):
        rec.clear()
        o = dict(num_levels=int(rng.integers(3, 30)), dpi=int(rng.choice([20, 30, 40])), clean=bool(rng.integers(0, 2)),
                 invert_y=bool(rng.integers(0, 2)), aspect=str(rng.choice(['equal', 'auto'])), title=str(rng.choice(['', 'a title'])))
        mode = ('save', 'save', 'axes', 'nosave')[int(rng.integers(0, 4))]
        o['filename'] = str(rng.choice(['plot.png', 'plot.v2.png', os.path.join('sub', 'deep.png')]))
        if mode == 'nosave':
            o['save'] = False
        elif mode == 'axes':
            fig = rec.plt.figure()
            o['ax'] = fig.add_subplot(211)
            if rng.random() < 0.5:
                o['save'] = True
        if rng.random() < 0.3:
            o['colorbar'] = True
            o['cbar_nticks'] = int(rng.integers(2, 6))
            o['cbar_title'] = str(rng.choice(['', 'bar']))
        if rng.random() < 0.3:
            o['texts'] = [dict(x=0.1, y=0.2, s='text')]
        return mode, o

    def draw(case, call, mode, o, panels, vec, deform=None):
        """call(**o) and judgement of what was drawn; panels: list of (P, c, X, Y, x offset, y offset, NL)."""
        rng = case.rng
        what = kind_of(vec)
        refs = []
        for P, c, X, Y, ox, oy, NL in panels:
            R, S = field_ref(P, what, c, X, Y, NL, None)
            S0 = S[FIELDS[what].index(vec)]
            refs.append((R[FIELDS[what].index(vec)].reshape(X.shape), np.maximum(S0, 1e-3*S0.max() + 1e-300).reshape(X.shape)))
        lo, hi = min(R.min() for R, S in refs), max(R.max() for R, S in refs)
        size = max(S.max() for R, S in refs)
        if not hi - lo > 1e-9*size:
            raise Skip('constant field')
        limits = str(rng.choice(['none', 'none', 'both', 'min', 'max']))
        d = hi - lo
        if limits in ('both', 'min'):
            o['vecmin'] = float(lo - rng.uniform(-0.2, 0.5)*d)
        if limits in ('both', 'max'):
            o['vecmax'] = float(hi + rng.uniform(-0.2, 0.5)*d)
        # zero is a limit like any other
        if limits == 'max' and lo < -0.05*d and rng.random() < 0.4:
            o['vecmax'] = 0.
        if limits == 'min' and hi > 0.05*d and rng.random() < 0.4:
            o['vecmin'] = 0.
        if limits == 'both' and rng.random() < 0.3:
            o['vecmin'] = 0.
            o['vecmax'] = float(rng.choice([1e-9, 1., abs(hi) + d]))
            if rng.random() < 0.5:
                o['vecmin'], o['vecmax'] = -o['vecmax'], 0.
        case.note(vec=vec, mode=mode, limits=limits, deform=deform, options={k: v for k, v in o.items() if k != 'ax'})
        folder = tempfile.mkdtemp(prefix='plot_', dir=ctx.scratch)
        os.mkdir(os.path.join(folder, 'sub'))
        os.chdir(folder)
        try:
            given = o.get('ax')
            n0 = len(rec.plt.get_fignums())
            out = quiet(call, **o)
            files = sorted(os.path.join(r, f)[len(folder) + 1:] for r, _, fs in os.walk(folder) for f in fs)
            sizes = [os.path.getsize(f) for f in files]
        finally:
            os.chdir(cwd)
            shutil.rmtree(folder)
        ax = out[0] if isinstance(out, tuple) else out
        case.ok(len(rec.contours) == len(panels) and all(k is not None for k in rec.contours), 'number of contours', n=len(rec.contours))
        used = [k for k in rec.contours]
        for (A, x, y, z, levels, cs), (R, S), (P, c, X, Y, ox, oy, NL) in zip(used, refs, panels):
            case.ok(A is ax and (given is None or A is given), 'the contour was drawn in other axes')
            case.ok(x.shape == X.shape and y.shape == X.shape and z.shape == X.shape, 'shape of what is drawn', got=(x.shape, z.shape), want=X.shape)
            tol = num_tol(P.m, P.n)
            case.near(float((np.abs(z - R)/S).max()), tol, 'the values drawn are not the field of the state', vec=vec)
            wx, wy = Y + oy, X + ox
            sx, sy = np.full(X.shape, P.b + abs(oy)), np.full(X.shape, P.a + abs(ox))
            if deform is None:
                case.near(float((np.abs(x - wx)/sx).max()), 1e-13, 'the horizontal position is not y of the panel')
                case.near(float((np.abs(y - wy)/sy).max()), 1e-13, 'the vertical position is not x of the panel')
            else:
                U, Z = field_ref(P, 'uvw', c, X, Y, False, None)
                u, v = U[0].reshape(X.shape)*deform, U[1].reshape(X.shape)*deform
                su, sv = Z[0].reshape(X.shape)*abs(deform) + sy, Z[1].reshape(X.shape)*abs(deform) + sx
                case.near(float((np.abs(x - wx - v)/sv).max()), tol, 'deformed position along y')
                case.near(float((np.abs(np.abs(y - wy) - np.abs(u))/su).max()), tol, 'deformed position along x')
                ctx.count('deformed')
            tol = max(num_tol(q[0].m, q[0].n) for q in panels)
            l0, l1 = o.get('vecmin', lo), o.get('vecmax', hi)
            w = np.linspace(l0, l1, o['num_levels'])
            tl = max(tol*size, 1e-12*max(abs(l0), abs(l1)))
            case.ok(levels.shape == w.shape and np.abs(levels - w).max() <= tl, 'levels of the contour',
                    levels=(levels.min(), levels.max(), levels.size), want=(l0, l1, w.size))
            ctx.count('contours judged')
        ctx.count('limits of the field' if limits == 'none' else 'limits given')
        if len(panels) > 1:
            ctx.count('several panels')
        if isinstance(out, tuple):
            data = out[1]
            case.ok(abs(data['vecmin'] - l0) <= tl and abs(data['vecmax'] - l1) <= tl, 'limits returned', data=dict(data), want=(l0, l1))
        if o.get('colorbar'):
            case.ok(len(rec.bars) == 1 and rec.bars[0][0] in [k[5] for k in used], 'colour bar of the contour')
            t = np.linspace(l0, l1, o['cbar_nticks'])
            got = rec.bars[0][1]
            case.ok(got.shape == t.shape and np.abs(got - t).max() <= tl, 'ticks of the colour bar', got=got, want=t)
            ctx.count('colour bar')
        case.ok(ax.xaxis_inverted(), 'direction of the horizontal axis')
        case.ok(bool(ax.yaxis_inverted()) == o['invert_y'], 'direction of the vertical axis')
        case.ok(ax.get_title() == o['title'], 'title')
        case.ok((ax.get_aspect() in ('equal', 1, 1.)) == (o['aspect'] == 'equal'), 'aspect of the axes', got=str(ax.get_aspect()))
        case.ok([t.get_text() for t in ax.texts if t.get_text() == 'text'] == (['text'] if o.get('texts') else []), 'texts')
        if mode == 'save':
            case.ok(files == [o['filename']] and sizes[0] > 0, 'file written', files=files)
            case.ok(len(rec.saved) == 1 and rec.saved[0][0] is ax.figure and rec.saved[0][2] in (o['dpi'], None), 'figure written')
            ctx.count('file written')
        else:
            case.ok(files == [], 'a file was written although none was asked for', files=files)
            ctx.count('nothing written')
        if given is not None:
            case.ok(len(rec.plt.get_fignums()) == n0 and ax is given, 'axes given by the caller')
            ctx.count('given axes')
        else:
            case.ok(len(rec.plt.get_fignums()) == n0 + (mode == 'nosave'), 'figures left open', n=len(rec.plt.get_fignums()))
        rec.clear()
        return out

    def mesh(rng, P):
        """2-D positions: grid of the plot or given."""
        if rng.random() < 0.6:
            g = dict(gridx=int(rng.integers(2, 12)), gridy=int(rng.integers(2, 12)))
            X, Y = np.meshgrid(np.linspace(0, P.a, g['gridx']), np.linspace(0, P.b, g['gridy']))
            return g, X, Y
        x = np.sort(rng.uniform(0, P.a, int(rng.integers(2, 9))))
        y = np.sort(rng.uniform(0, P.b, int(rng.integers(2, 9))))
        X, Y = np.meshgrid(x, y)
        ctx.count('positions given')
        return dict(xs=X.copy(), ys=Y.copy()), X, Y

    def panel(case):
        rng = case.rng
        cfg = gen.config(rng, 2, 8)
        s = gen.shell(cfg)
        s._rebuild()
        s.out_num_cores = int(rng.integers(1, 5))
        P = ref.Panel.of(s)
        c = gen.ritz(rng, P)
        if not np.abs(c).max() > 0:
            raise Skip('state at rest')
        vec = str(rng.choice(FIELDS[str(rng.choice(['uvw', 'strain', 'stress']))]))
        g, X, Y = mesh(rng, P)
        mode, o = options(rng, case)
        NL = bool(rng.integers(0, 2))
        deform = None
        kw = dict(g, vec=vec, NLgeom=NL)
        if kind_of(vec) == 'uvw' or NL and rng.random() < 0.5:
            kw.pop('NLgeom')
            NL = True
        ox = oy = 0.
        if rng.random() < 0.4:
            ox, oy = (float(v) for v in rng.uniform(-3, 3, 2))
            kw.update(plot_offset_x=ox, plot_offset_y=oy)
        if rng.random() < 0.35:
            amp = np.abs(field_ref(P, 'uvw', c, X, Y, False, None)[0][:2]).max()
            deform = float(rng.choice([0.01, 0.1])*min(P.a, P.b)/amp) if amp > 0 else 100.
            kw.update(deform_u=True, deform_u_sf=deform)
        # fields evaluated before
        before = str(rng.choice(['none', 'uvw', 'strain', 'stress']))
        case.note(before=before, NL=NL, **gen.brief(cfg))
        kept = None
        if before != 'none':
            m0, f0 = getattr(s, before)(c*0.7, gridx=4, gridy=3)
            held = {f: f0[f] for f in FIELDS[before]}
            kept = {f: f0[f].copy() for f in FIELDS[before]}
            Xm, Ym = m0['Xs'].copy(), m0['Ys'].copy()
        c0, args = c.copy(), {k: v.copy() for k, v in g.items() if isinstance(v, np.ndarray)}
        draw(case, lambda **k: plot_shell(s, c, **k), mode, dict(o, **kw), [(P, c0, X, Y, ox, oy, NL)], vec, deform)
        case.ok(np.array_equal(c, c0) and all(np.array_equal(g[k], v) for k, v in args.items()), 'the arguments were changed')
        if kept is not None:
            for f in kept:
                case.ok(np.array_equal(held[f], kept[f]), 'fields returned before were changed', field=f)
                case.ok(np.array_equal(s.fields[f], kept[f]), 'fields evaluated before the plot were replaced', field=f)
            case.ok(np.array_equal(s.plot_mesh['Xs'], Xm) and np.array_equal(s.plot_mesh['Ys'], Ym),
                    'positions of the fields evaluated before the plot were replaced')
            ctx.count('fields kept')
        ctx.count('panel plot')
        case.seen('panel', vec, mode, NL, deform is not None, s.m, s.n, X.shape)

    def assembly(case):
        rng = case.rng
        k = int(rng.integers(1, 5))
        ss = [gen.shell(gen.config(rng, 2, 6)) for _ in range(k)]
        for i, s in enumerate(ss):
            s.group = 'skin' if i == 0 else str(rng.choice(['skin', 'flange']))
            s.x0, s.y0 = (float(v) for v in rng.uniform(-2, 2, 2))
            s._rebuild()
        Ps = [ref.Panel.of(s) for s in ss]
        md = MultiDomain(ss)
        md.out_num_cores = int(rng.integers(1, 4))
        cs = [gen.ritz(rng, P) for P in Ps]
        c = np.concatenate(cs)
        if not np.abs(c).max() > 0:
            raise Skip('state at rest')
        group = str(rng.choice(sorted({s.group for s in ss})))
        idx = [i for i in range(k) if ss[i].group == group]
        vec = str(rng.choice(FIELDS[str(rng.choice(['uvw', 'strain', 'stress']))]))
        style = str(rng.choice(['grid', 'grid', 'gauss', 'positions']))
        a, b = min(P.a for P in Ps), min(P.b for P in Ps)
        if style == 'grid':
            g = dict(gridx=int(rng.integers(2, 12)), gridy=int(rng.integers(2, 12)))
            XY = [np.meshgrid(np.linspace(0, Ps[i].a, g['gridx']), np.linspace(0, Ps[i].b, g['gridy'])) for i in idx]
        else:
            x = np.sort(rng.uniform(0, a, int(rng.integers(2, 7))))
            y = np.sort(rng.uniform(0, b, int(rng.integers(2, 7))))
            XY = [np.meshgrid(x, y) for i in idx]
            if style == 'gauss':
                g = dict(use_gauss_points=True, x_gauss=x.copy(), y_gauss=y.copy())
            else:
                g = dict(xs=XY[0][0].copy(), ys=XY[0][1].copy())
        mode, o = options(rng, case)
        case.note(k=k, group=group, style=style, terms=[(s.m, s.n) for s in ss])
        if rng.random() < 0.3:
            o.update(identify=True)
        if rng.random() < 0.3:
            o.update(show_boundaries=True)
        if rng.random() < 0.3:
            o.update(colormap=str(rng.choice(['viridis', 'jet', 'gray'])))
        c0 = c.copy()
        lines = []
        out = draw(case, lambda **kw: md.plot(c, group, vec=vec, **kw), mode, dict(o, **g),
                   [(Ps[i], cs[i], X, Y, ss[i].x0, ss[i].y0, True) for i, (X, Y) in zip(idx, XY)], vec)
        case.ok(np.array_equal(c, c0), 'the state was changed')
        n0 = len(rec.plt.get_fignums())
        none, data = quiet(md.plot, c, group, vec=vec, calc_data_only=True, **g)
        case.ok(none is None and not rec.contours and len(rec.plt.get_fignums()) == n0, 'a plot was drawn although only the data was asked for')
        F, Z = zip(*[[q[FIELDS[kind_of(vec)].index(vec)] for q in field_ref(Ps[i], kind_of(vec), cs[i], X, Y, True, None)[:2]]
                     for i, (X, Y) in zip(idx, XY)])
        lo, hi = min(f.min() for f in F), max(f.max() for f in F)
        size = max(z.max() for z in Z)
        tol = max(num_tol(Ps[i].m, Ps[i].n) for i in idx)
        case.near(max(abs(data['vecmin'] - lo), abs(data['vecmax'] - hi))/size, tol, 'data of the plot', data=dict(data))
        if o.get('identify'):
            t = {t.get_text(): t.get_position() for t in out[0].texts if t.get_text().startswith('P ')}
            case.ok(sorted(t) == sorted('P %02d' % (i + 1) for i in idx), 'names of the panels', got=sorted(t))
            for i, (X, Y) in zip(idx, XY):
                p = t['P %02d' % (i + 1)]
                w = (Y.mean() + ss[i].y0, X.mean() + ss[i].x0)
                case.near(max(abs(p[0] - w[0]), abs(p[1] - w[1]))/(a + b + 4), 1e-12, 'place of the name of a panel')
        if o.get('show_boundaries'):
            case.ok(len(out[0].lines) == 4*len(idx), 'boundaries of the panels')
            for q, (i, (X, Y)) in enumerate(zip(idx, XY)):
                L = np.array([np.array(l.get_xydata()) for l in out[0].lines[4*q:4*q + 4]]).reshape(-1, 2)
                w = np.array([[Y.min() + ss[i].y0, X.min() + ss[i].x0], [Y.max() + ss[i].y0, X.max() + ss[i].x0]])
                case.near(max(np.abs(L.min(axis=0) - w[0]).max(), np.abs(L.max(axis=0) - w[1]).max())/(a + b + 4), 1e-12, 'boundary of a panel')
        if style == 'gauss':
            ctx.count('gauss points')
        ctx.count('assembly plot')
        case.seen('assembly', vec, mode, style, k, len(idx))

    def bay(case):
        rng = case.rng
        b = p14.Bay(rng, few=True)
        B = b.bay
        quiet(B.calc_kC, silent=True)
        c = np.zeros(b.size)
        c[:b.size0] = gen.ritz(rng, b.skin)
        for s, P, r0, N in b.flanges:
            c[r0:r0 + P.size] = gen.ritz(rng, P)
        k = int(rng.integers(0, len(b.flanges))) if b.flanges and rng.random() < 0.6 else -1
        P, r0 = (b.skin, 0) if k < 0 else b.flanges[k][1:3]
        cl = c[r0:r0 + P.size].copy()
        vec = str(rng.choice(FIELDS['uvw']))
        g, X, Y = mesh(rng, P)
        mode, o = options(rng, case)
        deform = None
        kw = dict(g, vec=vec)
        if rng.random() < 0.35:
            amp = np.abs(field_ref(P, 'uvw', cl, X, Y, False, None)[0][:2]).max()
            deform = float(rng.choice([0.01, 0.1])*min(P.a, P.b)/amp) if amp > 0 else 100.
            kw.update(deform_u=True, deform_u_sf=deform)
        case.note(target=k)
        kept = None
        if rng.random() < 0.5:
            held = B.uvw_skin(c*0.3, gridx=4, gridy=3)
            kept = [v.copy() for v in held]
            Xh, Yh = B.Xs, B.Ys
            Xm, Ym = Xh.copy(), Yh.copy()
        c0, args = c.copy(), {q: v.copy() for q, v in g.items() if isinstance(v, np.ndarray)}
        if k < 0:
            call = lambda **q: B.plot_skin(c, silent=True, **q)
        else:
            si = B.stiffeners.index(b.flanges[k][0])
            call = lambda **q: B.plot_stiffener(c, si=si, region='flange', silent=True, **q)
        draw(case, call, mode, dict(o, **kw), [(P, cl, X, Y, 0., 0., False)], vec, deform)
        case.ok(np.array_equal(c, c0) and all(np.array_equal(g[q], v) for q, v in args.items()), 'the arguments were changed')
        if kept is not None:
            case.ok(np.array_equal(Xh, Xm) and np.array_equal(Yh, Ym), 'positions of fields returned before were changed')
            for f, h, v in zip(FIELDS['uvw'], held, kept):
                case.ok(np.array_equal(h, v), 'fields returned before were changed', field=f)
                case.ok(np.array_equal(getattr(B, f), v), 'fields evaluated before the plot were replaced', field=f)
            case.ok(np.array_equal(B.Xs, Xm) and np.array_equal(B.Ys, Ym), 'positions of the fields evaluated before the plot were replaced')
            ctx.count('fields kept')
        ctx.count('skin plot' if k < 0 else 'flange plot')
        case.seen('bay', k < 0, vec, mode, deform is not None)

    def refuse(case):
        rng = case.rng
        s = gen.shell(gen.config(rng, 2, 4)); s._rebuild()
        s.group, s.x0, s.y0 = 'g', 0., 0.
        P = ref.Panel.of(s)
        c = gen.ritz(rng, P)
        md = MultiDomain([s])
        b = p14.Bay(rng, few=True)
        quiet(b.bay.calc_kC, silent=True)
        cb = np.ones(b.size)
        fig = rec.plt.figure()
        g = dict(gridx=3, gridy=3)
        folder = tempfile.mkdtemp(prefix='plot_', dir=ctx.scratch)
        os.chdir(folder)
        try:
            for name, f in (('plot_shell', lambda **k: plot_shell(s, c, **k)), ('MultiDomain.plot', lambda **k: md.plot(c, 'g', **k)),
                            ('plot_skin', lambda **k: b.bay.plot_skin(cb, **k))):
                for k in (dict(vec='nope'), dict(vec=''), dict(ax=fig), dict(ax='axes')):
                    try:
                        quiet(f, **dict(g, **k))
                    except (ValueError, TypeError):
                        ctx.count('refused')
                    else:
                        case.ok(False, 'an invalid request was accepted', function=name, k=str(k))
            case.ok(os.listdir(folder) == [], 'a refused plot wrote a file')
        finally:
            os.chdir(cwd)
            shutil.rmtree(folder)
            rec.clear()
        case.seen('refuse', case.idx)
    ctx.run('panel', 150, 2500, panel)
    ctx.run('assembly', 100, 1500, assembly)
    ctx.run('bay', 70, 800, bay)
    ctx.run('refuse', 6, 30, refuse)
