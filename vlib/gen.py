"""Random but reproducible configurations (workload side)."""
import numpy as np

from .ref import FLAGS

MATS = [
    (142.5e9, 8.7e9, 0.28, 5.1e9, 5.1e9, 5.1e9),
    (60e9, 60e9, 0.05, 4.5e9, 4.5e9, 4.5e9),
    (70e9, 70e9, 0.33, 70e9/2.66, 70e9/2.66, 70e9/2.66),
    (1.0, 0.1, 0.3, 0.07, 0.07, 0.03),
    (25e9, 180e9, 0.02, 7e9, 7e9, 7e9),
    (71e9, 0.33),
]


def flags(rng, style=None):
    style = style or rng.choice(['random', 'free', 'ss', 'clamped', 'mixed'])
    if style == 'random':
        return {k: float(rng.integers(0, 2)) for k in FLAGS}
    if style == 'free':
        return {k: 1. for k in FLAGS}
    if style == 'ss':
        return {k: 1. if k.endswith('r') else 0. for k in FLAGS}
    if style == 'clamped':
        return {k: 0. for k in FLAGS}
    out = {}
    for e in ('x1', 'x2', 'y1', 'y2'):
        p = rng.choice(['free', 'ss', 'cl'])
        for v in 'uvw':
            out[e + v] = 1. if p == 'free' else 0.
            out[e + v + 'r'] = 0. if p == 'cl' else 1.
    return out


def laminate(rng, allow_hetero=True, ortho=True, offset=True):
    nply = int(rng.integers(1, 6))
    stack = [float(rng.choice([0, 90, 45, -45, 30, -60, 15, rng.uniform(-90, 90)])) for _ in range(nply)]
    t = float(10**rng.uniform(-4, -2.3))
    d = dict(stack=stack)
    het = allow_hetero and rng.random() < 0.4
    if het:
        mats = [MATS[int(rng.integers(0, len(MATS)))] for _ in range(nply)]
        if any(m[0] < 1e3 for m in mats):
            mats = [MATS[3]]*nply
        d['laminaprops'] = mats
        d['plyts'] = [t*float(rng.uniform(0.4, 2.5)) for _ in range(nply)]
        d['rhos'] = [float(rng.uniform(500, 8000)) for _ in range(nply)]
    else:
        d['laminaprop'] = MATS[int(rng.integers(0, len(MATS)))]
        d['plyt'] = t
        d['rho'] = float(rng.uniform(500, 8000))
    h = sum(d.get('plyts') or [t]*nply)
    d['offset'] = float(rng.choice([0., 0.5, -0.5, rng.uniform(-2, 2)])*h) if offset and rng.random() < 0.5 else 0.
    if ortho and rng.random() < 0.15:
        d['force_orthotropic_laminate'] = True
    return d


def terms(rng, lo=1, hi=9, big=None):
    if big is not None and rng.random() < 0.12:
        return int(rng.integers(hi, big + 1))
    return int(rng.integers(lo, hi + 1))


def config(rng, lo=1, hi=9, big=None, r=None, style=None, **lamkw):
    """Keyword arguments of a Shell."""
    d = laminate(rng, **lamkw)
    d['a'] = float(10**rng.uniform(-0.7, 0.7))
    d['b'] = float(d['a']*10**rng.uniform(-0.6, 0.6))
    if r is None:
        r = rng.random() < 0.5
    if r:
        e = rng.uniform(-0.5, 1.5)
        # some nearly flat ones
        d['r'] = float(d['b']*10**(e if e < 1.3 else 1.3 + (e - 1.3)*15))
    d['m'] = terms(rng, lo, hi, big)
    d['n'] = terms(rng, lo, hi, big)
    if d['m'] > hi:
        d['n'] = min(d['n'], 6)
    elif d['n'] > hi:
        d['m'] = min(d['m'], 6)
    d.update(flags(rng, style))
    return d


def shell(cfg):
    from panels import Shell
    cfg = dict(cfg)
    lists = {k: list(cfg.pop(k)) for k in ('plyts', 'laminaprops', 'rhos') if k in cfg}
    s = Shell(**cfg)
    for k, v in lists.items():
        setattr(s, k, v)
    s.out_num_cores = 2
    return s


def brief(cfg):
    out = {k: v for k, v in cfg.items() if k not in FLAGS}
    out['free'] = ' '.join(k for k in FLAGS if cfg.get(k))
    return out


def ritz(rng, P, kind='smooth', amp=None):
    """Ritz constants; amplitudes make non-linear and linear strains comparable."""
    c = rng.standard_normal(P.size)
    i = np.arange(P.size)//3
    deg = (i % P.m) + (i // P.m)
    c *= 0.6**deg if kind == 'smooth' else 1.
    h = P.lam.h if P.lam is not None else 1e-3
    L = min(P.a, P.b)
    w = h*10**rng.uniform(-1, 1) if amp is None else amp
    c[2::3] *= w
    c[0::3] *= w*w/L + 1e-3*w
    c[1::3] *= w*w/L + 1e-3*w
    return c


def partial(rng, s):
    """Random sub-domain limits, for x, y or both."""
    mode = rng.choice(['x', 'y', 'xy'])
    if 'x' in mode:
        u = np.sort(rng.uniform(0, 1, 2))
        s.x1, s.x2 = float(u[0]*s.a), float(u[1]*s.a)
        if rng.random() < 0.3:
            s.x1 = 0.
    if 'y' in mode:
        u = np.sort(rng.uniform(0, 1, 2))
        s.y1, s.y2 = float(u[0]*s.b), float(u[1]*s.b)
        if rng.random() < 0.3:
            s.y2 = s.b
    return mode


def hetABD(rng, P, nx, ny):
    """One positive definite laminate matrix per integration point: two random
    anisotropic layers each, so A, B and D are symmetric and B is not zero."""
    h = P.lam.h
    q = np.abs(np.diag(P.lam.A)).max()/h
    t1 = h*rng.uniform(0.2, 0.8, (nx, ny)); t2 = h - t1
    zmid = h*rng.uniform(-0.5, 0.5)
    out = np.zeros((nx, ny, 6, 6))
    for t, z in ((t1, zmid - t2/2), (t2, zmid + t1/2)):
        G = np.eye(3) + 0.4*rng.standard_normal((nx, ny, 3, 3))
        Q = q*np.einsum('xyij,xykj->xyik', G, G)*rng.uniform(0.3, 2., (nx, ny, 1, 1))
        out[..., :3, :3] += Q*t[..., None, None]
        out[..., :3, 3:] += Q*(t*z)[..., None, None]
        out[..., 3:, :3] += Q*(t*z)[..., None, None]
        out[..., 3:, 3:] += Q*(t*z*z + t**3/12)[..., None, None]
    return out
