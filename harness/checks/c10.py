"""C10: intersection over union."""
import numpy as np
from PyAnEn.utils_verify import iou_determ
import gen
from .common import *


def one(rec, rng, k):
    h = rec.history()
    cls = ['determ', 'ens', 'gauss', 'gamma', 'hurdle', 'ens'][k % 6]
    kw = {}
    nan = 0.2 if k % 4 == 0 else 0.0
    rep = None
    if cls == 'determ' and k % 12 == 6:         # very many cells
        s = gen.shape(rng, nd=int(rng.integers(1, 3)), cap=12)
        rep = (int(rng.integers(0, len(s))), int(rng.choice([300, 4000, 30000])))
        d = gen.det(rec, rng, nan=nan, lo=-3, hi=4, u=1, s=s, rep=rep)
    elif cls == 'determ': d = gen.det(rec, rng, nan=nan, lo=-3, hi=4, u=1, s=gen.shape(rng, cap=30), x=gen.magnitude(rng), off=gen.offset(rng), fdt=gen.mixed(rng))
    elif cls == 'ens':
        d = gen.ens(rec, rng, nan=0.0, nan_o=nan, lo=-3, hi=4, u=1, m=int(rng.choice([1, 2, 4, 8])), x=gen.magnitude(rng), off=gen.offset(rng))
        kw = {'eax': gen.eax(rng, d), 'col': str(rng.choice(['mean', 'max', 'min', 'median']))}
    elif cls in ('gauss', 'gamma') and k % 12 < 6: d = gen.point(rec, rng, cls, nan=nan, u=1, x=gen.magnitude(rng))
    else: d = gen.step(rec, rng, cls, u=1, x=gen.magnitude(rng))
    n = d.oi.ndim
    if k % 5 == 0: h.opt('skip', True)
    axes = (lambda: (rep[0],) if n > 1 and rng.random() < 0.5 else None) if rep else lambda: gen.axes(rng, n)
    v = h.new(cls, d, ax=axes(), **kw)
    for _ in range(4):
        if cls in ('determ', 'ens') or d.kind == 'point':
            h.call(v, 'iou_determ', over=bool(rng.integers(0, 2)), t=gen.thr(rng, d, cls, -4, 5), thr_style=str(rng.choice(['float', 'int'])))
        if d.kind in ('ens', 'step'):
            for pover in (False, True):
                h.call(v, 'iou_prob', over=bool(rng.integers(0, 2)), t=gen.thr(rng, d, cls, -4, 5, off=True, per_cell=0.2), pover=pover,
                       pt=int(rng.choice([4, 12, 20, 28] if d.kind == 'step' else [0, 4, 8, 12, 16, 24, 28, 32])))
        h.set(v, 'set_avg_axis', axes())


def small(rec, n, i):
    for k in range(n): one(rec, rec.rng, k + i)


def util(rec, n, i):
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = gen.shape(rng, cap=40)
        f, o = rng.integers(0, 4, s).astype(float), rng.integers(0, 4, s).astype(float)
        if k % 3 == 0: f[rng.random(s) < 0.2] = np.nan
        t = int(rng.integers(-1, 5))
        ax = gen.axes(rng, len(s))
        if isinstance(ax, list): ax = tuple(ax)
        over = bool(k % 2)
        fb, ob = (f > t, o > t) if over else (f < t, o < t)
        rec.fact('iou', fb=bools(fb), ob=bools(ob), s=list(s), **axkw(ax), r=res('cdf', lambda: iou_determ(f, o, axis=ax, **{'over' if over else 'below': t})))


def jobs(tier, seed):
    q = tiered(tier, 1, 12)
    return split('small', small, 70 * q, 6) + split('util', util, 200 * q, 2)


def models(tier):
    return [model(tiered(tier, 'MC_pairs', 'MC_pairs5'))]
