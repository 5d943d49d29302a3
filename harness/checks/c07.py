"""C07: Brier decomposition."""
import numpy as np
from PyAnEn.utils_special_boot import brier_decomp
import gen
from .common import *


def util(rec, n, i):
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = gen.shape(rng, nd=int(rng.integers(1, 4)), cap=14, hi=4)
        p, e = probs(rng, s), rng.random(s) < rng.choice([0.2, 0.5, 0.8])
        if k % 4 == 1: e = e.astype(float)
        ax = gen.axes(rng, len(s))
        if isinstance(ax, int): ax = (ax,)
        rec.fact('decomp', p=rats(p), ev=bools(e), s=list(s), **axkw(ax), **bkw(), r=res('brier_decomp', lambda: brier_decomp(p, e, ax)))


def large(rec, n, i):
    """Many cases: four occupied bins with as many cases each."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        m = 32
        b = np.stack([rng.choice(20, 4, replace=False) for _ in range(2)])
        p = np.stack([rng.permutation(np.repeat((2 * x + 1) / 40, m)) for x in b])
        p = np.round(p * 32) / 32 if k % 2 else p
        e = rng.random(p.shape) < rng.choice([0.1, 0.5, 0.9])
        s, ax = p.shape, (1,)
        if k % 3 == 1: p, e = p.T.copy(), e.T.copy(); ax = (0,)
        if k % 3 == 2: p, e = p.reshape(2, 8, 16), e.reshape(2, 8, 16); ax = (-1, 1)
        rec.fact('decomp', p=rats(p), ev=bools(e), s=list(p.shape), **axkw(ax), **bkw(), r=res('brier_decomp', lambda: brier_decomp(p, e, ax)))


def edges(rec, n, i):
    """Probabilities a little above and a little below the edges of the bins."""
    rng = rec.rng
    for j in range(n):
        rec.history()
        s = gen.shape(rng, nd=int(rng.integers(1, 4)), cap=16, hi=4)
        ax = gen.axes(rng, len(s))
        if isinstance(ax, int): ax = (ax,)
        if int(np.prod([s[a] for a in (range(len(s)) if ax is None else ax)])) > 8: continue
        d = rng.choice([-1, 1], s)
        k = rng.integers(0, int(rng.choice([2, 20])), s)
        k = np.where(d < 0, k + 1, k)
        p = k / 20 + d * 2.0 ** -40
        e = rng.random(s) < 0.5
        r, ex = guarded(lambda: brier_decomp(p, e, ax))
        if ex is None:
            try: ex = {'t': 'ok', 'r': [arr(x, lambda y: rat(y, 100000, 3e-11)) for x in r]}
            except Exception: ex = {'t': 'ok', 'r': []}
        rec.fact('decompedge', k=[int(x) for x in k.ravel()], d=[int(x) for x in d.ravel()], ev=bools(e), s=list(s), **axkw(ax), r=ex)


def objs(rec, n, i):
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        cls = ['ens', 'gauss', 'ens', 'hurdle', 'gamma'][(k + i) % 5]
        if cls == 'ens':
            d = gen.ens(rec, rng, s=gen.shape(rng, nd=int(rng.integers(1, 4)), cap=12), m=int(rng.choice([1, 2, 3, 4, 5, 7])), lo=-3, hi=4, x=gen.magnitude(rng))
            kw = {'eax': gen.eax(rng, d)}
        else:
            d = gen.step(rec, rng, cls, s=gen.shape(rng, cap=12), x=gen.magnitude(rng)); kw = {}
        if k % 4 == 0: h.opt('skip', True)
        v = h.new(cls, d, ax=gen.axes(rng, d.oi.ndim), **kw)
        for _ in range(4):
            h.call(v, 'brier_decomp', over=bool(rng.integers(0, 2)), t=gen.thr(rng, d, cls, -4, 5, off=True))
            h.set(v, 'set_avg_axis', gen.axes(rng, d.oi.ndim))


def jobs(tier, seed):
    q = tiered(tier, 1, 12)
    return split('util', util, 120 * q, 4) + split('edges', edges, 90 * q, 1) + split('large', large, 6 * q, 1) + split('objs', objs, 50 * q, 4)


def models(tier):
    return [model(tiered(tier, 'MC_pairs', 'MC_pairs5'))]
