"""C06: reliability diagram."""
import numpy as np
from PyAnEn.utils_verify import reliability_diagram
import gen
from .common import *


def util(rec, n, i):
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = gen.shape(rng, nd=int(rng.integers(1, 4)), cap=30, hi=5)
        p, e = probs(rng, s), rng.random(s) < rng.choice([0.2, 0.5, 0.8])
        if k % 6 == 0:                  # the same occupied bins in every slice
            q = probs(rng, s[:1]); p = np.broadcast_to(q.reshape((-1,) + (1,) * (len(s) - 1)), s).copy()
        nb = int(rng.choice([1, 2, 3, 4, 5, 7, 8, 10, 13, 15, 20]))
        ax = gen.axes(rng, len(s))
        if isinstance(ax, int): ax = (ax,)
        rec.fact('rel', p=rats(p), ev=bools(e), s=list(s), nb=nb, **axkw(ax), **bkw(),
                 r=res('reliability', lambda: reliability_diagram(p, e, nb, ax)))


def objs(rec, n, i):
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        cls = ['ens', 'gauss', 'ens', 'hurdle', 'gamma'][(k + i) % 5]
        if cls == 'ens':
            d = gen.ens(rec, rng, s=gen.shape(rng, nd=int(rng.integers(1, 4)), cap=24), m=int(rng.integers(1, 8)), lo=-3, hi=4, x=gen.magnitude(rng))
            kw = {'eax': gen.eax(rng, d)}
        else:
            d = gen.step(rec, rng, cls, s=gen.shape(rng, cap=24), x=gen.magnitude(rng)); kw = {}
        v = h.new(cls, d, ax=gen.axes(rng, d.oi.ndim), **kw)
        for _ in range(5):
            h.call(v, 'reliability', over=bool(rng.integers(0, 2)), t=gen.thr(rng, d, cls, -4, 5, off=True), nb=int(rng.choice([1, 2, 3, 5, 10, 15, 20])))
            if rng.random() < 0.5: h.set(v, 'set_avg_axis', gen.axes(rng, d.oi.ndim))


def big(rec, n, i):
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = [(700,), (350, 2), (2, 300)][k % 3]
        p, e = probs(rng, s), rng.random(s) < 0.4
        ax = [None, (0,), (-1,)][k % 3]
        rec.fact('rel', p=rats(p), ev=bools(e), s=list(s), nb=15, **axkw(ax), **bkw(), r=res('reliability', lambda: reliability_diagram(p, e, 15, ax)))


def many(rec, n, i):
    """Many bins, most of them occupied."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        nb = int(rng.choice([32, 48, 80, 150, 220]))
        s = [(3 * nb,), (nb, 2), (2, nb)][k % 3]
        j = rng.integers(0, nb, s)
        p, e = (2 * j + 1) / (2 * nb), rng.random(s) < 0.4
        if k % 3 and rng.random() < 0.5: p = np.broadcast_to(p[:, :1] if k % 3 == 1 else p[:1], s).copy(); ax = (k % 3 - 1,)
        else: ax = None
        rec.fact('rel', p=rats(p), ev=bools(e), s=list(s), nb=nb, **axkw(ax), **bkw(), r=res('reliability', lambda: reliability_diagram(p, e, nb, ax)))


def edges(rec, n, i):
    """Probabilities a little above and a little below the edges of the bins."""
    rng = rec.rng
    for j in range(n):
        rec.history()
        s = gen.shape(rng, nd=int(rng.integers(1, 4)), cap=30, hi=6)
        nb = int(rng.choice([2, 3, 4, 5, 7, 10, 15, 20]))
        d = rng.choice([-1, 1], s)
        k = rng.integers(0, nb, s)
        k = np.where(d < 0, k + 1, k)
        p = k / nb + d * 2.0 ** -int(rng.choice([22, 20, 17, 14]))
        if j % 3 == 0:                  # the same occupied bins in every slice
            shp = (-1,) + (1,) * (len(s) - 1)
            k, d, p = [np.broadcast_to(a[(slice(None),) + (0,) * (len(s) - 1)].reshape(shp), s).copy() for a in (k, d, p)]
        e = rng.random(s) < 0.5
        ax = [None, (0,), gen.axes(rng, len(s))][j % 3]
        if isinstance(ax, int): ax = (ax,)
        rec.fact('reledge', k=[int(x) for x in k.ravel()], d=[int(x) for x in d.ravel()], ev=bools(e), s=list(s), nb=nb, **axkw(ax),
                 r=res('reliability', lambda: reliability_diagram(p, e, nb, ax)))


def jobs(tier, seed):
    q = tiered(tier, 1, 12)
    return split('util', util, 120 * q, 4) + split('objs', objs, 50 * q, 3) + split('edges', edges, 60 * q, 1) + split('big', big, 3 * q, 1) + split('many', many, 6 * q, 1)


def models(tier):
    return [model(tiered(tier, 'MC_pairs', 'MC_pairs5'))]
