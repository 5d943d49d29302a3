"""C11: ROC."""
import numpy as np
import gen
from .common import *
from . import dists
from PyAnEn.utils_verify import calculate_roc


def one(rec, rng, k):
    h = rec.history()
    cls = ['ens', 'gauss', 'hurdle', 'ens', 'gamma'][k % 5]
    kw = {}
    s = gen.shape(rng, cap=24, hi=5)
    if cls == 'ens':
        d = gen.ens(rec, rng, s=s if len(s) < 4 else (5,), nan_o=0.1 if k % 3 == 0 else 0.0, lo=-3, hi=4, m=int(rng.choice([1, 2, 3, 5, 9])), x=gen.magnitude(rng))
        kw = {'eax': gen.eax(rng, d)}
    else:
        d = gen.step(rec, rng, cls, s=s, x=gen.magnitude(rng))
    nanloc = cls == 'gauss' and k % 2 == 1
    if nanloc:
        m = rng.random(s) < 0.25
        d.fi[m] = np.nan
        rec.data[d.id - 1]['f']['v'] = [MISS if x != x else int(x) for x in d.fi.ravel()]
    if k % 4 < 2: h.opt('skip', True)
    v = h.new(cls, d, ax=gen.axes(rng, d.oi.ndim), **kw)
    for _ in range(6):
        h.call(v, 'roc', over=bool(rng.integers(0, 2)), t=gen.thr(rng, d, cls, -3, 4, off=cls != 'gauss'))


def small(rec, n, i):
    for k in range(n): one(rec, rec.rng, k + i)


def ranks(p):
    """Only the order of the probabilities counts: their ranks."""
    return [int(x) for x in np.unique(p, return_inverse=True)[1]]


def order(rec, n, i):
    """Probabilities that differ as little as numbers can, near zero, near one and in between; and those of smooth distributions."""
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        s = gen.shape(rng, cap=14, hi=7)
        N = int(np.prod(s))
        rk = rng.integers(0, max(2, N), s)
        how = (k + i) % 4
        skip = rng.random() < 0.4
        h.opt('skip', bool(skip))
        if how < 3:
            if how == 0: p = float(rng.choice([0.5, 0.0, 0.25, 0.9])) + rk * 10.0 ** -int(rng.integers(2, 16))
            elif how == 1: p = 10.0 ** -(300 - 20.0 * rk)
            else:
                p = np.full(s, 1.0)
                for _ in range(int(rk.max()) + 1): p = np.where(_ < rk, np.nextafter(p, 0), p)
            p = np.clip(p, 0, 1)
            ev = rng.random(s) < 0.5
            fn = lambda: calculate_roc(p, ev)
            if skip: p = np.where(rng.random(s) < 0.2, np.nan, p)
        else:
            cls = ['gauss', 'gamma', 'hurdle'][int(rng.integers(0, 3))]
            f = {'gauss': dists.gauss, 'gamma': dists.gamma, 'hurdle': dists.hurdle}[cls](rng, s)
            if rng.random() < 0.5: f = {a: b.ravel()[0] + (b - b.ravel()[0]) * 1e-9 for a, b in f.items()}      # nearly the same forecast everywhere
            o = np.abs(f['mu']) + rng.normal(size=s) * f['sigma']
            t = float(abs(np.median(f['mu'])) + rng.choice([-1, 0, 1, 6]) * np.median(f['sigma']))
            if t <= 0: t = 0.1
            over = bool(rng.integers(0, 2))
            v = dists.C[cls](f, o)
            p, ex = guarded(lambda: np.asarray(v.cdf(**{'over' if over else 'below': t})))
            if ex: rec.fact('true', x=False, why='refused', ex=ex); continue
            ev = o > t if over else o < t
            fn = lambda: v.roc(**{'over' if over else 'below': t})
        keep = ~np.isnan(p)
        if len(set(ev[keep].ravel().tolist())) < 2: continue
        rec.fact('roc', p=ranks(p[keep]), ev=bools(ev[keep]), r=res('roc', fn), how=how)


def jobs(tier, seed):
    q = tiered(tier, 1, 12)
    return split('small', small, 60 * q, 8) + split('order', order, 60 * q, 3)


def models(tier):
    return [model(tiered(tier, 'MC_pairs', 'MC_pairs5'))]
