"""C09: correlation."""
import numpy as np
from PyAnEn.utils_special_boot import corr
import gen
from .common import *


def pairs(rng, s, nan=0.0):
    x, y = rng.integers(0, 5, s).astype(float), rng.integers(0, 5, s).astype(float)
    if nan:
        x[rng.random(s) < nan] = np.nan
        y[rng.random(s) < nan] = np.nan
    return x, y


def I(a):
    return [MISS if v != v else int(v) for v in a.ravel()]


def util(rec, n, i):
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        s = gen.shape(rng, nd=int(rng.integers(1, 5)), cap=48, hi=4) if k % 7 else tuple(int(v) for v in rng.permutation([3, 2, 2, 2, 1]))
        skip = k % 4 == 0
        if skip: h.opt('skip', True)
        x, y = pairs(rng, s, [0.0, 0.0, 0.15, 0.3][(k // 4) % 4] if k % 4 < 2 else 0.0)
        ax = gen.axes(rng, len(s)) if k % 7 else (int(rng.integers(-5, 5)),)
        if isinstance(ax, int): ax = (ax,)
        cells = int(np.prod([s[a] for a in ax])) if ax is not None else int(np.prod(s))
        if cells > 8: continue
        sc, sh = float(rng.choice([1.0, 0.5, 100.0, -3.0])), float(rng.choice([0.0, 7.0]))
        rec.fact('corr', x=I(x * (1 if sc > 0 else -1)), y=I(y), s=list(s), **axkw(ax), **bkw(), r=res('corr', lambda: corr(x * sc + sh, y, ax)))


def objs(rec, n, i):
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        cls = ['determ', 'ens', 'gauss', 'gamma'][(k + i) % 4]
        s = gen.shape(rng, nd=int(rng.integers(1, 5)), cap=[64, 24, 64, 64][(k + i) % 4], hi=3)
        skip = bool(rng.integers(0, 2))
        if skip: h.opt('skip', True)
        nan = 0.2 if rng.random() < 0.4 else 0.0
        if cls == 'determ': d = gen.det(rec, rng, s=s, u=int(rng.choice([1, 4])), lo=0, hi=5, nan=nan, x=gen.magnitude(rng)); kw, sc = {}, d.u
        elif cls == 'ens':
            d = gen.ens(rec, rng, s=s, m=int(rng.integers(1, 3)), u=1, lo=0, hi=4, nan=nan, x=gen.magnitude(rng)); kw, sc = {'eax': gen.eax(rng, d)}, 2
        else:
            d = gen.point(rec, rng, cls, s=s, u=1, x=gen.magnitude(rng)); d.fi  # integer means
            kw, sc = {}, 1
        def some():
            while True:
                ax = gen.axes(rng, len(s))
                a = range(len(s)) if ax is None else [ax] if isinstance(ax, int) else ax
                if int(np.prod([s[j] for j in a])) <= (5 if cls == 'ens' else 6) or int(np.prod(s)) > 6 and ax is None and False: return ax
                if all(x > 1 for x in s) and min(s) > 6: return ax
        v = h.new(cls, d, ax=some() if min(s) <= 5 else None, **kw)
        for _ in range(4):
            h.call(v, 'corr', scale=sc)
            h.set(v, 'set_avg_axis', some())


def many(rec, n, i):
    """Long series: one is an arrangement of the other."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        N = int(rng.integers(1500, 4000))
        x = rng.integers(0, 7, N)
        y = np.where(rng.random(N) < 0.5, x, -1)        # half of them stay
        y[y < 0] = rng.permutation(x[y < 0])
        s = (N,) if k % 2 else (1, N)
        r, ex = guarded(lambda: float(np.asarray(corr(x.reshape(s) * 0.5, y.reshape(s) + 3.0, None if k % 2 else (-1,))).ravel()[0]))
        rec.fact('true', x=ex is None, why='refused', ex=ex or {})
        if ex is None: rec.fact('corrperm', x=[int(v) for v in x], y=[int(v) for v in y], r=fix(r, 2 ** 14))


def fixedpoint(rec, n, i):
    """Longer series, general values: bounds, symmetry, invariance, and slices on their own."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = gen.shape(rng, nd=int(rng.integers(1, 4)), cap=120, hi=12)
        x, y = rng.normal(size=s), rng.normal(size=s)
        y = y + rng.choice([0, 1, -2]) * x
        ax = gen.axes(rng, len(s))
        if isinstance(ax, int): ax = (ax,)
        allax = tuple(range(len(s))) if ax is None else tuple(a % len(s) for a in ax)
        if int(np.prod([s[a] for a in allax])) < 3: continue
        r1, e1 = guarded(lambda: np.asarray(corr(x, y, ax)))
        r2, e2 = guarded(lambda: np.asarray(corr(y, x, ax)))
        r3, e3 = guarded(lambda: np.asarray(corr(5 * x - 2, 0.25 * y + 3, ax)))
        if e1 or e2 or e3:
            rec.fact('ok', r=e1 or e2 or e3, why='correlation'); continue
        kept = [a for a in range(len(s)) if a not in allax]
        solo = np.empty([s[a] for a in kept])
        bad = None
        for ix in np.ndindex(*solo.shape):
            q = [slice(None)] * len(s)
            for a, j in zip(kept, ix): q[a] = j
            c, bad = guarded(lambda: corr(x[tuple(q)].ravel(), y[tuple(q)].ravel()))
            if bad: break
            solo[ix] = c
        if bad: rec.fact('ok', r=bad, why='correlation'); continue
        F = lambda a: [fix(v, 1e8) for v in np.asarray(a).ravel()]
        for other, why in ((r2, 'not symmetric'), (r3, 'not invariant under rescaling'), (solo, 'slice differs from its own correlation')):
            rec.fact('near', sx=list(r1.shape), sy=list(np.shape(other)), x=F(r1), y=F(other), tol=2, why=why)
        rec.fact('range', x=F(r1), lo=-100000001, hi=100000001, why='outside [-1,1]')


def jobs(tier, seed):
    q = tiered(tier, 1, 12)
    return split('util', util, 150 * q, 3) + split('objs', objs, 60 * q, 4) + split('fix', fixedpoint, 60 * q, 1) + split('many', many, 4 * q, 1)


def models(tier):
    return [model(tiered(tier, 'MC_ints', 'MC_ints5'))]
