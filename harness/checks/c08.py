"""C08: binned spread-skill."""
from fractions import Fraction
import numpy as np
from PyAnEn.utils_ss import binned_spread_skill
import gen
from .common import *


U = 2.0 ** -25


def near_one(x):
    """The root of the whole or simple number z that x stands for, x being the root of 1 + z * U."""
    def back(y):
        z = (float(y) ** 2 - 1) / U
        if not abs(z) < 1e4: return z
        q = float(Fraction(z).limit_denominator(300))
        return np.sqrt(q if abs(q - z) < 1e-5 else z) if z > -1e-5 and q >= 0 else np.nan
    x = np.asarray(x, float)
    return np.array([back(y) for y in x.ravel()]).reshape(x.shape)


def fine(rec, n, i):
    """Spreads that differ in the last digits only, and many kept series."""
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        if k % 2: s = gen.shape(rng, nd=int(rng.integers(1, 4)), cap=30, hi=5); ax = gen.axes(rng, len(s))
        else: s, ax = [((3, 40), (0,)), ((25, 4), (-1,)), ((2, 5, 7), 0), ((4, 33), [0])][int(rng.integers(0, 4))]
        if isinstance(ax, int): ax = (ax,)
        if k % 8 == 6: s, ax = [((90,), (0,)), ((2, 75), (-1,)), ((41, 3), (0,))][int(rng.integers(0, 3))]
        size = int(np.prod(s))
        var = rng.permutation(size).reshape(s).astype(float)
        se = rng.integers(0, 9, s) / 4.0
        cells = int(np.prod([s[a] for a in ax])) if ax is not None else size
        nb = int(rng.integers(1, cells + 1)) if k % 8 != 6 else int(rng.integers(32, cells + 1))

        def ask():
            a, b = binned_spread_skill(1 + var * U, se.copy(), nb, ax)
            return near_one(a), b
        if k % 4 == 1 and size <= 40:      # a case per bin, spreads many orders of magnitude apart
            nb, off = cells, int(rng.integers(0, 200))

            def ask():
                a, b = binned_spread_skill(2.0 ** (16 * var - off), se.copy(), nb, ax)
                return np.sqrt(np.round(2 * np.log2(a) + off, 6) / 16), b
        rec.fact('ss', var=rats(var), sq=rats(se), s=list(s), nb=nb, **axkw(ax), **bkw(), r=res('binned_spread_skill', ask))


def util(rec, n, i):
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        s = gen.shape(rng, nd=int(rng.integers(1, 4)), cap=30, hi=5)
        size = int(np.prod(s))
        var = (rng.permutation(size).reshape(s) if k % 2 else rng.integers(0, 4, s)) / 2.0
        se = rng.integers(0, 9, s) / 4.0
        skip = k % 5 == 0
        if skip:
            h.opt('skip', True); se[rng.random(s) < 0.2] = np.nan
        ax = gen.axes(rng, len(s))
        if isinstance(ax, int): ax = (ax,)
        cells = int(np.prod([s[a] for a in ax])) if ax is not None else size
        nb = int(rng.integers(1, cells + 2))
        rec.fact('ss', var=rats(var), sq=rats(se), s=list(s), nb=nb, **axkw(ax), **bkw(),
                 r=res('binned_spread_skill', lambda: binned_spread_skill(var.copy(), se.copy(), nb, ax)))


def objs(rec, n, i):
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        cls = ['ens', 'gauss', 'ens', 'gamma'][(k + i) % 4]
        if k % 5 == 0: h.opt('skip', True)
        if cls == 'ens':
            m = int(rng.choice([1, 2, 3, 4]))          # the mean of three is rounded, and so would be equal variances
            d = gen.ens(rec, rng, s=gen.shape(rng, nd=int(rng.integers(1, 4)), cap=16), m=m, u=int(rng.choice([1, 2])), x=gen.magnitude(rng), off=0 if m == 3 else gen.offset(rng))
            kw = {'eax': gen.eax(rng, d)}
        else:
            d = gen.point(rec, rng, cls, s=gen.shape(rng, cap=20), u=int(rng.choice([1, 2])), x=gen.magnitude(rng)); kw = {}
        v = h.new(cls, d, ax=gen.axes(rng, d.oi.ndim), **kw)
        for _ in range(4):
            h.call(v, 'variance')
            h.call(v, 'binned_spread_skill', nb=int(rng.integers(1, 8)))
            h.set(v, 'set_avg_axis', gen.axes(rng, d.oi.ndim))


def jobs(tier, seed):
    q = tiered(tier, 1, 12)
    return split('util', util, 120 * q, 4) + split('objs', objs, 50 * q, 4) + split('fine', fine, 40 * q, 1)


def models(tier):
    return [model(tiered(tier, 'MC_ints', 'MC_ints5'))]
