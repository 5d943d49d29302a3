"""C05: ranks, ties, reliability index."""
import os
import numpy as np
import PyAnEn
from PyAnEn.Verify import Verify
import PyAnEn.utils_verify as uv
import gen
from .common import *


def one(rec, rng, k):
    h = rec.history()
    skip = bool(k % 2)
    if skip: h.opt('skip', True)
    nan = [0.0, 0.0, 0.15, 0.4][k % 4]
    lo, hi = [(-20, 21), (0, 3), (0, 2), (0, 1)][(k // 4) % 4]
    fdt = gen.mixed(rng, ('int32', 'int64', 'float32'))
    d = gen.ens(rec, rng, nan=nan, s=gen.shape(rng, nd=int(rng.integers(1, 4)), cap=24), m=int(rng.integers(1, 8)), lo=lo, hi=hi, x=gen.magnitude(rng),
                off=0 if fdt == 'float32' else gen.offset(rng), fdt=fdt)
    v = h.new('ens', d, eax=gen.eax(rng, d))
    for _ in range(4): h.call(v, 'rank_hist')
    if k % 3 == 0:
        v = h.new('ens', d, eax=gen.eax(rng, d), ax=gen.axes(rng, d.oi.ndim))
        h.call(v, 'rank_hist')


def small(rec, n, i):
    for k in range(n): one(rec, rec.rng, k + 5 * i)


def large(rec, n, i):
    """Many members."""
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        if k % 5 == 4: d = gen.ens(rec, rng, s=(350, 2), m=6, lo=-9, hi=10, u=4, off=-3 * 2 ** 22)       # many cells, fine differences
        else: d = gen.ens(rec, rng, s=(2,) if k % 2 else (1, 3), m=[140, 301, 256, 700][k % 4], lo=-200, hi=201, u=1, off=gen.offset(rng))
        v = h.new('ens', d, eax=gen.eax(rng, d))
        share = k % 5 != 4 and rng.random() < 0.5
        if share:
            for a, b in (('workers', '2'), ('chunksize', '2')): os.environ['pyanen_tqdm_' + a] = b
        for _ in range(2): h.call(v, 'rank_hist')
        for a in ('workers', 'chunksize'): os.environ['pyanen_tqdm_' + a] = '1'


def fair(rec, n, i):
    """Tied cells draw every position equally often, whatever the other cells are."""
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        ties, below, above = 1 + (k + i) % 4, int(rng.integers(0, 3)), int(rng.integers(0, 3))
        if k % 8 == 7: ties = int(rng.integers(9, 15))
        N = 3000
        cell = np.concatenate([np.full(below, -1.0), np.zeros(ties), np.full(above, 2.0)])
        f = np.tile(rng.permutation(cell), (N, 1))
        o = np.zeros(N)
        mode = (k // 2) % 4
        if mode == 1:                                  # every other cell not tied
            f = np.repeat(f, 2, 0); f[1::2] = np.arange(5, 5 + len(cell)); o = np.zeros(2 * N)
        if mode == 2:                                  # neighbours with another number of ties
            f = np.repeat(f, 2, 0); f[1::2] = 3.0; f[1::2, 0] = 0.0; o = np.zeros(2 * N)
        shp = o.shape
        if mode == 3: f, o = f.reshape(2, N // 2, -1), o.reshape(2, N // 2)
        if k % 2: f = np.moveaxis(f, -1, 0).copy()
        r, ex = guarded(lambda: PyAnEn.VerifyEnsemble(f, o, ensemble_axis=0 if k % 2 else -1).rank_hist())
        if ex:
            rec.fact('ok', r=ex, why='rank histogram of tied observations'); continue
        r = np.asarray(r).ravel()
        tied = r[::2] if mode in (1, 2) else r
        c = [int(np.count_nonzero(tied == below + 1 + j)) for j in range(ties + 1)]
        rec.fact('true', x=sum(c) == N, why='tied rank outside its positions')
        rec.fact('fair', c=c, why='ties not broken uniformly')
        a, b = tied[0::2][:N // 2], tied[1::2][:N // 2]           # neighbouring cells independent
        j = [int(np.count_nonzero((a == below + 1 + p) & (b == below + 1 + q))) for p in range(ties + 1) for q in range(ties + 1)]
        rec.fact('fair', c=j, why='ties of different cells not independent')


def shared(rec, n, i):
    """Ties are broken separately in every cell and in every call when the work is shared as well."""
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        ties = 1 + k % 3
        N = 600
        f, o = np.zeros((N, 2, ties)), np.zeros((N, 2))
        ax = [-2, -1][k % 2]
        if ax == -1: f, o = np.moveaxis(f, 1, 0).copy(), o.T.copy()
        os.environ['pyanen_tqdm_workers'] = str(rng.choice([2, 3]))
        os.environ['pyanen_tqdm_chunksize'] = str(rng.choice([200, 300]))
        os.environ['pyanen_tqdm_map_axis'] = str(ax)
        v = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1)
        r = [guarded(lambda: np.asarray(v.rank_hist()), 120) for _ in range(2)]
        for a, b in (('workers', '1'), ('chunksize', '1'), ('map_axis', '-1')): os.environ['pyanen_tqdm_' + a] = b
        if r[0][1] or r[1][1]: rec.fact('ok', r=r[0][1] or r[1][1], why='rank histogram of tied observations'); continue
        x, y = (z.reshape(N, 2) if ax == -2 else z.reshape(2, N).T for z, _ in r)
        pairs = lambda p, q: [int(np.count_nonzero((p == i) & (q == j))) for i in range(1, ties + 2) for j in range(1, ties + 2)]
        rec.fact('fair', c=pairs(x, y), why='the same ranks again')
        rec.fact('fair', c=pairs(x[:200], x[200:400]), why='ties of different cells not independent')
        rec.fact('fair', c=pairs(x[:300], x[300:]), why='ties of different cells not independent')


def single(rec, n, i):
    """One cell at a time, many calls."""
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        ties = 1 + k % 3
        f = np.concatenate([np.zeros(ties), np.arange(1, 1 + k % 2)])
        shp = [(1,), (1, 1)][k % 2]
        f = f.reshape(shp + (-1,))
        V, ex = guarded(lambda: PyAnEn.VerifyEnsemble(f, np.zeros(shp), ensemble_axis=-1))
        c, bad = [0] * (ties + 1), None
        for _ in range(400):
            r, bad = guarded(lambda: V.rank_hist())
            if bad: break
            x = int(np.asarray(r).ravel()[0]) - 1
            if 0 <= x <= ties: c[x] += 1
        rec.fact('ok', r=bad or {'t': 'ok'}, why='rank histogram of a single tied cell')
        rec.fact('true', x=sum(c) == 400, why='tied rank outside its positions')
        rec.fact('fair', c=c, why='ties not broken uniformly')


def index(rec, n, i):
    rng = rec.rng
    rec.history()
    for k in range(n):
        m = int(rng.integers(1, 12))
        hst = rng.integers(0, 9, m)
        if k % 5 == 0: hst = np.full(m, int(rng.integers(1, 9)))
        if hst.sum() == 0: hst[0] = 1
        a = hst.astype(float) if k % 2 else hst
        if k % 3 == 0: a = hst / hst.sum()
        elif k % 3 == 1: a = hst / 2.0 ** int(rng.integers(-3, 12))
        rec.fact('relindex', h=[int(x) for x in hst], r=res('cdf', lambda: Verify.reliability_index(a)))


def jobs(tier, seed):
    q = tiered(tier, 1, 10)
    return split('small', small, 100 * q, 4) + split('fair', fair, 16 * q, 2) + split('single', single, 6 * q, 1) + split('index', index, 300 * q, 1) + split('large', large, 5 * q, 1) + split('shared', shared, 4 * q, 1)


def models(tier):
    return [model(tiered(tier, 'MC_ens', 'MC_ens5'))]
