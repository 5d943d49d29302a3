"""C03: ensemble event probability."""
import os
import numpy as np
import PyAnEn
import PyAnEn.utils_verify as uv
import gen
import rec as rec_mod
from .common import *


def one(rec, rng, k):
    h = rec.history()
    nan = 0.2 if k % 9 == 0 and k % 11 != 3 else 0.0
    whole = k % 11 in (3, 7)      # integer members, thresholds in between
    fdt = None if whole else gen.mixed(rng, ('int32', 'int64', 'float32'))
    d = gen.ens(rec, rng, nan=0.0 if whole else nan, nan_o=0.0, dtype=np.int64 if whole else float, u=2 if whole else None, step=2 if whole else 1,
                s=gen.shape(rng, nd=int(rng.integers(1, 5)), cap=24), m=int(rng.integers(1, 8)), x=gen.magnitude(rng), off=0 if fdt == 'float32' else gen.offset(rng), fdt=fdt)
    if k % 3 == 0: h.opt('skip', True)
    v = h.new('ens', d, eax=gen.eax(rng, d), ax=gen.axes(rng, d.oi.ndim))
    for _ in range(4):
        t = gen.thr(rng, d, 'ens', per_cell=0.4)
        for over in (False, True):
            st = str(rng.choice(['float', 'int']))
            h.call(v, 'cdf', over=over, t=t, thr_style=st)
            if rng.random() < 0.5: h.call(v, 'sharpness', over=over, t=t, thr_style=st)
            if rng.random() < 0.5: h.call(v, 'brier', over=over, t=t, thr_style=st)
    # a threshold on every member value, and the extremes
    for x in sorted(set(int(y) for y in d.fi.ravel() if y == y))[:6]:
        h.call(v, 'cdf', over=False, t={'k': 's', 'v': x})
    h.call(v, 'cdf', over=bool(k % 2), t={'k': 's', 'v': 0}, thr_style='int')
    h.call(v, 'cdf', over=False, t={'k': 's', 'v': -50})
    h.call(v, 'cdf', over=True, t={'k': 's', 'v': 50})


def small(rec, n, i):
    for k in range(n): one(rec, rec.rng, k + i)


def big(rec, n, i):
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        s = [(1500,), (30, 41), (6, 5, 40)][k % 3]
        d = gen.ens(rec, rng, s=s, m=int(rng.integers(2, 4)), u=1, lo=-3, hi=4, x=gen.magnitude(rng))
        v = h.new('ens', d, eax=gen.eax(rng, d))
        h.call(v, 'cdf', over=bool(k % 2), t=gen.thr(rng, d, 'ens', -3, 4, per_cell=0.5))
    h = rec.history()
    d = gen.ens(rec, rng, s=(3,), m=311, u=1, lo=-9, hi=10, x=gen.magnitude(rng))
    v = h.new('ens', d, eax=gen.eax(rng, d))
    for t in range(-10, 11): h.call(v, 'cdf', over=bool(t % 2), t={'k': 's', 'v': t})


def util(rec, n, i):
    """ens_to_prob called directly."""
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        d = gen.ens(rec, rng, nan=0.0, x=gen.magnitude(rng))
        e = [x for x in d.eax_choices if x is not None][k % 2]
        f, o = d.arrays()
        for over in (False, True):
            t = gen.thr(rng, d, 'ens', per_cell=0.5)
            tv = rec_mod.thr_value(d, t)
            rec.fact('ensprob', d={'f': {'s': list(d.fi.shape), 'v': [int(x) for x in d.fi.ravel()]}, 'u': d.u},
                     eax=e, over=over, t=t, r=res('cdf', lambda: uv.ens_to_prob(f, e, **{'over' if over else 'below': tv})))


def kernel(rec, n, i):
    """The kernel-density method, where its sampling grid resolves the kernel."""
    rng = rec.rng
    env = dict(os.environ)
    for k in range(n):
        rec.history()
        s = gen.shape(rng, nd=int(rng.integers(1, 4)), cap=12)
        m = int(rng.integers(2, 9))
        b = float(rng.choice([0.01, 0.5, 1.0, 2.0, 30.0]))
        kern = str(rng.choice(['gaussian', 'gaussian', 'tophat']))
        w = int(rng.integers(1, 120))                           # width of an ensemble, in eighths of the bandwidth
        x = rng.integers(0, w + 1, (m,) + tuple(s))
        x[0], x[1] = 0, w                                       # so that every cell has that width
        x = rng.permuted(x, axis=0)
        mult = -(-56 // w)                                      # the grid starts seven bandwidths below the lowest member
        base = float(rng.choice([0, 0, -3, 40])) * b
        t = rng.integers(-40, w + 48, s) if rng.random() < 0.6 else np.full(s, int(rng.integers(-20, w + 48)))
        eax = int(rng.choice([0, -1, len(s)]))
        f = np.moveaxis(x, 0, eax) * (b / 8) + base
        thr = t * (b / 8) + base
        over = bool(rng.integers(0, 2))
        samples = int((w * mult + w + 48) / 8 * 40)             # at most a fortieth of the bandwidth
        os.environ.update({'pyanen_ens_to_prob_method': 'kde', 'pyanen_kde_bandwidth': repr(b), 'pyanen_kde_kernel': kern, 'pyanen_kde_samples': str(samples), 'pyanen_kde_multiply_spread': str(mult),
                           'pyanen_tqdm_workers': '2' if k % 8 == 0 else '1', 'pyanen_tqdm_disable': 'True'})
        same = len(set(t.ravel())) == 1
        kw = {'over' if over else 'below': float(thr.ravel()[0]) if same and k % 2 else thr}
        try:
            if k % 2: r, ex = guarded(lambda: PyAnEn.VerifyEnsemble(f, np.zeros(s), ensemble_axis=eax).cdf(**kw))
            else: r, ex = guarded(lambda: uv.ens_to_prob(f, eax, **kw))
        finally:
            os.environ.clear()
            os.environ.update(env)
        if ex: rec.fact('true', x=False, why='kernel density refused', ex=ex); continue
        r = np.asarray(r)
        rec.fact('equal', x=list(r.shape), y=[int(v) for v in s], why='shape')
        if list(r.shape) != list(s): continue
        p = 1 - r if over else r
        for c in np.ndindex(*s):
            step = abs(w * mult + int(t[c])) / 8 / (samples - 1)
            rec.fact('kernel', kernel=kern, m=[int(v) for v in x[(slice(None),) + c]], t=int(t[c]), g=int(np.ceil(step * 1000)), v=fix(p[c], 2 ** 30))


def jobs(tier, seed):
    q = tiered(tier, 1, 12)
    return split('small', small, 45 * q, 6) + split('big', big, 3 * q, 1) + split('util', util, 60 * q, 1) + split('kernel', kernel, 30 * q, 2)


def models(tier):
    return [model(tiered(tier, 'MC_ens', 'MC_ens5'))]
