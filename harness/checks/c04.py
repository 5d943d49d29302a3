"""C04: parallel settings."""
import os
import time
import numpy as np
import PyAnEn
from PyAnEn import utils_verify as uv, utils_dist as ud
import gen
from .common import *

# Workers start at different times, the first one last, so that slices finish out of order.
_delay = {'n': 0, 'on': False}
def _before(): _delay['n'] += 1
def _child():
    if _delay['on']: time.sleep([0.06, 0.0, 0.03][_delay['n'] % 3])
os.register_at_fork(before=_before, after_in_child=_child)


def settings(rng, nd, serial=False):
    if serial: e = ('1', '1', '-1')
    else: e = (str(rng.choice([2, 3, 4])), str(rng.choice([1, 1, 2, 5])), str(-int(rng.integers(1, nd + 1))))
    os.environ['pyanen_tqdm_workers'], os.environ['pyanen_tqdm_chunksize'], os.environ['pyanen_tqdm_map_axis'] = e
    _delay['n'], _delay['on'] = 0, not serial
    return e


def fixed(a, scale=10 ** 9):
    a = np.asarray(a)
    return [int(x) for x in a.shape], [fix(x, scale) for x in a.ravel()]


def exactly(rec, n, i):
    """Probabilities and ranks judged by the specification itself, computed in parallel."""
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        cls = ['ens', 'gauss', 'gamma', 'hurdle'][(k + i) % 4]
        s = gen.shape(rng, cap=24)
        if cls == 'ens': d = gen.ens(rec, rng, s=s if len(s) < 4 else s[:3], m=int(rng.integers(1, 6)))
        else: d = gen.step(rec, rng, cls, s=s)
        kw = {'eax': gen.eax(rng, d)} if cls == 'ens' else {}
        v = h.new(cls, d, ax=gen.axes(rng, d.oi.ndim), **kw)
        for _ in range(2):
            settings(rng, d.oi.ndim)
            t = gen.thr(rng, d, cls, off=True)
            h.call(v, 'cdf', over=bool(rng.integers(0, 2)), t=t)
            h.call(v, 'brier', over=bool(rng.integers(0, 2)), t=gen.thr(rng, d, cls, off=True))
        if cls == 'ens': h.call(v, 'rank_hist')


def params(rng, s, kind):
    if kind == 'gauss': return {'mu': rng.uniform(-3, 6, s), 'sigma': rng.uniform(0.3, 3, s)}
    if kind == 'gamma':
        u, sh = rng.uniform(0.5, 6, s), rng.uniform(-2.5, 0.8, s)
        return {'unshifted_mu': u, 'sigma': u * rng.uniform(0.2, 1.2, s), 'shift': sh, 'mu': u + sh}
    return {'pop': rng.uniform(0, 1, s), 'mu': rng.uniform(0.5, 6, s), 'sigma': rng.uniform(0.3, 3, s)}


def against_serial(rec, n, i):
    """Any parameters: serial and parallel results agree."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = gen.shape(rng, cap=40, hi=5) if k % 8 != 7 else [(11, 13), (1, 140), (4, 6, 6), (130,)][int(rng.integers(0, 4))]     # or many cells
        kind = ['gauss', 'gauss_t', 'gamma', 'gamma_t', 'hurdle', 'kde', 'moments', 'rank'][(k + i) % 8]
        o = np.round(rng.uniform(-1, 6, s), 3)
        trunc = kind.endswith('_t')
        cls = kind.split('_')[0]
        thr = float(rng.uniform(-1, 6)) if k % 3 else o.copy()
        if cls in ('gauss', 'gamma', 'hurdle'):
            f = params(rng, s, cls)
            C = {'gauss': PyAnEn.VerifyProbGaussian, 'gamma': PyAnEn.VerifyProbGamma, 'hurdle': PyAnEn.VerifyProbGammaHurdle}[cls]
            v = C(f, o, truncated=trunc, pit_randomize_zero_ranks=False)
            which = str(rng.choice(['cdf', 'over', 'pit', 'util']))
            util = {'gauss': lambda: ud.cdf_gaussian(f['mu'], f['sigma'], thr, trunc),
                    'gamma': lambda: ud.cdf_gamma(f['unshifted_mu'], f['sigma'], f['shift'], thr, trunc),
                    'hurdle': lambda: ud.cdf_gamma_hurdle(f['pop'], f['mu'], f['sigma'], thr)}[cls] if cls in ('gauss', 'gamma', 'hurdle') else None
            fn = {'cdf': lambda: v.cdf(below=thr), 'over': lambda: v.cdf(over=thr), 'pit': v.pit, 'util': util}[which]
            scale = 10 ** 9
        else:
            m = int(rng.integers(2, 6)) if k % 8 != 7 else int(rng.choice([2, 40]))
            first = bool(rng.integers(0, 2))
            f = rng.uniform(-1, 6, ((m,) + s) if first else (s + (m,)))
            if kind == 'rank' and k % 2:
                os.environ['pyanen_skip_nan'] = 'True'
                o[rng.random(s) < 0.2] = np.nan
                f[rng.random(f.shape) < 0.05] = np.nan
            if kind == 'kde':
                os.environ['pyanen_ens_to_prob_method'] = 'kde'
                os.environ['pyanen_kde_samples'] = '60'
                os.environ['pyanen_kde_bandwidth'] = '0.3'
            v = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=0 if first else -1)
            over = bool(rng.integers(0, 2))
            fn = v.rank_hist if kind == 'rank' else (lambda: v.cdf(**{'over' if over else 'below': thr}))
            scale = 1 if kind == 'rank' else 10 ** 8
        settings(rng, len(s), True)
        a, ex = guarded(fn)
        if ex: rec.fact('true', x=False, why='serial run refused', ex=ex); continue
        for _ in range(2):
            e = settings(rng, len(s))
            b, ex = guarded(fn, 120)
            if ex: rec.fact('true', x=False, why='parallel run refused', kind=kind, setting=list(e), shape=list(s), ex=ex); continue
            sx, x = fixed(a, scale); sy, y = fixed(b, scale)
            rec.fact('near', sx=sx, sy=sy, x=x, y=y, tol=0 if kind == 'rank' else 2, why='parallel differs from serial', kind=kind, setting=list(e))


def members(rec, n, i):
    """Sampling: every cell's members where they belong, whatever the distribution of work."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = gen.shape(rng, cap=30)
        cells = np.arange(1, int(np.prod(s)) + 1).reshape(s)
        m = int(rng.integers(1, 6))
        ax = int(rng.integers(-len(s) - 1, len(s) + 1))
        e = settings(rng, len(s), serial=k % 5 == 4)
        trunc = bool(rng.integers(0, 2))
        if (k + i) % 2: f, C = {'mu': cells * 10.0, 'sigma': np.full(s, 0.05)}, PyAnEn.VerifyProbGaussian
        else:
            sh = rng.choice([-3.0, 0.0, 2.0], s)
            f, C = {'unshifted_mu': cells * 10.0 - sh, 'sigma': np.full(s, 0.05), 'shift': sh, 'mu': cells * 10.0}, PyAnEn.VerifyProbGamma
        v = C(f, np.zeros(s), truncated=trunc, n_sample_members=m, move_sampled_ens_axis=ax)
        r, ex = guarded(v.prob_to_ens, 120)
        if ex: rec.fact('true', x=False, why='sampling refused', setting=list(e), ex=ex); continue
        want = np.moveaxis(np.broadcast_to(cells * 10, (m,) + s), 0, ax)
        rec.fact('near', sx=[int(x) for x in r.shape], sy=[int(x) for x in want.shape], x=[fix(x, 100) for x in r.ravel()],
                 y=[int(x) * 100 for x in want.ravel()], tol=60, why='member in the wrong cell', setting=list(e))
        if m > 1: rec.fact('true', x=bool(len(np.unique(r)) == r.size), why='members are not drawn separately')


def jobs(tier, seed):
    q = tiered(tier, 1, 10)
    return split('exact', exactly, 14 * q, 2) + split('serial', against_serial, 40 * q, 5) + split('members', members, 25 * q, 1)


def models(tier):
    return [model('PA_par', 'Parallel'), model('PA_par_mut_order', 'Parallel', expect='violation'), model('PA_par_mut_axis', 'Parallel', expect='violation')]
