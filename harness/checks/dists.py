"""Shared by C12, C13, C14: forecast distributions with arbitrary parameters and their own probabilities."""
import os
import numpy as np
import PyAnEn
import gen
from .common import *

UNIT = 2 ** 30
C = {'gauss': PyAnEn.VerifyProbGaussian, 'gamma': PyAnEn.VerifyProbGamma, 'hurdle': PyAnEn.VerifyProbGammaHurdle}


def fx(a):
    return [fix(x, UNIT) for x in np.asarray(a, float).ravel()]


def gauss(rng, s):
    sig = 2.0 ** rng.integers(-3, 4, s) * rng.uniform(1, 2, s)
    return {'mu': rng.uniform(-2, 4, s) * sig, 'sigma': sig}


def gamma(rng, s, lo=1.0, hi=60.0):
    """Shapes from lo to hi, shifts of either sign."""
    shape = np.exp(rng.uniform(np.log(lo), np.log(hi), s))
    u = np.exp(rng.uniform(-1, 3, s))
    sig = u / np.sqrt(shape)
    sh = np.where(rng.random(s) < 0.7, -1, 1) * rng.uniform(0, 1.2, s) * sig
    sh[rng.random(s) < 0.15] = 0.0
    return {'unshifted_mu': u, 'sigma': sig, 'shift': sh, 'mu': u + sh}


def hurdle(rng, s):
    g = gamma(rng, s)
    pop = rng.uniform(0, 1, s)
    pop[rng.random(s) < 0.15] = 1.0
    pop[rng.random(s) < 0.1] = 0.0
    return {'pop': pop, 'mu': g['unshifted_mu'], 'sigma': g['sigma']}


def rescale(rng, f):
    """The same forecast in other units."""
    g = 2.0 ** gen.magnitude(rng)
    return {k: x if k == 'pop' else x * g for k, x in f.items()}


def curve(v, lo, h, n, skip=()):
    """Own probabilities of every cell on its own grid lo + i h: array (n, cells)."""
    return np.array([np.asarray(v.cdf(below=lo + i * h)).ravel() for i in range(n)])


def types(rec, n, i, metrics):
    """Parameters that are whole numbers, held as integers: the answers are those of the same numbers held as floats."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = gen.shape(rng, cap=12, hi=3)
        cls = ['gauss', 'gamma', 'hurdle'][(k + i) % 3]
        w = lambda lo, hi: rng.integers(lo, hi, s)
        f = {'gauss': lambda: {'mu': w(-4, 7), 'sigma': w(1, 5)}, 'gamma': lambda: (lambda u, h: {'unshifted_mu': u, 'sigma': w(1, 4), 'shift': h, 'mu': u + h})(w(1, 7), w(-3, 2)),
             'hurdle': lambda: {'pop': w(0, 2), 'mu': w(1, 7), 'sigma': w(1, 4)}}[cls]()
        o = w(0, 9)
        trunc = cls != 'hurdle' and bool(rng.integers(0, 2))
        kw = dict(truncated=trunc, pit_randomize_zero_ranks=False, n_sample_members=5 if 'prob_to_ens' in metrics else None)
        if cls == 'hurdle': kw = dict(integration_range=(0.0, 12.0), n_approx_bins=30, pit_randomize_zero_ranks=False)
        t = str(rng.choice(['int16', 'int32', 'int64']))
        which = [x for x in f if rng.random() < 0.7] or list(f)
        a = C[cls]({x: y.astype(t) if x in which else y.astype(float) for x, y in f.items()}, o.astype(t) if rng.random() < 0.5 else o.astype(float), **kw)
        b = C[cls]({x: y.astype(float) for x, y in f.items()}, o.astype(float), **kw)
        thr = [float(rng.uniform(-1, 8)), int(rng.integers(0, 8)), rng.uniform(0, 8, s), w(0, 8)][int(rng.integers(0, 4))]
        over = bool(rng.integers(0, 2))
        for m in metrics:
            if m == 'prob_to_ens' and cls == 'hurdle' or m == 'crps' and cls == 'gamma' and trunc: continue
            r = []
            for v in (a, b):
                np.random.seed(k)
                x = 1.0 * thr if v is b else thr
                y, ex = guarded(lambda: np.asarray(getattr(v, m)(**({'over' if over else 'below': x} if m == 'cdf' else {})), float))
                r.append('refused' if ex else [list(y.shape), [round(float(e) * 2 ** 20) if np.isfinite(e) else repr(float(e)) for e in y.ravel()]])
            if 'refused' in r: rec.fact('equal', x=str(r[0]), y=str(r[1]), why='whole-number parameters: ' + m); continue
            rec.fact('near', sx=r[0][0], sy=r[1][0], x=[x if isinstance(x, int) else -2 ** 31 + 9 for x in r[0][1]], y=[x if isinstance(x, int) else -2 ** 31 + 9 for x in r[1][1]], tol=4, why='whole-number parameters: ' + m)
