import json
import os
import numpy as np
import gen
from rec import guarded, arr, rat, convert, sq, sq_fine, sign, fix, MISS


KNOWN = {(x['property'], x['key']): x['what'] for x in json.load(open(os.path.join(os.path.dirname(__file__), '..', '..', 'known-findings.json')))['findings']}


def known(rec, key):
    """Whether the failure is a listed finding; it is then reported as such."""
    for (p, k), what in KNOWN.items():
        if k == key:
            rec.known.append(what)
            return True
    return False


def axkw(ax):
    return dict(axn=ax is None, ax=[] if ax is None else [ax] if isinstance(ax, int) else [int(a) for a in ax])


def bkw(boot=None, reps=1, conf=(19, 20)):
    return dict(boot=boot or 0, reps=reps, conf=list(conf))


def res(m, fn, seconds=60):
    r, ex = guarded(fn, seconds)
    return ex or {'t': 'ok', 'r': convert(m, r)}


def rats(p):
    return [rat(x) for x in np.asarray(p, float).ravel()]


def bools(e):
    return [bool(x) for x in np.asarray(e).ravel()]


def probs(rng, s):
    """Probabilities that are not on a bin edge by accident of rounding."""
    k = int(rng.integers(0, 4))
    if k == 0: return rng.integers(0, 33, s) / 32
    if k == 1: return rng.integers(0, 4, s) / 3
    if k == 2: return rng.choice([0.0, 1.0, 0.5], s)
    return rng.integers(0, 8, s) / 7


def model(cfg, module='MCScores', **kw):
    return dict(module=module, cfg=cfg + '.cfg', **kw)


def tiered(tier, quick, thorough):
    return quick if tier == 'quick' else thorough


def split(name, fn, n, parts, *args):
    """The same generator as several independent jobs (each job has its own random stream)."""
    return [('%s%d' % (name, i), fn, (n, i) + args) for i in range(parts)]
