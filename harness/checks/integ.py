"""Shared by C15, C16, C19: integrations of the real code under a prescribed schedule."""
import fakeray
fakeray.install()
import os
import numpy as np
import PyAnEn
from PyAnEn.utils_approximation import Integration
import gen
from rec import CLS
from .common import *

BOOLS = {'pyanen_tqdm_disable', 'pyanen_tqdm_leave', 'pyanen_use_tensorflow_math', 'pyanen_skip_nan',
         'pyanen_split_crps_ensemble_along_0', 'pyanen_integrate_with_less_memory'}


def parsed_env():
    res = []
    for k in sorted(os.environ):
        if not k.startswith('pyanen_'): continue
        v = os.environ[k]
        if k in BOOLS: v = 'true' if v.lower() in ('y', 'yes', 't', 'true', 'on', '1') else 'false' if v.lower() in ('n', 'no', 'f', 'false', 'off', '0') else v
        res.append(k + '=' + v)
    return res


def listing(d):
    return sorted(os.listdir(d))


def nodes(lo, hi, n):
    from fractions import Fraction as Q
    return [Q(lo) + (Q(hi) - Q(lo)) * i / (n - 1) for i in range(n)]


class FDict(dict):
    """Forecast parameters; counts accesses and fails at a chosen one."""
    count, fail_at, exc = 0, None, ValueError

    def __getitem__(self, k):
        FDict.count += 1
        if FDict.fail_at is not None and FDict.count >= FDict.fail_at:
            raise FDict.exc('forecast not available')
        return dict.__getitem__(self, k)


def problem(rec, rng, n, cls=None, cap=8):
    """A forecast with exact trapezoid sums on a grid of n points: (cls, dataset, lo, hi) with lo, hi integers."""
    from fractions import Fraction as Q
    cls = cls or str(rng.choice(['ens', 'gauss', 'gamma', 'hurdle', 'hurdle']))
    while True:
        s = gen.shape(rng, cap=cap)
        u = int(rng.choice([1, 2]))
        if cls == 'ens':
            d = gen.ens(rec, rng, s=s if len(s) < 4 else (2, 2), m=int(rng.choice([1, 2, 4])), u=u, lo=0, hi=9)
        else: d = gen.step(rec, rng, cls, s=s, u=u)
        lo = int(rng.integers(0, 3)); hi = lo + int(rng.choice([3, 4, 6, 8, 9]))
        xs = nodes(lo, hi, n)
        step = xs[1] - xs[0] if n > 1 else Q(1)
        dyadic = (step.denominator & (step.denominator - 1)) == 0
        locs = {Q(int(x), u) for x in d.fi.ravel()}
        obs = {Q(int(x), u) for x in d.oi.ravel()}
        hit_loc, hit_obs = any(x in locs for x in xs), any(x in obs for x in xs)
        if hit_loc and (cls in ('gamma', 'hurdle') or not dyadic): continue
        if hit_obs and not dyadic: continue
        return cls, d, lo, hi


def build(cls, d, dirpath=None, faulty=False):
    f, o = d.arrays()
    if faulty and isinstance(f, dict): f = FDict(f)
    kw = {}
    if dirpath: kw.update(working_directory=dirpath, start_from_scratch=False)
    if cls == 'ens': kw['ensemble_axis'] = 0 if d.eax_choices[0] == 0 else -1
    FDict.fail_at = None
    return getattr(PyAnEn, CLS[cls])(f, o, **kw)


def eax_of(d):
    return -1 if not hasattr(d, 'eax_choices') else (0 if d.eax_choices[0] == 0 else -1)


def spec_of(rec, d):
    return rec.data[d.id - 1]


def integral_fact(rec, cls, d, kind, lo, hi, n, r, auto=False):
    rec.fact('integral', d=spec_of(rec, d), cls=cls, eax=eax_of(d), kind=kind, lo=[lo, 1], hi=[hi, 1], n=n, auto=auto, r=r)


def supported():
    return not fakeray.UNSUPPORTED
