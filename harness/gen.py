"""Random small inputs.  All values are integers in units of 1/u."""
import numpy as np
from rec import Dataset


def shape(rng, nd=None, hi=4, cap=36):
    while True:
        n = nd or int(rng.integers(1, 5))
        r = rng.random()
        if nd is None and r < 0.08:             # many axes
            s = [int(x) for x in rng.choice([1, 1, 2, 2, 3], int(rng.integers(5, 7)))]
            if int(np.prod(s)) <= cap: return tuple(s)
            continue
        if hi >= 4 and cap > hi and r > 0.95:                # a long axis
            s = [int(x) for x in rng.choice([1, 1, 2], n)]
            s[int(rng.integers(0, n))] = int(rng.integers(hi + 1, cap + 1))
            if int(np.prod(s)) <= cap: return tuple(s)
            continue
        mode = rng.integers(0, 4)
        if mode == 0:
            k = int(rng.integers(1, 4)); s = [k] * n            # equal lengths hide nothing about axis mix-ups
        else:
            s = [int(x) for x in rng.integers(1, hi + 1, n)]
        if int(np.prod(s)) <= cap: return tuple(s)


def magnitude(rng):
    """A power of two that multiplies all the data: what tiny and huge numbers yield."""
    return int(rng.choice([0, 0, 0, -20, -34, -44, 24, 40]))


def offset(rng):
    """A number added to forecasts, observations and thresholds alike."""
    return int(rng.choice([0, 0, 0, 0, 2 ** 22, -3 * 2 ** 22]))


def mixed(rng, kinds=('int32', 'int64', 'int64')):
    """A type for the forecasts that the observations do not have (or none)."""
    return str(rng.choice(kinds)) if rng.random() < 0.2 else None


def whole(a, u, fdt):
    """Values that the type of the forecasts can hold."""
    return a if not fdt or 'int' not in fdt else u * np.floor(a / u)


def axes(rng, n, allow_none=True):
    """Averaging axes as a user may write them."""
    k = int(rng.integers(0, 8))
    if k == 0 and allow_none: return None
    if k == 1:
        return int(rng.integers(-n, n))
    m = int(rng.integers(1, n + 1))
    ax = [int(a) for a in rng.permutation(n)[:m]]
    ax = [a - n if rng.random() < 0.4 else a for a in ax]
    return ax if k == 2 else tuple(ax)


def values(rng, s, lo=-6, hi=7, nan=0.0):
    a = rng.integers(lo, hi, s).astype(float)
    if nan: a[rng.random(s) < nan] = np.nan
    return a


def det(rec, rng, s=None, nan=0.0, u=None, lo=-6, hi=7, **kw):
    s = s or shape(rng)
    u = u or int(rng.choice([1, 2, 4]))
    fdt = kw.get('fdt')
    return Dataset(rec, 'det', whole(values(rng, s, lo, hi, 0.0 if fdt else nan), u, fdt), values(rng, s, lo, hi, nan), u, **kw)


def ens(rec, rng, s=None, m=None, first=None, nan=0.0, nan_o=None, u=None, lo=-6, hi=7, step=1, **kw):
    s = s or shape(rng, nd=int(rng.integers(1, 4)), cap=16)
    m = m or int(rng.integers(1, 6))
    first = bool(rng.integers(0, 2)) if first is None else first
    u = u or int(rng.choice([1, 2, 4]))
    fs = (m,) + s if first else s + (m,)
    fdt = kw.get('fdt')
    d = Dataset(rec, 'ens', whole(step * values(rng, fs, lo // step, hi // step + step - 1, 0.0 if fdt else nan), u, fdt), step * values(rng, s, lo // step, hi // step + step - 1, nan if nan_o is None else nan_o), u, **kw)
    n = len(fs)
    ambiguous_last = fs[:-1] == s
    d.eax_choices = [0, -n] if first else [-1, n - 1]
    if not first or not ambiguous_last: d.eax_choices = d.eax_choices + [None]
    return d


def eax(rng, d):
    return d.eax_choices[int(rng.integers(0, len(d.eax_choices)))]


def point(rec, rng, cls, s=None, nan=0.0, u=None, **kw):
    s = s or shape(rng)
    u = u or int(rng.choice([1, 2, 4]))
    return Dataset(rec, 'point', values(rng, s), values(rng, s, nan=nan), u, sd=rng.integers(1, 6, s), cls=cls, **kw)


def step(rec, rng, cls, s=None, u=None, nan=0.0, lo=1, hi=8, **kw):
    """Sharp distributions: probabilities are 0, 1/2, 1 (hurdle: with the chance of zero)."""
    s = s or shape(rng)
    u = u or int(rng.choice([1, 2]))
    f = rng.integers(lo, hi, s)
    pop = rng.integers(0, 5, s) if cls == 'hurdle' else None
    o = values(rng, s, 0 if cls == 'hurdle' else lo - 1, hi + 1, nan)
    return Dataset(rec, 'step', f, o, u, pop=pop, cls=cls, **kw)


def thr(rng, d, cls, lo=None, hi=None, off=False, per_cell=0.3):
    """A threshold; off: never exactly on a location (gamma and hurdle step forecasts)."""
    lo = -6 if lo is None else lo
    hi = 8 if hi is None else hi
    if d.kind == 'step': lo, hi = 0 if cls == 'hurdle' else -1, 10
    locs = set(int(x) for x in d.fi.ravel() if x == x)
    if rng.random() < per_cell:
        v = []
        flat = d.fi.ravel()
        for k in range(d.oi.size):
            while True:
                x = int(rng.integers(lo, hi))
                if not off or d.kind != 'step' or x != int(flat[k]): break
            v.append(x)
        return {'k': 'a', 'v': v}
    cand = [x for x in range(lo, hi) if not off or d.kind != 'step' or x not in locs]
    return {'k': 's', 'v': int(rng.choice(cand))}
