"""C01: scores are means over exactly the chosen axes."""
import numpy as np
import PyAnEn
import gen
from rec import guarded, fix

TRUTHY = ['True', 'true', '1', 'yes', 'on']
FALSY = ['False', 'false', '0', 'no', 'off']


def reaxis(h, rng, v, n):
    h.set(v, 'set_avg_axis', gen.axes(rng, n))


def one(rec, rng, k):
    h = rec.history()
    cls = ['determ', 'ens', 'ens', 'gauss', 'gamma', 'ens', 'determ', 'hurdle'][k % 8]
    skip = bool(rng.integers(0, 2))
    h.opt('skip', skip, env=str(rng.choice(TRUTHY if skip else FALSY)))
    nan = float(rng.choice([0, 0, 0.15, 0.5])) if rng.random() < 0.7 else 0.0
    u = int(rng.choice([1, 2, 4]))
    dt = np.float64
    if nan == 0 and u == 1 and rng.random() < 0.3: dt = np.int64
    fdt = gen.mixed(rng) if dt == np.float64 else None
    if cls == 'determ':
        d = gen.det(rec, rng, nan=nan, u=u, dtype=dt, x=gen.magnitude(rng), off=gen.offset(rng), fdt=fdt)
        ms = ['error', 'ab_error', 'sq_error', 'rmse']
    elif cls == 'ens':
        off = 0 if nan else gen.offset(rng)
        d = gen.ens(rec, rng, nan=nan, u=u, dtype=dt, x=gen.magnitude(rng), fdt=fdt, off=off, m=int(rng.choice([1, 2, 4])) if off else None)
        ms = ['error', 'ab_error', 'sq_error', 'rmse', 'spread', 'brier', 'crps']
    elif cls in ('gauss', 'gamma') and rng.random() < 0.6:
        d = gen.point(rec, rng, cls, nan=nan, u=u, x=gen.magnitude(rng))
        ms = ['error', 'ab_error', 'sq_error', 'rmse']
    else:
        d = gen.step(rec, rng, cls, x=gen.magnitude(rng))
        ms = ['brier']
    n = d.oi.ndim
    kw = {'eax': gen.eax(rng, d), 'col': str(rng.choice(['mean', 'mean', 'median', 'max', 'min']))} if cls == 'ens' else {}
    if cls == 'ens' and nan and kw['col'] != 'mean': kw['col'] = 'mean'
    v = h.new(cls, d, ax=gen.axes(rng, n), **kw)
    if rng.random() < 0.3: h.opt('pyanen_split_crps_ensemble_along_0', True)
    for r in range(3):
        for m in ms:
            if m == 'crps' and np.isnan(d.fi).any(): continue
            if m == 'brier':
                if d.kind == 'ens' and np.isnan(d.fi).any(): continue
                t = gen.thr(rng, d, cls, off=True, per_cell=0.25)
                h.call(v, m, over=bool(rng.integers(0, 2)), t=t, thr_style=str(rng.choice(['float', 'int'])))
            else:
                h.call(v, m)
        reaxis(h, rng, v, n)


def small(rec, n, off):
    rng = rec.rng
    for k in range(n): one(rec, rng, k + off)


def big(rec, n):
    """A few large arrays: sizes no unit test uses."""
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        s = [(1201,), (7, 160), (40, 3, 10), (5, 4, 6, 9)][k % 4]
        ax = gen.axes(rng, len(s))
        if k % 2:
            d = gen.det(rec, rng, s=s, u=1, nan=0.02, lo=-3, hi=4, x=gen.magnitude(rng))
            h.opt('skip', k % 4 == 1)
            v = h.new('determ', d, ax=ax)
            for m in ('error', 'ab_error', 'sq_error'): h.call(v, m)
        else:
            d = gen.ens(rec, rng, s=s, m=2, u=1, lo=-3, hi=4, x=gen.magnitude(rng))
            v = h.new('ens', d, ax=ax, eax=gen.eax(rng, d))
            for m in ('error', 'spread', 'crps'): h.call(v, m)
            h.call(v, 'brier', over=bool(k % 2), t={'k': 's', 'v': 0})


def repeated(rec, n):
    """Very many cells: the data over and over again along an averaged axis, which changes no mean."""
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        s = gen.shape(rng, nd=int(rng.integers(1, 4)), cap=12, hi=3)
        a = int(rng.integers(0, len(s)))
        times = int(rng.choice([500, 5000, 40000 // max(1, int(np.prod(s))) * 2]))
        cls = ['determ', 'ens'][k % 2]
        h.opt('skip', k % 3 == 0)
        kw = dict(s=s, u=int(rng.choice([1, 4])), nan=0.1 if k % 4 == 0 else 0.0, rep=(a, times))
        if cls == 'determ': d = gen.det(rec, rng, **kw); ms = ['error', 'ab_error', 'sq_error', 'rmse']; e = {}
        else:
            if kw['u'] == 4: kw['nan'] = 0.0
            d = gen.ens(rec, rng, m=int(rng.choice([1, 2, 3])), **kw); ms = ['error', 'ab_error', 'sq_error', 'spread', 'brier', 'crps']; e = {'eax': gen.eax(rng, d)}
        others = [i for i in range(len(s)) if i != a and rng.random() < 0.5]
        ax = [None, (a, *others), (a - len(s), *others)][int(rng.integers(0, 3))]
        v = h.new(cls, d, ax=ax, **e)
        for m in ms:
            if m in ('brier', 'crps') and np.isnan(d.fi).any(): continue
            h.call(v, m, **({'over': bool(k % 4), 't': gen.thr(rng, d, cls)} if m == 'brier' else {}))


def opaque(rec, n):
    """CRPS and Brier of general distributions: the aggregate is the mean of the cells' own values."""
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        s = gen.shape(rng, cap=24)
        cls = ['gauss', 'gamma', 'hurdle', 'gauss'][k % 4]
        mu = rng.uniform(1, 6, s); sg = rng.uniform(0.3, 2, s); o = rng.uniform(0, 7, s)
        f = {'mu': mu, 'sigma': sg}
        if cls == 'gamma': f = {'mu': mu - 0.5, 'sigma': sg, 'shift': np.full(s, -0.5), 'unshifted_mu': mu}
        if cls == 'hurdle': f = {'mu': mu, 'sigma': sg, 'pop': rng.uniform(0, 1, s)}
        kw = {'truncated': True} if cls == 'gauss' and k % 8 >= 4 else {}
        if cls == 'hurdle': kw = {'integration_range': (0.0, 20.0)}
        C = getattr(PyAnEn, {'gauss': 'VerifyProbGaussian', 'gamma': 'VerifyProbGamma', 'hurdle': 'VerifyProbGammaHurdle'}[cls])
        for m, a in (('crps', {}), ('brier', {'over': 2.5}), ('brier', {'below': 3.25})):
            ax = gen.axes(rng, len(s))

            def cells():
                out = np.empty(s)
                for i in np.ndindex(*s):
                    q = tuple(slice(j, j + 1) for j in i)
                    out[i] = getattr(C({x: y[q] for x, y in f.items()}, o[q], **kw), m)(**a)
                return out
            pw, e1 = guarded(cells)
            val, e2 = guarded(lambda: getattr(C(f, o, avg_axis=ax, **kw), m)(**a))
            if e1 or e2:
                rec.fact('ok', r=e1 or e2, why=cls + ' ' + m)
                continue
            val = np.asarray(val)
            rec.fact('aggregate', cells={'s': list(s), 'v': [fix(x, 1e6) for x in pw.ravel()]}, why=cls + ' ' + m,
                     axn=ax is None, ax=[] if ax is None else [ax] if isinstance(ax, int) else list(ax),
                     r={'s': list(val.shape), 'v': [fix(x, 1e6) for x in val.ravel()]})


def jobs(tier, seed):
    q = 1 if tier == 'quick' else 12
    return [('small%d' % i, small, (64 * q, i)) for i in range(7)] + [('big', big, (4 * q,)), ('opaque', opaque, (12 * q,)), ('repeated', repeated, (10 * q,))]


def models(tier):
    return [dict(module='MCScores', cfg='MC_mean.cfg'), dict(module='MCScores', cfg='MC_ens.cfg')]
