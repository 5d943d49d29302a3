"""C02: bootstrap intervals."""
import os
import numpy as np
import PyAnEn
from PyAnEn.utils_verify import boot_arr, reliability_diagram
from PyAnEn.utils_special_boot import corr, brier_decomp
from PyAnEn.utils_ss import binned_spread_skill
import gen
from .common import *

CONFS = [(1, 2), (9, 10), (19, 20), (4, 5), (3, 4), (0, 1), (1, 1)]
MEANS = ['error', 'ab_error', 'sq_error', 'rmse', 'spread', 'crps', 'brier']


def settings(rng):
    ns, reps = int(rng.choice([1, 2, 2, 3])), int(rng.choice([1, 1, 2, 3]))
    if ns == 3: reps = 1
    return ns, reps, CONFS[int(rng.integers(0, len(CONFS)))]


def kwargs(rng, reps, conf):
    """Repeats and confidence by argument or by option."""
    if rng.random() < 0.5: return dict(repeats=reps, confidence=conf[0] / conf[1])
    os.environ['pyanen_boot_repeats'], os.environ['pyanen_boot_confidence'] = str(reps), str(conf[0] / conf[1])
    return {}


def narrow(rng, s, most):
    """Averaging axes with at most `most` cases per cell."""
    while True:
        ax = gen.axes(rng, len(s))
        a = range(len(s)) if ax is None else [ax] if isinstance(ax, int) else ax
        if int(np.prod([s[j] for j in a])) <= most: return ax


def tup(ax): return (ax,) if isinstance(ax, int) else ax


def util(rec, n, i):
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        which = ['boot', 'rel', 'decomp', 'corr', 'ss', 'boot'][(k + i) % 6]
        ns, reps, conf = settings(rng)
        while True:
            s = gen.shape(rng, nd=int(rng.integers(1, 5)), cap=24, hi=4)
            if min(s) <= 4: break
        ax = tup(narrow(rng, s, 5 if which in ('corr', 'decomp') else 8))
        skip = which in ('boot', 'corr', 'ss') and rng.random() < 0.25
        if skip: h.opt('skip', True)
        if which == 'boot':
            v = rng.integers(0, 5, s) / float(rng.choice([1, 2, 3, 4]))
            if rng.random() < 0.3: v = np.broadcast_to(v.ravel()[:1], s).copy()        # constant
            if skip or rng.random() < 0.1: v[rng.random(s) < 0.2] = np.nan
            kw = kwargs(rng, reps, conf)
            if rng.random() < 0.4: os.environ['pyanen_boot_samples'] = str(ns)
            else: kw['n_samples'] = ns
            rec.fact('boot', v=rats(v), s=list(s), **axkw(ax), **bkw(ns, reps, conf), r=res('cdf', lambda: boot_arr(v, ax, **kw)))
        elif which == 'rel':
            p, e = rng.choice([0.0, 0.25, 0.5, 1.0, 1 / 3], s), rng.random(s) < 0.5
            if k % 2: p = np.broadcast_to(p.reshape(s[0], -1)[:, :1].reshape((-1,) + (1,) * (len(s) - 1)), s).copy()
            nb = int(rng.choice([1, 2, 3, 5]))
            if ns == 3: ns = 2
            rec.fact('rel', p=rats(p), ev=bools(e), s=list(s), nb=nb, **axkw(ax), **bkw(ns, reps, conf),
                     r=res('reliability', lambda: reliability_diagram(p, e, nb, ax, boot_samples=ns, **kwargs(rng, reps, conf))))
        elif which == 'decomp':
            p, e = rng.choice([0.0, 0.25, 0.5, 1.0, 0.375], s), rng.random(s) < 0.5
            if reps == 3: reps = 2
            rec.fact('decomp', p=rats(p), ev=bools(e), s=list(s), **axkw(ax), **bkw(ns, reps, conf),
                     r=res('brier_decomp', lambda: brier_decomp(p, e, ax, n_samples=ns, **kwargs(rng, reps, conf))))
        elif which == 'corr':
            x, y = rng.integers(0, 4, s).astype(float), rng.integers(0, 4, s).astype(float)
            if skip: x[rng.random(s) < 0.15] = np.nan; y[rng.random(s) < 0.15] = np.nan
            ns = int(rng.choice([2, 3, 4])); reps = int(rng.choice([1, 1, 3, 5]))
            I = lambda a: [MISS if v != v else int(v) for v in a.ravel()]
            rec.fact('corr', x=I(x), y=I(y), s=list(s), **axkw(ax), **bkw(ns, reps, conf),
                     r=res('corr', lambda: corr(x, y, ax, n_samples=ns, **kwargs(rng, reps, conf))))
        else:
            size = int(np.prod(s))
            var = rng.permutation(size).reshape(s) / 2.0 if rng.random() < 0.7 else rng.integers(0, 3, s) / 2.0
            se = rng.integers(0, 9, s) / 4.0
            cells = int(np.prod([s[a] for a in ax])) if ax is not None else size
            nb = int(rng.integers(1, min(cells, 3) + 1))
            if skip: se[rng.random(s) < 0.2] = np.nan
            if ns == 3: ns = 2
            rec.fact('ss', var=rats(var), sq=rats(se), s=list(s), nb=nb, **axkw(ax), **bkw(ns, reps, conf),
                     r=res('binned_spread_skill', lambda: binned_spread_skill(var.copy(), se.copy(), nb, ax, boot_samples=ns, **kwargs(rng, reps, conf))))


def objs(rec, n, i):
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        cls = ['ens', 'determ', 'gauss', 'ens', 'gamma', 'hurdle'][(k + i) % 6]
        s = gen.shape(rng, nd=int(rng.integers(1, 4)), cap=16, hi=4)
        kw = {}
        skip = rng.random() < 0.2 and cls == 'determ'
        if skip: h.opt('skip', True)
        if cls == 'ens':
            d = gen.ens(rec, rng, s=s, m=int(rng.choice([1, 2, 3])), u=int(rng.choice([1, 2])), lo=0, hi=4, x=gen.magnitude(rng)); kw = {'eax': gen.eax(rng, d)}
            ms = MEANS + ['reliability', 'brier_decomp', 'corr', 'binned_spread_skill']
        elif cls == 'determ': d = gen.det(rec, rng, s=s, lo=0, hi=4, nan=0.15 if skip else 0.0, x=gen.magnitude(rng)); ms = ['error', 'ab_error', 'sq_error', 'rmse', 'corr']
        elif cls in ('gauss', 'gamma') and k % 2: d = gen.point(rec, rng, cls, s=s, u=1, x=gen.magnitude(rng)); ms = ['error', 'ab_error', 'sq_error', 'rmse', 'binned_spread_skill', 'corr']
        else: d = gen.step(rec, rng, cls, s=s, x=gen.magnitude(rng)); ms = ['brier', 'reliability', 'brier_decomp']
        cells = 6
        v = h.new(cls, d, ax=narrow(rng, s, cells) if min(s) <= cells else None, boot=1, **kw)
        for _ in range(6):
            ns, reps, conf = settings(rng)
            m = str(rng.choice(ms))
            if m in ('reliability', 'binned_spread_skill') and ns == 3: ns = 2
            if m in ('brier_decomp',) and reps == 3: reps = 2
            if m == 'corr': ns = int(rng.choice([2, 3])); reps = int(rng.choice([1, 3]))
            h.opt('reps', reps); h.opt('conf', list(conf))
            h.set(v, 'set_boot_samples', ns)
            if rng.random() < 0.5: h.set(v, 'set_avg_axis', narrow(rng, s, cells) if min(s) <= cells else None)
            q = {}
            if m in ('brier', 'reliability', 'brier_decomp'): q = dict(over=bool(rng.integers(0, 2)), t=gen.thr(rng, d, cls, -1, 5, off=True))
            if m == 'reliability': q['nb'] = int(rng.choice([1, 2, 5]))
            if m == 'binned_spread_skill': q['nb'] = int(rng.choice([1, 2]))
            if m == 'corr': q['scale'] = d.u * (6 if cls == 'ens' else 1)
            h.call(v, m, **q)


def fair(rec, n, i):
    """Every case of a cell is drawn equally often, with replacement, on every code path."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        os.environ['pyanen_boot_repeats'] = '1'
        which = ['boot', 'rel', 'decomp', 'ss', 'again', 'corr', 'object'][(k + i) % 7]
        m = int(rng.choice([3, 4, 5]))
        N = 600
        val = np.arange(m).astype(float)
        other = np.zeros(m)
        if which == 'boot':
            c = np.bincount([int(boot_arr(np.stack([val, other], 1), (0,), n_samples=1)[1, 0]) for _ in range(N)], minlength=m)
        elif which == 'object':
            v = PyAnEn.VerifyDeterm(np.stack([other, val]), np.zeros((2, m)), avg_axis=1, boot_samples=1)
            c = np.bincount([int(v.error()[1, 1]) for _ in range(N)], minlength=m)
        elif which == 'rel':
            p, e = val / m, np.arange(m) % 2 == 0
            c = np.bincount([int(round(reliability_diagram(p, e, 1, (0,), boot_samples=1)[0].ravel()[1] * m)) for _ in range(N)], minlength=m)
        elif which == 'decomp':
            p, e = val / m, np.zeros(m, bool)
            c = np.bincount([int(round(np.sqrt(brier_decomp(p, e, (0,), n_samples=1)[0].ravel()[1]) * m)) for _ in range(N)], minlength=m)
        elif which == 'ss':
            c = np.bincount([int(round(binned_spread_skill(val ** 2, val, 1, (0,), boot_samples=1)[0].ravel()[1])) for _ in range(N)], minlength=m)
        elif which == 'again':          # two draws of two cases are equal half of the time
            x = [boot_arr(np.array([[0.0, 0], [1, 1]]), (0,), n_samples=2)[1, 0] for _ in range(N)]
            c = np.array([sum(a == 0.5 for a in x), sum(a != 0.5 for a in x)])
        else:
            x = [float(guarded(lambda: corr(np.array([0.0, 1]), np.array([0.0, 1]), (0,), n_samples=2)[1])[0]) for _ in range(N)]
            c = np.array([sum(a == a for a in x), sum(a != a for a in x)])
        rec.fact('fair', c=[int(x) for x in c], why='cases not drawn equally often: ' + which)


def many(rec, n, i):
    """Large sample and repeat counts."""
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        conf = [(1, 2), (9, 10), (4, 5), (1, 5)][int(rng.integers(0, 4))]
        h.opt('conf', list(conf)); h.opt('reps', 1500)
        R = 1500
        tol = int(1000 * 6 * 0.5 / np.sqrt(R)) + 2
        for which in (['boot', 'rel', 'ss', 'object'] if k % 2 == 0 else ['object2']):
            pop = rng.permutation(1000).astype(float)
            if which == 'boot': t = boot_arr(pop, (0,), n_samples=1)
            elif which == 'object': t = PyAnEn.VerifyDeterm(pop.reshape(10, 100), np.zeros((10, 100)), boot_samples=1).error()
            elif which == 'object2': t = PyAnEn.VerifyEnsemble(np.stack([pop, -pop]), np.zeros(1000), ensemble_axis=0, boot_samples=1).spread() / 2
            elif which == 'rel': t = reliability_diagram(pop / 1000, pop > 3, 1, (0,), boot_samples=1)[0].ravel() * 1000
            else: t = binned_spread_skill(pop, pop, 1, (0,), boot_samples=1)[1].ravel() ** 2
            rec.fact('central', n=1000, conf=list(conf), tol=tol, lo=int(t[0]), mid=int(t[1]), hi=int(t[2]), why=which)
        # replicate correlations of two cases: -1 with probability 2/5
        x, y = np.array([0.0, 1, 2, 3, 10]), np.array([0.0, 1, 2, 3, -10])
        h.opt('skip', True)
        for cf in [(2, 5), (0, 1), (9, 10)]:
            h.opt('conf', list(cf))
            t = guarded(lambda: corr(x, y, (0,), n_samples=2))[0]
            rec.fact('twopoint', conf=list(cf), p=[2, 5], lo=int(round(t[0])), hi=int(round(t[2])))
            t = guarded(lambda: corr(x, -y, (0,), n_samples=2))[0]
            rec.fact('twopoint', conf=list(cf), p=[3, 5], lo=int(round(t[0])), hi=int(round(t[2])))
        # many samples: close to the value without bootstrapping
        h.opt('skip', False); h.opt('conf', [19, 20]); h.opt('reps', 20)
        s = (3, 40)
        f, o = rng.integers(0, 10, s + (5,)) / 10, rng.integers(0, 10, s) / 10
        v0 = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1, avg_axis=1)
        v1 = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1, avg_axis=1, boot_samples=20000)
        for m, kw in (('crps', {}), ('brier', {'over': 0.5}), ('error', {}), ('spread', {}), ('corr', {}), ('brier_decomp', {'below': 0.4}), ('binned_spread_skill', {'nbins': 2})):
            a, b = getattr(v0, m)(**kw), getattr(v1, m)(**kw)
            if not isinstance(a, tuple): a, b = (a,), (b,)
            for x, y in zip(a, b):
                x, y = np.asarray(x), np.asarray(y)
                if m == 'binned_spread_skill': y = np.moveaxis(y, -1, 0)
                rec.fact('near', sx=[3] + list(x.shape), sy=list(y.shape), x=[fix(z, 1000) for _ in range(3) for z in x.ravel()],
                         y=[fix(z, 1000) for z in y.ravel()], tol=60, why='far from the value without bootstrapping: ' + m)


def large(rec, n, i):
    """Long and lopsided series, many repeats."""
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        conf = [(1, 2), (9, 10), (4, 5)][int(rng.integers(0, 3))]
        R = int(rng.choice([120, 400]))
        h.opt('conf', list(conf)); h.opt('reps', R)
        N = [5, 12, 40, 1400, 9][(k + i) % 5]
        v = [int(x) for x in rng.choice(20, 2 if N < 1400 else 3, replace=False)]
        c = [N // 5] + ([N - N // 5] if len(v) == 2 else [N // 2, N - N // 5 - N // 2])
        ns = int(rng.choice([1, 2, N, max(30, N // 2)]))
        if k % 4 == 0: ns = N
        pop = np.repeat(np.array(v, float), c)
        if rng.random() < 0.3: pop = rng.permutation(pop)
        which = ['boot', 'object', 'kept', 'skip', 'rel', 'ss'][int(rng.integers(0, 6))]
        if which == 'skip': os.environ['pyanen_skip_nan'] = 'True'
        if which in ('boot', 'skip'): fn = lambda: boot_arr(pop, (0,), n_samples=ns)
        elif which == 'object': fn = lambda: PyAnEn.VerifyDeterm(pop.reshape(1, -1), np.zeros((1, N)), boot_samples=ns).error()
        elif which == 'kept': fn = lambda: PyAnEn.VerifyDeterm(np.stack([0 * pop, pop], 1), np.zeros((N, 2)), avg_axis=0, boot_samples=ns).error()[:, 1]
        elif which == 'rel': fn = lambda: reliability_diagram(pop / 20, pop > 3, 1, (0,), boot_samples=ns)[0].ravel() * 20
        else: fn = lambda: binned_spread_skill(pop, pop, 1, (0,), boot_samples=ns)[1].ravel() ** 2
        t, ex = guarded(fn)
        os.environ['pyanen_skip_nan'] = 'False'
        if ex: rec.fact('true', x=False, why='refused: ' + which, ex=ex); continue
        rec.fact('draws', v=v, c=c, k=ns, reps=R, conf=list(conf), lo=fix(t[0], 1000), mid=fix(t[1], 1000), hi=fix(t[2], 1000), what=which)


def jobs(tier, seed):
    q = tiered(tier, 1, 12)
    return split('util', util, 110 * q, 6) + split('objs', objs, 40 * q, 6) + split('fair', fair, 7 * q, 2) + split('many', many, 2 * q, 2) + split('large', large, 60 * q, 2)


def models(tier):
    return [model(tiered(tier, 'MC_boot', 'MC_boot4'))]
