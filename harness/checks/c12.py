"""C12: CRPS."""
from .dists import *

N = 480


def ensemble(rec, n, i):
    """Exact, whole and split along the first axis, either position of the members."""
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        nan_o = 0.0
        d = gen.ens(rec, rng, s=gen.shape(rng, nd=int(rng.integers(1, 4)), cap=18), m=int(rng.integers(1, 8)), nan=0.0, nan_o=nan_o, x=gen.magnitude(rng), off=gen.offset(rng), fdt=gen.mixed(rng))
        h.opt('pyanen_split_crps_ensemble_along_0', str(bool((k + i) % 3)))
        v = h.new('ens', d, eax=gen.eax(rng, d), ax=gen.axes(rng, d.oi.ndim))
        h.call(v, 'crps')
        h.opt('pyanen_split_crps_ensemble_along_0', str(not (k + i) % 3))
        h.set(v, 'set_avg_axis', gen.axes(rng, d.oi.ndim))
        h.call(v, 'crps')


def pointwise(rng, cls, f, o, **kw):
    """CRPS of every cell: averaging over an axis of length one."""
    s = o.shape
    v = C[cls]({k: x.reshape(s + (1,)) for k, x in f.items()}, o.reshape(s + (1,)), avg_axis=len(s), **kw)
    return v, guarded(lambda: np.asarray(v.crps()))


def integral(rec, n, i):
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = gen.shape(rng, cap=4)
        kind = ['gauss', 'trunc', 'gamma', 'hurdle', 'gamma0', 'far'][(k + i) % 6]
        sharp = k % 5 == 4
        far = kind == 'far'             # little is left by the truncation
        if far: kind, sharp = 'trunc', False
        if kind in ('gauss', 'trunc'):
            f = gauss(rng, s)
            if far: f['mu'] = f['sigma'] * np.where(rng.random(s) < 0.7, -np.exp(rng.uniform(0.5, 4.2, s)), rng.uniform(0, 3, s))
            if sharp: f['mu'] = np.abs(f['mu']) + 1; f['sigma'] = f['mu'] * 10.0 ** rng.integers(-6, 0, s)
        elif kind == 'gamma': f = gamma(rng, s, 1.0, 1e7 if sharp else 60.0)
        elif kind == 'gamma0': f = gamma(rng, s, 0.3, 1.0)
        else: f = hurdle(rng, s)
        f = rescale(rng, f)
        cls = {'trunc': 'gauss', 'gamma0': 'gamma'}.get(kind, kind)
        if cls == 'gauss': m, lo, hi = f['mu'], f['mu'] - 7 * f['sigma'], f['mu'] + 7 * f['sigma']
        elif cls == 'gamma': m, lo, hi = f['mu'], f['shift'], f['mu'] + 17 * f['sigma'] * np.maximum(1, f['sigma'] / f['unshifted_mu'])
        else: m, lo, hi = f['mu'], np.zeros(s), f['mu'] + 17 * f['sigma']
        width = np.where(f['mu'] < 0, f['sigma'] ** 2 / np.maximum(-f['mu'], f['sigma']), f['sigma']) if far else f['sigma']
        hi = np.maximum(hi, f['sigma'])
        if far: hi = np.where(f['mu'] < 0, 17 * width, hi)
        # the grid: starts where the distribution starts (or at zero), the observation and zero on it
        if kind == 'gauss':
            h, a = (hi - lo) / N, lo
            j = rng.integers(-30, N + 30, s)
        elif sharp:             # a window around the bulk, the flat part below it left out of the grid
            h = (hi - np.maximum(lo, 0)) / N
            a = np.maximum(lo, 0)
            if cls == 'gamma': a = np.maximum(f['mu'] - 9 * f['sigma'], 0); h = (hi - a) / N
            if kind == 'trunc': h = (hi - a) / N
            j = rng.integers(0, N + 30, s)
        else:
            a, h = np.zeros(s), hi / N
            j = rng.integers(0, N + 30, s)
            if kind == 'trunc': j = np.where(rng.random(s) < 0.35, rng.integers(-40, 0, s), rng.integers(0, N + 30, s))
            j = np.where(rng.random(s) < 0.15, 0, j)
        o = a + j * h
        a = np.where(j < 0, o, a); top = np.maximum(N, j) - np.minimum(j, 0)
        kw = {'truncated': True} if kind == 'trunc' else {}
        per = 4
        if kind == 'hurdle':
            # one range for all cells
            s1 = (1,) * len(s)
            f = {x: y.ravel()[:1].reshape(s1) for x, y in f.items()}
            o, a, h, j, top = (y.ravel()[:1].reshape(s1) for y in (o, a, h, j, top))
            kw = {'integration_range': (0.0, float(h.ravel()[0] * top.ravel()[0])), 'n_approx_bins': int(per * top.ravel()[0] + 1)}
        v, (c, ex) = pointwise(rng, cls, f, o, **kw)
        if ex: rec.fact('true', x=False, why='CRPS refused', kind=kind, ex=ex); continue
        sh1 = o.shape
        if c.shape != sh1: rec.fact('true', x=False, why='shape of the CRPS'); continue
        nn = int(top.max()) + 1
        F = curve(v, a.reshape(sh1 + (1,)), h.reshape(sh1 + (1,)), nn)
        for x in range(o.size):
            hh, sg = float(h.ravel()[x]), float(np.ravel(width)[x])
            n1 = int(top.ravel()[x]) + 1
            kk = int(j.ravel()[x]) + 1 if j.ravel()[x] >= 0 else 1
            tol = 2 ** 20 * (0.8 * hh / sg + 2e-5 * n1) if kind not in ('gamma0', 'hurdle') else 2 ** 20 * (0.6 if kind == 'gamma0' else 1.2 / per)
            # an observation below the grid of a truncated forecast: the grid starts at it
            rec.fact('crpsint', F=fx(F[:n1, x]), k=kk, c=fix(c.ravel()[x] / hh, 2 ** 20), tol=int(tol) + 40, why='CRPS is not the integral',
                     kind=kind, par={y: float(z.ravel()[x]) for y, z in f.items()}, obs=float(o.ravel()[x]), crps=float(c.ravel()[x]))


def sharp(rec, n, i):
    """Very sharp forecasts far from or at the observation: within two standard deviations of the absolute error."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = gen.shape(rng, cap=12)
        kind = ['gauss', 'trunc', 'gamma'][k % 3]
        g = 2.0 ** gen.magnitude(rng)
        mu = rng.uniform(0.5, 50, s) * g
        sig = mu * 10.0 ** rng.uniform(-6 if kind != 'gamma' else -4, -1, s)
        o = np.where(rng.random(s) < 0.3, mu, g * np.round(rng.uniform(0, 60, s), 3))
        f = {'mu': mu, 'sigma': sig}
        if kind == 'gamma':
            sh = rng.choice([-1.0, 0.0, 0.4], s) * mu / 2
            f = {'mu': mu, 'sigma': sig, 'shift': sh, 'unshifted_mu': mu - sh}
        v, (c, ex) = pointwise(rng, 'gauss' if kind == 'trunc' else kind, f, o, **({'truncated': True} if kind == 'trunc' else {}))
        if ex: rec.fact('true', x=False, why='CRPS refused', kind=kind, ex=ex); continue
        d = (c - np.abs(o - mu)) / sig
        rec.fact('range', x=[fix(y, 1000) for y in d.ravel()], lo=-2000, hi=2000, why='CRPS of a sharp forecast')
        rec.fact('range', x=[fix(y, 1000) for y in (c / sig).ravel()], lo=0, hi=2000000000, why='negative CRPS')
        # truncated, with the mean below zero: what is left lies close to zero
        f = {'mu': -mu, 'sigma': sig}
        o = np.where(rng.random(s) < 0.3, 0.0, g * np.round(rng.uniform(-3, 60, s), 3))
        v, (c, ex) = pointwise(rng, 'gauss', f, o, truncated=True)
        if ex: rec.fact('true', x=False, why='CRPS refused', kind='below', ex=ex); continue
        d = (c - np.abs(o)) / sig ** 2 * mu
        big = np.abs(o) / sig ** 2 * mu > 1e12          # beyond the precision of numbers
        rec.fact('range', x=[fix(y, 1000) for y in np.where(big, (c - np.abs(o)) / g, d).ravel()], lo=-2000, hi=2000, why='CRPS of a sharp truncated forecast')
        rec.fact('range', x=[fix(y, 1000) for y in np.minimum(c / sig ** 2 * mu, 1e6).ravel()], lo=0, hi=2000000000, why='negative CRPS')


def averaged(rec, n, i):
    """The CRPS of shifted Gamma forecasts averaged at once."""
    from PyAnEn.utils_crps import crps_gamma
    rng = rec.rng
    for k in range(n):
        rec.history()
        f = gamma(rng, gen.shape(rng, cap=12))
        o = np.maximum(f['mu'] + f['sigma'] * rng.uniform(-1, 3, f['mu'].shape), 0)
        if k % 2: o[rng.random(o.shape) < 0.3] = np.nan
        skip = bool(rng.integers(0, 2))
        os.environ['pyanen_skip_nan'] = str(skip)
        one, ex1 = guarded(lambda: crps_gamma(f['unshifted_mu'], f['sigma'], f['shift'], o, reduce_sum=False))
        r, ex = guarded(lambda: crps_gamma(f['unshifted_mu'], f['sigma'], f['shift'], o))
        os.environ['pyanen_skip_nan'] = 'False'
        if ex or ex1: rec.fact('true', x=False, why='CRPS refused', ex=ex or ex1); continue
        ok = ~np.isnan(one)
        rec.fact('equal', x=[bool(x) for x in ok.ravel()], y=[bool(x) for x in ~np.isnan(o).ravel()], why='missing CRPS')
        if not ok.any() or not skip and not ok.all(): rec.fact('true', x=bool(np.isnan(r)), why='averaged CRPS'); continue
        c = [fix(x / f['sigma'].max(), 2 ** 16) for x in one[ok]]
        rec.fact('range', x=[fix(r / f['sigma'].max(), 2 ** 16) * len(c) - sum(c)], lo=-2 * len(c), hi=2 * len(c), why='averaged CRPS')


def jobs(tier, seed):
    q = tiered(tier, 1, 10)
    return split('averaged', averaged, 60 * q, 1) + split('types', types, 60 * q, 1, ('crps',)) + split('ens', ensemble, 60 * q, 2) + split('integral', integral, 60 * q, 6) + split('sharp', sharp, 60 * q, 1)


def models(tier):
    return [model(tiered(tier, 'MC_ens', 'MC_ens5')), model('MC_dist', 'MCDist')]
