"""C13: distribution functions and the probability integral transform."""
from .dists import *
from PyAnEn.utils_dist import cdf_gaussian, cdf_gamma, cdf_gamma_hurdle
TOL = 6


def ask(rng, cls, f, o, thr, trunc, how):
    """The reported probability of not exceeding thr (array or scalar), asked in one of several ways."""
    kw = {'truncated': True} if trunc else {}
    if how == 'util':
        if cls == 'gauss': return cdf_gaussian(f['mu'], f['sigma'], thr, trunc)
        if cls == 'gamma': return cdf_gamma(f['unshifted_mu'], f['sigma'], f['shift'], thr, trunc)
        return cdf_gamma_hurdle(f['pop'], f['mu'], f['sigma'], thr)
    if how in ('pit', 'rank'):
        o = thr if isinstance(thr, np.ndarray) else np.full(f['mu'].shape, float(thr))
        v = C[cls](f, o, pit_randomize_zero_ranks=False, **kw)
        return v.pit() if how == 'pit' else v.rank_hist()
    v = C[cls](f, o, **kw)
    if how == 'over': return 1 - v.cdf(over=thr)
    if how == 'sharp': return v.sharpness(below=thr)
    return v.cdf(below=thr)


HOW = ['below', 'below', 'over', 'sharp', 'util', 'pit', 'rank']


def table(rec, n, i):
    """Thresholds at which the specification knows the distribution function."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = gen.shape(rng, cap=16)
        cls = ['gauss', 'gamma', 'hurdle', 'gauss', 'gamma'][(k + i) % 5]
        trunc = cls != 'hurdle' and k % 2 == 0
        scalar = k % 4 == 0
        os.environ['pyanen_tqdm_workers'] = '2' if k % 16 == 15 else '1'
        if cls == 'gauss':
            sig = 2.0 ** (rng.integers(-4, 5, s) + gen.magnitude(rng))
            if scalar: sig = np.full(s, sig.ravel()[0])
            z0 = rng.integers(-36, 17, s)                    # where zero lies
            mu = -z0 / 8 * sig
            z = np.clip(z0 + rng.integers(-6, 30, s) if trunc else rng.integers(-40, 41, s), -40, 40)
            if scalar: z = np.clip(z0 - z0.ravel()[0] + z.ravel()[0], -40, 40)
            thr = mu + z / 8 * sig
            f = {'mu': mu, 'sigma': sig}
            cell = [dict(k='gauss', z=int(a), z0=int(b), a=1, p=0, tr=trunc, sg=int(np.sign(t))) for a, b, t in zip(z.ravel(), z0.ravel(), thr.ravel())]
        else:
            a2 = rng.integers(1, 9, s)
            sc = 2.0 ** (rng.integers(-3, 4, s) + gen.magnitude(rng))
            if scalar: sc = np.full(s, sc.ravel()[0])
            mu = a2 / 2 * sc
            sig = np.sqrt(a2 / 2) * sc
            z = rng.integers(-2, 60, s)
            z0 = np.zeros(s, int)
            if cls == 'gamma':
                z0 = rng.integers(-8, 9, s)                  # position of zero: the shift is -z0/4
                z = np.clip(z0 + rng.integers(-6, 40, s), -9, 80)
                if scalar: z = np.clip(z0 + int(rng.integers(-6, 40)), -9, 80)
                sh = -z0 / 4 * sc
                thr = sh + z / 4 * sc
                f = {'unshifted_mu': mu, 'sigma': sig, 'shift': sh, 'mu': mu + sh}
            else:
                z = np.maximum(z, 0)
                if scalar: z = np.full(s, z.ravel()[0])
                thr = z / 4 * sc
                f = {'pop': rng.choice([0, 0.25, 0.5, 0.75, 1, 1 / 3], s), 'mu': mu, 'sigma': sig}
            p = f['pop'].ravel() if cls == 'hurdle' else np.zeros(z.size)
            cell = [dict(k=cls, z=int(a), z0=int(b), a=int(c), p=fix(q, UNIT), tr=trunc, sg=int(np.sign(t)))
                    for a, b, c, q, t in zip(z.ravel(), z0.ravel(), a2.ravel(), p, thr.ravel())]
        how = str(rng.choice(HOW))
        t = thr
        if scalar and np.unique(thr).size == 1:
            t = float(thr.ravel()[0])
            if t == int(t) and rng.random() < 0.5: t = int(t)
        r, ex = guarded(lambda: np.asarray(ask(rng, cls, f, np.zeros(s), t, trunc, how)))
        if ex: rec.fact('true', x=False, why='refused', cls=cls, how=how, ex=ex); continue
        rec.fact('true', x=bool(r.shape == tuple(s)), why='shape')
        if r.shape == tuple(s): rec.fact('dist', c=cell, r=fx(r), tol=TOL * (3 if trunc else 1), why='not the distribution function', how=how, scalar=not isinstance(t, np.ndarray))


def tails(rec, n, i):
    """Truncated distributions of which little is left at zero."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = gen.shape(rng, cap=16)
        cls = ['gauss', 'gamma'][(k + i) % 2]
        os.environ['pyanen_tqdm_workers'] = '2' if k % 16 == 15 else '1'
        sc = 2.0 ** (rng.integers(-4, 5, s) + gen.magnitude(rng))
        if cls == 'gauss':
            z0 = rng.integers(8, [60, 120, 460][k % 3], s)
            z = rng.integers(-3, 40, s)
            far = (rng.random(s) < 0.7) & (z0 > 24)
            z = np.where(far, np.minimum(z, 1 + 1000 // z0), z)
            thr, f = z / 8 * sc, {'mu': -z0 / 8 * sc, 'sigma': sc}
            cell = [dict(k='gtail', z=int(x), z0=int(y), a=1) for x, y in zip(z.ravel(), z0.ravel())]
        else:
            a = rng.integers(1, 4, s)
            z0 = rng.integers(8, [40, 200, 2400][k % 3], s)
            z = rng.integers(-3, 40, s)
            mu, sig = a * sc, np.sqrt(a) * sc
            thr, f = z / 4 * sc, {'unshifted_mu': mu, 'sigma': sig, 'shift': -z0 / 4 * sc, 'mu': mu - z0 / 4 * sc}
            cell = [dict(k='etail', z=int(x), z0=int(y), a=int(c)) for x, y, c in zip(z.ravel(), z0.ravel(), a.ravel())]
        how = str(rng.choice(HOW))
        r, ex = guarded(lambda: np.asarray(ask(rng, cls, f, np.zeros(s), thr, True, how)))
        if ex: rec.fact('true', x=False, why='refused', cls=cls, how=how, ex=ex); continue
        rec.fact('true', x=bool(r.shape == tuple(s)), why='shape')
        # sqrt(a)^2 is not a exactly, which moves zero
        if r.shape == tuple(s): rec.fact('dist', c=cell, r=fx(r), tol=16, why='not the conditional distribution', how=how)
    os.environ['pyanen_tqdm_workers'] = '1'


def relations(rec, n, i):
    """Any parameters: proper, complementary, truncated as conditional, hurdle as mixture, moments as given."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = gen.shape(rng, cap=6)
        kind = ['gauss', 'gamma', 'hurdle'][(k + i) % 3]
        f = {'gauss': gauss, 'gamma': lambda r, s: gamma(r, s, 0.4, 1e6 if k % 5 == 0 else 50), 'hurdle': hurdle}[kind](rng, s)
        f = rescale(rng, f)
        sd = f['sigma']
        lo = {'gauss': f['mu'] - 8 * sd, 'gamma': np.minimum(f.get('shift', 0), 0) - sd, 'hurdle': np.zeros(s)}[kind]
        hi = f['mu'] + (8 if kind == 'gauss' else 25) * sd
        steps = np.sort(np.concatenate([[0, 1], rng.random(14)]))
        X = lo + steps.reshape((-1,) + (1,) * len(s)) * (hi - lo)
        o = np.zeros(s)
        v = C[kind](f, o)
        def ok(fn):
            r, ex = guarded(fn)
            if ex: rec.fact('true', x=False, why='refused', kind=kind, ex=ex)
            return None if ex else r
        F = ok(lambda: np.array([v.cdf(below=x) for x in X]))
        G = ok(lambda: np.array([v.cdf(over=x) for x in X]))
        if F is None or G is None or F.shape != X.shape or G.shape != X.shape: rec.fact('true', x=False, why='shape'); continue
        cols = lambda A: [fx(A.reshape(len(X), -1)[:, c]) for c in range(A.reshape(len(X), -1).shape[1])]
        rec.fact('proper', F=cols(F), why='probabilities are not those of a distribution', kind=kind)
        rec.fact('complement', x=fx(F), y=fx(G), why='over and below do not add up')
        if kind == 'gauss':
            rec.fact('near', sx=[], sy=[], x=fx(F[0]) + fx(F[-1]), y=[0] * F[0].size + [UNIT] * F[0].size, tol=3, why='tails')
        if kind != 'hurdle':
            F0 = ok(lambda: v.cdf(below=0.0))
            vt = C[kind](f, o, truncated=True)
            T = ok(lambda: np.array([vt.cdf(below=x) for x in X]))
            if T is None or F0 is None: continue
            B0 = np.broadcast_to(F0, X.shape)
            keep = (B0 < 0.95).ravel()
            pick = lambda A: [x for x, y in zip(fx(A), keep) if y]
            rec.fact('truncown', x=pick(F), y=pick(T), z=pick(B0), pos=[bool(x) for x, y in zip((X > 0).ravel(), keep) if y], tol=20,
                     why='truncated probabilities are not conditional', kind=kind)
            rec.fact('proper', F=[c for c, b in zip(cols(T), F0.ravel()) if b < 0.95], why='truncated probabilities are not proper')
        else:
            ga = C['gamma']({'unshifted_mu': f['mu'], 'mu': f['mu'], 'sigma': sd, 'shift': np.zeros(s)}, o)
            Gm = ok(lambda: np.array([ga.cdf(below=x) for x in X]))
            if Gm is None: continue
            rec.fact('hurdleown', x=fx(Gm), y=fx(F), p=fx(np.broadcast_to(f['pop'], X.shape)), pos=[bool(x) for x in (X > 0).ravel()], tol=8, why='hurdle probabilities are not a mixture')
        # mean and standard deviation of the reported distribution
        if kind != 'hurdle' and k % 2 == 0:
            N = 400
            a = f['mu'] - 7 * sd if kind == 'gauss' else f['shift']
            h = ((f['mu'] + 7 * sd if kind == 'gauss' else f['mu'] + 18 * sd * np.maximum(1, sd / f['unshifted_mu'])) - a) / N
            if kind == 'gamma':
                a2 = np.maximum(f['mu'] - 9 * sd, f['shift']); h = (h * N + a - a2) / N; a = a2
            Y = curve(v, a, h, N + 1)
            for c in range(int(np.prod(s))):
                hh, m_, s_ = float(h.ravel()[c]), float((f['mu'] - a).ravel()[c]), float(sd.ravel()[c])
                rough = kind == 'gamma' and float((f['unshifted_mu'] / sd).ravel()[c]) < 1
                rec.fact('moments', F=fx(Y[:, c]), m=fix(m_ / hh, 2 ** 20), q=fix((s_ ** 2 + m_ ** 2) / hh ** 2, 2 ** 14),
                         tolm=int(2 ** 20 * (0.6 if rough else 0.01 + 0.1 * hh / s_)), tolq=int(2 ** 14 * ((0.03 if rough else 0.01) * (s_ ** 2 + m_ ** 2) / hh ** 2 + 1.5)), kind=kind)


def pit(rec, n, i):
    """The transform is the distribution function at the observation; zeros are spread out below it."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = gen.shape(rng, cap=16)
        kind = ['gauss', 'gamma', 'hurdle'][(k + i) % 3]
        f = {'gauss': gauss, 'gamma': gamma, 'hurdle': hurdle}[kind](rng, s)
        trunc = kind != 'hurdle' and k % 4 == 3
        o = np.round(np.abs(f['mu'] + rng.normal(size=s) * f['sigma']), 2)
        if kind == 'gauss' and not trunc: o = np.round(f['mu'] + rng.normal(size=s) * f['sigma'], 2)
        o[rng.random(s) < 0.4] = 0.0
        kw = {'truncated': True} if trunc else {}
        sampled = rng.random() < 0.2
        if sampled: kw['n_sample_members'] = 5
        base, e0 = guarded(lambda: np.asarray(C[kind](f, o, **kw).cdf(below=o)))
        a, e1 = guarded(lambda: np.asarray(C[kind](f, o, pit_randomize_zero_ranks=False, **kw).pit()))
        v = C[kind](f, o, **kw)
        b, e2 = guarded(lambda: np.asarray(v.pit() if sampled or k % 2 else v.rank_hist()))
        if e0 or e1 or e2: rec.fact('true', x=False, why='refused', kind=kind, ex=e0 or e1 or e2); continue
        rec.fact('near', sx=list(a.shape), sy=list(s), x=fx(a), y=fx(base), tol=0, why='transform differs from the distribution function')
        z = (o == 0).ravel()
        rec.fact('near', sx=list(b.shape), sy=list(s), x=[x for x, y in zip(fx(b), z) if not y], y=[x for x, y in zip(fx(base), z) if not y], tol=0,
                 why='randomised transform changed where the observation is not zero')
        for x, y, zz in zip(fx(b), fx(base), z):
            if zz: rec.fact('range', x=[x], lo=0, hi=y, why='randomised zero outside its range')


def spread_of_zeros(rec, n, i):
    """Randomised zeros are uniform and drawn cell by cell."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        kind = ['hurdle', 'gauss', 'gamma'][k % 3]
        s = (60, 40)
        f = {'gauss': gauss, 'gamma': lambda r, s: gamma(r, s), 'hurdle': hurdle}[kind](rng, s)
        if kind == 'gamma': f['shift'] = -np.abs(f['shift']) - f['unshifted_mu']; f['mu'] = f['unshifted_mu'] + f['shift']
        o = np.zeros(s)
        base, ex = guarded(lambda: np.asarray(C[kind](f, o).cdf(below=o)))
        b, ex2 = guarded(lambda: np.asarray(C[kind](f, o).pit()))
        if ex or ex2: rec.fact('true', x=False, why='refused'); continue
        m = base > 0.01
        q = np.minimum((b[m] / base[m] * 4).astype(int), 3)
        rec.fact('fair', c=[int(np.count_nonzero(q == x)) for x in range(4)], why='zeros not spread uniformly')


def below_zero(rec):
    """Hurdle forecasts below a negative threshold (see known-findings.json)."""
    rng = rec.rng
    rec.history()
    for k in range(12):
        f = hurdle(rng, (2, 3))
        thr = -float(rng.uniform(0.1, 5))
        r, ex = guarded(lambda: np.asarray(C['hurdle'](f, np.zeros((2, 3))).cdf(below=thr if k % 2 else np.full((2, 3), thr))))
        if ex: rec.fact('true', x=False, why='refused', ex=ex); continue
        if np.all(np.abs(r) < 1e-9): rec.fact('range', x=fx(r), lo=-1, hi=1, why='chance of a negative value')
        elif known(rec, 'hurdle-negative-threshold') and np.allclose(r, 1 - f['pop'], atol=1e-9): continue
        else: rec.fact('range', x=fx(r), lo=-1, hi=1, why='chance of a negative value')


def jobs(tier, seed):
    q = tiered(tier, 1, 10)
    return split('table', table, 90 * q, 4) + split('tails', tails, 60 * q, 2) + split('relations', relations, 24 * q, 4) + split('pit', pit, 60 * q, 2) + \
        split('zeros', spread_of_zeros, 3 * q, 1) + [('negative', below_zero, ())] + split('types', types, 90 * q, 1, ('cdf', 'pit', 'f_determ', 'variance'))


def models(tier):
    return [model('MC_dist', 'MCDist')]
