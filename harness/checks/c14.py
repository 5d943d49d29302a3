"""C14: sampled ensembles."""
import shutil
from .dists import *
from scipy import stats as _st      # only to place thresholds where they are informative


def params(rng, s, kind):
    f = gauss(rng, s) if kind == 'gauss' else gamma(rng, s, 0.5, 200)
    if kind == 'gauss': f['mu'] = np.maximum(f['mu'], -0.8 * f['sigma'])
    return f


def distribution(rec, n, i):
    rng = rec.rng
    for k in range(n):
        rec.history()
        j = k + n * i
        kind = ['gauss', 'gamma'][j % 2]
        trunc = (j // 2) % 2 == 1
        s = gen.shape(rng, cap=5)
        f = params(rng, s, kind)
        if j % 7 == 6 and kind == 'gamma':      # very sharp
            f['sigma'] = f['unshifted_mu'] / 300
            f['shift'] = np.where(rng.random(s) < 0.5, f['shift'] / 10, rng.uniform(-0.5, 2, s) * f['sigma'] - f['unshifted_mu'])
            f['shift'] = np.maximum(f['shift'], -0.5 * f['sigma'] - f['unshifted_mu'])
            f['mu'] = f['unshifted_mu'] + f['shift']
        far = trunc and j % 8 in (2, 3)           # little is left by the truncation
        if far and kind == 'gauss': f['mu'] = -f['sigma'] * np.exp(rng.uniform(0, 3.6, s))
        if far and kind == 'gamma':
            f['shift'] = -f['unshifted_mu'] - f['sigma'] * np.exp(rng.uniform(0, 3.2, s))
            f['mu'] = f['unshifted_mu'] + f['shift']
        f = rescale(rng, f)
        m = 3000
        ax = int(rng.integers(-len(s) - 1, len(s) + 1))
        par = j // 4 % 3 == 2
        os.environ['pyanen_tqdm_workers'] = '2' if par else '1'
        os.environ['pyanen_tqdm_map_axis'] = str(-int(rng.integers(1, len(s) + 1)))
        v = C[kind](f, np.zeros(s), truncated=trunc, n_sample_members=m, move_sampled_ens_axis=ax)
        e, ex = guarded(lambda: np.asarray(v.prob_to_ens()), 120)
        os.environ['pyanen_tqdm_workers'] = '1'
        if ex: rec.fact('true', x=False, why='sampling refused', kind=kind, trunc=trunc, ex=ex); continue
        want = list(s); want.insert(ax % (len(s) + 1), m)
        rec.fact('equal', x=[int(x) for x in e.shape], y=want, why='shape of the members')
        if list(e.shape) != want: continue
        e = np.moveaxis(e, ax, 0)
        if trunc: rec.fact('true', x=bool(np.all(e >= 0)), why='negative member of a truncated forecast')
        rec.fact('true', x=bool(np.all(np.isfinite(e))), why='member not finite')
        for z in (-2, -1, -0.4, 0, 0.5, 1, 2):
            x = np.quantile(e, 0.5 + 0.22 * z, axis=0, method='inverted_cdf') if far else f['mu'] + z * f['sigma']
            if trunc and not far: x = np.maximum(x, f['sigma'] * 0.1)
            F, ex = guarded(lambda: np.asarray(v.cdf(below=x)))
            if ex: rec.fact('true', x=False, why='refused', ex=ex); continue
            rec.fact('sample', m=m, c=[int(y) for y in np.count_nonzero(e <= x, axis=0).ravel()], p=fx(F), why='members do not follow the forecast', kind=kind, trunc=trunc)
        # drawn separately: members and cells are not copies of each other
        rec.fact('true', x=bool(np.unique(e).size > 0.99 * e.size), why='members are not drawn separately')
        if e[0].size > 1 and not par:
            a, b = e.reshape(m, -1)[:, 0], e.reshape(m, -1)[:, 1]
            hits = int(np.count_nonzero((a <= np.median(a)) == (b <= np.median(b))))
            rec.fact('sample', m=m, c=[hits], p=[UNIT // 2], why='cells are drawn together')
        a = e.reshape(m, -1)[:, 0]
        hits = int(np.count_nonzero((a[:-1] <= np.median(a)) == (a[1:] <= np.median(a))))
        rec.fact('sample', m=m, c=[hits], p=[UNIT // 2], why='members are drawn together')


def clip(rec, n, i):
    """The clip value turns smaller members into zero and leaves the others alone."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        kind = ['gauss', 'gamma'][(k + i) % 2]
        trunc = (k // 2) % 2 == 1
        s = gen.shape(rng, cap=12)
        f = params(rng, s, kind)
        ax = int(rng.integers(-len(s) - 1, len(s) + 1))
        c = float(np.round(rng.uniform(-1, 3), 2))
        kw = dict(truncated=trunc, n_sample_members=int(rng.integers(1, 30)), move_sampled_ens_axis=ax)
        def draw(**more):
            np.random.seed(5 + k)
            return np.asarray(C[kind](f, np.zeros(s), **dict(kw, **more)).prob_to_ens())
        a, e1 = guarded(draw)
        b, e2 = guarded(lambda: draw(clip_member_to_zero=c))
        if e1 or e2: rec.fact('true', x=False, why='refused', ex=e1 or e2); continue
        rec.fact('near', sx=list(a.shape), sy=list(b.shape), x=[fix(y if y >= c else 0.0, 10 ** 5) for y in a.ravel()], y=[fix(y, 10 ** 5) for y in b.ravel()], tol=1, why='clipped members')


def across(rec, n, i):
    """Spread and ranks are taken across the members of each cell, wherever that axis was put."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        kind = ['gauss', 'gamma'][(k + i) % 2]
        s = gen.shape(rng, cap=12) + (1,)
        cells = rng.permutation(np.arange(1, int(np.prod(s)) + 1)).reshape(s) * 10.0
        m = int(rng.integers(1, 7))
        if k % 3 == 0 and len(s) > 1: m = s[0]                 # lengths that hide a mix-up
        ax = int(rng.integers(-len(s) - 1, len(s) + 1))
        sg = rng.uniform(0.2, 1.5, s)
        if kind == 'gauss': f = {'mu': cells, 'sigma': sg}
        else: f = {'unshifted_mu': cells + 2, 'sigma': sg, 'shift': np.full(s, -2.0), 'mu': cells}
        o = cells + np.round(rng.normal(size=s), 3)
        trunc = bool(rng.integers(0, 2))
        skip = k % 4 == 1
        os.environ['pyanen_skip_nan'] = str(skip)
        d = os.path.join(rec.work, 'd%d' % k)
        # the members are kept, so that spread and ranks are those of the members seen here
        v = C[kind](f, o, truncated=trunc, n_sample_members=m, move_sampled_ens_axis=ax, working_directory=d, avg_axis=len(s) - 1,
                    clip_member_to_zero=float(rng.choice([0.0, 15.0])) if k % 5 == 4 else None)
        order = [str(x) for x in rng.permutation(['e', 'sp', 'rk'])]
        if order[0] != 'e': order.remove('e'); order.insert(0, 'e')
        got, bad = {}, None
        for w in order:
            got[w], ex = guarded({'e': v.prob_to_ens, 'sp': v.spread, 'rk': v.rank_hist}[w])
            bad = bad or ex
        shutil.rmtree(d, ignore_errors=True)
        if bad: rec.fact('true', x=False, why='refused', ex=bad); continue
        e = np.asarray(got['e'])
        want = list(s); want.insert(ax % (len(s) + 1), m)
        rec.fact('equal', x=[int(x) for x in e.shape] + [int(x) for x in np.shape(got['sp'])] + [int(x) for x in np.shape(got['rk'])],
                 y=[int(x) for x in want] + list(s[:-1]) + list(s), why='shapes')
        if list(e.shape) != want: continue
        q = 10 ** 5
        rec.fact('members', s=[int(x) for x in e.shape], ax=ax % (len(s) + 1) + 1, v=[fix(x, q) for x in e.ravel()], sp=[fix(x, q) for x in np.ravel(got['sp'])],
                 rk=[int(x) if x == x else -1 for x in np.ravel(got['rk'])], o=[fix(x, q) for x in o.ravel()])


def fresh(rec, n, i):
    """Every member of every cell is drawn separately, and asking again draws again, wherever the work is done."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        kind = ['gauss', 'gamma'][(k + i) % 2]
        s = [(30,), (2, 3), (5, 6, 2), (1,), (3, 1, 4)][k // 2 % 5]
        trunc = bool(rng.integers(0, 2))
        m = int(rng.integers(2, 9))
        one = {'mu': 0.5, 'sigma': 1.0} if kind == 'gauss' else {'unshifted_mu': 2.0, 'sigma': 1.0, 'shift': -0.5, 'mu': 1.5}
        f = {a: np.full(s, b) for a, b in one.items()}       # the same forecast everywhere: equal random numbers show
        v = C[kind](f, np.full(s, 0.3), n_sample_members=m, truncated=trunc)
        par = k % 4 != 3
        os.environ['pyanen_tqdm_workers'] = str(rng.choice([2, 3])) if par else '1'
        os.environ['pyanen_tqdm_chunksize'] = str(rng.choice([1, 3, 40]))
        os.environ['pyanen_tqdm_map_axis'] = str(-int(rng.integers(1, len(s) + 1)))
        a, b = guarded(lambda: np.asarray(v.prob_to_ens()), 120), guarded(lambda: np.asarray(v.prob_to_ens()), 120)
        os.environ['pyanen_tqdm_workers'], os.environ['pyanen_tqdm_chunksize'], os.environ['pyanen_tqdm_map_axis'] = '1', '1', '-1'
        if a[1] or b[1]: rec.fact('true', x=False, why='refused', ex=a[1] or b[1]); continue
        rec.fact('equal', x=int(np.unique(a[0]).size), y=int(np.prod(s)) * m, why='members are not drawn separately', par=par, kind=kind, trunc=trunc, sh=list(s), m=m)
        rec.fact('equal', x=int(np.unique(np.stack([a[0], b[0]])).size), y=2 * int(np.prod(s)) * m, why='the same members again', par=par)


def uniform(rec, n, i):
    """Observations drawn from the forecast have uniform ranks."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        kind = ['gauss', 'gamma'][(k + i) % 2]
        s = (40, 60)
        f = params(rng, s, kind)
        ax = int(rng.integers(-3, 3))
        o = rng.normal(f['mu'], f['sigma']) if kind == 'gauss' else f['shift'] + rng.gamma((f['unshifted_mu'] / f['sigma']) ** 2) * f['sigma'] ** 2 / f['unshifted_mu']
        v = C[kind](f, o, n_sample_members=4, move_sampled_ens_axis=ax)
        r, ex = guarded(v.rank_hist)
        if ex: rec.fact('true', x=False, why='refused', ex=ex); continue
        rec.fact('fair', c=[int(np.count_nonzero(r == x)) for x in range(1, 6)], why='ranks of forecast draws')
        rec.fact('equal', x=int(np.size(r)), y=int(np.count_nonzero((r >= 1) & (r <= 5))), why='rank out of range')


def jobs(tier, seed):
    q = tiered(tier, 1, 10)
    return split('dist', distribution, 24 * q, 4) + split('clip', clip, 60 * q, 1) + split('across', across, 70 * q, 2) + split('uniform', uniform, 6 * q, 1) + split('fresh', fresh, 16 * q, 1) + split('types', types, 60 * q, 1, ('prob_to_ens',))


def models(tier):
    return [model('MC_dist', 'MCDist')]
