"""C21: metrics do not modify inputs and are repeatable."""
import copy
import os
import shutil
import zlib
import numpy as np
import PyAnEn
import gen
import behave
from rec import CLS
from .common import *

LAYOUTS = ['C', 'F', 'S', 'N', 'T', 'R', 'B']
THR = ('brier', 'cdf', 'sharpness', 'reliability', 'brier_decomp', 'roc', 'iou_determ', 'iou_prob')
KINDS = {'determ': {'cells': ['f_determ'], 'averaged': ['error', 'ab_error', 'sq_error', 'rmse', 'corr'], 'sorted': ['iou_determ', 'corr']},
         'ens': {'cells': ['cdf', 'variance', 'rank_hist', 'sharpness', 'roc'], 'averaged': ['error', 'ab_error', 'sq_error', 'rmse', 'corr', 'crps', 'spread', 'brier', 'iou_determ', 'iou_prob'],
                 'sorted': ['binned_spread_skill', 'reliability', 'rank_hist', 'brier_decomp']},
         'gauss': {'cells': ['cdf', 'variance', 'rank_hist', 'sharpness', 'roc', 'prob_to_ens', 'pit'], 'averaged': ['error', 'ab_error', 'sq_error', 'rmse', 'corr', 'crps', 'brier', 'iou_determ', 'iou_prob', 'spread'],
                   'sorted': ['binned_spread_skill', 'reliability', 'rank_hist', 'brier_decomp']},
         'hurdle': {'cells': ['cdf', 'variance', 'sharpness', 'roc', 'pit'], 'averaged': ['error', 'sq_error', 'crps', 'brier', 'iou_prob'], 'sorted': ['binned_spread_skill', 'reliability', 'brier_decomp']}}
KINDS['gamma'] = KINDS['gauss']


def lay(a, how):
    """The same values in another memory layout."""
    a = np.array(a)
    if how == 'F': return np.asfortranarray(a)
    if how == 'S':
        b = np.full(tuple(2 * s + 1 for s in a.shape), 55, a.dtype)
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == 'N':
        r = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[r])[r]
    if how == 'T': return np.ascontiguousarray(a.T).T
    if how == 'R': a.flags.writeable = False
    if how == 'B':                                     # read-only view of a strided array
        v = np.repeat(a, 2, axis=-1)[..., ::2]
        v.flags.writeable = False
        return v
    return a


def digest(x):
    """Content, shape and type of a result or an argument."""
    if isinstance(x, dict): return [[k] + digest(v) for k, v in x.items()]
    if isinstance(x, (tuple, list)): return [digest(v) for v in x]
    if hasattr(x, 'to_numpy'): x = x.to_numpy()
    a = np.asarray(x)
    if a.dtype == object: return [repr(a.tolist())]
    return [str(a.dtype), list(map(int, a.shape)), zlib.crc32(np.ascontiguousarray(a).tobytes()) % 2 ** 31]


def arrays(x):
    if isinstance(x, dict): return [a for v in x.values() for a in arrays(v)]
    if isinstance(x, (tuple, list)): return [a for v in x for a in arrays(v)]
    return [x] if isinstance(x, np.ndarray) else []


def numbers(x):
    if isinstance(x, (tuple, list)): return [n for v in x for n in numbers(v)]
    if hasattr(x, 'to_numpy'): x = x.to_numpy()
    return [fix(v, 10 ** 6) for v in np.asarray(x, float).ravel()]


def types(x):
    if isinstance(x, (tuple, list)): return [types(v) for v in x]
    return str(getattr(x, 'dtype', type(x).__name__))


def flat(x):
    if isinstance(x, (tuple, list)): return np.concatenate([flat(v) for v in x] + [np.zeros(0)])
    if hasattr(x, 'to_numpy'): x = x.to_numpy()
    return np.asarray(x, float).ravel()


def same(rec, r, d, r0, d0, why, cls):
    """Two answers to the same question: alike but for the rounding of a sum taken in another order."""
    if d == d0 or 'refused' in (d, d0) or shapes(r) != shapes(r0) or types(r) != types(r0): rec.fact('equal', x=d, y=d0, why=why, cls=cls); return
    a, b = flat(r), flat(r0)
    eps = 1e-5 if 'float32' in str(types(r)) else 1e-11
    with np.errstate(all='ignore'): q = np.where(np.isnan(a) & np.isnan(b), 0.0, (a - b) / np.maximum(1, np.abs(b)) / eps)
    rec.fact('near', sx=shapes(r), sy=shapes(r0), x=[fix(z, 1000) for z in q], y=[0] * len(q), tol=1000, why=why, cls=cls)


def shapes(x):
    if isinstance(x, (tuple, list)): return [shapes(v) for v in x]
    return list(map(int, np.shape(x)))


def make(rng, cls, s, how, dtype):
    o = rng.integers(0, 9, s) / 2 + 0.25
    kw = {}
    if cls == 'determ': f = rng.integers(0, 9, s) / 2
    elif cls == 'ens':
        first = bool(rng.integers(0, 2))
        m = int(rng.integers(1, 6))
        f = rng.integers(0, 9, (m,) + s if first else s + (m,)) / 2
        kw['ensemble_axis'] = 0 if first else -1
        kw['ensemble_collapse_func'] = [np.mean, np.median, np.max, np.min][int(rng.integers(0, 4))]
    else:
        f = {'sigma': rng.uniform(0.5, 2, s)}
        if cls == 'gauss': f['mu'] = rng.uniform(0, 4, s)
        elif cls == 'gamma': f.update(unshifted_mu=rng.uniform(1, 4, s), shift=rng.uniform(-1, 0.2, s)); f['mu'] = f['unshifted_mu'] + f['shift']
        else:
            f.update(mu=rng.uniform(1, 4, s), pop=rng.uniform(0, 1, s))
            o = o * (rng.random(s) < 0.6)
            kw.update(n_approx_bins=7, integration_range=(0, 9) if rng.random() < 0.5 else None)
        if cls != 'hurdle': kw.update(truncated=bool(rng.integers(0, 2)), n_sample_members=3, move_sampled_ens_axis=int(rng.choice([-1, 0])), clip_member_to_zero=[None, 1.0][int(rng.integers(0, 2))])
    if dtype == 'int': f, o = np.floor(f).astype(np.int64), np.floor(o).astype(np.int64)
    if dtype == 'f4': o = o.astype(np.float32); f = {k: v.astype(np.float32) for k, v in f.items()} if isinstance(f, dict) else f.astype(np.float32)
    plain = (copy.deepcopy(f), o.copy())
    o = lay(o, how)
    f = {k: lay(v, how) for k, v in f.items()} if isinstance(f, dict) else lay(f, how)
    return f, o, plain, kw


def question(rng, m, s):
    t = float(rng.integers(1, 8) / 2 + 0.125)
    if rng.random() < 0.3: t = lay(rng.integers(1, 8, s) / 2 + 0.125, str(rng.choice(LAYOUTS)))
    over = bool(rng.integers(0, 2))
    kw = {}
    if m in THR: kw = {'over' if over else 'below': t}
    if m == 'iou_prob': kw = dict(over=(t, 0.4) if over else (None, 0.4), below=(None, None) if over else (t, None))
    if m in ('reliability', 'binned_spread_skill'): kw['nbins'] = 2
    return kw


def one(rec, rng, k, b):
    rec.history()
    cls = ['ens', 'determ', 'gauss', 'ens', 'gamma', 'hurdle'][k % 6]
    s = gen.shape(rng, cap=18, hi=3)
    while int(np.prod(s)) < 4: s = gen.shape(rng, cap=18, hi=3)
    how = LAYOUTS[int(rng.integers(0, len(LAYOUTS)))]
    dtype = 'f8' if cls not in ('ens', 'determ') or rng.random() < 0.6 else str(rng.choice(['int', 'f4']))
    f, o, plain, kw = make(rng, cls, s, how, dtype)
    kw.update(avg_axis=gen.axes(rng, len(s)), boot_samples=[None, None, None, 2][int(rng.integers(0, 4))])
    os.environ['pyanen_boot_repeats'] = '3'
    os.environ['pyanen_skip_nan'] = str(bool(rng.integers(0, 2)))
    if cls == 'ens' and rng.random() < 0.3: os.environ['pyanen_split_crps_ensemble_along_0'] = 'True'
    save = rng.random() < 0.25
    dirs = [os.path.join(rec.work, 'p%d_%d' % (rec.histories, p)) for p in (1, 2)]
    new = getattr(PyAnEn, CLS[cls])
    before = digest([f, o])
    built = [guarded(lambda: new(f, o, **kw, **({'working_directory': d} if save else {}))) for d in dirs]
    if built[0][1] or built[1][1]: rec.fact('true', x=False, why='construction refused', ex=built[0][1] or built[1][1], how=how, cls=cls); return
    w = [v for v, _ in built]
    ref, _ = guarded(lambda: new(*plain, **kw))
    rec.fact('equal', x=digest([f, o]), y=before, why='inputs changed by construction')
    pick, qs, first, kept, results = {}, {}, {}, {}, []
    seeds = {}
    for x in b:
        if x['op'] == 'scribble':
            r = results[x['i'] - 1]
            for a in arrays(r['ret']):
                if a.flags.writeable: a[...] = 77 if a.dtype != bool else True
            r['own'] = True
        else:
            m = x['m']
            if m not in pick:
                c = [m] if m == 'f_determ' else KINDS[cls][m]
                pick[m] = [str(y) for y in rng.permutation(c)[:2]]
                for y in pick[m]: qs.setdefault(y, question(rng, y, s)); seeds.setdefault(y, int(rng.integers(2 ** 31)))
            m = pick[m][int(rng.integers(0, len(pick[m])))]
            q = qs[m]
            qb = digest(q)
            np.random.seed(seeds[m])
            r, ex = guarded(lambda: getattr(w[x['p'] - 1], m)(**q))
            d = 'refused' if ex else digest(r)
            if m not in ('reliability', 'binned_spread_skill', 'crps'): rec.fact('true', x=not ex, why=m + ' refused', ex=ex or '', cls=cls, how=how)
            rec.fact('equal', x=digest(q), y=qb, why='threshold changed by ' + m)
            if m not in first:
                first[m] = d
                kept[m] = copy.deepcopy(r)
                if dtype == 'f8' or dtype == 'int':
                    np.random.seed(seeds[m])
                    c, ec = guarded(lambda: getattr(ref, m)(**{a: np.array(y) if isinstance(y, np.ndarray) else y for a, y in q.items()}))
                    if ex or ec: rec.fact('equal', x='refused' if ex else 'answer', y='refused' if ec else 'answer', why='layout changes the answer of ' + m, ex=ex or ec, how=how)
                    elif m not in ('rank_hist', 'prob_to_ens', 'spread') or cls == 'ens': rec.fact('near', sx=shapes(r), sy=shapes(c), x=numbers(r), y=numbers(c), tol=1, why='layout changes the answer of ' + m, how=how, cls=cls)
                    else: rec.fact('equal', x=shapes(r), y=shapes(c), why='layout changes the answer of ' + m, how=how, cls=cls)
            elif not save or cls not in ('gauss', 'gamma') or m not in ('rank_hist', 'prob_to_ens', 'spread'): same(rec, r, d, kept[m], first[m], 'repeated ' + m + ' differs', cls)
            results.append({'ret': r, 'm': m, 'd': d, 'own': False})
        rec.fact('equal', x=digest([f, o]), y=before, why='inputs changed', m=results[-1]['m'], cls=cls, how=how, op=x['op'])
        for r in results:
            if not r['own'] and r['d'] != 'refused': rec.fact('equal', x=digest(r['ret']), y=r['d'], why='array returned by %s changed' % r['m'])
    for d in dirs: shutil.rmtree(d, ignore_errors=True)


def replay(rec, behs, i):
    for k, b in enumerate(behs): one(rec, rec.rng, k + i, b)


def table(rng):
    """Utility functions and arguments for them."""
    import PyAnEn.utils_verify as uv, PyAnEn.utils_ss as us, PyAnEn.utils_special_boot as ub, PyAnEn.utils_dist as ud, PyAnEn.utils_crps as uc, PyAnEn.utils_significance as sg
    s = gen.shape(rng, cap=18, hi=3)
    while int(np.prod(s)) < 4: s = gen.shape(rng, cap=18, hi=3)
    n, m = len(s), int(rng.integers(2, 5))
    ax = gen.axes(rng, n)
    tup = None if ax is None else (ax,) if isinstance(ax, int) else tuple(ax)
    o, f = rng.integers(0, 9, s) / 2, rng.integers(0, 9, s) / 2
    first = bool(rng.integers(0, 2))
    e = rng.integers(0, 9, (m,) + s if first else s + (m,)) / 2 + 0.25
    p = rng.integers(0, 17, s) / 16
    ev = rng.random(s) < 0.5
    mu, sg_, sh = rng.uniform(1, 4, s), rng.uniform(0.5, 2, s), rng.uniform(-1, 0.2, s)
    bt = {'n_samples': 3, 'repeats': 3, 'confidence': 0.5} if rng.random() < 0.4 else {}
    T = {
        'rank_histogram': (uv.rank_histogram, dict(f=e, o=o, ensemble_axis=0 if first else -1)),
        'rank_histogram ties': (uv.rank_histogram, dict(f=e - 0.25, o=o, ensemble_axis=0 if first else -1)),
        'ens_to_prob': (uv.ens_to_prob, dict(f=e, ensemble_aixs=0 if first else -1, below=o)),
        'binarize_obs': (uv.binarize_obs, dict(o=o, over=f)),
        'calculate_roc': (uv.calculate_roc, dict(f_prob=p, o_binary=ev)),
        'boot_vec': (uv.boot_vec, dict(pop=o.ravel(), n_samples=3, repeats=3, confidence=0.5)),
        'boot_arr': (uv.boot_arr, dict(metric=o, sample_axis=tup, n_samples=3, repeats=3, confidence=0.5)),
        'reliability_diagram': (uv.reliability_diagram, dict(f_prob=p, o_binary=ev, nbins=3, sample_axis=None, **({'boot_samples': 3, 'repeats': 3, 'confidence': 0.5, 'skip_nan': False} if bt else {}))),
        'iou_determ': (uv.iou_determ, dict(f=f, o=o, axis=tup, over=1.0)),
        'iou_prob': (uv.iou_prob, dict(f_prob=p, o_binary=ev, axis=tup, over=0.4)),
        'binned_spread_skill': (us.binned_spread_skill, dict(variance=mu, sq_error=f, nbins=2, sample_axis=tup, **({'boot_samples': 3, 'repeats': 3, 'confidence': 0.5, 'skip_nan': False} if bt else {}))),
        'corr': (ub.corr, dict(f=f, o=o, avg_axis=tup, **bt)),
        'brier_decomp': (ub.brier_decomp, dict(f=p, o=ev, avg_axis=tup, **bt)),
        'cdf_gaussian': (ud.cdf_gaussian, dict(mu=mu, sigma=sg_, below=o, truncated=bool(rng.integers(0, 2)))),
        'cdf_gamma': (ud.cdf_gamma, dict(unshifted_mu=mu, sigma=sg_, shift=sh, below=o, truncated=bool(rng.integers(0, 2)))),
        'cdf_gamma_hurdle': (ud.cdf_gamma_hurdle, dict(pop=p, mu=mu, sigma=sg_, below=o)),
        'sample_dist_gaussian': (ud.sample_dist_gaussian, dict(mu=mu, sigma=sg_, n_sample_members=3, move_axis=int(rng.choice([0, -1])))),
        'sample_dist_gamma': (ud.sample_dist_gamma, dict(unshifted_mu=mu, sigma=sg_, shift=sh, n_sample_members=3, move_axis=int(rng.choice([0, -1])), truncated=bool(rng.integers(0, 2)))),
        'crps_gamma': (uc.crps_gamma, dict(mu=mu, sigma=sg_, shift=sh, obs=o, reduce_sum=bool(rng.integers(0, 2)))),
        'crps_truncated_gaussian': (uc.crps_truncated_gaussian, dict(y=o, mu=mu, scale=sg_, l=np.zeros(s))),
        'diebold_mariano_test': (sg.diebold_mariano_test, dict(actual_lst=o.ravel() + 1, pred1_lst=f.ravel(), pred2_lst=mu.ravel(), h=2, crit=str(rng.choice(['MSE', 'MAD', 'MAPE', 'poly'])), power=3)),
        'reliability_index': (PyAnEn.VerifyEnsemble.reliability_index, dict(freqs=rng.integers(0, 9, 5) + 1)),
        'reliability_index float': (PyAnEn.VerifyEnsemble.reliability_index, dict(freqs=rng.integers(0, 9, 5) + 1.5)),
        'reliability_index share': (PyAnEn.VerifyEnsemble.reliability_index, dict(freqs=rng.permutation([0.5, 0.25, 0.25, 0.0])))}
    return T


def utilities(rec, n, i):
    rng = rec.rng
    for k in range(n):
        T = table(rng)
        for name, (fn, kw) in T.items():
            rec.history()
            how = str(rng.choice(LAYOUTS))
            args = {a: lay(v, how) if isinstance(v, np.ndarray) else v for a, v in kw.items()}
            b = digest(args)
            seed = int(rng.integers(2 ** 31))
            np.random.seed(seed)
            r, ex = guarded(lambda: fn(**args))
            rec.fact('equal', x=digest(args), y=b, why='arguments changed by ' + name, how=how)
            np.random.seed(seed)
            c, ec = guarded(lambda: fn(**{a: v.copy() if isinstance(v, np.ndarray) else v for a, v in kw.items()}))
            if ex or ec:
                rec.fact('true', x=bool(ex and ec and name == 'binned_spread_skill'), why=name + ' refused', ex=ex or ec, how=how)
                continue
            if not name.startswith('sample'): rec.fact('near', sx=shapes(r), sy=shapes(c), x=numbers(r), y=numbers(c), tol=1, why='layout changes the answer of ' + name, how=how)
            d = digest(r)
            np.random.seed(seed)
            r2, ex = guarded(lambda: fn(**args))
            rec.fact('equal', x='refused' if ex else digest(r2), y=d, why='repeated ' + name + ' differs')
            rec.fact('equal', x=digest(r), y=d, why='array returned by %s changed' % name)
            for a in arrays(r):
                if a.flags.writeable: a[...] = 77 if a.dtype != bool else True
            rec.fact('equal', x=digest(args), y=b, why='result of %s is its argument' % name)
            np.random.seed(seed)
            r2, ex = guarded(lambda: fn(**args))
            rec.fact('equal', x='refused' if ex else digest(r2), y=d, why='repeated ' + name + ' differs')


def exact(rec, n, i):
    """Layouts and integer data against the definitions."""
    rng = rec.rng
    for k in range(n):
        h = rec.history()
        how = ['F', 'S', 'N', 'R'][int(rng.integers(0, 4))]
        kw = dict(layout=how)
        if rng.random() < 0.5: kw.update(dtype=[np.int64, np.int32, np.int16][int(rng.integers(0, 3))], u=1)
        if k % 3: d = gen.ens(rec, rng, **kw); v = h.new('ens', d, ax=gen.axes(rng, d.oi.ndim), eax=gen.eax(rng, d))
        else: d = gen.det(rec, rng, **kw); v = h.new('determ', d, ax=gen.axes(rng, d.oi.ndim))
        ms = ['error', 'sq_error', 'ab_error', 'rmse', 'f_determ', 'iou_determ'] + (['crps', 'spread', 'variance', 'brier', 'cdf', 'roc', 'rank_hist', 'reliability'] if k % 3 else [])
        for m in rng.permutation(ms)[:5]:
            m = str(m)
            q = {}
            if m in THR: q = dict(t=gen.thr(rng, d, 'ens'), over=bool(rng.integers(0, 2)))
            if m == 'reliability': q['nb'] = 5
            h.call(v, m, **q)


def jobs(tier, seed):
    rng = np.random.default_rng(seed)
    short = behave.behaviours('Alias', 'AL_beh')
    sim = behave.behaviours('Alias', 'AL_sim', extra=('-simulate', 'num=%d' % tiered(tier, 500, 5000), '-depth', '20', '-seed', str(seed)), workers=1)
    b = behave.sample(short, tiered(tier, 300, 7400), rng) + behave.sample(sim, tiered(tier, 400, 4000), rng)
    w = tiered(tier, 7, 24)
    return [('replay%d' % i, replay, (b[i::w], i)) for i in range(w)] + split('utils', utilities, tiered(tier, 12, 100), 2) + split('exact', exact, tiered(tier, 60, 600), 2)


def models(tier):
    return [model(tiered(tier, 'AL_all', 'AL_deep'), 'Alias')] + [model('AL_mut_' + x, 'Alias', expect='violation') for x in ('alias', 'sort', 'memo')]
