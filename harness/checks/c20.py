"""C20: reconfiguring a verifier equals building it anew."""
import os
import shutil
import numpy as np
import PyAnEn
import gen
import behave
from rec import COLLAPSE, CLS
from .common import *

EXTRA = {'error': ['error', 'ab_error', 'sq_error', 'rmse'], 'cdf': ['cdf', 'sharpness', 'roc', 'iou_prob'], 'ss': ['binned_spread_skill']}
THR = ('brier', 'cdf', 'sharpness', 'reliability', 'brier_decomp', 'roc', 'iou_determ', 'iou_prob')


def exact(rec, rng, k, b):
    """A behaviour of the model, replayed on data for which the specification defines every answer."""
    cls = b[0]['cls']
    h = rec.history()
    h.opt('reps', 1)
    if cls == 'ens':
        n = int(rng.integers(1, 4))
        s = (int(rng.integers(1, 4)),) * n if rng.random() < 0.75 else gen.shape(rng, nd=n, cap=9, hi=3)
        equal = len(set(s)) == 1
        d = gen.ens(rec, rng, s=s, m=s[0] if equal else int(rng.integers(1, 5)), lo=-2, hi=4, x=gen.magnitude(rng))
        e = {1: 0, 2: -1} if rng.random() < 0.5 else {1: -1, 2: 0}
        if not equal: e = {1: d.eax_choices[0], 2: d.eax_choices[1]}
    elif cls == 'determ': d = gen.det(rec, rng, s=gen.shape(rng, cap=9, hi=3), lo=-2, hi=4, x=gen.magnitude(rng))
    elif cls == 'hurdle': d = gen.step(rec, rng, 'hurdle', s=gen.shape(rng, cap=6, hi=3), u=1)
    else: d = gen.step(rec, rng, cls, s=gen.shape(rng, cap=9, hi=3), x=gen.magnitude(rng))
    n = d.oi.ndim
    axs = {1: gen.axes(rng, n), 2: gen.axes(rng, n), 3: gen.axes(rng, n)}
    cols = dict(enumerate([str(x) for x in rng.permutation(['mean', 'median', 'max', 'min'])[:2]], 1))
    boots = {1: None, 2: int(rng.integers(1, 3))}
    bins = {1: 5, 2: 9}
    rngs = {1: (0.5, 8.5), 2: (1.5, 9.5)}
    if rng.random() < 0.5:
        rngs, bins = {1: rngs[2], 2: rngs[1]}, {1: 9, 2: 5}
    path = os.path.join(rec.work, 'h%d' % rec.histories)
    kw = {}
    if cls == 'ens': kw = dict(eax=e[1], col=cols[1])
    if cls == 'hurdle': kw = dict(integration_range=rngs[1], n_approx_bins=bins[1])
    v = h.new(cls, d, ax=axs[1], boot=boots[1], **kw)
    locs = {int(x) for x in d.fi.ravel()} if d.kind == 'step' else set()
    asked = {}
    for x in b[1:]:
        if x['op'] == 'set':
            y, w = x['k'], x['v']
            if y == 'ax': h.set(v, 'set_avg_axis', axs[w])
            elif y == 'boot':
                if w == 1 and rng.random() < 0.5: h.set(v, 'disable_boot')
                else: h.set(v, 'set_boot_samples', boots[w])
            elif y == 'save':
                if w == 1: h.set(v, 'disable_saving')
                else: h.set(v, 'enable_saving', path, start_from_scratch=w == 2, ch={'dir': 'd', 'scr': w == 2})
            elif y == 'eax': h.set(v, 'set_ensemble_axis', e[w])
            elif y == 'col': h.set(v, 'set_collapse_func', COLLAPSE[cols[w]])
            elif y == 'trunc': h.set(v, 'set_truncation', w == 2)
            elif y == 'mem': h.set(v, 'set_ensemble_members', [None, 3][w - 1])
            elif y == 'clip': h.set(v, 'set_member_clip', [None, 2.0][w - 1])
            elif y == 'sax': h.set(v, 'set_move_sampled_ens_axis', [-1, 0][w - 1])
            elif y == 'ib': h.set(v, 'set_bins', bins[w])
            elif y == 'ir': h.set(v, 'set_integration_range', *rngs[w])
            continue
        m = x['m']
        if m not in asked:
            asked[m] = str(rng.choice(EXTRA.get(m, [m])))
        m = asked[m]
        if cls in ('gauss', 'gamma') and m in ('prob_to_ens', 'spread', 'rank_hist', 'crps'): m = 'cdf'
        if cls == 'gamma' and m == 'corr': m = 'f_determ'
        if cls == 'gamma' and m in ('error', 'ab_error', 'sq_error', 'rmse', 'f_determ'): m = 'brier'
        if cls == 'hurdle' and m in ('ab_error', 'rmse', 'roc', 'binned_spread_skill'): m = {'ab_error': 'error', 'rmse': 'sq_error', 'roc': 'sharpness', 'binned_spread_skill': 'variance'}[m]
        if m == 'corr' and d.oi.size > 6: m = 'f_determ'
        if m == 'binned_spread_skill' and d.oi.size < 3: m = 'sq_error'
        q = {}
        if m in THR:
            t = asked.get('t')
            while t is None or d.kind == 'step' and ({t['v']} if t['k'] == 's' else set(t['v'])) & locs:
                t = gen.thr(rng, d, cls, -3, 4, off=d.kind == 'step', per_cell=0.2)
            asked['t'] = t
            q.update(t=t, over=asked.setdefault('over', bool(rng.integers(0, 2))))
        if m == 'iou_prob': q.update(pover=True, pt=12)
        if m == 'reliability': q['nb'] = 5
        if m == 'binned_spread_skill': q['nb'] = 2
        if m == 'corr': q['scale'] = d.u * (12 if cls == 'ens' else 1)
        h.call(v, m, **q)
    shutil.rmtree(path, ignore_errors=True)


def flat(r):
    if isinstance(r, (tuple, list)): return [flat(x) for x in r]
    if hasattr(r, 'to_numpy'): r = r.to_numpy()
    a = np.asarray(r)
    return [list(map(int, a.shape))] + [repr(float(x)) for x in a.ravel()]


def twin(rec, rng, k, b):
    """The same behaviour on arbitrary data, every answer against that of a verifier built with the present settings."""
    cls = b[0]['cls']
    rec.history()
    os.environ['pyanen_boot_repeats'] = '4'
    if cls == 'ens' or rng.random() < 0.3: s = (3,) * int(rng.integers(1, 3))
    else: s = gen.shape(rng, cap=12, hi=3)
    o = rng.uniform(0.1, 5, s)
    new = getattr(PyAnEn, CLS[cls])
    V = {'ax': [gen.axes(rng, len(s)) for _ in range(3)], 'boot': [None, 2]}
    if cls == 'determ': f = rng.uniform(0, 5, s)
    elif cls == 'ens':
        f = rng.uniform(0, 5, s + (3,))
        V.update(eax=[[-1, 0], [0, -1], [0, None], [None, 0]][int(rng.integers(0, 4))], col=[np.mean, np.max, np.median][k % 2:][:2])
    elif cls == 'hurdle':
        f = {'pop': rng.uniform(0, 1, s), 'mu': rng.uniform(1, 4, s), 'sigma': rng.uniform(0.3, 2, s)}
        V.update(ib=[6, 11], ir=[(0, 9), (0, 6)])
    else:
        f = {'sigma': rng.uniform(0.5, 2, s)}
        if cls == 'gauss': f['mu'] = rng.uniform(0, 4, s)
        else: f.update(unshifted_mu=rng.uniform(1, 4, s), shift=rng.uniform(-1, 0.2, s)); f['mu'] = f['unshifted_mu'] + f['shift']
        V.update(trunc=[False, True], mem=[3, int(rng.integers(4, 9))] if rng.random() < 0.8 else [None, 4], clip=[None, 1.5], sax=[[-1, 0], [0, -1], [-1, 1]][k % 3])
        if k % 5 == 0: V['clip'] = [1.5, None]
    name = {'ax': 'avg_axis', 'boot': 'boot_samples', 'eax': 'ensemble_axis', 'col': 'ensemble_collapse_func', 'trunc': 'truncated', 'mem': 'n_sample_members',
            'clip': 'clip_member_to_zero', 'sax': 'move_sampled_ens_axis', 'ib': 'n_approx_bins', 'ir': 'integration_range'}
    setter = {'ax': 'set_avg_axis', 'boot': 'set_boot_samples', 'eax': 'set_ensemble_axis', 'col': 'set_collapse_func', 'trunc': 'set_truncation', 'mem': 'set_ensemble_members',
              'clip': 'set_member_clip', 'sax': 'set_move_sampled_ens_axis', 'ib': 'set_bins', 'ir': 'set_integration_range'}
    cur = {y: 1 for y in V}
    val = lambda y: V[y][cur[y] - 1]
    build = lambda **kw: new(f, o, **{name[y]: val(y) for y in V}, **kw)
    v, ex = guarded(build)
    if ex: rec.fact('true', x=False, why='construction refused', ex=ex); return
    path, save = os.path.join(rec.work, 't%d' % rec.histories), 1
    over, t, pick = bool(rng.integers(0, 2)), float(np.round(rng.uniform(0.5, 3), 2)), {}
    for x in b[1:]:
        if x['op'] == 'set':
            y = x['k']
            if y == 'save':
                save = x['v']
                r, ex = guarded(lambda: v.disable_saving() if save == 1 else v.enable_saving(path, start_from_scratch=save == 2))
            else:
                cur[y] = x['v']
                if y == 'boot' and val(y) is None and k % 2: r, ex = guarded(v.disable_boot)
                elif y == 'ir': r, ex = guarded(lambda: v.set_integration_range(*val(y)))
                else: r, ex = guarded(lambda: getattr(v, setter[y])(val(y)))
            rec.fact('true', x=bool(r is v), why='setter does not return the verifier', k=y, ex=str(ex))
            continue
        m = pick.setdefault(x['m'], str(rng.choice(EXTRA.get(x['m'], [x['m']]))))
        if m == 'binned_spread_skill' and o.size < 4: m = 'sq_error'
        if cls == 'hurdle' and m in ('corr', 'rank_hist'): m = 'crps'
        kw = {}
        if m in THR: kw = {'over' if over else 'below': t}
        if m == 'iou_prob': kw = dict(over=(t, 0.4) if over else (None, 0.4), below=(None, None) if over else (t, None))
        if m in ('reliability', 'binned_spread_skill'): kw['nbins'] = 2
        drawn = m in ('prob_to_ens', 'spread', 'rank_hist') and cls in ('gauss', 'gamma') or cls in ('gauss', 'gamma') and m == 'rank_hist'
        if save == 3 or (save == 2 and drawn):              # reusing: what is saved may be older than the settings
            guarded(lambda: getattr(v, m)(**kw))
            continue
        seed = int(rng.integers(2 ** 31))
        np.random.seed(seed)
        a, ea = guarded(lambda: getattr(v, m)(**kw))
        np.random.seed(seed)
        w, ew = guarded(build)
        np.random.seed(seed)
        c, ec = guarded(lambda: getattr(w, m)(**kw))
        rec.fact('equal', x='refused' if ea else flat(a), y='refused' if ec else flat(c), why='differs from a verifier built anew: ' + m, cls=cls)
    # and says the same about itself
    w, ew = guarded(lambda: build(**({} if save == 1 else dict(working_directory=path, start_from_scratch=save == 2))))
    said = lambda y: [l for l in repr(y).split('\n') if save != 1 or 'start_from_scratch' not in l]
    if not ew: rec.fact('equal', x=said(v), y=said(w), why='describes itself otherwise than a verifier built anew', cls=cls)
    shutil.rmtree(path, ignore_errors=True)


def replay(rec, behs, i, how):
    for k, b in enumerate(behs): (exact if how == 'exact' else twin)(rec, rec.rng, k + i, b)


def jobs(tier, seed):
    rng = np.random.default_rng(seed)
    short = behave.behaviours('Config', 'CF_beh')
    sim = behave.behaviours('Config', 'CF_sim', extra=('-simulate', 'num=%d' % tiered(tier, 900, 8000), '-depth', '20', '-seed', str(seed)), workers=1)
    sim = [b for b in sim if any(x['op'] == 'set' for x in b)]
    short = [b for b in short if any(x['op'] == 'set' for x in b)]
    b1 = behave.sample(short, tiered(tier, 500, 13000), rng) + behave.sample(sim, tiered(tier, 400, 4000), rng)
    b2 = behave.sample(short, tiered(tier, 700, 13000), rng) + behave.sample(sim, tiered(tier, 500, 4000), rng)
    w = tiered(tier, 6, 24)
    return [('exact%d' % i, replay, (b1[i::w], i, 'exact')) for i in range(w)] + [('twin%d' % i, replay, (b2[i::w], i, 'twin')) for i in range(w)]


def models(tier):
    return [model(tiered(tier, 'CF_all', 'CF_deep'), 'Config'), model('CF_mut_collapse', 'Config', expect='violation'), model('CF_mut_wipe', 'Config', expect='violation')]
