"""C24: ill-posed requests are refused, not answered."""
import os
import shutil
import numpy as np
import PyAnEn
import PyAnEn.Verify
import PyAnEn.VerifyProb
import behave
from rec import CLS
from .common import *

PARAMS = {'gauss': ['mu', 'sigma'], 'gamma': ['mu', 'sigma', 'shift', 'unshifted_mu'], 'hurdle': ['pop', 'mu', 'sigma']}
ARG = {'ax': 'avg_axis', 'boot': 'boot_samples', 'scratch': 'start_from_scratch', 'dir': 'working_directory', 'eax': 'ensemble_axis', 'col': 'ensemble_collapse_func',
       'sax': 'move_sampled_ens_axis', 'trunc': 'truncated', 'pit': 'pit_randomize_zero_ranks', 'mem': 'n_sample_members', 'clip': 'clip_member_to_zero',
       'ib': 'n_approx_bins', 'ir': 'integration_range'}
SET = {'ax': 'set_avg_axis', 'boot': 'set_boot_samples', 'dir': 'enable_saving', 'eax': 'set_ensemble_axis', 'col': 'set_collapse_func', 'sax': 'set_move_sampled_ens_axis',
       'trunc': 'set_truncation', 'mem': 'set_ensemble_members', 'clip': 'set_member_clip', 'ib': 'set_bins', 'ir': 'set_integration_range'}
THR = ('cdf', 'brier', 'brier_decomp', 'reliability', 'roc', 'sharpness', 'iou_determ', 'iou_prob')


def new(cls):
    return getattr(PyAnEn, CLS[cls])


def data(rng, cls, s, m=4):
    o = rng.uniform(0.2, 5, s)
    if cls == 'determ': return rng.uniform(0, 5, s), o
    if cls == 'ens': return rng.uniform(0, 5, tuple(s) + (m,)), o
    f = {'sigma': rng.uniform(0.5, 2, s)}
    if cls == 'gamma': f['unshifted_mu'] = rng.uniform(1, 4, s); f['shift'] = rng.uniform(-1, 0, s); f['mu'] = f['unshifted_mu'] + f['shift']
    else: f['mu'] = rng.uniform(1, 4, s)
    if cls == 'hurdle': f['pop'] = rng.uniform(0, 1, s)
    return f, o


def misfit(rng, s):
    """A shape that is not s, most often one that broadcasts with it or has as many cells."""
    s = tuple(int(x) for x in s)
    c = [s + (1,), (1,) + s, s[::-1], (int(np.prod(s)),), s[1:], s[:-1], tuple(1 for _ in s), s[:-1] + (1,), (1,) + s[1:], s + s, tuple(x + 1 for x in s), s[:-1] + (s[-1] + 1,) if s else (2,), ()]
    c = [x for x in c if x != s]
    return c[int(rng.integers(0, len(c)))]


def fit(rng, k, kind, n, path, cls):
    """A value of a setting, of the kind the model names; proper ones are usable ones."""
    if kind == 'none': return None
    if kind == 'str': return path if k == 'dir' else str(rng.choice(['0', 'mean', 'True', '5', 'x']))
    if kind == 'float': return float(rng.choice([0.5, 1.0, 2.0]))
    if kind == 'bool': return False if k == 'trunc' and cls == 'hurdle' else bool(rng.integers(0, 2))
    if kind == 'function': return [np.mean, np.median, np.max][int(rng.integers(0, 3))] if k == 'col' else [len, np.mean, str][int(rng.integers(0, 3))]
    if kind == 'tuple':
        if k == 'ir': return (0.0, 9.0)
        if k == 'ax': return tuple(int(x) for x in rng.permutation(n)[:int(rng.integers(0, n + 1))]) or (0,)
        return [(0,), (1, 2), [3], (2.0,)][int(rng.integers(0, 4))]
    if kind == 'int':
        if k in ('ax', 'sax'): return int(rng.integers(-n, n))
        if k == 'eax': return [-1, n][int(rng.integers(0, 2))]
        if k in ('boot', 'mem', 'ib'): return int(rng.integers(2, 6))
        return int(rng.integers(0, 6))


def said(r, ex):
    return 'answer' if not ex else 'notimpl' if ex['e'] == 'notimpl' else 'refused'


def ask(rng, v, m, th, o):
    kw = {}
    if m == 'iou_prob':
        if th['o1'] or th['o2'] or rng.random() < 0.9 or th['b1'] == th['b2']: kw['over'] = (2.0 if th['o1'] else None, 0.25 if th['o2'] else None)
        else: kw['over'] = (None, None)
        kw['below'] = (3.0 if th['b1'] else None, 0.75 if th['b2'] else None)
        if rng.random() < 0.3: kw = {k: list(x) for k, x in kw.items()}
    elif m in THR:
        t = [2.0, 0.0, 3, o.copy()][int(rng.integers(0, 4))]
        if th['o1']: kw['over'] = t
        if th['b1']: kw['below'] = [2.0, 0.0, 3][int(rng.integers(0, 3))] if th['o1'] else t
        for k in ('over', 'below'):
            if k not in kw and rng.random() < 0.3: kw[k] = None
    if m == 'reliability': kw['nbins'] = 3
    if m == 'binned_spread_skill': kw['nbins'] = 2
    if m not in ('prob_to_ens', 'pit') and rng.random() < 0.2: kw['save_name'] = None
    return guarded(lambda: getattr(v, m)(**kw))


def lives(rec, behs, i):
    rng = rec.rng
    for k, b in enumerate(behs):
        rec.history()
        os.environ['pyanen_boot_repeats'] = '3'
        cls = b[0]['cls']
        s = (3,) if rng.random() < 0.2 else tuple(int(x) for x in rng.integers(2, 5, 2)) if rng.random() < 0.7 else (2, 3, 2)
        if np.prod(s) < 6: s = (7,)
        path = os.path.join(rec.work, 'l%d' % k)
        v, trunc, mem = None, False, False
        for x in b:
            if x['op'] == 'build':
                f, o = data(rng, cls, s)
                kw = {ARG[x['k']]: fit(rng, x['k'], x['kind'], len(s), path, cls)}
                if cls == 'hurdle': kw = dict(dict(n_approx_bins=4, integration_range=(0.0, 9.0)), **kw)
                if x['kind'] == 'none' and x['k'] == 'ir': kw['integration_range'] = None
                if x['fault'] == 'shape':
                    if cls in PARAMS:
                        p = str(rng.choice(PARAMS[cls])); f[p] = rng.uniform(0.5, 1, misfit(rng, s))
                    elif cls == 'ens':
                        w = misfit(rng, s)
                        if rng.random() < 0.5 and (4,) + w != f.shape: kw['ensemble_axis'] = int(rng.choice([-1, 0]))
                        f = rng.uniform(0, 5, w + (4,) if rng.random() < 0.5 else (4,) + w)
                        if f.shape[1:] == s or f.shape[:-1] == s: f = rng.uniform(0, 5, s)
                    else: f = rng.uniform(0, 5, misfit(rng, s))
                    if x['k'] in ('ax', 'sax', 'eax'): kw.pop(ARG[x['k']], None)
                elif x['fault'] == 'forecast':
                    if cls in PARAMS: f = [list(f.values())[0], list(f.values()), None, 'mu'][int(rng.integers(0, 4))]
                    else: f = [f.tolist(), None, {'f': f}, 3.5, tuple(f)][int(rng.integers(0, 5))]
                elif x['fault'] == 'observation': o = [o.tolist(), None, {'o': o}, 3.5, 'o'][int(rng.integers(0, 5))]
                elif x['fault'] == 'parameter': f.pop(str(rng.choice(PARAMS[cls])))
                elif x['fault'] == 'member axis': kw['ensemble_axis'] = [0, 1, len(s) + 1, -len(s) - 2, -len(s) - 1, 0][int(rng.integers(0, 6))] if len(s) > 1 and len(set(s + (4,))) > 1 else 5
                if x['fault'] == 'member axis' and kw['ensemble_axis'] in (0, -len(s) - 1) and s[::-1] and f.shape[1:] == s: kw['ensemble_axis'] = 7
                r, ex = guarded(lambda: new(cls)(f, o, **kw))
                rec.fact('equal', x='refused' if ex else 'ok', y=x['r'], why='construction', fault=x['fault'], k=x['k'], kind=x['kind'], c=cls, ex=str(ex)[:200])
                if not ex: v, trunc, mem = r, kw.get('truncated') is True, kw.get('n_sample_members') is not None
                if ex is None and x['r'] != 'ok': break
                if ex is not None and x['r'] == 'ok': break
            elif x['op'] == 'set':
                w = fit(rng, x['k'], x['kind'], len(s), path, cls)
                r, ex = guarded(lambda: getattr(v, SET[x['k']])(w))
                rec.fact('equal', x='refused' if ex else 'ok', y=x['r'], why='setter', k=x['k'], kind=x['kind'], c=cls, ex=str(ex)[:200])
                if ('refused' if ex else 'ok') != x['r']: break
                if x['k'] == 'trunc' and x['kind'] == 'bool': trunc = w
                if x['k'] == 'mem' and x['kind'] in ('int', 'none'): mem = w is not None
            else:
                if x['m'] == 'reliability' and v.avg_axis is not None and x['r'] == 'answer': continue     # see DESIGN.md, slices with different numbers of bins
                r, ex = ask(rng, v, x['m'], x['th'], np.asarray(v.o))
                rec.fact('askreq', c=cls, m=x['m'], th=x['th'], trunc=trunc, mem=mem, got=said(r, ex), ex=str(ex)[:200])
        shutil.rmtree(path, ignore_errors=True)


def shapes(rec, n, i):
    """Member axes and averaging axes for arbitrary shapes; distributions with arbitrary parameter shapes."""
    rng = rec.rng
    for _ in range(n):
        rec.history()
        s = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 4))))
        o = rng.uniform(0, 1, s)
        j = int(rng.integers(0, 4))
        if j == 0: fs = s + (int(rng.integers(1, 5)),)
        elif j == 1: fs = (int(rng.integers(1, 5)),) + s
        elif j == 2: fs = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 5))))
        else: fs = misfit(rng, s)
        f = rng.uniform(0, 1, fs)
        ax = [99, 99, 0, -1, len(fs) - 1, -len(fs), 1, -2, len(fs), -len(fs) - 1][int(rng.integers(0, 10))]
        later = rng.random() < 0.3 and len(fs) > 0
        v = None
        if later:
            o2 = f[..., 0] if rng.random() < 0.5 else f[0]
            v, ex = guarded(lambda: PyAnEn.VerifyEnsemble(f, np.array(o2), ensemble_axis=-1 if o2.shape == f.shape[:-1] else 0))
            if ex: rec.fact('true', x=False, why='well-posed ensemble refused', ex=ex)
            else:
                s = tuple(o2.shape)
                v, ex = guarded(lambda: v.set_ensemble_axis(None if ax == 99 else ax))
        else: v, ex = guarded(lambda: PyAnEn.VerifyEnsemble(f, o, **({} if ax == 99 and rng.random() < 0.5 else dict(ensemble_axis=None if ax == 99 else ax))))
        used = 99
        if not ex:                                                   # the axis shows in the answers
            g = v.f_determ()
            c = [a for a in {0, len(fs) - 1} if np.shape(g) == fs[:a] + fs[a + 1:] and np.allclose(g, f.mean(axis=a))]
            sp = v.set_avg_axis(() if len(s) else None).spread() if len(s) else v.spread()
            d = [a for a in c if np.allclose(sp, f.max(axis=a) - f.min(axis=a))]
            if ax == 99 and len(d) == 2: d = [len(fs) - 1]           # the axes cannot be told apart
            elif len(d) == 2: d = [ax % len(fs)]
            used = d[0] if d else -5
        rec.fact('ensreq', fs=list(fs), os=list(s), ax=ax, used=int(used))
        # averaging axes
        cls = str(rng.choice(['determ', 'ens', 'gauss', 'gamma', 'hurdle']))
        s = tuple(int(x) for x in rng.integers(2, 4, int(rng.integers(1, 4))))
        axs = [int(x) for x in rng.integers(-len(s) - 1, len(s) + 1, int(rng.integers(1, 4)))]
        if rng.random() < 0.4: axs = axs[:1]
        a = axs[0] if len(axs) == 1 and rng.random() < 0.5 else axs if rng.random() < 0.5 else tuple(axs)
        f, o = data(rng, cls, s)
        bs = [None, 3][int(rng.integers(0, 2))]
        later = bool(rng.random() < 0.5)
        os.environ['pyanen_boot_repeats'] = '2'
        def go():
            v = new(cls)(f, o, boot_samples=bs, **(dict(n_approx_bins=4, integration_range=(0., 9.)) if cls == 'hurdle' else {}), **({} if later else dict(avg_axis=a)))
            if later: v.set_avg_axis(a)
            m = str(rng.choice(['error', 'sq_error', 'corr', 'rmse'] + ([] if cls == 'determ' else ['brier', 'crps', 'brier_decomp'])))
            if m in THR: return getattr(v, m)(over=2.0)
            return getattr(v, m)()
        r, ex = guarded(go)
        rec.fact('axreq', n=len(s), axs=axs, ok=not ex, c=cls, boot=bs or 0, ex=str(ex)[:200])
        # distributions
        cls = str(rng.choice(list(PARAMS)))
        f, o = data(rng, cls, s)
        for p in PARAMS[cls]:
            if rng.random() < 0.15: f[p] = rng.uniform(0.5, 1, misfit(rng, s))
            elif rng.random() < 0.07: del f[p]
        r, ex = guarded(lambda: new(cls)(f, o))
        rec.fact('probreq', c=cls, sh={p: [int(x) for x in f[p].shape] for p in f} or {'_': []}, os=list(s), ok=not ex)


def special(rec, n, i):
    """Requests that depend on values: truncation where there is none, per-cell thresholds that do not fit, probabilities beyond one."""
    rng = rec.rng
    for _ in range(n):
        rec.history()
        s = tuple(int(x) for x in rng.integers(2, 4, int(rng.integers(1, 4))))
        f, o = data(rng, 'hurdle', s)
        kw = dict(n_approx_bins=4, integration_range=(0.0, 9.0))
        r, ex = guarded(lambda: new('hurdle')(f, o, truncated=True, **kw) if rng.random() < 0.5 else new('hurdle')(f, o, **kw).set_truncation(True))
        rec.fact('true', x=bool(ex), why='truncated hurdle accepted')
        f, o = data(rng, 'gamma', s)
        if rng.random() < 0.5: f['shift'] = rng.uniform(-1, 1, s)
        def go():
            v = new('gamma')(f, o, **({} if i % 2 else dict(truncated=True)), n_sample_members=3)
            if i % 2: v.set_truncation(True)
            return v
        v, ex = guarded(go)
        if ex: rec.fact('true', x=False, why='truncated Gamma refused', ex=ex)
        else:
            r, ex = guarded(lambda: v.crps())
            rec.fact('askreq', c='gamma', m='crps', th=dict(o1=False, o2=False, b1=False, b2=False), trunc=True, mem=True, got=said(r, ex))
            r, ex = guarded(lambda: v.set_truncation(False).crps())
            rec.fact('askreq', c='gamma', m='crps', th=dict(o1=False, o2=False, b1=False, b2=False), trunc=False, mem=True, got=said(r, ex))
        cls = str(rng.choice(['ens', 'gauss', 'gamma', 'hurdle']))
        f, o = data(rng, cls, s)
        v = new(cls)(f, o, **(kw if cls == 'hurdle' else {}))
        if rng.random() < 0.3:      # a row against a column: as many cells, and they broadcast
            s = (1, int(rng.integers(2, 5)))[::int(rng.choice([1, -1]))]
            f, o = data(rng, cls, s)
            v = new(cls)(f, o, **(kw if cls == 'hurdle' else {}))
            w = s[::-1]
        else: w = s if rng.random() < 0.3 else misfit(rng, s)
        t = rng.uniform(0.5, 4, w)
        m = str(rng.choice(['cdf', 'brier', 'sharpness', 'roc', 'brier_decomp', 'reliability']))
        over = bool(rng.integers(0, 2))
        r, ex = guarded(lambda: getattr(v, m)(**{'over' if over else 'below': t}))
        if np.ndim(t): rec.fact('equal', x='refused' if ex else 'answer', y='answer' if w == s else 'refused', why='per-cell threshold', m=m, c=cls, w=list(w), s=list(s), ex=str(ex)[:150])
        p = float(rng.choice([0.0, 0.25, 1.0, -0.1, 1.5, 25.0]))
        q = ((2.0, p), (None, None)) if rng.random() < 0.5 else ((2.0, None), (None, p))
        if rng.random() < 0.5: q = q[::-1]
        r, ex = guarded(lambda: v.iou_prob(over=q[0], below=q[1]))
        rec.fact('equal', x='refused' if ex else 'answer', y='answer' if 0 <= p <= 1 else 'refused', why='probability', p=repr(p), ex=str(ex)[:150])


def bare(rec, n, i):
    """The classes that define no metric."""
    from PyAnEn.Verify import Verify
    from PyAnEn.VerifyProb import VerifyProb
    rng = rec.rng
    ms = ['corr', 'rank_hist', 'variance', 'f_determ', 'crps', 'error', 'spread', 'sq_error', 'ab_error', 'rmse', 'binned_spread_skill'] + list(THR)
    own = {'_error', '_sq_error', '_ab_error', '_rank_hist', '_brier', '_brier_decomp'}
    for _ in range(n):
        rec.history()
        for c, v in (('verify', Verify()), ('prob', VerifyProb(n_sample_members=[None, 3][int(rng.integers(0, 2))]))):
            for m in ms + (['prob_to_ens'] if c == 'prob' else []):
                v.o = np.ones(4)
                th = dict(o1=m in THR, o2=m in THR, b1=False, b2=False)
                r, ex = ask(rng, v, m, th, v.o)
                rec.fact('askreq', c=c, m=m, th=th, trunc=False, mem=False, got=said(r, ex))


def jobs(tier, seed):
    rng = np.random.default_rng(seed)
    two = behave.behaviours('Life', 'LF_two')
    groups = {}
    for b in two:
        if len(b) < 2: continue
        key = (b[0]['cls'], repr({k: v for k, v in b[1].items()})) if b[0]['r'] == 'ok' else (b[0]['cls'], 'refused', b[0]['fault'], b[0]['k'], b[0]['kind'])
        groups.setdefault(key, []).append(b)
    one = [g[int(rng.integers(0, len(g)))] for k, g in sorted(groups.items(), key=lambda x: repr(x[0]))]
    sim = behave.behaviours('Life', 'LF_sim', extra=('-simulate', 'num=%d' % tiered(tier, 500, 6000), '-depth', '20', '-seed', str(seed)), workers=1)
    b = one * tiered(tier, 1, 4) + sim
    w = tiered(tier, 6, 16)
    return [('lives%d' % i, lives, (b[i::w], i)) for i in range(w)] + split('shapes', shapes, tiered(tier, 250, 3000), tiered(tier, 4, 8)) + split('bare', bare, 3, 1) + split('special', special, tiered(tier, 40, 400), 2)


def models(tier):
    return [model(tiered(tier, 'MC_requests_all', 'MC_requests_deep'), 'MCRequests'), model(tiered(tier, 'LF_all', 'LF_deep'), 'Life'), model('LF_mut_checked', 'Life', expect='violation')]
