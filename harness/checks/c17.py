"""C17: saved results never answer a different question."""
import os
import shutil
import numpy as np
import gen
import behave
from .common import *

ALL = {
    'ens': {'crps', 'rmse', 'brier', 'cdf', 'roc', 'sharpness', 'iou_determ', 'iou_prob', 'spread', 'variance', 'f_determ', 'error',
            'ab_error', 'sq_error', 'reliability', 'binned_spread_skill', 'corr', 'brier_decomp'},
    'determ': {'f_determ', 'error', 'ab_error', 'sq_error', 'rmse', 'corr', 'iou_determ'},
    'gauss': {'f_determ', 'error', 'ab_error', 'sq_error', 'rmse', 'corr', 'iou_determ', 'brier', 'cdf', 'sharpness', 'reliability', 'brier_decomp', 'roc', 'iou_prob'},
    'hurdle': {'f_determ', 'variance', 'crps', 'error', 'sq_error', 'brier', 'cdf', 'sharpness', 'reliability', 'brier_decomp', 'iou_prob'}}


def world(rec, rng, k, need=frozenset()):
    """A class, two datasets of the same shape, construction arguments."""
    while not need <= ALL[['ens', 'ens', 'determ', 'gauss', 'ens', 'hurdle'][k % 6]]: k += 1
    cls = ['ens', 'ens', 'determ', 'gauss', 'ens', 'hurdle'][k % 6]
    s = gen.shape(rng, cap=6, hi=3)
    while len(s) > 2: s = gen.shape(rng, cap=6, hi=3)
    if k % 7 == 3: s = (3, 4) if k % 2 else (6,)
    kw, u = {}, int(rng.choice([1, 2]))
    if cls == 'ens':
        m = int(rng.choice([2, 3, 4]))
        first = bool(rng.integers(0, 2))
        ds = [gen.ens(rec, rng, s=s, m=m, first=first, u=u, lo=-2, hi=4) for _ in range(2)]
        kw = {'eax': 0 if first else -1}
    elif cls == 'determ':
        ds = [gen.det(rec, rng, s=s, u=u, lo=-2, hi=4) for _ in range(2)]
    elif cls == 'gauss':
        ds = [gen.step(rec, rng, 'gauss', s=s, u=1) for _ in range(2)]
    else:
        ds = [gen.step(rec, rng, 'hurdle', s=s, u=1) for _ in range(2)]
        # nodes at halves, locations at integers
        kw = dict(integration_range=(0.5, 8.5), n_approx_bins=int(rng.choice([5, 9])))
    return cls, ds, kw, ALL[cls]


def play(rec, rng, k, b):
    h = rec.history()
    need = {x['m'] for x in b if x['op'] == 'call'}
    cls, ds, kw, metrics = world(rec, rng, k, need if len(need) <= 4 else set())
    n = ds[0].oi.ndim
    cells = ds[0].oi.size
    path = os.path.join(rec.work, 'h%d' % rec.histories)
    ax = {}
    ax[1] = gen.axes(rng, n)
    ax[2] = gen.axes(rng, n)
    for _ in range(6):
        if ax[2] != ax[1]: break
        ax[2] = gen.axes(rng, n)
    off = ds[0].kind == 'step'
    offs = cls in ('gauss', 'hurdle')
    locs = {int(x) for d in ds for x in d.fi.ravel()} if off else set()
    def threshold(per=0.25):
        while True:
            t = gen.thr(rng, ds[0], cls, -3, 4, off=off, per_cell=per)
            if not off: return t
            if t['k'] == 's' and t['v'] in locs: continue
            if t['k'] == 'a' and any(v in locs for v in t['v']): continue
            return t
    t1 = threshold()
    t2 = threshold()
    for _ in range(20):
        if t2 != t1: break
        t2 = threshold()
    if t1['k'] == 'a' and t2['k'] == 'a' and rng.random() < 0.5:
        t2 = {'k': 'a', 'v': list(t1['v'])}
        j = int(rng.integers(0, len(t2['v'])))      # differs in a single cell
        for _ in range(20):
            c = int(rng.integers(-3, 9))
            if c != t1['v'][j] and c not in locs and (cls != 'hurdle' or c >= 0): t2['v'][j] = c; break
    th = {1: t1, 2: t2}
    sides = {1: (bool(rng.integers(0, 2)), bool(rng.integers(0, 2))), 2: (bool(rng.integers(0, 2)), bool(rng.integers(0, 2)))}
    if rng.random() < 0.3: th[2], sides[2] = t1, (not sides[1][0], sides[1][1])      # same threshold, other side
    pts = {1: int(rng.choice([4, 12])), 2: int(rng.choice([20, 28, 12]))}
    nbs = {2: 2, 3: 3, 0: 0}
    h.opt('reps', 1 if k % 3 else 2)
    if k % 5 == 0: h.opt('conf', [1, 2])
    names = {m: str(rng.choice(['', '', '', 'name ' + m, 'none'])) for m in metrics}
    lit = str(rng.choice(sorted(metrics - {'reliability', 'binned_spread_skill', 'iou_determ', 'iou_prob', 'corr', 'brier_decomp'}))) if rng.random() < 0.2 else None
    style = {m: str(rng.choice(['float', 'int'])) for m in sorted(metrics)}
    v, first, swap = None, True, False
    ns = int(rng.choice([1, 2]))
    for x in b:
        if x['op'] == 'new':
            swap = not first and rng.random() < 0.3
            d = ds[1] if swap else ds[0]
            v = h.new(cls, d, ax=ax[x['ax']], boot=ns if x['boot'] else None, dir='d', path=path, scr=bool(x['scr']), **kw)
            first = False
        elif x['op'] == 'ax': h.set(v, 'set_avg_axis', ax[x['v']])
        elif x['op'] == 'boot':
            if x['v']: h.set(v, 'set_boot_samples', ns)
            elif rng.random() < 0.5: h.set(v, 'disable_boot')
            else: h.set(v, 'set_boot_samples', None)
        elif x['op'] == 'disable': h.set(v, 'disable_saving')
        elif x['op'] == 'enable': h.set(v, 'enable_saving', path, start_from_scratch=bool(x['scr']), ch={'dir': 'd', 'scr': bool(x['scr'])})
        elif x['op'] == 'call':
            m = x['m']
            if m not in metrics: m = str(rng.choice(sorted(metrics)))
            q = {}
            t = x['t'] or 1
            nb = x['nb'] or 2
            if m in ('brier', 'cdf', 'roc', 'sharpness', 'iou_determ', 'iou_prob', 'reliability', 'brier_decomp'):
                q.update(t=th[t], over=sides[t][0], thr_style=style[m])
            if m == 'iou_prob': q.update(pover=sides[t][1], pt=pts[t])
            if m == 'reliability': q['nb'] = [0, 0, 2, 5][nb]
            if m == 'binned_spread_skill':
                if cells < 3: continue
                q['nb'] = nb
            if m == 'corr':
                if cls == 'hurdle': continue
                q['scale'] = ds[0].u * (12 if cls == 'ens' else 1)
            sn = names[m]
            if m in ('corr', 'brier_decomp') and sn == '' and rng.random() < 0.7: sn = 'my_' + m
            q['sn'] = sn
            if m == lit: q.update(sn='lit_' + m, lit=True)
            if q.get('lit') and 't' in q: q.update(t=th[1], over=sides[1][0])      # a literal name is the user's own key
            h.call(v, m, **q)
    shutil.rmtree(path, ignore_errors=True)


def replay(rec, behs, i):
    for k, b in enumerate(behs): play(rec, rec.rng, k + i, b)


def close(rec, n, i):
    """Thresholds that are almost equal, long arrays, many digits: compared with a verifier that saves nothing."""
    import PyAnEn
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = gen.shape(rng, cap=8, hi=3) if k % 5 else (2, 2)
        base = rng.choice([0.1, 0.3, 1 / 3, 2.0, 1e-9, 1234567.125])
        eps = base * 10.0 ** -int(rng.integers(1, 15))
        ta, tb = float(base), float(base + eps)
        f = rng.choice([ta, tb, (ta + tb) / 2, ta - 1, tb + 1], s + (3,))
        o = rng.choice([ta, tb, (ta + tb) / 2, ta - 1, tb + 1], s)
        path = os.path.join(rec.work, 'c%d' % k)
        saving = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1, avg_axis=None, working_directory=path, start_from_scratch=False)
        plain = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1, avg_axis=None)
        qs = [ta, tb]
        if o.size <= 6 or rng.random() < 0.5:
            a = np.full(s, ta); b = a.copy(); b.flat[int(rng.integers(0, a.size))] = tb
            qs += [a, b]
        if s == (2, 2): qs = [np.array([ta, tb + 0.5]), np.array([[ta], [tb + 0.5]]), np.array([[ta, tb + 0.5]]), np.array([[ta, tb], [tb + 0.5, ta]]), np.array([ta, tb, tb + 0.5, ta])]
        seq = []
        for _ in range(14):
            m = str(rng.choice(['brier', 'cdf', 'iou_determ', 'reliability', 'sharpness', 'iou_prob']))
            seq.append((m, bool(rng.integers(0, 2)), int(rng.integers(0, len(qs))), int(rng.choice([2, 3, 11])), int(rng.integers(0, 2))))
        for m, over, j, nb, axi in seq:
            kw = {'over' if over else 'below': qs[j]}
            if m == 'iou_prob': kw = dict(over=(qs[j], None) if over else (None, None), below=(None, None) if over else (qs[j], None)); kw['over' if nb == 3 else 'below'] = (kw['over' if nb == 3 else 'below'][0], 0.4)
            if m == 'reliability': kw['nbins'] = nb
            ax = [None, 0][axi]
            saving.set_avg_axis(ax); plain.set_avg_axis(ax)
            out = []
            for v in (saving, plain):
                r, ex = guarded(lambda: getattr(v, m)(**kw))
                out.append('exc' if ex else [repr(np.asarray(getattr(x, 'to_numpy', lambda: x)()).tolist()) for x in (r if isinstance(r, tuple) else (r,))])
            rec.fact('equal', x=out[0], y=out[1], why='saved ' + m + ' differs')
        shutil.rmtree(path, ignore_errors=True)


def huge(rec, n, i):
    """What is not to be saved: thresholds of more than five values leave no file of their own."""
    import PyAnEn
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = [(2, 3), (6,), (7,), (2, 2, 2), (5,), (2, 2)][k % 6]
        f, o = rng.integers(-3, 4, s + (4,)).astype(float), rng.integers(-3, 4, s).astype(float)
        path = os.path.join(rec.work, 'g%d' % k)
        v = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1, working_directory=path)
        m = ['cdf', 'brier', 'reliability', 'iou_determ', 'sharpness', 'iou_prob', 'iou_prob'][k % 7]
        t = rng.integers(-2, 3, s).astype(float)
        big = int(np.prod(s)) > 5
        f2, o2 = rng.integers(-3, 4, s + (4,)).astype(float), rng.integers(-3, 4, s).astype(float)
        mk = lambda: PyAnEn.VerifyEnsemble(f2, o2, ensemble_axis=-1, working_directory=path, start_from_scratch=False)
        ask = lambda w, **kw: repr(guarded(lambda: getattr(w, m)(**(dict(over=(t, 0.5), below=(None, None)) if m == 'iou_prob' else dict(over=t)), **kw))[0])
        r = ask(v)
        # another verifier, with other data, on the same directory
        alone = ask(PyAnEn.VerifyEnsemble(f2, o2, ensemble_axis=-1))
        rec.fact('equal', x=ask(mk()), y=alone if big else r, why='reuse for a threshold with %d values' % int(np.prod(s)))
        r = ask(v, save_name='LITERAL_mine')
        rec.fact('equal', x=ask(mk(), save_name='LITERAL_mine'), y=r, why='literal name not reused')
        # from scratch nothing is visible
        fresh = PyAnEn.VerifyEnsemble(f2, o2, ensemble_axis=-1, working_directory=path, start_from_scratch=True)
        rec.fact('equal', x=ask(fresh, save_name='LITERAL_mine'), y=alone, why='saved results visible after starting from scratch')
        shutil.rmtree(path, ignore_errors=True)


def long(rec, n, i):
    """Thresholds of a thousand values and more, and long names: the answer is that of a verifier that saves nothing."""
    import PyAnEn
    rng = rec.rng
    for k in range(n):
        rec.history()
        s = [(1200,), (40, 30), (7,), (300, 2, 2)][k % 4]
        f, o = rng.integers(0, 5, s + (3,)).astype(float), rng.integers(0, 5, s).astype(float)
        path = os.path.join(rec.work, 'l%d' % k)
        ax = [None, 0][k % 2]
        v = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1, avg_axis=ax, working_directory=path, start_from_scratch=bool(k % 3))
        w = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1, avg_axis=ax)
        a = np.full(s, 1.5)
        b = a.copy()
        b.flat[5:-5] = 3.5                      # as printed, the same
        for m in rng.permutation(['cdf', 'brier', 'iou_determ', 'iou_prob', 'sharpness', 'reliability']):
            m = str(m)
            if m == 'reliability' and ax == 0: continue
            for t in (a, b, a):
                kw = dict(over=(t, 0.4), below=(None, None)) if m == 'iou_prob' else dict(over=t)
                if k % 2 and m != 'iou_prob': kw = dict(below=t)
                if m == 'reliability': kw['nbins'] = 3
                out = []
                for y in (v, w):
                    r, ex = guarded(lambda: getattr(y, m)(**kw))
                    out.append('refused' if ex else repr([np.asarray(getattr(x, 'to_numpy', lambda: x)()).tolist() for x in (r if isinstance(r, tuple) else (r,))])[:3000])
                rec.fact('equal', x=out[0], y=out[1], why='saved ' + m + ' differs')
        name = 'n' * int(rng.choice([100, 200, 245]))
        for lit in ('LITERAL_' + name, name):
            out = [guarded(lambda: repr(y.crps(save_name=lit))) for y in (v, v, w)]
            rec.fact('equal', x=[str(x[0]) for x in out], y=[str(out[2][0])] * 3, why='long name')
        shutil.rmtree(path, ignore_errors=True)


def home(rec, n, i):
    """A directory given relative to the home of the user, from wherever the process works."""
    import PyAnEn
    rng = rec.rng
    old = os.environ.get('HOME')
    for k in range(n):
        rec.history()
        h, cw = (os.path.join(rec.work, x + str(k)) for x in ('home', 'cwd'))
        os.makedirs(h); os.makedirs(cw + '/a'); os.makedirs(cw + '/b')
        os.environ['HOME'] = h
        sub = str(rng.choice(['x', 'x/y', '.cache/z']))
        dat = [(rng.integers(-3, 4, (3, 2)).astype(float), rng.integers(-3, 4, (3, 2)).astype(float)) for _ in range(2)]
        mk = lambda j, p, scratch=False: PyAnEn.VerifyDeterm(*dat[j], avg_axis=0, working_directory=p, start_from_scratch=scratch) if rng.random() < 0.5 else \
            PyAnEn.VerifyDeterm(*dat[j], avg_axis=0).enable_saving(p, scratch)
        m = str(rng.choice(['error', 'sq_error', 'ab_error']))
        try:
            os.chdir(cw + '/a')
            r = answer(mk(0, '~/' + sub, bool(k % 2)), m, {})
            os.chdir(cw + '/b')
            rec.fact('equal', x=[answer(mk(1, '~/' + sub), m, {}), answer(mk(1, os.path.join(h, sub)), m, {})], y=[r, r], why='saved results not found again')
            rec.fact('equal', x=answer(mk(1, '~/' + sub, True), m, {}), y=answer(PyAnEn.VerifyDeterm(*dat[1], avg_axis=0), m, {}), why='saved results visible after starting from scratch')
            rec.fact('equal', x=sorted(os.listdir(cw + '/a') + os.listdir(cw + '/b')), y=[], why='files elsewhere')
        finally: os.chdir(rec.work)
    if old is not None: os.environ['HOME'] = old


def answer(y, m, kw):
    r, ex = guarded(lambda: getattr(y, m)(**kw))
    return 'refused' if ex else repr([np.asarray(getattr(x, 'to_numpy', lambda: x)()).tolist() for x in (r if isinstance(r, tuple) else (r,))])[:3000]


def grid(rec, n, i):
    """Every metric under many axes, bins, thresholds and probabilities in one directory, from two verifiers:
    the answers are those of a verifier that saves nothing."""
    import PyAnEn
    rng = rec.rng
    for k in range(n):
        rec.history()
        kind = (k + i) % 3
        s = [(2, 3, 4), (2, 4, 2), (2, 1, 2, 1, 2, 1, 2)][kind]
        nd = len(s)
        f, o = rng.integers(0, 13, s + (3,)) / 1.0, rng.integers(0, 13, s) / 1.0
        if kind == 1: s, f, o, nd = (2,), f[:, 0, 0], o[:, 0, 0], 1             # thresholds of two values
        path = os.path.join(rec.work, 'q%d' % k)
        axs = [None, 0, (0, 1), (1, 0), (0, 2), 2, (-1,), 1, (1, 2), (0, 1, 2), (2, 0, 1)] if kind == 0 else [None, 0, (-1,)] if kind == 1 else \
            [(0, 1, 2, 3, 4, 5), (0, 1, 2, 3, 4, 6), (0, 1, 2, 3, 5, 6), (1, 2, 3, 4, 5, 6), (6, 1, 2, 3, 4, 5), None]
        if kind == 1: ts = [np.array(x) for x in ([1, 11], [11, 1], [1, 1], [1.0, 11.0], [11, 11], [-1, 1], [1, -1], [12, 1], [1, 21], [2, 1])] + [1, 11, 1.5]
        else: ts = [3, 3.5, 7, 10]
        v = [PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1, working_directory=path, start_from_scratch=False) for _ in range(2)]
        w = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1)
        ms = [str(x) for x in rng.permutation(['binned_spread_skill', 'reliability', 'brier_decomp', 'iou_determ', 'iou_prob', 'corr', 'cdf', 'brier', 'sharpness', 'error', 'crps', 'spread', 'rmse', 'f_determ', 'roc'])]
        for m in ms[:8] if kind == 0 else ms:
            for _ in range(10):
                ax = axs[int(rng.integers(0, len(axs)))]
                t = ts[int(rng.integers(0, len(ts)))]
                over = rng.random() < 0.5
                kw = {}
                if m in ('reliability', 'brier_decomp', 'iou_determ', 'cdf', 'brier', 'sharpness', 'roc'): kw = {'over' if over else 'below': t}
                if m == 'iou_prob':
                    pt = [0.2, 0.5, 0.25][int(rng.integers(0, 3))]
                    po = rng.random() < 0.5
                    kw = dict(over=(t if over else None, pt if po else None), below=(None if over else t, None if po else pt))
                if m in ('reliability', 'binned_spread_skill'): kw['nbins'] = int(rng.choice([1, 2, 12]))
                if m in ('brier_decomp', 'corr') and rng.random() < 0.9: kw['save_name'] = m
                y = v[int(rng.integers(0, 2))]
                y.set_avg_axis(ax); w.set_avg_axis(ax)
                rec.fact('equal', x=answer(y, m, kw), y=answer(w, m, kw), why='saved ' + m + ' differs')
        shutil.rmtree(path, ignore_errors=True)


def jobs(tier, seed):
    rng = np.random.default_rng(seed)
    sim = behave.behaviours('Store', 'ST_sim', extra=('-simulate', 'num=%d' % tiered(tier, 700, 6000), '-depth', '70', '-seed', str(seed)), workers=1)
    foc = behave.behaviours('Store', 'ST_foc', extra=('-simulate', 'num=%d' % tiered(tier, 900, 8000), '-depth', '70', '-seed', str(seed)), workers=1)
    short = behave.behaviours('Store', 'ST_behs')
    b = behave.sample(sim, tiered(tier, 240, 4000), rng) + behave.sample(foc, tiered(tier, 560, 6000), rng) + behave.sample(short, tiered(tier, 120, 4300), rng)
    w = tiered(tier, 8, 32)
    j = [('replay%d' % i, replay, (b[i::w], i)) for i in range(w)]
    return j + split('close', close, tiered(tier, 30, 200), 2) + split('unsaved', huge, tiered(tier, 42, 84), 1) + split('long', long, tiered(tier, 8, 40), 1) + split('grid', grid, tiered(tier, 12, 120), 2) + split('home', home, tiered(tier, 20, 120), 1)


def models(tier):
    return [model(tiered(tier, 'ST_key', 'ST_key4'), 'Store'), model('ST_mut_name', 'Store', expect='violation')]
