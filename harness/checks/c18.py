"""C18: an interrupted save never poisons a later run."""
import os
import shutil
import signal
import numpy as np
import gen
import behave
from child import Child, limit_bytes, no_limit
from .common import *
from .c17 import world

POINT = ['error', 'ab_error', 'sq_error', 'rmse', 'crps', 'spread', 'brier', 'cdf', 'sharpness', 'roc', 'variance', 'f_determ']


def questions(rng, cls, ds, metrics, names):
    """One question of the real code per question of the model: name -> (metric, arguments)."""
    off = ds[0].kind == 'step'
    locs = {int(x) for d in ds for x in d.fi.ravel()} if off else set()
    def threshold():
        while True:
            t = gen.thr(rng, ds[0], cls, -3, 4, off=off, per_cell=0.15)
            if not off or not ({t['v']} if t['k'] == 's' else set(t['v'])) & locs: return t
    res = {}
    for q in names:
        pool = sorted(metrics) if q[0] == 'any' else [m for m in POINT if m in metrics] if q[0] == 'crps' else sorted(metrics - {'binned_spread_skill'})
        m = q[0] if q[0] in metrics and rng.random() < 0.4 else str(rng.choice(pool))
        if m == 'binned_spread_skill' and ds[0].oi.size < 3: m = 'cdf'
        if m == 'corr' and cls == 'hurdle': m = 'cdf'
        kw = {}
        if m in ('brier', 'cdf', 'roc', 'sharpness', 'iou_determ', 'iou_prob', 'reliability', 'brier_decomp'):
            kw.update(t=threshold(), over=bool(rng.integers(0, 2)))
        if m == 'iou_prob': kw.update(pover=bool(rng.integers(0, 2)), pt=int(rng.choice([4, 12, 20])))
        if m == 'reliability': kw['nb'] = int(rng.choice([2, 5]))
        if m == 'binned_spread_skill': kw['nb'] = 2
        if m == 'corr': kw['scale'] = ds[0].u * (12 if cls == 'ens' else 1)
        if m in ('corr', 'brier_decomp'): kw['sn'] = 'my_' + m
        elif rng.random() < 0.15: kw.update(sn='lit_%d' % len(res), lit=True)
        res[q] = (m, kw)
    return res


def one(rec, rng, k, b):
    h = rec.history()
    cls, ds, kw, metrics = world(rec, rng, k)
    ax = gen.axes(rng, ds[0].oi.ndim)
    boot = 2 if rng.random() < 0.2 else None
    h.opt('reps', 1)
    at = next((x['at'] for x in b if x['op'] == 'crash'), 'idle')
    cut = next((j for j, x in enumerate(b) if x['op'] == 'crash'), len(b))
    ident = lambda x: (x['m'], x['t'], x['nb'])
    before = [ident(x) for x in b[:cut] if x['op'] == 'call']
    after = [ident(x) for x in b[cut:] if x['op'] == 'call']
    before = [('any', 0, 0)] * int(rng.integers(0, 2)) + before
    Q = questions(rng, cls, ds, metrics, sorted(set(before + after)))
    path, dry = os.path.join(rec.work, 'h%d' % rec.histories), os.path.join(rec.work, 'dry%d' % rec.histories)
    n0 = h.n

    def life(where, stop=None, limit=None, fail=False):
        def run(r):
            h.n = n0
            v = h.new(cls, ds[0], ax=ax, boot=boot, dir='d', path=where, scr=True, **kw)
            if fail: r.faulty = lambda ex: r.failed
            for j, q in enumerate(before):
                if r.failed: r.faulty = lambda ex: False
                if limit and j == len(before) - 1:
                    r.faulty = lambda ex: 'OSError' in ex['msg'] or 'File too large' in ex['msg'] or 'rror' in ex['msg']
                    limit_bytes(*limit)
                h.call(v, Q[q][0], **Q[q][1])
                if limit and j == len(before) - 1 and not limit[1]:
                    no_limit()
                    r.faulty = lambda ex: False
                    for q2 in before + after: h.call(v, Q[q2][0], **Q[q2][1])
            if fail:
                r.failed, r.faulty = True, lambda ex: False
                for q2 in before + after: h.call(v, Q[q2][0], **Q[q2][1])
            if stop == 'end': os.kill(os.getpid(), signal.SIGKILL)
        return run

    # file operations of each call, measured in another directory
    d = Child(rec, life(dry), dry, trace=True).finish()
    ns = [l['n'] for l in d.lines if 'begin' in l]
    end = next((l['end'] for l in d.lines if 'end' in l), 0)
    size = max([os.path.getsize(os.path.join(dry, f)) for f in os.listdir(dry)] + [64]) if os.path.isdir(dry) else 64
    shutil.rmtree(dry, ignore_errors=True)
    mode = 'end'
    if before and at in ('load', 'write', 'rename', 'answer'):
        lo = ns[-1] if ns else 0
        ops = list(range(lo + 1, end + 1))
        how = int(rng.integers(0, 5))
        if at == 'answer': mode = 'end'
        elif how == 0: mode = ('bytes', int(rng.integers(0, size)), True)
        elif how == 1: mode = ('bytes', int(rng.integers(0, size)), False)
        elif not ops: mode = 'end'
        elif how == 2: mode = ('fail', int(rng.integers(ops[0], ops[-1] + 1)))
        else: mode = ('op', ops[0] if at == 'load' else ops[-1] if at == 'rename' else int(rng.choice(ops)))
    if mode == 'end': c = Child(rec, life(path, stop='end'), path)
    elif mode[0] == 'op': c = Child(rec, life(path), path, kill_at=mode[1], trace=True)
    elif mode[0] == 'fail': c = Child(rec, life(path, fail=True), path, fail_at=mode[1], trace=True)
    else: c = Child(rec, life(path, limit=(mode[1], mode[2])), path)
    c.finish()
    for e in c.events(): rec.emit(**e)
    rec.notes[str(mode[0] if mode != 'end' else 'end')] = rec.notes.get(str(mode[0] if mode != 'end' else 'end'), 0) + 1
    if c.status == 3: rec.fact('true', x=False, why='run failed: ' + str(c.lines[-1])[:200])
    if c.begun: rec.emit(a='crash', r={'t': 'exc', 'e': 'killed', 'msg': ''}, **c.begun)
    h.n = n0 + 1
    # what follows: the same data, other data (a saved result is reused), or both
    who = [0] if mode[0] == 'fail' or mode[0] == 'bytes' and not mode[2] else [[0], [1], [0, 1], [1, 0]][int(rng.integers(0, 4))]
    for w in who:
        v = h.new(cls, ds[w], ax=ax, boot=boot, dir='d', path=path, scr=False, **kw)
        qs = sorted(set(before + after))
        for j in rng.permutation(len(qs)): h.call(v, Q[qs[j]][0], **Q[qs[j]][1])
        for q in after: h.call(v, Q[q][0], **Q[q][1])
    shutil.rmtree(path, ignore_errors=True)


def replay(rec, behs, i):
    for k, b in enumerate(behs): one(rec, rec.rng, k + i, b)


def jobs(tier, seed):
    rng = np.random.default_rng(seed)
    b = [x for x in behave.behaviours('Store', 'ST_behc') if any(y['op'] == 'crash' for y in x)]
    hard = [x for x in b if any(y.get('at') in ('load', 'write', 'rename', 'answer') for y in x)]
    b = behave.sample(hard, tiered(tier, 520, 4000), rng) + behave.sample(b, tiered(tier, 80, 400), rng)
    w = tiered(tier, 8, 32)
    return [('replay%d' % i, replay, (b[i::w], i)) for i in range(w)]


def models(tier):
    return [model('ST_crash', 'Store'), model('ST_mut_atomic', 'Store', expect='violation')]
