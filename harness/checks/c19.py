"""C19: runs sharing a directory do not corrupt each other."""
from .integ import *
import shutil
import behave
from child import Child
from .c17 import world
from .c18 import questions

KINDS = ['mean', 'variance', 'crps']


def interleave(rng, children, seq, stride):
    """Steps the two processes in the order of the model (a step of the model is up to `stride` points), then to their ends."""
    for c in children.values(): c.step()            # to the first point
    for p in seq:
        for _ in range(int(rng.integers(1, stride + 1))):
            if not children[p].step(): break
    left = [p for p in children if not children[p].done]
    how = int(rng.integers(0, 3))
    while left:
        p = left[int(rng.integers(0, len(left)))] if how == 0 else left[0] if how == 1 else left[-1]
        for _ in range(int(rng.integers(1, 3 * stride))):
            if not children[p].step(): break
        left = [p for p in children if not children[p].done]


def check_end(rec, c):
    if c.status != 0: rec.fact('true', x=False, why='run failed', trace=str(c.lines[-1:])[:400])


def saved(rec, behs, i):
    rng = rec.rng
    for k, b in enumerate(behs):
        h = rec.history()
        cls, ds, kw, metrics = world(rec, rng, k + i)
        ax = gen.axes(rng, ds[0].oi.ndim)
        path = os.path.join(rec.work, 'h%d' % rec.histories)
        if (k + i) % 2: os.makedirs(path)       # or both of them find it missing and make it
        names = [('any', 0, 0), ('crps', 1, 0), ('crps', 0, 0)][:int(rng.integers(1, 4))]
        Q = questions(rng, cls, ds, metrics, names)
        per = {}
        for p in (1, 2):
            n = max(1, sum(1 for x in b if x['op'] == 'call' and x['p'] == p))
            per[p] = [names[int(rng.integers(0, len(names)))] for _ in range(n)]
        if rng.random() < 0.6: per[2] = list(per[1])
        twin = rng.random() < 0.4

        def life(p):
            def run(r):
                if twin: os.getpid = lambda: 4242       # two machines may give the same process number
                h.n = p - 1
                v = h.new(cls, ds[0], ax=ax, dir='d', path=path, scr=False, **kw)
                for q in per[p]: h.call(v, Q[q][0], **Q[q][1])
            return run
        children = {p: Child(rec, life(p), path, gate=True, trace=bool(k % 4)) for p in (1, 2)}
        interleave(rng, children, [x['p'] for x in b if x['op'] in ('call', 'step')], 12 if k % 4 else 1)
        for c in children.values():
            for e in c.events(): rec.emit(**e)
            check_end(rec, c)
        # and what they leave is whole
        h.n = 2
        v = h.new(cls, ds[0], ax=ax, dir='d', path=path, scr=False, **kw)
        for q in names: h.call(v, Q[q][0], **Q[q][1])
        shutil.rmtree(path, ignore_errors=True)


def scratch(rec, behs, i):
    rng = rec.rng
    for k, b in enumerate(behs):
        rec.history()
        path = os.path.join(rec.work, 's%d' % rec.histories)
        os.makedirs(path)
        modes = {x[1]: x[2] for x in b if x[0] == 'start'}
        n = int(rng.choice([2, 3, 4, 5]))
        P = {p: problem(rec, rng, n, str(rng.choice(['gauss', 'gamma', 'hurdle']))) for p in (1, 2)}
        if k % 3 == 0: P[2] = P[1]
        kinds = {p: str(rng.choice(KINDS)) for p in (1, 2)}
        same = P[1] is P[2] and rng.random() < 0.4      # a working directory with saved probabilities as well

        def life(p):
            def run(r):
                cls, d, lo, hi = P[p]
                v = build(cls, d, path if same else None, faulty=True)
                m = modes.get(p, dict(par=False, mem=True, fail=0))
                fail = m['fail'] if not m['par'] and not same else 0
                kw = dict(memmap_dir=path) if not same or rng.random() < 0.5 else {}
                if m['par']: fakeray.plan([int(x) for x in np.random.default_rng(p).permutation(n)], None, straggle=False)
                if fail: FDict.count, FDict.fail_at, FDict.exc = 0, 2 * fail, ValueError
                one = res('cdf', lambda: getattr(Integration(v, (lo, hi), nbins=n, workers=2 if m['par'] else 1, less_memory=True, **kw), kinds[p])())
                FDict.fail_at = None
                if m['par'] and not supported(): return
                if fail: r.fact('exc', r=one, why='a failed evaluation gives a value')
                else: integral_fact(r, cls, d, kinds[p], lo, hi, n, one)
                if fail:    # and again
                    integral_fact(r, cls, d, kinds[p], lo, hi, n, res('cdf', lambda: getattr(Integration(v, (lo, hi), nbins=n, workers=1, less_memory=True, **kw), kinds[p])()))
            return run
        children = {p: Child(rec, life(p), path, gate=True, trace=k % 2 == 0) for p in (1, 2)}
        interleave(rng, children, [x[1] for x in b], 1 if k % 2 else 8)
        for c in children.values():
            for e in c.events(): rec.emit(**e)
            check_end(rec, c)
        shutil.rmtree(path, ignore_errors=True)


def jobs(tier, seed):
    rng = np.random.default_rng(seed)
    s = [x for x in behave.behaviours('Store', 'ST_behp') if {y['p'] for y in x if y['op'] == 'call'} == {1, 2}]
    g = [x for x in behave.behaviours('Integrate', 'IN_behp')
         if len({y[1] for y in x if y[0] == 'start'}) == 2 and all(y[2]['mem'] for y in x if y[0] == 'start')]
    s, g = behave.sample(s, tiered(tier, 200, 3000), rng), behave.sample(g, tiered(tier, 240, 3500), rng)
    w = tiered(tier, 8, 32)
    return [('saved%d' % i, saved, (s[i::w], i)) for i in range(w)] + [('scratch%d' % i, scratch, (g[i::w], i)) for i in range(w)]


def models(tier):
    return [model('ST_two', 'Store'), model(tiered(tier, 'IN_two', 'IN_two3'), 'Integrate'),
            model('ST_mut_atomic2', 'Store', expect='violation'), model('ST_mut_dir', 'Store', expect='violation'), model('IN_mut_name', 'Integrate', expect='violation')]
