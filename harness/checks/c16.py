"""C16: integration leaves settings, files and workers as it found them."""
from .integ import *
import behave

KINDS = ['mean', 'variance', 'crps']
ERRS = [ValueError, RuntimeError, ZeroDivisionError, MemoryError, KeyError, OSError]


def one_run(rec, rng, v, cls, d, lo, hi, n, m, order, where):
    """One integration of the model: m mode, order of evaluations (from 0)."""
    kind = str(rng.choice(KINDS))
    par, mem, fail = bool(m['par']), bool(m['mem']), m['fail']
    user_workers = os.environ['pyanen_tqdm_workers']
    kw = dict(less_memory=mem)
    by_env = rng.random() < 0.3
    if by_env:
        os.environ['pyanen_tqdm_workers'] = '2' if par else '1'
        os.environ['pyanen_integrate_with_less_memory'] = str(mem)
        kw = {}
    else: kw['workers'] = int(rng.choice([2, 3])) if par else 1
    os.environ['pyanen_integrate_wdir'] = ''
    if where == 'arg': kw['memmap_dir'] = rec.scratch
    elif where == 'env': os.environ['pyanen_integrate_wdir'] = rec.scratch
    os.environ['pyanen_tqdm_disable'] = str(rng.choice(['True', 'False', '1', '0', 'yes']))
    os.environ['pyanen_tqdm_leave'] = 'False'
    fn = lambda: getattr(Integration(v, (lo, hi), nbins=n, **kw), kind)()
    FDict.fail_at = None
    if not par and fail:
        # which access of the forecast belongs to the failing point: measured on a run that succeeds
        FDict.count = 0
        res('cdf', fn)
        per = FDict.count / n
        a, b = int((fail - 1) * per) + 1, max(int(fail * per), int((fail - 1) * per) + 1)
        FDict.count, FDict.fail_at, FDict.exc = 0, int(rng.integers(a, b + 1)), ERRS[int(rng.integers(0, len(ERRS)))]
    fakeray.plan(order, fail - 1 if par and fail else None, straggle=bool(rng.integers(0, 2)))
    env0, files0 = parsed_env(), listing(rec.where) + listing('.')
    r = res('cdf', fn)
    FDict.fail_at = None
    if par and not supported():
        os.environ['pyanen_tqdm_workers'] = user_workers
        return False
    rec.fact('clean', env0=env0, env1=parsed_env(), files0=files0, files1=listing(rec.where) + listing('.'), pool=bool(fakeray.S.up))
    if fail: rec.fact('exc', r=r, why='a failed evaluation gives a value')
    elif n < 20: integral_fact(rec, cls, d, kind, lo, hi, n, r)
    else: rec.fact('ok', r=r, why='refused')
    if rng.random() < 0.5: os.environ['pyanen_tqdm_workers'] = user_workers
    return True


def replay(rec, behs, i):
    rng = rec.rng
    os.chdir(rec.work)
    rec.scratch = os.path.join(rec.work, 'scratch')
    os.makedirs(rec.scratch)
    for b in behs:
        runs = []
        for x in b:
            if x[0] == 'start': runs.append((x[2], []))
            elif x[0] == 'eval': runs[-1][1].append(x[2] - 1)
        n = 4 if len(runs) == 1 else 2
        n = max([n] + [max(o) + 1 for _, o in runs if o])
        if rng.random() < 0.12 and all(m['fail'] == 0 for m, _ in runs): n, runs = 65, [(m, [int(x) for x in rng.permutation(65)]) for m, _ in runs]
        cls, d, lo, hi = problem(rec, rng, n, str(rng.choice(['gauss', 'gamma', 'hurdle'])))
        rec.history()
        os.environ['pyanen_tqdm_workers'] = '1'
        where = str(rng.choice(['arg', 'env', 'cwd', 'verifier'])) if all(m['fail'] == 0 for m, _ in runs) else str(rng.choice(['arg', 'env', 'cwd']))
        if where == 'verifier':
            # the working directory also keeps saved probabilities: let them be saved before listings are compared
            own = os.path.join(rec.scratch, 'own%d' % rec.histories)
            v = build(cls, d, own, faulty=True)
            for kind in KINDS: getattr(Integration(v, (lo, hi), nbins=n, workers=1, less_memory=False), kind)()
            rec.where = own
        else:
            v = build(cls, d, faulty=True)
            rec.where = rec.scratch
        for m, order in runs:
            if not one_run(rec, rng, v, cls, d, lo, hi, n, m, order, where): rec.notes['stand-in'] = 'unsupported'
        # the next integration works
        os.environ['pyanen_tqdm_workers'] = '1'
        one_run(rec, rng, v, cls, d, lo, hi, n, dict(par=bool(rng.integers(0, 2)), mem=bool(rng.integers(0, 2)), fail=0),
                [int(x) for x in rng.permutation(n)], where)


def reuse(rec, n, i):
    """One integration object used again and again while the user changes settings and evaluations fail."""
    rng = rec.rng
    os.chdir(rec.work)
    rec.scratch = rec.where = os.path.join(rec.work, 'scratch')
    os.makedirs(rec.scratch)
    for k in range(n):
        npts = int(rng.choice([2, 3, 4]))
        cls, d, lo, hi = problem(rec, rng, npts, str(rng.choice(['gauss', 'gamma', 'hurdle'])))
        rec.history()
        v = build(cls, d, faulty=True)
        par, mem = k % 3 == 2, bool(rng.integers(0, 2))
        I = Integration(v, (lo, hi), nbins=npts, workers=2 if par else 1, less_memory=mem, memmap_dir=rec.scratch)
        for _ in range(int(rng.integers(2, 6))):
            kind = str(rng.choice(KINDS))
            os.environ['pyanen_tqdm_workers'] = str(rng.choice([1, 2, 3, 5, 24, 64])) if par else '1'
            os.environ['pyanen_tqdm_disable'] = str(rng.choice(['True', 'False', '1', '0', 'yes']))
            os.environ['pyanen_tqdm_chunksize'] = str(rng.choice([1, 2]))
            os.environ['pyanen_skip_nan'] = str(rng.choice(['True', 'False']))
            fail = rng.random() < 0.3
            fakeray.plan([int(x) for x in rng.permutation(npts)], int(rng.integers(0, npts)) if fail and par else None)
            FDict.count, FDict.fail_at, FDict.exc = 0, 1 + int(rng.integers(0, npts)) if fail and not par else None, ERRS[int(rng.integers(0, len(ERRS)))]
            env0, files0 = parsed_env(), listing(rec.where) + listing('.')
            r = res('cdf', lambda: getattr(I, kind)())
            FDict.fail_at = None
            if par and not supported(): continue
            rec.fact('clean', env0=env0, env1=parsed_env(), files0=files0, files1=listing(rec.where) + listing('.'), pool=bool(fakeray.S.up))
            if fail: rec.fact('exc', r=r, why='a failed evaluation gives a value')
            else: integral_fact(rec, cls, d, kind, lo, hi, npts, r)


def jobs(tier, seed):
    rng = np.random.default_rng(seed)
    b1 = behave.behaviours('Integrate', tiered(tier, 'IN_beh1', 'IN_beh5'))
    b2 = behave.behaviours('Integrate', 'IN_beh2')
    b = behave.sample(b1, tiered(tier, 190, 1500), rng) + behave.sample(b2, tiered(tier, 160, 400), rng)
    w = 8 if tier == 'quick' else 24
    return [('replay%d' % i, replay, (b[i::w], i)) for i in range(w)] + split('reuse', reuse, tiered(tier, 60, 400), 2)


def models(tier):
    return [model(tiered(tier, 'IN_one', 'IN_one5'), 'Integrate'), model('IN_mut_clean', 'Integrate', expect='violation')]
