"""C15: numerical integration."""
from .integ import *
import behave

KINDS = ['mean', 'variance', 'crps']


def scaled(rng, d):
    """Data of any magnitude: the factor."""
    d.x = int(rng.choice([0, 0, -4, -9, -11, -20, -40, 30]))
    return 2.0 ** d.x


def directory(rec, rng):
    """Saving on, now and then."""
    if rng.random() < 0.5: return None
    p = os.path.join(rec.work, 's%d' % rec.histories)
    os.makedirs(p)
    return p


def replay(rec, behs, i):
    """Completion orders and memory modes of the model, every one of them."""
    rng = rec.rng
    os.chdir(rec.work)
    fell = False
    for b in behs:
        start = [x for x in b if x[0] == 'start'][0][2]
        order = [x[2] - 1 for x in b if x[0] == 'eval']
        n = len(order)
        cls, d, lo, hi = problem(rec, rng, n)
        h = rec.history()
        k = scaled(rng, d)
        v = build(cls, d, directory(rec, rng))
        for kind in ([str(rng.choice(KINDS))] if start['par'] else KINDS):
            fakeray.plan(order)
            I = lambda: getattr(Integration(v, (lo * k, hi * k), nbins=n, workers=int(rng.choice([2, 3])) if start['par'] else 1,
                                            less_memory=bool(start['mem']), memmap_dir=rec.work), kind)()
            r = res('cdf', lambda: I() / k ** (2 if kind == 'variance' else 1))
            if start['par'] and not supported(): rec.notes['stand-in'] = 'unsupported ' + str(fakeray.UNSUPPORTED[:3]); fell = True; continue
            integral_fact(rec, cls, d, kind, lo, hi, n, r)
    if fell and i == 0: real(rec, 1, 0)


def random_orders(rec, n, i):
    rng = rec.rng
    os.chdir(rec.work)
    for k in range(n):
        npts = int(rng.choice([2, 3, 4, 5, 6, 9]))
        cls, d, lo, hi = problem(rec, rng, npts)
        h = rec.history()
        k = scaled(rng, d)
        v = build(cls, d, directory(rec, rng))
        for _ in range(4):
            par, mem = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
            kind = str(rng.choice(KINDS))
            fakeray.plan([int(x) for x in rng.permutation(npts)])
            os.environ['pyanen_tqdm_workers'] = '2' if par else '1'
            os.environ['pyanen_integrate_with_less_memory'] = str(mem)
            os.environ['pyanen_integrate_wdir'] = rec.work
            r = res('cdf', lambda: getattr(Integration(v, (lo, hi) if k == 1 else (lo * k, hi * k), nbins=npts), kind)() / k ** (2 if kind == 'variance' else 1))
            if par and not supported(): continue
            integral_fact(rec, cls, d, kind, lo, hi, npts, r)


def hurdle(rec, n, i):
    """The hurdle verifier's own metrics, with range and bins set or left to the default."""
    rng = rec.rng
    os.chdir(rec.work)
    for k in range(n):
        npts = int(rng.choice([2, 3, 5, 9]))
        cls, d, lo, hi = problem(rec, rng, npts, 'hurdle', cap=6)
        h = rec.history()
        auto = k % 3 == 0
        if auto:
            # default range; a forecast that is certain to be positive, as the range reaches below zero
            from fractions import Fraction as Q
            mult = int(rng.choice([1, 2, 4]))
            while True:
                cls, d, lo, hi = problem(rec, rng, npts, 'hurdle', cap=6)
                d.pop[...] = 4; spec_of(rec, d)['pop']['v'] = [4] * d.pop.size
                o = [Q(int(x), d.u) for x in d.oi.ravel()]
                w = max(o) - min(o)
                if w == 0: continue
                xs = nodes(min(o) - mult * w, max(o) + mult * w, npts)
                st = xs[1] - xs[0]
                if (st.denominator & (st.denominator - 1)) == 0 and not any(x in {Q(int(y), d.u) for y in d.fi.ravel()} for x in xs): break
            h.opt('mult', mult)
        os.environ['pyanen_integrate_wdir'] = rec.work
        kw = {} if auto else dict(integration_range=(lo, hi))
        v = h.new('hurdle', d, ax=gen.axes(rng, d.oi.ndim), n_approx_bins=npts, **kw)
        for m in rng.permutation(['f_determ', 'variance', 'crps', 'error', 'sq_error', 'ab_error']):
            par, mem = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
            fakeray.plan([int(x) for x in rng.permutation(npts)])
            os.environ['pyanen_tqdm_workers'] = '2' if par else '1'
            os.environ['pyanen_integrate_with_less_memory'] = str(mem)
            if par and not supported(): continue
            h.call(v, str(m))
        if not auto and k % 2:
            n2 = int(rng.choice([3, 5]))
            os.environ['pyanen_tqdm_workers'] = '1'
            from fractions import Fraction as Q
            locs = {Q(int(x), d.u) for x in d.fi.ravel()}
            cand = [hh for hh in range(lo + 4, lo + 13, 4) if not any(x in locs for x in nodes(lo, hh, n2))]
            if cand:
                h.set(v, 'set_bins', n2)
                h.set(v, 'set_integration_range', lo, cand[0])
                for m in ('f_determ', 'crps', 'variance'): h.call(v, m)


def dense(rec, n, i):
    """Many grid points, any forecast: the trapezoid sums of the probabilities the verifier gives at the points."""
    rng = rec.rng
    os.chdir(rec.work)
    for k in range(n):
        rec.history()
        s = gen.shape(rng, cap=6, hi=3)
        cls = ['gauss', 'gamma', 'hurdle', 'ens'][(k + i) % 4]
        npts = int(rng.choice([33, 70, 129, 140, 200, 260]))
        lo = int(rng.integers(-1, 2)); hi = lo + int(rng.integers(2, 5))
        o = rng.uniform(lo, hi, s)
        if cls == 'ens': f = rng.uniform(lo, hi, s + (3,))
        elif cls == 'gauss': f = {'mu': rng.uniform(lo, hi, s), 'sigma': rng.uniform(0.3, 1, s)}
        elif cls == 'gamma': f = {'unshifted_mu': rng.uniform(1, 3, s), 'sigma': rng.uniform(0.3, 1, s), 'shift': rng.uniform(-1, 0.2, s)}; f['mu'] = f['unshifted_mu'] + f['shift']
        else: f = {'mu': rng.uniform(1, 3, s), 'sigma': rng.uniform(0.3, 1, s), 'pop': rng.uniform(0, 1, s)}
        auto = k % 3 == 0
        mult = 1
        if auto:
            o = rng.integers(-3, 0, s).astype(float) if k % 2 else rng.integers(-3, 4, s).astype(float)
            if o.max() == o.min(): o.flat[0] -= 1; auto = o.size > 1
        if auto:
            mult = int(rng.choice([1, 2, 15])) if npts < 100 else int(rng.choice([1, 2]))
            lo, hi = int(o.min() - mult * (o.max() - o.min())), int(o.max() + mult * (o.max() - o.min()))
        os.environ['pyanen_integrate_range_multiplier'] = str(mult)
        z = 2.0 ** gen.magnitude(rng)           # other units
        o = o * z
        f = f * z if cls == 'ens' else {p: x if p == 'pop' else x * z for p, x in f.items()}
        v = getattr(PyAnEn, CLS[cls])(f, o, **({'ensemble_axis': -1} if cls == 'ens' else {}))
        xs = np.linspace(lo, hi, npts) * z
        F = np.stack([np.asarray(v.cdf(below=float(x))).ravel() for x in xs])
        B = (F - (o.ravel()[None] < xs[:, None])) ** 2
        mean = None
        for kind in KINDS:
            par, mem = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
            fakeray.plan([int(x) for x in rng.permutation(npts)])
            r, ex = guarded(lambda: np.asarray(getattr(Integration(v, None if auto else (lo * z, hi * z), nbins=npts, workers=2 if par else 1, less_memory=mem, memmap_dir=rec.work), kind)()), 200)
            if par and not supported(): continue
            if ex: rec.fact('true', x=False, why='refused', ex=ex); continue
            r = r / (z * z if kind == 'variance' else z)
            q = 200000 if kind == 'crps' else 100000 if kind == 'mean' else 4000
            if auto: q //= 20
            if kind == 'mean': mean = r
            if kind == 'variance':
                if mean is None: continue
                r = r + mean ** 2
            y = np.round((B if kind == 'crps' else F) * q).astype(int)
            rec.fact('equal', x=list(map(int, r.shape)), y=list(s), why='shape of the integral')
            rec.fact('trapezoid', kind=kind, n=npts, lo=lo, hi=hi, y=[[int(z) for z in a] for a in y], r=[fix(z, q) for z in r.ravel()],
                     tol=8 + 2 * (abs(lo) + abs(hi)) ** (2 if kind == 'variance' else 1), why='not the trapezoid sum: ' + kind)
        os.environ['pyanen_integrate_range_multiplier'] = '1'


def real(rec, n, i):
    """The same values with the real ray (in a process of its own)."""
    import json, subprocess, sys
    rng = rec.rng
    for k in range(n):
        npts = int(rng.choice([4, 5]))
        cls, d, lo, hi = problem(rec, rng, npts, 'hurdle' if k % 2 else 'gauss')
        rec.history()
        f, o = d.arrays()
        np.savez(os.path.join(rec.work, 'in.npz'), o=o, **{'f_' + a: b for a, b in f.items()})
        for mem in (False, True):
            for kind in KINDS:
                p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(__file__)), 'realray.py'), rec.work, cls, kind, str(lo), str(hi), str(npts), str(int(mem))],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240)
                if p.returncode != 0:
                    r = {'t': 'exc', 'e': 'error', 'msg': p.stderr.decode()[-300:]}
                else: r = {'t': 'ok', 'r': [arr(np.load(os.path.join(rec.work, 'out.npy')))]}
                integral_fact(rec, cls, d, kind, lo, hi, npts, r)


def jobs(tier, seed):
    rng = np.random.default_rng(seed)
    b = [x for x in behave.behaviours('Integrate', tiered(tier, 'IN_beh1', 'IN_beh5')) if x[0][2]['fail'] == 0]
    b = behave.sample(b, tiered(tier, 200, 1200), rng)
    par = tiered(tier, 2, 8)
    q = tiered(tier, 1, 10)
    j = [('replay%d' % i, replay, (b[i::par], i)) for i in range(par)]
    j += split('orders', random_orders, 60 * q, 3) + split('hurdle', hurdle, 40 * q, 3) + split('dense', dense, 20 * q, 2)
    if tier == 'thorough': j += split('real', real, 2, 1)
    return j


def models(tier):
    return [model(tiered(tier, 'IN_one', 'IN_one5'), 'Integrate'), model('IN_mut_order', 'Integrate', expect='violation')]
