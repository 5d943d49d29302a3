"""C25: settings chosen by the user win and are read at call time."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import traceback
import numpy as np
import PyAnEn             # so that what it depends on is loaded before the children are forked
import behave
from rec import DEFAULT_ENV
from .common import *

NAME = {'skip': 'pyanen_skip_nan', 'method': 'pyanen_ens_to_prob_method', 'bw': 'pyanen_kde_bandwidth', 'ks': 'pyanen_kde_samples', 'reps': 'pyanen_boot_repeats',
        'conf': 'pyanen_boot_confidence', 'mult': 'pyanen_integrate_range_multiplier'}
VAL = {'skip': {'D': 'False', 'A': 'True', 'B': 'no'}, 'method': {'D': 'moments', 'A': 'kde', 'B': 'nonsense'}, 'bw': {'D': '0.01', 'A': '0.5', 'B': '2.0'},
       'ks': {'D': '1000', 'A': '50', 'B': '333'}, 'reps': {'D': '1000', 'A': '3', 'B': '7'}, 'conf': {'D': '0.95', 'A': '0.5', 'B': '0.8'}, 'mult': {'D': '5', 'A': '1', 'B': '2'}}
REL = {'skip': ['skip'], 'method': ['method', 'bw', 'ks', 'skip'], 'bw': ['method', 'bw', 'ks', 'skip'], 'ks': ['method', 'bw', 'ks', 'skip'], 'reps': ['reps', 'conf', 'skip'], 'conf': ['reps', 'conf', 'skip'], 'mult': ['mult']}
def rel(k, m):
    return REL[k] + (['method', 'bw', 'ks'] if m in ('b_rel', 'b_rel1', 'b_decomp') else [])


ASKS = {'skip': ['error', 'sq_error', 'spread', 'corr', 'rmse', 'gauss', 'ss'], 'method': ['cdf', 'brier', 'sharpness'], 'bw': ['cdf', 'brier'], 'ks': ['cdf', 'sharpness'],
        'reps': ['b_error', 'b_corr', 'b_rel', 'b_crps', 'b_ss', 'b_decomp', 'b_rel1'], 'conf': ['b_error', 'b_corr', 'b_rel', 'b_crps', 'b_ss', 'b_decomp', 'b_rel1'], 'mult': ['h_mean', 'h_var']}
OTHER = sorted(set(DEFAULT_ENV) - set(NAME.values()))
USER = {'pyanen_kde_kernel': 'tophat', 'pyanen_kde_multiply_spread': '5', 'pyanen_boot_samples': '17', 'pyanen_tqdm_disable': 'yes', 'pyanen_tqdm_leave': 'True', 'pyanen_tqdm_workers': '1',
        'pyanen_tqdm_map_axis': '-2', 'pyanen_tqdm_chunksize': '13', 'pyanen_use_tensorflow_math': 'false', 'pyanen_split_crps_ensemble_along_0': 'True', 'pyanen_integrate_with_less_memory': 'off', 'pyanen_integrate_wdir': '/nowhere/at/all'}
QUIET = ['pyanen_tqdm_leave', 'pyanen_boot_samples', 'pyanen_tqdm_map_axis', 'pyanen_tqdm_chunksize', 'pyanen_tqdm_disable']     # no influence on the answers asked for


def purge():
    for m in [m for m in sys.modules if m.split('.')[0] == 'PyAnEn']: del sys.modules[m]


def data():
    rng = np.random.default_rng(7)
    o = np.round(rng.uniform(0.5, 5, (4, 3)), 1)
    f = np.round(rng.uniform(0, 6, (4, 3, 5)), 1)
    fn, on = f.copy(), o.copy()
    fn[1, 2, 3] = np.nan
    on[0, 1] = np.nan
    return o, f, fn, on


def build():
    import PyAnEn
    o, f, fn, on = data()
    return {'plain': PyAnEn.VerifyEnsemble(fn, o), 'ens': PyAnEn.VerifyEnsemble(f, o), 'det': PyAnEn.VerifyDeterm(f[..., 0], on), 'boot': PyAnEn.VerifyEnsemble(f, o, avg_axis=0, boot_samples=4),
            'all': PyAnEn.VerifyEnsemble(f, o, avg_axis=(0, 1), boot_samples=40),
            'cols': PyAnEn.VerifyEnsemble(f, np.where(np.arange(4)[:, None] % 2, 0.5, 4.5) + 0 * o, avg_axis=0, boot_samples=7),
            'gauss': PyAnEn.VerifyProbGaussian({'mu': f[..., 0], 'sigma': f[..., 1] + 0.5}, on),
            'hurdle': PyAnEn.VerifyProbGammaHurdle({'pop': f[..., 0] / 6, 'mu': f[..., 1] + 1, 'sigma': f[..., 2] / 3 + 0.3}, o, n_approx_bins=40)}


def answer(vs, m):
    np.random.seed(11)
    if m == 'error': return vs['det'].error()
    if m == 'sq_error': return vs['det'].sq_error()
    if m == 'rmse': return vs['det'].rmse()
    if m == 'ss': return vs['plain'].binned_spread_skill(nbins=2)
    if m == 'gauss': return vs['gauss'].ab_error()
    if m == 'spread': return vs['plain'].spread()
    if m == 'corr': return vs['det'].corr()
    if m == 'cdf': return vs['ens'].cdf(below=2.5)
    if m == 'sharpness': return vs['ens'].sharpness(over=3.1)
    if m == 'brier': return vs['ens'].brier(below=2.5)
    if m == 'b_error': return vs['boot'].error()
    if m == 'b_crps': return vs['boot'].crps()
    if m == 'b_corr': return vs['all'].corr()
    if m == 'b_rel': return vs['all'].reliability(nbins=2, below=2.5)
    if m == 'b_rel1': return vs['cols'].reliability(nbins=1, below=2.5)
    if m == 'b_decomp': return vs['all'].brier_decomp(below=2.5)
    if m == 'b_ss': return vs['all'].binned_spread_skill(nbins=2)
    if m == 'h_mean': return vs['hurdle'].f_determ()
    if m == 'h_var': return vs['hurdle'].variance()
    raise KeyError(m)


def stands(k, turn):
    """The metric that a call with the argument instead of the option stands for."""
    t = {'reps': ('b_error', 'b_corr', 'b_ss', 'b_rel', 'b_decomp'), 'mult': ('h_mean',), 'skip': ('corr', 'ss'), 'bw': ('cdf',), 'ks': ('cdf',)}
    t['conf'] = t['reps']
    return t[k][turn % len(t[k])]


def answer_with(vs, k, v, turn):
    """An explicit argument instead of the option: the answer to what it stands for."""
    import PyAnEn
    o, f, fn, on = data()
    np.random.seed(11)
    m = stands(k, turn)
    if k in ('reps', 'conf'):
        from PyAnEn.utils_verify import boot_arr, reliability_diagram
        from PyAnEn.utils_special_boot import corr, brier_decomp
        from PyAnEn.utils_ss import binned_spread_skill
        x = int(VAL[k][v]) if k == 'reps' else float(VAL[k][v])
        kw = {'repeats' if k == 'reps' else 'confidence': x}
        if m == 'b_error': return boot_arr(f.mean(axis=-1) - o, sample_axis=(0,), n_samples=4, **kw)
        if m == 'b_corr': return corr(f.mean(axis=-1), o, (0, 1), 40, **kw)
        if m == 'b_ss': return binned_spread_skill(f.var(axis=-1), (f.mean(axis=-1) - o) ** 2, 2, (0, 1), 40, **kw)
        if m == 'b_rel': return reliability_diagram(vs['ens'].cdf(below=2.5), o < 2.5, 2, (0, 1), 40, **kw)
        return brier_decomp(vs['ens'].cdf(below=2.5), o < 2.5, (0, 1), 40, **kw)
    if k == 'mult':
        x = int(VAL[k][v]); lo, hi = o.min(), o.max()
        h = PyAnEn.VerifyProbGammaHurdle(vs['hurdle'].f, o, n_approx_bins=40, integration_range=(lo - x * (hi - lo), hi + x * (hi - lo)))
        return h.f_determ()
    if k == 'skip':
        if m == 'ss':
            from PyAnEn.utils_ss import binned_spread_skill
            return binned_spread_skill(fn.var(axis=-1), (fn.mean(axis=-1) - o) ** 2, 2, (0, 1), skip_nan=VAL[k][v] == 'True')
        from PyAnEn.utils_special_boot import corr
        return corr(f[..., 0], on, skip_nan=VAL[k][v] == 'True')
    if k in ('bw', 'ks'):
        from PyAnEn.utils_verify import ens_to_prob_kde
        kw = {'bandwidth': float(VAL[k][v])} if k == 'bw' else {'samples': int(VAL[k][v])}
        return np.array([[ens_to_prob_kde(np.concatenate([[2.5], f[i, j]]), **kw) for j in range(3)] for i in range(4)])


def show(fn):
    r, ex = guarded(fn)
    if ex: return 'refused' if ex['e'] != 'timeout' else 'timeout'
    def go(x):
        if isinstance(x, (tuple, list)): return [go(y) for y in x]
        if hasattr(x, 'to_numpy'): x = x.to_numpy()
        a = np.asarray(x, float)
        return [list(a.shape), ['%.9e' % (y + 0.0) for y in a.ravel()]]
    return json.dumps(go(r))


def forked(rec, fn):
    """fn in a child that has never imported the package; what it returns (JSON)."""
    p = os.path.join(rec.work, 'out')
    pid = os.fork()
    if not pid:
        try:
            purge()
            for k in list(os.environ):
                if k.startswith('pyanen_'): del os.environ[k]
            try: r = fn()
            except Exception: r = {'broke': traceback.format_exc()[-800:]}
            with open(p, 'w') as f: json.dump(r, f)
        finally: os._exit(0)
    os.waitpid(pid, 0)
    with open(p) as f: r = json.load(f)
    os.remove(p)
    return r


def same(k, a, b):
    """Two strings that set an option to the same value."""
    if a == b or a is None or b is None: return a == b
    t = {'true': 1, 'yes': 1, 'on': 1, '1': 1, 't': 1, 'y': 1, 'false': 0, 'no': 0, 'off': 0, '0': 0, 'f': 0, 'n': 0}
    if DEFAULT_ENV[k] in ('True', 'False'): return t.get(a.lower(), a) == t.get(b.lower(), b)
    try: return float(a) == float(b)
    except ValueError: return False


def play(b, extra, flips):
    """A behaviour of the model in the real code: environments after imports, answers."""
    out = []
    for k, v in b[0]['env'].items():
        if v != 'no': os.environ[NAME[k]] = VAL[k][v]
    for k, v in extra.items(): os.environ[k] = v
    vs, mod = None, None
    for n, x in enumerate(b[1:]):
        if x['op'] == 'put': os.environ[NAME[x['k']]] = VAL[x['k']][x['v']]
        elif x['op'] == 'import':
            before = dict(os.environ)
            if mod is not None and flips[n] < 0.5: mod = importlib.reload(mod)
            else:
                purge()
                import PyAnEn as mod
            vs = None
            out.append({'env': {k: os.environ.get(k) for k in DEFAULT_ENV}, 'before': {k: before.get(k) for k in DEFAULT_ENV}})
        elif x['op'] == 'build': vs = build()
        elif x['op'] == 'ask':
            ms = ASKS[x['k']]
            if flips[n] < 0.4: ms = [ms[int(flips[n] * 1000) % len(ms)]]
            for m in ms: out.append({'m': m, 'k': x['k'], 'got': show(lambda: answer(vs, m)), 'env': {k: os.environ.get(NAME[k]) for k in NAME}})
        elif x['op'] == 'askwith':
            if x['k'] == 'method': continue
            turn = int(flips[n] * 1000)
            got = show(lambda: answer_with(vs, x['k'], x['v'], turn))
            out.append({'m': stands(x['k'], turn), 'k': x['k'], 'with': x['v'], 'got': got, 'env': {k: os.environ.get(NAME[k]) for k in NAME}})
    return out


class Refs:
    """Answers of a process in which the options had these values from the start."""
    def __init__(self, rec): self.rec, self.t = rec, {}

    def __call__(self, m, vals):
        key = m + json.dumps(vals, sort_keys=True)
        if key not in self.t:
            def go():
                for k, v in vals.items(): os.environ[NAME[k]] = v
                return show(lambda: answer(build(), m))
            self.t[key] = forked(self.rec, go)
        return self.t[key]


def histories(rec, behs, i):
    rng = rec.rng
    ref = Refs(rec)
    for k in ('skip', 'method', 'bw', 'ks', 'reps', 'conf', 'mult'):          # every option matters
        for m in ASKS[k]:
            base = {j: VAL[j]['A' if j in ('method', 'skip') and k in ('bw', 'ks') else 'D'] for j in rel(k, m)}
            w = {x: ref(m, dict(base, **{k: VAL[k][x]})) for x in ('D', 'A', 'B')}
            rec.fact('true', x=w['D'] != w['A'] and (k == 'skip' or w['B'] not in (w['A'], w['D'])), why='option %s has no influence on %s' % (k, m))
    for b in behs:
        rec.history()
        extra = {k: USER[k] for k in QUIET if rng.random() < 0.4}
        flips = [float(x) for x in rng.random(len(b))]
        r = forked(rec, lambda: play(b, extra, flips))
        if isinstance(r, dict): rec.fact('true', x=False, why='history broke off', trace=r['broke']); continue
        for x in r:
            if 'm' not in x:
                for k in DEFAULT_ENV:
                    rec.fact('true', x=same(k, x['env'][k], DEFAULT_ENV[k] if x['before'][k] is None else x['before'][k]) if x['before'][k] is None else x['env'][k] == x['before'][k],
                             why='user setting changed by the import: ' + k if x['before'][k] is not None else 'default: ' + k, now=str(x['env'][k]), was=str(x['before'][k]))
                continue
            vals = {k: x['env'][k] for k in rel(x['k'], x['m'])}
            if 'with' in x:
                vals[x['k']] = VAL[x['k']][x['with']]
                if x['k'] in ('bw', 'ks'): vals['method'] = 'kde'
            rec.fact('equal', x=x['got'], y=ref(x['m'], vals), why=('argument' if 'with' in x else 'option') + ' not honoured: ' + x['k'], m=x['m'], vals=vals)


def imports(rec, n, i):
    """The same in processes of their own."""
    rng = rec.rng
    for _ in range(n):
        rec.history()
        env = {k: v for k, v in os.environ.items() if not k.startswith('pyanen_')}
        pre = {k: v for k, v in list(USER.items()) + [(NAME[k], VAL[k]['A']) for k in NAME] if rng.random() < 0.5}
        if rng.random() < 0.5: pre[str(rng.choice(OTHER))] = ''
        r = subprocess.run([sys.executable, '-c', 'import PyAnEn, os, json; print("@" + json.dumps({k: v for k, v in os.environ.items() if k.startswith("pyanen_")}))'],
                           env=dict(env, **pre), capture_output=True, text=True, timeout=120)
        if r.returncode: rec.fact('true', x=False, why='import failed', err=r.stderr[-500:]); continue
        now = json.loads([l for l in r.stdout.splitlines() if l.startswith('@')][0][1:])
        for k in DEFAULT_ENV:
            rec.fact('true', x=now.get(k) == pre[k] if k in pre else same(k, now.get(k), DEFAULT_ENV[k]), why=('user setting changed by the import: ' if k in pre else 'default: ') + k, now=str(now.get(k)), was=str(pre.get(k)))


def places(rec, n, i):
    """Where an integration that saves memory keeps its numbers."""
    import PyAnEn
    from PyAnEn.utils_approximation import Integration
    rng = rec.rng
    os.chdir(rec.work)
    dirs = {x: os.path.join(rec.work, 'place_' + x) for x in ('arg', 'opt', 'own', 'cwd', 'home')}
    for d in dirs.values(): os.makedirs(d, exist_ok=True)
    home = os.environ.get('HOME')
    for j in range(n):
        rec.history()
        arg, opt, own = bool(rng.integers(0, 2)), bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
        tilde = opt and bool(rng.integers(0, 2))
        os.chdir(dirs['cwd'])
        os.environ['HOME'] = dirs['home']
        os.makedirs(os.path.join(dirs['home'], 'there'), exist_ok=True)
        if tilde: dirs['opt'] = os.path.join(dirs['home'], 'there')
        else: dirs['opt'] = os.path.join(rec.work, 'place_opt')
        os.environ['pyanen_integrate_wdir'] = '' if not opt else '~/there' if tilde else dirs['opt']
        o = np.array([0.5, 2.0])
        v = PyAnEn.VerifyProbGaussian({'mu': o + 0.2, 'sigma': o}, o, **(dict(working_directory=dirs['own'], start_from_scratch=False) if own else {}))
        seen, cdf = [], v._cdf

        def spy(*a, **k):
            seen.append(sorted(x for x in dirs for y in os.listdir(dirs[x]) if y.endswith('.dat')))
            return cdf(*a, **k)
        v._cdf = spy
        kw = {'memmap_dir': dirs['arg']} if arg else {}
        r, ex = guarded(lambda: Integration(v, (0, 4), nbins=4, less_memory=True, **kw).mean())
        os.environ['pyanen_integrate_wdir'] = ''
        os.chdir(rec.work)
        rec.fact('place', arg=arg, opt=opt, own=own, at=seen[0] if seen and not ex else [str(ex)[:100]])
        shutil.rmtree(dirs['own']); os.makedirs(dirs['own'])
    if home is not None: os.environ['HOME'] = home


def jobs(tier, seed):
    sim = behave.behaviours('Options', 'OP_sim', extra=('-simulate', 'num=%d' % tiered(tier, 500, 6000), '-depth', '30', '-seed', str(seed)), workers=1)
    one = behave.behaviours('Options', 'OP_one', extra=('-simulate', 'num=%d' % tiered(tier, 400, 4000), '-depth', '30', '-seed', str(seed)), workers=1)
    for n, b in enumerate(one):                      # one option at a time, so that it is asked for, changed and asked for again
        k = list(NAME)[n % len(NAME)]
        b[0]['env'] = {k: b[0]['env']['o']}
        for x in b[1:]:
            if 'k' in x: x['k'] = k
    sim += one
    w = tiered(tier, 7, 16)
    return [('histories%d' % i, histories, (sim[i::w], i)) for i in range(w)] + split('imports', imports, tiered(tier, 6, 40), 1) + split('places', places, tiered(tier, 16, 60), 1)


def models(tier):
    return [model(tiered(tier, 'OP_all', 'OP_deep'), 'Options')] + [model('OP_mut_' + x, 'Options', expect='violation') for x in ('keep', 'fill', 'import', 'build')]
