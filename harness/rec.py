"""Recording of calls of the real code as events of the specification (spec/PyAnEnTrace.tla)."""
import json
import os
import signal
import warnings
from fractions import Fraction

import numpy as np

MISS = 99999
NAN, PINF, NINF, JUNK = [0, 0], [1, 0], [-1, 0], [7, 0]
LIM = 2 ** 31 - 1


def rat(x, D=20000, tol=1e-11):
    """The rational with small denominator that the float x stands for, or JUNK."""
    x = float(x)
    if x != x: return NAN
    if x in (float('inf'), float('-inf')): return PINF if x > 0 else NINF
    if x == int(x) and abs(x) < LIM: return [int(x), 1]
    if abs(x) >= LIM: return JUNK
    q = Fraction(x).limit_denominator(D)
    if abs(float(q) - x) > tol * max(1.0, abs(x)) or abs(q.numerator) >= LIM: return JUNK
    return [q.numerator, q.denominator]


def fix(x, scale):
    """Fixed-point integer; NaN -> MISS; out of range -> clipped to +-2e9."""
    x = float(x)
    if x != x: return MISS
    y = x * scale
    if y > 2e9: return 2000000000
    if y < -2e9: return -2000000000
    return int(round(y))


def arr(a, f=rat):
    a = np.asarray(a)
    return {'s': [int(i) for i in a.shape], 'v': [f(x) for x in a.ravel().tolist()]}


def sq(x):
    x = float(x)
    return rat(x * x) if not x < 0 else JUNK


def sq_fine(x):
    x = float(x)
    return rat(x * x, 1000000, 1e-13)


def fine(x):
    return rat(x, 2000000, 1e-13)


def sign(x):
    x = float(x)
    return 0 if x != x or abs(x) < 1e-12 else (1 if x > 0 else -1)


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout('timeout')


def guarded(fn, seconds=60):
    """(result, None) or (None, exception record)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                return fn(), None
    except NotImplementedError as ex:
        return None, {'t': 'exc', 'e': 'notimpl', 'msg': repr(ex)[:200]}
    except Timeout as ex:
        return None, {'t': 'exc', 'e': 'timeout', 'msg': 'timeout'}
    except Exception as ex:
        return None, {'t': 'exc', 'e': 'error', 'msg': repr(ex)[:200]}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


OPTION = {'skip': 'pyanen_skip_nan', 'conf': 'pyanen_boot_confidence', 'reps': 'pyanen_boot_repeats',
          'mult': 'pyanen_integrate_range_multiplier'}
DEFAULT_ENV = {
    'pyanen_ens_to_prob_method': 'moments', 'pyanen_kde_bandwidth': '0.01', 'pyanen_kde_kernel': 'gaussian',
    'pyanen_kde_samples': '1000', 'pyanen_kde_multiply_spread': '5', 'pyanen_boot_confidence': '0.95',
    'pyanen_boot_repeats': '1000', 'pyanen_boot_samples': '300', 'pyanen_tqdm_disable': 'True',
    'pyanen_tqdm_leave': 'False', 'pyanen_tqdm_workers': '1', 'pyanen_tqdm_map_axis': '-1',
    'pyanen_tqdm_chunksize': '1', 'pyanen_use_tensorflow_math': 'False', 'pyanen_skip_nan': 'False',
    'pyanen_split_crps_ensemble_along_0': 'False', 'pyanen_integrate_range_multiplier': '5',
    'pyanen_integrate_with_less_memory': 'False', 'pyanen_integrate_wdir': ''}

CLS = {'determ': 'VerifyDeterm', 'ens': 'VerifyEnsemble', 'gauss': 'VerifyProbGaussian',
       'gamma': 'VerifyProbGamma', 'hurdle': 'VerifyProbGammaHurdle'}
COLLAPSE = {'mean': np.mean, 'median': np.median, 'max': np.max, 'min': np.min, 'sum': np.sum}
NOTHR = {'k': 'n', 'v': 0}
BASECFG = {'cls': '', 'd': 0, 'eax': -1, 'col': 'mean', 'axn': True, 'ax': [], 'boot': 0, 'trunc': False,
           'dir': '', 'scr': True, 'ir': [], 'ib': 20}


class Recorder:
    """Collects events and datasets of one shard."""

    def __init__(self, seed=0):
        self.events, self.data, self.histories = [], [], 0
        self.ctx = []               # per event: (history number)
        self.rng = np.random.default_rng(seed)
        self.known, self.notes = [], {}

    def emit(self, **e):
        self.events.append(e)
        self.ctx.append(self.histories)
        return e

    def begin(self, e): pass            # a call starts (see child.py)

    def faulty(self, ex): return False  # whether an exception is the injected fault

    def fact(self, f, **kw):
        if f == 'equal' and not (type(kw['x']) is type(kw['y']) and isinstance(kw['x'], (str, int))):
            kw['x'], kw['y'] = json.dumps(kw['x'], sort_keys=True), json.dumps(kw['y'], sort_keys=True)    # comparable whatever was returned
        return self.emit(a='fact', f=f, **kw)

    def add_data(self, spec):
        self.data.append(spec)
        return len(self.data)

    def history(self, dtype=None):
        self.histories += 1
        os.environ.update(DEFAULT_ENV)
        np.random.seed(int(self.rng.integers(2 ** 31)))
        self.emit(a='reset')
        return Hist(self)

    def write(self, d):
        t, x = os.path.join(d, 'trace.ndjson'), os.path.join(d, 'data.ndjson')
        with open(t, 'w') as f:
            for e in self.events: f.write(json.dumps(e) + '\n')
        with open(x, 'w') as f:
            for e in (self.data or [{'k': 'none'}]): f.write(json.dumps(e) + '\n')
        return t, x


def ints(a):
    return {'s': [int(i) for i in np.shape(a)], 'v': [MISS if x != x else int(x) for x in np.asarray(a, float).ravel()]}


class Dataset:
    """Integer-valued data (in units of 1/u) and the numpy arrays handed to the code."""

    def __init__(self, rec, kind, f, o, u=1, sd=None, pop=None, dtype=float, cls=None, layout='C', x=0, off=0, rep=None, fdt=None):
        self.kind, self.u, self.dtype, self.cls = kind, u, dtype, cls
        self.fi, self.oi = np.asarray(f, float), np.asarray(o, float)
        spec = {'k': kind, 'u': u, 'f': ints(f), 'o': ints(o)}
        if sd is not None: spec['sd'] = ints(sd)
        if pop is not None: spec['pop'] = ints(pop)
        self.sd = None if sd is None else np.asarray(sd, float)
        self.pop = None if pop is None else np.asarray(pop, float)
        self.id = rec.add_data(spec)
        self.layout = layout
        self.off = off              # added to f and o (and thresholds) alike
        self.rep = rep              # (axis, times): the arrays handed to the code repeat the data along an axis of o
        self.fdt = fdt              # another type for the forecasts
        self.x = 0 if np.dtype(dtype).kind != 'f' or fdt else int(x)       # the arrays handed to the code are scaled by 2**x

    def _lay(self, a, dtype=None):
        a = a.astype(dtype or self.dtype)
        if self.layout == 'F': a = np.asfortranarray(a)
        elif self.layout == 'S':        # strided view
            b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
            b[tuple(slice(None, None, 2) for _ in a.shape)] = a
            a = b[tuple(slice(None, None, 2) for _ in a.shape)]
        elif self.layout == 'N':        # negative strides
            a = np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])[tuple(slice(None, None, -1) for _ in a.shape)]
        elif self.layout == 'R':
            a = a.copy(); a.flags.writeable = False
        return a

    def arrays(self):
        f, o = self._arrays()
        if self.rep:
            assert self.kind in ('det', 'ens')
            a, n = self.rep
            b = a + 1 if self.kind == 'ens' and self.eax_choices[0] == 0 else a
            tile = lambda x, i: np.concatenate([x] * n, axis=i)
            f, o = tile(f, b), tile(o, a)
        if not self.x: return f, o
        k = 2.0 ** self.x
        up = lambda a: self._lay(a * np.asarray(k, a.dtype))
        return ({n: (a if n == 'pop' else up(a)) for n, a in f.items()} if isinstance(f, dict) else up(f)), up(o)

    def _arrays(self):
        f, o = self.fi / self.u + self.off, self.oi / self.u + self.off
        if self.kind in ('det', 'ens'): return self._lay(f, self.fdt), self._lay(o)
        o = self._lay(o)
        if self.kind == 'point':
            sd = self.sd / self.u
            if self.cls == 'gauss': d = {'mu': f, 'sigma': sd}
            else: d = {'mu': f, 'sigma': sd, 'shift': f - 3.0, 'unshifted_mu': np.full(f.shape, 3.0)}
        elif self.cls == 'gauss':
            d = {'mu': f, 'sigma': (1 + np.mod(np.abs(np.nan_to_num(self.fi)), 3)) / 2048.0 / self.u}
        elif self.cls == 'gamma':
            s = (1 + np.mod(np.abs(self.fi), 3)) / 4096.0 / self.u
            sh = f - s * np.log(2.0)
            d = {'unshifted_mu': s, 'sigma': s.copy(), 'shift': sh, 'mu': sh + s}
        else:
            from scipy import stats
            a = 4.0e6
            loc = np.where(f > 0, f, 1.0 / self.u)
            scale = loc / stats.gamma.ppf(0.5, a)
            mu = a * scale
            d = {'pop': self.pop / 4.0, 'mu': mu, 'sigma': mu / np.sqrt(a)}
        return {k: self._lay(np.array(x)) for k, x in d.items()}, o


def thr_value(ds, t, style='float'):
    """Numpy/python threshold for a spec threshold."""
    if t['k'] == 'n': return None
    if t['k'] == 's':
        x = (t['v'] / ds.u + ds.off) * 2.0 ** ds.x
        if style == 'int' and x == int(x): return int(x)
        return x
    a = (np.array(t['v'], float).reshape(ds.oi.shape) / ds.u + ds.off) * 2.0 ** ds.x
    return np.concatenate([a] * ds.rep[1], axis=ds.rep[0]) if ds.rep else a


class Hist:
    def __init__(self, rec):
        self.rec, self.n, self.v, self.ds, self.shadow = rec, 0, {}, {}, {}

    def opt(self, k, v, env=None):
        if k in OPTION:
            name = OPTION[k]
            val = env if env is not None else (str(bool(v)) if k == 'skip' else str(v[0] / v[1]) if k == 'conf' else str(v))
        else:
            name, val = k, str(v)
        os.environ[name] = val
        self.rec.emit(a='opt', k=k if k in OPTION else name, v=v)

    # -- objects
    def _axes(self, ax):
        if ax is None: return {'axn': True, 'ax': []}
        if isinstance(ax, int): return {'axn': False, 'ax': [ax]}
        return {'axn': False, 'ax': [int(a) for a in ax]}

    def new(self, cls, ds, ax=None, boot=None, eax=None, col='mean', trunc=False, dir=None, scr=True, fo=None, path=None, **kw):
        import PyAnEn
        self.n += 1
        i = self.n
        cfg = dict(BASECFG, cls=cls, d=ds.id, boot=boot or 0, trunc=trunc, col=col, dir=dir or '', scr=scr, **self._axes(ax))
        f, o = fo if fo is not None else ds.arrays()
        args = dict(avg_axis=ax, boot_samples=boot)
        if dir: args.update(working_directory=path, start_from_scratch=scr)
        if cls == 'ens':
            args.update(ensemble_axis=eax, ensemble_collapse_func=COLLAPSE[col])
            n = ds.fi.ndim
            if eax is None:
                e = -1 if list(ds.fi.shape[:-1]) == list(ds.oi.shape) else 0
            else: e = eax
            cfg['eax'] = e
        elif cls not in ('determ',):
            if cls != 'hurdle' or trunc: args['truncated'] = trunc
            if cls == 'hurdle':
                if kw.get('integration_range') is not None: cfg['ir'] = [rat(x) for x in kw['integration_range']]
                cfg['ib'] = kw.get('n_approx_bins', 20)
            args.update(kw)
        ob, ex = guarded(lambda: getattr(PyAnEn, CLS[cls])(f, o, **args))
        self.v[i], self.ds[i], self.shadow[i] = ob, ds, (f, o)
        self.rec.emit(a='new', id=i, cfg=cfg, r=ex or {'t': 'ok'})
        return i

    def set(self, i, name, *args, ch=None, **kw):
        ob = self.v[i]
        ret, ex = guarded(lambda: getattr(ob, name)(*args, **kw))
        if ch is None:
            if name == 'set_avg_axis': ch = self._axes(args[0])
            elif name == 'set_boot_samples': ch = {'boot': args[0] or 0}
            elif name == 'disable_boot': ch = {'boot': 0}
            elif name == 'disable_saving': ch = {'dir': ''}
            elif name == 'set_ensemble_axis': ch = {'eax': args[0]}
            elif name == 'set_truncation': ch = {'trunc': args[0]}
            elif name == 'set_bins': ch = {'ib': args[0]}
            elif name == 'set_integration_range': ch = {'ir': [rat(args[0]), rat(args[1])]}
            elif name == 'set_collapse_func': ch = {'col': {v: k for k, v in COLLAPSE.items()}[args[0]]}
            else: ch = {}
        # an empty record is not representable: repeat a setting that stays
        self.rec.emit(a='set', id=i, op=name, ch=ch or {'none': 0}, same=ret is ob, r=ex or {'t': 'ok'})

    def call(self, i, m, over=None, t=None, nb=0, pover=None, pt=0, sn='', lit=False, thr_style='float', nthr=None, scale=1, raw=False):
        """m metric; over/t threshold; nthr overrides how many thresholds are passed (0 or 2: ill-posed)."""
        ob, ds = self.v[i], self.ds[i]
        t = t or NOTHR
        if nthr is None: nthr = 0 if t['k'] == 'n' else 1
        kw = {}
        th = thr_value(ds, t, thr_style)
        if m in ('brier', 'cdf', 'sharpness', 'reliability', 'brier_decomp', 'roc', 'iou_determ', 'iou_prob'):
            o_, b_ = (th, None) if over else (None, th)
            if nthr == 2: o_, b_ = th, th
            if nthr == 0: o_, b_ = None, None
            if m == 'iou_prob':
                po, pb = (pt / 32, None) if pover else (None, pt / 32)
                kw = {'over': (o_, po), 'below': (b_, pb)}
            else:
                kw = {k: x for k, x in (('over', o_), ('below', b_)) if x is not None}
        if m in ('reliability', 'binned_spread_skill'): kw['nbins'] = nb
        if sn == 'none': kw['save_name'] = None
        elif lit: kw['save_name'] = 'LITERAL_' + sn
        elif sn: kw['save_name'] = sn
        ev = dict(id=i, m=m, over=bool(over), t=t, nb=nb, pover=bool(pover), pt=pt, sn=sn, lit=lit, nthr=nthr, scale=scale)
        self.rec.begin(ev)
        ret, ex = guarded(lambda: getattr(ob, m)(**kw))
        if ex and self.rec.faulty(ex):
            self.rec.emit(a='crash', r=ex, **ev)
            return None
        r = ex or {'t': 'ok', 'r': self.convert(m, ret, 2.0 ** -(ds.x * DEGREE.get(m, 0)))}
        self.rec.emit(a='call', r=r, **ev)
        return ret

    def convert(self, m, ret, k=1.0):
        return convert(m, ret, k)


# how a result grows when forecasts, observations and thresholds are multiplied by a factor
DEGREE = {'error': 1, 'ab_error': 1, 'spread': 1, 'crps': 1, 'rmse': 1, 'f_determ': 1, 'binned_spread_skill': 1,
          'sq_error': 2, 'variance': 2}


def convert(m, ret, k=1.0):
    try:
        if k != 1.0: ret = np.asarray(ret, float) * k
        if m == 'roc': return [arr(x) for x in ret]
        if m == 'brier_decomp': return [arr(x, fine) for x in ret]
        if m == 'reliability':
            return [arr(getattr(x, 'to_numpy', lambda: x)()) for x in ret]
        if m == 'binned_spread_skill':
            return [arr(x, sq) for x in ret]
        if m == 'rmse':
            return [arr(ret, sq)]
        if m == 'corr':
            return [arr(ret, sq_fine), arr(ret, sign)]
        return [arr(ret)]
    except Exception as ex:
        return []
