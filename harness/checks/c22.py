"""C22: Diebold-Mariano test."""
import math
from fractions import Fraction
import numpy as np
import PyAnEn.utils_significance as sg
import gen
from .common import *

UNIT = 2 ** 30


class Big(Exception): pass


def check(x):
    if abs(x) >= 2 ** 31 - 1: raise Big()
    return x


def radd(a, b):
    g = math.gcd(a.denominator, b.denominator)
    check(a.numerator * (b.denominator // g)); check(b.numerator * (a.denominator // g)); check((a.denominator // g) * b.denominator)
    check(a.numerator * (b.denominator // g) + b.numerator * (a.denominator // g))
    return a + b


def rmul(a, b):
    r = a * b
    check(r.numerator); check(r.denominator)
    return r


def rmean(q):
    s = Fraction(0)
    for x in q: s = radd(s, x)
    return rmul(s, Fraction(1, len(q)))


def fits(d, h):
    """Whether the specification can calculate the statistic in 32 bits; the sign of the long-run variance."""
    n = len(d)
    m = rmean(d)
    g = []
    for k in range(h):
        e = [radd(x, -m) for x in d]
        g.append(rmean([rmul(e[i + k], e[i]) for i in range(n - k)]))
    s = Fraction(0)
    for x in g[1:]: s = radd(s, x)
    v = rmul(radd(g[0], rmul(Fraction(2), s)), Fraction(1, n))
    if v < 0: return float(v), Fraction(0)
    if v == 0: return None
    t2 = rmul(Fraction(n * (n + 1 - 2 * h) + h * (h - 1), n * n), rmul(rmul(m, m), 1 / v))
    if t2.denominator * (n - 1) + t2.numerator >= 2 ** 30: raise Big()
    return float(v), t2


def angle(t, nu):
    a = math.atan2(abs(t), math.sqrt(nu))
    return dict(sn=fix(math.sin(a), UNIT), cs=fix(math.cos(a), UNIT), an=fix(a * 2 / math.pi, UNIT))


def shaped(rng, a):
    """The test flattens its arguments."""
    n = len(a)
    if n % 2 == 0 and rng.random() < 0.3: return np.asarray(a.reshape(2, n // 2), order='CF'[int(rng.integers(0, 2))])
    if rng.random() < 0.2: return np.repeat(a, 2)[::2]
    return a


def exact(rec, n, i):
    rng = rec.rng
    done = 0
    while done < n:
        L = int(rng.integers(2, 13))
        h = int(rng.integers(1, min(L, 5)))
        crit = ['MSE', 'MAD', 'MAPE', 'poly'][int(rng.integers(0, 4))]
        pw = int(rng.integers(1, 5))
        big = 3 if crit in ('MSE', 'poly') else 5
        a = rng.choice([1, 2, 4, -2], L) if crit == 'MAPE' else rng.integers(-big, big + 1, L)
        p, q = rng.integers(-big, big + 1, L), rng.integers(-big, big + 1, L)
        if rng.random() < 0.1: q = p + (rng.random(L) < 0.5)
        u = 2 if crit == 'MAD' and rng.random() < 0.3 else 1
        loss = {'MSE': lambda x, y: (x - y) ** 2, 'MAD': lambda x, y: abs(x - y), 'MAPE': lambda x, y: abs((x - y) / x), 'poly': lambda x, y: (x - y) ** pw}[crit]
        F = lambda z: [Fraction(int(x), u) for x in z]
        try:
            A, P, Q = F(a), F(p), F(q)
            d = [loss(x, y) - loss(x, z) for x, y, z in zip(A, P, Q)]
            ok = fits(d, h)
        except Big: continue
        if ok is None or abs(ok[0]) < 1e-3: continue     # undefined, or a difference of nearly equal numbers
        if ok[0] < 0 and rng.random() < 0.5: continue
        done += 1
        rec.history()
        args = [shaped(rng, x / u if u > 1 or rng.random() < 0.5 else x) for x in (a, p, q)]
        if crit == 'MAPE': args = [x.astype(float) for x in args]
        kw = dict(h=h, crit=crit)
        if crit == 'poly' and not (pw == 2 and rng.random() < 0.5): kw['power'] = pw
        if crit == 'MSE' and rng.random() < 0.5: del kw['crit']
        if h == 1 and rng.random() < 0.5: del kw['h']
        r, ex = guarded(lambda: sg.diebold_mariano_test(*args, **kw))
        w = lambda z: [[x.numerator, x.denominator] for x in z]
        if ok[0] < 0:       # no statistic
            rec.fact('dmnone', o=w(A), p=w(P), q=w(Q), crit=crit, pw=pw, h=h, none=bool(ex or math.isnan(r[0]) and math.isnan(r[1])), got=str(r))
            continue
        if ex: rec.fact('true', x=False, why='refused', ex=ex); continue
        st, pv = float(r[0]), float(r[1])
        rec.fact('dm', o=w(A), p=w(P), q=w(Q), crit=crit, pw=pw, h=h, g=sign(st), pv=fix(pv, UNIT), stat=str(st), **angle(st, L - 1))
        r2, ex = guarded(lambda: sg.diebold_mariano_test(args[0], args[2], args[1], **kw))
        if ex: rec.fact('true', x=False, why='refused', ex=ex); continue
        rec.fact('near', sx=[], sy=[], x=[fix(-st, 10 ** 5), fix(pv, UNIT)], y=[fix(float(r2[0]), 10 ** 5), fix(float(r2[1]), UNIT)], tol=1, why='exchanged forecasts')


def loose(rec, n, i):
    """Long series of arbitrary numbers: the p-value belongs to the statistic, exchange, change of units."""
    rng = rec.rng
    for k in range(n):
        rec.history()
        L = int(rng.integers(3, 80)) if k % 5 else int(rng.integers(100, 260))
        a = rng.uniform(1, 4, L)
        p, q = a + rng.normal(0, 1, L) + 0.2, a + rng.normal(0, 1.3 if L < 90 else 1.15, L)
        crit = ['MSE', 'MAD', 'MAPE', 'poly'][k % 4]
        kw = dict(h=int(rng.integers(1, 4)) if L > 12 else 1, crit=crit)
        if crit == 'poly': kw['power'] = [1, 2, 3, 4][int(rng.integers(0, 4))]
        if kw['h'] >= L: kw['h'] = 1
        run = lambda *x: guarded(lambda: [float(y) for y in sg.diebold_mariano_test(*x, **kw)])
        r, ex = run(a, p, q)
        if ex: rec.fact('true', x=False, why='refused', ex=ex); continue
        if r[0] != r[0]: continue
        rec.fact('ttail', nu=L - 1, pv=fix(r[1], UNIT), stat=str(r[0]), **angle(r[0], L - 1))
        fx = lambda z: [fix(z[0], 10 ** 5), fix(z[1], UNIT)]
        for why, other, sgn in (('exchanged forecasts', (a, q, p), -1), ('other units', (a * 4, p * 4, q * 4), 1), ('mirrored', (-a, -p, -q), 1 if crit != 'poly' or kw['power'] % 2 == 0 else -1)) \
                + ((('shifted', (a + 8, p + 8, q + 8), 1),) if crit != 'MAPE' else ()) + (((('reversed', (a[::-1], p[::-1], q[::-1]), 1),))):
            s2, ex = run(*other)
            if ex: rec.fact('true', x=False, why=why + ' refused', ex=ex); continue
            if abs(s2[0]) < 1000: rec.fact('near', sx=[], sy=[], x=fx([sgn * r[0], r[1]]), y=fx(s2), tol=3, why=why)


def horizons(rec, n, i):
    """Horizons up to the length of the series, in fixed point."""
    rng = rec.rng
    done = 0
    while done < n:
        L = int(rng.integers(8, 31))
        h = int(rng.integers(2, L))
        crit = ['MSE', 'MAD', 'MAD'][int(rng.integers(0, 3))]
        big = 3 if crit == 'MSE' else 9
        a, p, q = (rng.integers(-big, big + 1, L) for _ in range(3))
        if crit == 'MSE' and rng.random() < 0.5: q = np.zeros(L, int)
        d = (a - p) ** 2 - (a - q) ** 2 if crit == 'MSE' else abs(a - p) - abs(a - q)
        m = d.sum() // L
        if d.sum() % L or m == 0 or abs(m) > 3: continue
        e = d - m
        S = [int(np.sum(e[k:] * e[:L - k])) for k in range(h)]
        G = sum((1 if k == 0 else 2) * S[k] / (L - k) for k in range(h))
        if max(abs(x) for x in S) >= 2 ** 14 or G < 9: continue
        done += 1
        rec.history()
        kw = dict(h=h, crit=crit)
        r, ex = guarded(lambda: sg.diebold_mariano_test(a, p, q, **kw))
        if ex: rec.fact('true', x=False, why='refused', ex=ex); continue
        st = float(r[0])
        w = lambda z: [[int(x), 1] for x in z]
        rec.fact('dmlong', o=w(a), p=w(p), q=w(q), crit=crit, h=h, g=sign(st), q2=fix(st * st, 2 ** 10), stat=str(st))


def refusals(rec, n, i):
    rng = rec.rng
    for k in range(n):
        rec.history()
        L = int(rng.integers(2, 9))
        a, p, q = (rng.uniform(1, 4, L) for _ in range(3))
        bad = [dict(h=0), dict(h=-int(rng.integers(1, 5))), dict(h=L), dict(h=L + int(rng.integers(1, 5))), dict(h=1.0), dict(h='1'), dict(crit='MAE'), dict(crit='mse'), dict(crit=''), dict(crit=None)]
        for kw in bad:
            r, ex = guarded(lambda: sg.diebold_mariano_test(a, p, q, **kw))
            rec.fact('true', x=bool(ex), why='not refused: ' + str(kw))
        for x in ((a[:-1], p, q), (a, p[:-1], q), (a, p, q[:-1]), (a, p[:-1], q[:-1]), (a, p, np.append(q, 1.0)), (a.tolist(), p, q)):
            if min(len(y) for y in x) < 1: continue
            r, ex = guarded(lambda: sg.diebold_mariano_test(*x))
            rec.fact('true', x=bool(ex), why='not refused: lengths ' + str([len(y) for y in x]))
        for kw in (dict(h=L - 1), dict(h=1)):
            r, ex = guarded(lambda: sg.diebold_mariano_test(a, p, q, **kw))
            rec.fact('true', x=not ex, why='refused: ' + str(kw), ex=ex or '')


def jobs(tier, seed):
    q = tiered(tier, 1, 12)
    return split('exact', exact, 120 * q, 6) + split('long', loose, 150 * q, 2) + split('horizons', horizons, 60 * q, 2) + split('refused', refusals, 12 * q, 1)


def models(tier):
    return [model(tiered(tier, 'MC_dm', 'MC_dm4')), model('MC_tail', 'MCDist')]
