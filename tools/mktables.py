"""Writes spec/Tables.tla: distribution functions in units of 2^-30, computed with mpmath-free exact series in Decimal."""
from decimal import Decimal as D, getcontext
getcontext().prec = 60
ONE = 2 ** 30
def exp(x): return D(x).exp()
PI = D('3.14159265358979323846264338327950288419716939937510582097494459')
def phi_cdf(z):
    z = D(z)
    # series sum z^(2k+1)/(1*3*5..(2k+1)) times the density
    s, t, k = z, z, 0
    while abs(t) > D(10) ** -50:
        k += 1
        t = t * z * z / (2 * k + 1)
        s += t
    return D('0.5') + s * (-z * z / 2).exp() / (2 * PI).sqrt()
def erlang(n, x):
    x = D(x); s, t = D(0), D(1)
    for i in range(n):
        s += t; t = t * x / (i + 1)
    return 1 - (-x).exp() * s
def half(n, x):
    """Gamma of shape n + 1/2, scale 1, at x: 2 Phi(sqrt(2x)) - 1 - e^-x sum x^(i+1/2)/Gamma(i+3/2)."""
    x = D(x)
    if x == 0: return D(0)
    r = 2 * phi_cdf((2 * x).sqrt()) - 1
    g = PI.sqrt() / 2          # Gamma(3/2)
    t = x.sqrt() / g
    for i in range(n):
        r -= (-x).exp() * t
        t = t * x / (D(i) + D('2.5') - 1)
        # Gamma(i+5/2) = (i+3/2) Gamma(i+3/2)
    return r
def fx(v): return int((v * ONE).to_integral_value())
def seq(f, n): return '<<' + ', '.join(str(fx(f(i))) for i in range(n)) + '>>'
L = ['------------------------------- MODULE Tables -------------------------------',
     '(* Distribution functions in units of 2^-30 (generated by tools/mktables.py from the defining series).',
     '   PhiTab[i+1]: standard normal at i/8, i = 0..40.  GamTab[2a][i+1]: Gamma of shape a (a = 1/2, 1, .., 4) and',
     '   scale 1 at i/4, i = 0..80. *)',
     'PhiTab == ' + seq(lambda i: phi_cdf(D(i) / 8), 41),
     'GamTab == <<']
rows = []
for a2 in range(1, 9):
    f = (lambda i: erlang(a2 // 2, D(i) / 4)) if a2 % 2 == 0 else (lambda i: half(a2 // 2, D(i) / 4))
    rows.append('  ' + seq(f, 81))
L.append(',\n'.join(rows) + '>>')
def mills(z):
    """Half the Mills ratio (upper tail over density) of the standard normal."""
    z = D(z)
    if z < 6: return (1 - phi_cdf(z)) * (2 * PI).sqrt() * (z * z / 2).exp() / 2
    c = z
    for n in range(400, 0, -1): c = z + n / c
    return 1 / c / 2
L += ['(* Half the Mills ratio at i/8, i = 0..520; exp(-i), i = 0..24; exp(-i/128), i = 0..127. *)',
      'MillsTab == ' + seq(lambda i: mills(D(i) / 8), 521),
      'ExpTab == ' + seq(lambda i: exp(-i), 25),
      'ExpFine == ' + seq(lambda i: exp(-D(i) / 128), 128)]
L.append('=' * 77)
open('/verif/spec/Tables.tla', 'w').write('\n'.join(L) + '\n')
