"""One integration with the real ray: realray.py DIR CLS KIND LO HI N MEM."""
import os, sys
import numpy as np
d, cls, kind, lo, hi, n, mem = sys.argv[1:]
import PyAnEn
from PyAnEn.utils_approximation import Integration
z = np.load(os.path.join(d, 'in.npz'))
f = {k[2:]: z[k] for k in z.files if k.startswith('f_')}
v = {'hurdle': PyAnEn.VerifyProbGammaHurdle, 'gauss': PyAnEn.VerifyProbGaussian}[cls](f, z['o'])
r = getattr(Integration(v, (float(lo), float(hi)), nbins=int(n), workers=2, less_memory=bool(int(mem)), memmap_dir=d), kind)()
np.save(os.path.join(d, 'out.npy'), np.asarray(r))
