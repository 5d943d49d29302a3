"""C23: grid matrices and station files."""
import datetime
import os
import re
import shutil
import zlib
import numpy as np
import behave
from .common import *


def matrix(rng):
    s = (int(rng.choice([0, 1, 2, 3, 5])), int(rng.choice([0, 1, 2, 3, 7]))) if rng.random() < 0.9 else (int(rng.integers(1, 4)), 1300)
    k = int(rng.integers(0, 7))
    if k == 0: a = rng.integers(0, 2 ** 63, s, dtype=np.uint64).view(np.float64).copy(); a[~np.isfinite(a)] = 1e300
    elif k == 1: a = rng.integers(-10 ** 9, 10 ** 9, s)
    elif k == 2: a = rng.normal(size=s).astype(np.float32)
    elif k == 3: a = rng.choice([0.1, 1 / 3, -0.0, 1e-320, 1e22, 123456789.125, -5e-324, 1.0], s)
    elif k == 4: a = rng.integers(-3, 4, s).astype(float)
    elif k == 5: a = rng.integers(-100, 100, s).astype([np.int8, np.int16, np.int32][int(rng.integers(0, 3))])
    else: a = rng.normal(size=s) * 10.0 ** rng.integers(-8, 9, s)
    if a.dtype.kind == 'f':
        p = float(rng.choice([0, 0, 0.2, 1.0]))
        a[rng.random(s) < p] = np.nan
        if rng.random() < 0.2: a[rng.random(s) < 0.3] = np.inf; a[rng.random(s) < 0.2] = -np.inf
    h = int(rng.integers(0, 4))
    if h == 1: a = np.asfortranarray(a)
    if h == 2: a = np.ascontiguousarray(a.T).T
    if h == 3 and a.size: a = np.repeat(a, 2, axis=1)[:, ::2]
    return a


def parse(text, dtype):
    """The matrix a text stands for: dimensions, then one bracket per row."""
    m = re.match(r'\s*\[\s*(\d+)\s*,\s*(\d+)\s*\]\s*\((.*)\)\s*$', text, re.S)
    if not m: return 'malformed'
    r, c, body = int(m.group(1)), int(m.group(2)), m.group(3)
    rows = re.findall(r'\(([^()]*)\)', body)
    if re.sub(r'\([^()]*\)', '', body).replace(',', '').strip(): return 'malformed'
    try: vals = [[dtype.type(x) for x in row.split(',')] if row.strip() else [] for row in rows]
    except Exception as ex: return repr(ex)[:80]
    return [[r, c]] + [[show(x) for x in row] for row in vals]


def show(x):
    return 'nan' if x != x else x.tobytes().hex() if x.dtype.kind == 'f' else str(int(x))


def expected(a):
    return [[int(a.shape[0]), int(a.shape[1])]] + [[show(x) for x in row] for row in a]


def writes(rec, behs, i):
    """Sequences of writes of the model; after each, every file is looked at."""
    from PyAnEn.Grid import write_matrix
    rng = rec.rng
    for k, b in enumerate(behs):
        rec.history()
        d = os.path.join(rec.work, 'w%d' % k)
        os.makedirs(d)
        mats = {x: matrix(rng) for x in 'ABC'}
        bad = [np.arange(3.0), np.zeros((2, 2, 2)), np.array(1.0), np.zeros((1, 1, 1, 1))][int(rng.integers(0, 4))]
        other = os.urandom(int(rng.choice([0, 3, 5000])))
        want = {}
        for x in b:
            if x['op'] == 'start':
                for n, c in x['f'].items():
                    want[n] = None
                    if c == 'other':
                        want[n] = other
                        with open(os.path.join(d, n), 'wb') as f: f.write(other)
                continue
            p = os.path.join(d, x['n'])
            a = bad if x['m'] == 'bad' else mats[x['m']]
            before = a.tobytes()
            stat = os.stat(p).st_mtime_ns if os.path.exists(p) else 0
            kw = dict(overwrite=x['ov']) if x['ov'] or rng.random() < 0.5 else {}
            with np.printoptions(precision=int(rng.choice([2, 8])), threshold=5, suppress=bool(rng.integers(0, 2))):
                r, ex = guarded(lambda: write_matrix(p, a, **kw))
            refuse = x['m'] == 'bad' or (want[x['n']] is not None and not x['ov'])
            rec.fact('equal', x='refused' if ex else 'written', y='refused' if refuse else 'written', why='verdict', ov=x['ov'], m=x['m'])
            rec.fact('true', x=a.tobytes() == before, why='matrix changed')
            if not refuse:
                if not ex: rec.fact('true', x=bool(r is True or r), why='success not reported')
                with open(p, 'rb') as f: want[x['n']] = f.read()
                rec.fact('equal', x=parse(want[x['n']].decode('latin-1'), a.dtype), y=expected(a), why='content', dtype=str(a.dtype))
            elif stat: rec.fact('true', x=os.stat(p).st_mtime_ns == stat, why='file touched')
            for n, c in want.items():
                q = os.path.join(d, n)
                got = open(q, 'rb').read() if os.path.exists(q) else None
                rec.fact('true', x=got == c, why='content of a file that was not to change', n=n)
            rec.fact('equal', x=sorted(os.listdir(d)), y=sorted(n for n, c in want.items() if c is not None), why='files')
        shutil.rmtree(d)


def crc(a):
    a = np.asarray(a)
    if a.dtype.kind in 'UO': return zlib.crc32('\x01'.join(str(x) for x in a.ravel()).encode()) % 2 ** 31
    return zlib.crc32(np.ascontiguousarray(a.astype(float)).tobytes()) % 2 ** 31


DIMS = ['num_flts', 'num_parameters', 'num_test_times', 'num_search_times', 'num_times', 'num_stations', 'num_members']
OWN = {'num_flts': 'FLTs', 'num_parameters': 'ParameterNames', 'num_test_times': 'test_times', 'num_search_times': 'search_times', 'num_times': 'Times'}


def datasets(rec, n, i):
    from netCDF4 import Dataset
    from PyAnEn.IO import open_dataset
    from PyAnEn.Grid import read_station_coordinates
    rng = rec.rng
    for k in range(n):
        rec.history()
        p = os.path.join(rec.work, 'f%d.nc' % k)
        dims = [str(x) for x in rng.permutation(DIMS)[:int(rng.integers(1, 7))]]
        if rng.random() < 0.5 and 'num_test_times' in dims and 'num_times' in dims: dims.remove('num_times')
        size = {x: int(rng.integers(1, 5)) for x in dims}
        group = [None, None, '/inner'][int(rng.integers(0, 3))]
        decode = bool(rng.integers(0, 4) == 0)
        h, vd, where = {}, {}, {}
        nc = Dataset(p, 'w')
        g = nc.createGroup('inner') if group else nc
        if group:                                           # the root holds other things
            nc.createDimension('num_stations', 2); nc.createVariable('Xs', 'f8', ('num_stations',))[:] = [-1, -2]
        for x in dims: g.createDimension(x, size[x])
        width = int(rng.integers(1, 9))
        chars = False
        def put(name, typ, vdims, a):
            v = g.createVariable(name, typ, vdims)
            v[:] = a
            h[name], vd[name], where[name] = crc(a), list(vdims), np.array(a)
        def names(var, dim):
            ws = [''.join(rng.choice(list('abcXYZ019 _-.'), int(rng.integers(1, width + 1)))) for _ in range(size[dim])]
            a = np.full((size[dim], width), b'', 'S1')
            for r, w in enumerate(ws):
                for c, y in enumerate(w): a[r, c] = y.encode()
            v = g.createVariable(var, 'S1', (dim, 'num_chars'))
            v[:] = a
            h[var], vd[var] = crc(np.array(ws)), [dim, 'num_chars']
        order = [str(x) for x in rng.permutation(dims)]
        for x in order:
            if x in OWN and rng.random() < 0.8:
                if x == 'num_parameters':
                    if not chars: g.createDimension('num_chars', width); chars = True
                    names('ParameterNames', x)
                else:
                    a = np.sort(rng.permutation(50)[:size[x]])
                    if rng.random() < 0.4: a = a[::-1]
                    put(OWN[x], 'f8' if rng.random() < 0.5 else 'i4', (x,), a * (3600 if 'imes' in x else 1))
            if x == 'num_stations':
                if rng.random() < 0.9:
                    put('Xs', 'f8', (x,), rng.normal(size=size[x])); put('Ys', 'f8', (x,), rng.normal(size=size[x]))
                if rng.random() < 0.4:
                    if not chars: g.createDimension('num_chars', width); chars = True
                    names('StationNames', x)
        for j in range(int(rng.integers(1, 4))):
            m = int(rng.integers(1, len(dims) + 1))
            vdims = tuple(str(x) for x in rng.permutation(dims)[:m])
            if int(np.prod([size[x] for x in vdims])) > 300: continue
            a = rng.normal(size=[size[x] for x in vdims])
            a[rng.random(a.shape) < 0.1] = np.nan
            put('data%d' % j, 'f8', vdims, a)
        nc.close()
        used = sorted({d for v in vd.values() for d in v})
        if not used: os.remove(p); continue
        raw = open(p, 'rb').read()
        r, ex = guarded(lambda: open_dataset(p, **(dict(group=group) if group else {}), **(dict(decode=True) if decode else {})))
        if ex: rec.fact('true', x=False, why='open_dataset refused', ex=ex, vd=vd); continue
        def secs(v):
            a = np.asarray(v.values)
            if a.dtype.kind == 'M': a = (a.astype('datetime64[ns]').astype(np.int64) // 10 ** 9)
            return crc(a)
        oh = {str(v): secs(r[v]) for v in r.variables}
        oc = {str(c): secs(r.coords[c]) for c in r.coords}
        un = {str(v): str(r[v].attrs.get('units', r[v].encoding.get('units', ''))) for v in r.variables}
        rec.fact('dataset', dims=used, vs=sorted(vd), h=dict(h, _=0), vd=dict(vd, _=[]), od=sorted(str(x) for x in r.dims), oc=dict(oc, _=0), oh=dict(oh, _=0),
                 ovd=dict({str(v): [str(x) for x in r[v].dims] for v in r.variables}, _=[]), un=dict(un, _=''), decode=decode)
        if decode:
            for v in ('test_times', 'search_times', 'Times'):
                if v in vd: rec.fact('true', x=r[v].dtype.kind == 'M', why='time not decoded: ' + v)
        else: rec.fact('true', x=all(r[v].dtype.kind != 'M' for v in r.variables), why='decoded without being asked')
        r.close()
        if 'Xs' in where and 'Ys' in where:
            c, ex = guarded(lambda: read_station_coordinates(p, **(dict(group=group) if group else {})))
            if ex: rec.fact('true', x=False, why='coordinates refused', ex=ex)
            else: rec.fact('equal', x=[crc(c[0]), crc(c[1])], y=[h['Xs'], h['Ys']], why='station coordinates')
        twos = [v for v in where if v.startswith('data') and where[v].ndim == 1]
        if 'Xs' in where and twos:
            kw = dict(var_x=twos[0], var_y='Xs', **(dict(group=group) if group else {}))
            c, ex = guarded(lambda: read_station_coordinates(p, **kw))
            same = where[twos[0]].shape == where['Xs'].shape
            if not same: rec.fact('true', x=bool(ex), why='coordinates of different lengths returned')
            elif ex: rec.fact('true', x=False, why='coordinates refused', ex=ex)
            else: rec.fact('equal', x=[crc(c[0]), crc(c[1])], y=[h[twos[0]], h['Xs']], why='station coordinates')
        rec.fact('true', x=open(p, 'rb').read() == raw, why='file changed by reading')
        os.remove(p)


class NoChunks:
    """xarray's own reader of several files without dask: each file is opened whole instead of in chunks."""
    def __enter__(self):
        import xarray.backends.api as api
        self.api, self.real = api, api.open_dataset
        api.open_dataset = lambda *a, **kw: self.real(*a, **{k: v for k, v in kw.items() if k != 'chunks'})
    def __exit__(self, *a): self.api.open_dataset = self.real


def manyfiles(rec, n, i):
    """Several files, one per rank, opened as one."""
    from netCDF4 import Dataset
    from PyAnEn.IO import open_mfdataset
    rng = rec.rng
    for k in range(n):
        rec.history()
        d = os.path.join(rec.work, 'd%d' % k)
        os.makedirs(d)
        parts = int(rng.integers(1, 6))
        ranks = [int(x) for x in rng.permutation([0, 1, 2, 3, 9, 10, 11, 19, 20, 100, 101, 1000, int(rng.integers(12, 5000))])[:parts]]
        ranks = list(dict.fromkeys(ranks))
        pad = int(rng.choice([0, 0, 4]))
        pre = str(rng.choice(['anen_', '', 'a-b.c_', 'x2_']))
        dims = ['num_stations'] + [str(x) for x in rng.permutation(['num_flts', 'num_test_times', 'num_members', 'num_times'])[:int(rng.integers(1, 4))]]
        size = {x: int(rng.integers(1, 4)) for x in dims}
        group = [None, '/inner'][int(rng.integers(0, 2))]
        owned = group is None or rng.random() < 0.3           # station locations in the group itself
        decode = bool(rng.integers(0, 4) == 0)
        own = {'num_flts': 'FLTs', 'num_test_times': 'test_times'}
        ax = {v: np.sort(rng.permutation(50)[:size[x]]) * 3600.0 for x, v in own.items() if x in dims}
        names = [('data%d' % j, tuple(str(y) for y in rng.permutation(['num_stations'] + [x for x in dims[1:] if rng.random() < 0.7]))) for j in range(int(rng.integers(1, 4)))]
        names.append(('all', tuple(str(y) for y in rng.permutation(dims))))
        fixed = rng.normal(size=size[dims[1]])
        told, files = [], []
        for r in ranks:
            m = int(rng.integers(1, 5))
            p = os.path.join(d, '%sRank%s.nc' % (pre, str(r).zfill(pad)))
            files.append(p)
            held = [[] for _ in range(m)]
            with Dataset(p, 'w') as nc:
                for g in [nc] + ([nc.createGroup('inner')] if group else []):
                    inner = g is not nc or not group
                    for x in dims: g.createDimension(x, m if x == 'num_stations' else size[x])
                    xy = rng.normal(size=(2, m))
                    if not (g is not nc and not owned):
                        g.createVariable('Xs', 'f8', ('num_stations',))[:] = xy[0]
                        g.createVariable('Ys', 'f8', ('num_stations',))[:] = xy[1]
                        if inner or not owned:
                            for s in range(m): held[s] += [xy[0, s], xy[1, s]]
                    if g is nc:
                        for x, v in own.items():
                            if x in dims: g.createVariable(v, 'f8', (x,))[:] = ax[v]
                    for v, vd in names:
                        a = rng.normal(size=[m if x == 'num_stations' else size[x] for x in vd])
                        g.createVariable(v, 'f8', vd)[:] = a
                        if inner:
                            for s in range(m): held[s] += list(np.take(a, s, vd.index('num_stations')).ravel())
                    g.createVariable('same', 'f8', (dims[1],))[:] = fixed
            told.append({'r': r, 'h': [crc(h) for h in held]})
        how = int(rng.integers(0, 2))
        paths = os.path.join(d, '*.nc') if how == 0 else [files[j] for j in rng.permutation(len(files))]
        given = list(paths)
        with NoChunks():
            r, ex = guarded(lambda: open_mfdataset(paths, parallel=False, **(dict(group=group) if group else {}), **(dict(decode=True) if decode else {})))
        if ex: rec.fact('true', x=False, why='several files refused', ex=ex, group=str(group)); shutil.rmtree(d); continue
        def of(s):
            h = [float(r['Xs'].values[s]), float(r['Ys'].values[s])] if 'Xs' in r and 'Ys' in r else []
            for v, vd in names: h += list(r[v].isel(num_stations=s).values.ravel())
            return h
        # locations come before or after the data, as they were written
        first = lambda s: crc(of(s))
        renamed = 'num_times' not in dims
        rec.fact('equal', x=[[str(y) for y in r[v].dims] for v, vd in names], y=[['num_times' if renamed and y == 'num_test_times' else y for y in vd] for v, vd in names], why='dimensions of variables')
        def secs(v):
            a = np.asarray(v.values)
            if a.dtype.kind == 'M': a = a.astype('datetime64[ns]').astype(np.int64) // 10 ** 9
            return crc(a)
        rec.fact('manyfiles', parts=told, h=[first(s) for s in range(r.sizes['num_stations'])], at=[int(round(float(x) * 10000)) for x in r['num_stations'].values],
                 dims=sorted(dims), vs=sorted(v for x, v in own.items() if x in dims) + ['data'], od=sorted(str(x) for x in r.dims),
                 oc=dict({str(c): secs(r.coords[c]) for c in r.coords}, _=0), own=dict({v: crc(a) for v, a in ax.items()}, _=0),
                 un=dict({str(v): str(r[v].attrs.get('units', r[v].encoding.get('units', ''))) for v in r.variables}, _=''))
        rec.fact('equal', x=crc(r['same'].values), y=crc(fixed), why='variable without stations')
        if how: rec.fact('true', x=given == paths, why='list of paths changed')
        if 'test_times' in ax and renamed: rec.fact('true', x=(r['num_times'].dtype.kind == 'M') == decode, why='decoding of times')
        r.close()
        shutil.rmtree(d)


def jobs(tier, seed):
    rng = np.random.default_rng(seed)
    b = behave.sample(behave.behaviours('Files', 'FI_beh'), tiered(tier, 600, 2000), rng)
    w = tiered(tier, 4, 12)
    return [('writes%d' % i, writes, (b[i::w] * tiered(tier, 1, 6), i)) for i in range(w)] + split('datasets', datasets, tiered(tier, 60, 800), 4) + split('manyfiles', manyfiles, tiered(tier, 25, 400), 4)


def models(tier):
    return [model(tiered(tier, 'FI_all', 'FI_deep'), 'Files'), model('FI_mut_guard', 'Files', expect='violation'), model('FI_mut_torn', 'Files', expect='violation'), model('MC_datasets', 'MCDatasets'), model('MC_manyfiles', 'MCDatasets')]
