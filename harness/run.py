"""Runs one property's check: model checking of the specification, then conformance of the real code."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = max(1, min(8, os.cpu_count() or 1))


def tlc(module, cfg, env=None, workers=1, meta=None, extra=(), timeout=800, mem='2g'):
    e = dict(os.environ)
    e.update(env or {})
    meta = meta or tempfile.mkdtemp(prefix='tlc')
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4', '-Xss64m', '-Xmx' + mem, '-cp', CP, 'tlc2.TLC',
           '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers), *extra, '-config', cfg, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode('utf8', 'replace'), p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b'').decode('utf8', 'replace') + '\nTIMEOUT', -9
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct', out)
    gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, out, gen, dis


def run_model(m):
    t0 = time.time()
    rc, out, gen, dis = tlc(m['module'], m['cfg'], workers=m.get('workers', 2), extra=m.get('extra', ()), timeout=m.get('timeout', 800), mem='4g')
    if m.get('expect', 'ok') == 'ok': good = rc == 0 and 'No error has been found' in out
    else: good = 'is violated' in out or 'was violated' in out
    return {'cfg': m['cfg'], 'expect': m.get('expect', 'ok'), 'good': good, 'states': dis, 'transitions': gen,
            'wall': round(time.time() - t0, 1), 'out': '' if good else out[-3000:]}


def parse_bad(out):
    """Lines <<"BAD", n, {...}>> that TLC printed (a value may be wrapped over several lines)."""
    bad = {}
    for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\{.*?\})\s*>>', out, re.S):
        bad[int(m.group(1))] = re.sub(r'\s+', ' ', m.group(2))
    return bad


def validate(rec, work, tag):
    """Trace validation of one shard; returns list of (event index, clauses), counts."""
    d = os.path.join(work, tag)
    os.makedirs(d, exist_ok=True)
    bad, first, dropped = {}, 0, 0
    events = rec.events
    # An event TLC cannot evaluate is a verdict as well: report it, drop it, go on.
    skip = set()
    for _ in range(6):
        idx = [i for i in range(len(events)) if i not in skip]
        keep = rec.events
        rec.events = [events[i] for i in idx]
        t, x = rec.write(d)
        rec.events = keep
        rc, out, gen, dis = tlc('PyAnEnTrace', 'PyAnEnTrace.cfg', env={'TRACE': t, 'DATA': x}, meta=os.path.join(d, 'meta'))
        for k, c in parse_bad(out).items(): bad[idx[k - 1]] = c
        if rc == 0 and 'No error has been found' in out: break
        if 'TIMEOUT' in out or 'OutOfMemory' in out: raise RuntimeError('TLC failed: ' + out[-2000:])
        ls = [int(v) for v in re.findall(r'/\\ l = (\d+)', out)]
        if not ls: raise RuntimeError('TLC failed: ' + out[-3000:])
        at = idx[max(ls) - 1]
        why = re.sub(r'\s+', ' ', out[out.find('Error:'):][:400])
        bad[at] = '{"event not evaluable: %s"}' % why.replace('"', "'")
        skip.add(at)
    return bad, len(events), gen


def worker(jobs, mod, tier, seed, work, out, wid):
    import rec as R
    import tqdm
    tqdm.tqdm.monitor_interval = 0       # no monitor thread: children are forked
    res = []
    log = os.open(os.path.join(work, 'log%d' % wid), os.O_WRONLY | os.O_CREAT)
    os.dup2(log, 1)         # progress bars and the like
    os.dup2(log, 2)
    for n, (name, fn, args) in jobs:
        try:
            r = R.Recorder(seed=(seed * 1000003 + n) % (2 ** 31))
            r.work = os.path.join(work, 'scratch%d' % n)
            os.makedirs(r.work, exist_ok=True)
            t0 = time.time()
            broke = None
            try: fn(r, *args)
            except Exception: broke = traceback.format_exc()
            t1 = time.time()
            # a history that cannot be driven to its end: the code refused or returned something unusable
            if broke: r.fact('true', x=False, why='history broke off', trace=broke[-1500:])
            bad, ne, gen = validate(r, work, 'job%d' % n)
            reps = []
            for i in sorted(bad)[:6]:
                h = r.ctx[i]
                lo = i
                while lo > 0 and r.ctx[lo - 1] == h: lo -= 1
                ids = sorted({e['cfg']['d'] for e in r.events[lo:i + 1] if e.get('a') == 'new'})
                reps.append({'job': name, 'history': h, 'event': r.events[i], 'clauses': bad[i],
                             'prefix': r.events[max(lo, i - 40):i], 'data': {str(k): r.data[k - 1] for k in ids}})
            sample = [e for e in r.events if e.get('a') in ('call', 'fact')][:1]
            res.append({'name': name, 'bad': len(bad), 'clauses': sorted(set(bad.values()))[:10], 'replays': reps, 'events': ne,
                        'histories': r.histories, 'known': getattr(r, 'known', []), 'sample': sample, 'notes': getattr(r, 'notes', {}),
                        'drive': round(t1 - t0, 1), 'tlc': round(time.time() - t1, 1)})
            shutil.rmtree(r.work, ignore_errors=True)
            shutil.rmtree(os.path.join(work, 'job%d' % n), ignore_errors=True)
        except BaseException:
            res.append({'name': name, 'error': traceback.format_exc()})
            if isinstance(sys.exc_info()[1], (KeyboardInterrupt, SystemExit)): break
    with open(out, 'w') as f: json.dump(res, f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--no-model', action='store_true')
    ap.add_argument('--job', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    mod = importlib.import_module('checks.' + a.prop.lower())
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix='pyanen-%s-' % a.prop)
    rc = 2
    try:
        rc = _main(a, tier, mod, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def _main(a, tier, mod, work, t0):
    os.chdir(work)
    jobs = list(enumerate(mod.jobs(tier, a.seed)))
    if a.job: jobs = [j for j in jobs if a.job in j[1][0]]
    # interleave so that kinds of jobs are spread over the workers
    queues = [jobs[i::CORES] for i in range(CORES)]
    procs = []
    ctx = mp.get_context('fork')
    for w, q in enumerate(queues):
        if not q: continue
        out = os.path.join(work, 'res%d.json' % w)
        p = ctx.Process(target=worker, args=(q, mod, tier, a.seed, work, out, w))
        p.start()
        procs.append((p, out, q))
    models = []
    if not a.no_model:
        for m in mod.models(tier): models.append(run_model(m))
    results = []
    for p, out, q in procs:
        p.join()
        if os.path.exists(out): results += json.load(open(out))
        else: results.append({'name': str([x[1][0] for x in q]), 'error': 'worker died with %s' % p.exitcode})

    errors = [r for r in results if 'error' in r] + [m for m in models if not m['good']]
    viol, known = [], []
    rdir = os.path.join(EVID, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(a.prop + '-'): os.remove(os.path.join(rdir, f))
    nbad = 0
    for r in results:
        nbad += r.get('bad', 0)
        known += r.get('known', [])
        for x in r.get('replays', []):
            if len(viol) < 4:
                p = os.path.join(rdir, '%s-%d.json' % (a.prop, len(viol) + 1))
                json.dump(dict(x, property=a.prop, seed=a.seed, tier=tier), open(p, 'w'), indent=1)
                viol.append((p, x['clauses'], x['job'], x['event']))
    good = [r for r in results if 'error' not in r]
    ev = {'property': a.prop, 'tier': tier, 'seed': a.seed, 'level': 'model_checking',
          'coverage': {
              'states': sum(m['states'] for m in models),
              'transitions': sum(m['transitions'] for m in models),
              'traces_validated_against_impl': sum(r['histories'] for r in good),
              'events_validated': sum(r['events'] for r in good),
              'models': [{k: m[k] for k in ('cfg', 'expect', 'states', 'transitions', 'wall')} for m in models],
              'jobs': [{k: r[k] for k in ('name', 'histories', 'events', 'notes')} for r in good],
              'samples': [e for r in good for e in r['sample']][:4]},
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 1), 'violations': nbad}
    json.dump(ev, open(os.path.join(EVID, a.prop + '.json'), 'w'), indent=1)
    if a.v:
        for m in models: print('model', m)
        for r in good: print('job', r['name'], r['histories'], r['events'], 'drive', r['drive'], 'tlc', r['tlc'], 'bad', r['bad'], r['clauses'])
    for k in sorted(set(known)): print('KNOWN-FINDING: property=%s %s' % (a.prop, k))
    for p, c, j, e in viol:
        print('VIOLATION property=%s replay=%s' % (a.prop, p))
        print('  job %s clauses %s event %s' % (j, c, json.dumps(e)[:300]))
    if errors:
        for x in errors: print('CHECK ERROR', x.get('name') or x.get('cfg'), (x.get('error') or x.get('out'))[-900:])
    print('%s %s: %d histories, %d events, %d violations, models %s, %.1f s' % (
        a.prop, tier, ev['coverage']['traces_validated_against_impl'], ev['coverage']['events_validated'], nbad,
        [(m['cfg'], m['states']) for m in models], time.time() - t0))
    if viol: return 1
    return 2 if errors else 0


if __name__ == '__main__':
    sys.exit(main())
