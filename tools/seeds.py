"""seeds.py [ID...]: runs each planted bug's check against a scratch copy with the patch applied."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
S = '/verif/seeded'
ids = sys.argv[1:] or sorted(os.listdir(S))
def one(i):
    prop = json.load(open(os.path.join(S, i, 'meta.json')))['property']
    w = tempfile.mkdtemp(prefix='seed')
    try:
        r = os.path.join(w, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        p = subprocess.run(['git', 'apply', os.path.join(S, i, 'patch.diff')], cwd=r)
        if p.returncode: return i, prop, 'patch does not apply'
        o = subprocess.run(['timeout', '800', './check', prop, '--no-model'], cwd='/verif', env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
        c = [l.strip()[:150] for l in o.splitlines() if 'clauses' in l][:1]
        return i, prop, ('CAUGHT ' if 'VIOLATION property=%s ' % prop in o else 'missed ') + ' '.join(c) + (' ERROR ' + o[o.find('CHECK ERROR'):][:300] if 'CHECK ERROR' in o else '')
    finally: shutil.rmtree(w, ignore_errors=True)
for i in ids: print(*one(i), flush=True)
