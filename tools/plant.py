"""plant.py SPEC.json: makes /verif/seeded/<id> from {id, property, edits: [[file, old, new], ...], needs, breaks, demo (python)}.
Confirms in a scratch copy: the patch applies, the stable tests pass, the demo passes without and fails with it."""
import json, os, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET
S = json.load(open(sys.argv[1]))
PY = '/opt/venv/bin/python'
for s in (S if isinstance(S, list) else [S]):
    w = tempfile.mkdtemp(prefix='plant')
    try:
        r = os.path.join(w, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        subprocess.run('cp -a /repo/PyAnEn/. PyAnEn/', shell=True, cwd=r)
        for f, old, new in s['edits']:
            p = os.path.join(r, f); t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=r, stdout=subprocess.PIPE).stdout
        assert diff
        d = os.path.join('/verif/seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# exit 0: the property holds in this scenario\nD=$(cd "$(dirname "$0")" && pwd)\nW=$(mktemp -d)\ntrap \'rm -rf "$W"\' EXIT\nR=$(pwd)\ncd "$W" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$R" /opt/venv/bin/python -W ignore "$D/demo.py"\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        b = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        msg = 'demo %d/%d' % (a.returncode, b.returncode)
        if a.returncode: msg += '\n' + a.stdout.decode()[-800:]
        if '--no-tests' not in sys.argv:
            h = os.path.join(w, 'home', 'github'); os.makedirs(h); os.symlink(r, os.path.join(h, 'PyAnEn'))
            e = dict(os.environ, HOME=os.path.join(w, 'home'), TMPDIR=w, PYTHONPATH=r)
            subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'junit_family=xunit2', '--junitxml=' + w + '/j.xml', 'tests'], cwd=r, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            ok = {c.get('classname') + '::' + c.get('name') for c in ET.parse(w + '/j.xml').iter('testcase') if len(c) == 0 or all(x.tag not in ('failure', 'error', 'skipped') for x in c)}
            st = json.load(open('/opt/vp/BASELINE.json'))['stable']
            msg += ' tests missing %s' % [x for x in st if x not in ok]
        print(s['id'], msg, flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
