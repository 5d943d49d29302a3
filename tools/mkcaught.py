"""mkcaught.py LOG: tools/caught.json from the output of tools/seeds.py."""
import json, re, sys
d = {}
for l in open(sys.argv[1]):
    w = l.split(None, 3)
    if len(w) < 3: continue
    m = re.search(r'job (\w+?)\d* clauses \{(.*?)\}', l)
    d[w[0]] = '%s, job `%s`: %s' % (w[1], m.group(1), m.group(2).replace('"', '')) if w[2] == 'CAUGHT' and m else w[2].lower() if w[2] != 'CAUGHT' else w[1]
json.dump(d, open('/verif/tools/caught.json', 'w'), indent=1)
print(len(d), [k for k in d if 'missed' in d[k]])
