"""Fills the tables of DESIGN.md (between the markers) from seeded/ and known-findings.json."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!--seeds-->', '| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
got = json.load(open(os.path.join(V, 'tools', 'caught.json'))) if os.path.exists(os.path.join(V, 'tools', 'caught.json')) else {}
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), got.get(i, '?')))
rows.append('<!--/seeds-->')
fx = ['<!--fixes-->'] + ['* ' + f[len('fixed: property='):] for f in json.load(open(os.path.join(V, 'known-findings.json')))['fixed']] + ['<!--/fixes-->']
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
for tag, marker, L in (('seeds', '@SEEDS@', rows), ('fixes', '@FIXES@', fx)):
    t = '\n'.join(L)
    s = s.replace(marker, t) if marker in s else re.sub('<!--%s-->.*?<!--/%s-->' % (tag, tag), lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
