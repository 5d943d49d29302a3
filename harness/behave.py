"""Behaviours of a model of the specification, for replay in the real code."""
import json
import re
import run as RUN


def behaviours(module, cfg, extra=(), timeout=300, workers=2):
    rc, out, gen, dis = RUN.tlc(module, cfg + '.cfg', workers=workers, extra=extra, timeout=timeout)
    res = []
    for m in re.finditer(r'^"BEH (.*)"$', out, re.M):
        res.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
    if not res: raise RuntimeError('no behaviours from %s %s: %s' % (module, cfg, out[-1500:]))
    res.sort(key=json.dumps)
    uniq = []
    for b in res:
        if not uniq or uniq[-1] != b: uniq.append(b)
    return uniq


def sample(beh, n, rng):
    if len(beh) <= n: return list(beh)
    return [beh[i] for i in sorted(rng.choice(len(beh), n, replace=False))]
