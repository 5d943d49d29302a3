"""A stand-in for the `ray` module that completes tasks in a prescribed order.

Tasks run in this process, on copies of their arguments (as in another process), with the settings
the pool was started with, arrays read-only as ray hands them out.  Anything this stand-in does not
offer is noted in UNSUPPORTED, and the caller falls back on the real ray."""
import os
import pickle
import sys
import types

import numpy as np

UNSUPPORTED = []


class TaskError(Exception):
    pass


class _State:
    def __init__(self): self.clear()

    def clear(self):
        self.up, self.env, self.tasks, self.starts, self.order, self.fail, self.ran = False, None, [], 0, [], None, []
        self.straggle = False
        self.inits = []


S = _State()


def plan(order=(), fail=None, straggle=False):
    """order: task numbers (from 0) in completion order; fail: number of the task that fails."""
    S.clear()
    S.order, S.fail, S.straggle = list(order), fail, straggle


def _freeze(x, depth=0):
    if isinstance(x, np.ndarray): x.flags.writeable = False
    elif isinstance(x, dict):
        for v in dict.values(x): _freeze(v, depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x: _freeze(v, depth + 1)
    elif depth < 3 and hasattr(x, '__dict__'):
        for v in vars(x).values(): _freeze(v, depth + 1)


class ObjectRef:
    def __init__(self, blob=None, task=None): self.blob, self.task = blob, task
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o


class _Task:
    def __init__(self, n, fn, args, kw):
        self.n, self.fn, self.blob, self.done, self.err, self.val = n, fn, (args, kw), False, None, None


def _need():
    if not S.up: raise RuntimeError('ray is not initialized')


def _fetch(x):
    if isinstance(x, ObjectRef):
        if x.task is not None:
            while not x.task.done: _advance(x.task)
            if x.task.err is not None: raise x.task.err
            y = pickle.loads(x.task.val)
        else: y = pickle.loads(x.blob)
        _freeze(y)
        return y
    return x


def _run(t):
    args, kw = t.blob
    keep = dict(os.environ)
    S.ran.append(t.n)
    try:
        if S.fail is not None and t.n == S.fail: raise TaskError('evaluation %d failed' % t.n)
        a = [_fetch(x) for x in args]
        k = {n: _fetch(x) for n, x in kw.items()}
        a, k = pickle.loads(pickle.dumps((a, k)))
        _freeze(a); _freeze(k)
        os.environ.clear(); os.environ.update(S.env)
        t.val = pickle.dumps(t.fn(*a, **k))
    except Exception as ex:
        t.err = ex
    finally:
        os.environ.clear(); os.environ.update(keep)
        t.done = True


def _advance(want=None):
    """The next task of the plan finishes; without a plan entry, the oldest."""
    while S.order:
        n = S.order[0]
        if n >= len(S.tasks): break
        S.order.pop(0)
        if not S.tasks[n].done:
            _run(S.tasks[n]); return
    for t in S.tasks:
        if not t.done:
            _run(t); return


def init(*a, **kw):
    if S.up and not kw.get('ignore_reinit_error'):
        raise RuntimeError('Maybe you called ray.init twice by accident?')
    S.up, S.env, S.tasks = True, dict(os.environ), []
    S.starts += 1
    S.inits.append(kw.get('num_cpus', a[1] if len(a) > 1 else None))
    return types.SimpleNamespace()


def shutdown(*a, **kw):
    if S.up and S.straggle:
        while any(not t.done for t in S.tasks): _advance()
    S.up, S.tasks = False, []


def is_initialized(): return S.up


def put(x):
    _need()
    return ObjectRef(blob=pickle.dumps(x))


class RemoteFunction:
    def __init__(self, fn): self.fn = fn

    def remote(self, *a, **kw):
        if not S.up: init()
        t = _Task(len(S.tasks), self.fn, a, kw)
        S.tasks.append(t)
        return ObjectRef(task=t)

    def options(self, **kw): return self
    def __call__(self, *a, **kw): raise TypeError('Remote functions cannot be called directly')


def remote(*a, **kw):
    if len(a) == 1 and not kw and callable(a[0]):
        if isinstance(a[0], type):
            UNSUPPORTED.append('actors')
            raise NotImplementedError('stand-in: actors')
        return RemoteFunction(a[0])
    return lambda fn: RemoteFunction(fn)


def get(x, timeout=None):
    _need()
    if isinstance(x, (list, tuple)): return [_fetch(r) for r in x]
    return _fetch(x)


def wait(refs, num_returns=1, timeout=None, fetch_local=True):
    _need()
    refs = list(refs)
    if timeout is None:
        while sum(r.task.done for r in refs if r.task) + sum(r.task is None for r in refs) < min(num_returns, len(refs)): _advance()
    elif timeout == 0 or timeout:
        _advance()
    ran = {n: i for i, n in enumerate(S.ran)}
    ready = sorted([r for r in refs if r.task is None or r.task.done], key=lambda r: -1 if r.task is None else ran[r.task.n])[:num_returns]
    return ready, [r for r in refs if r not in ready]


def cancel(*a, **kw): pass


def available_resources(): return {'CPU': 8.0}
def cluster_resources(): return {'CPU': 8.0}


def install():
    m = types.ModuleType('ray')
    for k in ('init', 'shutdown', 'is_initialized', 'put', 'get', 'wait', 'remote', 'cancel', 'ObjectRef', 'available_resources', 'cluster_resources'):
        setattr(m, k, globals()[k])
    ex = types.ModuleType('ray.exceptions')
    ex.RayError = ex.RayTaskError = TaskError
    m.exceptions = ex

    def missing(name):
        if not name.startswith('__'): UNSUPPORTED.append(name)
        raise AttributeError('stand-in ray has no ' + name)
    m.__getattr__ = missing
    m.__path__ = []
    sys.modules['ray'], sys.modules['ray.exceptions'] = m, ex
    return m
