"""Runs of the real code in processes of their own: killed at a chosen file operation or byte, made to
fail a write, or stepped one file operation at a time."""
import json
import os
import resource
import select
import signal
import sys
import threading

EVENTS = ('open', 'os.rename', 'os.remove', 'os.mkdir', 'os.rmdir', 'os.link', 'os.symlink', 'os.truncate', 'shutil.rmtree', 'shutil.move', 'os.listdir', 'os.scandir')

WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class Child:
    """fn(rec, ctl) runs in a forked process; its recorded events are appended to rec by finish()."""

    def __init__(self, rec, fn, under, kill_at=None, gate=False, trace=False, fail_at=None):
        self.rec, self.done, self.begun = rec, False, None
        r, w = os.pipe()
        gr, gw = os.pipe()      # go bytes to the child
        self.r, self.gw, self.buf, self.lines, self.status, self.count = r, gw, b'', [], None, 0
        sys.stdout.flush(); sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(r); os.close(gw)
                self._child(rec, fn, under, kill_at, gate, trace, fail_at, w, gr)
            except BaseException as ex:
                try: os.write(w, (json.dumps({'died': repr(ex)[:300]}) + '\n').encode())
                except Exception: pass
                code = 3
            os._exit(code)
        os.close(w); os.close(gr)

    def _child(self, rec, fn, under, kill_at, gate, trace, fail_at, w, gr):
        signal.alarm(0)
        me = os.getpid()
        import tqdm, tqdm.auto
        for c in (tqdm.tqdm, tqdm.auto.tqdm): c.set_lock(threading.RLock())    # its default lock is shared with the parent and would die with us
        null = os.open('/dev/null', os.O_WRONLY)
        os.dup2(null, 1); os.dup2(null, 2)
        count = [0]
        on, lines = [True], [False]
        main = threading.get_ident()

        def send(o): os.write(w, (json.dumps(o) + '\n').encode())

        def point(what):
            count[0] += 1
            if kill_at is not None and count[0] == kill_at: os.kill(me, signal.SIGKILL)
            if gate:
                on[0] = False
                send({'gate': what})
                if os.read(gr, 1) == b'': os._exit(4)
                on[0] = True

        # once something is written, every line until the end of the call is a point as well
        def tracer(fr, what, arg):
            if what == 'line' and on[0] and lines[0]: point('line')
            return tracer

        def hook(ev, args):
            if not on[0] or ev not in EVENTS or threading.get_ident() != main: return
            if not any(isinstance(a, str) and a.startswith(under) for a in args): return
            if ev in ('os.listdir', 'os.scandir') and not gate: return
            point(ev)
            if ev == 'open' and not (args[2] or 0) & WRITING: return
            if fail_at is not None and count[0] >= fail_at and not rec.failed:
                rec.failed = True
                raise OSError(28, 'No space left on device')
            if trace and not lines[0]:
                lines[0] = True
                fr = sys._getframe(1)
                while fr:
                    if fr.f_code is self._child.__func__.__code__: break
                    fr.f_trace = tracer
                    fr = fr.f_back
                sys.settrace(tracer)
        sys.addaudithook(hook)

        def untrace():
            sys.settrace(None)
            lines[0] = False

        def emit(**e):
            untrace()
            send({'event': e})
            return e
        rec.emit = emit
        rec.failed = False
        def begin(e):
            untrace()
            send({'begin': e, 'n': count[0]})
        rec.begin = begin
        fn(rec)
        send({'end': count[0]})

    # ---- parent side
    def _line(self):
        """Next line of the child, or None at its end."""
        while b'\n' not in self.buf:
            if not select.select([self.r], [], [], 120)[0]:
                os.kill(self.pid, signal.SIGKILL)
                raise RuntimeError('child process makes no progress: %s' % self.lines[-3:])
            x = os.read(self.r, 65536)
            if not x: return None
            self.buf += x
        l, self.buf = self.buf.split(b'\n', 1)
        return json.loads(l)

    def step(self):
        """Lets the child run to its next gate (the first call: to its first gate); False when it ended."""
        if self.done: return False
        if getattr(self, 'waiting', False):
            os.write(self.gw, b'g')
            self.waiting = False
        while True:
            l = self._line()
            if l is None:
                self._end(); return False
            if 'gate' in l:
                self.waiting = True
                return True
            self._take(l)

    def _take(self, l):
        if 'begin' in l: self.begun = l['begin']; self.lines.append(l)
        elif 'event' in l:
            if l['event'].get('a') == 'call': self.begun = None
            self.lines.append(l)
        else: self.lines.append(l)

    def _end(self):
        self.done = True
        os.close(self.r); os.close(self.gw)
        _, st = os.waitpid(self.pid, 0)
        self.status = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)

    def finish(self):
        while not self.done:
            if not self.step(): break
        return self

    def events(self): return [l['event'] for l in self.lines if 'event' in l]


def limit_bytes(n, kill):
    """Files cannot grow beyond n bytes: the process is killed, or the write fails."""
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))


def no_limit():
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
