"""Deterministic thread scheduler: real threads, one runs at a time, and the plan decides at which executed line of
the code under test control passes to which thread (sys.monitoring LINE events; the other threads are parked)."""
import random
import sys
import threading

from .core import BUDGET, InjectedInterrupt


class Sched:
    TOOL = 4

    def __init__(self, ctx, seed, mean, lim, crash=None, focus=None):
        self.ctx, self.rng = ctx, random.Random(seed)
        self.mean, self.lim = mean, lim
        self.focus = focus            # only lines of this source file count towards the next switch
        self._in = {}
        self.crash = {int(k): v for k, v in (crash or {}).items()}
        self.sem, self.ident, self.done = [], {}, []
        self.lines = []
        self.switches = 0
        self.countdown = self.draw()
        self.errors = {}
        self.where = {}
        self.interrupted = set()

    def draw(self):
        if self.switches >= self.lim:
            return None
        return 1 + int(self.rng.expovariate(1.0 / self.mean))

    def _line(self, code, line):
        if not BUDGET.inside(code):
            return sys.monitoring.DISABLE
        k = self.ident.get(threading.get_ident())
        if k is None:
            return
        self.lines[k] += 1
        if self.crash.get(k) == self.lines[k]:
            self.ctx.fault('thread_interrupted')
            self.interrupted.add(k)
            self.ctx.log('interrupt', k, code.co_name, line)
            raise InjectedInterrupt('injected interrupt')
        if self.countdown is None:
            return
        if self.focus:
            hit = self._in.get(code)
            if hit is None:
                hit = self._in[code] = code.co_filename.endswith(self.focus)
            if not hit:
                return
        self.countdown -= 1
        if self.countdown <= 0:
            self.switch(k, code.co_name, line)

    def switch(self, k, name='-', line=0):
        live = [i for i in range(len(self.sem)) if i != k and not self.done[i]]
        self.countdown = self.draw()
        if not live:
            return
        self.switches += 1
        j = live[self.rng.randrange(len(live))]
        self.ctx.fault('preemption')
        self.ctx.state(name, self.where.get(j, '-'))
        self.where[k] = name
        self.ctx.log('switch', k, j, name, line)
        self.sem[j].release()
        self.sem[k].acquire()

    def yield_point(self, k):
        """A switch the plan may take between operations."""
        if self.countdown is not None and self.rng.random() < 0.3:
            self.switch(k)

    def run(self, fns):
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.lines = [0] * n
        out = [None] * n
        finished = threading.Semaphore(0)

        def body(k):
            self.ident[threading.get_ident()] = k
            self.sem[k].acquire()
            try:
                out[k] = fns[k]()
            except BaseException as e:
                self.errors[k] = e
            self.done[k] = True
            self.ident.pop(threading.get_ident(), None)
            live = [i for i in range(n) if not self.done[i]]
            if live:
                j = live[self.rng.randrange(len(live))]
                self.ctx.log('end', k, j)
                self.sem[j].release()
            else:
                finished.release()
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'dsim-sched')
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.set_events(self.TOOL, m.events.LINE)
        m.restart_events()
        try:
            ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
            for t in ts:
                t.start()
            self.sem[self.rng.randrange(n)].release()
            finished.acquire()
            for t in ts:
                t.join()
        finally:
            m.set_events(self.TOOL, 0)
            m.free_tool_id(self.TOOL)
        return out


class LineTrap:
    """Raises an injected error at the n-th line of the code under test that this thread executes while armed."""
    TOOL = 5

    def __init__(self):
        self.n = None
        self.count = 0
        self.exc = InjectedInterrupt
        self.fired = None
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'dsim-trap')
        m.register_callback(self.TOOL, m.events.LINE, self._line)

    def arm(self, n, exc=InjectedInterrupt):
        self.n, self.count, self.exc, self.fired = n, 0, exc, None
        sys.monitoring.restart_events()

    def on(self):
        if self.n is not None:
            sys.monitoring.set_events(self.TOOL, sys.monitoring.events.LINE)

    def off(self):
        sys.monitoring.set_events(self.TOOL, 0)

    def disarm(self):
        self.off()
        self.n = None

    def _line(self, code, line):
        if not BUDGET.inside(code):
            return sys.monitoring.DISABLE
        if self.n is None:
            return
        self.count += 1
        if self.count == self.n:
            self.n = None
            self.fired = '%s:%d' % (code.co_name, line)
            raise self.exc('injected')


def forked(fn):
    """fn() in a process of its own; its JSON-able result, or what went wrong."""
    import json
    import os
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            res = ['ok', fn()]
        except BaseException as e:
            res = ['error', type(e).__name__, str(e)]
        try:
            data = json.dumps(res)
        except Exception as e:
            data = json.dumps(['error', 'unserialisable', str(e)])
        with os.fdopen(wr, 'w') as f:
            f.write(data)
        os._exit(0)
    os.close(wr)
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s)
