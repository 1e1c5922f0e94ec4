"""The simulator: one seeded world per run.

A run is a pure function of (plan, code).  The plan is plain JSON: workload, schedule and faults.
The world owns randomness, the clock, the baton scheduler, the event log and the fault plan.
"""
import collections
import hashlib
import random
import sys
import threading

import numpy as np

from . import boot


class Killed(BaseException):
    """Unwinds a simulated thread when the world ends or its process crashes."""


class HarnessError(BaseException):
    """The simulator itself cannot go on: never a verdict about the code under test."""


class Deadlock(Exception):
    """No simulated thread can ever run again: a liveness violation."""


class StepLimit(Exception):
    """The run exceeded its bound of scheduler steps."""


class ProcessCrash(BaseException):
    """The simulated process dies here; only durable state survives."""


_current = None
RECORD = False            # keep executed op orders (minimiser)


def current():
    return _current


def h64(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


class Task(object):
    def __init__(self, baton, name, fn):
        self.baton, self.name, self.fn = baton, name, fn
        self.sem = threading.Semaphore(0)
        self.pred, self.deadline = None, None
        self.done, self.killed = False, False
        self.exc = None
        self.thread = None
        self.timed_out = False
        self.atomic = False       # runs to its end (or next wait) without being preempted


class Baton(object):
    """Real threads, parked; exactly one holds the baton.  Every hand-over is decided by the schedule.

    Schedule spec ('threads' in the plan):
      {'mode': 'rand', 'p': switch probability, 'seed': n, 'bias': {name: weight}}
      {'mode': 'dev', 'dev': {switch_point: task_index}}     (sparse deviations from 'stay')
    """

    def __init__(self, sim, spec, limit=400000):
        self.sim, self.spec = sim, spec or {'mode': 'dev', 'dev': {}}
        self.rng = random.Random(h64('baton', self.spec.get('seed', 0)))
        self.main = Task(self, 'main', None)
        self.tasks = [self.main]
        self.cur = self.main
        self.points = 0
        self.switches = 0
        self.deviations = {}
        self.limit = limit
        self.ending = False
        self.held = 0             # >0: no hand-over (the caller is in code no other thread may enter)
        self.fatal = None
        self.by_ident = {threading.get_ident(): self.main}

    # -- task side -------------------------------------------------------------------------------
    def spawn(self, name, fn):
        t = Task(self, name, fn)

        def body():
            t.sem.acquire()
            self.by_ident[threading.get_ident()] = t
            try:
                if not t.killed:
                    self.sim.trace_thread()
                    fn()
            except Killed:
                pass
            except BaseException as e:     # noqa: B902 - kept for the joiner
                t.exc = e
            finally:
                sys.settrace(None)
                t.done = True
                self.by_ident.pop(threading.get_ident(), None)
                self._leave(t)
        t.thread = threading.Thread(target=body, name='sim-' + name, daemon=True)
        t.thread.start()
        self.tasks.append(t)
        self.sim.log('spawn', name)
        return t

    def mine(self):
        """True when the calling thread is the simulated thread that holds the baton."""
        return self.by_ident.get(threading.get_ident()) is self.cur

    def _ready(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.pred is None or t.pred():
                out.append(t)
        return out

    def _pick(self, me):
        """Choose the next task to run; advances the clock when everybody waits."""
        while True:
            ready = self._ready()
            if ready:
                break
            timed = [t for t in self.tasks if not t.done and t.deadline is not None]
            if not timed:
                return None
            t = min(timed, key=lambda x: (x.deadline, self.tasks.index(x)))
            self.sim.now = max(self.sim.now, t.deadline)
            t.timed_out = True
            t.pred = None
            t.deadline = None
        self.points += 1
        if self.points > self.limit:
            self.fatal = StepLimit('more than %d scheduling points' % self.limit)
            return None
        stay = me if me in ready else ready[0]
        if len(ready) == 1:
            return stay
        if self.spec['mode'] == 'dev':
            d = self.spec['dev'].get(str(self.points))
            if d is not None:
                self.deviations[str(self.points)] = d
                return ready[d % len(ready)]
            return stay
        if self.rng.random() < self.spec.get('p', 0.5):
            bias = self.spec.get('bias') or {}
            w = [bias.get(t.name.split('#')[0], 1.0) for t in ready]
            i = self.rng.choices(range(len(ready)), w)[0]
            if ready[i] is not stay:
                self.deviations[str(self.points)] = i
            return ready[i]
        return stay

    def _switch(self, me):
        nxt = self._pick(me)
        if nxt is None:
            self.fatal = self.fatal or Deadlock('deadlock: every simulated thread waits for ever (%s)' %
                                  ', '.join(t.name for t in self.tasks if not t.done))
            nxt = self.main
            nxt.pred = None
        if nxt is not me:
            self.switches += 1
            self.sim.log('run', nxt.name)
            self.cur = nxt
            nxt.pred, nxt.deadline = None, None
            nxt.sem.release()
            me.sem.acquire()
        else:
            me.pred, me.deadline = None, None
        if me.killed:
            raise Killed()
        if me is self.main and self.fatal is not None:
            f, self.fatal = self.fatal, None
            raise f

    def point(self, tag=None):
        if self.ending or self.held:
            return
        me = self.by_ident.get(threading.get_ident())
        if me is None or me is not self.cur:
            return
        if self.sim.fault('crash'):
            self.crash()
        if len(self.tasks) > 1 and not me.atomic:
            self._switch(me)

    def crash(self):
        """The simulated process dies at this instant, whoever holds the baton."""
        w = self.sim
        w.log('CRASH')
        w.crashed = True
        w.disk.crash(w.rng('crash'))
        me = self.by_ident.get(threading.get_ident())
        self.ending = True
        if me is self.main:
            raise ProcessCrash()
        self.fatal = ProcessCrash()
        self.cur = self.main
        self.main.sem.release()
        me.sem.acquire()
        raise Killed()

    def wait(self, pred, timeout=None):
        """Block the calling task until pred() holds (or the simulated timeout passes)."""
        if self.ending:
            if pred():
                return True
            raise Killed()
        me = self.by_ident[threading.get_ident()]
        me.timed_out = False
        me.pred = pred
        me.deadline = None if timeout is None else self.sim.now + timeout
        self._switch(me)
        return not me.timed_out

    def _leave(self, me):
        """The task has finished: hand the baton on."""
        if self.ending:
            return
        if self.cur is not me:
            return
        nxt = self._pick(me)
        if nxt is None:
            self.fatal = self.fatal or Deadlock('deadlock after a thread ended')
            nxt = self.main
        self.cur = nxt
        self.sim.log('end', me.name)
        nxt.pred, nxt.deadline = None, None
        nxt.sem.release()

    def join(self, task, timeout=None):
        self.wait(lambda: task.done, timeout)

    def shutdown(self):
        """End of the world (or crash): unwind every remaining simulated thread, one by one."""
        self.ending = True
        for t in self.tasks:
            if t is self.main or t.done:
                continue
            t.killed = True
            self.cur = t
            t.sem.release()
            t.thread.join(20)
            if t.thread.is_alive():
                raise RuntimeError('simulated thread %s did not unwind' % t.name)
        self.cur = self.main


class World(object):
    """Everything one simulated run owns."""

    def __init__(self, plan):
        self.plan = plan
        self.seed = plan.get('seed', 0)
        self.now = 1000.0
        self.baton = Baton(self, plan.get('threads'))
        self.events = 0
        self.digest = hashlib.sha256()
        self.tail = collections.deque(maxlen=60)
        self.count = collections.Counter()       # faults fired, probes, ops, ...
        self.faults = [dict(f) for f in plan.get('faults', [])]
        self.armed = True
        self.sessions = []
        self.draws = []
        self.orders = set()                      # distinct interleavings (hashes of op orders)
        self.recorded = {}                       # run index -> order spec actually used
        self.client = 'main'
        self.clients = {}                        # thread ident -> client tag
        self.train_no = collections.Counter()
        self.observers = []
        self.runs = 0
        self.lines = 0
        self.line_at = None
        self.trace_on = False
        self.stdout = None
        self.crashed = False
        self.harness_error = None
        self.writer_threads = []
        from . import disk
        self.disk = disk.SummaryDisk(self)
        self.fs = disk.Files(self)
        from . import graph
        self.sched = graph.OpScheduler(self, plan.get('ops'))

    # -- log: never draws randomness, never reads a real clock ---------------------------------------
    def log(self, *ev):
        self.events += 1
        self.digest.update(repr((self.events, round(self.now, 6)) + ev).encode())
        self.tail.append('%.4f %s' % (self.now, ' '.join(str(e) for e in ev)))

    def rng(self, *key):
        return random.Random(h64(self.seed, *key))

    # -- clients -------------------------------------------------------------------------------------
    def who(self):
        return self.clients.get(threading.get_ident(), 'main')

    def as_client(self, tag):
        self.clients[threading.get_ident()] = tag

    # -- faults ----------------------------------------------------------------------------------------
    def fault(self, kind, **match):
        """Return the armed fault of this kind whose 'at' equals the running count of this kind, if any."""
        key = ('n', kind)
        self.count[key] += 1
        if not self.armed:
            return None
        n = self.count[key]
        for f in self.faults:
            if f['kind'] == kind and f['at'] == n and not f.get('fired') and \
                    all(f.get(k, v) == v for k, v in match.items()):
                f['fired'] = True
                self.count[('fault', kind)] += 1
                self.log('FAULT', kind, n)
                return f
        return None

    def probe(self, name):
        self.count[('probe', name)] += 1

    # -- the user interrupts: delivered where the library calls out --------------------------------------
    def interrupt(self, where):
        if self.fault('interrupt') is not None:
            self.log('interrupted', where)
            e = KeyboardInterrupt('simulated interrupt')
            e.simulated = True
            raise e

    # -- preemption of library code at a line -----------------------------------------------------------
    def trace_thread(self):
        if self.trace_on:
            sys.settrace(self._trace)

    def start_trace(self):
        self.trace_on = True
        sys.settrace(self._trace)

    def stop_trace(self):
        self.trace_on = False
        sys.settrace(None)

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(boot.REPO) and '/tensorD/' in fn:
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event != 'line':
            return self._line
        if self.plan.get('preempt_lines') and self.baton.mine():
            self.count[('n', 'preempt')] += 1
            if self.count[('n', 'preempt')] % self.plan['preempt_lines'] == 0:
                self.baton.point('line')
        return self._line

    # -- lifetime --------------------------------------------------------------------------------------
    def __enter__(self):
        global _current
        if _current is not None:
            raise RuntimeError('nested worlds')
        _current = self
        self.stdout = sys.stdout
        sys.stdout = Sink(self)
        self.np_state = np.random.get_state()
        self.py_state = random.getstate()
        np.random.seed(h64(self.seed, 'np') % (2 ** 32))
        random.seed(h64(self.seed, 'py'))
        self.fs.install()
        return self

    def __exit__(self, *exc):
        global _current
        self.stop_trace()
        try:
            self.baton.shutdown()
        finally:
            self.fs.uninstall()
            sys.stdout = self.stdout
            np.random.set_state(self.np_state)
            random.setstate(self.py_state)
            for s in self.sessions:
                s.sim_forget()
            _current = None
        if self.harness_error is not None and (exc[0] is None or not issubclass(exc[0], HarnessError)):
            raise self.harness_error
        return False


class Sink(object):
    """Standard output of the simulated process."""

    def __init__(self, world):
        self.world = world
        self.lines = []
        self.buf = ''

    def write(self, s):
        if s == '\n' or s.endswith('\n'):
            self.world.interrupt('print')
            if self.world.fault('stdout'):
                raise BrokenPipeError(32, 'simulated broken pipe')
        self.buf += s
        if '\n' in self.buf:
            self.lines.append(self.buf.rstrip('\n'))
            self.buf = ''
            self.world.baton.point('print')
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False
