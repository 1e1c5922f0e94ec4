"""Seams under TensorFlow's real FileWriter: its thread, locks, clock, directory creation and native writer."""
import threading as _threading
import time as _time
import types

from . import disk, sim


class Event(object):
    def __init__(self):
        self._set = False

    def is_set(self):
        return self._set

    isSet = is_set

    def set(self):
        self._set = True
        _point('ev.set')

    def clear(self):
        self._set = False

    def wait(self, timeout=None):
        if not self._set:
            sim.current().baton.wait(lambda: self._set, timeout)
        return self._set


class Lock(object):
    def __init__(self):
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        _point('lock')
        if self._held:
            if not blocking:
                return False
            sim.current().baton.wait(lambda: not self._held)
        self._held = True
        return True

    def release(self):
        self._held = False

    def locked(self):
        return self._held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Condition(object):
    def __init__(self, lock=None):
        self._lock = lock or Lock()
        self._waiters = []

    def acquire(self, *a):
        return self._lock.acquire(*a)

    def release(self):
        self._lock.release()

    def __enter__(self):
        self._lock.acquire()
        return self

    def __exit__(self, *a):
        self._lock.release()

    def wait(self, timeout=None):
        tok = [False]
        self._waiters.append(tok)
        self._lock.release()
        ok = sim.current().baton.wait(lambda: tok[0] and not self._lock._held, timeout)
        if tok in self._waiters:
            self._waiters.remove(tok)
        self._lock.acquire()
        return ok

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout):
                return pred()
        return True

    def notify(self, n=1):
        for tok in self._waiters[:n]:
            tok[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))


def _point(tag):
    w = sim.current()
    if w is not None:
        w.baton.point(tag)


def install():
    from tensorflow.python.summary.writer import event_file_writer as efw
    real_gfile = efw.gfile
    real_pywrap = efw._pywrap_events_writer

    class Threading(types.ModuleType):
        def __getattr__(self, name):
            if sim.current() is not None:
                if name == 'Event':
                    return Event
                if name in ('Lock', 'RLock'):
                    return Lock
                if name == 'Condition':
                    return Condition
            return getattr(_threading, name)

    class Time(types.ModuleType):
        def __getattr__(self, name):
            w = sim.current()
            if w is not None:
                if name in ('time', 'monotonic', 'perf_counter'):
                    return lambda: w.now
                if name == 'sleep':
                    return lambda s: w.baton.wait(lambda: False, s)
            return getattr(_time, name)

    class GFile(types.ModuleType):
        def __getattr__(self, name):
            w = sim.current()
            if w is not None and name in ('MakeDirs', 'makedirs'):
                def make(path):
                    w.log('makedirs', 'd%d' % len(w.disk.dirs))
                    w.interrupt('mkdir')
                    if w.fault('mkdir_error'):
                        from . import graph
                        raise graph._T['errors'].PermissionDeniedError(None, None, 'simulated: mkdir')
                    w.disk.dirs.append(str(path))
                return make
            return getattr(real_gfile, name)

    class Pywrap(types.ModuleType):
        def __getattr__(self, name):
            if sim.current() is not None and name == 'EventsWriter':
                return disk.SimEventsWriter
            return getattr(real_pywrap, name)

    efw.threading = Threading('threading')
    efw.time = Time('time')
    efw.gfile = GFile('gfile')
    efw._pywrap_events_writer = Pywrap('_pywrap_events_writer')

    T = efw._EventLoggerThread
    real_start, real_join, real_alive = T.start, T.join, T.is_alive

    def start(self):
        w = sim.current()
        if w is None:
            return real_start(self)
        if w.fault('thread_error'):
            raise RuntimeError("can't start new thread (simulated)")
        n = sum(1 for t in w.baton.tasks if t.name.startswith('writer'))

        self._dst_task = w.baton.spawn('writer#%d' % n, self.run)
        w.writer_threads.append(self._dst_task)

    def join(self, timeout=None):
        w = sim.current()
        t = getattr(self, '_dst_task', None)
        if w is None or t is None:
            return real_join(self, timeout)
        w.baton.join(t, timeout)

    def is_alive(self):
        t = getattr(self, '_dst_task', None)
        return (not t.done) if t is not None else real_alive(self)

    T.start, T.join, T.is_alive = start, join, is_alive
