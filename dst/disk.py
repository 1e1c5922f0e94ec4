"""Simulated storage: the event-file disk under the summary writer, and files under open()."""
import builtins
import errno
import io
import os
import shutil
import tempfile
import threading

from . import graph, sim


class SummaryDisk(object):
    """What the native events writer writes to: per file a durable part and a buffered part."""

    def __init__(self, world):
        self.w = world
        self.files = []           # in creation order
        self.dirs = []
        self.writers = []
        self.frozen = False

    def crash(self, rng):
        """The process dies: every buffered tail survives only as some prefix, its last record perhaps torn."""
        self.frozen = True
        for f in self.files:
            k = rng.randint(0, len(f.buffered))
            f.durable.extend(f.buffered[:k])
            f.torn = k < len(f.buffered) and rng.random() < 0.5
            f.buffered = []

    def under(self, path):
        path = os.path.normpath(str(path))
        return [f for f in self.files if os.path.dirname(os.path.normpath(f.name)) == path]


class EventFile(object):
    def __init__(self, name):
        self.name = name
        self.owner = None
        self.durable, self.buffered = [], []
        self.torn = False
        self.open = True


class SimEventsWriter(object):
    """Native EventsWriter: lazily created file, buffered records, Flush makes them durable."""
    serial = 0

    def __init__(self, prefix):
        self.w = sim.current()
        self.prefix = prefix.decode() if isinstance(prefix, bytes) else str(prefix)
        self.suffix = ''
        self.file = None
        self.closed = False
        self.outstanding = 0
        self.owner = None
        if self.w is not None:
            self.owner = self.w.who()
            self.w.disk.writers.append(self)

    def InitWithSuffix(self, suffix):
        self.suffix = suffix.decode() if isinstance(suffix, bytes) else suffix

    def FileName(self):
        self._init()
        return self.file.name.encode()

    def _init(self):
        if self.file is None:
            n = len(self.w.disk.files)
            if self.w.fault('disk_create'):
                raise OSError(errno.EACCES, 'simulated: cannot create event file')
            self.file = EventFile('%s.out.tfevents.%010d.sim.%d%s' % (self.prefix, int(self.w.now), n, self.suffix))
            self.file.owner = self.owner
            self.w.disk.files.append(self.file)
            self.w.log('evcreate', n)

    def WriteEvent(self, ev):
        self._write(ev.SerializeToString())

    def _WriteSerializedEvent(self, b):
        self._write(b)

    def _write(self, data):
        self.w.baton.point('disk')
        if self.w.disk.frozen:
            return
        self.w.fault('disk_slow') and self._stall()
        try:
            self._init()
        except OSError:
            return                          # the native writer logs and drops the event
        self.outstanding += 1
        self.file.buffered.append(data)
        self.w.count['records'] += 1
        self.w.log('write', len(data))
        if self.w.fault('crash_write'):
            self.w.baton.crash()

    def _stall(self):
        self.w.probe('disk-stall')
        t = self.w.now + 200.0
        self.w.baton.wait(lambda: False, 200.0)
        self.w.now = max(self.w.now, t)

    def Flush(self):
        self.w.baton.point('flush')
        if self.outstanding == 0 or self.w.disk.frozen:
            return
        f = self.w.fault('disk_error')
        if f is not None:
            # a failing flush may have written some of the records
            k = int(f.get('frac', 0.0) * len(self.file.buffered))
            self.file.durable.extend(self.file.buffered[:k])
            del self.file.buffered[:k]
            self.file.torn = True
            # TensorFlow's dying writer thread sets flush_complete before it closes its queue; a caller whose
            # flush() falls between the two waits for ever.  That is TensorFlow's race, not TensorD's: the
            # thread dies in one piece here.
            me = self.w.baton.by_ident.get(threading.get_ident())
            if me is not None and me is not self.w.baton.main and me.name.startswith('writer'):
                me.atomic = True
            cls = graph._T['errors'].ResourceExhaustedError if f.get('err', 'ENOSPC') == 'ENOSPC' \
                else graph._T['errors'].UnknownError
            raise cls(None, None, 'simulated %s' % f.get('err', 'ENOSPC'))
        if self.w.fault('crash_flush'):
            self.w.baton.crash()
        if not self.w.disk.frozen and not self.file.torn:
            self.file.durable.extend(self.file.buffered)
            self.file.buffered = []
        self.outstanding = 0
        self.w.log('flush', len(self.file.durable))

    def Close(self):
        try:
            self.Flush()
        finally:
            if self.file is not None:
                self.file.open = False
                self.file = None
            self.closed = True
            self.w.log('evclose')


class SimRaw(io.FileIO):
    """A raw file over a real scratch file with short transfers and errors decided by the fault plan."""

    def __init__(self, path, mode, w, shown):
        io.FileIO.__init__(self, path, mode)
        self.w = w
        self.shown = shown
        self.chunks = w.rng('chunk', shown, len(w.fs.raws)) if w.plan.get('short_io') else None
        self.seen = 0
        w.fs.raws.append(self)

    def readinto(self, b):
        self.w.baton.point('read')
        f = self.w.fault('read_error')
        if f is not None:
            raise OSError(getattr(errno, f.get('err', 'EIO')), 'simulated read error')
        n = len(b)
        if self.chunks is not None and n > 1:
            n = self.chunks.choice([1, 1, 2, 3, 7, n])
            n = min(n, len(b))
            if n < len(b):
                self.w.count[('fault', 'short_read')] += 1
        mv = memoryview(b)[:n]
        k = io.FileIO.readinto(self, mv)
        self.seen += k or 0
        self.w.log('read', k)
        return k

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        out = []
        while True:
            buf = bytearray(4096)
            n = self.readinto(buf)
            if not n:
                return b''.join(out)
            out.append(bytes(buf[:n]))

    def write(self, b):
        self.w.baton.point('fwrite')
        self.w.interrupt('fwrite')
        f = self.w.fault('write_error')
        if f is not None:
            k = int(f.get('frac', 0.0) * len(b))
            if k:
                io.FileIO.write(self, bytes(b)[:k])
            raise OSError(getattr(errno, f.get('err', 'ENOSPC')), 'simulated write error')
        data = bytes(b)
        if self.chunks is not None and len(data) > 1:
            n = self.chunks.choice([1, 2, len(data) // 2, len(data), len(data)])
            data = data[:max(1, n)]
            if len(data) < len(b):
                self.w.count[('fault', 'short_write')] += 1
        k = io.FileIO.write(self, data)
        self.w.log('fwrite', k)
        return k

    def close(self):
        if not self.closed:
            self.w.log('fclose', self.shown)
        io.FileIO.close(self)


class Files(object):
    """open() seam: everything below the run's scratch directory goes through SimRaw."""

    def __init__(self, world):
        self.w = world
        self.dir = None
        self.raws = []

    def install(self):
        self.real_open = builtins.open
        self.real_io_open = io.open
        builtins.open = self.open
        io.open = self.open

    def uninstall(self):
        builtins.open = self.real_open
        io.open = self.real_io_open
        for r in self.raws:
            try:
                io.FileIO.close(r)
            except Exception:
                pass
        self.raws = []
        if self.dir:
            os.chdir('/')
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def scratch(self):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix='dst-')
            os.chdir(self.dir)
        return self.dir

    def put(self, name, data):
        p = os.path.join(self.scratch(), name)
        with self.real_open(p, 'wb') as f:
            f.write(data)
        return p

    def inside(self, path):
        """Where a file of the machine's own paths is kept: nothing is ever written outside the scratch directory."""
        return os.path.join(self.dir, 'root', path.lstrip('/'))

    def put_inside(self, path, data):
        """A file the code under test finds at a path of the machine's own."""
        self.scratch()
        p = self.inside(path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with self.real_open(p, 'wb') as f:
            f.write(data)

    def get(self, name):
        p = self.inside(name) if name.startswith('/') else os.path.join(self.scratch(), name)
        if not os.path.exists(p):
            return None
        with self.real_open(p, 'rb') as f:
            return f.read()

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if self.dir is None or isinstance(file, int) or opener is not None:
            return self.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        p = os.path.abspath(os.fspath(file))
        if isinstance(p, bytes):
            p = p.decode()
        if not p.startswith(self.dir + os.sep):
            writes = any(c in mode for c in 'wax+') and not p.startswith('/dev/')
            if not writes and not os.path.exists(self.inside(p)):
                return self.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            p = self.inside(p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
        w = self.w
        shown = p[len(self.dir) + 1:]
        w.log('open', shown, mode)
        w.interrupt('open')
        f = w.fault('open_error')
        if f is not None:
            raise OSError(getattr(errno, f.get('err', 'EMFILE')), 'simulated open error', shown)
        rawmode = mode.replace('b', '').replace('t', '').replace('U', '')
        raw = SimRaw(p, rawmode, w, shown)
        if 'b' in mode and buffering == 0:
            return raw
        size = 64 if w.plan.get('short_io') else io.DEFAULT_BUFFER_SIZE
        if '+' in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif rawmode.startswith('r'):
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if 'b' in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=(buffering == 1))
        text.mode = mode
        return text
