# The simulated disk: files live in the run's scratch directory; everything the
# library does with them goes through here and can fail, change or stop.
import os, errno, io
import __builtin__
import java.lang.Thread, java.io.OutputStream, java.io.InputStream, java.io.FileOutputStream, java.io.FileInputStream
from org.python.core.util import FileUtil
import core
from core import PlanInvalid

ERRNO = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES, 'ENOENT': errno.ENOENT, 'EMFILE': errno.EMFILE,
         'EDQUOT': 122, 'EISDIR': errno.EISDIR, 'EINTR': errno.EINTR}

_open, _file, _ioopen, _stat, _fsync = __builtin__.open, __builtin__.file, io.open, os.stat, getattr(os, 'fsync', None)


class Crash(BaseException):
    """the machine stops here"""


class Out(java.io.OutputStream):
    """what is written to one open file; reaches the disk up to the octet at which the disk fails"""

    def __init__(self, disk, path, append):
        self.disk, self.path = disk, path
        self.f = java.io.FileOutputStream(path, append)
        self.n = 0
        self.isopen = True
        disk.outs.append(self)

    def write(self, *a):
        if self.dead is not None:
            self.disk.raise_(self.dead)
        if len(a) == 1 and isinstance(a[0], (int, long)):
            data = chr(a[0] & 0xff)
        else:
            buf, off, ln = a if len(a) == 3 else (a[0], 0, len(a[0]))
            data = buf[off:off + ln].tostring()
        if self.disk.windows and self.text:
            data = data.replace('\n', '\r\n')
        f = self.disk.fault('write', self.path, self.n, len(data))
        if f is not None:
            k = max(0, min(len(data), f['at'] - self.n))
            if k:
                self.f.write(data[:k])
                self.n += k
            if f['err'] != 'interrupt':
                self.dead = f
            self.disk.raise_(f)
        if data:
            self.f.write(data)
            self.n += len(data)

    text = False
    dead = None           # the failure that goes on

    def flush(self):
        if not self.isopen:
            return
        f = self.dead or self.disk.fault('flush', self.path)
        if f is not None:
            if f['err'] != 'interrupt':
                self.dead = f
            self.disk.raise_(f)

    def close(self):
        if not self.isopen:
            return
        self.isopen = False
        if self.dead is not None:
            # Jython drops the error of the flush that closing begins with, and so does this disk
            self.f.close()
            return
        f = self.disk.fault('close', self.path)
        if f is not None and self.n and not f.get('kept'):
            # written behind: what was accepted never got to the disk
            self.f.getChannel().truncate(self.n // 2)
        self.f.close()
        if f is not None:
            self.disk.raise_(f)


class In(java.io.InputStream):
    """one open file: a read sees what the file holds when reading begins"""

    def __init__(self, disk, path):
        self.disk, self.path = disk, path
        self.f = java.io.FileInputStream(path)
        self.d = None
        self.i = 0
        self.isopen = True

    text = False

    def load(self):
        if self.d is None:
            self.disk.event('read', self.path)
            out = []
            while True:
                b = self.f.read()
                if b < 0:
                    break
                out.append(chr(b))
            d = ''.join(out)
            if self.disk.windows and self.text:
                d = d.replace('\r\n', '\n').split('\x1a')[0]
            self.d = d
        return self.d

    def read(self, *a):
        d = self.load()
        if not a:
            n = 1
        else:
            buf = a[0]
            off, n = (a[1], a[2]) if len(a) == 3 else (0, len(buf))
        f = self.disk.fault('readat', self.path, self.i, max(0, min(n, len(d) - self.i)) + 1)
        if f is not None:
            self.disk.raise_(f)
        n = min(n, len(d) - self.i)
        if n <= 0:
            return -1
        if not a:
            self.i += 1
            return ord(d[self.i - 1])
        for k in range(n):
            b = ord(d[self.i + k])
            buf[off + k] = b - 256 if b > 127 else b
        self.i += n
        return n

    def available(self):
        return len(self.load()) - self.i

    def close(self):
        if not self.isopen:
            return
        self.isopen = False
        self.f.close()
        f = self.disk.fault('close', self.path)
        if f is not None:
            self.disk.raise_(f)


class SimDisk(object):
    """faults: [{'on': open|stat|read|readat|write|flush|close, 'name': base name or None, 'skip': n, 'at': octet,
    'err': errno name | 'crash', 'change': callable}]"""

    current = None

    def __init__(self, ctx, windows=False):
        self.ctx = ctx
        self.root = core.SCRATCH
        self.faults = []
        self.windows = windows
        self.fired = []
        self.outs = []
        self.handles = []     # (stream, file object): the collector closes none of them
        self.limit = None     # how many files the process may have open
        self.opened = 0
        SimDisk.current = self
        ctx.cleanup.append(self.off)

    def off(self):
        SimDisk.current = None
        self.kill()

    def kill(self):
        """what is still buffered in open files never gets to the disk"""
        for o in self.outs:
            o.isopen = False
            o.dead = dict(err='EIO')
            try:
                o.f.close()
            except Exception:
                pass
        self.outs = []

    def arm(self, faults):
        self.faults = [dict(f) for f in faults]
        self.fired = []

    def mine(self, path):
        return isinstance(path, basestring) and str(path).startswith(self.root)

    def event(self, on, path):
        f = self.fault(on, path)
        if f is not None:
            self.raise_(f)

    def closing(self):
        """is a file object being closed? An interruption waits until that is over"""
        for e in java.lang.Thread.currentThread().getStackTrace():
            c = e.getClassName()
            if e.getMethodName() in ('close', 'file_close') and (c.startswith('org.python.core.PyFile') or c.startswith('org.python.core.io')):
                return True
        return False

    def fault(self, on, path, pos=None, n=0):
        for f in self.faults:
            if f.get('done') or f['on'] != on or f.get('name') not in (None, os.path.basename(path)):
                continue
            if pos is not None and not pos <= f['at'] < pos + max(n, 1):
                continue
            if f.get('err') == 'interrupt' and self.closing():
                continue
            if f.get('skip'):
                f['skip'] -= 1
                continue
            if not f.get('always'):
                f['done'] = True
            what = 'change' if f.get('change') else f['err']
            self.fired.append((on, what))
            self.ctx.fault('disk_%s_%s' % (on, what))
            if f.get('change'):
                f['change']()
                continue
            return f
        return None

    def raise_(self, f):
        if f['err'] == 'crash':
            raise Crash('power lost')
        if f['err'] == 'interrupt':
            raise KeyboardInterrupt('simulated')
        raise IOError(ERRNO[f['err']], 'simulated ' + f['err'])

    def hand(self, s):
        o = FileUtil.wrap(s)
        self.handles.append((s, o))
        return o

    def left(self):
        """files that are open"""
        self.handles = [h for h in self.handles if h[0].isopen]
        return [os.path.basename(h[0].path) for h in self.handles]

    def open(self, path, mode='r', *a, **k):
        self.opened += 1
        if self.limit is not None and len(self.left()) >= self.limit:
            self.fired.append(('open', 'EMFILE'))
            self.ctx.fault('disk_out_of_descriptors')
            raise IOError(errno.EMFILE, 'simulated: too many open files')
        self.event('open', path)
        m = mode.replace('U', 'r')
        if m[:1] == 'r' and '+' not in m:
            if not os.path.isfile(path):
                return _open(path, mode)         # the usual error
            s = In(self, path)
            s.text = 'b' not in m
            return self.hand(s)
        if m[:1] in ('w', 'a') and '+' not in m:
            if os.path.isdir(path) or not os.path.isdir(os.path.dirname(path)):
                return _open(path, mode)
            s = Out(self, path, m[0] == 'a')
            s.text = 'b' not in m
            return self.hand(s)
        return _open(path, mode)

    def stat(self, path):
        self.event('stat', path)
        try:
            return _stat(path)
        except IOError, e:
            raise OSError(*e.args)


def install():
    def opener(orig):
        def open(path, *a, **k):
            d = SimDisk.current
            if d is None or not d.mine(path):
                return orig(path, *a, **k)
            return d.open(path, *a, **k)
        return open

    def stat(path):
        d = SimDisk.current
        if d is None or not d.mine(path):
            return _stat(path)
        try:
            return d.stat(path)
        except IOError, e:
            raise OSError(*e.args)

    __builtin__.open = opener(_open)

    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, _file)

        def __subclasscheck__(cls, o):
            return issubclass(o, _file)

    class file(object):
        __metaclass__ = Meta

        def __new__(cls, *a, **k):
            return opener(_file)(*a, **k)
    __builtin__.file = file
    io.open = opener(_ioopen)
    os.stat = stat
    if _fsync is not None:
        def fsync(fd):
            if SimDisk.current is None:
                return _fsync(fd)
        os.fsync = fsync
