# Simulator core (Jython 2.7): seeded choices, event log, the code under test
# as a restartable "process", step budgets and plan minimisation.
import sys, os, ast, imp, json, codecs, __builtin__, hashlib, time, traceback, random, mimetypes
import java.util.Random
import java.util.TimeZone
import java.lang.Throwable
import java.lang.Error
import java.lang.System
from org.python.core import PyException

import SimTrace

SRC = None            # directory holding a copy of the library sources
MARK = 'simsrc/messaging'
LINE_LIMIT = 3000000


class Violation(Exception):
    def __init__(self, kind, detail):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail


class PlanInvalid(Exception):
    pass


class Interrupt(BaseException):
    """An interruption from outside the library (not an Exception)."""


class Rng(object):
    """Every random choice of a run; java.util.Random's generator is fixed by its specification."""

    def __init__(self, *key):
        h = hashlib.sha1(':'.join([str(k) for k in key])).hexdigest()
        self._r = java.util.Random(int(h[:12], 16))

    def n(self, k):
        return self._r.nextInt(k)

    def between(self, a, b):
        return a + self._r.nextInt(b - a + 1)

    def chance(self, num, den=100):
        return self._r.nextInt(den) < num

    def choice(self, seq):
        return seq[self._r.nextInt(len(seq))]

    def weighted(self, pairs):
        t = sum([w for w, _ in pairs])
        x = self._r.nextInt(t)
        for w, v in pairs:
            if x < w:
                return v
            x -= w

    def loguniform(self, hi):
        """0..hi, small values much more often"""
        bits = 1
        while (1 << bits) < hi + 1:
            bits += 1
        v = self._r.nextInt(1 << (1 + self._r.nextInt(bits)))
        return v if v <= hi else self._r.nextInt(hi + 1)

    def bytes(self, k):
        return ''.join([chr(self._r.nextInt(256)) for _ in xrange(k)])

    def shuffle(self, l):
        for i in range(len(l) - 1, 0, -1):
            j = self._r.nextInt(i + 1)
            l[i], l[j] = l[j], l[i]
        return l

    def sample(self, seq, k):
        l = list(seq)
        self.shuffle(l)
        return l[:k]


# ---------------------------------------------------------------------------
# the code under test, as a process that can be started afresh

_code = {}


def _shield(src, fn):
    """no interruption at "try:" and while cleaning up (see SimTrace.shield)"""
    def block(stmts):
        for s in stmts:
            for n in ast.walk(s):
                if hasattr(n, 'lineno'):
                    SimTrace.shield(fn, n.lineno)

    for n in ast.walk(ast.parse(src)):
        if isinstance(n, (ast.TryFinally, ast.TryExcept)):
            SimTrace.shield(fn, n.lineno)
        if isinstance(n, ast.TryFinally):
            block(n.finalbody)
        elif isinstance(n, ast.TryExcept):
            for h in n.handlers:
                t = h.type
                if t is None or isinstance(t, ast.Name) and t.id == 'BaseException':
                    block(h.body)


class _Finder(object):
    def __init__(self):
        self.preloaded = {}

    def _path(self, name):
        p = os.path.join(SRC, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), p
        if os.path.isfile(p + '.py'):
            return p + '.py', None
        return None, None

    def find_module(self, name, path=None):
        if name != 'messaging' and not name.startswith('messaging.'):
            return None
        return self if self._path(name)[0] else None

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]
        fn, pkg = self._path(name)
        if fn is None:
            raise ImportError(name)
        code = _code.get(name)
        if code is None:
            f = open(fn, 'rb')
            src = f.read()
            f.close()
            src = src.replace('\r\n', '\n')
            code = _code[name] = compile(src, fn, 'exec', 0, True)
            _shield(src, fn)
        mod = imp.new_module(name)
        mod.__file__ = fn
        mod.__loader__ = self
        if pkg:
            mod.__path__ = [pkg]
            mod.__package__ = name
        else:
            mod.__package__ = name.rpartition('.')[0]
        mod.__simlib__ = Lib.current
        sys.modules[name] = mod
        try:
            exec code in mod.__dict__
        except:
            sys.modules.pop(name, None)
            raise
        return mod


def install_importer():
    sys.meta_path.insert(0, _Finder())
    real = __builtin__.__import__

    def imp_(name, *a, **k):
        # imports inside functions belong to the process whose code is running
        if a:
            lib = a[0].get('__simlib__') if isinstance(a[0], dict) or hasattr(a[0], 'get') else None
            if lib is not None and lib is not Lib.current:
                lib._activate()
        return real(name, *a, **k)
    __builtin__.__import__ = imp_


def _purge():
    for name in list(sys.modules):
        if name == 'messaging' or name.startswith('messaging.'):
            del sys.modules[name]


# Codecs that the library registers belong to the process that registered them,
# although the registry of the JVM is one for all and caches what it finds.

def _owner():
    """the simulated process whose code is running"""
    f = sys._getframe(1)
    for _ in range(12):
        if f is None:
            break
        lib = f.f_globals.get('__simlib__')
        if lib is not None:
            return lib
        f = f.f_back
    return Lib.current


def _find_codec(name):
    lib = _owner()
    for fn in (lib.codecs if lib is not None else ()):
        info = fn(name)
        if info is not None:
            return info
    return None


def _the_codec(name):
    info = _find_codec(name)
    if info is None:
        raise LookupError('unknown encoding: ' + name)
    return info


def _dispatch(name):
    info = _find_codec(name)
    if info is None:
        return None
    return codecs.CodecInfo(name=info.name, encode=lambda *a: _the_codec(name)[0](*a), decode=lambda *a: _the_codec(name)[1](*a),
                            incrementalencoder=info.incrementalencoder, incrementaldecoder=info.incrementaldecoder,
                            streamreader=info.streamreader, streamwriter=info.streamwriter)


def install_codecs():
    real = codecs.register

    def register(fn):
        lib = getattr(fn, 'func_globals', {}).get('__simlib__') or Lib.current
        if lib is None:
            return real(fn)
        lib.codecs.append(fn)
    codecs.register = register
    real(_dispatch)


class Lib(object):
    """The library's public entry points in one freshly started process.

    Modules are loaded at first use; two generations never share a module."""

    current = None

    _where = {
        'SmsSubmit': ('messaging.sms', 'SmsSubmit'),
        'SmsDeliver': ('messaging.sms', 'SmsDeliver'),
        'wap': ('messaging.sms.wap', None),
        'message': ('messaging.mms.message', None),
        'MMSMessage': ('messaging.mms.message', 'MMSMessage'),
        'MMSMessagePage': ('messaging.mms.message', 'MMSMessagePage'),
        'DataPart': ('messaging.mms.message', 'DataPart'),
        'MMSDecoder': ('messaging.mms.mms_pdu', 'MMSDecoder'),
        'MMSEncoder': ('messaging.mms.mms_pdu', 'MMSEncoder'),
        'wsp': ('messaging.mms.wsp_pdu', None),
        'PreviewIterator': ('messaging.mms.iterator', 'PreviewIterator'),
        'FixedOffset': ('messaging.utils', 'FixedOffset'),
    }

    def __init__(self):
        self._mods = {}
        self._have = {}
        self.codecs = []
        self._activate()

    def _activate(self):
        """several simulated processes live in one JVM; one at a time owns sys.modules"""
        cur = Lib.current
        if cur is self:
            return
        if cur is not None:
            cur._mods.clear()
            for name in list(sys.modules):
                if name == 'messaging' or name.startswith('messaging.'):
                    cur._mods[name] = sys.modules[name]
        _purge()
        sys.modules.update(self._mods)
        Lib.current = self

    def __getattr__(self, name):
        if name not in self._where:
            raise AttributeError(name)
        self._activate()
        if name in self._have:
            return self._have[name]
        mod, attr = self._where[name]
        __import__(mod)
        v = sys.modules[mod]
        if attr:
            v = getattr(v, attr)
        self._have[name] = v
        return v

    def load(self, *names):
        self._activate()
        for n in names:
            getattr(self, n)
        return self


# ---------------------------------------------------------------------------
# simulated locks: the library's threading primitives wait in simulated, not real, time

class SimLock(object):
    sched = None      # set while threads are simulated

    def __init__(self, reentrant=False):
        self._owner = None
        self._depth = 0
        self._re = reentrant

    def _who(self):
        s = SimLock.sched
        if s is None:
            return 'main'
        w = s.me()
        return 'main' if w is None else w

    def acquire(self, blocking=True, timeout=-1):
        me = self._who()
        while True:
            if self._owner is None or (self._re and self._owner == me):
                self._owner = me
                self._depth += 1
                return True
            if not blocking:
                return False
            s = SimLock.sched
            if s is None or me == 'main' or not s.block():
                raise Violation('deadlock', 'waiting for a lock that is never released')

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._depth -= 1
        if self._depth == 0:
            self._owner = None
            s = SimLock.sched
            if s is not None:
                s.unblockAll()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    _is_owned = locked


def install_locks():
    import threading, thread
    threading.Lock = lambda: SimLock()
    threading.RLock = lambda *a, **k: SimLock(True)
    thread.allocate_lock = staticmethod(lambda: SimLock())


# ---------------------------------------------------------------------------
# the clock: the code under test sees simulated time only

class Clock(object):
    now = 1000000000.0


def install_clock():
    loc, gm = time.localtime, time.gmtime
    time.time = staticmethod(lambda: Clock.now)
    time.localtime = staticmethod(lambda s=None: loc(Clock.now if s is None else s))
    time.gmtime = staticmethod(lambda s=None: gm(Clock.now if s is None else s))

    def sleep(s):
        Clock.now += s
    time.sleep = staticmethod(sleep)


def install_mimetypes():
    """the types of file names do not depend on the files of the host"""
    mimetypes.init([])


def wall():
    return java.lang.System.nanoTime() / 1e9


# ---------------------------------------------------------------------------

tracer = None
SCRATCH = None        # directory for the simulated disk


def exc_name(e):
    return getattr(type(e), '__name__', str(type(e)))


class Ctx(object):
    """One run: event log, statistics, step budget."""

    def __init__(self, plan):
        self.plan = plan
        self.events = []
        self.stats = {}
        self.faults = {}
        self.simtime = 0.0
        self.shape = []          # what makes a run distinct: order of events and fates
        self.calls = 0
        self._lib = None
        self._rx = None
        self.cleanup = []

    @property
    def lib(self):
        if self._lib is None:
            self._lib = Lib()
        return self._lib

    def restart(self):
        """the process under test dies and is started again: nothing in memory survives"""
        self._lib = None
        self.fault('process_restart')

    @property
    def rx(self):
        """the process at the receiving end"""
        if self._rx is None:
            self._rx = Lib()
        return self._rx

    def restart_rx(self):
        self._rx = None
        self.fault('process_restart')

    def log(self, *a):
        self.events.append(' '.join([x if isinstance(x, basestring) else repr(x) for x in a]))

    def stat(self, name, k=1):
        self.stats[name] = self.stats.get(name, 0) + k

    def fault(self, kind, k=1):
        self.faults[kind] = self.faults.get(kind, 0) + k

    def token(self, t):
        self.shape.append(str(t))

    def fail(self, kind, *detail):
        d = ' '.join([x if isinstance(x, basestring) else repr(x) for x in detail])
        self.log('VIOLATION', kind, d)
        raise Violation(kind, d)

    def check(self, cond, kind, *detail):
        if not cond:
            self.fail(kind, *detail)

    def call(self, fn, *a, **k):
        """Call into the library: ('ok', value) or ('exc', exception).  Bounded in steps."""
        self.calls += 1
        limit = k.pop('_limit', LINE_LIMIT)
        cancel = k.pop('_cancel', None)
        tracer.arm(limit)
        if cancel:
            tracer.cancel(cancel[0], cancel[1])
        tracer.install()
        try:
            try:
                r = fn(*a, **k)
            finally:
                tracer.uninstall()
            return ('ok', r)
        except Violation:
            raise
        except SimTrace.Budget, e:
            self.fail('hang', 'a call did not end within %d steps' % limit)
        except Exception, e:
            return ('exc', e)
        except java.lang.Throwable, e:
            if isinstance(e, SimTrace.Budget):
                self.fail('hang', 'a call did not end within %d steps' % limit)
            return ('exc', e)
        except BaseException, e:
            return ('exc', e)

    def must(self, kind, fn, *a, **k):
        """A call that has to succeed."""
        st, v = self.call(fn, *a, **k)
        if st != 'ok':
            self.fail(kind, 'raised %s: %s' % (exc_name(v), str_exc(v)))
        return v


def str_exc(e):
    try:
        return repr(getattr(e, 'args', e))[:300]
    except:
        return '?'


def where_of():
    tb = sys.exc_info()[2]
    names = [os.path.basename(f[0]) + ':' + f[2] for f in traceback.extract_tb(tb)]
    return ' > '.join(names[-4:])


def set_zone(name):
    java.util.TimeZone.setDefault(java.util.TimeZone.getTimeZone(name))


def run_plan(world, plan):
    """-> dict(kind, detail, digest, ctx) ; harness errors propagate as exceptions"""
    ctx = Ctx(plan)
    set_zone('UTC')
    Clock.now = 1000000000.0
    random.seed(int(hashlib.sha1(json.dumps(plan, sort_keys=True)).hexdigest()[:12], 16))
    SimLock.sched = None
    tracer.setSched(None)
    kind = detail = None
    try:
        try:
            world.run(plan, ctx)
        except Violation, v:
            kind, detail = v.kind, v.detail
            if not ctx.events or not ctx.events[-1].startswith('VIOLATION'):
                ctx.log('VIOLATION', kind, detail)
        except PlanInvalid:
            raise
        except Exception, e:
            # the world could not make sense of what the library gave it
            kind, detail = 'unusable', '%s at %s' % (traceback.format_exc().strip().split('\n')[-1][:300], where_of())
            ctx.log('VIOLATION', kind, detail)
    finally:
        tracer.uninstall()
        tracer.setSched(None)
        SimLock.sched = None
        set_zone('UTC')
        for f in ctx.cleanup:
            f()
    data = '\n'.join([e if isinstance(e, str) else e.encode('utf-8') for e in ctx.events])
    return dict(kind=kind, detail=detail, digest=hashlib.sha1(data).hexdigest(), ctx=ctx)


# ---------------------------------------------------------------------------
# minimisation: drop list elements, shorten strings, shrink numbers, drop optional keys

def _paths(node, path=()):
    yield path
    if isinstance(node, dict):
        for k in sorted(node):
            for p in _paths(node[k], path + (k,)):
                yield p
    elif isinstance(node, list):
        for i in range(len(node)):
            for p in _paths(node[i], path + (i,)):
                yield p


def _get(node, path):
    for k in path:
        node = node[k]
    return node


def _replace(node, path, val):
    if not path:
        return val
    if isinstance(node, dict):
        r = dict(node)
    else:
        r = list(node)
    r[path[0]] = _replace(node[path[0]], path[1:], val)
    return r


def _candidates(v):
    if isinstance(v, list):
        n = len(v)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                if n - len(v[i:i + size]) < n:
                    yield v[:i] + v[i + size:]
            size //= 2
    elif isinstance(v, basestring):
        n = len(v)
        if n:
            yield v[:0]
            yield v[:n // 2]
            yield v[n // 2:]
            if n <= 60:
                for i in range(n):
                    yield v[:i] + v[i + 1:]
            else:
                for q in range(8):
                    a, b = n * q // 8, n * (q + 1) // 8
                    yield v[:a] + v[b:]
                yield v[:-1]
                yield v[1:]
            simple = type(v)('a') * n
            if v != simple and not v.isdigit():
                yield simple
    elif isinstance(v, bool):
        if v:
            yield False
    elif isinstance(v, (int, long)):
        if v:
            yield 0
            if abs(v) > 1:
                yield v // 2
                yield v - 1 if v > 0 else v + 1
    elif isinstance(v, dict):
        for k in sorted(v):
            if v[k] is not None and k not in ('op', 'kind', 'v'):
                yield dict(v, **{str(k): None})


def site(kind, detail):
    """what makes two violations the same one while a plan gets smaller"""
    return (kind, detail.split(' at ')[-1] if kind == 'unusable' else '')


def shrink(world, plan, kind, detail, budget_s):
    end = wall() + budget_s
    tries = 0
    best = plan
    progress = True
    while progress and wall() < end:
        progress = False
        for path in list(_paths(best)):
            try:
                cur = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            again = True
            while again and wall() < end:
                again = False
                for c in _candidates(cur):
                    if wall() > end:
                        break
                    cand = _replace(best, path, c)
                    tries += 1
                    try:
                        r = run_plan(world, cand)
                    except Exception:
                        continue
                    except java.lang.Throwable:
                        continue
                    if r['kind'] == kind and site(kind, r['detail']) == site(kind, detail):
                        best = cand
                        cur = c
                        progress = again = True
                        break
    return best, tries
