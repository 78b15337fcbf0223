"""Environment seen by a harness.

The same harness code runs in two modes:
  symbolic  - inputs, clock readings, fault choices are solver variables; checks are solver queries
  concrete  - every input comes from a recorded assignment; the code under test is the plain, uninstrumented source
"""
from __future__ import annotations
import sys
import os
import json
import queue as _queue
import types
import datetime as _dt
import uuid as _uuid
from .core import (Engine, PathEnd, Infeasible, Violation, Unsupported, SymBool, SymInt, SymStr, SymDatetime, SChar,
                   ASCII_DOMAIN, FULL_DOMAIN, CharDomain, char_ranges, in_ranges, mkstr, mkdt, mktd, us_dt, dt_us,
                   is_sym, sym_and, sym_or, sym_not, sym_implies, sym_ite, evaluate, EPOCH, lift_bool, to_z3bool,
                   REAL_DATETIME, REAL_TIMEDELTA)
import z3

CURRENT = [None]        # active environment


def current():
    return CURRENT[0]


HARNESSES = {}          # (property, name) -> Harness


class Harness:
    def __init__(self, prop, name, fn, quick, thorough, covers, liveness):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.covers = covers
        self.liveness = liveness


def harness(prop, quick=({},), thorough=None, covers=(), liveness=True, name=None):
    """Register a harness for property `prop`; cases are keyword dicts.

    liveness: reaching the loop, call or schedule bound, or blocking for ever, counts as a violation.
    The unchanged code stays far below these bounds (`load` in the evidence: highest fraction used)."""
    def deco(fn):
        n = name or fn.__name__
        HARNESSES[(prop, n)] = Harness(prop, n, fn, list(quick), list(quick) if thorough is None else list(thorough),
                                       list(covers), liveness)
        return fn
    return deco


class CheckFailed(BaseException):
    """Concrete mode: an assertion failed."""
    def __init__(self, message, known=None):
        super().__init__(message)
        self.message = message
        self.known = known


class Crash(BaseException):
    """Simulated process death."""


class Deadlock(BaseException):
    pass


def jsonable(x):
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    if isinstance(x, REAL_DATETIME):
        return 'dt:' + (x.replace(tzinfo=None) if x.tzinfo is None else x.astimezone(_dt.timezone.utc)).isoformat()
    if isinstance(x, REAL_TIMEDELTA):
        return 'td:' + str(x.total_seconds())
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, bytes):
        return 'bytes:' + x.decode('latin1')
    if isinstance(x, (set, frozenset)):
        return sorted(jsonable(v) for v in x)
    return repr(x)


class BaseEnv:
    symbolic = False

    def __init__(self, scratch):
        self.scratch = scratch
        self.t = 10_000_000_000          # clock, microseconds since EPOCH
        self.clock_mode = 'step'
        self.clock_step = 1000
        self.clock_max = 20_000_000
        self.clock_free = 0              # remaining free readings
        self.uuid_n = 0
        self.calls = 0
        self.call_limit = 3000
        self.on_sleep = None
        self.on_popen = None
        self.sleeps = []
        self.covers = set()
        self.observations = []
        self.tracebacks = []
        self.patches = []
        self.sched = None
        self.mkdirs = False

    # -- budget ---------------------------------------------------------------
    def touch(self):
        self.calls += 1
        if self.calls > self.call_limit:
            raise PathEnd('environment call bound')

    def end(self, reason='end'):
        raise PathEnd(reason)

    # -- clock ------------------------------------------------------------------
    def now_us(self):
        self.touch()
        if self.clock_mode == 'free' and self.clock_free > 0:
            self.clock_free -= 1
            self.t = self.t + self.int('clock', 0, self.clock_max)
        elif self.clock_mode != 'fixed':
            self.t = self.t + self.clock_step
        return self.t

    def now(self, aware=False):
        return mkdt(self.now_us(), aware)

    def sleep(self, secs):
        self.touch()
        self.sleeps.append(secs)
        if self.on_sleep is not None:
            self.on_sleep(secs)
        us = secs * 1_000_000
        us = int(us) if isinstance(us, float) and not is_sym(us) else us
        if getattr(self.sched, 'timed', False) and self.sched.is_active():
            self.sched.wait(None, 'sleep', self.t + us)
            return
        self.t = self.t + us
        self.point('sleep')

    def uuid(self):
        self.uuid_n += 1
        return _uuid.UUID(int=(0xabc << 100) + self.uuid_n)

    # -- inputs derived -----------------------------------------------------------
    def choose(self, name, options):
        """One of `options` (concrete per path)."""
        options = list(options)
        n = len(options)
        if n == 1:
            return options[0]
        i = self.int(name, 0, n - 1)
        for k in range(n - 1):
            if i == k:
                return options[k]
        return options[n - 1]

    def flag(self, name):
        """Boolean decided per path."""
        return True if self.bool(name) else False

    def count(self, name, lo, hi):
        """Integer concrete per path."""
        return self.choose(name, range(lo, hi + 1))

    def instant(self, name, lo=0, hi=20_000_000_000, aware=True):
        return mkdt(self.int(name, lo, hi), aware)

    def text(self, name, maxlen, minlen=0, domain=ASCII_DOMAIN, exclude=''):
        n = self.count(name + '.len', minlen, maxlen)
        return self.chars(name, n, domain)

    # -- patching ----------------------------------------------------------------
    def patch(self, module, attr, value):
        """Set a global of a project module or class attribute for this path."""
        m = sys.modules[module] if isinstance(module, str) else module
        self.patches.append((m, attr, attr in vars(m), vars(m).get(attr)))
        setattr(m, attr, value)

    def unpatch(self):
        for m, attr, had, old in reversed(self.patches):
            if had:
                setattr(m, attr, old)
            else:
                delattr(m, attr)
        self.patches.clear()

    def fresh(self, **values):
        """Load the project anew under a configuration with these values (section__name=value), for this path."""
        import importlib
        from cmdkit.config import Configuration, Namespace
        cfg = sys.modules['hypershell.core.config']
        old = cfg.config
        tree = {}
        for k, v in values.items():
            at = tree
            *sections, name = k.split('__')
            for x in sections:
                at = at.setdefault(x, {})
            at[name] = v
        spaces = dict(old.namespaces)
        new = Configuration(**{**spaces, 'given': Namespace(tree)})
        for n, m in list(sys.modules.items()):
            if n != 'hypershell' and not n.startswith('hypershell.'):
                continue
            if n.startswith(('hypershell.core', 'hypershell.data')):
                for k, v in list(vars(m).items()):
                    if v is old:
                        setattr(m, k, new)
            else:
                del sys.modules[n]
        importlib.import_module('hypershell')
        return new

    # -- misc ----------------------------------------------------------------------
    def cover(self, label):
        self.covers.add(label)

    def point(self, label):
        """Scheduling point."""
        if self.sched is not None:
            self.sched.point(label)

    def queue(self, name, items=(), **kw):
        return StubQueue(self, name, items, **kw)

    def fail(self, message, known=None):
        self.check(False, message, known=known)


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, engine, scratch, known_listed=()):
        super().__init__(scratch)
        self.e = engine
        self.known_listed = set(known_listed)
        self.known_hits = {}

    def int(self, name, lo=None, hi=None):
        return SymInt(self.e.int_var(name, lo, hi))

    def bool(self, name):
        return SymBool(self.e.bool_var(name))

    def chars(self, name, n, domain=ASCII_DOMAIN):
        out = []
        for i in range(n):
            v = self.e.int_var(f'{name}.{i}', kind='char')
            self.e._assume_entry(in_ranges(v, char_ranges(lambda c: True, domain.chars)))
            out.append(SChar(v, domain))
        return mkstr(out)

    def assume(self, cond):
        if is_sym(cond) or isinstance(cond, bool):
            self.e.assume(cond)
        else:
            self.e.assume(bool(cond))

    def check(self, cond, message, known=None):
        """Assert cond.  known: {finding id: region condition} narrowed from the known-findings file."""
        self.e.checks += 1
        e = to_z3bool(cond)
        if z3.is_true(e):
            return
        regions = []
        for fid, region in (known or {}).items():
            if fid in self.known_listed:
                regions.append((fid, to_z3bool(region)))
        excl = [z3.Not(r) for _, r in regions]
        if z3.is_false(e) and not excl:
            raise Violation(message, self.e.get_model())
        if self.e._check(z3.Not(e), *excl):
            raise Violation(message, self.e.solver.model())
        for fid, r in regions:
            if fid not in self.known_hits and self.e._check(z3.Not(e), r):
                self.known_hits[fid] = (message, self.e.assignment(self.e.solver.model()))
        if regions:
            self.e._assume_entry(e)      # continue on the values for which the property holds

    def observe(self, label, value):
        self.observations.append((label, value))

    def evaluated(self, model):
        return [[l, jsonable(evaluate(v, model))] for l, v in self.observations]


class ConEnv(BaseEnv):
    def __init__(self, assignment, scratch, fill=None):
        super().__init__(scratch)
        self.a = assignment
        self.fill = fill            # random source for inputs without a value (paths outside the encoding)
        self.names = {}
        self.missing = 0
        self.known_hits = {}

    def _get(self, name, default):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        full = name if n == 0 else f'{name}#{n}'
        if full in self.a:
            self.found = True
            return self.a[full]
        self.found = False
        self.missing += 1
        return default

    def int(self, name, lo=None, hi=None):
        v = self._get(name, lo if lo is not None else 0)
        if self.fill is not None and not self.found and isinstance(lo, int) and isinstance(hi, int):
            v = self.fill.randint(lo, hi)
        return v

    def bool(self, name):
        v = bool(self._get(name, False))
        return v if self.fill is None or self.found else self.fill.random() < .5

    def chars(self, name, n, domain=ASCII_DOMAIN):
        out = ''
        for i in range(n):
            c = chr(self._get(f'{name}.{i}', ord(domain.chars[0])))
            out += c if self.fill is None or self.found else self.fill.choice(list(domain.chars))
        return out

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def check(self, cond, message, known=None):
        if not cond:
            hit = [f for f, r in (known or {}).items() if r]
            raise CheckFailed(message, hit)

    def observe(self, label, value):
        self.observations.append((label, value))

    def evaluated(self):
        return [[l, jsonable(v)] for l, v in self.observations]


# ---------------------------------------------------------------------------
# stubs

class StubQueue:
    """Queue stand-in: contents plus nondeterministic Empty/Full answers.

    spurious_empty / spurious_full: how many times a timed get/put may fail although it could succeed.
    idle: how many Empty answers on a really empty queue before the path ends (None: unlimited).
    on_idle(q): called when really empty, may add items or change the world.
    """

    def __init__(self, env, name, items=(), maxsize=None, spurious_empty=0, spurious_full=0, idle=3, on_idle=None,
                 on_get=None, on_put=None, on_full=None, remote=False):
        self.env = env
        self.name = name
        self.items = list(items)
        self.maxsize = maxsize
        self.spurious_empty = spurious_empty
        self.spurious_full = spurious_full
        self.idle = idle
        self.on_idle = on_idle
        self.on_get = on_get
        self.on_put = on_put
        self.on_full = on_full
        self.remote = remote     # items are pickled on the way: later changes by the sender do not show
        self.log = []            # items successfully put by the code under test
        self.got = []            # items handed to the code under test
        self.done = 0
        self.empties = 0
        self.closed = False      # the server end is gone
        self.order = 'fifo'

    def get(self, block=True, timeout=None):
        env = self.env
        env.touch()
        env.point('get ' + self.name)
        self._open()
        timed = (timeout is not None) or not block
        if self.items:
            if timed and self.spurious_empty > 0 and env.flag(f'{self.name}.empty'):
                self.spurious_empty -= 1
                self._pass(timeout)
                raise _queue.Empty()
        else:
            self.empties += 1
            if self.on_idle is not None:
                self.on_idle(self)
            if not self.items:
                if timed and timeout is not None and getattr(env.sched, 'timed', False):
                    if not env.sched.wait(lambda: bool(self.items) or self._gone(), 'get ' + self.name,
                                          env.t + int(timeout * 1_000_000)):
                        raise _queue.Empty()
                elif not timed:
                    if env.sched is not None:
                        env.sched.wait(lambda: bool(self.items) or self._gone(), 'get ' + self.name)
                    else:
                        raise PathEnd(f'blocked get {self.name}')
                else:
                    if self.idle is not None and self.empties > self.idle:
                        raise PathEnd(f'idle {self.name}')
                    self._pass(timeout)
                    raise _queue.Empty()
        self._open()
        item = self.items.pop(self.next_item())
        self.got.append(item)
        if self.on_get is not None:
            self.on_get(item)
        return item

    def next_item(self):
        if self.order == 'lifo':
            return -1
        if self.order == 'least':
            return min(range(len(self.items)), key=lambda i: self.items[i])
        return 0

    def _gone(self):
        return False

    def _open(self):
        if self._gone():
            raise EOFError('connection closed')

    def _pass(self, timeout):
        if timeout:
            self.env.t = self.env.t + (int(timeout * 1_000_000) if isinstance(timeout, float) and not is_sym(timeout)
                                       else timeout * 1_000_000)

    def get_nowait(self):
        return self.get(block=False)

    def full(self):
        return self.maxsize is not None and self.maxsize > 0 and len(self.items) >= self.maxsize

    def put(self, item, block=True, timeout=None):
        env = self.env
        env.touch()
        env.point('put ' + self.name)
        self._open()
        timed = (timeout is not None) or not block
        really = self.full()
        if really and self.on_full is not None:
            self.on_full(self)
            really = self.full()
        if really:
            if timed and timeout is not None and getattr(env.sched, 'timed', False):
                if not env.sched.wait(lambda: not self.full() or self._gone(), 'put ' + self.name, env.t + int(timeout * 1_000_000)):
                    raise _queue.Full()
            elif not timed:
                if env.sched is not None:
                    env.sched.wait(lambda: not self.full() or self._gone(), 'put ' + self.name)
                else:
                    raise PathEnd(f'blocked put {self.name}')
            else:
                self._pass(timeout)
                raise _queue.Full()
        elif timed and self.spurious_full > 0 and env.flag(f'{self.name}.full'):
            self.spurious_full -= 1
            self._pass(timeout)
            raise _queue.Full()
        self._open()
        if self.remote and isinstance(item, list):
            item = list(item)
        if self.on_put is not None:
            self.on_put(item)
        self.items.append(item)
        self.log.append(item)

    def put_nowait(self, item):
        self.put(item, block=False)

    def task_done(self):
        self.done += 1

    def join(self):
        pass

    def qsize(self):
        return len(self.items)

    def empty(self):
        return not self.items


class RemoteQueue(StubQueue):
    """The same queue over a connection, which fails once the server end is gone."""

    def __init__(self, q):
        self.__dict__ = q.__dict__

    def _gone(self):
        return self.closed


class Sched:
    """Cooperative scheduler: components are greenlets switching at stub calls.

    At each point the choice of the next component is an input; at most `switches` preemptions."""

    def __init__(self, env, switches=2):
        import greenlet
        self.g = greenlet
        self.env = env
        self.switches = switches
        self.parts = {}         # name -> greenlet
        self.waiting = {}       # name -> predicate
        self.order = []
        self.main = greenlet.getcurrent()
        self.active = None
        self.outcome = {}
        self.exc = None
        env.sched = self

    def spawn(self, name, fn):
        def body():
            try:
                self.outcome[name] = ('value', fn())
            except self.g.GreenletExit:
                raise
            except Exception as err:
                self.outcome[name] = ('error', err)
            except BaseException as err:
                self.exc = err
        self.parts[name] = self.g.greenlet(body, parent=self.main)
        self.order.append(name)

    def runnable(self):
        out = []
        for n in self.order:
            if n in self.outcome:
                continue
            p = self.waiting.get(n)
            if p is None or p():
                out.append(n)
        return out

    def alive(self):
        return [n for n in self.order if n not in self.outcome]

    def name(self):
        return self.active

    def point(self, label):
        if self.active is None or self.g.getcurrent() is self.main:
            return
        if self.switches > 0:
            others = [n for n in self.runnable() if n != self.active]
            if others:
                pick = self.env.choose('switch', [None] + others)
                if pick is not None:
                    self.switches -= 1
                    self.next = pick
                    self.main.switch()

    def yield_(self):
        """Voluntary yield (polling loop): let another component run."""
        if self.active is None or self.g.getcurrent() is self.main:
            return
        self.next = None
        self.rotate = True
        self.main.switch()

    def wait(self, pred, label):
        if self.active is None or self.g.getcurrent() is self.main:
            raise PathEnd('blocked ' + label)
        while not pred():
            self.waiting[self.active] = pred
            self.next = None
            self.main.switch()
        self.waiting.pop(self.active, None)

    def run(self, until=None, limit=400):
        self.next = None
        self.rotate = False
        last = None
        for i in range(limit):
            self.used = i / limit
            if until is not None and until():
                return 'until'
            run = self.runnable()
            if not run:
                return 'done' if not self.alive() else 'deadlock'
            pick = self.next if self.next in run else None
            if pick is None:
                if self.rotate and len(run) > 1 and last in run:
                    pick = run[(run.index(last) + 1) % len(run)]
                else:
                    pick = run[0] if last not in run or self.rotate else last
            self.next = None
            self.rotate = False
            self.active = last = pick
            self.parts[pick].switch()
            self.active = None
            if self.exc is not None:
                e, self.exc = self.exc, None
                raise e
        raise PathEnd('schedule bound')

    def kill(self):
        for n, g in self.parts.items():
            if not g.dead:
                try:
                    g.throw(self.g.GreenletExit)
                except BaseException:
                    pass
        self.env.sched = None


# ---------------------------------------------------------------------------
# patches of the outside world, installed before the project is imported

class _DTMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, REAL_DATETIME)

    def __subclasscheck__(cls, c):
        return issubclass(c, REAL_DATETIME) or type.__subclasscheck__(cls, c)


class FakeDatetime(REAL_DATETIME, metaclass=_DTMeta):
    def __new__(cls, *a, **k):
        return REAL_DATETIME(*a, **k)

    @classmethod
    def now(cls, tz=None):
        env = CURRENT[0]
        if env is None:
            return REAL_DATETIME.now(tz)
        return env.now(aware=tz is not None)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def fromisoformat(cls, s):
        if is_sym(s):
            from . import models
            return models.fromisoformat(REAL_DATETIME, s)
        return REAL_DATETIME.fromisoformat(s)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        if is_sym(t):
            from . import models
            return models.fromtimestamp(REAL_DATETIME, t, tz)
        return REAL_DATETIME.fromtimestamp(t, tz)

    @classmethod
    def strptime(cls, s, f):
        return REAL_DATETIME.strptime(s, f)

    @classmethod
    def combine(cls, *a, **k):
        return REAL_DATETIME.combine(*a, **k)


def install_patches():
    import time
    import subprocess
    import uuid
    real_sleep, real_time, real_mono, real_uuid4, real_popen = (time.sleep, time.time, time.monotonic, uuid.uuid4,
                                                                subprocess.Popen)
    _dt.datetime = FakeDatetime
    t0 = EPOCH.replace(tzinfo=_dt.timezone.utc).timestamp() if EPOCH.tzinfo is None else EPOCH.timestamp()

    def _active():
        # only calls made by the project (or harness) see the modelled world
        f = sys._getframe(2)
        n = f.f_globals.get('__name__', '')
        return CURRENT[0] if n.startswith(('hypershell', 'checks', 'sx.')) else None

    startup = [0]

    def sleep(secs):
        env = _active()
        return real_sleep(secs) if env is None else env.sleep(secs)

    def now():
        env = _active()
        if env is None:
            return real_time()
        return env.now_us() / 1_000_000 + t0

    def monotonic():
        env = _active()
        if env is None:
            return real_mono()
        return env.now_us() / 1_000_000

    def uuid4():
        env = _active()
        if env is not None:
            return env.uuid()
        if sys._getframe(1).f_globals.get('__name__', '').startswith(('hypershell', 'sx.')):
            startup[0] += 1        # import time: same value in every process
            return uuid.UUID(int=(0xdef << 100) + startup[0])
        return real_uuid4()

    class Popen(real_popen):
        def __new__(cls, *a, **k):
            env = CURRENT[0]
            if env is not None and env.on_popen is not None:
                return env.on_popen(*a, **k)
            return object.__new__(cls)

    time.sleep, time.time, time.monotonic = sleep, now, monotonic
    uuid.uuid4 = uuid4
    subprocess.Popen = Popen


# ---------------------------------------------------------------------------
# state of the project's modules between paths

_SIMPLE = (int, float, str, bool, bytes, type(None), types.FunctionType, types.BuiltinFunctionType, types.ModuleType)


def _snap(v, depth=0):
    """Restorer for a mutable container, or None."""
    t = type(v)
    if isinstance(v, dict) and depth < 6:
        items = [(k, x, _snap(x, depth + 1)) for k, x in dict.items(v)]
        return ('d', v, items)
    if t is list and depth < 6:
        return ('l', v, [(x, _snap(x, depth + 1)) for x in v])
    if t is set:
        return ('s', v, set(v))
    return None


def _restore(s):
    kind, v, items = s
    if kind == 'd':
        if len(v) != len(items) or any(k not in v or dict.__getitem__(v, k) is not x for k, x, _ in items) \
                or list(dict.keys(v)) != [k for k, _, _ in items]:
            dict.clear(v)
            for k, x, _ in items:
                dict.__setitem__(v, k, x)
        for _, _, sub in items:
            if sub is not None:
                _restore(sub)
    elif kind == 'l':
        if len(v) != len(items) or any(a is not b for a, (b, _) in zip(v, items)):
            v[:] = [x for x, _ in items]
        for _, sub in items:
            if sub is not None:
                _restore(sub)
    else:
        if v != items:
            v.clear()
            v.update(items)


class Snapshot:
    """Globals, mutable globals and class attributes of the project's modules."""

    def __init__(self, prefix='hypershell'):
        self.prefix = prefix
        self.modules = {n: m for n, m in sys.modules.items() if n == prefix or n.startswith(prefix + '.')}
        self.mods = []
        self.classes = []
        self.caches = []
        seen = set()
        import enum
        for name, m in list(sys.modules.items()):
            if m is None or not (name == prefix or name.startswith(prefix + '.')):
                continue
            d = m.__dict__
            glob = {k: v for k, v in d.items() if not k.startswith('__')}
            cont = [s for k, v in glob.items() if isinstance(v, (dict, list, set)) for s in [_snap(v)] if s]
            self.mods.append((d, glob, cont))
            for v in glob.values():
                if isinstance(v, type) and getattr(v, '__module__', '').startswith(prefix) and v not in seen:
                    seen.add(v)
                    if not issubclass(v, enum.Enum) and not hasattr(v, '__table__') and not hasattr(v, 'metadata'):
                        self._class(v)
                if hasattr(v, 'cache_clear'):
                    self.caches.append(v)

    def _class(self, c):
        attrs = {k: v for k, v in vars(c).items() if not k.startswith('__') and k != '_abc_impl'}
        cont = [s for v in attrs.values() if isinstance(v, (dict, list, set)) for s in [_snap(v)] if s]
        self.classes.append((c, attrs, cont))
        for v in attrs.values():
            if hasattr(v, 'cache_clear'):
                self.caches.append(v)

    def restore(self):
        for n in [n for n in sys.modules if (n == self.prefix or n.startswith(self.prefix + '.'))]:
            if self.modules.get(n) is not sys.modules[n]:
                del sys.modules[n]
        sys.modules.update(self.modules)
        for d, glob, cont in self.mods:
            for k in [k for k in d if not k.startswith('__') and k not in glob]:
                del d[k]
            for k, v in glob.items():
                if d.get(k) is not v:
                    d[k] = v
            for s in cont:
                _restore(s)
        for c, attrs, cont in self.classes:
            cur = vars(c)
            for k in [k for k in cur if not k.startswith('__') and k != '_abc_impl' and k not in attrs]:
                delattr(c, k)
            for k, v in attrs.items():
                if cur.get(k) is not v:
                    setattr(c, k, v)
            for s in cont:
                _restore(s)
        for f in self.caches:
            f.cache_clear()
