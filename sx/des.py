"""Threads as cooperating components: discrete-event scheduler, thread, queue-manager and process stand-ins.

Every project thread runs as a greenlet of one Python thread.  Components switch when they block (queue, sleep, join,
process wait) and, up to `switches` times per path, at any stub call (the choice is an input).  When nothing can run the
clock advances to the earliest deadline; deadlines may be symbolic, then their order is decided by the solver.
"""
from __future__ import annotations
import os
import sys
import queue as _queue
import threading
import subprocess
import greenlet
from .core import PathEnd, is_sym
from .env import CURRENT, StubQueue, RemoteQueue


class Des:
    timed = True

    def __init__(self, env, switches=0, steps=20000):
        self.env = env
        self.switches = switches
        self.steps = steps
        self.parts = {}         # name -> greenlet
        self.blocked = {}       # name -> (pred, deadline, label)
        self.order = []
        self.main = greenlet.getcurrent()
        self.active = None
        self.done = {}          # name -> True
        self.exc = None
        self.n = 0
        self.group = {}         # component -> process it belongs to
        self.identity = {}      # process -> {identity value of the real process: its own}
        self.current = None     # identity in place
        self.places = None
        self.dead = set()
        self.on_point = None    # called at every stub call of a component
        env.sched = self
        core = sys.modules.get('hypershell.data.core')
        if core is not None and hasattr(core, 'Session'):
            from sqlalchemy.util import ScopedRegistry
            self.registry = core.Session.registry
            core.Session.registry = ScopedRegistry(self.registry.createfunc, greenlet.getcurrent)

    # -- components -----------------------------------------------------------------
    def spawn(self, name, fn, group=None):
        self.n += 1
        name = f'{self.n}:{name}'
        self.group[name] = group if group is not None else self.group.get(self.active)

        def body():
            try:
                fn()
            except greenlet.GreenletExit:
                raise
            except BaseException as err:
                self.exc = err
            self.done[name] = True
        self.parts[name] = greenlet.greenlet(body, parent=self.main)
        self.order.append(name)
        return name

    def is_active(self):
        return self.active is not None and greenlet.getcurrent() is self.parts.get(self.active)

    def ready(self, name):
        b = self.blocked.get(name)
        if b is None:
            return True
        pred, deadline, _ = b
        if pred is not None and pred():
            return True
        return deadline is not None and bool(deadline <= self.env.t)

    def runnable(self):
        return [n for n in self.order if n not in self.done and self.ready(n)]

    def strike(self, group):
        """The process dies: none of its components runs again."""
        self.dead.add(group)
        for n in self.order:
            if self.group.get(n) == group:
                self.done[n] = True
        if self.is_active() and self.group.get(self.active) == group:
            self.next = None
            self.main.switch()

    def point(self, label):
        if self.on_point is not None and self.is_active():
            self.on_point(self.group.get(self.active), label)
        if self.switches > 0 and self.is_active():
            others = [n for n in self.runnable() if n != self.active]
            if others:
                pick = self.env.choose('switch', [None] + others)
                if pick is not None:
                    self.switches -= 1
                    self.next = pick
                    self.main.switch()

    def wait(self, pred, label, deadline=None):
        """Block until pred() or the deadline; True if pred() holds."""
        if pred is not None and pred():
            return True
        if not self.is_active():
            raise PathEnd('blocked ' + label)
        me = self.active
        self.blocked[me] = (pred, deadline, label)
        self.next = None
        self.main.switch()
        self.blocked.pop(me, None)
        return pred is not None and pred()

    def run(self, until=None):
        """-> 'until' / 'done' / 'deadlock'"""
        self.next = None
        last = None
        for i in range(self.steps):
            self.used = i / self.steps
            if until is not None and until():
                return 'until'
            alive = [n for n in self.order if n not in self.done]
            if not alive:
                return 'done'
            run = self.runnable()
            if not run:
                dl = [self.blocked[n][1] for n in alive if self.blocked[n][1] is not None]
                if not dl:
                    return 'deadlock'
                m = dl[0]
                for d in dl[1:]:
                    if d < m:
                        m = d
                self.env.t = m
                continue
            pick = self.next if self.next in run else None
            if pick is None:
                k = self.order.index(last) if last in self.order else -1
                cyc = self.order[k + 1:] + self.order[:k + 1]
                pick = next(n for n in cyc if n in run)
            self.next = None
            self.active = last = pick
            if self.identity:
                self.become(self.group.get(pick))
            self.parts[pick].switch()
            self.active = None
            if self.exc is not None:
                e, self.exc = self.exc, None
                raise e
        if os.environ.get('SX_DEBUG'):
            with open(os.environ['SX_DEBUG'], 'a') as f:
                print('schedule bound', self.env.t, self.waiting(), self.env.tracebacks, file=f)
        raise PathEnd('schedule bound')

    def become(self, group):
        """Components of separate processes see their own instance id and host name."""
        if group == self.current:
            return
        if self.places is None:
            keys = set().union(*self.identity.values())
            self.places = [(m, k, v) for name, m in list(sys.modules.items())
                           if m is not None and name.startswith('hypershell')
                           for k, v in list(vars(m).items()) if isinstance(v, str) and v in keys]
        own = self.identity.get(group, {})
        for m, k, v in self.places:
            setattr(m, k, own.get(v, v))
        self.current = group

    def waiting(self):
        return {n: self.blocked[n][2] for n in self.order if n not in self.done and n in self.blocked}

    def kill(self):
        self.switches = 0
        if self.places:
            self.become(None)
        for n, g in self.parts.items():
            if not g.dead and g:
                try:
                    g.throw(greenlet.GreenletExit)
                except BaseException:
                    pass
        self.env.sched = None
        core = sys.modules.get('hypershell.data.core')
        if core is not None and getattr(self, 'registry', None) is not None:
            core.Session.registry = self.registry


# -- threads -------------------------------------------------------------------------

def install():
    """Route threads and local queues of the project to the active scheduler (if any)."""
    T = threading.Thread
    start, join, is_alive = T.start, T.join, T.is_alive

    def sched():
        env = CURRENT[0]
        s = env.sched if env is not None else None
        return s if isinstance(s, Des) else None

    def _start(self):
        s = sched()
        if s is None:
            return start(self)
        if getattr(self, '_des', None) is not None:
            raise RuntimeError('threads can only be started once')
        self._des = s.spawn(self.name, self.run)
        s.point('start')

    def _join(self, timeout=None):
        n = getattr(self, '_des', None)
        s = sched()
        if s is None:
            return join(self, timeout)
        if n is None:
            raise RuntimeError('cannot join thread before it is started')
        s.wait(lambda: n in s.done, f'join {self.name}',
               None if timeout is None else s.env.t + int(timeout * 1_000_000))

    def _is_alive(self):
        n = getattr(self, '_des', None)
        s = sched()
        if s is None or n is None:
            return is_alive(self)
        return n not in s.done
    T.start, T.join, T.is_alive = _start, _join, _is_alive

    real = _queue.Queue

    class Queue(real):
        def __new__(cls, maxsize=0):
            s = sched()
            if s is not None:
                return s.env.queue('local', maxsize=maxsize)
            return object.__new__(cls)
    _queue.Queue = Queue
    for name, order in (('LifoQueue', 'lifo'), ('PriorityQueue', 'least'), ('SimpleQueue', 'fifo')):
        setattr(_queue, name, _other_queue(getattr(_queue, name), order, sched))
    for cls in (Event, Lock, RLock, Condition):
        setattr(threading, cls.__name__, _primitive(getattr(threading, cls.__name__), cls, sched))


def _other_queue(real, order, sched):
    def make(maxsize=0):
        s = sched()
        if s is None:
            return real(maxsize) if real is not _queue.SimpleQueue else real()
        q = s.env.queue('local', maxsize=maxsize)
        q.order = order
        return q
    return make


def _primitive(real, cls, sched):
    """The stand-in while components are simulated."""
    def make(*args, **kw):
        s = sched()
        if s is None:
            return real(*args, **kw)
        one = cls(s, *args, **kw)
        if 'site-packages' in sys._getframe(1).f_code.co_filename:
            # a library's own lock, often of a process-wide cache: never a switch point
            lock = getattr(one, 'lock', one)
            if isinstance(lock, Lock):
                lock.inner = True
        return one
    make.__name__ = cls.__name__
    return make


def _deadline(s, timeout):
    return None if timeout is None or timeout < 0 else s.env.t + int(timeout * 1_000_000)


class Event:
    def __init__(self, s):
        self.s, self.on = s, False

    def is_set(self):
        return self.on

    isSet = is_set

    def set(self):
        self.on = True

    def clear(self):
        self.on = False

    def wait(self, timeout=None):
        self.s.point('wait')
        return self.s.wait(self.is_set, 'event', _deadline(self.s, timeout)) or self.on


class Lock:
    again = inner = False

    def __init__(self, s):
        self.s, self.owner, self.count = s, None, 0

    def locked(self):
        return self.count > 0

    def _free(self):
        return self.count == 0 or self.again and self.owner == self.s.active

    def acquire(self, blocking=True, timeout=-1):
        if not self.inner:
            self.s.point('lock')
        if not self._free():
            me = self.s.active
            if not blocking or not self.s.wait(lambda: self.count == 0 or self.again and self.owner == me, 'lock',
                                               _deadline(self.s, timeout)):
                return False
        self.owner, self.count = self.s.active, self.count + 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError('release unlocked lock')
        self.count -= 1

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()


class RLock(Lock):
    again = True


class Condition:
    def __init__(self, s, lock=None):
        self.s = s
        self.lock = lock if lock is not None else RLock(s)
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waiters = []

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *_):
        return self.lock.__exit__(*_)

    def wait(self, timeout=None):
        mine = [False]
        self.waiters.append(mine)
        held, self.lock.count = self.lock.count, 0
        ok = self.s.wait(lambda: mine[0], 'condition', _deadline(self.s, timeout))
        if mine in self.waiters:
            self.waiters.remove(mine)
        self.acquire()
        self.lock.count = held
        return bool(ok)

    def wait_for(self, predicate, timeout=None):
        end = _deadline(self.s, timeout)
        while not (result := predicate()):
            if end is not None and end <= self.s.env.t:
                break
            self.wait(None if end is None else (end - self.s.env.t) / 1_000_000)
        return result

    def notify(self, n=1):
        for mine in self.waiters[:n]:
            mine[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))


# -- queue manager ---------------------------------------------------------------------

class Hub:
    """The managed queues by address, shared by server and clients."""

    def __init__(self, env, on_connect=None):
        self.env = env
        self.servers = {}
        self.everything = []

    def make_server(self, config):
        return ServerStub(self, config)

    def make_client(self, config):
        return ClientStub(self, config)


class ServerStub:
    def __init__(self, hub, config):
        self.hub, self.config, self.open = hub, config, None
        hub.servers[config.port] = self

    def __enter__(self):
        q = self.hub.env.queue
        self.scheduled = q('scheduled', maxsize=self.config.size, remote=True)
        self.completed = q('completed', maxsize=self.config.size, remote=True)
        self.heartbeat = q('heartbeat', maxsize=0, remote=True)
        self.confirmed = q('confirmed', maxsize=0, remote=True)
        self.hub.everything.append(self)
        self.open = True
        return self

    def __exit__(self, *_):
        self.open = False
        for q in (self.scheduled, self.completed, self.heartbeat, self.confirmed):
            q.closed = True


class ClientStub:
    def __init__(self, hub, config):
        self.hub, self.config = hub, config

    def __enter__(self):
        hub, port = self.hub, self.config.port
        # the real client retries or fails; here it starts when the server is up
        hub.env.sched.wait(lambda: port in hub.servers and hub.servers[port].open is not None, 'connect')
        s = hub.servers[port]
        if not s.open:
            raise ConnectionRefusedError('connection refused')
        self.scheduled, self.completed, self.heartbeat, self.confirmed = map(
            RemoteQueue, (s.scheduled, s.completed, s.heartbeat, s.confirmed))
        return self

    def __exit__(self, *_):
        pass


class ProcStub:
    """A task process: runs `duration` microseconds, then has `status`; signals are recorded and may end it."""

    def __init__(self, env, args, duration, status, dies_on=(), options=None):
        self.env, self.args, self.status, self.kw = env, args, status, options or {}
        self.pid = 4242
        self.end = None if duration is None else env.t + duration
        self.started = env.t
        self.signals = []
        self.dies_on = dict(dies_on)
        self.returncode = None

    def over(self):
        return self.end is not None and bool(self.end <= self.env.t)

    def poll(self):
        if self.over():
            self.returncode = self.status
        return self.returncode

    def wait(self, timeout=None):
        env = self.env
        env.touch()
        dl = None if timeout is None else env.t + int(timeout * 1_000_000)
        if not self.over():
            if env.sched is not None and env.sched.is_active():
                # wake at the end of the process or at the timeout
                while not self.over():
                    e = self.end
                    d = dl if e is None else (e if dl is None or e <= dl else dl)
                    if d is None:
                        env.sched.wait(self.over, 'process')
                        break
                    env.sched.wait(self.over, 'process', d)
                    if dl is not None and dl <= env.t:
                        break
            else:
                if self.end is not None and (dl is None or self.end <= dl):
                    env.t = self.end
                elif dl is None:
                    raise PathEnd('blocked process')
                else:
                    env.t = dl
        if not self.over():
            raise subprocess.TimeoutExpired(self.args, timeout)
        self.returncode = self.status
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        return None, None

    def send_signal(self, sig):
        self.signals.append((int(sig), self.env.t))
        if int(sig) in self.dies_on and not self.over():
            delay = self.dies_on[int(sig)]
            end = self.env.t + delay
            if self.end is None or end < self.end:
                self.end = end
                self.status = -int(sig)

    def terminate(self):
        self.send_signal(15)

    def kill(self):
        self.send_signal(9)


def replace_everywhere(env, obj, new):
    """Substitute an object in the globals of every project module (undone by the state restore)."""
    for name, m in list(sys.modules.items()):
        if m is not None and name.startswith('hypershell'):
            for k, v in list(vars(m).items()):
                if v is obj:
                    setattr(m, k, new)
