"""The queues between server and clients (N01)."""
import multiprocessing.managers as managers
import multiprocessing.queues as mpqueues
from multiprocessing import AuthenticationError
from sx.env import harness
from sx.core import CharDomain, sym_and
from sx.models import to_text
from hypershell.core.queue import QueueConfig, QueueServer, QueueClient

KEY = CharDomain(' abA1\u00e9\u0131\uff11$\\')
NAMES = ('scheduled', 'completed', 'heartbeat', 'confirmed')


class Endless(RuntimeError):
    pass


class FiniteQueue:
    """What the operating system provides: a queue of limited or unlimited length."""

    def __init__(self, maxsize=0, *, ctx=None):
        self.maxsize = maxsize
        self.items = []


class Transport:
    """Stands in for the manager's server process and connections (fork, sockets, key exchange)."""

    def __init__(self, env):
        self.listening = []       # (address, key, {name: object})
        self.stopped = []
        net = self

        def init(man, address=None, authkey=None, *args, **kwargs):
            man.sx_address, man.sx_key = address, authkey
            man.sx_remote = None

        def start(man, *args, **kwargs):
            # the process is forked here: it has what was registered and created by now
            offered = {k: v() for k, v in type(man).__dict__['_registry_of'].items() if v is not None}
            man.sx_entry = (man.sx_address, man.sx_key, offered)
            net.listening.append(man.sx_entry)
            man.shutdown = lambda: (net.listening.remove(man.sx_entry), net.stopped.append(man))

        def connect(man, *args, **kwargs):
            for address, key, offered in net.listening:
                if bool(address[0] == man.sx_address[0]) and bool(address[1] == man.sx_address[1]):
                    if not bool(key == man.sx_key):
                        raise AuthenticationError('digest received was wrong')
                    man.sx_remote = offered
                    return
            raise ConnectionRefusedError('connection refused')

        def register(cls, typeid, callable=None, *args, **kwargs):
            if '_registry_of' not in cls.__dict__:
                cls._registry_of = {}
            cls._registry_of[typeid] = callable
            if kwargs.get('create_method', True):
                def get(man, *a, **kw):
                    if man.sx_remote is None:
                        raise ConnectionRefusedError('not connected')
                    if typeid not in man.sx_remote:
                        raise KeyError(typeid)
                    return man.sx_remote[typeid]
                setattr(cls, typeid, get)
        base = managers.BaseManager
        for n in ('sx_address', 'sx_key', 'sx_remote'):
            env.patch(base, n, ('', 0) if n == 'sx_address' else None)
        env.patch(base, '__init__', init)
        env.patch(base, 'start', start)
        env.patch(base, 'connect', connect)
        env.patch(base, 'register', classmethod(register))
        env.patch(mpqueues, 'JoinableQueue', FiniteQueue)
        for cls in (QueueServer, QueueClient):
            for n in NAMES:
                if '_get_' + n in vars(cls):
                    env.patch(cls, '_get_' + n, vars(cls)['_get_' + n])        # undone at the end of the path
            env.patch(cls, '_registry_of', {})


@harness('N01', quick=[dict(d=3)], thorough=[dict(d=10)], covers=('connected', 'refused', 'nobody', 'long key'))
def queues(env, d):
    """A client that has the address and the key of the server works with the server's own queues, others do not."""
    net = Transport(env)
    host = env.choose('host', ['localhost', '0.0.0.0'])
    port = env.int('port', 1, 65535)
    size = env.int('size', 1, 10_000)
    kind = env.choose('key kind', ['text', 'number', 'long'])
    if kind == 'long':        # as long as the keys clusters make
        key, other = '0f' * 64 + env.text('key', 1, 1, KEY), '0f' * 64 + env.text('other', 1, 0, KEY)
    elif kind == 'text':
        key, other = env.text('key', d, 1, KEY), env.text('other', d, 1, KEY)
    else:        # a number in the configuration is the key made of its digits
        key = env.int('key', 0, 99_999)
        other = to_text(env.int('other', 0, 99_999))
    if kind == 'long':
        env.cover('long key')
    asked = env.int('asked port', 1, 65535)
    server = QueueServer(config=QueueConfig(host=host, port=port, auth=key, size=size))
    with server as q:
        env.check(len(net.listening) == 1, 'not listening')
        address = net.listening[0][0]
        env.check(sym_and(address[0] == host, address[1] == port), 'listens elsewhere')
        env.check(sym_and(q.scheduled.maxsize == size, q.completed.maxsize == size), 'length of the task queues')
        env.check(sym_and(q.heartbeat.maxsize <= 0, q.confirmed.maxsize <= 0), 'heartbeats or confirmations can block a client')
        env.check(all(getattr(q, n, None) is not None for n in NAMES), 'a server without one of its queues')
        mine = [getattr(q, n) for n in NAMES]
        env.check(len({id(x) for x in mine}) == len(NAMES), 'queues are shared')
        outcome = None
        try:
            with QueueClient(config=QueueConfig(host=host, port=asked, auth=other)) as c:
                outcome = 'connected'
                for n, x in zip(NAMES, mine):
                    env.check(getattr(c, n, None) is x, f"the client's {n} queue is not the server's")
        except AuthenticationError:
            outcome = 'refused'
        except ConnectionRefusedError:
            outcome = 'nobody'
        env.cover(outcome)
        env.observe('outcome', outcome)
        right = (key if kind != 'number' else to_text(key)) == other
        if outcome == 'connected':
            env.check(sym_and(asked == port, right), 'connected with a wrong address or key')
        elif outcome == 'refused':
            env.check(asked == port, 'reached a server at another address')
            env.check(not bool(right), 'refused with the right key')
        else:
            env.check(not bool(asked == port), 'the server is not reached at its address')
        env.check(len(net.listening) == 1, 'the server stops when a client leaves')
    env.check(net.stopped == [server] and not net.listening, 'the server still listens')


@harness('N01', quick=[dict()], covers=('two', 'failed'))
def servers(env):
    """Two servers in one program keep their queues apart; a server that fails inside still stops listening."""
    net = Transport(env)
    p1, p2 = env.int('port1', 1, 65535), env.int('port2', 1, 65535)
    env.assume(p1 != p2)
    fails = env.flag('fails')
    first = QueueServer(config=QueueConfig(host='localhost', port=p1, auth='k1', size=env.int('size1', 1, 9)))
    try:
        with first as a:
            with QueueServer(config=QueueConfig(host='localhost', port=p2, auth='k2', size=env.int('size2', 1, 9))) as b:
                env.cover('two')
                with QueueClient(config=QueueConfig(host='localhost', port=p2, auth='k2')) as two:
                    with QueueClient(config=QueueConfig(host='localhost', port=p1, auth='k1')) as one:
                        for n in NAMES:
                            env.check(getattr(one, n, None) is getattr(a, n) and getattr(two, n, None) is getattr(b, n),
                                      f'the {n} queue is not that of the server asked for')
                            env.check(getattr(a, n) is not getattr(b, n), 'servers share a queue')
            env.check(len(net.listening) == 1, 'the first server stops with the second')
            if fails:
                raise Endless()
    except Endless:
        env.cover('failed')
    env.check(not net.listening, 'a server still listens')
