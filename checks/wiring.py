"""The library: options given to servers, clients and submissions are those their parts work with (A09, A10)."""
import os
import sys
import sqlalchemy
from sx.env import harness
from hypershell.core.queue import QueueConfig
from sx.core import sym_and, sym_or, CharDomain
from hypershell.data.core import Session
from checks.apps import Recorder, Out, run_app, same, settings

SHORT = CharDomain('ab1.')
SERVER_PARTS = ('Scheduler', 'Confirm', 'Receiver', 'HeartMonitor', 'QueueServer')
SUBMIT_PARTS = ('Loader', 'DatabaseCommitter', 'QueueCommitter')
CLIENT_PARTS = ('ClientScheduler', 'ClientCollector', 'TaskExecutor', 'ClientHeartbeat', 'QueueClient')


class Stop(Exception):
    pass


def numbers(env, **limits):
    return {k: env.int(k, a, b) for k, (a, b) in limits.items()}


def pick(env, all_given, values):
    """All options are given, or just one of them, or none: -> those given."""
    if all_given:
        return dict(values)
    one = env.choose('one', [None] + list(values))
    return {one: values[one]} if one else {}


def only(env, rec, name, n=1):
    env.check(len(rec[name].made) == n, f'{len(rec[name].made)} instead of {n} {name}')
    return rec[name].made


def check_queue(env, made, address, auth, size=None):
    q = made.options['config']
    env.check(sym_and(q.host == address[0], q.port == address[1]), 'address')
    same(env, q.auth, auth, 'authentication key')
    if size is not None:
        same(env, q.size, size, 'queue size')


@harness('A09', quick=[dict()], covers=('memory', 'disabled', 'submit', 'no source'))
def server_parts(env):
    """The parts of a server work with the options given to it."""
    conf = env.fresh(server__queuesize=env.int('queuesize', 1, 999))
    server, submit = sys.modules['hypershell.server'], sys.modules['hypershell.submit']
    rec = {n: Recorder(env, server, n) for n in SERVER_PARTS}
    rec.update({n: Recorder(env, submit, n) for n in SUBMIT_PARTS})
    rec['QueueClient'] = Recorder(env, submit, 'QueueClient')
    enabled = env.flag('enabled')
    env.patch(server, 'DATABASE_ENABLED', enabled)
    values = dict(bundlesize=env.int('bundlesize', 1, 999), bundlewait=env.int('bundlewait', 0, 999),
                  address=(env.chars('host', 2, SHORT), env.int('port', 1, 65535)), auth=env.chars('auth', 2, SHORT),
                  max_retries=env.int('retries', 0, 99), eager=True, redirect_failures=Out(),
                  evict_after=env.int('evict', 1, 999), no_confirm=True)
    given = pick(env, env.flag('all'), values)
    mode = env.choose('mode', [None, 'in_memory', 'forever_mode', 'restart_mode'])
    if mode:
        given[mode] = True
    source = iter(['a']) if env.flag('source') else None
    server.ServerThread(source=source, **given)
    memory = mode == 'in_memory' or not enabled
    get = given.get
    address, auth = get('address', ('localhost', 50_001)), get('auth', '__HYPERSHELL__BAD__AUTHKEY__')
    q, = only(env, rec, 'QueueServer')
    check_queue(env, q, address, auth, conf.server.queuesize)
    size, wait = get('bundlesize', 1), get('bundlewait', 5)
    if memory:
        env.cover('memory' if enabled else 'disabled')
        only(env, rec, 'Scheduler', 0)
        only(env, rec, 'DatabaseCommitter', 0)
    else:
        o = only(env, rec, 'Scheduler')[0].options
        env.check(o['queue'] is q, 'queue of the scheduler')
        same(env, o['bundlesize'], size, 'bundle size of the scheduler')
        same(env, o['attempts'], get('max_retries', 0) + 1, 'attempts')
        same(env, o['eager'], 'eager' in given, 'eager')
        same(env, o['forever_mode'], mode == 'forever_mode', 'forever mode')
        only(env, rec, 'QueueCommitter', 0)
    if source is None:
        env.cover('no source')
        for n in SUBMIT_PARTS:
            only(env, rec, n, 0)
    else:
        env.cover('submit')
        o = only(env, rec, 'Loader')[0].options
        env.check(o['source'] is source and o['template'] == '{}' and not o['tags'], 'submission')
        c = only(env, rec, 'QueueCommitter' if memory else 'DatabaseCommitter')[0].options
        env.check(c['local' if memory else 'queue'] is o['queue'], 'queue of the committer')
        same(env, c['bundlesize'], size, 'bundle size of the committer')
        same(env, c['bundlewait'], wait, 'bundle wait of the committer')
        if memory:
            client, = only(env, rec, 'QueueClient')
            env.check(c['client'] is client, 'client of the committer')
            check_queue(env, client, address, auth)
    if 'no_confirm' in given:
        only(env, rec, 'Confirm', 0)
    else:
        o = only(env, rec, 'Confirm')[0].options
        env.check(o['queue'] is q and bool(o['in_memory']) == memory, 'confirmation')
    o = only(env, rec, 'Receiver')[0].options
    env.check(o['queue'] is q and bool(o['in_memory']) == memory, 'receiver')
    env.check(o['redirect_failures'] is get('redirect_failures'), 'failures')
    o = only(env, rec, 'HeartMonitor')[0].options
    env.check(o['queue'] is q and bool(o['in_memory']) == memory, 'heartbeat monitor')
    env.check(bool(o['no_confirm']) == ('no_confirm' in given), 'confirmation of the heartbeat monitor')
    same(env, o['evict_after'], get('evict_after', 600), 'eviction period')


@harness('A09', quick=[dict(most=2)], thorough=[dict(most=4)], covers=('all', 'defaults'))
def client_parts(env, most):
    """The parts of a client work with the options given to it."""
    env.fresh()
    client = sys.modules['hypershell.client']
    rec = {n: Recorder(env, client, n) for n in CLIENT_PARTS}
    queues = []
    real = client.Queue
    env.patch(client, 'Queue', lambda maxsize=0: queues.append((real(), maxsize)) or queues[-1][0])
    out, err = Out(), Out()
    values = dict(bundlesize=env.int('bundlesize', 1, 999), bundlewait=env.int('bundlewait', 0, 999),
                  address=(env.chars('host', 2, SHORT), env.int('port', 1, 65535)), auth=env.chars('auth', 2, SHORT),
                  template=env.chars('template', 2, CharDomain('a{} ')), redirect_output=out, redirect_errors=err,
                  heartrate=env.int('heartrate', 1, 999), capture=True, no_confirm=True,
                  client_timeout=env.int('client_timeout', 1, 999), task_timeout=env.int('task_timeout', 1, 999),
                  task_signalwait=env.int('signalwait', 0, 999))
    given = pick(env, env.flag('all'), values)
    n = env.count('num_tasks', 1, most)
    if n != 1 or env.flag('number'):
        given['num_tasks'] = n
    client.ClientThread(**given)
    get = given.get
    address, auth = get('address', ('localhost', 50_001)), get('auth', '__HYPERSHELL__BAD__AUTHKEY__')
    q, = only(env, rec, 'QueueClient')
    check_queue(env, q, address, auth)
    s = only(env, rec, 'ClientScheduler')[0].options
    env.check(s['queue'] is q and bool(s['no_confirm']) == ('no_confirm' in given), 'scheduler')
    same(env, s['timeout'], get('client_timeout'), 'timeout')
    c = only(env, rec, 'ClientCollector')[0].options
    env.check(c['queue'] is q, 'collector')
    same(env, c['bundlesize'], get('bundlesize', 1), 'bundle size')
    same(env, c['bundlewait'], get('bundlewait', 5), 'bundle wait')
    h = only(env, rec, 'ClientHeartbeat')[0].options
    env.check(h['queue'] is q, 'heartbeat')
    same(env, h['heartrate'], get('heartrate', 10), 'heart rate')
    ids = set()
    for made in only(env, rec, 'TaskExecutor', n):
        o = made.options
        ids.add(o['id'])
        env.check(o['inbound'] is s['local'] and o['outbound'] is c['local'], 'executor is not connected')
        env.check(o['redirect_output'] is get('redirect_output') and o['redirect_errors'] is get('redirect_errors'),
                  'output of tasks')
        same(env, o['template'], get('template', '{}'), 'template')
        same(env, bool(o['capture']), 'capture' in given, 'capture')
        same(env, o['timeout'], get('task_timeout'), 'time limit')
        same(env, o['signalwait'], get('task_signalwait', 10), 'signal wait')
    env.check(len(ids) == n and s['local'] is not c['local'], 'executors are not distinct')
    for q, maxsize in queues:          # a client takes no more than it needs from the server
        env.check(maxsize > 0, 'unlimited local queue')
        same(env, maxsize, get('bundlesize', 1), 'size of the local queues')
    env.cover('all' if len(given) > 5 else 'defaults')


@harness('A09', quick=[dict()], covers=('fixed', 'random', 'none'))
def delayed_start(env):
    """A client connects after the given time, or after a random time up to it if it is negative."""
    env.fresh()
    client = sys.modules['hypershell.client']
    for n in CLIENT_PARTS:
        Recorder(env, client, n)
    slept, asked = [], []
    env.on_sleep = slept.append
    x = env.int('random', 0, 1000)

    def uniform(a, b):
        asked.append((a, b))
        return a + (b - a) * x / 1000
    import random
    env.patch(random, 'uniform', uniform)
    env.patch(random, 'random', lambda: uniform(0, 1))
    delay = env.int('delay', -600, 600)
    th = client.ClientThread(delay_start=delay)
    th.wait_start()
    total = sum(slept)
    if delay == 0:
        env.cover('none')
        env.check(total == 0, 'unexpected delay')
    elif delay > 0:
        env.cover('fixed')
        env.check(sym_and(len(slept) == 1, total == delay), 'not the given delay')
    else:
        env.cover('random')
        env.check(sym_and(total >= 0, total <= -delay), 'random delay out of range')
        env.check(len(asked) == 1, 'not a random time')
        part = -delay * x / 1000
        env.check(sym_or(sym_and(total - part < 1e-6, part - total < 1e-6),
                         sym_and(total + delay + part < 1e-6, -delay - part - total < 1e-6)), 'not the given range')


@harness('A09', quick=[dict()], covers=('serve_from', 'serve_file', 'serve_forever', 'run_client', 'failed'))
def functions(env):
    """The functions of the library pass on every option, read the given file, and stop what fails."""
    env.fresh()
    server, client = sys.modules['hypershell.server'], sys.modules['hypershell.client']
    fails = env.flag('fails')
    rec = {}
    for mod, n in ((server, 'ServerThread'), (client, 'ClientThread')):
        rec[n] = Recorder(env, mod, n)
    boom = RuntimeError('failed')
    if fails:
        for mod, n in ((server, 'ServerThread'), (client, 'ClientThread')):
            stand = getattr(mod, n)

            def join(self, timeout=None):
                self.calls.append('join')
                raise boom
            stand.join = join
    which = env.choose('function', ['serve_from', 'serve_file', 'serve_forever', 'run_client'])
    env.cover(which)
    out, err = Out(), Out()
    if which == 'run_client':
        values = dict(num_tasks=env.int('num_tasks', 1, 99), bundlesize=env.int('bundlesize', 1, 999),
                      bundlewait=env.int('bundlewait', 0, 999), address=('h', env.int('port', 1, 65535)),
                      auth=env.chars('auth', 2, SHORT), template=env.chars('template', 2, SHORT), redirect_output=out,
                      redirect_errors=err, heartrate=env.int('heartrate', 1, 999), capture=True,
                      delay_start=env.int('delay', -9, 9), no_confirm=True, client_timeout=env.int('client_timeout', 1, 999),
                      task_timeout=env.int('task_timeout', 1, 999), task_signalwait=env.int('signalwait', 0, 999))
        defaults = dict(num_tasks=1, bundlesize=1, bundlewait=5, address=('localhost', 50_001), template='{}',
                        auth='__HYPERSHELL__BAD__AUTHKEY__', redirect_output=None, redirect_errors=None, heartrate=10,
                        capture=False, delay_start=0, no_confirm=False, client_timeout=None, task_timeout=None,
                        task_signalwait=10)
        name, args = 'ClientThread', ()
    else:
        values = dict(bundlesize=env.int('bundlesize', 1, 999), bundlewait=env.int('bundlewait', 0, 999),
                      address=('h', env.int('port', 1, 65535)), auth=env.chars('auth', 2, SHORT),
                      max_retries=env.int('retries', 0, 99), eager=True, redirect_failures=out,
                      evict_after=env.int('evict', 1, 999), no_confirm=True, in_memory=True)
        defaults = dict(bundlesize=1, bundlewait=5, address=('localhost', 50_001), auth='__HYPERSHELL__BAD__AUTHKEY__',
                        max_retries=0, eager=False, redirect_failures=None, evict_after=600, no_confirm=False,
                        in_memory=False, restart_mode=False)
        name = 'ServerThread'
        if which == 'serve_forever':
            del values['bundlewait'], defaults['bundlewait']
            args = ()
        elif which == 'serve_file':
            args = os.path.join(env.scratch, 'tasks.in'),
            with open(args[0], 'w') as f:
                f.write('a\nb\n')
        else:
            values['restart_mode'] = True
            args = ['a', 'b'],
    given = pick(env, env.flag('all'), values)
    failed = None
    try:
        getattr(client if which == 'run_client' else server, which)(*args, **given)
    except Exception as e:
        failed = e
    made, = only(env, rec, name)
    env.check(failed is (boom if fails else None), 'error of the component')
    env.check(made.calls[:2] == ['start', 'join'], 'component not run')
    env.check(('stop' in made.calls) == fails, 'stopped without reason' if not fails else 'not stopped')
    if fails:
        env.cover('failed')
    o = made.options
    for k in defaults:
        want = given.get(k, defaults[k])
        if isinstance(want, tuple):
            env.check(sym_and(o[k][0] == want[0], o[k][1] == want[1]), f'{k} is lost')
        elif isinstance(want, Out):
            env.check(o[k] is want, f'{k} is lost')
        else:
            same(env, o[k], want, f'{k} is lost')
    if which == 'serve_from':
        env.check(o['source'] is args[0] and not o['forever_mode'], 'source')
    elif which == 'serve_file':
        env.check(o['source'].name == args[0] and o['source'].closed and not o['forever_mode'], 'source file')
    elif which == 'serve_forever':
        env.check(not o['source'] and o['forever_mode'] is True, 'forever')




@harness('A09', quick=[dict()], covers=('waited',))
def query_pause(env):
    """With nothing to schedule the server asks the database again after the configured period."""
    wait = env.int('wait', 1, 600)
    env.fresh(server__wait=wait)
    server = sys.modules['hypershell.server']
    pauses = []

    def sleep(secs):
        pauses.append(secs)
        if len(pauses) == 3:
            env.cover('waited')
            raise Stop()
    env.on_sleep = sleep
    try:
        server.Scheduler(queue=None, forever_mode=True).run()
    except Stop:
        pass
    Session.remove()
    for p in pauses:
        env.check(p == wait, 'not the configured period')


class Touched(Exception):
    pass


class NoSession:
    """In place of the session: records that the database was used."""

    def __init__(self, events):
        self.events = events

    def __call__(self, **kw):
        self.events.append('use')
        raise Touched('database used')

    def has(self):
        return False

    def clear(self):
        pass


def watch_database(env, events, has_table=True, fails=None):
    """Creation of tables and inspection of the database are recorded."""
    def create_all(self, bind=None, **kw):
        events.append('create')
        if fails is not None:
            raise fails

    class Inspector:
        def has_table(self, name, schema=None, **kw):
            return has_table if name in ('task', 'client') else False

    def inspector(subject, *args, **kw):
        if subject is not engine:
            return real(subject, *args, **kw)
        events.append('check')
        if fails is not None:
            raise fails
        return Inspector()
    real, engine = sqlalchemy.inspect, sys.modules['hypershell.data.core'].engine
    env.patch(sqlalchemy.MetaData, 'create_all', create_all)
    for n, m in list(sys.modules.items()):
        if m is not None and n.split('.')[0] == 'hypershell' and vars(m).get('inspect') is real:
            env.patch(m, 'inspect', inspector)


SUBMIT = dict(submit__bundlesize='int', submit__bundlewait='int')


@harness('A10', quick=[dict()], covers=('file', 'stdin', 'given', 'defaults', 'tags', 'create', 'check', 'nowhere', 'failed'))
def submit_program(env):
    """`hs submit` submits the given file with the given options, the others from the configuration."""
    conf = settings(env, SUBMIT)
    where = env.choose('database', ['file', 'memory', 'none', 'postgres'])
    db = {'file': dict(database__provider='sqlite', database__file='/d/x.db'),
          'memory': dict(database__provider='sqlite', database__file=':memory:'),
          'none': dict(database__provider='sqlite', database__file=''),
          'postgres': dict(database__provider='postgres', database__database='d')}[where]
    new = env.fresh(**conf, **db)
    submit = sys.modules['hypershell.submit']
    env.check('file' in new.database or where not in ('file', 'memory'), 'configuration of the check')
    rec = {n: Recorder(env, submit, n) for n in ('SubmitThread', 'LiveSubmitThread')}
    calls = []
    boom = env.choose('fails', [None, 'submit', 'check']) if where in ('file', 'postgres') else None

    watch_database(env, calls, True, RuntimeError('no database') if boom == 'check' else None)
    stand = submit.SubmitThread
    stand.task_count = 2

    def start(self):
        self.calls.append('start')
        env.check(bool(calls), 'submits before the database is ready')
        self.lines = list(self.options['source'])

    def join(self, timeout=None):
        self.calls.append('join')
        if boom == 'submit':
            raise RuntimeError('failed')
    stand.start, stand.join = start, join
    given = env.choose('given', [None, 'bundlesize', 'bundlewait', 'template', 'tags', 'all'])
    argv = []

    def give(name, flag, value, other):
        if given in (name, 'all'):
            argv.extend([flag, value])
            return value
        return other
    want = dict(bundlesize=give('bundlesize', env.choose('spell', ['-b', '--bundlesize']), env.int('bundlesize', 1, 999),
                                conf['submit__bundlesize']),
                bundlewait=give('bundlewait', '-w', env.int('bundlewait', 0, 999), conf['submit__bundlewait']),
                template=give('template', '-t', 'x' + env.chars('template', 2, CharDomain('a {}\'"$-')), '{}'))
    init = env.flag('initdb')
    if init:
        argv.append('--initdb')
    path = os.path.join(env.scratch, 'tasks.in')
    with open(path, 'w') as f:
        f.write('a\nb\n')
    source = env.choose('source', [path, '-', None])
    if source:
        argv.append(source)
    tags = {}
    if given in ('tags', 'all'):
        env.cover('tags')
        value = env.chars('tag', 2, CharDomain('ab-'))
        argv += ['--tag', 'k:' + value, 'n:12', 'bare']
        tags = {'k': value, 'n': 12, 'bare': ''}
    if not argv:
        argv = ['-']
    stdin = Out()
    stdin.seek = None
    type(stdin).__iter__ = lambda self: iter(['c\n'])
    status, out = run_app(env, submit.SubmitApp, argv, stdin=stdin)
    made = rec['SubmitThread'].made
    env.check(not rec['LiveSubmitThread'].made, 'tasks do not go to the database')
    if where in ('memory', 'none'):
        env.cover('nowhere')
        env.check(status != 0 and not made and not calls, 'submits to a database nobody can read')
        return
    ready = 'create' if where == 'file' or init else 'check'
    env.check(calls == [ready], 'database not prepared')
    env.cover(ready)
    if boom == 'check':
        env.check(status != 0 and not made, 'submits to a database that is not ready')
        return
    env.check(len(made) == 1 and made[0].calls[:2] == ['start', 'join'], 'nothing is submitted')
    env.check((status == 0) == (boom is None), f'status {status} {env.tracebacks}')
    if boom:
        env.cover('failed')
        env.check('stop' in made[0].calls, 'not stopped')
    got = made[0].options
    for k, v in want.items():
        same(env, got[k], v, f'{k} of the submission')
    t = got['tags'] or {}
    env.check(set(t) == set(tags), 'tags')
    for k, v in tags.items():
        same(env, t[k], v, 'value of a tag')
    if source == path:
        env.cover('file')
        env.check(got['source'].name == path and made[0].lines == ['a\n', 'b\n'], 'not the given file')
        env.check(got['source'].closed, 'task file left open')
    else:
        env.cover('stdin')
        env.check(got['source'] is stdin and not stdin.closed, 'not the standard input')
    env.cover('defaults' if given is None else 'given')


@harness('A10', quick=[dict()], covers=('database', 'server', 'file', 'lines', 'failed'))
def submit_library(env):
    """`submit_from` and `submit_file` submit the given lines with the given options, to the database or a server."""
    submit = sys.modules['hypershell.submit']
    rec = {n: Recorder(env, submit, n) for n in ('SubmitThread', 'LiveSubmitThread')}
    fails = env.flag('fails')
    for n in rec:
        stand = getattr(submit, n)
        stand.task_count = 2

        def start(self):
            self.calls.append('start')
            self.lines = list(self.options['source'])

        def join(self, timeout=None):
            self.calls.append('join')
            if fails:
                raise RuntimeError('failed')
        stand.start, stand.join = start, join
    conf = QueueConfig(host='h', port=env.int('port', 1, 65535), auth='k') if env.flag('live') else None
    want = dict(bundlesize=env.int('bundlesize', 1, 999), bundlewait=env.int('bundlewait', 0, 999),
                template='x' + env.chars('template', 2, CharDomain('a {}\'"$-')), tags={'k': 'v', 'n': 12})
    lines = ['a\n', 'b\n']
    error = None
    try:
        if env.flag('file'):
            env.cover('file')
            path = os.path.join(env.scratch, 'lines.in')
            with open(path, 'w') as f:
                f.write(''.join(lines))
            n = submit.submit_file(path, queue_config=conf, **want)
        else:
            env.cover('lines')
            n = submit.submit_from(lines, queue_config=conf, **want)
    except RuntimeError as err:
        error = err
    made, other = (rec['LiveSubmitThread'].made, rec['SubmitThread'].made) if conf else \
        (rec['SubmitThread'].made, rec['LiveSubmitThread'].made)
    env.cover('server' if conf else 'database')
    env.check(len(made) == 1 and not other, 'tasks go to another place than asked')
    got, = made
    for k in ('bundlesize', 'bundlewait', 'template'):
        same(env, got.options[k], want[k], f'{k} of the submission')
    env.check(got.options['tags'] == want['tags'], 'tags of the submission')
    env.check(not conf or got.options['queue_config'] is conf, 'another server')
    env.check(got.lines == lines, 'lines of the submission')
    env.check('join' in got.calls, 'does not wait for the submission')
    if fails:
        env.cover('failed')
        env.check(error is not None, 'the failure is not reported')
        env.check('stop' in got.calls, 'a failed submission goes on')
    else:
        env.check(error is None and n == 2, 'number of tasks')


UUID = '01234567-89ab-cdef-0123-456789abcdef'
COMMANDS = {'server': ['server', '-'], 'cluster': ['cluster', '-'], 'submit': ['submit', '-'],
            'task submit': ['task', 'submit', 'echo', 'a'], 'task info': ['task', 'info', UUID],
            'task wait': ['task', 'wait', UUID], 'task run': ['task', 'run', 'echo', 'a'],
            'task search': ['task', 'search', 'args'], 'task update': ['task', 'update', UUID, 'exit_status', '1']}
RUNS = {'server': {'ServerThread'}, 'cluster': {'ServerThread', 'ClientThread'}, 'submit': {'SubmitThread'}}


@harness('A11', quick=[dict(most=2)], thorough=[dict(most=4)],
         covers=('create', 'check', 'not ready', 'unreachable', 'no database', 'in memory', 'without'))
def ready_database(env, most):
    """Programs run only with a database that is ready: tables made for SQLite or on request, else looked for."""
    name = env.choose('command', list(COMMANDS))
    where = env.choose('where', ['file', 'database', 'memory', 'empty', 'unnamed', 'postgres', 'postgresql'])
    file = env.text('file', most, 1, CharDomain('ab/.:'))
    db = {'file': dict(database__provider='sqlite', database__file=file),
          'database': dict(database__provider='sqlite', database__database=file, database__file=None),
          'memory': dict(database__provider='sqlite', database__file=':memory:'),
          'empty': dict(database__provider='sqlite', database__file=''),
          'unnamed': dict(database__provider='sqlite', database__database='', database__file=''),
          'postgres': dict(database__provider='postgres', database__database='d'),
          'postgresql': dict(database__provider='postgresql', database__database='d')}[where]
    env.fresh(**db)
    sqlite = not where.startswith('postgres')
    nowhere = where in ('memory', 'empty', 'unnamed')
    top = sys.modules['hypershell']
    rec = {'ServerThread': Recorder(env, sys.modules['hypershell.server'], 'ServerThread'),
           'ClientThread': Recorder(env, sys.modules['hypershell.client'], 'ClientThread'),
           'SubmitThread': Recorder(env, sys.modules['hypershell.submit'], 'SubmitThread')}
    sys.modules['hypershell.submit'].SubmitThread.task_count = 0
    for n, m in list(sys.modules.items()):
        if m is not None and n.split('.')[0] == 'hypershell' and 'DATABASE_ENABLED' in vars(m):
            env.patch(m, 'DATABASE_ENABLED', not nowhere)
    events = []
    reachable = env.flag('reachable')
    there = env.bool('tables')
    watch_database(env, events, there, None if reachable else
                   sqlalchemy.exc.OperationalError('connect', None, RuntimeError('no connection')))
    env.patch(Session, 'registry', NoSession(events))
    argv = list(COMMANDS[name])
    if name in ('server', 'cluster') and env.flag('restart'):
        argv[1] = '--restart'
    option = env.choose('option', ([None, '--initdb'] if argv[1] == '--restart' else [None, '--initdb', '--no-db']) if name in ('server', 'cluster') else
                        [None, '--initdb'] if name == 'submit' else [None])
    if option:
        argv.insert(1, option)
    if nowhere and name == 'cluster' and not reachable:
        env.end('does not apply')
    status, out = run_app(env, top.HyperShellApp, argv)
    started = {k for k, r in rec.items() if any('start' in m.calls for m in r.made)}
    want = RUNS.get(name, set())
    env.check(not [e for e in events[:1] if e == 'use'], 'uses a database that may not be ready')
    if option == '--no-db':
        env.cover('without')
        if name == 'server':
            env.check(not events, 'database used in spite of --no-db')
        if reachable or name == 'server':
            env.check(status == 0 and started == want, f'does not run without a database: {status} {env.tracebacks}')
        return
    if nowhere and name != 'cluster':
        env.cover('no database')
        env.check(status != 0 and not started and 'use' not in events, 'runs without a database')
        return
    create = sqlite or option == '--initdb'
    if not reachable:
        env.cover('unreachable')
        env.check(status != 0 and not started and 'use' not in events, 'runs though the database fails')
        return
    env.check(events[:1] == ['create' if create else 'check'], f'database not prepared: {events}')
    if not create and not there:
        env.cover('not ready')
        env.check(status != 0 and not started and 'use' not in events, 'runs with a database that is not ready')
        return
    env.cover('in memory' if nowhere else 'create' if create else 'check')
    if want:
        env.check(status == 0 and started == want, f'does not run: {status} {started} {env.tracebacks}')
    else:
        env.check(events[-1] == 'use', 'does not use the database')
