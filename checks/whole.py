"""Whole runs: the real server and client threads together, over stand-in queues, processes and clock (E01)."""
import io
import sys
from sx.env import harness
from sx.core import sym_and, sym_or, sym_not, sym_implies, mkdt, PathEnd
from sx.des import Des, Hub, ProcStub, replace_everywhere
from sqlalchemy.exc import OperationalError
from sx.dbenv import task_row
from checks.sched_db import table, same_row, norm_row, ALL
from checks.server import no_database, Sink
from hypershell.data.model import Task, Client
from hypershell.data.core import Session
from hypershell.core.queue import QueueServer, QueueClient
from hypershell.core import logging
from hypershell import server as server_mod
from hypershell.core import signal as signal_mod
from hypershell import client as client_mod

S = 1_000_000


def range_(a, b, step=1):
    return list(range(a, b, step))


class Run:
    """One server, some clients, and what the task processes did."""

    def __init__(self, env, switches=0):
        self.env = env
        env.clock_step = 1
        env.call_limit = 30_000
        self.des = Des(env, switches)
        self.hub = Hub(env)
        if hasattr(client_mod, 'CLIENT_STANDALONE_MODE'):
            env.patch(client_mod, 'CLIENT_STANDALONE_MODE', True)      # a new process
        replace_everywhere(env, QueueServer, self.hub.make_server)
        replace_everywhere(env, QueueClient, self.hub.make_client)
        self.runs = []            # (command, process)
        self.ends = {}            # who -> when it ended
        self.plan = {}            # command -> list of (duration, status) per attempt
        env.on_popen = self.popen

    def popen(self, args, **kw):
        k = sum(1 for c, _ in self.runs if c == args)
        options = self.plan[args]
        duration, status = options[min(k, len(options) - 1)]
        p = ProcStub(self.env, args, duration, status, options=kw)
        self.runs.append((args, p))
        p.where = self.des.group.get(self.des.active)
        return p


def start(run, delay, make, who=None):
    """Start a thread after a while."""
    box = []

    def go():
        if delay:
            run.env.sched.wait(None, 'delay', run.env.t + delay)
        try:
            th = make()
            th.start()
            th.join()
            box.append(None)
        except Exception as err:
            box.append(err)
        run.ends[who] = run.env.t
        if who:
            run.des.strike(who)       # the program ends and its daemon threads with it
    if who:
        run.des.identity[who] = {logging.INSTANCE: f'id-of-{who}', logging.HOSTNAME: 'node'}
    run.des.spawn('starter', go, group=who)
    return box


def source(env, lines, gaps):
    for line, gap in zip(lines, gaps):
        if gap:
            env.sched.wait(None, 'source', env.t + gap)
        yield line


def outcome(env, box, what, left=False):
    """The program ended without error (`left`: the server may have gone first)."""
    env.check(bool(box), f'{what} never ended')
    err = box[0]
    if err is not None and not (left and isinstance(err, EOFError)):
        env.fail(f'{what} failed: {type(err).__name__}: {err}')


def crashes(env, left=False):
    bad = [e for e in env.tracebacks if not (left and isinstance(e, EOFError))]
    env.check(not bad, f'a component crashed: {[str(e) for e in bad]}')


@harness('E01', quick=[dict(n=2, clients=1), dict(n=3, clients=2, mode='plain')],
         thorough=[dict(n=2, clients=1), dict(n=3, clients=2), dict(n=2, clients=1, switches=1)],
         covers=('retry', 'memory', 'done', 'slow'), liveness=True)
def whole_run(env, n, clients, mode=None, switches=0):
    """Every task of the source runs, failures as often as allowed; results are stored; everything ends."""
    memory = mode is None and env.flag('in_memory')
    no_confirm = mode is None and env.flag('no_confirm')
    retries = 0 if memory else env.count('retries', 0, 1)
    eager = retries > 0 and env.flag('eager')
    size = env.choose('bundlesize', [1, 2])
    run = Run(env, switches)
    given = memory
    if memory:
        no_database(env)
        given = env.flag('given')
        if not given:         # no database configured
            for m in list(sys.modules.values()):
                if getattr(m, '__name__', '').startswith('hypershell') and hasattr(m, 'DATABASE_ENABLED'):
                    env.patch(m, 'DATABASE_ENABLED', False)
    lines = [f'task {i}' for i in range(n)]
    for i, line in enumerate(lines):
        first = env.int(f'status{i}', 0, 2) if i < 2 else 0
        run.plan[line] = [(env.choose(f'duration{i}', [S // 3, 4 * S]) if i == 0 else S // 2, first), (S, 0)]
    gap = env.choose('gap', [0, 22 * S])
    failures = Sink()
    if memory and env.flag('slow'):      # a stream that takes its time: results pile up
        env.cover('slow')
        write = failures.write
        failures.write = lambda text: (env.sched.wait(None, 'write', env.t + 9 * S), write(text))
    srv = start(run, 0, lambda: server_mod.ServerThread(
        source=source(env, lines, [0] * (n - 1) + [gap]), bundlesize=size, in_memory=given, no_confirm=no_confirm,
        max_retries=retries, eager=eager, redirect_failures=failures, evict_after=60))
    cls = [start(run, env.choose(f'late{i}', [0, 3 * S]) if i else 0, lambda i=i: client_mod.ClientThread(
        num_tasks=1 + i, bundlesize=size, bundlewait=2, no_confirm=no_confirm), who=f'client{i}')
           for i in range(clients)]
    how = run.des.run()
    env.check(how == 'done', f'the system hangs: {run.des.waiting() if how != "done" else ""} {[str(e) for e in env.tracebacks]}')
    env.db.hook = None
    outcome(env, srv, 'server')
    for c in cls:
        outcome(env, c, 'client')
    crashes(env)
    Session.remove()
    env.cover('done')
    env.observe('runs', [c for c, _ in run.runs])
    want_fail = ''
    for i, line in enumerate(lines):
        status = run.plan[line][0][1]
        k = sum(1 for c, _ in run.runs if c == line)
        if status == 0:
            env.check(k == 1, f'a successful task ran {k} times')
        else:
            env.check(k == 1 + retries, f'a failed task ran {k} times instead of {1 + retries}')
            env.check(failures.text.count(line + '\n') == 1, 'a failed task is not listed once')
            if retries:
                env.cover('retry')
    if memory:
        env.cover('memory')
        return
    rows = table(env)
    by = {}
    for r in rows.values():
        by.setdefault(r['args'], []).append(r)
    env.check(set(by) == set(lines), 'tasks lost or invented')
    for i, line in enumerate(lines):
        plan = run.plan[line]
        rs = sorted(by[line], key=lambda r: r['attempt'])
        k = sum(1 for c, _ in run.runs if c == line)
        env.check(len(rs) == k, 'a run without its own record')
        for j, r in enumerate(rs):
            d, s = plan[j]
            env.check(sym_and(r['exit_status'] == s, r['attempt'] == j + 1), 'recorded status is not that of the run')
            env.check(r['completion_time'] is not None and r['start_time'] is not None, 'unfinished record')
            if r['completion_time'] is not None and r['start_time'] is not None:
                took = r['completion_time'] - r['start_time']
                env.check(took >= mkdt(d) - mkdt(0), 'recorded run time is shorter than the run')
                env.check(took <= mkdt(d + S) - mkdt(0), 'recorded run time is longer than the run')
            env.check(sym_and(r['command'] == line, r['client_id'] is not None), 'record incomplete')
    for c in env.db.rows('client'):
        env.check(sym_and(c['disconnected_at'] is not None, c['evicted'] == False), 'client not recorded as gone')  # noqa


@harness('E01', quick=[dict(n=3)], thorough=[dict(n=5)], covers=('memory', 'stored', 'same', 'empty', 'retry'), liveness=True)
def late_clients(env, n):
    """Clients may connect long after the source is read; lines may repeat or be empty: each is a task."""
    memory = env.flag('in_memory')
    env.cover('memory' if memory else 'stored')
    retries = 0 if memory else env.count('retries', 0, 1)
    run = Run(env)
    if memory:
        no_database(env)
    kind = env.choose('lines', ['same', 'empty'])
    env.cover(kind)
    lines = [['same', ''][kind == 'empty' and i == 1] for i in range(n)]
    bad = env.int('status', 0, 2)           # one of the runs of the repeated line may fail
    run.plan['same'] = [(S // 2, bad), (S // 2, 0)]
    run.plan[''] = [(S // 2, 0)]
    failures = Sink()
    srv = start(run, 0, lambda: server_mod.ServerThread(
        source=source(env, [line + '\n' for line in lines], [0] * n), bundlesize=n, in_memory=memory,
        max_retries=retries, redirect_failures=failures, evict_after=60))
    late = env.choose('late', [0, 20 * S, 300 * S])
    cl = start(run, late, lambda: client_mod.ClientThread(num_tasks=2, bundlewait=2), who='client0')
    how = run.des.run()
    env.check(how == 'done', f'the system hangs: {run.des.waiting() if how != "done" else ""} {[str(e) for e in env.tracebacks]}')
    env.db.hook = None
    outcome(env, srv, 'server')
    outcome(env, cl, 'client')
    crashes(env)
    Session.remove()
    again = retries if bool(bad != 0) else 0
    if again:
        env.cover('retry')
    got = [c for c, _ in run.runs]
    env.observe('runs', sorted(got))
    env.check(got.count('') == lines.count('') and len(got) == n + again, 'not every line is run as often as given')
    env.check(failures.text == ('same\n' if bool(bad != 0) else ''), 'list of failed tasks')
    if not memory:
        rows = list(table(env).values())
        env.check(len(rows) == n + again, 'tasks lost or invented')
        env.check(all(r['exit_status'] is not None and r['completion_time'] is not None for r in rows), 'unfinished record')
        env.check(sum(1 for r in rows if bool(r['exit_status'] != 0)) == (1 if bool(bad != 0) else 0), 'recorded status')


@harness('E02', quick=[dict(n=2, points=range_(0, 60, 3)), dict(n=3, points=range_(0, 90, 9))],
         thorough=[dict(n=2, points=range_(0, 150)), dict(n=3, points=range_(0, 150))],
         covers=('died', 'rerun', 'idle', 'working'), liveness=True)
def dead_client(env, n, points):
    """A client dies at any point: what it had confirmed is run by the others, nothing is lost, everything ends."""
    run = Run(env)
    size = env.choose('bundlesize', [1, 2])
    lines = [f'task {i}' for i in range(n)]
    for i, line in enumerate(lines):
        run.plan[line] = [(env.choose(f'duration{i}', [S // 2, 5 * S]) if i == 0 else 2 * S, 0)] * 2
    point = env.choose('point', points)
    state = dict(left=point, taken=False, died=None)

    def on_point(group, label):
        if group == 'client0' and state['died'] is None:
            state['left'] -= 1
            if state['left'] < 0:
                state['died'] = env.t
                if state['taken']:
                    env.end('dies between taking a bundle and confirming it')
                run.des.strike('client0')
    run.des.on_point = on_point
    srv = start(run, 0, lambda: server_mod.ServerThread(source=lines, bundlesize=size, evict_after=20))
    cls = [start(run, S * i, lambda i=i: client_mod.ClientThread(
        num_tasks=1, bundlesize=size, bundlewait=2, heartrate=5), who=f'client{i}') for i in range(2)]

    def took(bundle):
        if bundle is not None and run.des.group.get(run.des.active) == 'client0':
            state['taken'] = True

    def confirmed(_):
        if run.des.group.get(run.des.active) == 'client0':
            state['taken'] = False

    def watch():
        env.sched.wait(lambda: run.hub.everything, 'server')
        q = run.hub.everything[0]
        q.scheduled.on_get, q.confirmed.on_put = took, confirmed
    run.des.spawn('watch', watch)
    how = run.des.run()
    env.check(how == 'done', f'the system hangs: {run.des.waiting() if how != "done" else ""} {[str(e) for e in env.tracebacks]}')
    env.db.hook = None
    outcome(env, srv, 'server')
    outcome(env, cls[1], 'client')
    crashes(env)
    Session.remove()
    env.observe('runs', [c for c, _ in run.runs])
    rows = table(env)
    env.check(sorted(r['args'] for r in rows.values()) == sorted(lines), 'tasks lost or invented')
    for r in rows.values():
        env.check(sym_and(r['exit_status'] == 0, r['completion_time'] is not None), 'a task is not finished')
        k = sum(1 for c, _ in run.runs if c == r['args'])
        env.check(1 <= k <= 2, f'a task is run {k} times')
        if k == 2:
            env.cover('rerun')
            env.check(r['client_id'] == 'id-of-client1', 'the result is not of the client that ran it')
    if state['died'] is None:
        env.check(all(sum(1 for c, _ in run.runs if c == x) == 1 for x in lines), 'run again without need')
        env.cover('idle')
        return
    env.cover('died')
    clients = {c['id']: c for c in env.db.rows('client')}
    if 'id-of-client0' in clients:
        c = clients['id-of-client0']
        env.check(c['disconnected_at'] is not None, 'dead client still counts as connected')
        if sum(1 for c, _ in run.runs) > n:
            env.check(c['evicted'] == True, 'dead client not evicted')   # noqa
    env.cover('working')


@harness('E03', quick=[dict(n=2, at=range_(0, 9), long=[4, 45], d0=[1, 5])],
         thorough=[dict(n=2, at=range_(0, 12), long=[4, 18, 25, 45, 90], d0=[1, 5, 9, 30]),
                   dict(n=3, at=range_(0, 9, 2), long=[25, 45], d0=[1, 5, 30])],
         covers=('evicted', 'twice', 'back', 'retry'), liveness=True)
def suspended_client(env, n, at, long, d0):
    """A client is suspended for a while (or cut off) and comes back, evicted or not: every task ends up with the
    record of one of its runs, none is lost, and both clients and the server end."""
    run = Run(env)
    retries = env.count('retries', 0, 1)
    lines = [f'task {i}' for i in range(n)]
    for i, line in enumerate(lines):
        s = [env.int(f'status{i}.{j}', 0, 2) if i == 0 else 0 for j in range(2)]
        run.plan[line] = [((env.choose('duration', d0) if i == 0 else 2) * S, s[0])] + [(3 * S, s[1])] + [(S, 0)] * 3
    begin = env.t + env.choose('at', at) * S + S // 2
    end = begin + env.choose('long', long) * S

    def on_point(group, label):
        if group == 'client0' and begin <= env.t < end:
            env.sched.wait(None, 'suspended', end)
    run.des.on_point = on_point
    srv = start(run, 0, lambda: server_mod.ServerThread(source=lines, bundlesize=1, evict_after=15, max_retries=retries))
    cls = [start(run, S * i, lambda i=i: client_mod.ClientThread(
        num_tasks=1, bundlesize=1, bundlewait=2, heartrate=5), who=f'client{i}') for i in range(2)]
    how = run.des.run()
    env.check(how == 'done', f'the system hangs: {run.des.waiting() if how != "done" else ""} {[str(e) for e in env.tracebacks]}')
    env.db.hook = None
    outcome(env, srv, 'server')
    for c in cls:
        outcome(env, c, 'client', left=c is cls[0])
    crashes(env, left=True)
    Session.remove()
    env.observe('runs', [c for c, _ in run.runs])
    rows = table(env)
    env.check({r['args'] for r in rows.values()} == set(lines), 'tasks lost or invented')
    evicted = [c for c in env.db.rows('client') if c['evicted'] == True]   # noqa
    if evicted:
        env.cover('evicted')
    for r in rows.values():
        env.check(r['completion_time'] is not None and r['exit_status'] is not None, 'a task is not finished')
        mine = [(p, p.where) for c, p in run.runs if c == r['args']]
        env.check(sym_or(*[sym_and(r['client_id'] == f'id-of-{w}', r['exit_status'] == p.status,
                                   r['start_time'].replace(tzinfo=None) <= mkdt(p.started, False),
                                   r['completion_time'].replace(tzinfo=None) >= mkdt(p.end, False))
                           for p, w in mine]), 'the record is not that of one run')
        if r['attempt'] > 1:
            env.cover('retry')
        if len(mine) > len([x for x in rows.values() if x['args'] == r['args']]):
            env.cover('twice')
            env.check(env.t > begin, 'run again without need')
    for line in lines:
        last = sorted([r for r in rows.values() if r['args'] == line], key=lambda r: r['attempt'])
        env.check([r['attempt'] for r in last] == list(range(1, len(last) + 1)), 'attempts')
        env.check(len(last) <= 1 + retries, 'too many attempts')
        # NOTE: a second run of the same attempt may fail after the first was recorded as a success
        good = sym_or(*[p.status == 0 for c, p in run.runs if c == line])
        env.check(sym_or(good, len(last) == 1 + retries), 'failed task is not retried')
    for c in env.db.rows('client'):
        env.check(c['disconnected_at'] is not None, 'client not recorded as gone')
    env.cover('back')


@harness('E04', quick=[dict(n=2, points=range_(0, 30, 2) + range_(30, 90, 10))],
         thorough=[dict(n=2, points=range_(0, 120)), dict(n=3, points=range_(0, 200, 3))],
         covers=('failed', 'list', 'late'), liveness=True)
def failing_server(env, n, points):
    """The database (or the list of failures) fails at any point, once or for good: the server ends with that error, and
    so do its clients; nothing hangs."""
    run = Run(env)
    lines = [f'task {i}' for i in range(n)]
    for i, line in enumerate(lines):
        run.plan[line] = [(env.choose(f'duration{i}', [S // 2, 6 * S]) if i == 0 else 2 * S, 1 if i == 0 else 0)] * 2
    boom = OperationalError('statement', {}, Exception('disk I/O error'))
    what = env.choose('what', ['once', 'for good', 'list'])
    left = [env.choose('point', points) if what != 'list' else 0]
    failed = []

    def hook(kind):
        left[0] -= 1
        if left[0] < 0 and (what == 'for good' or not failed):
            failed.append(1)
            raise boom
    failures = Sink()
    if what == 'list':
        def write(s):
            failed.append(1)
            raise boom
        failures.write = write
    else:
        env.db.hook = hook
    srv = start(run, 0, lambda: server_mod.serve_from(
        source(env, lines, [0] * (n - 1) + [env.choose('gap', [0, 9 * S])]), bundlesize=1, redirect_failures=failures,
        max_retries=1, evict_after=30) or Ended())
    cls = [start(run, S * i, lambda i=i: client_mod.ClientThread(
        num_tasks=1, bundlesize=1, bundlewait=2, heartrate=5), who=f'client{i}') for i in range(2)]
    how = run.des.run()
    env.db.hook = None
    env.check(how == 'done', f'the system hangs: {run.des.waiting() if how != "done" else ""} {[str(e) for e in env.tracebacks]}')
    Session.remove()
    env.observe('failed', len(failed))
    if not failed:
        env.cover('late')
        outcome(env, srv, 'server')
        return
    env.cover('list' if what == 'list' else 'failed')
    env.check(srv[0] is boom, f'the failure is not reported: {srv[0]}')


@harness('E04', quick=[dict(points=range_(0, 60, 3))], thorough=[dict(points=range_(0, 240))],
         covers=('waits', 'serves'), liveness=True)
def failing_service(env, points):
    """A server that would never end by itself - its source stays open, or it runs forever - ends when the database fails
    it once, whichever part is affected."""
    run = Run(env)
    for i in range(2):
        run.plan[f'task {i}'] = [(2 * S, 0)]
    boom = OperationalError('statement', {}, Exception('disk I/O error'))
    forever = env.flag('forever')
    env.cover('serves' if forever else 'waits')
    state = dict(left=env.choose('point', points), failed=None)
    if forever:
        for i in range(2):
            Task.add_all([Task.new(args=f'task {i}')])

    def hook(kind):
        if run.des.group.get(run.des.active) == 'server' and state['failed'] is None:
            state['left'] -= 1
            if state['left'] < 0:
                state['failed'] = env.t
                raise boom

    def lines():
        yield 'task 0'
        yield 'task 1'
        env.sched.wait(lambda: False, 'source')
    env.db.hook = hook
    options, t0 = dict(bundlesize=1, evict_after=30), env.t
    srv = start(run, 0, lambda: server_mod.ServerThread(forever_mode=True, **options) if forever
                else server_mod.ServerThread(source=lines(), **options), who='server')
    start(run, S, lambda: client_mod.ClientThread(num_tasks=1, bundlesize=1, bundlewait=2, heartrate=5), who='client')
    run.des.run(until=lambda: bool(srv) or env.t > (t0 if state['failed'] is None else state['failed']) + 60 * S)
    env.db.hook = None
    if state['failed'] is None:
        env.check(not srv, f'ends without a reason: {srv}')
        env.end('nothing failed')
    env.check(bool(srv), f'the server goes on without the part that failed: {run.des.waiting()}')
    env.check(srv[0] is boom, f'the failure is not reported: {srv[0]}')


class Ended:
    def start(self):
        pass

    def join(self):
        pass


@harness('E05', quick=[dict(n=2, points=range_(0, 60, 4)), dict(n=3, points=range_(2, 90, 11))],
         thorough=[dict(n=2, points=range_(0, 150)), dict(n=3, points=range_(0, 200, 2))],
         covers=('died', 'unfinished', 'finished', 'kept', 'more', 'all over'), liveness=True)
def server_dies(env, n, points):
    """The server dies at any point of a run; its clients end; another server on the same database, with other clients,
    finishes what was left and repeats nothing that was recorded as finished."""
    run = Run(env)
    size = env.choose('bundlesize', [1, 2])
    lines = [f'task {i}' for i in range(n)]
    for i, line in enumerate(lines):
        status = env.int('status', 0, 2) if i == 0 else 0
        run.plan[line] = [(env.choose('duration', [S // 2, 6 * S]) if i == 0 else 2 * S, status)] * 2
    run.plan['extra'] = [(S, 0)]
    point = env.choose('point', points)
    state = dict(left=point, died=None)

    def on_point(group, label):
        if group == 'server' and state['died'] is None:
            state['left'] -= 1
            if state['left'] < 0:
                if not run.hub.everything:
                    env.end('dies before it listens')
                state['died'] = env.t
                q = run.hub.everything[0]
                q.open = False
                for x in (q.scheduled, q.completed, q.heartbeat, q.confirmed):
                    x.closed = True
                run.des.strike('server')
    run.des.on_point = on_point
    first = start(run, 0, lambda: server_mod.ServerThread(source=lines, bundlesize=size), who='server')
    workers = env.choose('workers', [1, n])
    client = start(run, S, lambda: client_mod.ClientThread(num_tasks=workers, bundlesize=size, bundlewait=2, heartrate=5),
                   who='client0')
    how = run.des.run(until=lambda: bool(client))
    env.check(how == 'until', f'the client of a dead server goes on: {run.des.waiting()}')
    if state['died'] is None:
        outcome(env, client, 'client')
        env.cover('all over')
        env.end('the run is over before')
    env.cover('died')
    env.tracebacks.clear()
    run.des.become(None)
    Session.remove()
    before = {i: dict(r) for i, r in table(env).items()}
    ran = [c for c, _ in run.runs]
    more = env.flag('more')
    if not before and not more:
        env.end('nothing to restart: a server waits for the first task')
    second = start(run, 0, lambda: server_mod.ServerThread(
        source=['extra'] if more else None, restart_mode=not more, bundlesize=size), who='server2')
    new = start(run, S, lambda: client_mod.ClientThread(num_tasks=2, bundlesize=size, bundlewait=2, heartrate=5), who='client2')
    how = run.des.run()
    env.check(how == 'done', f'the system hangs: {run.des.waiting() if how != "done" else ""} {[str(e) for e in env.tracebacks]}')
    outcome(env, second, 'server')
    Session.remove()
    after = table(env)
    left = [i for i, r in before.items() if r['completion_time'] is None]
    if left or more:
        outcome(env, new, 'client')
        crashes(env)
    again = [c for c, _ in run.runs[len(ran):]]
    env.observe('runs', [ran, again])
    env.check(set(before) <= set(after), 'a task of the database is lost')
    env.check(sorted(again) == sorted([before[i]['args'] for i in left] + ['extra'] * more), 'the second server runs other tasks')
    env.check(sorted(r['args'] for r in after.values()) == sorted([r['args'] for r in before.values()] + ['extra'] * more),
              'tasks invented')
    for i, r in after.items():
        env.check(r['completion_time'] is not None, 'a task is not finished')
        if i in before and i not in left:
            env.cover('finished')
            env.check(same_row(r, before[i], ALL), 'the record of a finished task changed')
            env.cover('kept')
        else:
            env.cover('unfinished' if i in before else 'more')
            p = [p for c, p in run.runs[len(ran):] if c == r['args']][0]
            env.check(sym_and(r['exit_status'] == p.status, r['client_id'] == 'id-of-client2', r['server_id'] == 'id-of-server2'),
                      'the record is not that of the second run')
            env.check(sym_and(r['start_time'].replace(tzinfo=None) <= mkdt(p.started, False),
                              r['completion_time'].replace(tzinfo=None) >= mkdt(p.end, False)), 'times of the second run')


@harness('E05', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('nothing', 'something', 'late'), liveness=True)
def restarted(env, n):
    """A server restarted on its database runs what is left there, and ends, also if nothing is left."""
    run = Run(env)
    attempts = env.count('attempts', 1, 2)
    size = env.choose('bundlesize', [1, 2])
    before = {}
    for i in range(n):
        kind = env.choose(f'task{i}', ['done', 'failed', 'new', 'sent', 'cancelled'])
        r = task_row(env, f'task{i}', submit_time=mkdt(1000 * i, True), args=f'task {i}', command=None, attempt=attempts)
        if kind != 'new':
            r.update(schedule_time=mkdt(10_000, True), server_id='old', server_host='h')
        if kind in ('done', 'failed'):
            r.update(start_time=mkdt(20_000, True), completion_time=mkdt(30_000, True), command=f'task {i}', client_id='c',
                     client_host='h', exit_status=0 if kind == 'done' else env.int(f'status{i}', 1, 3))
        if kind == 'cancelled':
            r.update(exit_status=-1)
        r = norm_row(r)
        env.db.put('task', **r)
        before[r['id']] = (kind, r)
        run.plan[f'task {i}'] = [(S, 0)]
    left = [r['args'] for kind, r in before.values() if kind in ('new', 'sent')]
    env.cover('something' if left else 'nothing')
    server = start(run, 0, lambda: server_mod.ServerThread(
        source=None, restart_mode=True, bundlesize=size, max_retries=attempts - 1), who='server')
    delay = env.choose('delay', [S, 40 * S])
    if delay > S:
        env.cover('late')
    client = start(run, delay, lambda: client_mod.ClientThread(
        num_tasks=env.choose('workers', [1, 2]), bundlesize=size, bundlewait=2, heartrate=5), who='client')
    how = run.des.run()
    env.check(how == 'done', f'the system hangs: {run.des.waiting() if how != "done" else ""} {[str(e) for e in env.tracebacks]}')
    outcome(env, server, 'server')
    outcome(env, client, 'client')
    crashes(env)
    Session.remove()
    after = table(env)
    env.check(set(after) == set(before), 'tasks lost or invented')
    env.check(sorted(c for c, _ in run.runs) == sorted(left), 'runs other tasks than those left')
    for i, (kind, r) in before.items():
        if r['args'] in left:
            p = [p for c, p in run.runs if c == r['args']][0]
            env.check(sym_and(after[i]['exit_status'] == 0, after[i]['completion_time'] is not None), 'a task is not finished')
        else:
            env.check(same_row(after[i], r, ALL), 'the record of a finished task changed')


@harness('E06', quick=[dict(n=3, at=range_(0, 24, 4))], thorough=[dict(n=3, at=range_(0, 40)), dict(n=5, at=range_(0, 40, 2))],
         covers=('stopped', 'over', 'server', 'client', 'memory', 'restart'), liveness=True)
def stopped(env, n, at):
    """A server or client that is told to stop at any moment ends once its running tasks ended, with what it recorded
    true; another server finishes what is left."""
    run = Run(env)
    what = env.choose('what', ['server', 'client'])
    env.cover(what)
    size = env.choose('bundlesize', [1, 2])
    memory = env.flag('in_memory')
    if memory:
        env.cover('memory')
        no_database(env)
    no_confirm = env.flag('no_confirm')
    wait = env.flag('wait')
    forever = what == 'server' and not memory and env.flag('forever')
    lines = [f'task {i}' for i in range(n)]
    for i, line in enumerate(lines):
        run.plan[line] = [(env.choose('duration', [S // 2, 6 * S]) if i == 0 else 2 * S, env.int('status', 0, 2) if i == 0 else 0)]
    if forever:
        for line in lines:
            Task.add_all([Task.new(args=line)])
    when = env.choose('at', at) * S // 2
    made = {}
    gap = env.choose('gap', [0, 9 * S])

    def server():
        made['server'] = th = server_mod.ServerThread(forever_mode=True, bundlesize=size, no_confirm=no_confirm) if forever else \
            server_mod.ServerThread(source=source(env, lines, [0] * (n - 1) + [gap]), bundlesize=size, in_memory=memory,
                                    no_confirm=no_confirm)
        return th

    def client():
        made['client'] = th = client_mod.ClientThread(num_tasks=2, bundlesize=size, bundlewait=2, heartrate=5,
                                                      no_confirm=no_confirm)
        return th
    srv = start(run, 0, server, who='server')
    cl = start(run, S, client, who='client')
    stops = []

    def stop():
        env.sched.wait(None, 'before stop', env.t + S + when + S // 3)
        if (srv if what == 'server' else cl):
            stops.append('over')
            return
        try:
            made[what].stop(wait=wait)
            stops.append(None)
        except Exception as err:
            stops.append(err)
    run.des.spawn('stopper', stop, group='stopper')
    t0 = env.t
    new = [None]
    if what == 'client':           # another client comes later
        # NOTE: without a database a server whose clients all left is done
        new = start(run, 0 if memory else 40 * S, lambda: client_mod.ClientThread(
            num_tasks=1, bundlesize=size, bundlewait=2, heartrate=5, no_confirm=no_confirm), who='client2')
    how = run.des.run(until=lambda: bool(stops and srv and cl and new) or env.t > t0 + 150 * S)
    if stops and stops[0] == 'over':
        env.cover('over')
        outcome(env, srv, 'server')
        outcome(env, cl, 'client', left=True)
        return
    box = srv if what == 'server' else cl
    env.check(bool(box) and bool(stops), f'goes on after it was stopped: {run.des.waiting()}')
    env.check(stops[0] is None, f'stop fails: {stops}')
    outcome(env, box, what)
    env.check(run.ends[what] <= t0 + S + S // 3 + when + (20 * S if what == 'server' else 20 * S), 'takes long to stop')
    env.cover('stopped')
    Session.remove()
    if what == 'client':
        env.check(how == 'until', f'the system hangs: {run.des.waiting()}')
        outcome(env, srv, 'server')
        if run.ends['server'] > t0 + 39 * S:
            outcome(env, new, 'client', left=True)
        if new[0] is None:
            crashes(env, left=True)
        env.check(sorted(c for c, _ in run.runs) == sorted(lines), f'not every task runs once: {[c for c, _ in run.runs]}')
    if memory:
        return
    before = {i: dict(r) for i, r in table(env).items()}
    if what == 'client':
        env.check(all(r['completion_time'] is not None for r in before.values()), 'a result is lost')
    for r in before.values():
        if r['completion_time'] is not None:
            ps = [p for c, p in run.runs if c == r['args']]
            env.check(len(ps) == 1 and r['exit_status'] == ps[0].status, 'not the true result')
    if what == 'client' or not before:
        return
    env.cover('restart')
    ran = len(run.runs)
    env.tracebacks.clear()
    run.des.become(None)
    second = start(run, 0, lambda: server_mod.ServerThread(source=None, restart_mode=True, bundlesize=size), who='server2')
    new = start(run, S, lambda: client_mod.ClientThread(num_tasks=2, bundlesize=size, bundlewait=2, heartrate=5), who='client2')
    how = run.des.run(until=lambda: bool(second and new))
    env.check(how == 'until', f'the system hangs: {run.des.waiting()}')
    outcome(env, second, 'server')
    Session.remove()
    after = table(env)
    again = sorted(c for c, _ in run.runs[ran:])
    env.check(again == sorted(r['args'] for r in before.values() if r['completion_time'] is None), 'the second server runs other tasks')
    env.check(set(before) == set(after) and all(r['completion_time'] is not None for r in after.values()), 'a task is not finished')


@harness('E06', quick=[dict(at=range_(0, 24, 4))], thorough=[dict(at=range_(0, 60))], covers=('cluster', 'over cluster'), liveness=True)
def stopped_cluster(env, at):
    """A local cluster that is told to stop ends, without an error of its own."""
    from hypershell.cluster.local import LocalCluster
    run = Run(env)
    size = env.choose('bundlesize', [1, 2])
    memory = env.flag('in_memory')
    if memory:
        no_database(env)
    wait = env.flag('wait')
    forever = not memory and env.flag('forever')
    lines = [f'task {i}' for i in range(3)]
    for i, line in enumerate(lines):
        run.plan[line] = [(env.choose('duration', [S // 2, 6 * S]) if i == 0 else 2 * S, env.int('status', 0, 2) if i == 0 else 0)]
    if forever:
        for line in lines:
            Task.add_all([Task.new(args=line)])
    when = env.choose('at', at) * S // 2
    gap = env.choose('gap', [0, 9 * S])
    made = {}

    def cluster():
        made['cluster'] = th = LocalCluster(source=None if forever else source(env, lines, [0, 0, gap]), forever_mode=forever,
                                            in_memory=memory, bundlesize=size, num_tasks=2)
        return th
    t0 = env.t
    box = start(run, 0, cluster, who='cluster')
    stops = []

    def stop():
        env.sched.wait(None, 'before stop', env.t + 3 * S + when)
        if box:
            stops.append('over')
            return
        try:
            made['cluster'].stop(wait=wait)
            stops.append(None)
        except Exception as err:
            stops.append(err)
    run.des.spawn('stopper', stop, group='stopper')
    run.des.run(until=lambda: bool(stops and box) or env.t > t0 + 150 * S)
    if stops and stops[0] == 'over':
        env.cover('over cluster')
        outcome(env, box, 'cluster')
        return
    env.cover('cluster')
    env.check(bool(box) and bool(stops), f'goes on after it was stopped: {run.des.waiting()}')
    if wait:
        env.check(stops[0] is None, f'stop fails: {stops}')
    outcome(env, box, 'cluster', left=not wait)       # else its server may go first


@harness('E06', quick=[dict(at=range_(0, 24, 3) + [90])], thorough=[dict(at=range_(0, 60) + [90])],
         covers=('early', 'during', 'over', 'cluster', 'server'), liveness=True)
def signalled(env, at):
    """On SIGUSR1 a local cluster, or a server with its client elsewhere, schedules nothing more, finishes what it
    scheduled, and ends."""
    from hypershell.cluster.local import LocalCluster
    run = Run(env)
    what = env.choose('what', ['cluster', 'server'])
    env.cover(what)
    size = env.choose('bundlesize', [1, 2])
    forever = env.choose('forever', ['no', 'yes', 'empty'])
    lines = [f'task {i}' for i in range(4)] if forever != 'empty' else []
    for i, line in enumerate(lines):
        run.plan[line] = [(env.choose('duration', [S // 2, 6 * S]) if i == 0 else 2 * S, env.int('status', 0, 2) if i == 0 else 0)]
    if forever != 'no':
        for line in lines:
            Task.add_all([Task.new(args=line)])
    when = env.choose('at', at) * S // 2
    gap = env.choose('gap', [0, 9 * S])
    given = dict(forever_mode=True) if forever != 'no' else dict(source=source(env, lines, [0, 0, 0, gap]))
    env.patch(signal_mod, 'RECEIVED', None)
    sent = []
    become = run.des.become

    def turn(group):                # a signal reaches the one process only
        become(group)
        signal_mod.RECEIVED = signal_mod.SIGUSR1 if sent and group in (None, what) else None
    run.des.become = turn
    t0 = env.t
    if what == 'cluster':
        box = start(run, 0, lambda: LocalCluster(bundlesize=size, num_tasks=1, **given), who='cluster')
        cl = [None]
    else:
        box = start(run, 0, lambda: server_mod.ServerThread(bundlesize=size, **given), who='server')
        cl = start(run, S, lambda: client_mod.ClientThread(num_tasks=1, bundlesize=size, bundlewait=2, heartrate=5), who='client')

    def send():
        env.sched.wait(None, 'before signal', t0 + 2 * S + when + S // 3)
        env.cover('over' if box else 'early' if not run.runs else 'during')
        sent.append(sum(r['schedule_time'] is not None for r in table(env).values()))
        Session.remove()
    run.des.spawn('sender', send, group='sender')
    run.des.run(until=lambda: bool(box and cl and sent) or env.t > t0 + 100 * S)
    env.check(bool(box), f'goes on after SIGUSR1: {run.des.waiting()}')
    outcome(env, box, what)
    env.check(bool(cl), f'the client of a server that ended goes on: {run.des.waiting()}')
    outcome(env, cl, 'client', left=True)
    crashes(env, left=True)
    run.des.become(None)
    Session.remove()
    rows = table(env)
    ran = sorted(c for c, _ in run.runs)
    env.check(len(set(ran)) == len(ran), 'a task is run twice')
    env.check(sum(r['schedule_time'] is not None for r in rows.values()) <= sent[0] + size, 'more tasks are scheduled after SIGUSR1')
    for r in rows.values():
        if r['schedule_time'] is None:
            env.check(r['args'] not in ran, 'a task is run that is not scheduled')
        else:
            env.check(r['args'] in ran and r['completion_time'] is not None, 'a scheduled task is not finished')
            late = [p for c, p in run.runs if c == r['args']]
            env.check(not late[0].signals, 'a task is interrupted')


@harness('E05', quick=[dict(n=3, at=range_(0, 20, 2))], thorough=[dict(n=4, at=range_(0, 40))], covers=('left', 'gone'), liveness=True)
def leaving_client(env, n, at):
    """The server dies while a client that was told to leave finishes its tasks: the client ends all the same."""
    run = Run(env)
    size = env.choose('bundlesize', [1, 2])
    workers = env.choose('workers', [1, 2, n])
    how = env.choose('how', ['stop', 'signal', 'timeout'])
    lines = [f'task {i}' for i in range(n)]
    for i, line in enumerate(lines):
        run.plan[line] = [((env.choose('duration', [S // 2, 6 * S]) if i == 0 else 3 * S), 0)]
    when = S + env.choose('at', at) * S // 2
    t0 = env.t
    made = []

    def client():
        made.append(client_mod.ClientThread(num_tasks=workers, bundlesize=size, bundlewait=2, heartrate=5,
                                            client_timeout=3 if how == 'timeout' else None))
        return made[0]
    start(run, 0, lambda: server_mod.ServerThread(
        source=source(env, lines + ['never'], [0] * n + [200 * S]), bundlesize=size, bundlewait=1), who='server')
    cl = start(run, S, client, who='client0')

    def leave():
        if how == 'stop':
            env.sched.wait(None, 'before stop', t0 + 4 * S)
            made[0].stop()
        elif how == 'signal':
            env.sched.wait(None, 'before signal', t0 + 4 * S)
            env.patch(signal_mod, 'RECEIVED', signal_mod.SIGUSR1)
    run.des.spawn('leave', leave, group='leave')

    def die():
        env.sched.wait(None, 'before death', t0 + 4 * S + when)
        q = run.hub.everything[0]
        q.open = False
        for x in (q.scheduled, q.completed, q.heartbeat, q.confirmed):
            x.closed = True
        run.des.strike('server')
    run.des.spawn('die', die, group='die')
    run.des.run(until=lambda: bool(cl) or env.t > t0 + 100 * S)
    env.check(bool(cl), f'the client of a dead server goes on: {run.des.waiting()}')
    env.cover('left' if cl[0] is None else 'gone')
    outcome(env, cl, 'client', left=True)
