"""Server machines: scheduler (S01), receiver and confirmations (S02), heart monitor (S03, S04)."""
import signal
from types import SimpleNamespace as Namespace
from datetime import timedelta
from sx.env import harness
from sx.core import sym_and, sym_or, sym_not, sym_implies, sym_ite, PathEnd, mkdt, mktd
from sx.dbenv import task_row
from checks.sched_db import (any_task, populate, norm_row, table, same, same_row, ALL, KEEP_FIELDS, RUN_FIELDS, PAST,
                             Stop)
from hypershell.data.model import Task, Client
from hypershell.data.core import Session
from hypershell.client import ClientInfo
from hypershell.core.heartbeat import Heartbeat, ClientState
from hypershell.core.logging import INSTANCE
from hypershell.core import signal as signal_mod
from hypershell import server as server_mod


def submitted(env, n, start=0):
    for i in range(start, start + n):
        env.db.put('task', **norm_row(task_row(env, f'task{i}', submit_time=mkdt(1000 * i, True), tag={'k': i})))


class World:
    """The rest of the system as seen by the scheduler: clients run posted tasks, results are recorded any time."""

    def __init__(self, env, early=1):
        self.env = env
        self.out = []          # posted, not finished
        self.posted = []       # (id, previous_id, attempt)
        self.early = early     # completions at other points than sleeping
        self.root = {}
        self.status = {}
        self.n = 0

    def post(self, bundle):
        rows = table(self.env)
        for data in bundle:
            t = Task.unpack(data)
            self.env.check(t.id in rows, 'posted a task that is not stored')
            r = rows[t.id]
            self.env.check(sym_and(t.args == r['args'], t.attempt == r['attempt'], t.tag == r['tag'],
                                   r['schedule_time'] is not None), 'posted task differs from the stored one')
            self.env.check(t.id not in [p[0] for p in self.posted], 'a task is posted twice')
            self.posted.append((t.id, t.previous_id, t.attempt))
            self.out.append(t.id)

    def finish(self, name='status'):
        id = self.out.pop(0)
        self.n += 1
        s = 0 if self.env.flag(f'ok{self.n}') else self.env.int(f'{name}{self.n}', 1, 3)
        self.status[id] = s
        now = self.env.t
        self.env.db.update('task', id, exit_status=s, start_time=mkdt(now, True), completion_time=mkdt(now, True),
                           client_id='c')

    def sleep(self, secs):
        self.env.check(secs > 0, 'polls the database without pause')
        if self.out:
            self.finish()

    def db(self, kind):
        if kind == 'read' and self.out and self.early > 0 and self.env.flag('early'):
            self.early -= 1
            self.finish()


def check_finished(env, world, attempts, what='halted'):
    """Nothing is left to do."""
    rows = table(env)
    ids = [p[0] for p in world.posted]
    for i, r in rows.items():
        env.check(i in ids, f'{what} although a task was never run')
        env.check(r['completion_time'] is not None, f'{what} although a task is not finished')
        s = world.status[i]
        if s != 0:
            has = r['next_id'] in ids if r['next_id'] is not None else False
            env.check(sym_or(r['attempt'] >= attempts, has), f'{what} although a failed task has attempts left')
            env.cover('failed')


@harness('S01', quick=[dict(n=2, attempts=2, full=0), dict(n=2, attempts=1), dict(n=1, attempts=3)],
         thorough=[dict(n=2, attempts=2), dict(n=3, attempts=1), dict(n=2, attempts=2, early=2, full=0),
                   dict(n=3, attempts=2, full=0)],
         covers=('halt', 'failed', 'early'), liveness=True)
def scheduler(env, n, attempts, early=1, full=1):
    """The scheduler posts every task once, retries failures, and ends exactly when nothing is left."""
    submitted(env, n)
    w = World(env, early)
    size = env.count('bundlesize', 1, 2)
    q = env.queue('scheduled', maxsize=1 if full else 3, spurious_full=full, on_put=w.post)
    q.on_full = lambda q: q.items.pop(0)       # a client takes the oldest bundle
    m = server_mod.Scheduler(queue=Namespace(scheduled=q), bundlesize=size, attempts=attempts,
                             eager=attempts > 1 and env.flag('eager'))
    env.on_sleep = w.sleep
    env.db.hook = w.db
    m.run()
    env.db.hook = None
    Session.remove()
    env.cover('halt')
    if w.early < early:
        env.cover('early')
    env.observe('posted', len(w.posted))
    for b in q.log:
        env.check(0 < len(b) <= size, 'bundle size')
    check_finished(env, w, attempts)


@harness('S01', quick=[dict(n=3, k=6)], thorough=[dict(n=4, k=20)], covers=('full', 'halt'), liveness=True)
def backlog(env, n, k):
    """The outbound queue stays full for any while: nothing is dropped or sent twice."""
    submitted(env, n)
    env.call_limit = 300 + 20 * k
    w = World(env, 0)
    size = env.count('bundlesize', 1, n)
    which = env.count('which', 0, n - 1)
    stuck = env.count('stuck', 0, k)
    tries = [0]

    def full(q):
        if len(q.log) == which + 1 and tries[0] < stuck:
            tries[0] += 1
            env.cover('full')
        else:
            w.finish()
            q.items.pop(0)
    q = env.queue('scheduled', maxsize=1, on_put=w.post)
    q.on_full = full
    env.on_sleep = w.sleep
    server_mod.Scheduler(queue=Namespace(scheduled=q), bundlesize=size, attempts=1).run()
    Session.remove()
    env.cover('halt')
    env.observe('posted', w.posted)
    check_finished(env, w, 1)


@harness('S01', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('interrupt', 'none left', 'selected'))
def interrupt(env, n):
    """Interrupted at any pause or put: what was selected is still posted, the rest is left for later."""
    submitted(env, n)
    w = World(env, 0)
    done = []

    def maybe(where):
        if not done and env.flag('interrupt.' + where):
            done.append(where)
            env.patch(signal_mod, 'RECEIVED', env.choose('which', [signal.SIGUSR1, signal.SIGUSR2]))

    def post(bundle):
        w.post(bundle)
        env.check(not late, 'scheduling continues after an interrupt')
        if done:
            late.append(1)
            env.cover('selected')
        maybe('put')
        if done:
            late.append(1)
    late = []

    def sleep(secs):
        env.check(not done or done == ['commit'], 'keeps waiting after an interrupt')
        done.extend(done)
        maybe('sleep')
        if not done:
            w.sleep(secs)
    maybe('start')
    q = env.queue('scheduled', spurious_full=1, on_put=post)
    env.on_sleep = sleep

    def selecting(kind):
        if kind == 'commit' and not done:
            maybe('commit')
    env.db.hook = selecting
    forever = bool(done) and env.flag('forever')
    m = server_mod.Scheduler(queue=Namespace(scheduled=q), bundlesize=1, attempts=1, forever_mode=forever)
    m.run()
    env.db.hook = None
    Session.remove()
    rows = table(env)
    ids = [p[0] for p in w.posted]
    env.observe('ids', ids)
    env.cover('interrupt' if done else 'none left')
    for i, r in rows.items():
        env.check((r['schedule_time'] is not None) == (i in ids), 'a task is marked as scheduled but was not posted')
    if not done:
        check_finished(env, w, 1)


@harness('S01', quick=[dict(n=1)], thorough=[dict(n=2)], covers=('forever', 'waits', 'restart'))
def keeps_waiting(env, n):
    """Forever mode never ends; an empty database waits for the first task; restart mode ends on a finished one."""
    mode = env.choose('mode', ['forever', 'empty', 'old', 'restart'])
    k = n if mode == 'forever' else 0
    submitted(env, k)
    if mode in ('old', 'restart'):
        for i in range(n):
            env.db.put('task', **norm_row(task_row(env, f'old{i}', submit_time=mkdt(1, True), schedule_time=mkdt(2, True),
                                                   start_time=mkdt(3, True), completion_time=mkdt(4, True),
                                                   exit_status=env.int(f'old{i}', 0, 2), server_id='old')))
    w = World(env, 0)
    pauses = []

    def sleep(secs):
        w.sleep(secs)
        pauses.append(secs)
        if len(pauses) == 4:
            if mode == 'forever':
                raise Stop()
            submitted(env, 1, start=50)
        if len(pauses) > 9:
            raise Stop()
    env.on_sleep = sleep
    m = server_mod.Scheduler(queue=Namespace(scheduled=env.queue('scheduled', on_put=w.post)), bundlesize=1, attempts=1,
                             forever_mode=mode == 'forever', restart_mode=mode == 'restart')
    try:
        m.run()
        how = 'halt'
    except Stop:
        how = 'stop'
    env.observe('how', how)
    ids = [p[0] for p in w.posted]
    if mode == 'forever':
        env.cover('forever')
        env.check(how == 'stop', 'ended although it should run forever')
        env.check(len(ids) == k, 'tasks not scheduled')
    elif mode in ('empty', 'old'):
        env.cover('waits')
        env.check(how == 'halt' and ids == ['task50'], 'did not wait for the first task and then end')
    else:
        env.cover('restart')
        env.check(how == 'halt' and not pauses, 'a restarted server waits although everything is finished')


@harness('S01', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('none', 'idle', 'busy'), liveness=True)
def submitting(env, n):
    """While tasks are being submitted the scheduler goes on; once all are there it ends after the last one."""
    w = World(env, 0)
    there = env.count('first', 0, n)
    submitted(env, there)
    state = dict(there=there, done=False)

    def sleep(secs):
        env.check(secs > 0, 'polls the database without pause')
        if not state['done'] and env.flag('submit'):
            if state['there'] < n:
                submitted(env, 1, start=state['there'])
                state['there'] += 1
            else:
                state['done'] = True
                env.cover('busy' if w.out else 'idle')
                th.signal_submitter(done=True)
        elif w.out:
            w.finish()
        elif not state['done']:
            env.assume(pauses.append(1) or len(pauses) < 3)
    pauses = []
    env.on_sleep = sleep
    th = server_mod.SchedulerThread(queue=Namespace(scheduled=env.queue('scheduled', on_put=w.post)), bundlesize=1,
                                    attempts=1)
    th.signal_submitter(done=False)
    th.run_with_exceptions()
    Session.remove()
    if not there:
        env.cover('none')
    env.check(state['done'], 'ends while tasks are still being submitted')
    check_finished(env, w, 1)


# -- receiver, confirmations -------------------------------------------------------

class Sink:
    """Text file stand-in."""
    def __init__(self):
        self.text = ''
        self.closed = False

    def write(self, s):
        self.text = self.text + s

    def flush(self):
        pass

    def close(self):
        self.closed = True


def result(env, row, i, now=9_500_000_000):
    """The task as a client returns it."""
    s = env.int(f'exit{i}', -15, 255)
    d = dict(row)
    d.update(client_id='cl', client_host='chost', exit_status=s,
             command='run ' + row['args'] if i or env.flag('expanded') else None,
             start_time=mkdt(now + env.int(f'start{i}', 0, 1000), True),
             completion_time=mkdt(now + 5000 + env.int(f'end{i}', 0, 1000), True), waited=env.int(f'waited{i}', 0, 99),
             duration=env.int(f'duration{i}', 0, 99), outpath=env.choose(f'out{i}', [None, '/x/o']))
    return d


def no_database(env):
    def hook(kind):
        env.fail('database used although disabled')
    env.db.hook = hook


@harness('S02', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('failed', 'memory', 'stored'))
def receiver(env, n):
    """Results are recorded exactly as returned, for exactly the tasks returned; failures are listed once."""
    memory = env.flag('in_memory')
    rows, back = {}, []
    same_line = env.flag('same line')
    for i in range(n + 1):
        r = task_row(env, f't{i}', args='cmd "x"' if same_line else f'cmd {i}  "x"\t%s {{}}', submit_time=mkdt(i, True), schedule_time=mkdt(10 + i, True),
                     server_id='srv', server_host='sh', tag={'a': i}, attempt=1 + i)
        rows[r['id']] = r
        if not memory:
            env.db.put('task', **norm_row(r))
    order = env.choose('order', [list(range(n)), list(reversed(range(n)))])
    back = {f't{i}': result(env, rows[f't{i}'], i) for i in order}
    packed = [Task(**back[f't{i}']).pack() for i in order]
    split = env.count('split', 1, n)
    items = [b for b in (packed[:split], packed[split:]) if b] + [None]
    out = Sink() if env.flag('redirect') else None
    if memory:
        no_database(env)
    q = env.queue('completed', items, spurious_empty=1)
    m = server_mod.Receiver(queue=Namespace(completed=q), in_memory=memory, redirect_failures=out)
    m.run()
    env.check(not q.items, 'results left in the queue')
    env.check(q.done == len(q.got), 'results not acknowledged')
    env.db.hook = None
    Session.remove()
    if memory:
        env.cover('memory')
    else:
        post = table(env)
        env.check(set(post) == set(rows), 'rows created or removed')
        for i, r in post.items():
            want = norm_row(back.get(i, rows[i]))
            env.check(same_row(r, want, ALL), 'recorded result is not the one returned' if i in back else
                      'a result was recorded for another task')
            if i in back:
                env.cover('stored')
    if out is not None:
        want = ''
        for i in order:
            if back[f't{i}']['exit_status'] != 0:
                env.cover('failed')
                want += rows[f't{i}']['args'] + '\n'
        env.check(out.text == want, 'list of failed tasks')


@harness('S02', quick=[dict()], covers=('late',))
def late_result(env):
    """A second result for a task whose failure was already retried leaves the retry in place."""
    k1, r1 = any_task(env, 1, ['retried'])
    parent = r1['id']
    env.db.update('task', parent, outpath='/old/o', errpath='/old/e')
    env.db.put('task', **norm_row(task_row(env, 'later1', submit_time=mkdt(5, True), schedule_time=mkdt(6, True),
                                           attempt=r1['attempt'] + 1, previous_id=parent, server_id='srv')))
    before = dict(r1)
    before.update(retried=False, next_id=None, exit_status=None, completion_time=None, start_time=None)
    late = result(env, before, 1)
    if env.flag('not started'):
        late.update(command=None, waited=None, duration=None, outpath=None)
    q = env.queue('completed', [[Task(**late).pack()], None])
    server_mod.Receiver(queue=Namespace(completed=q)).run()
    Session.remove()
    post = table(env)
    env.cover('late')
    env.check(sym_and(post[parent]['retried'] == True, post[parent]['next_id'] == 'later1'),  # noqa
              'late result removes the link to the retry')
    late = norm_row(late)
    for f in RUN_FIELDS:
        env.check(same(post[parent][f], late[f]), f'late result: {f} is not the one returned')
    ids = [t.id for t in Task.next(limit=5, attempts=9, eager=env.flag('eager'))]
    env.check(ids == [], 'a task is retried twice because of a late result')


@harness('S02', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('stored', 'memory'))
def confirm(env, n):
    """A confirmation assigns exactly the named tasks to the client and changes nothing else."""
    memory = env.flag('in_memory')
    pre = {} if memory else populate(env, n, ['sent', 'unconfirmed', 'done', 'new'])
    ids = [f'task{i}' for i in range(n)]
    first = [i for i in ids if env.flag(f'first.{i}')]
    second = [i for i in ids if i not in first and env.flag(f'second.{i}')]
    msgs = [ClientInfo(client_id='A', client_host='ha', task_ids=first).pack(),
            ClientInfo(client_id='B', client_host='hb', task_ids=second).pack()]
    if memory:
        no_database(env)
    q = env.queue('confirmed', msgs + [None], spurious_empty=1)
    server_mod.Confirm(queue=Namespace(confirmed=q), in_memory=memory).run()
    env.check(not q.items, 'confirmations left in the queue')
    env.check(q.done == len(q.got), 'confirmations not acknowledged')
    env.db.hook = None
    Session.remove()
    env.cover('memory' if memory else 'stored')
    post = table(env)
    for i, (k, r) in pre.items():
        want = dict(r)
        if i in first:
            want.update(client_id='A', client_host='ha')
        if i in second:
            want.update(client_id='B', client_host='hb')
        env.check(same_row(post[i], want, ALL), 'a confirmation changed something else')


@harness('S02', quick=[dict(n=130)], thorough=[dict(n=520)], covers=('results', 'confirmations'))
def large_bundle(env, n):
    """Bundles of any size are recorded completely."""
    kind = env.choose('kind', ['results', 'confirmations'])
    env.cover(kind)
    special = env.choose('special', [0, n // 2, n - 1])
    rows = {}
    for i in range(n):
        r = norm_row(task_row(env, f't{i}', submit_time=mkdt(i, True), schedule_time=mkdt(9, True), server_id='srv',
                              client_id='old' if kind == 'results' else None, client_host='old' if kind == 'results' else None))
        rows[r['id']] = r
        env.db.put('task', **r)
    if kind == 'confirmations':
        q = env.queue('confirmed', [ClientInfo(client_id='A', client_host='ha', task_ids=list(rows)).pack(), None])
        server_mod.Confirm(queue=Namespace(confirmed=q)).run()
        for r in rows.values():
            r.update(client_id='A', client_host='ha')
        Session.remove()
        post = table(env)
        env.check(set(post) == set(rows), 'rows created or removed')
        for i, r in rows.items():
            env.check(same_row(post[i], r, ALL), 'a confirmation is not recorded')
        return
    status = env.int('status', -9, 255)
    back = {i: dict(r, command=f'run {i}', exit_status=status if i == f't{special}' else 0, start_time=mkdt(20, True),
                    completion_time=mkdt(30, True), waited=1, duration=1, client_id='A', client_host='ha') for i, r in rows.items()}
    out = Sink()
    q = env.queue('completed', [[Task(**b).pack() for b in back.values()], None])
    server_mod.Receiver(queue=Namespace(completed=q), redirect_failures=out).run()
    Session.remove()
    post = table(env)
    env.check(set(post) == set(rows), 'rows created or removed')
    for i, b in back.items():
        env.check(same_row(post[i], norm_row(b), ALL), 'a result is not recorded')
    env.check(out.text == (rows[f't{special}']['args'] + '\n' if bool(status != 0) else ''), 'list of failed tasks')


# -- heart monitor --------------------------------------------------------------------

def beat(c, t, state=ClientState.RUNNING, host=None):
    return Heartbeat.new(uuid=c, host=host or 'h' + c, time=t, state=state).pack()


def seconds(us):
    return us / 1_000_000


@harness('S03', quick=[dict(k=4, clients=2)], thorough=[dict(k=6, clients=2), dict(k=5, clients=3)],
         covers=('evicted', 'finished', 'kept', 'returned'), liveness=True)
def monitor(env, k, clients):
    """Any sequence of heartbeats and silences: who is connected, disconnected or evicted, and what is reverted."""
    memory = env.choose('mode', ['db', 'noconfirm', 'memory'])
    no_confirm = memory == 'noconfirm'
    memory = memory == 'memory'
    evict = env.choose('evict', [10, 25])
    names = ['A', 'B', 'C'][:clients]
    host = {c: 'h' if evict == 10 else 'h' + c for c in names}     # several clients on one host or not
    pre = {}
    if not memory:
        for i, c in enumerate(names):
            for j, kind in enumerate(['sent', 'done']):
                r = task_row(env, f't{c}{j}', submit_time=mkdt(i, True), schedule_time=mkdt(9, True), server_id='srv',
                             client_id=c, client_host=host[c])
                if kind == 'done':
                    r.update(start_time=mkdt(10, True), completion_time=mkdt(11, True), exit_status=0)
                pre[r['id']] = norm_row(r)
                env.db.put('task', **pre[r['id']])
    else:
        no_database(env)
    env.clock_step = 0
    last = {}              # connected client -> time of last heartbeat (us)
    state = {}             # client -> 'connected' / 'finished' / 'evicted'
    ended = [False]
    steps = [0]

    def observe_checks():
        """Evictions seen so far through the public record."""
        return {}

    def feed(q):
        if steps[0] >= k:
            q.items.append(None)
            ended[0] = True
            return
        steps[0] += 1
        i = steps[0]
        kind = env.choose(f'event{i}', ['silence', 'beat', 'finish'])
        if kind == 'silence':
            env.t = env.t + env.choose(f'gap{i}', [1_000_000, (evict + 3) * 1_000_000])
            return
        c = env.choose(f'who{i}', names)
        history.append((kind, c, env.t))
        q.items.append(beat(c, mkdt(env.t, True), ClientState.RUNNING if kind == 'beat' else ClientState.FINISHED,
                            host[c]))
    history = []
    q = env.queue('heartbeat', idle=None, on_idle=feed)
    m = server_mod.HeartMonitor(queue=Namespace(heartbeat=q, scheduled=env.queue('scheduled')), evict_after=evict,
                                in_memory=memory, no_confirm=no_confirm)
    log = []
    if not memory:
        # what the monitor records, in order
        def hook(kind):
            if kind == 'write':
                log.append(env.t)
        env.db.hook = hook
    m.run()
    env.db.hook = None
    Session.remove()
    env.check(ended[0], 'the monitor ended on its own')
    if memory:
        env.check(len(env.tracebacks) == 0, 'crashed')
        return
    # reference: replay of the events with the eviction rule
    rec = {r['id']: r for r in env.db.rows('client')}
    rows = table(env)
    seen = {c for kind, c, _ in history if kind == 'beat'}
    env.check(set(rec) == seen, 'registered clients are not those heard from')
    final = env.t
    for c in names:
        evs = [(kind, t) for kind, who, t in history if who == c]
        if c not in rec:
            continue
        r = rec[c]
        last_kind, last_t = evs[-1]
        beats = [t for kind, t in evs if kind == 'beat']
        age = final - beats[-1]
        lim = evict * 1_000_000
        slack = (evict // 10) * 1_000_000 + 2_000_000
        connected = r['disconnected_at'] is None
        env.check(r['host'] == host[c], 'client host')
        env.check(r['connected_at'] is not None and sym_or(*[r['connected_at'].replace(tzinfo=None) == mkdt(t, False)
                                                             for t in beats]), 'the time a client connected')
        if last_kind == 'beat':
            env.check(sym_implies(age <= lim, sym_and(connected, r['evicted'] == False)),  # noqa
                      'a client that was heard from within the eviction period is not connected')
            if connected:
                env.cover('kept')
                env.check(r['evicted'] == False, 'connected client marked as evicted')  # noqa
        # evicted before?
        gaps = [b - a for a, b in zip(beats, beats[1:])] + ([] if last_kind == 'finish' else [age])
        ever = any(g > lim for g in gaps)
        if r['evicted'] == True:  # noqa
            env.cover('evicted')
            env.check(not connected, 'evicted client counts as connected')
            fin = [t for kind, t in evs if kind == 'finish' and t > beats[-1]]
            env.check((fin[0] if fin else final) - beats[-1] > lim, 'a client was evicted although it was heard from in time')
        elif not connected:
            env.cover('finished')
            env.check(last_kind == 'finish' or 'finish' in [k_ for k_, t in evs if t >= beats[-1]],
                      'client disconnected although it neither finished nor was evicted')
        for j in (0, 1):
            row, old = rows[f't{c}{j}'], pre[f't{c}{j}']
            if j == 1:
                env.check(same_row(row, old, ALL), 'a finished task of a client changed')
                continue
            reverted = row['schedule_time'] is None
            if no_confirm:
                env.check(not reverted, 'tasks reverted although confirmations are disabled')
            elif r['evicted'] == True:  # noqa
                env.check(reverted, 'tasks of an evicted client are not scheduled again')
            elif not ever and not [1 for kind, t in evs if kind == 'finish']:
                env.check(same_row(row, old, ALL), 'tasks of a live client were reverted')
            if reverted:
                env.check(sym_and(*[row[f] is None for f in RUN_FIELDS]), 'a reverted task keeps traces of the run')
            if reverted and connected:
                env.cover('returned')
    for c in names:
        if c not in rec:
            env.check(same_row(rows[f't{c}0'], pre[f't{c}0'], ALL), 'tasks of an unknown client changed')


@harness('S03', quick=[dict()], covers=('evicted',), liveness=True)
def silent_client(env):
    """A client that falls silent is evicted within the eviction period plus a tenth, others stay."""
    evict = env.count('evict', 10, 12)
    start = env.t
    env.clock_step = 0
    offset = env.int('offset', 0, 3_000_000)
    same = env.flag('same host')
    period = env.choose('period', [2_000_000, 7_000_000])
    alone = env.flag('alone')
    more = [f'A{i}' for i in range(8)] if alone and env.flag('many at once') else []     # all fall silent together

    for c in more:
        env.db.put('task', **norm_row(task_row(env, 't' + c, submit_time=mkdt(1, True), schedule_time=mkdt(9, True),
                                               server_id='srv', client_id=c, client_host='h' if same else 'h' + c)))
    env.db.put('task', **norm_row(task_row(env, 'tA', submit_time=mkdt(1, True), schedule_time=mkdt(9, True),
                                           server_id='srv', client_id='A', client_host='h' if same else 'hA')))
    env.db.put('task', **norm_row(task_row(env, 'tB', submit_time=mkdt(1, True), schedule_time=mkdt(9, True),
                                           server_id='srv', client_id='B', client_host='h' if same else 'hB')))
    n = [0]
    t_a = start + offset

    def feed(q):
        n[0] += 1
        if n[0] == 1:
            env.t = env.t + offset
            for c in ['A'] + more:
                q.items.append(beat(c, mkdt(env.t, True), host='h' if same else None))
        elif env.t > t_a + evict * 1_100_000 + 2 * period + 2_000_000:
            q.items.append(None)
        else:
            env.t = env.t + period
            if not alone:
                q.items.append(beat('B', mkdt(env.t, True), host='h' if same else None))
    q = env.queue('heartbeat', idle=None, on_idle=feed)
    m = server_mod.HeartMonitorThread(queue=Namespace(heartbeat=q, scheduled=env.queue('scheduled')), evict_after=evict)
    if env.flag('ending'):
        m.signal_scheduler_done()
        m.signal_clients()
    m.run_with_exceptions()
    Session.remove()
    rec = {r['id']: r for r in env.db.rows('client')}
    env.cover('evicted')
    rows = table(env)
    for c in ['A'] + more:
        env.check(rec[c]['evicted'] == True, 'a silent client is not evicted in time')  # noqa
        env.check(rows['t' + c]['schedule_time'] is None, 'tasks of an evicted client are not scheduled again')
    if alone:
        return
    env.check(sym_and(rec['B']['evicted'] == False, rec['B']['disconnected_at'] is None), 'a live client is evicted')  # noqa
    rows = table(env)
    env.check(rows['tA']['schedule_time'] is None, 'tasks of an evicted client are not scheduled again')
    env.check(rows['tB']['schedule_time'] is not None, 'tasks of a live client were reverted')


@harness('S03', quick=[dict(k=2)], thorough=[dict(k=4)], covers=('kept',), liveness=True)
def slow_client(env, k):
    """A client heard from just within the eviction period is never evicted, whenever the monitor looks."""
    evict = env.count('evict', 10, 12)
    env.clock_step = 0
    plan = []
    for i in range(k):
        gap = env.int(f'gap{i}', evict * 1_000_000 - 1_500_000, evict * 1_000_000)
        before = env.int(f'before{i}', 0, 2_000_000)
        plan += [(gap - before, 'A'), (before, 'B')]
    plan = [(0, 'B'), (0, 'A')] + plan
    env.db.put('task', **norm_row(task_row(env, 'tB', submit_time=mkdt(1, True), schedule_time=mkdt(9, True),
                                           server_id='srv', client_id='B', client_host='hB')))

    def feed(q):
        if not plan:
            q.items.append(None)
            return
        wait, who = plan.pop(0)
        env.t = env.t + wait
        q.items.append(beat(who, mkdt(env.t, True)))
    q = env.queue('heartbeat', idle=None, on_idle=feed)
    m = server_mod.HeartMonitorThread(queue=Namespace(heartbeat=q, scheduled=env.queue('scheduled')), evict_after=evict)
    if env.flag('ending'):
        m.signal_scheduler_done()
        m.signal_clients()
    m.run_with_exceptions()
    Session.remove()
    rec = {r['id']: r for r in env.db.rows('client')}
    env.cover('kept')
    env.check(sym_and(rec['B']['evicted'] == False, rec['B']['disconnected_at'] is None), 'a live client is evicted')  # noqa
    env.check(table(env)['tB']['schedule_time'] is not None, 'tasks of a live client were reverted')


@harness('S03', quick=[dict()], covers=('ok', 'refused'))
def evict_period(env):
    e = env.int('evict', -1, 20)
    try:
        server_mod.HeartMonitor(queue=None, evict_after=e)
        env.cover('ok')
        env.check(e >= 10, 'a too short eviction period was accepted')
    except RuntimeError:
        env.cover('refused')
        env.check(e < 10, 'a valid eviction period was refused')


# -- shutdown -------------------------------------------------------------------------

@harness('S04', quick=[dict(clients=3)], thorough=[dict(clients=4)], covers=('late', 'dead', 'back'), liveness=True)
def shutdown(env, clients):
    """After scheduling is over every live client is told to stop, and the monitor ends, whoever died or came late."""
    memory = env.flag('in_memory')
    names = ['A', 'B', 'C', 'D'][:clients]
    kind = {c: env.choose(f'{c}', ['live', 'dead', 'late', 'back', 'busy', 'hasty'] if c != 'A' else ['live', 'busy'])
            for c in names}
    sched = env.queue('scheduled', maxsize=env.choose('queuesize', [1, 2]))
    env.clock_step = 0
    env.call_limit = 600
    stopped, running = [], []
    n = [0]
    done_at = 2

    def world(beats=True):
        """Live clients take a disconnect if there is one and say good bye."""
        for c in list(running):
            if sched.items and not (kind[c] == 'busy' and n[0] < 16):
                env.check(sched.items[0] is None, 'something else than a disconnect was sent')
                sched.items.pop(0)
                running.remove(c)
                stopped.append(c)
                hb.items.append(beat(c, mkdt(env.t, True), ClientState.FINISHED))
            elif beats and n[0] % 2 == 1 and kind[c] != 'hasty':
                hb.items.append(beat(c, mkdt(env.t, True)))

    def feed(q):
        n[0] += 1
        i = n[0]
        if i == 1:
            for c in names:
                if kind[c] not in ('late', 'hasty'):
                    q.items.append(beat(c, mkdt(env.t, True)))
                if kind[c] in ('live', 'busy'):
                    running.append(c)
        elif i == done_at:
            th.signal_scheduler_done()
            th.signal_clients()
        elif i == 4:
            for c in names:
                if kind[c] == 'hasty':        # takes a request before it ever registers
                    running.insert(0, c)
                if kind[c] == 'late':
                    env.cover('late')
                    running.append(c)
                    q.items.append(beat(c, mkdt(env.t, True)))
        elif i == 12:
            for c in names:
                if kind[c] == 'back' and not ended:
                    env.cover('back')
                    running.append(c)
                    q.items.append(beat(c, mkdt(env.t, True)))
        if i > 1:
            world()
    ended = []
    sched.on_full = lambda q: world(False)
    hb = env.queue('heartbeat', idle=None, on_idle=feed)
    th = server_mod.HeartMonitorThread(queue=Namespace(heartbeat=hb, scheduled=sched), evict_after=10, in_memory=memory)
    if 'dead' in kind.values():
        env.cover('dead')
    th.run_with_exceptions()
    ended.append(1)
    env.observe('stopped', sorted(stopped))
    env.check(all(kind[c] == 'hasty' for c in running), 'the server ended although a connected client was not told to stop')
    for c in names:
        if kind[c] in ('live', 'busy'):
            env.check(c in stopped, 'a live client was not told to stop')


@harness('S04', quick=[{}], covers=('lost', 'later', 'told'), liveness=True)
def lost_request(env):
    """A client that takes the stop request and dies does not use up the request of a client that registers later."""
    memory = env.flag('in_memory')
    queuesize = env.count('queuesize', 1, 3)
    sched = env.queue('scheduled', maxsize=queuesize)
    env.clock_step = 0
    env.call_limit = 2000
    when = env.count('registers', 8, 12)         # after the eviction of the lost one
    release = env.count('released', 13, 16)      # the busy one comes back
    stopped, n = [], [0]
    running = []

    def take(c, goodbye=True):
        if sched.items:
            env.check(sched.items[0] is None, 'something else than a disconnect was sent')
            sched.items.pop(0)
            stopped.append(c)
            if c in running:
                running.remove(c)
            if goodbye:
                hb.items.append(beat(c, mkdt(env.t, True), ClientState.FINISHED))

    def feed(q):
        n[0] += 1
        env.t = env.t + 1_500_000
        i = n[0]
        if i == 1:
            for c in ('lost', 'busy'):
                q.items.append(beat(c, mkdt(env.t, True)))
                running.append(c)
        elif i == 2:
            th.signal_scheduler_done()
            th.signal_clients()
        elif 'lost' in running:
            take('lost', goodbye=False)
            if 'lost' not in running:
                env.cover('lost')
        if i == when:
            env.cover('later')
            running.append('later')
            q.items.append(beat('later', mkdt(env.t, True)))
        if i >= release and 'busy' in running:
            take('busy')
        elif i > when and 'later' in running:
            take('later')
        if i > 1:
            for c in running:
                if c != 'lost':
                    q.items.append(beat(c, mkdt(env.t, True)))
    hb = env.queue('heartbeat', idle=None, on_idle=feed)
    th = server_mod.HeartMonitorThread(queue=Namespace(heartbeat=hb, scheduled=sched), evict_after=10, in_memory=memory)
    th.run_with_exceptions()
    env.observe('stopped', sorted(stopped))
    env.check('lost' in stopped, 'a live client was not told to stop')
    env.check(not running, 'the server ended although a connected client was not told to stop')
    if 'later' in stopped:
        env.cover('told')
