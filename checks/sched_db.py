"""Selection, retry, crash, recovery and cancellation discipline of the task database (P01-P06)."""
from types import SimpleNamespace as Namespace
from sx.env import harness, Crash
from sx.core import sym_and, sym_or, sym_not, sym_implies, sym_ite, PathEnd, mkdt
from sx.dbenv import task_row, TASK_NULLS
from hypershell.data.model import Task
from hypershell.data.core import Session
from hypershell.core.logging import INSTANCE, HOSTNAME
from hypershell import server as server_mod

PAST = 9_000_000_000      # stored instants lie before the start of the run

RUN_FIELDS = ['schedule_time', 'server_host', 'server_id', 'client_host', 'client_id', 'command', 'start_time',
              'completion_time', 'exit_status', 'outpath', 'errpath', 'waited', 'duration']
KEEP_FIELDS = ['id', 'args', 'submit_id', 'submit_time', 'submit_host', 'attempt', 'retried', 'previous_id',
               'next_id', 'tag']


def any_task(env, i, kinds, client=None, attempts=1000):
    """Arbitrary stored task in one of the life-cycle states."""
    id = f'task{i}'
    kind = env.choose(f'{id}.kind', kinds)
    row = task_row(env, id, submit_time=env.instant(f'{id}.submit', 0, PAST), attempt=env.int(f'{id}.attempt', 1, attempts),
                   tag={'n': i, 'x': ''}, submit_id=f'submit-{9 - i}')
    if kind != 'new':
        row.update(schedule_time=env.instant(f'{id}.sched', 0, PAST))
    if kind not in ('new', 'cancelled'):
        row.update(server_id='oldserver', server_host='oldhost')
    if kind in ('sent', 'done', 'failed', 'retried'):
        row.update(client_id=client or 'client', client_host='chost')
    if kind == 'sent' and i == 0:         # its result was taken back by an update
        row.update(command='run ' + row['args'], start_time=env.instant(f'{id}.start', 0, PAST), waited=1, duration=1,
                   outpath='o', errpath='e')
    if kind in ('done', 'failed', 'retried'):
        row.update(command='run ' + row['args'], start_time=env.instant(f'{id}.start', 0, PAST), waited=1, duration=1,
                   completion_time=env.instant(f'{id}.end', 0, PAST), exit_status=0, outpath='o', errpath='e')
    if kind in ('failed', 'retried'):
        s = env.int(f'{id}.exit', -20, 255)
        env.assume(s != 0)
        row['exit_status'] = s
    if kind == 'retried':
        row.update(retried=True, next_id=f'later{i}')
    if kind == 'cancelled':
        row.update(exit_status=-1)
        if env.flag(f'{id}.running'):     # cancelled when a client had already received it
            row.update(server_id='oldserver', server_host='oldhost', client_id=client or 'client', client_host='chost')
    env.db.put('task', **row)
    return kind, row


def populate(env, n, kinds, **kw):
    pre = {}
    for i in range(n):
        k, r = any_task(env, i, kinds, **kw)
        pre[r['id']] = (k, norm_row(r))
    return pre


def norm_row(r):
    from sx.dbenv import _naive
    return {k: _naive(v) for k, v in r.items()}


def table(env):
    return {r['id']: r for r in env.db.rows('task')}


def same(a, b):
    """Equality of two stored values (None-aware, symbolic-aware)."""
    if a is None or b is None:
        return a is None and b is None
    return a == b


def same_row(a, b, fields):
    return sym_and(*[same(a[f], b[f]) for f in fields])


ALL = KEEP_FIELDS + RUN_FIELDS


def count(flags):
    total = 0
    for f in flags:
        total = total + sym_ite(f, 1, 0)
    return total


def check_selection(env, pre, got, post, limit, attempts, eager):
    ids = [t.id for t in got]
    new = [i for i, (k, _) in pre.items() if k == 'new']
    eligible = {i: r['attempt'] < attempts for i, (k, r) in pre.items() if k == 'failed'}
    fresh = [i for i in ids if i not in pre]
    env.check(len(set(ids)) == len(ids), 'a task is handed out twice in one batch')
    env.check(len(ids) <= limit, 'more tasks than requested')
    for i in ids:
        if i in pre:
            env.check(i in new, f'handed out a task that was already scheduled ({pre[i][0]})')
    # as many as available up to the limit
    available = len(new) + count(eligible.values())
    env.check(sym_or(len(ids) == limit, sym_and(len(ids) < limit, len(ids) == available)),
              'did not hand out all available tasks up to the limit')
    # preference and order
    skipped_new = [i for i in new if i not in ids]
    taken_new = [i for i in new if i in ids]
    for a in taken_new:
        for b in skipped_new:
            env.check(pre[a][1]['submit_time'] <= pre[b][1]['submit_time'],
                      'a later submitted task was chosen ahead of an earlier one')
    for x, y in zip(taken_pos(ids, new), taken_pos(ids, new)[1:]):
        env.check(pre[x][1]['submit_time'] <= pre[y][1]['submit_time'], 'tasks not in order of submission')
    if fresh and skipped_new:
        env.check(eager, 'retry preferred over a new task without eager mode')
    if taken_new:
        env.check(sym_or(sym_not(eager), len(fresh) == count(eligible.values())),
                  'new task preferred over a retry in eager mode')
    # effects on the rows handed out
    for t in got:
        env.check(t.id in post, 'handed out task is not stored')
        r = post[t.id]
        env.check(sym_and(t.schedule_time is not None, t.server_id == INSTANCE, t.server_host == HOSTNAME),
                  'task handed out without being marked as scheduled by this server')
        env.check(sym_and(r['schedule_time'] is not None, r['server_id'] == INSTANCE, r['server_host'] == HOSTNAME),
                  'stored task not marked as scheduled by this server')
        env.check(sym_and(t.exit_status is None, t.completion_time is None, t.client_id is None,
                          r['exit_status'] is None, r['completion_time'] is None, r['client_id'] is None),
                  'task handed out with run results')
        if t.id in pre:
            env.check(same_row(r, pre[t.id][1], KEEP_FIELDS), 'scheduling changed the identity of a task')
            env.check(t.args == pre[t.id][1]['args'], 'wrong command')
    # nothing else changes
    for i, (k, r) in pre.items():
        if i not in ids:
            fields = ALL if k != 'failed' else [f for f in ALL if f not in ('retried', 'next_id')]
            env.check(same_row(post[i], r, fields), f'scheduling changed an unrelated task ({k})')
    env.check(set(post) == set(pre) | set(ids), 'unexpected rows in the database')
    if fresh:
        env.cover('retry')
    if taken_new:
        env.cover('new')
    if skipped_new:
        env.cover('limited')


def taken_pos(ids, new):
    return [i for i in ids if i in new]


def next_tasks(limit, attempts, eager=False):
    """Contents of the tasks handed out, as the server would send them."""
    return [Namespace(**t.to_dict()) for t in Task.next(limit=limit, attempts=attempts, eager=eager)]


@harness('P01', quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)], covers=('retry', 'new', 'limited'))
def next_step(env, n):
    pre = populate(env, n, ['new', 'sent', 'done', 'failed'])
    limit = env.int('limit', 1, n)
    attempts = env.int('attempts', 1, 1001)
    eager = env.bool('eager')
    got = next_tasks(limit, attempts, eager)
    Session.remove()
    post = table(env)
    env.observe('count', len(got))
    check_selection(env, pre, got, post, limit, attempts, eager)


@harness('P01', quick=[dict(n=4)], thorough=[dict(n=7)], covers=('retry', 'new', 'limited'))
def next_batch(env, n):
    """Larger batches: any number of failed and waiting tasks against any limit."""
    pre = {}
    failed, waiting = env.count('failed', 0, n), env.count('waiting', 0, n)
    for i in range(failed + waiting):
        row = task_row(env, f'task{i}', submit_time=mkdt(1000 * ((i * 7) % 11), True), tag={'n': i})
        if i < failed:
            row.update(schedule_time=mkdt(20_000, True), start_time=mkdt(30_000, True),
                       completion_time=mkdt(40_000 - i, True), exit_status=1, server_id='oldserver', client_id='c')
        pre[row['id']] = ('failed' if i < failed else 'new', norm_row(row))
        env.db.put('task', **row)
    limit = env.int('limit', 1, n + 1)
    eager = env.bool('eager')
    got = next_tasks(limit, 2, eager)
    Session.remove()
    post = table(env)
    env.observe('count', len(got))
    check_selection(env, pre, got, post, limit, 2, eager)


@harness('P01', quick=[dict(n=3)], thorough=[dict(n=4), dict(n=5)], covers=('new', 'limited'))
def next_new(env, n):
    """Only new and scheduled tasks: deeper ordering and repeated calls until drained."""
    pre = populate(env, n, ['new', 'sent'])
    limit = env.count('limit', 1, n)
    seen = []
    last = None
    for _ in range(n + 1):
        got = Task.next(limit=limit, attempts=1, eager=False)
        batch = [(t.id, t.submit_time, t.args) for t in got]
        if not batch:
            break
        env.check(len(batch) <= limit, 'more tasks than requested')
        for id, when, args in batch:
            env.check(id in pre and pre[id][0] == 'new', 'handed out a task that was already scheduled')
            env.check(id not in seen, 'a task is handed out twice')
            env.check(args == pre[id][1]['args'], 'wrong command')
            t = pre[id][1]['submit_time']
            if last is not None:
                env.check(last <= t, 'tasks not in order of submission')
            last = t
            seen.append(id)
        env.cover('new')
        if len(batch) == limit:
            env.cover('limited')
    env.observe('seen', sorted(seen))
    env.check(set(seen) == {i for i, (k, _) in pre.items() if k == 'new'}, 'a waiting task was never handed out')


def check_retries(env, pre, got, post, limit, attempts):
    """Every retry handed out belongs to exactly one failed task, and is linked to it."""
    fresh = [t for t in got if t.id not in pre]
    parents = [t.previous_id for t in fresh]
    env.check(len(set(parents)) == len(parents), 'a failed task is retried twice')
    for t in fresh:
        p = t.previous_id
        env.check(p in pre and pre[p][0] == 'failed', 'retried a task that did not fail or was retried already')
        old = pre[p][1]
        env.check(old['attempt'] < attempts, 'retried beyond the allowed number of attempts')
        env.check(t.attempt == old['attempt'] + 1, 'attempt number of the retry')
        env.check(sym_and(t.args == old['args'], t.tag == old['tag']), 'retry differs from the original task')
        env.check(sym_and(t.retried == False, t.next_id is None), 'retry is born already retried')  # noqa
        r = post[t.id]
        env.check(sym_and(r['attempt'] == t.attempt, r['previous_id'] == p, r['args'] == t.args, r['tag'] == t.tag,
                          r['retried'] == False), 'stored retry differs from the one handed out')  # noqa
        env.check(sym_and(post[p]['retried'] == True, post[p]['next_id'] == t.id),  # noqa
                  'failed task not marked as retried')
        env.check(same_row(post[p], old, [f for f in ALL if f not in ('retried', 'next_id')]),
                  'retrying changed the record of the failed run')
        env.cover('retry')
    for i, (k, r) in pre.items():
        if i not in parents:
            env.check(same_row(post[i], r, ['retried', 'next_id', 'previous_id', 'attempt', 'args', 'tag']),
                      'retry bookkeeping of an unrelated task changed')


@harness('P01', quick=[dict(n=130)], thorough=[dict(n=230)], covers=('waiting', 'failed', 'rest'))
def next_many(env, n):
    """Long queues: as many as asked for and available, in order, the rest next time."""
    kind = env.choose('kind', ['waiting', 'failed'])
    env.cover(kind)
    limit = env.choose('limit', [1, 99, n - 2, n, n + 50])
    eager = env.flag('eager')
    order = lambda i: (i * 7) % n if n % 7 else i       # not in the order of their ids
    for i in range(n):
        row = task_row(env, f'task{i}', submit_time=mkdt(order(i) * 1000, True))
        if kind == 'failed':
            row.update(schedule_time=mkdt(1, True), start_time=mkdt(2, True), completion_time=mkdt(order(i) * 1000 + 5, True),
                       exit_status=1, command='x', server_id='old', client_id='c')
        env.db.put('task', **norm_row(row))
    want = [f'task{i}' for i in sorted(range(n), key=order)]
    key = lambda t: t.id if kind == 'waiting' else t.previous_id
    seen = []
    for step in range(3):
        got = [key(t) for t in next_tasks(limit, 2, eager)]
        env.check(got == want[len(seen):len(seen) + limit], 'not the next tasks in order')
        if step and got:
            env.cover('rest')
        seen += got
        Session.remove()
    rows = table(env)
    for i in want:
        r = rows[i]
        if kind == 'waiting':
            env.check((r['schedule_time'] is not None) == (i in seen), 'recorded as scheduled')
        else:
            env.check(bool(r['retried']) == (i in seen), 'recorded as retried')
    env.check(len(rows) == n + (len(seen) if kind == 'failed' else 0), 'rows created or removed')


@harness('P02', quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)], covers=('retry', 'spent'))
def retry_step(env, n):
    pre = populate(env, n, ['failed', 'retried', 'done', 'new'])
    limit = env.int('limit', 1, n)
    attempts = env.int('attempts', 1, 1001)
    eager = env.bool('eager')
    got = next_tasks(limit, attempts, eager)
    Session.remove()
    post = table(env)
    env.observe('count', len(got))
    check_retries(env, pre, got, post, limit, attempts)
    spent = [i for i, (k, r) in pre.items() if k == 'failed' and i not in [t.previous_id for t in got]]
    if len(got) < limit or (len(got) == 0):
        for i in spent:
            env.cover('spent')
            env.check(pre[i][1]['attempt'] >= attempts, 'a failed task with attempts left was not retried')


@harness('P02', quick=[dict(rounds=3)], thorough=[dict(rounds=4), dict(rounds=3, n=2)],
         covers=('exhausted', 'success', 'retry'))
def retry_history(env, rounds, n=1):
    """Whole life of a task: each run ends with any exit status; runs are counted."""
    attempts = env.count('attempts', 1, rounds)
    eager = env.flag('eager')
    limit = env.count('limit', 1, 2)
    for i in range(n):
        env.db.put('task', **norm_row(task_row(env, f'task{i}', submit_time=env.instant(f's{i}', 0, PAST),
                                               tag={'k': i})))
    root, runs, ok = {f'task{i}': f'task{i}' for i in range(n)}, {}, {}
    for _ in range(rounds * n + 1):
        got = next_tasks(limit, attempts, eager)
        if not got:
            break
        for t in got:
            if t.id not in root:
                env.check(t.previous_id in root, 'retry without a parent')
                root[t.id] = root[t.previous_id]
                env.cover('retry')
            base = root[t.id]
            env.check(not ok.get(base), 'a task ran again after it succeeded')
            runs[base] = runs.get(base, 0) + 1
            env.check(runs[base] <= attempts, 'a task ran more often than the allowed number of attempts')
            env.check(t.attempt == runs[base], 'attempt number')
            env.check(t.args == f'cmd {base}', 'retry runs another command')
            env.check(t.tag == {'k': int(base[4:])}, 'retry lost the tags')
            status = env.int(f'{t.id}.status', -5, 5)
            if status == 0:
                ok[base] = True
                env.cover('success')
            Task.update_all([dict(id=t.id, exit_status=status, start_time=env.now(True),
                                  completion_time=env.now(True))])
    env.observe('runs', runs)
    for base in set(root.values()):
        if not ok.get(base):
            env.check(runs.get(base, 0) == attempts, 'a failing task was given up before its attempts were used')
            env.cover('exhausted')
    rows = table(env)
    for r in rows.values():
        if r['next_id'] is not None:
            env.check(r['next_id'] in rows and rows[r['next_id']]['previous_id'] == r['id'], 'broken retry link')


def crash_hook(env, kinds=('commit', 'write', 'read')):
    """The process may die before any statement or commit."""
    def hook(kind):
        if kind in kinds and env.flag(f'crash.{kind}'):
            env.cover('crash')
            raise Crash()
    return hook


@harness('P03', quick=[dict(n=1), dict(n=2, kinds=('new', 'failed'))],
         thorough=[dict(n=2), dict(n=3, kinds=('new', 'failed'))], covers=('crash', 'completed'))
def crash_step(env, n, kinds=('new', 'sent', 'failed', 'done')):
    """The server dies at any statement or commit of a scheduling step; another server starts on the same database."""
    pre = populate(env, n, list(kinds))
    attempts = env.count('attempts', 2, 3)
    eager = env.flag('eager')
    limit = env.count('limit', 1, 2)
    env.db.hook = crash_hook(env)
    sent = []
    try:
        sent = next_tasks(limit, attempts, eager)
        env.cover('completed')
    except Crash:
        pass
    env.db.hook = None
    Session.remove()
    mid = table(env)
    if sent:
        for t in sent:
            env.check(mid[t.id]['schedule_time'] is not None, 'batch handed out before it was recorded')
    # another server on the same database
    how, first = first_post(env, n, attempts=attempts, eager=eager)
    seen = list(first)
    for _ in range(2 * n + 2):
        got = next_tasks(2, attempts, eager)
        if not got:
            break
        seen.extend(got)
    Session.remove()
    post = table(env)
    ids = [t.id for t in seen]
    env.observe('ids', len(ids))
    env.check(len(set(ids)) == len(ids), 'a task is handed out twice')
    for i, (k, r) in pre.items():
        if k in ('new', 'sent'):
            env.check(ids.count(i) == 1, f'a {k} task is lost after the crash')
        if k == 'done':
            env.check(i not in ids, 'a finished task runs again')
            env.check(same_row(post[i], r, ALL), 'the record of a finished task changed')
        if k == 'failed':
            children = [t for t in seen if t.previous_id == i]
            stored = [x for x in post.values() if x['previous_id'] == i]
            env.check(len(stored) <= 1, 'a failed task has two retries')
            env.check(sym_or(r['attempt'] >= attempts, len(children) == 1), 'the retry of a failed task is lost')
            env.check(sym_implies(r['attempt'] >= attempts, len(stored) == 0), 'retried beyond its attempts')
            if stored:
                env.check(sym_and(post[i]['retried'] == True, post[i]['next_id'] == stored[0]['id']),  # noqa
                          'retry not linked after the crash')


class Stop(BaseException):
    """Ends the run of a machine at a chosen event."""


def first_post(env, n, attempts=1, eager=False, restart=True, forever=False):
    """Start a scheduler on the stored tasks; stop at its first bundle, first wait, or halt."""
    box = []

    def posted(bundle):
        box.extend(bundle)
        raise Stop()

    def waits(secs):
        raise Stop()
    env.on_sleep = waits
    m = server_mod.Scheduler(queue=Namespace(scheduled=env.queue('scheduled', on_put=posted)), bundlesize=n + 1,
                             attempts=attempts, eager=eager, restart_mode=restart, forever_mode=forever)
    try:
        m.run()
        how = 'halt'
    except Stop:
        how = 'post' if box else 'wait'
    env.on_sleep = None
    Session.remove()
    return how, [Task.unpack(data) for data in box]


@harness('P04', quick=[dict(n=2), dict(n=3, kinds=('new', 'unconfirmed', 'done'))],
         thorough=[dict(n=3), dict(n=4, kinds=('sent', 'unconfirmed', 'done'))], covers=('post', 'halt', 'recovered'))
def restart(env, n, kinds=('new', 'sent', 'unconfirmed', 'done', 'failed', 'retried')):
    pre = populate(env, n, list(kinds))
    mode = env.choose('mode', ['restart', 'forever', 'plain']) if n == 2 else 'restart'
    how, sent = first_post(env, n, restart=mode == 'restart', forever=mode == 'forever')
    post = table(env)
    ids = [t.id for t in sent]
    env.observe('ids', sorted(ids))
    env.observe('how', how)
    env.cover(how)
    env.check(set(post) == set(pre), 'restart created or removed tasks')
    want = {i for i, (k, _) in pre.items() if k in ('new', 'sent', 'unconfirmed')}
    env.check(set(ids) == want and len(ids) == len(want), 'the tasks scheduled after a restart are not the unfinished ones')
    for t in sent:
        k, r = pre[t.id]
        if k in ('sent', 'unconfirmed'):
            env.cover('recovered')
        env.check(sym_and(t.args == r['args'], t.attempt == r['attempt'], t.tag == r['tag'],
                          t.retried == False), 'recovered task is not the task that was submitted')  # noqa
        env.check(sym_and(*[getattr(t, f) is None for f in RUN_FIELDS
                            if f not in ('schedule_time', 'server_id', 'server_host')]),
                  'recovered task keeps traces of the interrupted run')
        row = post[t.id]
        env.check(same_row(row, r, KEEP_FIELDS), 'recovery changed what was submitted')
        env.check(sym_and(*[row[f] is None for f in RUN_FIELDS
                            if f not in ('schedule_time', 'server_id', 'server_host')]),
                  'stored task keeps traces of the interrupted run')
        env.check(row['server_id'] == INSTANCE, 'recovered task not scheduled by this server')
    for i, (k, r) in pre.items():
        if i not in want:
            env.check(same_row(post[i], r, ALL), f'restart changed a finished task ({k})')
    if not want and mode == 'restart':
        env.check(how == 'halt', 'a restarted server waits although everything is finished')
    if not want and mode == 'forever':
        env.check(how == 'wait', 'a server in forever mode ends')


@harness('P04', quick=[dict(n=103)], thorough=[dict(n=103), dict(n=205)])
def restart_many(env, n):
    """More interrupted tasks than one recovery batch."""
    for i in range(n):
        env.db.put('task', **norm_row(task_row(env, f'task{i}', submit_time=mkdt(i, True),
                                               schedule_time=mkdt(n - i, True),
                                               attempt=env.int('a', 1, 5) if i == 7 else 1,
                                               server_id='old', client_id='c' if i % 3 else None,
                                               client_host='h' if i % 3 else None)))
    how, sent = first_post(env, n, restart=env.flag('restart'))
    ids = [t.id for t in sent]
    env.observe('n', len(ids))
    env.check(len(ids) == n and len(set(ids)) == n, 'not every interrupted task is recovered')


@harness('P05', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('reverted', 'kept'))
def orphans(env, n):
    """A client is evicted: exactly its unfinished tasks go back to be scheduled."""
    pre, owner = {}, {}
    for i in range(n):
        c = env.choose(f'task{i}.owner', ['client-1', 'client-10'])
        k, r = any_task(env, i, ['new', 'sent', 'unconfirmed', 'done', 'failed', 'retried', 'cancelled'], client=c)
        owner[r['id']] = c
        pre[r['id']] = (k, norm_row(r))
    Task.revert_orphaned('client-1')
    Session.remove()
    post = table(env)
    env.check(set(post) == set(pre), 'rows created or removed')
    for i, (k, r) in pre.items():
        if k == 'sent' and owner[i] == 'client-1':
            env.cover('reverted')
            env.check(same_row(post[i], r, KEEP_FIELDS), 'reverting changed what was submitted')
            env.check(sym_and(*[post[i][f] is None for f in RUN_FIELDS]), 'a reverted task keeps traces of the run')
        else:
            env.cover('kept')
            env.check(same_row(post[i], r, ALL), f'a task that is not an orphan of the client was changed ({k})')
    got = next_tasks(n, 1)
    back = {t.id for t in got}
    want = {i for i, (k, _) in pre.items() if k == 'new' or (k == 'sent' and owner[i] == 'client-1')}
    env.observe('back', sorted(back))
    env.check(back == want, 'the orphaned tasks are not the ones scheduled again')


@harness('P05', quick=[dict(n=103)])
def orphans_many(env, n):
    for i in range(n):
        env.db.put('task', **norm_row(task_row(env, f'task{i}', submit_time=mkdt(i, True),
                                               attempt=env.int('a', 1, 5) if i == 7 else 1,
                                               schedule_time=mkdt(n - i, True), server_id='old',
                                               client_id='client-1' if i != 1 else 'client-10', client_host='h')))
    Task.revert_orphaned('client-1')
    Session.remove()
    left = [r['id'] for r in env.db.rows('task') if r['schedule_time'] is not None]
    env.observe('left', left)
    env.check(left == ['task1'], 'not every orphaned task was reverted')


@harness('P06', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('cancelled', 'halt'))
def cancelled(env, n):
    """Cancelled tasks are never handed out, retried or revived, and do not keep the server waiting."""
    pre = populate(env, n, ['new', 'done', 'failed', 'cancelled'])
    gone = [i for i, (k, _) in pre.items() if k == 'cancelled']
    if gone:
        env.cover('cancelled')
    attempts = env.count('attempts', 1, 3)
    eager = env.flag('eager')
    how, sent = first_post(env, n, attempts=attempts, eager=eager)
    rounds = [sent]
    for t in sent:
        Task.update_all([dict(id=t.id, exit_status=0, start_time=env.now(True), completion_time=env.now(True))])
    if how == 'post':
        rounds.append([])
        how, rounds[-1] = first_post(env, n, attempts=attempts, eager=eager)
    post = table(env)
    env.observe('how', how)
    for sent in rounds:
        for t in sent:
            env.check(t.id not in gone, 'a cancelled task is scheduled')
            env.check(t.previous_id not in gone, 'a cancelled task is retried')
    for i in gone:
        env.check(same_row(post[i], pre[i][1], ALL), 'the record of a cancelled task changed')
    if not rounds[-1]:
        env.cover('halt')
        env.check(how == 'halt', 'the server waits for a cancelled task')


@harness('P06', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('cancelled',))
def cancel_waiting(env, n):
    """Cancelling waiting tasks keeps exactly those from being scheduled."""
    pre = populate(env, n, ['new', 'sent', 'done'])
    ids = [i for i, (k, _) in pre.items() if k == 'new' and env.flag(f'cancel.{i}')]
    Task.cancel_all(ids)
    Session.remove()
    if ids:
        env.cover('cancelled')
    mid = table(env)
    for i, (k, r) in pre.items():
        if i in ids:
            env.check(same_row(mid[i], r, KEEP_FIELDS), 'cancelling changed what was submitted')
            env.check(sym_and(mid[i]['exit_status'] == -1, mid[i]['schedule_time'] is not None,
                              mid[i]['start_time'] is None), 'cancelled task not marked')
        else:
            env.check(same_row(mid[i], r, ALL), 'cancelling changed another task')
    got = next_tasks(n, 3)
    env.observe('got', sorted(t.id for t in got))
    env.check({t.id for t in got} == {i for i, (k, _) in pre.items() if k == 'new'} - set(ids),
              'the tasks scheduled after cancelling are wrong')
