"""Submission: the loader and committer threads, to the database or to a server's queue (U01-U03)."""
from sx.env import harness
from sx.core import sym_and, sym_or, sym_not, sym_implies, mkdt, mktd, PathEnd, CharDomain
from sx.des import Des, Hub, ServerStub, replace_everywhere
from checks.sched_db import table
from sqlalchemy.exc import OperationalError
from hypershell.data.model import Task
from hypershell.data.core import Session
from hypershell.core.queue import QueueClient, QueueConfig
from hypershell.core.logging import INSTANCE, HOSTNAME
from hypershell import submit as submit_mod

S = 1_000_000
PORT = 50112
PLAIN = CharDomain('abc \t"$;\'#{}%\\é|&<-:!')
BLACK = CharDomain([c for c in PLAIN.chars if not c.isspace()])


class Submission:
    """One call of submit_from in its own thread; the target is the database or the queue of a stand-in server."""

    def __init__(self, env, live=False, size=1, switches=0):
        self.env, self.live = env, live
        env.clock_step = 1
        env.call_limit = 20_000
        self.des = Des(env, switches)
        self.hub = Hub(env)
        self.error = self.count = None
        self.ended = False
        self.taken = []           # (time, line number) as the source is read
        self.seen = []            # (time, number of tasks that have arrived)
        self.bundles = []         # live: what the server finds in its queue
        if live:
            replace_everywhere(env, QueueClient, self.hub.make_client)
            self.config = QueueConfig(host='localhost', port=PORT, size=size)
            self.q = ServerStub(self.hub, self.config)
            self.q.__enter__()
            self.q.scheduled.on_put = self.put

    def put(self, bundle):
        self.bundles.append(bundle)
        self.seen.append((self.env.t, sum(len(b) for b in self.bundles)))

    def source(self, lines, gaps, fails=None):
        for i, line in enumerate(lines):
            if gaps[i]:
                self.env.sched.wait(None, 'source', self.env.t + gaps[i])
            if i == fails:
                raise RuntimeError('source failed')
            self.taken.append((self.env.t, i))
            yield line
        if gaps[len(lines):] and gaps[len(lines)]:
            self.env.sched.wait(None, 'source', self.env.t + gaps[len(lines)])

    def watch(self):
        """Notice tasks when they are stored."""
        while True:
            have = self.seen[-1][1] if self.seen else 0
            if self.env.sched.wait(lambda: len(self.env.db.rows('task')) > have, 'watch'):
                self.seen.append((self.env.t, len(self.env.db.rows('task'))))

    def run(self, source, script=None, make=None, **options):
        env = self.env
        if self.live:
            options['queue_config'] = self.config

        def main():
            try:
                self.count = (make or submit_mod.submit_from)(source, **options)
            except Exception as err:
                self.error = err
            self.ended = True
        if not self.live:
            self.des.spawn('watch', self.watch)
        self.des.spawn('main', main)
        if script:
            self.des.spawn('server', script)
        how = self.des.run(until=lambda: self.ended)
        env.check(how == 'until', f'submission hangs: {self.des.waiting()}')
        env.db.hook = None
        Session.remove()

    def tasks(self):
        """Arrived tasks in order of submission."""
        if self.live:
            return [Task.unpack(d).to_dict() for b in self.bundles for d in b]
        rows = list(table(self.env).values())
        return sorted(rows, key=lambda r: r['submit_time'])


def same_tags(env, got, want):
    env.check(list(got) == list(want), 'tags')
    for k in want:
        env.check(sym_and(got[k] == want[k]) if want[k] is not None else got[k] is None, 'tag value')
        env.check(isinstance(got[k], bool) == isinstance(want[k], bool), 'tag type')


def as_submitted(env, s, lines, template, tags):
    """Exactly the lines arrive, in order, each expanded, tagged and fresh."""
    got = s.tasks()
    env.check(len(got) == len(lines), f'{len(got)} tasks arrive for {len(lines)} lines')
    ids = [t['id'] for t in got]
    env.check(len(set(ids)) == len(ids), 'two tasks with one id')
    for t, line in zip(got, lines):
        env.check(t['args'] == template.replace('{}', line).strip(), 'command differs from the line')
        same_tags(env, t['tag'], tags or {})
        env.check(sym_and(t['submit_id'] == INSTANCE, t['submit_host'] == HOSTNAME, t['attempt'] == 1), 'submission record')
        env.check(t['retried'] == False, 'new task counts as retried')   # noqa
        if not s.live:
            for k in ('schedule_time', 'server_id', 'client_id', 'start_time', 'completion_time', 'exit_status', 'command',
                      'previous_id', 'next_id'):
                env.check(t[k] is None, f'{k} of a new task is set')
    for a, b in zip(got, got[1:]):
        env.check(a['submit_time'] < b['submit_time'], 'not in order of the source')


TAGS = [None, {'site': 'zz', 'n': 37, 'on': True, 'none': None}]


@harness('U01', quick=[dict(n=3, k=2, live=False), dict(n=3, k=2, live=True), dict(n=3, k=0, live=True, switches=1),
                       dict(n=3, k=0, live=False, switches=1)],
         thorough=[dict(n=3, k=3, live=False), dict(n=3, k=3, live=True), dict(n=5, k=0, live=True, switches=1),
                   dict(n=5, k=0, live=False, switches=1), dict(n=3, k=0, live=True, switches=2)],
         covers=('done', 'partial', 'full', 'blank'), liveness=True)
def every_line(env, n, k, live, switches=0):
    """Every line of the source becomes one task, in order, as given."""
    s = Submission(env, live, size=1, switches=switches)
    size = env.count('bundlesize', 1, n)
    tags = env.choose('tags', TAGS) if not switches else None
    template = env.choose('template', ['{}', 'run {} -x', '{} {}']) if k else '{}'
    texts = [(env.chars('first', 1, BLACK) + env.chars('line0', k, PLAIN) if k and i == 0 else 'w') + f'{i}' for i in range(n)]
    if k and env.flag('blank'):
        env.cover('blank')
        texts[1] = ''
    lines = [t + env.choose('end', ['', '\n', ' \r\n']) if i == 0 else '  ' + t + '\n' for i, t in enumerate(texts)]
    gaps = [0] + [env.choose('gap', [0, 3 * S])] * (n - 1)
    if n % size:
        env.cover('partial')

    def server():
        while True:
            hold = env.choose('hold', [0, 7 * S])
            if hold and len(s.bundles) > 1:
                env.cover('full')
            env.sched.wait(None, 'hold', env.t + hold)
            s.q.scheduled.get()
    slow = 0 if live or k else env.choose('disk', [0, 3 * S])
    if slow:
        env.db.hook = lambda kind: env.sched.wait(None, 'disk', env.t + slow) if kind == 'commit' else None
    s.run(s.source(lines, gaps), script=server if live else None, bundlesize=size, bundlewait=4, template=template, tags=tags)
    if not live:
        env.cover('full')
    env.check(s.error is None, f'submission failed: {s.error}')
    env.check(not env.tracebacks, 'a component crashed')
    env.check(s.count == n, 'wrong count reported')
    as_submitted(env, s, texts, template, tags)
    env.cover('done')
    env.observe('seen', s.seen)
    before = 0
    for t, now in s.seen:
        env.check(now - before <= size or (switches and not live), 'more tasks at once than the bundle size')
        before = now


@harness('U01', quick=[dict(n=130)], thorough=[dict(n=600)], covers=('live', 'database'), liveness=True)
def long_source(env, n):
    """Sources of any length are submitted completely, in bundles of any size."""
    live = env.flag('live')
    env.cover('live' if live else 'database')
    s = Submission(env, live, size=2)
    size = env.choose('bundlesize', [1, 7, 100, n - 1, n, n + 1])
    texts = [f'task {i}' for i in range(n)]
    texts[n // 2] = env.chars('line', 2, BLACK)

    def server():
        while True:
            s.q.scheduled.get()
    s.run(s.source([t + '\n' for t in texts], [0] * n), script=server if live else None, bundlesize=size, bundlewait=4)
    env.check(s.error is None, f'submission failed: {s.error}')
    env.check(s.count == n, 'wrong count reported')
    as_submitted(env, s, texts, '{}', None)
    before = 0
    for t, now in s.seen:
        env.check(now - before <= size, 'more tasks at once than the bundle size')
        before = now


@harness('U02', quick=[dict(n=2, live=False), dict(n=2, live=True)], thorough=[dict(n=3, live=False), dict(n=3, live=True)],
         covers=('done', 'slow'), liveness=True)
def flushed(env, n, live):
    """However slow the source, a line that was read arrives within the waiting time, and a full bundle at once."""
    s = Submission(env, live, size=10)
    size = env.count('bundlesize', 1, n + 1)
    wait = env.choose('bundlewait', [2, 6])
    gaps = [env.choose(f'gap{i}', [0, 1 * S, 30 * S]) for i in range(n + 1)]
    if max(gaps[1:]) > 10 * S:
        env.cover('slow')
    lines = [f'task {i}' for i in range(n)]
    s.run(s.source(lines, gaps), bundlesize=size, bundlewait=wait)
    env.check(s.error is None, f'submission failed: {s.error}')
    env.check(s.count == n, 'wrong count reported')
    as_submitted(env, s, lines, '{}', None)
    env.cover('done')
    env.observe('seen', s.seen)
    for t, i in s.taken:
        arrived = next(t2 for t2, k in s.seen if k > i)
        env.check(arrived <= t + (wait + 2) * S, 'a task is kept back longer than the waiting time')
        if (i + 1) % size == 0 and size == 1:
            env.check(arrived <= t + 2 * S, 'a full bundle is kept back')


@harness('U03', quick=[dict(n=4, live=False), dict(n=4, live=True)], thorough=[dict(n=7, live=False), dict(n=7, live=True)],
         covers=('source', 'template', 'tags', 'target', 'late'), liveness=True)
def failures(env, n, live):
    """A failure on the way is reported, promptly; nothing is invented; success means that all tasks arrived."""
    s = Submission(env, live, size=1)
    size = env.choose('bundlesize', [1, 2, n])
    what = env.choose('what', ['source', 'template', 'tags', 'target'])
    env.cover(what)
    at = env.count('at', 0, n - 1)
    lines = [f'task {i}' for i in range(n)]
    tags = None
    template = '{}'
    fails = None
    script = None
    if what == 'source':
        fails = at
    elif what == 'template':
        template = '{[1]}'
        lines[at] = 'word'
    elif what == 'tags':
        tags = {'ok': 1, 'bad': 'a/b c'}
    elif live:
        def script():
            env.sched.wait(None, 'connect', env.t + S)
            for _ in range(at):
                s.q.scheduled.get()
            s.q.__exit__()
    else:
        left = [at]

        def hook(kind):
            if kind in ('write', 'commit'):
                left[0] -= 1
                if left[0] < 0:
                    raise OperationalError('statement', {}, Exception('database is locked'))
        env.db.hook = hook
    if what != 'target' and live:
        def script():
            while True:
                s.q.scheduled.get()
    s.run(s.source(lines, [0] * n, fails), script=script, bundlesize=size, bundlewait=4, template=template, tags=tags)
    got = [t['args'] for t in s.tasks()]
    env.observe('got', got)
    if s.error is None:
        env.check(what == 'target', 'a failure is not reported')
        env.check(s.count == n and got == lines, 'reports success although tasks are missing')
        env.cover('late')
    else:
        want = lines if what != 'template' else [l.split()[-1] for l in lines]
        env.check(got == want[:len(got)], 'what arrived is not the beginning of the source')
        env.check(len(got) <= (at if what != 'target' and what != 'tags' else n), 'tasks beyond the failure')
        if what == 'tags':
            env.check(not got, 'a task with invalid tags arrived')


@harness('U03', quick=[dict(n=3, live=False, at=[0, 1, 3, 6, 9, 14]), dict(n=3, live=True, at=[0, 1, 3, 6, 9, 14])],
         thorough=[dict(n=4, live=False, at=list(range(30))), dict(n=4, live=True, at=list(range(30)))],
         covers=('stopped', 'complete'), liveness=True)
def stopped(env, n, live, at):
    """Stopped at any moment, submission ends; what arrived is the beginning of the source."""
    s = Submission(env, live, size=1)
    size = env.choose('bundlesize', [1, 2])
    lines = [f'task {i}' for i in range(n)]
    gap = env.choose('gap', [0, S])
    when = env.choose('at', at)
    wait = env.flag('wait')

    def make(source, **options):
        kind = submit_mod.LiveSubmitThread if live else submit_mod.SubmitThread
        th = kind.new(source, **options)
        env.sched.wait(None, 'before stop', env.t + when * S // 2)
        th.stop(wait=wait)
        env.check(not wait or not th.is_alive(), 'still runs after it was waited for')
        th.join()
        return th.task_count

    def server():
        while True:
            env.sched.wait(None, 'hold', env.t + S)
            s.q.scheduled.get()
    s.run(s.source(lines, [gap] * n), script=server if live else None, make=make, bundlesize=size, bundlewait=4)
    env.check(s.error is None, f'stopping failed: {s.error}')
    got = [t['args'] for t in s.tasks()]
    env.observe('got', got)
    env.check(got == lines[:len(got)], 'what arrived is not the beginning of the source')
    env.cover('complete' if len(got) == n else 'stopped')
