"""The real client (all its threads) against a scripted server: execution (C01), limits (C02), return of results (C03),
reception (C04), heartbeats (C05), environment and capture (C06)."""
import io
import os
import shutil
import signal
from types import SimpleNamespace
from sx.env import harness
from sx.core import sym_and, sym_or, sym_not, sym_implies, mkdt, mktd, PathEnd
from sx.des import Des, Hub, ServerStub, ProcStub, replace_everywhere
from hypershell.data.model import Task
from hypershell.core.queue import QueueClient, QueueConfig
from hypershell.core.heartbeat import Heartbeat, ClientState
from hypershell.core import signal as signal_mod
from hypershell.core.logging import INSTANCE, HOSTNAME
from hypershell import client as client_mod
from hypershell.client import ClientInfo

S = 1_000_000
PORT = 50111


class Server:
    """What the client sees of the server; everything it sends is recorded with its time."""

    def __init__(self, env, size=3, switches=0):
        self.env = env
        env.clock_step = 1
        env.call_limit = 20_000
        self.des = Des(env, switches)
        self.hub = Hub(env)
        replace_everywhere(env, QueueClient, self.hub.make_client)
        self.q = ServerStub(self.hub, QueueConfig(host='localhost', port=PORT, size=size))
        self.q.__enter__()
        self.trace = []               # (what, time, value) in order
        self.results = []             # tasks returned
        self.bundles = []             # (time, n)
        self.q.completed.on_put = self.completed
        self.q.confirmed.on_put = lambda d: self.add('confirm', ClientInfo.unpack(d))
        self.q.heartbeat.on_put = lambda d: self.add('heartbeat', Heartbeat.unpack(d))
        self.q.scheduled.on_get = lambda b: self.add('receive', b)
        self.procs = []
        self.plan = {}                # command -> (duration, status, options)
        env.on_popen = self.popen
        self.tasks = []

    def add(self, what, value):
        self.trace.append((what, self.env.t, value))

    def times(self, what):
        return [t for w, t, _ in self.trace if w == what]

    def values(self, what):
        return [v for w, _, v in self.trace if w == what]

    def completed(self, bundle):
        tasks = [Task.unpack(d) for d in bundle]
        self.results += tasks
        self.bundles.append((self.env.t, len(tasks)))
        self.add('result', tasks)

    def popen(self, args, **kw):
        self.env.point('start process')
        for f in (kw.get('stdout'), kw.get('stderr')):
            if getattr(f, 'closed', False):
                raise ValueError('I/O operation on closed file')      # as the real one does
        duration, status, options = self.plan[args]
        if options.get('fails'):
            raise options['fails']
        p = ProcStub(self.env, args, duration, status, dies_on=options.get('dies_on', ()), options=kw)
        p.wrote = {'stdout': f'stdout of {args}\n', 'stderr': f'stderr of {args}\n' if len(self.procs) % 2 else ''}
        for k in ('stdout', 'stderr'):
            if isinstance(kw.get(k), io.TextIOWrapper) and str(kw[k].name).startswith(self.env.scratch):
                os.write(kw[k].fileno(), p.wrote[k].encode())
        self.add('start', p)
        self.procs.append(p)
        return p

    def task(self, args, duration=0, status=0, command=None, **options):
        self.plan[command or args] = (duration, status, options)
        t = Task.new(args=args)
        t.schedule_time = t.submit_time
        self.tasks.append(t)
        return t

    def send(self, tasks):
        self.q.scheduled.put([t.pack() for t in tasks])

    def pause(self, us):
        self.env.sched.wait(None, 'server pause', self.env.t + us)

    def drain(self, hold=0):
        """Take results; `hold`: not before this time."""
        def go():
            if hold:
                self.pause(hold)
            while True:
                self.q.completed.get()
        self.des.spawn('drain', go)

    def run(self, script, drain=True, hold=0, finishes=True, **options):
        """Run the client against the script; -> its thread."""
        env = self.env
        options = dict(dict(num_tasks=1, bundlesize=1, bundlewait=2, heartrate=10), **options)
        box = []

        def main():
            c = client_mod.ClientThread(address=('localhost', PORT), **options)
            self.began = env.t
            c.start()
            box.append(c)
            c.join()
            self.ended = env.t
        self.des.spawn('main', main)
        self.des.spawn('server', script)
        if drain:
            self.drain(hold)
        self.ended = None
        try:
            how = self.des.run(until=lambda: self.ended is not None)
        except PathEnd:
            raise
        except Exception as err:
            env.fail(f'the client failed: {type(err).__name__}: {err}')
        if finishes:
            env.check(how == 'until', f'the client hangs: {self.des.waiting()} {[str(e) for e in env.tracebacks]}')
            env.check(not env.tracebacks, f'a component crashed: {[str(e) for e in env.tracebacks]}')
        return box[0]

    def result_of(self, t):
        rs = [r for r in self.results if r.id == t.id]
        self.env.check(len(rs) == 1, f'a task is returned {len(rs)} times')
        return rs[0]


def same_submission(env, r, t):
    """What the submitter and the server recorded comes back unchanged."""
    a, b = r.to_dict(), t.to_dict()
    for k in ('id', 'args', 'submit_id', 'submit_host', 'submit_time', 'server_id', 'server_host', 'schedule_time',
              'attempt', 'retried', 'previous_id', 'next_id', 'tag'):
        env.check(a[k] == b[k] if a[k] is not None or b[k] is not None else True, f'{k} changed')


class Coarse(ProcStub):
    """A process on a machine that is suspended for hours at a time."""
    leap = 7 * 3600 * S

    def wait(self, timeout=None):
        if timeout is not None and not self.over():
            e = self.end if self.end is not None else self.env.t + self.leap
            self.env.t = self.env.t + self.leap if self.env.t + self.leap < e else e
        return super().wait(timeout)


@harness('C01', quick=[dict(n=2, workers=1), dict(n=3, workers=2, kinds=('ok',)), dict(n=2, workers=2, switches=1, kinds=('ok', 'exec'))],
         thorough=[dict(n=3, workers=1), dict(n=3, workers=2), dict(n=2, workers=2, switches=2)],
         covers=('ok', 'template', 'exec', 'open', 'capture'), liveness=True)
def execute(env, n, workers, switches=0, kinds=('ok', 'template', 'exec', 'open')):
    """Every received task is run once and returned with the outcome of its own process."""
    s = Server(env, switches=switches)
    kinds = [k for k in kinds]
    capture = env.flag('capture') if 'open' in kinds else False
    size = env.choose('bundlesize', [1, 2])
    tasks, kind = [], {}
    for i in range(n):
        k = env.choose(f'kind{i}', kinds if capture else [k for k in kinds if k != 'open'])
        env.cover(k)
        st = env.int(f'status{i}', -20, 255)
        d = env.choose(f'duration{i}', [0, S // 2, 3 * S]) if k == 'ok' else 0
        args = f'{i} word{i}' if k != 'template' else f'{i}'
        t = s.task(args, d, st, command=f'run word{i}', **({'fails': OSError('no such file')} if k == 'exec' else {}))
        kind[t.id] = (k, d, st, f'run word{i}')
        if i == 0:
            t.submit_time = t.submit_time - mktd(3 * 86_400 * S)      # waited for days
        tasks.append(t)
    if capture:
        env.cover('capture')
        from hypershell.core.platform import default_path
        out = os.path.join(default_path.lib, 'task')
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for t in tasks:
            if kind[t.id][0] == 'open':
                os.makedirs(os.path.join(out, f'{t.id}.out'), exist_ok=True)
            else:                                                # left over from a run that was interrupted
                for ext in ('out', 'err'):
                    with open(os.path.join(out, f'{t.id}.{ext}'), 'w') as f:
                        f.write('old')

    def script():
        s.send(tasks[:2])
        if tasks[2:]:
            s.send(tasks[2:])
        s.q.scheduled.put(None)
    redirect = {}
    if not capture and env.flag('redirect'):
        redirect = dict(redirect_output=io.StringIO(), redirect_errors=io.StringIO())
    s.run(script, num_tasks=workers, bundlesize=size, template='run {[1]}', capture=capture, **redirect)
    for f in redirect.values():
        env.check(not f.closed, 'closes a stream it was given')
    env.observe('results', [(r.id, r.exit_status) for r in s.results])
    env.check(len(s.results) == n, 'number of results')
    for t in tasks:
        r = s.result_of(t)
        k, d, st, command = kind[t.id]
        same_submission(env, r, t)
        env.check(sym_and(r.client_id == INSTANCE, r.client_host == HOSTNAME), 'client not recorded')
        env.check(r.completion_time is not None and r.start_time is not None, 'times not recorded')
        env.check(r.completion_time >= r.start_time, 'ends before it starts')
        mine = [p for p in s.procs if p.args == command]
        if k == 'ok':
            env.check(len(mine) == 1, f'a task is run {len(mine)} times')
            p = mine[0]
            env.check(r.exit_status == st, 'exit status is not that of the process')
            env.check(r.command == command, 'command')
            env.check(sym_and(mkdt(p.started, True) - r.start_time <= mktd(S // 10),
                              r.start_time <= mkdt(p.started, True)), 'start time')
            env.check(sym_and(r.completion_time >= mkdt(p.end, True),
                              r.completion_time <= mkdt(p.end + S // 10, True)), 'completion time')
            took = (r.completion_time - r.start_time).total_seconds()
            env.check(sym_and(r.duration <= took, took < r.duration + 1), 'duration')
            waited = (r.start_time - r.submit_time).total_seconds()
            env.check(sym_and(r.waited <= waited, waited < r.waited + 1), 'waiting time')
            env.check(not p.signals, 'signalled for no reason')
            for kw, f in (('stdout', redirect.get('redirect_output')), ('stderr', redirect.get('redirect_errors'))):
                env.check(not redirect or p.kw.get(kw) is f, 'output is not redirected')
            if capture:
                for kw, path in (('stdout', r.outpath), ('stderr', r.errpath)):
                    f = p.kw.get(kw)
                    env.check(getattr(f, 'name', None) == path and t.id in os.path.basename(path or ''),
                              'output not captured in the file named in the record')
                    env.check(f.closed, 'capture file left open')
                    env.check(os.path.exists(path), 'captured output is gone')
                    with open(path) as f:
                        env.check(f.read() == p.wrote[kw], 'the file does not hold the output of this run alone')
                env.check(r.outpath != r.errpath, 'streams mixed')
                env.check(p.kw['env'].get('TASK_OUTPATH') == r.outpath, 'TASK_OUTPATH')
        else:
            env.check(not mine, 'ran although it could not start')
            env.check(r.exit_status is not None and r.exit_status != 0, 'a task that never started counts as success')
    # never more at once than executors, and no idle executor while a task waits
    oks = [p for p in s.procs]
    for p in oks:
        at_once = sum(1 for o in oks if o.started <= p.started and o.end > p.started)
        env.check(at_once <= workers, 'more tasks at once than executors')


@harness('C01', quick=[{}], covers=('empty', 'other'), liveness=True)
def odd_arguments(env):
    """Tasks without arguments, or with ones that look like nothing, run like all others."""
    s = Server(env)
    odd = [env.choose(f'args{i}', ['', '0', 'None', '-', '\u00e4 \u2028b']) for i in range(2)]
    st = [env.int(f'status{i}', -20, 255) for i in range(3)]
    if odd[0] == odd[1]:
        raise PathEnd('the same twice')
    tasks = [s.task(a, S // 2, st[i], command=f'run [{a}]') for i, a in enumerate(odd + ['last'])]

    def script():
        s.send(tasks[:2])
        s.send(tasks[2:])
        s.q.scheduled.put(None)
    s.run(script, num_tasks=env.choose('workers', [1, 2]), bundlesize=env.choose('bundlesize', [1, 3]), template='run [{}]')
    env.cover('empty' if '' in odd else 'other')
    env.check(sorted(p.args for p in s.procs) == sorted(f'run [{t.args}]' for t in tasks), 'tasks are not run once each')
    env.check(len(s.results) == 3, 'number of results')
    for i, t in enumerate(tasks):
        r = s.result_of(t)
        same_submission(env, r, t)
        env.check(sym_and(r.exit_status == st[i], r.command == f'run [{t.args}]'), 'result of another run')


@harness('C01', quick=[{}], covers=('long', 'short'), liveness=True)
def run_for_days(env):
    """A task may run for days; its times say so."""
    s = Server(env)
    d = env.choose('hours', [1, 23, 25, 60]) * 3600 * S + env.choose('more', [0, S // 2, 61 * S])
    t = s.task('long', d, 0)
    env.cover('long' if d > 86_400 * S else 'short')

    def popen(args, **kw):
        p = Coarse(env, args, d, 3, options=kw)
        s.procs.append(p)
        return p
    env.on_popen = popen

    def script():
        s.send([t])
        s.q.scheduled.put(None)
    s.run(script, heartrate=50_000)
    p, = s.procs
    r = s.result_of(t)
    env.check(not p.signals, 'signalled for no reason')
    env.check(r.exit_status == 3, 'exit status is not that of the process')
    took = (r.completion_time - r.start_time).total_seconds()
    env.check(sym_and(r.completion_time >= mkdt(p.end, True), r.start_time <= mkdt(p.started, True)), 'times')
    env.check(sym_and(r.duration <= took, took < r.duration + 1), 'duration')


@harness('C01', quick=[dict(n=4, workers=2)], thorough=[dict(n=5, workers=2), dict(n=5, workers=3)],
         covers=('busy',), liveness=True)
def parallel(env, n, workers):
    """All executors work while there are tasks."""
    s = Server(env)
    size = env.choose('bundlesize', [1, 2])
    per = env.choose('per', [1, n])
    ds = [env.choose(f'duration{i}', [S, 5 * S]) for i in range(n)]
    tasks = [s.task(f'c{i}', d, 0) for i, d in enumerate(ds)]

    def script():
        for k in range(0, n, per):
            s.send(tasks[k:k + per])
        s.q.scheduled.put(None)
    s.run(script, num_tasks=workers, bundlesize=size)
    env.check(len(s.results) == n, 'lost')
    env.check([p.args for p in sorted(s.procs, key=lambda p: p.started)] == [t.args for t in tasks], 'order of arrival')
    free = [s.began] * workers
    for p in s.procs:
        free.sort()
        env.check(p.started <= free[0] + S, 'a task waits although an executor is idle')
        env.check(p.started >= free[0], 'more tasks at once than executors')
        free[0] = p.end
        env.cover('busy')


INT, TERM, KILL = int(signal.SIGINT), int(signal.SIGTERM), int(signal.SIGKILL)


@harness('C02', quick=[dict(step=1), dict(step=180_000)],
         thorough=[dict(step=1, more=True), dict(step=180_000, more=True), dict(step=160_000, more=True), dict(step=450_000)],
         covers=('in time', 'over', 'term', 'kill', 'limit'), liveness=True)
def walltime(env, step, more=False):
    """A task is stopped when its time is over: not earlier, and with growing force."""
    s = Server(env)
    env.clock_step = step
    limit = env.choose('limit', [2, 4] if not more else [1, 2, 3, 4, 6])
    wait = env.choose('signalwait', [1, 3] if not more else [1, 2, 3, 5])
    obeys = env.choose('obeys', [INT, TERM, KILL])
    delay = env.choose('delay', [0, S // 2, wait * S + S // 3] if more else [0, S // 2]) if obeys != KILL else 0
    d = env.int('duration', 0, (limit + 2) * S) if env.flag('ends') else None
    t = s.task('long', d, 0, dies_on={k: delay for k in (INT, TERM, KILL) if k >= obeys} if obeys != INT
               else {INT: delay, TERM: delay, KILL: 0})
    if obeys == TERM:
        s.plan['long'] = (d, 0, {'dies_on': {TERM: delay, KILL: 0}})
    elif obeys == KILL:
        s.plan['long'] = (d, 0, {'dies_on': {KILL: 0}})
    u = s.task('next', S // 2, 0)

    def script():
        s.send([t])
        s.send([u])
        s.q.scheduled.put(None)
    s.run(script, task_timeout=limit, task_signalwait=wait)
    r = s.result_of(t)
    p = s.procs[0]
    env.observe('signals', [g for g, _ in p.signals])
    sig = p.signals
    env.check([g for g, _ in sig] == [INT, TERM, KILL][:len(sig)], 'signals out of order or repeated')
    slack = S + 40 * step
    start = p.started
    if sig:
        env.cover('over')
        env.check(mkdt(sig[0][1], True) >= r.start_time + mktd(limit * S), 'interrupted before the limit')
        env.check(sig[0][1] <= start + limit * S + slack, 'interrupted too late')
        for a, b in zip(sig, sig[1:]):
            env.check(b[1] >= a[1] + wait * S - 10 * step, 'escalates too early')
        for i, (g, at) in enumerate(sig):
            env.check(at <= sig[0][1] + i * wait * S + slack, 'escalates too late')
            env.cover({INT: 'over', TERM: 'term', KILL: 'kill'}[g])
    else:
        env.check(p.end <= start + limit * S + slack, 'a task beyond its limit is not stopped')
        env.cover('in time')
    env.check(r.exit_status == p.status, 'exit status is not that of the process')
    env.check(sym_and(r.completion_time >= mkdt(p.end, True), r.completion_time <= mkdt(p.end + slack, True)),
              'completion time')
    # the executor goes on with the next task
    r = s.result_of(u)
    env.check(sym_and(r.exit_status == 0, len(s.procs) == 2), 'the next task does not run')
    env.check(not s.procs[1].signals, 'the next task inherits the signals')
    env.cover('limit')


@harness('C02', quick=[{}], covers=('over', 'in time'), liveness=True)
def days(env):
    """Limits of more than a day count as given."""
    s = Server(env)
    limit = env.choose('limit', [90_000, 200_000])
    d = env.choose('duration', [80_000 * S, 95_000 * S, None])
    s.task('long', d, 0)

    def popen(args, **kw):
        p = Coarse(env, args, d, 0, dies_on={INT: 0, TERM: 0, KILL: 0}, options=kw)
        s.procs.append(p)
        return p
    env.on_popen = popen

    def script():
        s.send(s.tasks)
        s.q.scheduled.put(None)
    s.run(script, task_timeout=limit, task_signalwait=5, heartrate=50_000)
    p, = s.procs
    env.observe('signals', [g for g, _ in p.signals])
    if d is not None and d < limit * S:
        env.cover('in time')
        env.check(not p.signals, 'interrupted before the limit')
    for g, at in p.signals:
        env.cover('over')
        env.check(at >= p.started + limit * S - S, 'interrupted before the limit')
        env.check(at <= p.started + limit * S + Coarse.leap + 5 * S, 'interrupted too late')
    env.check(bool(p.signals) or p.end <= p.started + limit * S + Coarse.leap + 5 * S, 'a task beyond its limit is not stopped')
    r = s.result_of(s.tasks[0])
    env.check(r.exit_status == p.status, 'exit status is not that of the process')
    took = (r.completion_time - r.start_time).total_seconds()
    env.check(sym_and(r.duration <= took, took < r.duration + 1), 'duration')


@harness('C02', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('again', 'kill'), liveness=True)
def every_task(env, n):
    """Each of several tasks of one executor gets its own limit and its own signals."""
    s = Server(env)
    limit, wait = env.choose('limit', [2, 3]), env.choose('signalwait', [1, 2])
    obeys, tasks = {}, []
    for i in range(n):
        c = f'c{i}'
        obeys[c] = env.choose(f'obeys{i}', [None, INT, TERM, KILL])
        tasks.append(s.task(c, S if obeys[c] is None else None, 0))
        if obeys[c] is not None:
            s.plan[c] = (None, 0, {'dies_on': {k: 0 for k in (INT, TERM, KILL) if k == obeys[c] or k == KILL}})

    def script():
        for t in tasks:
            s.send([t])
        s.q.scheduled.put(None)
    s.run(script, task_timeout=limit, task_signalwait=wait, num_tasks=1)
    env.check(len(s.procs) == n, 'not every task runs')
    for i, p in enumerate(s.procs):
        want = {None: [], INT: [INT], TERM: [INT, TERM], KILL: [INT, TERM, KILL]}[obeys[p.args]]
        env.check([g for g, _ in p.signals] == want, f'signals of task {i}')
        for k, (g, at) in enumerate(p.signals):
            due = p.started + limit * S + k * wait * S
            env.check(sym_and(due - S // 10 <= at, at <= due + (k + 1) * S + S // 10), f'time of the signals of task {i}')
        if i and p.signals and s.procs[i - 1].signals:
            env.cover('again')
        if KILL in want:
            env.cover('kill')
        env.check(s.result_of(tasks[i]).exit_status == p.status, 'exit status is not that of the process')


@harness('C02', quick=[{}], thorough=[dict(more=True)], covers=('quits', 'kill', 'after'), liveness=True)
def interrupted(env, more=False):
    """On SIGUSR2 a running task gets the same treatment from then on, however long it has been running and whatever its
    limit; what it leaves waiting is treated likewise."""
    s = Server(env)
    wait = env.choose('signalwait', [1, 3] if not more else [1, 2, 3, 5])
    limit = env.choose('limit', [None, 300])
    obeys = env.choose('obeys', [INT, TERM, KILL])
    when = env.choose('when', [S, 9 * S + S // 2] if not more else [0, S, 3 * S, 9 * S + S // 2])
    long = s.task('long', None, 0, dies_on={k: 0 for k in (INT, TERM, KILL) if k == obeys or k == KILL})
    after = s.task('after', None, 0, dies_on={k: 0 for k in (INT, TERM, KILL) if k == obeys or k == KILL})

    def script():
        s.send([long, after])
        s.pause(when)
        env.patch(signal_mod, 'RECEIVED', signal.SIGUSR2)
        s.add('signal', None)
    s.run(script, task_timeout=limit, task_signalwait=wait, num_tasks=1, bundlesize=2)
    at, = s.times('signal')
    want = [INT, TERM, KILL][:[INT, TERM, KILL].index(obeys) + 1]
    env.check(len(s.results) == 2, 'received tasks are not returned once each')
    for p in s.procs:
        env.check([g for g, _ in p.signals] == want, 'signals after SIGUSR2')
        began = at if at > p.started else p.started
        for k, (g, t0) in enumerate(p.signals):
            due = began + k * wait * S
            env.check(sym_and(due - S // 10 <= t0, t0 <= due + (k + 2) * S), 'time of the signals after SIGUSR2')
            env.cover({INT: 'quits', TERM: 'quits', KILL: 'kill'}[g])
        t = long if p.args == 'long' else after
        if p.args == 'after':
            env.cover('after')
        env.check(s.result_of(t).exit_status == p.status, 'exit status is not that of the process')


@harness('C02', quick=[{}], covers=('none',), liveness=True)
def unlimited(env):
    """Without a limit a task is never stopped."""
    s = Server(env)
    env.call_limit = 60_000
    d = env.choose('duration', [S, 50 * S, 400 * S])
    t = s.task('long', d, env.int('status', -3, 3))

    def script():
        s.send([t])
        s.q.scheduled.put(None)
    s.run(script)
    r = s.result_of(t)
    env.check(sym_and(not s.procs[0].signals, r.exit_status == s.procs[0].status), 'stopped without limit')
    env.cover('none')


@harness('C03', quick=[dict(n=3)], thorough=[dict(n=4), dict(n=3, switches=1)],
         covers=('held', 'by size', 'by time', 'at end'), liveness=True)
def collect(env, n, switches=0):
    """Results are returned once each, in bundles by size or waiting time, also when the server is slow or stops."""
    s = Server(env, size=1, switches=switches)
    size = env.choose('bundlesize', [1, 2, 3])
    wait = env.choose('bundlewait', [1, 4])
    hold = env.choose('hold', [0, 9 * S])
    gaps = [env.choose(f'gap{i}', [0, S // 2, 6 * S]) for i in range(n)]
    tasks = [s.task(f'c{i}', S // 4, env.int(f'status{i}', 0, 2)) for i in range(n)]

    def script():
        for t, g in zip(tasks, gaps):
            if g:
                s.pause(g)
            s.send([t])
        s.q.scheduled.put(None)
    s.run(script, hold=hold, num_tasks=1, bundlesize=size, bundlewait=wait)
    env.observe('bundles', [b for _, b in s.bundles])
    if hold:
        env.cover('held')
    for t in tasks:
        r = s.result_of(t)
        env.check(r.exit_status == s.plan[t.args][1], 'status')
    env.check(len(s.results) == n, 'results invented')
    env.check([r.id for r in s.results] == [t.id for t in tasks], 'order of completion')
    for at, b in s.bundles:
        env.check(1 <= b <= size, 'bundle size')
        env.cover('by size' if b == size else 'by time')
    if not hold:
        for at, b in s.bundles:
            pass
        i = 0
        for k, (at, b) in enumerate(s.bundles):
            first = [p for p in s.procs][i]
            i += b
            env.check(at <= first.end + wait * S + 2 * S, 'a result is kept too long')
    if s.bundles[-1][1] < size:
        env.cover('at end')


@harness('C03', quick=[dict(n=5, workers=1), dict(n=5, workers=2)], thorough=[dict(n=7, workers=2), dict(n=7, workers=3)],
         covers=('held',), liveness=True)
def congested(env, n, workers):
    """More results than fit anywhere while the server does not take any: none is dropped, each is returned once."""
    s = Server(env, size=1)
    s.q.completed.items.append([])
    hold = env.choose('hold', [4, 11]) * S
    size = env.choose('bundlesize', [1, 2])
    status = [env.int(f'status{i}', 0, 255) for i in range(n)]
    tasks = [s.task(f'c{i}', S // 10, status[i]) for i in range(n)]

    per = env.choose('per', [2, n]) if workers == 1 else 2

    def script():
        for k in range(0, n, per):
            s.send(tasks[k:k + per])
        s.q.scheduled.put(None)
    s.run(script, hold=hold, num_tasks=workers, bundlesize=size, bundlewait=1)
    env.observe('results', [(r.id, r.exit_status) for r in s.results])
    env.check(len(s.procs) == n, 'a task is run twice or never')
    if workers == 1:
        env.check([p.args for p in s.procs] == [t.args for t in tasks], 'tasks do not start in the order received')
    env.check(len(s.results) == n, 'results are dropped or invented while the server is slow')
    for t, st in zip(tasks, status):
        env.check(s.result_of(t).exit_status == st, 'status')
    env.cover('held')


@harness('C04', quick=[dict(n=2)], thorough=[dict(n=3), dict(n=2, switches=1)],
         covers=('timeout', 'stop', 'confirm', 'signal'), liveness=True)
def receive(env, n, switches=0):
    """Bundles are confirmed before they run; the client stops on request, after its idle limit, or on a signal."""
    s = Server(env, switches=switches)
    no_confirm = env.flag('no_confirm')
    how = env.choose('how', ['stop', 'timeout', 'usr1', 'usr2'])
    limit = env.choose('limit', [3, 7]) if how == 'timeout' else None
    per = env.choose('per', [1, 2])
    gaps = [env.choose(f'gap{i}', [0, 2 * S + S // 2, 6 * S]) for i in range(n)]
    stall = env.choose('stall', [0, 5 * S]) if not no_confirm else 0
    signum = {'usr1': signal.SIGUSR1, 'usr2': signal.SIGUSR2}.get(how)
    bundles = [[s.task(f'c{i}.{j}', S // 2, 0, dies_on={INT: 0}) for j in range(per)] for i in range(n)]
    if stall:
        s.q.confirmed.maxsize = 1
        s.q.confirmed.items.append(b'')
    sent = []

    def script():
        for i, b in enumerate(bundles):
            if gaps[i]:
                s.pause(gaps[i])
            if s.ended is not None:
                return
            if how in ('usr1', 'usr2') and i == n - 1:
                env.patch(signal_mod, 'RECEIVED', signum)
                s.add('signal', None)
                s.pause(2 * S + S // 2)
            s.send(b)
            sent.append((env.t, b))
        if how == 'stop':
            s.q.scheduled.put(None)

    def unstall():
        s.pause(stall)
        s.q.confirmed.items.clear()
        s.q.confirmed.maxsize = 0
    if stall:
        s.des.spawn('unstall', unstall)
    s.run(script, no_confirm=no_confirm, client_timeout=limit, num_tasks=2)
    got = [[Task.unpack(d) for d in b] for b in s.values('receive') if b is not None]
    env.observe('got', [[t.id for t in b] for b in got])
    ids = [t.id for b in got for t in b]
    # everything received was run and returned
    env.check(sorted(r.id for r in s.results) == sorted(ids), 'received tasks are not returned once each')
    confirms = s.values('confirm')
    if no_confirm:
        env.check(not confirms, 'confirms although disabled')
    else:
        env.check([c.task_ids for c in confirms] == [[t.id for t in b] for b in got], 'confirmation is not the bundle')
        for c in confirms:
            env.check(sym_and(c.client_id == INSTANCE, c.client_host == HOSTNAME), 'confirmed for another client')
        at = s.times('confirm')
        for p in s.procs:
            k = [i for i, b in enumerate(got) if p.args in [t.args for t in b]][0]
            env.check(p.started >= at[k], 'a task runs before it is confirmed')
            env.cover('confirm')
    rec = s.times('receive')
    if how == 'stop':
        env.check(len(got) == n and s.values('receive')[-1] is None, 'stops before the request')
        env.cover('stop')
    elif how == 'timeout':
        env.cover('timeout')
        last = rec[-1] if rec else s.began
        end = s.ended
        env.check(end >= last + limit * S, 'gives up before its idle limit')
        for (at, b), nxt in zip(sent, sent[1:]):
            pass
        # a bundle sent within the limit of the previous one is taken
        prev = s.began
        for k, (at, b) in enumerate(sent):
            if at + S // 10 <= prev + limit * S and k <= len(got):
                env.check(len(got) > k, 'stopped although a task arrived in time')
            prev = at
    else:
        env.cover('signal')
        at = s.times('signal')
        if at:
            late = [r for r, v in zip(rec, s.values('receive')) if v is not None and r > at[0] + 2 * S + S // 4]
            env.check(not late, 'takes new tasks after the signal')
            env.check(s.ended <= at[0] + 25 * S, 'does not shut down on the signal')


@harness('C04', quick=[{}], thorough=[dict(more=True)], covers=('nothing', 'task'), liveness=True)
def delayed(env, more=False):
    """The idle limit counts from the moment a client is connected, however long its start was delayed."""
    s = Server(env)
    limit = env.choose('limit', [3, 7, 20] if more else [3, 7])
    delay = env.choose('delay', [0, 1, limit - 1, limit, limit + 1, 60])
    t = s.task('c', S // 2, 0)
    gap = env.choose('gap', [None, S // 2, (limit - 1) * S, limit * S - S // 2])

    def script():
        if gap is not None:
            s.pause(delay * S + gap)
            s.add('sent', None)
            s.send([t])
    s.run(script, client_timeout=limit, delay_start=delay)
    connected = s.began + delay * S
    rec = s.times('receive')
    if gap is None:
        env.cover('nothing')
        env.check(not rec, 'a task out of nothing')
    else:
        env.cover('task')
        env.check(len(rec) == 1 and len(s.results) == 1, 'stopped although a task arrived in time')
    last = rec[-1] if rec else connected
    env.check(s.ended >= last + limit * S, 'gives up before its idle limit')
    env.check(s.ended <= last + (limit + 15) * S, 'does not give up after its idle limit')


@harness('C04', quick=[{}], covers=('given up',), liveness=True)
def idle_for_days(env):
    """Idle limits of a day and more count as given."""
    s = Server(env)
    limit = env.choose('limit', [86_399, 86_400, 90_000, 180_000])
    leap = env.choose('leap', [3600, 5 * 3600]) * S

    def script():
        while s.ended is None:              # the machine is suspended for hours at a time
            s.pause(S)
            if s.ended is None:
                env.t = env.t + leap
    s.run(script, client_timeout=limit, heartrate=50_000)
    env.cover('given up')
    env.check(s.ended >= s.began + limit * S, 'gives up before its idle limit')
    env.check(s.ended <= s.began + limit * S + 10 * leap, 'does not give up after its idle limit')


@harness('C04', quick=[{}], thorough=[dict(switches=1)], covers=('usr1', 'usr2'), liveness=True)
def embedded(env, switches=0):
    """The client of a local cluster goes on until its server dismisses it; only SIGUSR2 reaches the running tasks."""
    s = Server(env, switches=switches)
    env.patch(client_mod, 'CLIENT_STANDALONE_MODE', True)
    client_mod.set_client_standalone(False)
    signum = env.choose('signal', [signal.SIGUSR1, signal.SIGUSR2])
    when = env.choose('when', [0, S // 2, 3 * S])
    workers = env.choose('workers', [1, 2])
    gap = env.choose('gap', [0, 4 * S])
    long = env.choose('duration', [8 * S, None]) if signum == signal.SIGUSR2 else 8 * S
    first = [s.task(f'a{i}', long, 0, dies_on={INT: 0}) for i in range(2)]
    last = [s.task('b', S // 2, 0)]

    def script():
        s.send(first)
        s.pause(when)
        env.patch(signal_mod, 'RECEIVED', signum)
        s.add('signal', None)
        s.pause(gap)
        s.send(last)
        s.q.scheduled.put(None)
    s.run(script, num_tasks=workers)
    env.check(len(s.results) == 3, 'received tasks are not returned once each')
    env.check([v is None for v in s.values('receive')] == [False, False, True], 'stops although its server goes on')
    at, = s.times('signal')
    for p in s.procs:
        got = [g for g, _ in p.signals]
        if signum == signal.SIGUSR1:
            env.check(not got, 'SIGUSR1 interrupts a task')
            env.cover('usr1')
        elif p.args != 'b':
            env.check(got == [INT], 'SIGUSR2 does not interrupt a running task')
            began = at if at > p.started else p.started
            env.check(sym_and(p.signals[0][1] >= at, p.signals[0][1] <= began + 2 * S), 'time of the interrupt')
            env.cover('usr2')
    for t in first + last:
        r = s.result_of(t)
        p, = [p for p in s.procs if p.args == t.args]
        env.check(r.exit_status == p.status, 'exit status is not that of the process')


@harness('C05', quick=[dict(slow=False, most=7), dict(slow=True, most=7)],
         thorough=[dict(slow=False, most=14), dict(slow=True, most=14)], covers=('beat', 'final', 'full'), liveness=True)
def heartbeats(env, slow, most):
    """The server hears from the client at least every period while it runs, and a goodbye at the end, only then."""
    s = Server(env)
    rate = env.choose('rate', [1, 2, 5, 90])
    d = env.int('duration', 0, most * S)
    idle = env.choose('idle', [0, 6 * S]) if most < 9 else env.int('idle', 0, 2 * S)
    hold = env.choose('hold', [3, 5]) * S if slow else 0
    if slow:
        s.q.heartbeat.maxsize = 1
        s.q.heartbeat.items.append(b'')
        env.cover('full')
    t = s.task('long', d, 0)

    def script():
        if idle:
            s.pause(idle)
        s.send([t])
        s.q.scheduled.put(None)

    def drain():
        if slow:
            s.pause(hold)
            s.q.heartbeat.maxsize = 0
    s.des.spawn('beats', drain)
    s.run(script, heartrate=rate)
    beats = s.values('heartbeat')
    at = s.times('heartbeat')
    env.observe('beats', [b.state.name for b in beats])
    env.check(len(beats) >= 1 and beats[-1].state is ClientState.FINISHED, 'no goodbye')
    env.check(all(b.state is ClientState.RUNNING for b in beats[:-1]), 'goodbye before the end')
    for b, t0 in zip(beats, at):
        env.check(sym_and(b.uuid == INSTANCE, b.host == HOSTNAME), 'heartbeat of another client')
        late = 3 * S if slow else S // 10
        env.check(sym_and(b.time <= mkdt(t0, True), b.time >= mkdt(t0 - late, True)), 'time of the heartbeat')
    env.cover('final')
    prev = s.began + hold
    env.check(at[0] <= prev + S, 'a heartbeat that could not be delivered at once is dropped')
    for t0 in at:
        env.check(t0 <= prev + rate * S + 2 * S, 'silent for longer than the heartbeat period')
        prev = t0
        env.cover('beat')
    gaps = [b - a for a, b in zip(at[:-1], at[1:-1])]
    for g in gaps[1 if slow else 0:]:
        env.check(g >= rate * S - S // 10, 'heartbeats more often than configured')
    env.check(at[-1] >= s.procs[0].end, 'says goodbye while a task runs')
    env.check(s.times('result')[-1] <= at[-1], 'says goodbye before the results are returned')
    ended = max(s.times('result')[-1], s.began + hold)
    env.check(at[-1] <= ended + 5 * S, 'says goodbye long after its end')


@harness('C05', quick=[dict(n=1)], thorough=[dict(n=3)], covers=('held',), liveness=True)
def goodbye_last(env, n):
    """As long as the server does not take the results the client keeps sending heartbeats, and says goodbye after."""
    s = Server(env)
    rate = env.choose('rate', [1, 3])
    hold = env.choose('hold', [2, 9, 14]) * S
    size = env.choose('bundlesize', [1, 2])
    s.q.completed.maxsize = 1
    s.q.completed.items.append([])
    tasks = [s.task(f'task {i}', S // 2, 0) for i in range(n)]

    def script():
        s.send(tasks)
        s.q.scheduled.put(None)
    s.run(script, heartrate=rate, bundlesize=size, hold=hold)
    beats, at = s.values('heartbeat'), s.times('heartbeat')
    env.observe('beats', [b.state.name for b in beats])
    env.check(len(s.results) == n, 'results are lost or repeated')
    env.cover('held')
    env.check(beats and beats[-1].state is ClientState.FINISHED, 'no goodbye')
    env.check(all(b.state is ClientState.RUNNING for b in beats[:-1]), 'goodbye before the end')
    env.check(s.times('result')[-1] <= at[-1], 'says goodbye before the results are returned')
    prev = s.began
    for t0 in at:
        env.check(t0 <= prev + rate * S + 2 * S, 'silent for longer than the heartbeat period')
        prev = t0


def shown(v):
    return 'null' if v is None else 'true' if v is True else 'false' if v is False else v if isinstance(v, str) else str(v)


@harness('C06', quick=[dict(k=4)], thorough=[dict(k=10)], covers=('tags', 'export', 'retry'))
def environment(env, k):
    """A task finds its own description, its tags and the exported variables in its environment."""
    from hypershell.core import config as config_mod
    s = Server(env)
    what = env.choose('what', ['args', 'tag', 'other'])
    args = 'x' + env.text('args', k) + 'y' if what == 'args' else 'cmd'
    value = env.choose('tag', [None, True, False, 0, -3, 'text', 'number']) if what == 'tag' else 'a'
    if value == 'text':
        value = env.text('value', k)
    elif value == 'number':
        value = env.int('number', -2, 12)
        value = [v for v in range(-2, 13) if value == v][0]
    other = what == 'other' and env.flag('other')
    tag = {'site': value, **({'Group': 'b'} if other else {})}
    retry = what == 'other' and env.flag('retry')
    if what == 'other' and env.flag('export'):
        env.cover('export')
        f = os.path.join(env.scratch, 'export.toml')
        with open(f, 'w') as out:
            out.write('[export]\nfoo = "bar baz"\nmy_path = ["/a", "/b"]\nn = 3\n\n[export.sub]\nkey = "v"\n')
        new = config_mod.reload_local(f)
        old = config_mod.config
        replace_everywhere(env, old, new)
        exports = {'FOO': 'bar baz', 'MY_PATH': '/a:/b', 'N': '3', 'SUB_KEY': 'v'}
        os.environ['FOO'] = os.environ['N'] = 'own value of the client'
    else:
        exports = {}
    os.environ['SX_PARENT'] = 'kept'
    t = s.task(args, 0, 0, command='-')
    t.tag = tag
    t.server_id, t.server_host = 'srv', 'srvhost'
    if retry:
        env.cover('retry')
        t.attempt, t.previous_id = 2, 'before'

    def popen(a, **kw):
        p = ProcStub(env, a, 0, 0, options=kw)
        s.procs.append(p)
        return p
    env.on_popen = popen

    def script():
        s.send([t])
        s.q.scheduled.put(None)
    s.run(script)
    r = s.result_of(t)
    env.check(len(s.procs) == 1, 'not run')
    e = s.procs[0].kw.get('env')
    env.check(e is not None, 'no environment')
    want = dict(TASK_ID=t.id, TASK_ARGS=args, TASK_COMMAND=args, TASK_SUBMIT_ID=t.submit_id, TASK_SUBMIT_HOST=t.submit_host,
                TASK_SERVER_ID='srv', TASK_SERVER_HOST='srvhost', TASK_CLIENT_ID=INSTANCE, TASK_CLIENT_HOST=HOSTNAME,
                TASK_ATTEMPT='2' if retry else '1', TASK_PREVIOUS_ID='before' if retry else 'null', SX_PARENT='kept',
                TASK_WAITED=str(r.waited), TASK_TAG_SITE=shown(value), **exports)
    if other:
        want['TASK_TAG_GROUP'] = 'b'
    env.cover('tags')
    env.observe('tag', e.get('TASK_TAG_SITE'))
    for name, v in want.items():
        env.check(name in e and e[name] == v, f'{name} in the environment of the task')
    env.check(all(isinstance(x, str) for x in e.values()), 'environment values that are not text')
    for name, v in (('TASK_SUBMIT_TIME', t.submit_time), ('TASK_SCHEDULE_TIME', t.schedule_time),
                    ('TASK_START_TIME', r.start_time)):
        env.check(name in e and e[name] == str(v), f'{name} in the environment of the task')
    env.check(e['TASK_CWD'] == s.procs[0].kw.get('cwd'), 'TASK_CWD')
    env.check(t.id in e['TASK_OUTPATH'] and t.id in e['TASK_ERRPATH'], 'capture paths')
    env.check(sym_and(r.command == args, r.tag == tag), 'task changed')
    env.check([n for n in e if n.startswith('TASK_TAG') and n not in want] == [], 'tags of another task')
