"""The programs around the components: what options and configuration say is what servers and clients get (A01-A03)."""
import os
import sys
import inspect
from datetime import datetime, timedelta
from sx.env import harness
from sx.core import sym_and, sym_or, sym_ite, CharDomain, is_sym, Tok, SChar, mkstr, chars_of
from sx.models import to_text
from sx.des import Des, ProcStub
from sx.dbenv import task_row
from checks.taskcli import Out, Marks
from hypershell.core.logging import HOSTNAME
import hypershell

S = 1_000_000
WORD = CharDomain('ab1.-')


class Recorder:
    """Stand-in for a component: remembers with which options it was made."""

    def __init__(self, env, mod, name, life=None):
        self.made = []
        self.life = life          # what a component does after its start: a function, which may fail
        real = getattr(mod, name)
        sig = inspect.signature(real.__init__)
        rec = self

        class Stand:
            def __init__(self, *args, **kw):
                b = sig.bind(self, *args, **kw)
                b.apply_defaults()
                self.options = dict(list(b.arguments.items())[1:])
                self.calls = []
                rec.made.append(self)

            @classmethod
            def new(cls, *args, **kw):
                new = cls(*args, **kw)
                new.start()
                return new

            def start(self):
                self.calls.append('start')
                self.over, self.error = rec.life is None, None
                if rec.life is not None:
                    env.sched.spawn(name, self.live)

            def live(self):
                try:
                    rec.life(self)
                except Exception as err:
                    self.error = err
                self.over = True

            def join(self, timeout=None):
                self.calls.append('join')
                if not self.over:
                    env.sched.wait(lambda: self.over, f'join {name}', None if timeout is None else env.t + int(timeout * 1_000_000))
                if self.over and self.error is not None:
                    raise self.error

            def stop(self, wait=False, timeout=None):
                self.calls.append('stop')

            def is_alive(self):
                return not self.over
        mods = [m for n, m in list(sys.modules.items()) if m is not None and n.startswith('hypershell')]
        for m, k in [(m, k) for m in mods for k, v in list(vars(m).items()) if v is real]:
            setattr(m, k, Stand)


def text_of(v):
    return v if isinstance(v, str) else str(v)


def run_app(env, app, argv, stdin=None, err=None, tty=False):
    """-> (exit status, standard output); words of the command line may be symbolic."""
    marks = Marks()
    plain = [marks.mark(text_of(a)) for a in argv]
    build = app.from_cmdline
    types = []
    for a in app.interface._actions:
        if a.type is not None:
            types.append((a, a.type))
            a.type = lambda s, t=a.type: t(marks.restore(s))

    def from_cmdline(cmdline=None):
        new = build(cmdline)
        for k, v in list(vars(new).items()):
            setattr(new, k, marks.restore(v))
        return new
    out = Out(tty)
    real = sys.stdout, sys.stderr, sys.stdin
    app.from_cmdline = from_cmdline
    sys.stdout, sys.stderr, sys.stdin = out, err or real[1], stdin or Out()
    out.stdin = sys.stdin
    try:
        status = app.main(plain)
    finally:
        sys.stdout, sys.stderr, sys.stdin = real
        del app.from_cmdline
        for a, t in types:
            a.type = t
    return status, out


def settings(env, names):
    """Symbolic configuration values: {option: value}."""
    out = {}
    for n, kind in names.items():
        if kind == 'int':
            out[n] = env.int(n, 1, 9999)
        elif kind == 'bool':
            out[n] = env.bool(n)
        else:
            out[n] = env.chars(n, 2, WORD)
    return out


def same(env, got, want, what):
    if want is None or isinstance(want, bool):
        env.check(got is want, what)
    else:
        env.check(got is not None and sym_and(got == want), what)


SERVER = dict(server__bundlesize='int', submit__bundlewait='int', server__attempts='int', server__port='int',
              server__evict='int', server__eager='bool', server__bind='text', server__auth='text')


@harness('A01', quick=[dict()], covers=('defaults', 'given', 'forever', 'restart', 'file', 'stdin', 'print', 'path'))
def server_program(env):
    """`hs server` starts one server with the given options, the others from the configuration."""
    conf = settings(env, SERVER)
    env.fresh(**conf)
    server = sys.modules['hypershell.server']
    rec = Recorder(env, server, 'ServerThread')
    app = sys.modules['hypershell'].ServerApp
    given = env.choose('given', [None, 'bundlesize', 'bundlewait', 'retries', 'eager', 'bind', 'port', 'auth', 'all'])
    argv = []
    want = dict(bundlesize=conf['server__bundlesize'], bundlewait=conf['submit__bundlewait'],
                max_retries=conf['server__attempts'] - 1, eager=conf['server__eager'],
                address=(conf['server__bind'], conf['server__port']), auth=conf['server__auth'],
                in_memory=False, no_confirm=False, forever_mode=False, restart_mode=False,
                evict_after=conf['server__evict'])

    def give(name, flag, value, key):
        if given in (name, 'all'):
            argv.extend([flag, value] if value is not None else [flag])
            return value if value is not None else True
        return key
    want['bundlesize'] = give('bundlesize', env.choose('spell', ['-b', '--bundlesize']), env.int('bundlesize', 1, 999),
                              want['bundlesize'])
    want['bundlewait'] = give('bundlewait', '-w', env.int('bundlewait', 1, 999), want['bundlewait'])
    want['max_retries'] = give('retries', '-r', env.int('retries', 0, 99), want['max_retries'])
    want['eager'] = give('eager', '--eager', None, want['eager'])
    host = give('bind', '-H', env.chars('bind', 3, CharDomain('ab1.')), want['address'][0])
    port = give('port', '-p', env.int('port', 1, 65535), want['address'][1])
    want['auth'] = give('auth', '-k', env.chars('auth', 3, CharDomain('ab1.')), want['auth'])
    want['address'] = host, port
    mode = env.choose('mode', ['', '--forever', '--restart'])
    if mode:
        argv.append(mode)
    want['forever_mode'], want['restart_mode'] = mode == '--forever', mode == '--restart'
    path = os.path.join(env.scratch, 'tasks.in')
    with open(path, 'w') as f:
        f.write('a\nb\n')
    source = None
    source = env.choose('source', [path, '-', None] if not mode else [None, path])      # not read on --restart
    if source and mode != '--forever':
        argv.append(source)
    if mode != '--restart' and not mode and env.flag('no_db'):
        argv.append('--no-db')
        want['in_memory'] = True
    if env.flag('no_confirm'):
        argv.append('--no-confirm')
        want['no_confirm'] = True
    dest = env.choose('failures', [None, '--print', '-', 'path'])
    fail_path = os.path.join(env.scratch, 'fail.out')
    with open(fail_path, 'w') as f:
        f.write('of an earlier run')
    if dest == '--print':
        argv.append('--print')
    elif dest is not None:
        argv.extend(['-f', fail_path if dest == 'path' else '-'])
    if not argv:
        argv = ['-']
    status, out = run_app(env, app, argv)
    env.check(status == 0, f'the server program fails with status {status} {env.tracebacks}')
    env.check(len(rec.made) == 1 and rec.made[0].calls[:1] == ['start'] and 'join' in rec.made[0].calls, 'no server is run')
    got = rec.made[0].options
    for k in ('bundlesize', 'max_retries', 'auth', 'in_memory', 'no_confirm', 'forever_mode', 'restart_mode', 'evict_after'):
        same(env, got[k], want[k], f'{k} of the server')
    env.check(got['eager'] == want['eager'], 'eager of the server')
    env.check(sym_and(got['address'][0] == host, got['address'][1] == port), 'address of the server')
    if not mode:
        same(env, got['bundlewait'], want['bundlewait'], 'bundlewait of the server')
        if source == path:
            env.cover('file')
            env.check(getattr(got['source'], 'name', None) == path, 'not the given file')
            env.check(got['source'].closed, 'task file left open')
        else:
            env.cover('stdin')
            env.check(got['source'] is out.stdin and not out.stdin.closed, 'not the standard input')
    else:
        env.check(not got['source'], 'unexpected source')
        env.cover(mode.strip('-'))
    f = got['redirect_failures']
    if dest is None:
        env.check(f is None, 'failures go somewhere')
    elif dest == 'path':
        env.cover('path')
        env.check(f.name == fail_path and f.closed, 'failures do not go to the file')
        env.check(os.path.exists(fail_path), 'failures do not go to the file')
        with open(fail_path) as f:
            env.check(f.read() == '', 'failures of an earlier run in the file')
    else:
        env.cover('print')
        env.check(f is out and not out.closed, 'failures do not go to the standard output')
    env.cover('defaults' if given is None else 'given')


CLIENT = dict(client__bundlesize='int', client__bundlewait='int', client__heartrate='int', client__timeout='int',
              task__timeout='int', task__signalwait='int', server__port='int', server__bind='text', server__auth='text')
SHORT = CharDomain('ab1.')


@harness('A02', quick=[dict()], covers=('defaults', 'given', 'capture', 'streams', 'files', 'refused'))
def client_program(env):
    """`hs client` runs one client with the given options, the others from the configuration."""
    conf = settings(env, CLIENT)
    limits = env.flag('limits')
    if not limits:
        conf['client__timeout'] = conf['task__timeout'] = None
    env.fresh(**conf)
    rec = Recorder(env, sys.modules['hypershell.client'], 'ClientThread')
    app = sys.modules['hypershell'].ClientApp
    names = ['num_tasks', 'template', 'bundlesize', 'bundlewait', 'host', 'port', 'auth', 'delay', 'timeout', 'walltime',
             'signalwait']
    given = env.choose('given', [None, 'all'] + names)
    argv = []

    def give(name, flag, value, other):
        if given in (name, 'all'):
            argv.extend([flag, value])
            return value
        return other
    want = dict(num_tasks=give('num_tasks', '-N', env.int('num_tasks', 1, 999), 1),
                template=give('template', '-t', 'x' + env.chars('template', 2, CharDomain('a {}\'"$-')), '{}'),
                bundlesize=give('bundlesize', '-b', env.int('bundlesize', 1, 999), conf['client__bundlesize']),
                bundlewait=give('bundlewait', '-w', env.int('bundlewait', 1, 999), conf['client__bundlewait']),
                auth=give('auth', '-k', env.chars('auth', 3, SHORT), conf['server__auth']),
                delay_start=give('delay', '-d', env.choose('delay', [2.5, -600.0, 3]), 0),
                client_timeout=give('timeout', '-T', env.int('timeout', -1, 999), conf['client__timeout']),
                task_timeout=give('walltime', '-W', env.int('walltime', -1, 999), conf['task__timeout']),
                task_signalwait=give('signalwait', env.choose('spell', ['-S', '--signalwait', '--task-signalwait']),
                                     env.int('signalwait', 0, 999), conf['task__signalwait']),
                heartrate=conf['client__heartrate'], no_confirm=False, capture=False)
    host = give('host', '-H', env.chars('host', 3, SHORT), conf['server__bind'])
    port = give('port', '-p', env.int('port', 1, 65535), conf['server__port'])
    if env.flag('no_confirm'):
        argv.append('--no-confirm')
        want['no_confirm'] = True
    how = env.choose('streams', ['', 'capture', 'files', 'both'])
    out_path, err_path = os.path.join(env.scratch, 'x.out'), os.path.join(env.scratch, 'x.err')
    if how in ('capture', 'both'):
        argv.append('--capture')
        want['capture'] = True
    if how in ('files', 'both'):
        argv.extend(['-o', out_path, '-e', err_path])
    if not argv:
        argv = ['-N', '1']
    err = Out()
    status, out = run_app(env, app, argv, err=err)
    ok = True
    for t in ('client_timeout', 'task_timeout'):
        if want[t] is not None and want[t] <= 0:
            ok = False
    if not ok or how == 'both':
        env.cover('refused')
        env.check(status != 0 and not rec.made, 'contradictory options are accepted')
        return
    env.check(status == 0, f'the client program fails with status {status} {env.tracebacks}')
    env.check(len(rec.made) == 1 and rec.made[0].calls[:1] == ['start'] and 'join' in rec.made[0].calls, 'no client is run')
    got = rec.made[0].options
    for k in want:
        same(env, got[k], want[k], f'{k} of the client')
    env.check(sym_and(got['address'][0] == host, got['address'][1] == port), 'address of the client')
    if how == 'files':
        env.cover('files')
        env.check(got['redirect_output'].name == out_path and got['redirect_errors'].name == err_path, 'wrong files')
        env.check(got['redirect_output'].closed and got['redirect_errors'].closed, 'output files left open')
    else:
        env.cover('capture' if how else 'streams')
        env.check(got['redirect_output'] is out and got['redirect_errors'] is err, 'not the standard streams')
        env.check(not out.closed and not err.closed, 'standard stream closed')
    env.cover('defaults' if given is None else 'given')


PLAIN = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+=./:,@%{}')


def shell_words(env, text):
    """The words a POSIX shell makes of a command line (which must not need any expansion)."""
    words, cur, state, escape = [], None, None, False
    for c in chars_of(text):
        if isinstance(c, Tok):                        # a rendered number
            env.check(not escape, 'escape before a number')
            cur = ([] if cur is None else cur) + [c]
            continue
        if isinstance(c, SChar):
            c = mkstr([c])
        if escape:
            plain = state is None or c == '"' or c == '\\' or c == '$' or c == '`'
            cur = ([] if cur is None else cur) + ([c] if plain else ['\\', c])
            escape = False
        elif state == "'":
            if c == "'":
                state = None
            else:
                cur = cur + [c]
        elif c == '\\':
            escape = True
        elif state == '"':
            if c == '"':
                state = None
            else:
                env.check(c != '$' and c != '`', 'the remote shell expands part of the command line')
                cur = cur + [c]
        elif c == ' ':
            if cur is not None:
                words.append(cur)
            cur = None
        elif c == "'" or c == '"':
            state = "'" if c == "'" else '"'
            cur = [] if cur is None else cur
        else:
            env.check(sym_or(*[c == x for x in PLAIN]) if is_sym(c) else c in PLAIN,
                      'the remote shell interprets part of the command line')
            cur = ([] if cur is None else cur) + [c]
    env.check(state is None and not escape, 'the command line ends within quotes')
    if cur is not None:
        words.append(cur)
    return [mkstr([x for c in w for x in ([c] if isinstance(c, Tok) else chars_of(c))]) for w in words]


CLUSTER = dict(server__bundlesize='int', submit__bundlewait='int', server__attempts='int', server__port='int',
               server__evict='int', server__eager='bool', client__timeout='int', task__timeout='int',
               task__signalwait='int', client__heartrate='int', autoscale__period='int', autoscale__size__max='int')
OPTIONS = ['num_tasks', 'template', 'bundlesize', 'bundlewait', 'retries', 'eager', 'delay', 'timeout', 'walltime',
           'signalwait', 'port']
MODES = ['local', 'launch', 'mpi', 'ssh', 'autoscaling']
VARIANTS = [(), ('no_confirm',), ('capture',), ('restart',), ('restart', 'file'), ('forever',), ('no_db',), ('failures', 'file'),
            ('output',)]


@harness('A03', quick=[dict()], covers=('local', 'launch', 'mpi', 'ssh', 'autoscaling', 'defaults', 'given', 'env', 'args'))
def cluster_program(env):
    """`hs cluster` runs one server and the clients of the chosen mode, all with the given options."""
    conf = settings(env, CLUSTER)
    if env.flag('unlimited'):
        conf['client__timeout'] = conf['task__timeout'] = None
    conf['ssh__args'] = "-q -o 'A b'"
    conf['autoscale__size__init'] = 2
    env.fresh(**conf)
    mode = env.choose('mode', MODES)
    server = Recorder(env, sys.modules['hypershell.server'], 'ServerThread',
                      (lambda _: env.sched.wait(None, 'serve', 10 ** 15)) if mode == 'autoscaling' else None)
    client = Recorder(env, sys.modules['hypershell.client'], 'ClientThread')
    top = sys.modules['hypershell']
    variant = env.choose('variant', VARIANTS)
    given = env.choose('given', [None, 'all'] + (OPTIONS if variant == () else []))
    if mode == 'autoscaling' and variant and variant[0] in ('restart', 'forever', 'no_db'):
        env.end('does not apply')
    if mode != 'local' and variant == ('output',):
        env.end('does not apply')
    argv = []

    def give(name, flag, value, other):
        if given in (name, 'all'):
            argv.extend([flag, value] if value is not None else [flag])
            return value if value is not None else True
        return other
    size = give('bundlesize', '-b', env.int('bundlesize', 1, 999), conf['server__bundlesize'])
    wait = give('bundlewait', '-w', env.int('bundlewait', 1, 999), conf['submit__bundlewait'])
    port = give('port', '-p', env.int('port', 1, 65535), conf['server__port'])
    both = dict(bundlesize=size, bundlewait=wait, no_confirm='no_confirm' in variant)
    on_server = dict(both, max_retries=give('retries', '-r', env.int('retries', 0, 99), conf['server__attempts'] - 1),
                     in_memory='no_db' in variant, restart_mode='restart' in variant,
                     forever_mode='forever' in variant or mode == 'autoscaling', evict_after=conf['server__evict'])
    eager = give('eager', '--eager', None, conf['server__eager'])
    on_client = dict(both, num_tasks=give('num_tasks', '-N', env.int('num_tasks', 1, 999), 1),
                     template=give('template', '-t', 'x' + env.chars('template', 2, CharDomain('a {}\'"$\\')), '{}'),
                     delay_start=give('delay', '-d', env.choose('delay', [-600.0, 2.5]), 0),
                     client_timeout=give('timeout', '-T', env.int('timeout', 1, 999), conf['client__timeout']),
                     task_timeout=give('walltime', '-W', env.int('walltime', 1, 999), conf['task__timeout']),
                     task_signalwait=give('signalwait', '-S', env.int('signalwait', 0, 999), conf['task__signalwait']),
                     capture='capture' in variant)
    path, fail_path = os.path.join(env.scratch, 'tasks.in'), os.path.join(env.scratch, 'fail.out')
    out_path, err_path = os.path.join(env.scratch, 'x.out'), os.path.join(env.scratch, 'x.err')
    with open(path, 'w') as f:
        f.write('a\nb\n')
    for v, words in dict(no_confirm=['--no-confirm'], capture=['-c'], restart=['--restart'], forever=['--forever'],
                         no_db=['--no-db'], failures=['-f', fail_path], file=[path],
                         output=['-o', out_path, '-e', err_path]).items():
        if v in variant:
            argv.extend(words)
    exe = sys.argv[0]
    if env.flag('exe') and mode != 'local':
        exe = '/opt/x/hs'
        argv.extend(['--remote-exe', exe])
    prefix, hosts, variables, local = [], [None], {}, {}
    if mode == 'launch':
        argv.extend(['--launcher', "srun -n 4 -x 'a b'"])
        prefix = ['srun', '-n', '4', '-x', 'a b']
    elif mode == 'autoscaling':
        if given is None and variant == () and env.flag('without launcher'):
            argv.append('--autoscaling')
        else:
            argv.extend(['--launcher', 'srun -Q', '--autoscaling'])
            prefix = ['srun', '-Q']
    elif mode == 'mpi':
        argv.append('--mpi')
        prefix = ['mpirun']
    elif mode == 'ssh':
        hosts = ['a1.x', 'a2.x']
        argv.extend(['--ssh', 'a[1-2].x'])
        if given in (None, 'all') and variant == () and env.flag('ssh_args'):
            env.cover('args')
            argv.extend(['--ssh-args', "-i '/k y' -p 4"])
            prefix = ['ssh', '-i', '/k y', '-p', '4']
        else:
            prefix = ['ssh', '-q', '-o', 'A b']
        if given is None and variant == () and env.flag('env'):
            env.cover('env')
            argv.append('-E')
            variables = {'HYPERSHELL_AB': 'v' + env.chars('variable', 2, CharDomain('a \'"$\\')), 'HYPERSHELL_N': '1'}
        elif given is None and variant == () and env.flag('not exported'):
            local = {'HYPERSHELL_AB': 'v'}
    if not argv:
        argv = ['-']
    launched = []
    env.on_popen = lambda args, **kw: launched.append((args, kw)) or ProcStub(env, args, 2 * S, 0)
    des = Des(env)
    done = []
    err = Out()
    holder = {}
    real_env, real_stdin = os.environ, sys.stdin
    outside = sys.stdout, sys.stderr

    def main():
        holder['out'] = None
        status, out = run_app(env, top.ClusterApp, argv, stdin=holder.setdefault('stdin', Out()), err=err)
        done.append((status, out))
    des.spawn('main', main)
    os.environ = dict({k: v for k, v in real_env.items() if not k.startswith('HYPERSHELL')}, **variables, **local)
    try:
        how = des.run(until=lambda: bool(done) or (mode == 'autoscaling' and len(launched) >= 2))
    finally:
        os.environ, sys.stdin = real_env, real_stdin
        holder['out'] = sys.stdout if not done else done[0][1]
        sys.stdout, sys.stderr = outside
    env.check(how == 'until', f'the cluster hangs {des.waiting()}')
    if done:
        env.check(mode != 'autoscaling', f'an autoscaling cluster ends by itself {done} {env.tracebacks}')
        env.check(done[0][0] == 0, f'the cluster program fails with status {done[0][0]} {env.tracebacks}')
    env.cover(mode)
    # -- the server
    env.check(len(server.made) == 1 and server.made[0].calls[:1] == ['start'], 'not one server')
    env.check(mode == 'autoscaling' or 'join' in server.made[0].calls, 'the cluster does not wait for its server')
    got = server.made[0].options
    for k in on_server:
        same(env, got[k], on_server[k], f'{k} of the server')
    env.check(got['eager'] == eager, 'eager of the server')
    bind = got['address'][0]
    env.check(bind in (('localhost', '127.0.0.1') if mode == 'local' else ('0.0.0.0', '')), 'bind address of the server')
    env.check(got['address'][1] == port, 'port of the server')
    auth = got['auth']
    env.check(isinstance(auth, str) and len(auth) >= 32 and len(set(auth)) > 5, 'key of the cluster')
    if 'restart' in variant:
        env.check(not got['source'], 'unexpected source')
    elif 'file' in variant:
        env.check(getattr(got['source'], 'name', None) == path, 'not the given file')
        env.check(mode == 'autoscaling' or got['source'].closed, 'task file left open')
    else:
        env.check(got['source'] is holder['stdin'] and not got['source'].closed, 'not the standard input')
    f = got['redirect_failures']
    if 'failures' in variant:
        env.check(f.name == fail_path and (mode == 'autoscaling' or f.closed), 'failures do not go to the file')
    else:
        env.check(f is None, 'failures go somewhere')
    # -- the clients
    if mode == 'local':
        env.check(len(client.made) == 1 and client.made[0].calls[:1] == ['start'] and not launched, 'not one client')
        got = client.made[0].options
        env.check('join' in client.made[0].calls, 'the cluster does not wait for its client')
        same(env, got['heartrate'], conf['client__heartrate'], 'heartrate of the client')
        env.check(got['address'][0] in ('localhost', '127.0.0.1'), 'address of the client')
        if 'output' in variant:
            env.check(got['redirect_output'].name == out_path and got['redirect_errors'].name == err_path, 'wrong files')
            env.check(got['redirect_output'].closed and got['redirect_errors'].closed, 'output files left open')
        else:
            env.check(got['redirect_output'] is holder['out'] and got['redirect_errors'] is err, 'not the standard streams')
            env.check(not holder['out'].closed and not err.closed, 'standard stream closed')
        as_given(env, got, on_client, port, auth)
    else:
        env.check(not client.made, 'unexpected client')
        env.check(len(launched) == (2 if mode == 'autoscaling' else len(hosts)), 'wrong number of launches')
        hosts = hosts * 2 if mode == 'autoscaling' else hosts
        for (args, kw), host in zip(launched, hosts):
            n = len(prefix)
            env.check(list(args[:n]) == prefix, f'launcher {args[:n]}')
            rest = list(args[n:])
            if mode == 'ssh':
                env.check(rest[:1] == [host], f'host {rest[:1]}')
                words = shell_words(env, ' '.join(rest[1:]))
                for name, value in variables.items():
                    env.check(len(words) > 0 and sym_or(*[w == f'{name}={value}' for w in words[:len(variables)]]),
                              'variable not exported as it is')
                words = words[len(variables):]
            else:
                words = rest
            env.check(words[:2] == [exe, 'client'], f'not the client program: {words[:2]}')
            before = len(client.made)
            status, _ = run_app(env, top.ClientApp, words[2:], err=err)
            env.check(status == 0 and len(client.made) == before + 1, f'the launched client fails: {err.text} {env.tracebacks}')
            got = client.made[-1].options
            env.check(got['address'][0] == HOSTNAME, 'address of the server for the client')
            as_given(env, got, on_client, port, auth)
    env.cover('defaults' if given is None else 'given')


def as_given(env, got, want, port, auth):
    for k in want:
        same(env, got[k], want[k], f'{k} of the client')
    env.check(got['address'][1] == port, 'port for the client')
    env.check(got['auth'] == auth, 'key for the client')


CLASHES = dict(
    server={('file', 'forever'), ('forever', 'restart'), ('no_db', 'forever'), ('no_db', 'restart'), ('no_db', 'initdb'),
            ('print', 'failures')},
    cluster={('forever', 'restart'), ('no_db', 'forever'), ('no_db', 'restart'), ('no_db', 'initdb'),
             ('capture', 'output'), ('capture', 'errors'), ('mpi', 'launcher'), ('ssh', 'mpi'), ('ssh', 'launcher'),
             ('ssh_group', 'host'), ('autoscaling', 'ssh'), ('autoscaling', 'mpi'), ('autoscaling', 'no_db'),
             ('ssh', 'output'), ('mpi', 'output'), ('launcher', 'output'), ('ssh', 'errors'), ('mpi', 'errors'),
             ('launcher', 'errors'), ('autoscaling', 'output'), ('autoscaling', 'errors')},
    client={('capture', 'output'), ('capture', 'errors')})
NEEDS = dict(server={}, client={}, cluster={'ssh_args': 'ssh', 'ssh_group': 'ssh'})
WORDS = dict(file=['IN'], forever=['--forever'], restart=['--restart'], no_db=['--no-db'], initdb=['--initdb'],
             capture=['-c'], output=['-o', 'OUT'], errors=['-e', 'ERR'], failures=['-f', 'FAIL'], print=['--print'],
             ssh=['--ssh', 'n1'], mpi=['--mpi'], launcher=['--launcher=srun'], ssh_args=['--ssh-args=-q'],
             ssh_group=['--ssh-group', 'g'], autoscaling=['-A', 'fixed'])
SETS = dict(server=['file', 'forever', 'restart', 'no_db', 'initdb', 'print', 'failures'],
            cluster=['file', 'forever', 'restart', 'no_db', 'initdb', 'capture', 'output', 'errors', 'failures', 'ssh', 'mpi',
                     'launcher', 'ssh_args', 'ssh_group', 'autoscaling'],
            client=['capture', 'output', 'errors'])


@harness('A04', quick=[dict(app='server', k=3), dict(app='cluster', k=3), dict(app='client', k=3)],
         thorough=[dict(app='server', k=7), dict(app='cluster', k=4), dict(app='client', k=3)],
         covers=('refused', 'accepted'))
def clashes(env, app, k):
    """Options that contradict each other are refused before anything starts; all others are accepted."""
    env.fresh(ssh__nodelist={'g': ['n1', 'n2'], 'h': ['n3']})
    recs = [Recorder(env, sys.modules['hypershell.' + m], n) for m, n in (
        ('server', 'ServerThread'), ('client', 'ClientThread'), ('cluster.local', 'LocalCluster'),
        ('cluster.remote', 'RemoteCluster'), ('cluster.remote', 'AutoScalingCluster'), ('cluster.ssh', 'SSHCluster'))]
    names = SETS[app]
    chosen = []
    for i in range(k):
        rest = names[names.index(chosen[-1]) + 1:] if chosen else names
        pick = env.choose('option', [None] + rest)
        if pick is None:
            break
        chosen.append(pick)
    group_only = 'ssh_group' in chosen and 'ssh' in chosen and env.flag('no_host')
    argv = []
    for c in chosen:
        if c == 'file':
            continue
        words = WORDS[c]
        if c == 'ssh' and group_only:
            words = ['--ssh']
        argv.extend(os.path.join(env.scratch, w) if w in ('OUT', 'ERR', 'FAIL') else w for w in words)
    if group_only and argv[-1:] == ['--ssh']:
        argv.append('--no-confirm')
    if 'file' in chosen:
        path = os.path.join(env.scratch, 'IN')
        with open(path, 'w') as f:
            f.write('x\n')
        argv.insert(0, path)
    if not argv:
        argv = ['-N', '1'] if app == 'client' else ['-']
    have = set(chosen)
    if 'ssh' in have and not group_only:
        have.add('host')
    clash = any(a in have and b in have for a, b in CLASHES[app]) or any(
        a in have and b not in have for a, b in NEEDS[app].items())
    top = sys.modules['hypershell']
    program = dict(server=top.ServerApp, cluster=top.ClusterApp, client=top.ClientApp)[app]
    status, out = run_app(env, program, argv, err=Out())
    made = [m for r in recs for m in r.made]
    if clash:
        env.cover('refused')
        env.check(status != 0, f'{argv} is accepted')
        env.check(not made, 'something was started')
    else:
        env.cover('accepted')
        env.check(status == 0, f'{argv} is refused {env.tracebacks}')
        env.check(len(made) == 1, 'not one component started')
        nodes = made[0].options.get('nodelist')
        if 'ssh' in have:
            env.check(list(nodes) == (['n1', 'n2'] if group_only else ['n1']), 'hosts')


DIGIT = CharDomain('0123456789')


def decimal(text):
    """The number that digit characters stand for."""
    n = 0
    for c in text:
        n = n * 10 + (ord(c) - 48)
    return n


@harness('A05', quick=[dict(ranges=1, span=2), dict(ranges=1, span=1, digits=3), dict(ranges=2, span=1, digits=1)],
         thorough=[dict(ranges=1, span=12, digits=3), dict(ranges=2, span=2, digits=2, groups=2)],
         covers=('range', 'list', 'padded', 'group'))
def nodes(env, ranges, span=3, digits=2, groups=1):
    """Host patterns name exactly the intended hosts, in order, padded as written."""
    env.fresh()
    ssh = sys.modules['hypershell.cluster.ssh']
    text, want = '', []
    for g in range(groups):
        hosts, spec = ['n' if g == 0 else 'm'], 'n' if g == 0 else 'm'
        for r in range(ranges):
            opts = []
            items = []
            for i in range(env.count('parts', 1, 2) if r == 0 and g == 0 else 1):
                width = env.count('width', 1, digits)
                a = env.chars('start', width, DIGIT)
                if env.choose('form', ['single', 'range']) == 'single':
                    opts.append(a)
                    items.append(a)
                    env.cover('list')
                    continue
                env.cover('range')
                lo = decimal(a)
                n = env.count('span', 0, span)
                wide = env.count('stop', width, digits)
                b = env.chars('end', wide, DIGIT)
                env.assume(decimal(b) == lo + n)
                if wide > width or wide > 1:
                    env.assume(sym_or(b[0] != '0', wide == width))
                items.append(a + '-' + b)
                for k in range(n + 1):
                    v = to_text(lo + k)
                    if a[0] == '0':
                        env.cover('padded')
                        v = v.zfill(width)
                    opts.append(v)
            hosts = [h + o for h in hosts for o in opts]
            spec = spec + '[' + ','.join(items) + ']'
            tail = env.choose('tail', ['', '-x', '.y']) if r == ranges - 1 else ''
            hosts = [h + tail for h in hosts]
            spec = spec + tail
        want = want + hosts
        text = text + (',' if g else '') + spec
    if tail != '-x':
        env.cover('group')
        text = text + ',other.z'
        want = want + ['other.z']
    got = ssh.NodeList.from_cmdline(text)
    env.check(len(got) == len(want), f'{len(got)} hosts instead of {len(want)}')
    for a, b in zip(got, want):
        env.check(a == b, 'wrong host')


@harness('A05', quick=[dict(span=3)], thorough=[dict(span=9)], covers=('down', 'up'))
def bounds(env, span):
    """The bounds of a range may be written in either order."""
    env.fresh()
    ssh = sys.modules['hypershell.cluster.ssh']
    width = env.count('width', 1, 3)
    a = env.chars('start', width, DIGIT)
    lo = decimal(a)
    n = env.count('span', 0, span)
    b = env.chars('end', width, DIGIT)
    env.assume(sym_and(decimal(b) == lo + n, a[0] != '0'))
    down = env.flag('down')
    env.cover('down' if down else 'up')
    got = ssh.NodeList.from_cmdline(f'n[{b}-{a}]' if down else f'n[{a}-{b}]')
    env.check(len(got) == n + 1, f'{len(got)} hosts instead of {n + 1}')
    for k in range(n + 1):
        env.check(sym_or(*[h == 'n' + to_text(lo + k) for h in got]), 'a host is missing')


@harness('A05', quick=[dict(span=3)], thorough=[dict(span=5)], covers=('wider', 'padded'))
def wide_numbers(env, span):
    """Ranges whose numbers gain a digit, of up to five digits, with or without zeros in front."""
    env.fresh()
    ssh = sys.modules['hypershell.cluster.ssh']
    edge = env.choose('edge', [10, 100, 1000, 10000])
    lo = edge - env.count('below', 1, span)
    hi = edge + env.count('above', 0, span)
    zeros = env.choose('zeros', ['', '0', '00'])
    c = env.chars('name', 1, SHORT)
    start = zeros + str(lo)
    got = ssh.NodeList.from_cmdline(f'{c}[{start}-{hi}]')
    env.cover('padded' if zeros else 'wider')
    want = [c + str(i).zfill(len(start) if zeros else 0) for i in range(lo, hi + 1)]
    env.check(len(got) == len(want), f'{len(got)} hosts instead of {len(want)}')
    for x, y in zip(got, want):
        env.check(x == y, 'wrong host')


@harness('A05', quick=[dict()], covers=('list', 'pattern', 'dict', 'missing'))
def configured_nodes(env):
    """Hosts of the configuration: a list, a pattern or the named group; anything else is an error."""
    n = 'n' + env.chars('name', 1, SHORT)
    kind = env.choose('nodelist', ['list', 'pattern', 'groups', 'absent'])
    value = dict(list=[n, 'b'], pattern=n + '[1-2]', groups={'g': [n, 'b', 'a'], 'p': n + '[1-2],c'}, absent={})[kind]
    env.fresh(ssh__nodelist=value)
    ssh = sys.modules['hypershell.cluster.ssh']
    group = env.choose('group', [None, 'g', 'p', 'q'])
    want = None
    if group is None:
        want = dict(list=[n, 'b'], pattern=[n + '1', n + '2'], groups=None, absent=None)[kind]
        env.cover({'list': 'list', 'pattern': 'pattern'}.get(kind, 'missing'))
    elif kind == 'groups':
        want = dict(g=[n, 'b', 'a'], p=[n + '1', n + '2', 'c'], q=None)[group]
        env.cover('dict')
    try:
        got = ssh.NodeList.from_cmdline() if group is None else ssh.NodeList.from_config(group)
    except ssh.ConfigurationError:
        got = None
    if want is None:
        env.check(got is None, 'hosts out of nothing')
    else:
        env.check(got is not None and len(got) == len(want), 'number of hosts')
        for a, b in zip(got, want):
            env.check(a == b, 'wrong host')


@harness('A06', quick=[dict(policy='fixed', checks=2), dict(policy='dynamic', checks=2)],
         thorough=[dict(policy='fixed', checks=3), dict(policy='dynamic', checks=3)],
         covers=('initial', 'launch', 'keep', 'stop', 'exit'), liveness=True)
def autoscaler(env, policy, checks):
    """The number of clients follows the policy at every period, within its bounds, until it is stopped."""
    env.clock_step = 1
    env.call_limit = 30_000
    des = Des(env)
    remote = sys.modules['hypershell.cluster.remote']
    init, low, high = env.int('init', 0, 2), env.int('min', 0, 3), env.int('max', 0, 3)
    factor = env.int('factor', 1, 9)
    period = env.choose('period', [1, 20])
    launched, rounds, answers = [], [], []

    def popen(args, **kw):
        env.check(list(args) == ['go', 'client'], 'launches something else')
        k = len(launched)
        life = None
        if k < 2:
            life = env.choose(f'life{k}', [None, S // 2, 30 * S])
        p = ProcStub(env, args, life, env.int(f'status{k}', -9, 2))
        launched.append(p)
        return p
    env.on_popen = popen

    def remaining(*_):
        a = env.int(f'tasks{len(rounds)}', 0, 5)
        alive = len([p for p in launched if not p.over()])
        rounds.append(dict(t=env.t, tasks=a, alive=alive, before=len(launched), pressure=None))
        return a

    def pressure(cls_or_factor, *rest):
        given = rest[0] if rest else cls_or_factor
        env.check(given == factor, 'another factor')
        p = None
        if env.flag(f'known{len(rounds)}'):
            p = env.int(f'pressure{len(rounds)}', 0, 999) / 100
        rounds[-1]['pressure'] = p
        return p
    env.patch(remote.Task, 'count_remaining', remaining)
    env.patch(remote.Task, 'task_pressure', pressure)
    env.patch(remote.Client, 'count_connected', lambda *_: env.int(f'connected{len(rounds)}', 0, 3))
    th = remote.AutoScalerThread(['go', 'client'], policy=policy, factor=factor, period=period, init_size=init,
                                 min_size=low, max_size=high)
    ended = []

    def main():
        th.start()
        th.join()
        ended.append(env.t)
    begin = env.t
    des.spawn('main', main)
    env.check(des.run(until=lambda: len(rounds) > checks) == 'until', f'the autoscaler stops scaling {des.waiting()}')
    env.cover('initial')
    # what every check found, and what it did until the next one
    env.check(rounds[0]['before'] == init, f'{rounds[0]["before"]} initial clients instead of {init}')
    last = begin
    for r, nxt in zip(rounds, rounds[1:]):
        env.check(sym_and(r['t'] - last >= period * S - 2000), 'checks more often than asked')
        env.check(r['t'] - last <= (period + 3) * S, 'checks less often than asked')
        last = r['t']
        new = nxt['before'] - r['before']
        if policy == 'fixed':
            up = sym_or(r['alive'] < low, sym_and(r['alive'] == 0, r['tasks'] > 0))
        elif r['alive'] < low:
            up = True
        elif r['pressure'] is not None:
            up = sym_and(r['pressure'] > 1, r['alive'] < high)
        else:
            up = sym_and(r['alive'] == 0, r['tasks'] > 0)
        if up:
            env.cover('launch')
            env.check(new == 1, f'{new} clients launched when one is needed')
        else:
            env.cover('keep')
            env.check(new == 0, f'{new} clients launched when none is needed')
        if r['alive'] < r['before']:
            env.cover('exit')
    th.stop()
    n = len(launched)
    t = env.t
    env.check(des.run(until=lambda: bool(ended)) == 'until', 'the autoscaler cannot be stopped')
    env.check(ended[0] - t <= 3 * S and len(launched) <= n + 1, 'the autoscaler goes on after it is stopped')
    env.cover('stop')


@harness('A06', quick=[dict(checks=4)], thorough=[dict(checks=6)], covers=('both gone', 'slow', 'launch', 'keep'), liveness=True)
def autoscaler_exits(env, checks):
    """Clients that exit together are told from those that go on, and after a slow check periods go on as before."""
    env.clock_step = 1
    env.call_limit = 30_000
    des = Des(env)
    remote = sys.modules['hypershell.cluster.remote']
    size = 3
    period = 20
    launched, rounds = [], []
    slow = env.choose('slow', [None, 0, 1])

    def popen(args, **kw):
        k = len(launched)
        life = env.choose(f'life{k}', [None, S // 2, 30 * S]) if k < size else None
        p = ProcStub(env, args, life, env.choose(f'status{k}', [0, 1]) if k == 1 else 0)
        launched.append(p)
        return p
    env.on_popen = popen

    def remaining(*_):
        k = len(rounds)
        rounds.append(dict(t=env.t, alive=len([p for p in launched if not p.over()]), before=len(launched)))
        if slow == k:
            env.cover('slow')
            env.sched.wait(None, 'database', env.t + 70 * S)
        return 1
    env.patch(remote.Task, 'count_remaining', remaining)
    env.patch(remote.Client, 'count_connected', lambda *_: 0)
    th = remote.AutoScalerThread(['go'], policy='fixed', factor=1, period=period, init_size=size, min_size=size, max_size=size)
    begin = env.t
    des.spawn('main', lambda: (th.start(), th.join()))
    env.check(des.run(until=lambda: len(rounds) > checks) == 'until', f'the autoscaler stops scaling {des.waiting()}')
    last = begin
    for k, (r, nxt) in enumerate(zip(rounds, rounds[1:])):
        env.check(r['t'] - last >= period * S - 2000, 'checks more often than asked')
        env.check(r['t'] - last <= (period + 3 + (70 if k and slow == k - 1 else 0)) * S, 'checks less often than asked')
        last = r['t']
        new = nxt['before'] - r['before']
        env.cover('launch' if r['alive'] < size else 'keep')
        env.check(new == (1 if r['alive'] < size else 0), f'{new} clients launched with {r["alive"]} of {size} running')
        if not k and r['alive'] < size - 1:
            env.cover('both gone')
    th.stop()


FAULTS = ['none', 'launcher', 'second launcher', 'server at once', 'server later', 'client']


@harness('A07', quick=[dict()], covers=('none', 'launcher', 'second launcher', 'server at once', 'server later', 'client', 'autoscaler'),
         liveness=True)
def lifecycle(env):
    """A cluster ends when its work is done, and with an error that tells the cause when a component fails."""
    env.fresh(autoscale__period=5)
    env.clock_step = 1
    mode = env.choose('mode', MODES)
    fault = env.choose('fault', FAULTS + ['autoscaler'])
    if (fault == 'client') != (fault == 'client' and mode == 'local') or (fault == 'launcher' and mode == 'local'):
        env.end('does not apply')
    if fault == 'second launcher' and mode != 'ssh':
        env.end('does not apply')
    if fault == 'autoscaler' and mode != 'autoscaling' or fault == 'none' and mode == 'autoscaling':
        env.end('does not apply')
    top = sys.modules['hypershell']
    remote = sys.modules['hypershell.cluster.remote']
    cause = (FileNotFoundError(2, 'No such file or directory', 'srun') if 'launcher' in fault
             else RuntimeError('this component is broken'))
    work = env.int('work', S, 9 * S)
    serving = []

    def serve(stand):
        serving.append(stand)
        if fault == 'server at once':
            raise cause
        if mode == 'autoscaling' and fault != 'server later':
            env.sched.wait(lambda: 'stop' in stand.calls, 'serve')
        elif fault in ('launcher', 'second launcher', 'client'):
            env.sched.wait(lambda: 'stop' in stand.calls, 'serve')
        else:
            env.sched.wait(None, 'serve', env.t + work)
        if fault == 'server later':
            raise cause

    def work_for(stand):
        if fault == 'client':
            env.sched.wait(None, 'work', env.t + work)
            raise cause
        env.sched.wait(lambda: serving and serving[0].over, 'work')
        if serving[0].error is not None:
            raise ConnectionResetError('lost the server')
    server = Recorder(env, sys.modules['hypershell.server'], 'ServerThread', serve)
    client = Recorder(env, sys.modules['hypershell.client'], 'ClientThread', work_for)
    launched = []
    # the launched clients may take their time to end after the server has
    linger = env.choose('linger', [0, 4 * S]) if fault == 'none' and mode != 'local' else 0
    gone = [False]
    good = env.choose('good', [1, 2, 3]) if fault == 'second launcher' else None

    def popen(args, **kw):
        if fault == 'launcher' or fault == 'second launcher' and len(launched) == good:
            raise cause
        p = ProcStub(env, args, None, 0, dies_on={15: 1, 9: 1})
        p.over = lambda: (gone[0] if linger else serving[0].over) or ProcStub.over(p)
        launched.append(p)
        return p
    env.on_popen = popen
    if fault == 'autoscaler':
        def broken(*_):
            raise cause
        env.patch(remote.Task, 'count_remaining', broken)
    argv = dict(local=['-'], launch=['--launcher', 'srun'], mpi=['--mpi'], ssh=['--ssh', 'a,b,c,d'],
                autoscaling=['--launcher', 'srun', '-A'])[mode]
    des = Des(env)

    def end_clients():
        env.sched.wait(lambda: serving and serving[0].over, 'linger')
        env.sched.wait(None, 'linger', env.t + linger)
        gone[0] = True
    if linger:
        des.spawn('linger', end_clients)
    done = []
    outside = sys.stdout, sys.stderr, sys.stdin
    raised = []
    app = top.ClusterApp

    def main():
        done.append(run_app(env, app, argv, err=Out())[0])
    real = app.run

    def run(self):
        try:
            real(self)
        except Exception as err:
            raised.append(err)
            raise
    env.patch(app, 'run', run)
    des.spawn('main', main)
    try:
        how = des.run(until=lambda: bool(done))
    finally:
        sys.stdout, sys.stderr, sys.stdin = outside
    env.cover(fault)
    env.check(how == 'until', f'the cluster never ends ({fault}): {des.waiting()}')
    if fault == 'none':
        env.check(done[0] == 0, f'the cluster fails {env.tracebacks}')
        env.check(not raised, 'an error without cause')
        env.check(serving[0].over, 'the cluster ends before its server')
        env.check(all(p.over() and not p.signals for p in launched), 'the cluster ends before its clients')
    else:
        env.check(done[0] != 0, 'the failure is not reported by the exit status')
        err = raised[0] if raised else None
        lost = mode == 'local' and isinstance(err, ConnectionResetError)
        env.check(err is cause or lost, f'another error hides the cause: {err!r}')
        if fault == 'second launcher':
            env.check(len(launched) == good and all(p.signals for p in launched), 'clients are left running')
        if fault in ('launcher', 'second launcher', 'client', 'autoscaler'):
            env.check('stop' in serving[0].calls, 'the server is left running')


@harness('A08', quick=[dict(n=3, clients=1), dict(n=3, clients=2)], thorough=[dict(n=4, clients=2), dict(n=4, clients=1)],
         covers=('none', 'known', 'other server', 'servers in turn', 'cancelled last'))
def task_pressure(env, n, clients):
    """Task pressure is the estimated time to completion over the scaling factor times the average duration."""
    model = sys.modules['hypershell.data.model']
    t0 = datetime(2026, 1, 1)
    active = {}
    for i in range(clients):
        gone = env.flag(f'gone{i}')
        active[f'c{i}'] = not gone
        env.db.put('client', id=f'c{i}', host='h', server_id='now', server_host='h', connected_at=t0,
                   disconnected_at=t0 if gone else None, evicted=False)
    rows = []
    older = env.choose('older', [None, -500, 25])       # the other server's task, before or between those of this one
    for i in range(n):
        kind = env.choose(f'kind{i}', ['new', 'running', 'done', 'failed', 'cancelled'] if i else ['done', 'failed'])
        server = 'before' if older and i == 1 and kind != 'new' else 'now'
        row = task_row(env, f't{i}', submit_time=t0, tag={})
        begin = env.int(f'begin{i}', 0, 20) if i < 2 else 20 * i
        took = env.int(f'took{i}', 0 if i else 1, 9) if i < 2 else i
        if kind != 'new':
            row['schedule_time'] = t0 + timedelta(seconds=(begin if server == 'now' else older))
        if kind not in ('new', 'cancelled'):
            row.update(server_id=server, server_host='h', client_id=f'c{i % clients}', client_host='h')
        if kind in ('done', 'failed'):
            row.update(start_time=t0 + timedelta(seconds=begin), completion_time=t0 + timedelta(seconds=begin + took, milliseconds=500),
                       waited=0, duration=took, exit_status=0 if kind == 'done' else 1, command='x')
        if kind == 'cancelled':
            late = env.flag(f'cancelled late{i}')
            row.update(exit_status=-1, schedule_time=t0 + timedelta(seconds=900 if late else -900))
            if late:
                env.cover('cancelled last')
        env.db.put('task', **row)
        rows.append((kind, server, f'c{i % clients}', begin, took))
    if older == 25 and rows[1][1] == 'before':
        if not any(k not in ('new', 'cancelled') for k, *_ in rows[2:]):
            env.end('the other server is the latest')
        env.cover('servers in turn')
    factor = env.int('factor', 1, 9)
    got = model.Task.task_pressure(factor)
    mine = [(c, b, t) for k, s, c, b, t in rows if k in ('done', 'failed') and s == 'now' and active[c]]
    left = len([1 for k, *_ in rows if k in ('new', 'running')])
    if older and n > 1:
        env.cover('other server')
    if not mine or not left:
        env.cover('none')
        env.check(got is None, 'task pressure out of nothing')
        return
    env.cover('known')
    rate = 0
    for c in active:
        own = [(b, t) for k, b, t in mine if k == c]
        if own:
            first, last = own[0][0], own[0][0] + own[0][1]
            for b, t in own[1:]:
                first = sym_ite(b < first, b, first)
                last = sym_ite(b + t > last, b + t, last)
            rate = rate + len(own) / (last - first + 0.5)
    total = 0
    for _, _, t in mine:
        total = total + t
    if total == 0:        # all of them took less than a second: the ratio has no value
        return
    env.check(got is not None, 'task pressure unknown although tasks have finished and others remain')
    want = left / rate / (factor * (total / len(mine)))
    env.check(abs(got - want) * 1000 <= want, 'task pressure is not as documented')
