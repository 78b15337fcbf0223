"""What a failing command tells (X01), log messages (L01), and where files go (D01)."""
import os
import sys
import glob
import importlib
import logging
import platform
import signal
import traceback
from multiprocessing import AuthenticationError
import cmdkit.config
from sqlalchemy.exc import OperationalError, StatementError
from cmdkit.app import exit_status, Application
from cmdkit.cli import ArgumentError
from sx.env import harness
from sx.core import sym_and, sym_or, sym_not, CharDomain, mktd
from checks.taskcli import Out
from checks.conf import boot, Disk
import hypershell
from hypershell.core.platform import default_path
from hypershell.core import signal as signal_mod
from hypershell.core.exceptions import HostAddressInfo, DatabaseUninitialized
from hypershell.data.model import Task
from hypershell.data import DATABASE_ENABLED

U = '8a5b1f3e-9f37-4c43-b4a5-1c9ad5c0a1f0'
COMMANDS = {'submit': ['submit', '-'], 'server': ['server', '--forever'], 'client': ['client', '-N1'], 'cluster': ['cluster', '-N1'],
            'task submit': ['task', 'submit', 'x'], 'task info': ['task', 'info', U], 'task wait': ['task', 'wait', U],
            'task run': ['task', 'run', 'x'], 'task search': ['task', 'search', 'id'],
            'task update': ['task', 'update', 'a:b'], 'config get': ['config', 'get', 'a.b'],
            'config set': ['config', 'set', 'a.b', '1'], 'config edit': ['config', 'edit', '--user'],
            'config which': ['config', 'which', 'a.b'], 'initdb': ['initdb', '--yes']}
TEXT = CharDomain('ab \n%{}[]\'')
S = 1_000_000


def leaf(words):
    app = hypershell.HyperShellApp
    while hasattr(app, 'commands') and app.commands:
        app, words = app.commands[words[0]], words[1:]
    return app


class NoSuch(Exception):
    """Nothing the project knows."""


# cause -> (makes the error, expected statuses)
CAUSES = {
    'argument': (lambda t: ArgumentError(t), (exit_status.bad_argument,)),
    'config': (lambda t: cmdkit.config.ConfigurationError(t), (exit_status.bad_config,)),
    'runtime': (lambda t: RuntimeError(t), (exit_status.runtime_error,)),
    'file': (lambda t: FileNotFoundError(t), (exit_status.runtime_error,)),
    'interrupt': (lambda t: KeyboardInterrupt(), (exit_status.keyboard_interrupt,)),
    'value': (lambda t: ValueError(t), (exit_status.runtime_error, exit_status.uncaught_exception)),
    'other': (lambda t: NoSuch(t), (exit_status.runtime_error, exit_status.uncaught_exception)),
    'lost': (lambda t: ConnectionResetError(t), (exit_status.runtime_error, exit_status.uncaught_exception)),
    'refused': (lambda t: ConnectionRefusedError(t), (exit_status.runtime_error, exit_status.uncaught_exception)),
    'end': (lambda t: EOFError(t), (exit_status.runtime_error, exit_status.uncaught_exception)),
    'auth': (lambda t: AuthenticationError(t), (exit_status.runtime_error, exit_status.uncaught_exception)),
    'host': (lambda t: HostAddressInfo(t), (exit_status.runtime_error, exit_status.uncaught_exception)),
    'database': (lambda t: DatabaseUninitialized(t), (exit_status.runtime_error,)),
    'permission': (lambda t: PermissionError(t), (exit_status.runtime_error, exit_status.uncaught_exception)),
    'task': (lambda t: Task.NotFound(t), (exit_status.runtime_error, exit_status.uncaught_exception)),
}
# errors that ordinary use meets: told in a message, not by a dump
EXPECTED = {'client': ('lost', 'refused', 'end', 'auth', 'host'), 'task info': ('task',), 'task wait': ('task',), 'task update': ('task',)}
ORDINARY = ('argument', 'config', 'runtime', 'file', 'interrupt', 'database')


@harness('X01', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('message', 'dump', 'success', 'interrupt'))
def reported(env, n):
    """Every command that fails ends with the documented status and tells the cause in one line of the log."""
    name = env.choose('command', list(COMMANDS))
    cause = env.choose('cause', [None] + list(CAUSES))
    text = env.chars('text', n, TEXT)
    app = leaf(COMMANDS[name])
    make, statuses = CAUSES.get(cause, (None, (exit_status.success,)))
    ran = []

    def run(self):
        ran.append(self)
        if make is not None:
            raise make(text)
    env.patch(app, 'run', run)
    log = []

    def emit(self, record):
        log.append((record.levelno, record.msg, getattr(self, 'stream', None)))
    env.patch(logging.StreamHandler, 'emit', emit)
    env.patch(sys, 'argv', ['hs'] + COMMANDS[name])
    for f in glob.glob(os.path.join(default_path.log, '*')):
        os.remove(f)
    if env.symbolic:     # the text of the error is symbolic
        env.patch(traceback, 'format_exc', lambda *a, **k: 'NoneType: None' if sys.exc_info()[0] is None
                  else 'Traceback (most recent call last):\n  ...')
    out, err = Out(), Out()
    real = sys.stdout, sys.stderr
    handlers = {s: signal.getsignal(s) for s in (signal.SIGUSR1, signal.SIGUSR2, signal.SIGINT, signal.SIGTERM)}
    sys.stdout, sys.stderr = out, err
    try:
        status = hypershell.main()
    except (Exception, SystemExit, KeyboardInterrupt) as error:
        status = error
    finally:
        sys.stdout, sys.stderr = real
        for s, h in handlers.items():
            signal.signal(s, h)
    env.observe('status', status)
    env.check(len(ran) == 1, 'the command is not run once')
    env.check(isinstance(status, int), f'the command crashes: {type(status).__name__}')
    env.check(status in statuses, f'exit status {status} for {cause}')
    env.check(out.text == '', 'errors are mixed into the output')
    critical = [m for level, m, stream in log if level >= logging.CRITICAL]
    for level, m, stream in log:
        env.check(stream is not real[0] and stream is not out, 'the log goes to the standard output')
    dumps = glob.glob(os.path.join(default_path.log, '*'))
    if cause is None:
        env.cover('success')
        env.check(not critical and not dumps, 'an error out of nothing')
        return
    env.check(len(critical) >= 1, 'the failure is not told')
    if cause == 'interrupt':
        env.cover('interrupt')
        return
    if cause in ORDINARY or cause in EXPECTED.get(name, ()):
        env.cover('message')
        env.check(not dumps, 'an ordinary error is dumped like a crash')
        env.check(len(critical) == 1, 'told more than once')
    else:
        env.cover('dump')
        env.check(len(dumps) == 1, 'the trace of an unexpected error is not kept')
        env.check(os.path.exists(dumps[0]), 'the trace of an unexpected error is not kept')
        with open(dumps[0]) as f:
            env.check('Traceback (most recent call last)' in f.read(), 'the trace of an unexpected error is not kept')
        env.check(any(dumps[0] in m for m in critical[1:]), 'where the trace is kept is not told')
    first = critical[0]
    if cause == 'argument':
        env.check(first.args[0] == text if isinstance(first, Exception) else first == text, 'the message is another')
    elif cause == 'host':
        env.check(sym_or(first == 'HostAddressInfo: ' + text, first == 'HostAddressInfo: ' + told(text)), 'the message is another')
    elif cause not in ('lost', 'end'):
        env.check(sym_and(first == type(make('')).__name__ + ': ' + told(text)), 'the message is another')


def told(text):
    return text.replace('\n', ' - ')


@harness('C04', quick=[dict()], covers=('usr', 'term'))
def signals(env):
    """SIGUSR1 and SIGUSR2 stop the program in its own way, other signals end it as usual."""
    name = env.choose('command', ['client', 'server', 'cluster'])
    env.patch(leaf(COMMANDS[name]), 'run', lambda self: during.append({s: signal.getsignal(s) for s in watched}))
    env.patch(sys, 'argv', ['hs'] + COMMANDS[name])
    env.patch(signal_mod, 'RECEIVED', None)
    watched = (signal.SIGUSR1, signal.SIGUSR2, signal.SIGINT, signal.SIGTERM, signal.SIGHUP)
    before = {s: signal.getsignal(s) for s in watched}
    during = []
    try:
        hypershell.main()
    finally:
        for s, h in before.items():
            signal.signal(s, h)
    env.check(len(during) == 1, 'the command is not run')
    env.check(signal_mod.check_signal() is None, 'a signal out of nothing')
    which = env.choose('signal', [s for s in watched])
    if which in (signal.SIGUSR1, signal.SIGUSR2):
        env.cover('usr')
        env.check(callable(during[0][which]), 'the signal kills the program')
        during[0][which](which, None)
        env.check(signal_mod.check_signal() == which, 'the signal is not seen')
        during[0][signal.SIGUSR2](signal.SIGUSR2, None)
        env.check(signal_mod.check_signal() == signal.SIGUSR2, 'a later SIGUSR2 is not seen')
    else:
        env.cover('term')
        env.check(during[0][which] is before[which], 'another signal is intercepted')


LEVELS = {'DEVEL': 1, 'TRACE': 5, 'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
LOGGING = ('hypershell.core.platform', 'hypershell.core.config', 'hypershell.core.logging')


class Keep:
    """Global state of the logging library that loading the project changes."""

    def __enter__(self):
        self.cls, self.factory = logging.getLoggerClass(), logging.getLogRecordFactory()
        self.logger = logging.getLogger('hypershell')
        self.state = self.logger.level, list(self.logger.handlers)
        return self

    def __exit__(self, *e):
        logging.setLoggerClass(self.cls)
        logging.setLogRecordFactory(self.factory)
        self.logger.setLevel(self.state[0])
        self.logger.handlers[:] = self.state[1]


def load_logging(env, **options):
    """-> exit status of a program that loads with this [logging] section, or None when it goes on."""
    disk = Disk(env)
    from checks.conf import PATHS
    disk.files[PATHS['user']] = disk.content({'logging': options})
    names = [n for n in LOGGING if n in sys.modules]
    try:
        boot(env, disk, {}, LOGGING)
    except SystemExit as stop:
        return stop.code


@harness('L01', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('known', 'unknown', 'shown', 'hidden'))
def levels(env, n):
    """The configured level decides which messages are shown; an unknown one is refused at the start."""
    with Keep() as keep:
        kind = env.choose('kind', list(LEVELS) + ['text', 'number'])
        if kind == 'number':
            value, want = env.int('value', 0, 50), None
        elif kind == 'text':
            value, want = env.chars('value', n, CharDomain('abDeE1')), None
        else:
            # any spelling in upper and lower case
            value, want = '', LEVELS[kind]
            for i, c in enumerate(kind):
                value = value + (env.chars(f'c{i}', 1, CharDomain(c + c.lower())) if i < n else c.lower())
        status = load_logging(env, level=value)
        if want is None:
            env.cover('unknown')
            env.check(status == exit_status.bad_config, 'an unknown level is accepted')
            return
        env.cover('known')
        env.check(status is None, 'a documented level is refused')
        log = logging.getLogger('hypershell.server')
        for name, at in LEVELS.items():
            shown = log.isEnabledFor(at)
            env.check(shown == (at >= want), f'{name} message at level {kind}')
            env.cover('shown' if shown else 'hidden')
        got = []
        env.patch(logging.StreamHandler, 'emit', lambda self, r: got.append((r.levelname, r.msg)))
        new = sys.modules['hypershell.core.logging']
        new.initialize_logging()
        logger = keep.logger
        for name in LEVELS:
            write = getattr(new.Logger.with_name('hypershell.server'), name.lower())
            write('message of ' + name)
        mine = [x for x in got]
        env.check([m for m in mine] == [(k, 'message of ' + k) for k, at in LEVELS.items() if at >= want],
                  'messages of the level and above are not shown once each')


@harness('L01', quick=[dict()], covers=('short', 'days'))
def elapsed(env):
    """Relative times in messages are exact."""
    if env.flag('fraction'):
        ms = env.int('us', 0, 1_999_999) / 1000
    else:
        ms = env.int('ms', 0, 400 * 86_400_000)
    real = logging.LogRecord.__init__

    def init(self, *args, **kw):
        real(self, *args, **kw)
        self.relativeCreated = ms
    env.patch(logging.LogRecord, '__init__', init)
    r = logging.getLogRecordFactory()('hypershell.server', logging.INFO, 'f', 1, 'm', (), None)
    close = lambda v: sym_and(v - ms <= 1.001, ms - v <= 1.001)       # milliseconds, floating point
    env.check(close(r.elapsed * 1000), 'elapsed')
    env.check(close(r.elapsed_ms), 'elapsed_ms')
    env.check(close(r.elapsed_delta.total_seconds() * 1000), 'elapsed_delta')
    for name in ('server', 'core.thread'):
        r = logging.getLogRecordFactory()('hypershell.' + name, logging.INFO, 'f', 1, 'm', (), None)
        env.check(r.relative_name == name, 'relative_name')
    text = r.elapsed_hms
    env.cover('days' if ms >= 86_400_000 else 'short')
    head, hms = text.split('-')
    h, m, s = hms.split(':')
    s, f = s.split('.')
    env.check(sym_and(len(h) == 2, len(m) == 2, len(s) == 2, len(f) == 3), 'form of the time')
    env.check(sym_and(int(h) < 24, int(m) < 60, int(s) < 60), 'form of the time')
    env.check(close((((int(head) * 24 + int(h)) * 60 + int(m)) * 60 + int(s)) * 1000 + int(f)), 'elapsed_hms')


@harness('D01', quick=[dict(n=2)], thorough=[dict(n=4)],
         covers=('Linux', 'Darwin', 'user', 'system', 'local', 'missing', 'denied'))
def sites(env, n):
    """Data, logs and configuration are in the documented places; the default ones are made when the program starts."""
    name = CharDomain('ab.-_ é')
    system = env.choose('platform', ['Linux', 'Darwin'])
    admin = env.flag('admin')
    home, cwd = '/home/' + env.chars('home', n, name), '/work/' + env.chars('cwd', n, name)
    given = env.choose('site', [None, 'there', 'missing'])
    site = '/scratch/' + env.chars('site path', n, name) if given else cwd + '/.hypershell'
    denied = env.flag('denied')
    made = []

    def makedirs(d, mode=0o777, exist_ok=False):
        env.check(exist_ok, 'fails when the directory is there already')
        made.append(d)
        if denied:
            raise PermissionError(d)
    env.patch(os, 'environ', {'HOME': home, 'PATH': '/usr/bin', **({'HYPERSHELL_SITE': site} if given else {})})
    env.patch(os, 'getuid', lambda: 0 if admin else 1000)
    env.patch(os, 'getcwd', lambda: cwd)
    env.patch(os, 'makedirs', makedirs)
    env.patch(os.path, 'expanduser', lambda p: home + p[1:] if p[:1] == '~' else p)
    env.patch(os.path, 'isdir', lambda p: given == 'there' and bool(p == site))
    env.patch(platform, 'system', lambda: system)
    env.patch(sys, 'stderr', Out())
    env.cover(system)
    m = 'hypershell.core.platform'
    sys.modules.pop(m)
    try:
        mod = importlib.import_module(m)
    except SystemExit as stop:
        env.check(given == 'missing' and stop.code == exit_status.bad_config, f'refuses to start ({stop.code})')
        env.check(not made, 'makes directories although it refuses to start')
        env.cover('missing')
        return
    env.check(given != 'missing', 'a site that does not exist is accepted')
    if system == 'Linux':
        want = dict(system=('/var/lib/hypershell', '/var/log/hypershell', '/etc/hypershell.toml'),
                    user=tuple(home + '/.hypershell/' + x for x in ('lib', 'log', 'config.toml')),
                    local=tuple(site + '/' + x for x in ('lib', 'log', 'config.toml')))
    else:
        want = {k: (at + '/Library/HyperShell', at + '/Library/Logs/HyperShell', at + '/Library/Preferences/HyperShell/config.toml')
                for k, at in (('system', ''), ('user', home))}
        want['local'] = tuple(site + '/' + x for x in ('Library', 'Logs', 'config.toml'))
    for k, places in want.items():
        got = mod.path[k]
        for what, place in zip(('lib', 'log', 'config'), places):
            env.check(got[what] == place, f'{what} of the {k} site')
    default = 'local' if given else 'system' if admin else 'user'
    env.cover(default)
    lib, log, conf = want[default]
    env.check(sym_and(mod.default_path.lib == lib, mod.default_path.log == log, mod.default_path.config == conf), 'default site')
    if denied:
        env.cover('denied')
    for d in (lib, log, lib + '/task'):
        env.check(sym_or(*[x == d for x in made]), 'a directory of the default site is not made')
    for x in made:
        env.check(sym_or(*[x == d for d in (lib, log, lib + '/task')]), 'another directory is made')
