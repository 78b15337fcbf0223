"""Configuration: sources and precedence (G01), changing (G02) and showing it (G03), exported variables (G04),
the database it names (G05, G06)."""
import os
import sys
import copy
import functools
import importlib
import shutil
import subprocess
import types
import toml
import tomlkit
import sqlalchemy.engine
import cmdkit.namespace
from cmdkit.app import exit_status
from sx.env import harness
from sx.core import sym_and, sym_or, CharDomain, is_sym, mkstr, chars_of
from sx.models import to_text
from checks.apps import run_app, same
from checks.taskcli import colourless

LETTERS = CharDomain('abxyz')
WORDY = CharDomain('ab01e._-')
ANY = CharDomain('ab01 "\'\\$[]=:/é')
HOME = '/home/u'
PATHS = {'system': '/etc/hypershell.toml', 'user': '/home/u/.hypershell/config.toml', 'local': '/work/site/config.toml'}


class Tree:
    """Content of a TOML file, values possibly symbolic."""

    def __init__(self, values):
        self.values = values


class Doc(dict):
    """What the TOML library makes of a file: refuses what TOML cannot hold."""

    def __setitem__(self, k, v):
        if void(v):
            raise ValueError('invalid type None')
        if isinstance(v, dict):
            v = doc(v)
        super().__setitem__(k, v)


def void(v):
    return v is None or isinstance(v, dict) and any(void(x) for x in v.values())


def doc(d):
    new = Doc()
    for k, v in d.items():
        new[k] = v
    return new


def plain(d):
    return {k: plain(v) if isinstance(v, dict) else v for k, v in d.items()}


class Disk:
    """Configuration files; any operation may fail (crash)."""

    def __init__(self, env, files=(), text=False):
        self.env = env
        self.text = text and not env.symbolic      # files as text, read and written by the real libraries
        self.files = {}
        self.dirs = []
        self.ops = 0
        self.fail_at = None
        for p, values in dict(files).items():
            self.files[p] = values if isinstance(values, str) else self.content(values)

    def content(self, values):
        return toml.dumps(values) if self.text else Tree(plain(values))

    def values(self, path):
        c = self.files[path]
        if isinstance(c, str):
            return toml.loads(c)
        return plain(c.values)

    def op(self):
        self.ops += 1
        if self.fail_at is not None and self.ops == self.fail_at:
            raise OSError('disk')

    def exists(self, p):
        return p in self.files

    def open(self, p, mode='r', **kw):
        self.op()
        if 'r' in mode and p not in self.files or 'r' not in mode and not self.folder(p):
            raise FileNotFoundError(p)
        return Stream(self, p, mode)

    def folder(self, p):
        """The folder of `p` exists."""
        d = os.path.dirname(p)
        return d in ('', '/etc', '/work', '/work/site', '/home/u', '/conf') or any(
            x == d or x.startswith(d + '/') for x in [*self.dirs, *(os.path.dirname(f) for f in self.files)])

    def copy(self, a, b, **kw):
        self.op()
        if not self.folder(b):
            raise FileNotFoundError(b)
        self.files[b] = self.files[a]
        return b

    def makedirs(self, d, **kw):
        if not d:
            raise FileNotFoundError(d)
        self.dirs.append(d)


class Stream:
    def __init__(self, disk, path, mode):
        self.disk, self.path, self.mode = disk, path, mode
        if 'w' in mode:
            disk.files[path] = ''

    def __enter__(self):
        return self

    def __exit__(self, *e):
        return None

    def close(self):
        pass

    def read(self):
        return self.disk.files[self.path]

    def write(self, text):
        self.disk.op()
        old = self.disk.files[self.path]
        self.disk.files[self.path] = text if isinstance(text, Tree) or not old else old + text


def boot(env, disk, environ=(), modules=('hypershell.core.platform', 'hypershell.core.config'), admin=True):
    """The configuration modules as they load in a new process with these files and variables."""
    real = os.path.exists, os.path.isdir
    names = [n for n in sys.modules if n in modules]
    env.patch(os, 'environ', {'HOME': HOME, 'HYPERSHELL_SITE': '/work/site', 'PATH': '/usr/bin', **dict(environ)})
    env.patch(os, 'getuid', lambda: 0 if admin else 1000)
    env.patch(os.path, 'exists', lambda p: disk.exists(p) if not is_real(p) else real[0](p))
    env.patch(os.path, 'isdir', lambda p: p == '/work/site' if not is_real(p) else real[1](p))
    env.patch(os, 'makedirs', disk.makedirs)
    env.patch(shutil, 'copy', disk.copy)
    env.patch(shutil, 'copystat', lambda a, b, **kw: None)

    def from_toml(cls, path, **kw):
        text = disk.files[path]
        if text == 'broken':
            raise toml.TomlDecodeError('broken', text, 0)
        return cls(disk.values(path))
    env.patch(cmdkit.namespace.Namespace, 'from_toml', classmethod(from_toml))
    if env.symbolic:
        env.patch(tomlkit, 'parse', lambda c: Doc() if isinstance(c, str) else doc(c.values))
        env.patch(tomlkit, 'dump', lambda d, s: s.write(Tree(plain(d))))
    for n in names:
        del sys.modules[n]
    for n in modules:
        importlib.import_module(n)
    cfg = sys.modules['hypershell.core.config']
    env.patch(cfg, 'open', disk.open)
    return cfg


def is_real(p):
    return not str(p).startswith(('/etc/hypershell', '/home/u', '/work', 'conf', '/conf'))


OPTIONS = {'server.bundlesize': 'int', 'server.auth': 'key', 'database.password': 'key', 'task.cwd': 'text',
           'autoscale.size.max': 'int', 'client.timeout': 'int', 'submit.bundlewait': 'int', 'database.file': 'key',
           'database.user': 'key'}


def a_value(env, name, kind):
    if kind == 'int':
        return env.int(name, 0, 99)
    return env.chars(name, 2, LETTERS if kind == 'text' else WORDY)


def nested(path, value, into=None):
    tree = {} if into is None else into
    at = tree
    *sections, last = path.split('.')
    for s in sections:
        at = at.setdefault(s, {})
    at[last] = value
    return tree


def lookup(tree, path):
    for s in path.split('.'):
        tree = tree[s]
    return tree


def leaves(tree, at=()):
    for k, v in tree.items():
        if isinstance(v, dict) and v:
            yield from leaves(v, at + (k,))
        else:
            yield '.'.join(at + (k,)), v


MISSING = object()
NULL = object()


@harness('G01', quick=[dict(option=o) for o in OPTIONS],
         covers=('default', 'system', 'user', 'local', 'env', 'only file', 'no file'))
def precedence(env, option):
    """Environment over local over user over system over defaults; other options keep their own values."""
    kind = OPTIONS[option]
    disk, environ, present = Disk(env), {}, []
    values = {}
    only = env.choose('only', [None, 'file', 'empty'])
    sites = ['system', 'user', 'local'] + (['only'] if only == 'file' else [])
    sibling = option.rsplit('.', 1)[0] + '.other'
    extra = None
    for s in sites:
        if not env.flag(s):
            continue
        values[s] = a_value(env, 'value ' + s, kind)
        tree = nested(option, values[s])
        if s in ('system', 'only'):
            extra = (s, env.int('sibling', 0, 9))
            nested(sibling, extra[1], tree)
        disk.files[PATHS.get(s, '/conf/given.toml')] = disk.content(tree)
    if env.flag('env'):
        values['env'] = a_value(env, 'value env', kind)
        environ['HYPERSHELL_' + option.upper().replace('.', '_')] = to_text(values['env'])
    if only is not None:
        environ['HYPERSHELL_CONFIG_FILE'] = '/conf/given.toml' if only == 'file' else ''
    cfg = boot(env, disk, environ)
    seen = ['env'] + (['local', 'user', 'system'] if only is None else ['only'] if only == 'file' else [])
    top = next((s for s in seen if s in values), None)
    env.cover('default' if top is None else 'only file' if top == 'only' else top)
    if only == 'empty':
        env.cover('no file')
    want = values[top] if top is not None else next((v for k, v in leaves(cfg.default) if k == option), MISSING)
    try:
        got = lookup(cfg.config, option)
    except KeyError:
        got = MISSING
    if want is MISSING:
        env.check(got is MISSING, f'{option} is set although nothing sets it')
    else:
        env.check(got is not MISSING, f'{option} is not set')
        env.check(isinstance(got, str) == isinstance(want, str), f'{option} has become another type of value')
        same(env, got, want, f'{option} does not have the value of its most specific source')
    label = 'default' if top is None else 'local' if top == 'only' else top
    if want is not MISSING:
        env.check(cfg.config.which(*option.split('.')) == label, 'the source named for the option is wrong')
    if extra is not None and extra[0] in seen:
        same(env, lookup(cfg.config, sibling), extra[1], 'another option of the same section is lost')
    for k, v in leaves(cfg.default):
        if k not in (option, 'logging.format'):
            env.check(lookup(cfg.config, k) is v or lookup(cfg.config, k) == v, f'{k} has changed')


@harness('G01', quick=[dict()], covers=('style', 'format'))
def logging_style(env):
    """A logging style sets the format of messages, unless a format is given."""
    disk, environ = Disk(env), {}
    cfg0 = sys.modules['hypershell.core.config']
    trees = {}
    for name, opts in (('style', list(cfg0.LOGGING_STYLES)), ('format', None)):
        where = env.choose(name, [None, 'system', 'user', 'local', 'env'])
        if where is None:
            style = 'default' if name == 'style' else style
            if name == 'format':
                given = None
            continue
        v = env.choose('is', opts) if opts else env.chars('fmt', 2, LETTERS)
        v = v.upper() if opts and env.flag('upper') else v
        if name == 'style':
            style = v.lower()
        else:
            given = v
        if where == 'env':
            environ['HYPERSHELL_LOGGING_' + name.upper()] = v
        else:
            nested('logging.' + name, v, trees.setdefault(where, {}))
    for s, t in trees.items():
        disk.files[PATHS[s]] = disk.content(t)
    cfg = boot(env, disk, environ)
    if given is None:
        env.cover('style')
        env.check(cfg.config.logging.format == cfg.LOGGING_STYLES[style]['format'], 'the format is not that of the style')
    else:
        env.cover('format')
        same(env, cfg.config.logging.format, given, 'the given format is not used')


@harness('G01', quick=[dict()], covers=('broken', 'ignored'))
def broken_file(env):
    """A file that cannot be read stops the program; one that is not used does not."""
    disk = Disk(env)
    only = env.choose('only', [None, '', '/conf/given.toml'])
    bad = env.choose('bad', ['system', 'user', 'local', 'only'])
    path = PATHS.get(bad, '/conf/given.toml')
    disk.files[path] = 'broken'
    used = bad == 'only' if only else bad != 'only' and only is None
    status = None
    try:
        boot(env, disk, {} if only is None else {'HYPERSHELL_CONFIG_FILE': only})
    except SystemExit as stop:
        status = stop.code
    env.cover('broken' if used else 'ignored')
    env.check(status == (exit_status.bad_config if used else None),
              'a configuration file that cannot be read is ignored' if used else 'a file that is not used stops the program')


def set_value(env):
    """-> (word on the command line, value, valid)."""
    kind = env.choose('kind', ['int', 'text', 'bool', 'null', 'float'])
    if kind == 'int':
        v = env.int('new', 0, 999)
        return to_text(v), v, True
    if kind == 'text':
        v = env.chars('new', 2, LETTERS)
        return v, v, True
    if kind == 'bool':
        w = env.choose('word', ['true', 'FALSE', 'True', 'false'])
        return w, w.lower() == 'true', True
    if kind == 'float':
        return '2.5', 2.5, True
    return 'null', None, False


def equal(env, got, want, what):
    env.check(set(got) == set(want), what)
    for k, v in want.items():
        if isinstance(v, dict):
            env.check(isinstance(got[k], dict), what)
            equal(env, got[k], v, what)
        else:
            env.check(type(got[k]) is type(v) or is_sym(v) or is_sym(got[k]), what)
            same(env, got[k], v, what)


@harness('G02', quick=[dict(path=p) for p in ('server.port', 'a.b.c.d')],
         thorough=[dict(path=p) for p in ('server.port', 'a.b.c', 'a.b.c.d', 'export.foo', 'autoscale.size.max')],
         covers=('new', 'existing', 'refused', 'fault'))
def config_set(env, path):
    """`config set` changes this option of this file, nothing else; what was there before is kept as a backup."""
    site = env.choose('site', [None, 'user', 'system', 'local'])
    word, value, valid = set_value(env)
    disk = Disk(env, text=True)
    target = PATHS[site or 'user']
    if site == 'local' and env.flag('named'):
        target = 'conf.toml'
    old = None
    if env.flag('exists'):
        old = {}
        if env.flag('same'):
            nested(path, env.int('before', 0, 9), old)
        if env.flag('sibling'):
            nested(path.rsplit('.', 1)[0] + '.zz', env.chars('other', 2, LETTERS), old)
        nested('section.x', env.int('elsewhere', 0, 9), old)
        disk.files[target] = disk.content(old)
    cfg = boot(env, disk, {'HYPERSHELL_CONFIG_FILE': target} if target == 'conf.toml' else {})
    others = dict(disk.files)
    del sys.modules['hypershell.config']
    app = importlib.import_module('hypershell.config').ConfigSetApp
    disk.ops = 0
    fault = env.choose('fault', [None, 1, 2, 3, 4, 5])
    disk.fail_at = fault
    status, out = run_app(env, app, [path, word] + ([f'--{site}'] if site else []))
    failed = fault is not None and disk.ops >= fault
    env.check(set(others) - set(disk.files) == set(), 'a file is gone')
    for p, c in others.items():
        if p != target:
            env.check(disk.files[p] is c, 'another file was changed')
    if not valid or failed:
        env.cover('fault' if failed else 'refused')
        env.check(status != 0, 'the option was not set, yet there is no error')
        if old is not None:
            env.check(any(c is others[target] or c == others[target] for c in disk.files.values()),
                      'the configuration is lost')
            if not failed:
                equal(env, disk.values(target), old, 'the file was changed')
        return
    env.cover('new' if old is None else 'existing')
    env.check(status == 0, 'setting an option fails')
    want = nested(path, value, plain(old or {}))
    equal(env, disk.values(target), want, 'the file does not hold just the changed option')
    if old is not None:
        backups = [p for p in disk.files if p not in others]
        env.check(len(backups) == 1, 'there is no backup of the file')
        equal(env, disk.values(backups[0]), old, 'the backup does not hold what was there before')


@harness('G02', quick=[dict()], covers=('kept',))
def several_changes(env):
    """Whatever was in the file before any of several changes is kept."""
    disk = Disk(env, text=True)
    target = PATHS['user']
    before = [{'server': {'port': env.int('port', 1, 9)}}]
    disk.files[target] = disk.content(before[0])
    boot(env, disk, {})
    del sys.modules['hypershell.config']
    app = importlib.import_module('hypershell.config').ConfigSetApp
    gap = env.choose('gap', [1, 59, 60, 3600, 12 * 3600, 86400, 31 * 86400, 365 * 86400])
    for k in range(3):
        status, out = run_app(env, app, ['server.port', str(10 + k)])
        env.check(status == 0, 'setting an option fails')
        env.t = env.t + gap * 1_000_000
        before.append({'server': {'port': 10 + k}})
    now = disk.values(target)
    equal(env, now, before.pop(), 'the file does not hold just the changed option')
    kept = [disk.values(p) for p in disk.files if p != target]
    env.check(len(kept) >= len(before), 'earlier content is lost')
    for old in before:
        env.check(sym_or(*[k['server']['port'] == old['server']['port'] for k in kept]), 'earlier content is lost')
    env.cover('kept')


@harness('G02', quick=[dict()], covers=('edited', 'none', 'made'))
def config_edit(env):
    """`config edit` opens the file of the chosen site, and no other, in the chosen editor."""
    site = env.choose('site', [None, 'user', 'system', 'local'])
    disk = Disk(env, text=True)
    target = PATHS[site or 'user']
    if env.flag('exists'):
        disk.files[target] = disk.content({'server': {'port': 1}})
    environ = {}
    names = {}
    for k in ('EDITOR', 'VISUAL'):
        if env.flag(k):
            environ[k] = names[k] = '/bin/' + k + env.chars(k.lower(), 1, LETTERS)
    boot(env, disk, environ)
    before = dict(disk.files)
    del sys.modules['hypershell.config']
    mod = importlib.import_module('hypershell.config')
    ran = []

    def run(args, *rest, **kw):
        ran.append((list(args), disk.folder(target)))
        return types.SimpleNamespace(returncode=0)
    env.patch(subprocess, 'run', run)
    for other in ('call', 'check_call'):
        env.patch(subprocess, other, lambda args, *rest, **kw: run(args) and 0)
    status, out = run_app(env, mod.ConfigEditApp, [f'--{site}'] if site else ['--user'])
    env.check(disk.files == before, 'a file was changed')
    if not names:
        env.cover('none')
        env.check(status != 0 and not ran, 'edits without an editor')
        return
    env.cover('edited' if target in before else 'made')
    env.check(status == 0 and len(ran) == 1, 'no editor is started')
    (args, ready), = ran
    env.check(len(args) == 2 and args[1] == target, 'another file is edited')
    env.check(sym_and(args[0] == names.get('EDITOR', names.get('VISUAL'))), 'another editor')
    env.check(ready, 'the file could not be saved')


@harness('G03', quick=[dict(kind=k) for k in ('text', 'int', 'bool')],
         covers=('found', 'missing', 'which', 'raw', 'site'))
def config_get(env, kind):
    """`config get` prints the value, `config which` the value and where it comes from."""
    path = env.choose('path', ['server.auth', 'autoscale.size.max', 'x.y'])
    default = {'server.auth': '__HYPERSHELL__BAD__AUTHKEY__', 'autoscale.size.max': 2}.get(path)
    n = env.count('len', 1, 2) if kind == 'text' else 0
    disk, environ, values = Disk(env), {}, {}
    where = env.choose('where', [None, 'system', 'user', 'local', 'env'])
    if kind == 'int' and where is None and env.flag('null'):
        path, default = 'task.timeout', NULL
    value = (env.int('value', 0, 99) if kind == 'int' else env.flag('value') if kind == 'bool' else
             env.chars('value', n, ANY if where != 'env' else LETTERS))
    if where == 'env':
        environ['HYPERSHELL_' + path.upper().replace('.', '_')] = (
            to_text(value) if kind != 'bool' else 'true' if value else 'false')
    elif where is not None:
        disk.files[PATHS[where]] = disk.content(nested(path, value))
    boot(env, disk, environ)
    del sys.modules['hypershell.config']
    mod = importlib.import_module('hypershell.config')
    site = env.choose('site', [None, 'system', 'user', 'local', 'default', 'which', 'whichsite'])
    shown = lambda v: 'null' if v is NULL else v if isinstance(v, str) else ('true' if v else 'false') if isinstance(v, bool) else to_text(v)
    if site in ('which', 'whichsite'):
        env.cover('which')
        status, out = run_app(env, mod.ConfigWhichApp, [path] + (['--site'] if site == 'whichsite' else []))
        if where is None and default is None:
            env.check(status != 0 and out.text == '', 'an unknown option has a source')
            return
        env.check(status == 0, 'config which fails')
        got, label = (value, where) if where is not None else (default, 'default')
        if site == 'whichsite':
            env.cover('site')
            env.check(out.text == label + '\n', 'the named source is wrong')
            return
        got = shown(got)
        if where is None:
            want = f'{got} (default)\n'
        elif where == 'env':
            var = 'HYPERSHELL_' + path.upper().replace('.', '_')
            want = f'{got} (env: {var} | default: ' + (shown(default) if default is not None else 'null') + ')\n'
        else:
            if is_sym(got):
                env.assume(sym_and(*[c != '[' for c in got]))
                env.assume(sym_and(*[got[k] != ' ' for k in (0, -1)]))
            elif '[' in got or got != got.strip():
                return
            want = got + f' ({where}: {PATHS[where]} | default: ' + (shown(default) if default is not None else 'null') + ')\n'
        env.check(sym_and(out.text == want), 'config which does not show value and source')
        return
    env.cover('raw')
    argv = [path] + ([f'--{site}'] if site else []) + (['--raw'] if env.flag('raw') else [])
    tty = kind == 'int' and env.flag('terminal')
    if tty:
        colourless(env)
    status, out = run_app(env, mod.ConfigGetApp, argv, tty=tty)
    if site is None:
        got = value if where is not None else default
    elif site == 'default':
        got = default
    else:
        got = value if where == site else None
    if got is None:
        env.cover('missing')
        env.check(status != 0 and out.text == '', 'an option that is not there is printed')
        return
    env.cover('found')
    env.check(status == 0, 'config get fails')
    if tty and '--raw' not in argv:
        env.check(sym_or(out.text == shown(got) + '\n', out.text == '"' + shown(got) + '"\n'),
                  'config get does not print the value')
        return
    env.check(sym_and(out.text == shown(got) + '\n'), 'config get does not print the value as it is')


def to_toml(tree, at=''):
    """As the library writes it."""
    word = lambda k: k if k.replace('_', '').replace('-', '').isalnum() else '"' + k + '"'
    text = ''
    for k, v in tree.items():
        if not isinstance(v, dict) and v is not None:
            text = text + word(k) + ' = ' + ('"' + v + '"' if isinstance(v, str) else to_text(v)) + '\n'
    for k, v in tree.items():
        if isinstance(v, dict):
            here = at + ('.' if at else '') + word(k)
            inner = to_toml(v, here)
            if not v or any(not isinstance(x, dict) for x in v.values()):
                text = text + ('\n' if text else '') + '[' + here + ']\n'
            text = text + inner
    return text


def from_toml(env, text):
    tree = {}
    at = tree
    for line in text.split('\n'):
        if not is_sym(line) and not line.strip():
            continue
        if line.startswith('['):
            env.check(line.endswith(']'), 'not TOML')
            at = tree
            for k in line[1:-1].split('.'):
                at = at.setdefault(k, {})
            continue
        parts = line.split(' = ')
        env.check(len(parts) == 2, 'not TOML')
        at[parts[0]] = parts[1]
    return tree


def written(tree):
    return {k: written(v) if isinstance(v, dict) else '"' + v + '"' if isinstance(v, str) else to_text(v) for k, v in tree.items()}


@harness('G03', quick=[dict()], covers=('section', 'everything', 'merged', 'missing', 'subsection', 'terminal'))
def config_section(env):
    """`config get` of a section, or of everything, prints the TOML that says so."""
    disk = Disk(env)
    site = env.choose('site', ['system', 'user', 'local'])
    tree = {'server': {'port': env.int('port', 1, 65535), 'auth': env.chars('auth', 2, LETTERS)},
            'autoscale': {'size': {'max': env.int('max', 1, 9), 'init': 1}}, 'x': {}, 'Up': {'Key': {'N': 1}}}
    tree['x']['y'] = env.chars('y', 1, LETTERS)
    other = env.choose('other', [s for s in ('system', 'user', 'local') if s != site])
    disk.files[PATHS[site]] = disk.content(tree)
    disk.files[PATHS[other]] = disk.content({'other': {'z': 1}})
    boot(env, disk, {})
    del sys.modules['hypershell.config']
    mod = importlib.import_module('hypershell.config')
    if env.symbolic:
        env.patch(toml, 'dumps', lambda t: to_toml(plain(t)))
    path = env.choose('path', ['.', None, 'server', 'autoscale', 'autoscale.size', 'x', 'Up', 'Up.Key', 'other', 'nope', 'x.nope', 'nope.a.b'])
    merged = path is not None and env.flag('merged')     # without any word it prints its usage
    tty = env.flag('terminal')
    if tty:
        env.cover('terminal')
        colourless(env)
    status, out = run_app(env, mod.ConfigGetApp, ([path] if path else []) + ([f'--{site}'] if not merged else []), tty=tty)
    if 'nope' in (path or '') or path == 'other' and not merged:
        env.cover('missing')
        env.check(status != 0 and out.text == '', 'a section that is not there is printed')
        return
    env.check(status == 0, 'config get fails')
    got = from_toml(env, out.text)
    want = {**tree, 'other': {'z': 1}} if merged else tree
    if path in (None, '.'):
        env.cover('everything')
    else:
        env.cover('section')
        want = nested(path, functools.reduce(lambda t, k: t[k], path.split('.'), want))
        if '.' in path:
            env.cover('subsection')

    def within(got, want, exact):
        env.check(set(want) <= set(got) if not exact else set(want) == set(got), 'not the options of the section')
        for k, v in want.items():
            if isinstance(v, dict):
                env.check(isinstance(got[k], dict), 'not the options of the section')
                within(got[k], v, exact)
            else:
                env.check(got[k] == v, 'another value is printed')
    if merged:
        env.cover('merged')
    within(got, written(want), not merged)


@harness('G04', quick=[dict()], thorough=[dict(n=3)], covers=('env', 'file', 'both'))
def exported(env, n=2):
    """Variables exported to tasks have exactly the given values."""
    disk, environ, want = Disk(env), {}, {}
    names = ['FOO', 'FOO_BAR', 'PATH', 'X']
    tree = {}
    for k in names[:2]:
        if env.flag('file ' + k):
            v = env.int('file value ' + k, 0, 99) if k == 'FOO' else env.chars('file value ' + k, 2, LETTERS)
            tree[k.lower()] = v
            want[k] = to_text(v)
    lists = env.choose('lists', [None, 'list', 'nested', 'alone'])
    if lists == 'list':
        parts = [env.chars(f'part{i}', 1, LETTERS) for i in range(2)]
        tree['path'] = parts
        want['PATH'] = parts[0] + ':' + parts[1]
    elif lists:
        numbers = [env.int('number', 0, 9), env.chars('inner', 1, LETTERS)]
        tree['deep'] = {'er': numbers} if lists == 'alone' else {'er': numbers, 'n': 1}
        want['DEEP_ER'] = to_text(numbers[0]) + ':' + numbers[1]
        if lists == 'nested':
            want['DEEP_N'] = '1'
    if tree:
        disk.files[PATHS['user']] = disk.content({'export': tree})
    order = env.choose('order', [0, 1])
    for k in (names[:2] if not order else names[1::-1]):
        if env.flag('env ' + k):
            v = env.text('env value ' + k, n if k == 'FOO' else 1, domain=CharDomain('0ab1.-e \t'))
            environ['HYPERSHELL_EXPORT_' + k] = v
            want[k] = v
    if 'FOO' in want and 'FOO_BAR' in want and 'HYPERSHELL_EXPORT_FOO' in environ:
        env.cover('both')
    env.cover('env' if environ else 'file')
    cfg = boot(env, disk, environ)
    got = dict(cfg.load_task_env())
    env.check(set(got) == set(want), 'tasks do not get exactly the exported variables')
    for k, v in want.items():
        env.check(isinstance(got[k], str), 'an exported variable is not text')
        same(env, got[k], v, f'exported variable {k} has another value')


PARSERS = {}


def parse_url(env, text):
    """The database URL as SQLAlchemy reads it."""
    if not env.symbolic:
        return sqlalchemy.engine.make_url(text)
    if not PARSERS:
        from sx import instrument
        PARSERS['url'] = instrument.load_instrumented('sqlalchemy.engine.url')
    return PARSERS['url']._parse_url(text)


NAME = CharDomain('ab0.-_')
SECRET = CharDomain("ab0@:/?#%+ &=[]'\"\\")
DATA = ('hypershell.core.platform', 'hypershell.core.config', 'hypershell.data.core')


class Made:
    """Engine stand-in: with which arguments it was made."""

    def __init__(self, url, **kw):
        self.url, self.kw = url, kw


def database(env, disk, environ=()):
    """-> (hypershell.data.core as loaded in a new process, the engine made) or (exit status, None)."""
    made = []

    def create(url, **kw):
        made.append(Made(url, **kw))
        return made[-1]
    env.patch(sqlalchemy.engine, 'create_engine', create)
    try:
        boot(env, disk, environ, DATA)
    except SystemExit as stop:
        return stop.code, None
    env.check(len(made) == 1, 'not one database engine')
    return sys.modules['hypershell.data.core'], made[0]


@harness('G05', quick=[dict(n=1), dict(n=2, only=True)], thorough=[dict(n=2), dict(n=3, only=True)],
         covers=('plain', 'user', 'refused', 'env', 'eval', 'parameter'))
def database_url(env, n, only=False):
    """The configured PostgreSQL database is the one connected to, with exactly the configured account."""
    environ = {}
    more = None if only else env.choose('more', [None, 'parameter', 'schema', 'args', 'host', 'port', 'all'])
    fields = {'provider': 'postgres' if only or more in ('schema', 'all') else 'postgresql'}

    def flag(name):
        if name in ('user', 'password', 'database'):
            return only or env.flag(name)
        return more in (name, 'all')
    want = dict(username=None, password=None, host=None, port=None, database=None)
    if flag('database'):
        fields['database'] = want['database'] = env.chars('db', 1, NAME)
    if flag('user'):
        fields['user'] = want['username'] = env.chars('username', n, SECRET)
    if flag('password'):
        how = 'password' if only else env.choose('how', ['password', 'password_env', 'password_eval'])
        want['password'] = env.chars('secret', n, SECRET)
        fields[how] = want['password']
        if how == 'password_env':
            environ['THE_SECRET'] = want['password']
            fields[how] = 'THE_SECRET'
            env.cover('env')
        elif how == 'password_eval':
            fields[how] = 'pass show it'
            secret = want['password']
            env.assume(sym_and(*[c != ' ' for c in (secret[0], secret[-1])]))
            env.cover('eval')

            class Printed:
                def decode(self):
                    return secret + '\n'

            def check_output(command, shell=False):
                env.check(command == 'pass show it' and shell, 'another command is asked for the password')
                return Printed()
            env.patch(cmdkit.namespace.subprocess, 'check_output', check_output)
    if flag('host'):
        fields['host'] = want['host'] = env.chars('hostname', 2, CharDomain('ab0.-'))
    if flag('port'):
        fields['port'] = want['port'] = env.int('portnumber', 1, 65535)
    query = {}
    if flag('parameter'):
        fields['encoding'] = query['encoding'] = env.chars('param', 1, SECRET)
        env.cover('parameter')
    schema = None
    if flag('schema'):
        fields['schema'] = schema = 'other'
    args = {}
    if flag('args'):
        args = {'timeout': env.int('timeout', 0, 9)}
        section = env.choose('section', ['connect_args', 'connection_args', 'both'])
        if section == 'both':
            fields['connect_args'], fields['connection_args'] = dict(args), {'keepalives': 1}
            args['keepalives'] = 1
        else:
            fields[section] = dict(args)
    disk = Disk(env)
    disk.files[PATHS['user']] = disk.content({'database': fields})
    core, engine = database(env, disk, environ)
    valid = want['database'] is not None and (want['username'] is None) == (want['password'] is None)
    if not valid:
        env.cover('refused')
        env.check(engine is None and core == exit_status.bad_config, 'an incomplete database configuration is accepted')
        return
    env.check(engine is not None, 'a valid database configuration is refused')
    env.cover('plain' if want['username'] is None else 'user')
    url = parse_url(env, engine.url)
    env.check(sym_and(url.drivername == 'postgresql'), 'another kind of database')
    host = want.pop('host')
    if host is not None or want['port'] is None and want['username'] is None:
        env.check((url.host is None) == (host is None), 'another database host')
        if host is not None:
            env.check(sym_and(url.host == host), 'another database host')
    else:
        env.check(url.host == 'localhost', 'another database host')
    for k, v in want.items():
        got = getattr(url, k)
        env.check((got is None) == (v is None), f'database {k} is not as configured')
        if v is not None:
            env.check(sym_and(got == v), f'database {k} is not as configured')
    env.check(set(url.query) == set(query), 'connection parameters are not as configured')
    for k, v in query.items():
        env.check(sym_and(url.query[k] == v), 'connection parameter is not as configured')
    env.check(core.schema == schema, 'another schema')
    equal(env, dict(engine.kw.get('connect_args', {})), args, 'connection arguments are not as configured')


@harness('G06', quick=[dict()], covers=('file', 'memory', 'other', 'refused'))
def database_enabled(env):
    """Without a database file there is no database, with one that file is the database."""
    fields, environ = {}, {}
    provider = env.choose('provider', [None, 'sqlite', 'postgresql', 'mysql'])
    if provider:
        fields['provider'] = provider
    kind = env.choose('file', [None, 'empty', ':memory:', 'some'])
    value = {'empty': '', ':memory:': ':memory:', 'some': env.chars('path', 2, CharDomain('ab /.'))}.get(kind)
    key = env.choose('key', ['file', 'database']) if kind else None
    if kind:
        if env.flag('environ'):
            if kind == 'empty':
                value = None
            environ['HYPERSHELL_DATABASE_' + key.upper()] = value or ''
        else:
            fields[key] = value
    disk = Disk(env)
    disk.files[PATHS['user']] = disk.content({'database': fields} if fields else {})
    core, engine = database(env, disk, environ)
    if provider == 'mysql' or provider == 'postgresql' and not (key == 'database' and value):
        env.cover('refused')
        env.check(engine is None and core == exit_status.bad_config, 'an invalid database configuration is accepted')
        return
    env.check(engine is not None, 'a valid database configuration is refused')
    given = provider != 'postgresql' and kind == 'some'
    env.check(core.in_memory == (provider != 'postgresql' and not given), 'database taken for another kind')
    url = parse_url(env, engine.url)
    if provider == 'postgresql':
        env.cover('other')
        return
    env.check(url.drivername == 'sqlite', 'another kind of database')
    if given:
        env.cover('file')
        env.check(url.database is not None and sym_and(url.database == value), 'another database file')
        env.check('poolclass' not in engine.kw, 'a database file with a pool of one connection')
    else:
        env.cover('memory')
        env.check(url.database in (None, '', ':memory:'), 'a file is used without being configured')
        env.check(engine.kw.get('poolclass') is sqlalchemy.pool.StaticPool,
                  'every connection would have a database of its own')
    env.check(engine.kw['connect_args'].get('check_same_thread') is False, 'threads cannot share the database')


class Terminal:
    def __init__(self, out, tty):
        self.out, self.tty = out, tty

    def isatty(self):
        return self.tty


@harness('G07', quick=[dict()], thorough=[dict(n=3)], covers=('init', 'kept', 'lost', 'refused', 'disabled'))
def truncate(env, n=2):
    """Tasks in the database are dropped only when asked for and confirmed."""
    data = sys.modules['hypershell.data']
    model = sys.modules['hypershell.data.model']
    did = []
    env.patch(model.Entity.metadata, 'drop_all', lambda bind: did.append('drop'))
    env.patch(model.Entity.metadata, 'create_all', lambda bind: did.append('create'))
    env.patch(model.Task, 'count', classmethod(lambda cls: 3))
    enabled = env.flag('enabled')
    env.patch(data, 'DATABASE_ENABLED', enabled)
    argv, asked = [], env.flag('truncate')
    if asked:
        argv.append(env.choose('opt', ['-t', '--truncate']))
    yes = env.flag('yes')
    if yes:
        argv.append(env.choose('yesopt', ['-y', '--yes']))
    kind = env.choose('answer', ['any', 'yes', 'no', 'Yes', 'NO'])
    answer = env.text('text', n, domain=CharDomain('yYnNesoO x')) if kind == 'any' else kind
    prompts = []

    def ask(prompt=''):
        prompts.append(prompt)
        return answer
    env.patch(data, 'input', ask)
    tty = env.flag('tty')
    from checks.taskcli import Out
    env.patch(Out, 'isatty', lambda self: tty)
    status, out = run_app(env, data.InitDBApp, argv)
    if not enabled:
        env.cover('disabled')
        env.check(status != 0 and not did, 'a database that is not configured is initialized')
        return
    if not asked:
        env.cover('init')
        env.check(status == 0 and did == ['create'], 'the database is not just initialized')
        return
    if yes:
        confirmed = True
    elif not tty:
        env.check(not prompts, 'a prompt without a terminal')
        confirmed = False
    else:
        env.check(len(prompts) == 1, 'not asked once')
        a = answer.strip().lower()
        confirmed = bool(sym_or(a == '', a == 'y', a == 'yes'))
        if bool(sym_or(a == 'n', a == 'no')):
            env.cover('kept')
            env.check(status == 0, 'declining is an error')
        elif not confirmed:
            env.cover('refused')
            env.check(status != 0, 'an unclear answer is no error')
    if confirmed:
        env.cover('lost')
        env.check(status == 0 and did == ['drop', 'create'], 'the database is not truncated although confirmed')
    else:
        env.check(not did, 'tasks are dropped without confirmation')
        env.check(tty or status != 0, 'not truncating is no error')
