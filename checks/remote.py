"""Output of tasks that ran on another host (K05)."""
import os
import shutil
import inspect
import threading
import paramiko
from sx.env import harness
from sx.core import CharDomain, sym_and
from sx.models import to_text
from hypershell.core import remote as remote_mod
from hypershell import task as task_mod
from hypershell.core.logging import HOSTNAME
from checks.taskcli import put, command, Out, SimpleNamespace, mkdt

NAME = CharDomain('abz019.-')
OUTPUT = {'out': 'first line\nsecond line\n', 'err': 'trouble\n'}


class Broken(OSError):
    """The network fails."""


class Key:
    """Host key of a server."""

    def get_name(self):
        return 'ssh-rsa'

    def get_fingerprint(self):
        return b'fingerprint'

    def get_base64(self):
        return 'a2V5'


class Network:
    """Stands in for what the SSH library does over the network."""

    def __init__(self, env, files=(), fault=None):
        self.opened = []          # arguments of each connection
        self.live = 0
        self.files = dict(files)
        self.fault = fault        # None | ('connect',) | (path, bytes transferred)
        self.proxies = []
        net = self
        signature = inspect.signature(paramiko.SSHClient.connect)

        def connect(client, *args, **kwargs):
            given = signature.bind(client, *args, **kwargs)
            given.apply_defaults()
            if net.fault == ('connect',):
                raise Broken('unreachable')
            client._policy.missing_host_key(client, 'unknown', Key())       # a host nobody connected to yet
            net.opened.append({k: v for k, v in given.arguments.items() if k != 'self'})
            net.live += 1
            client.sx_live = True

        def close(client):
            if getattr(client, 'sx_live', False):
                client.sx_live = False
                net.live -= 1

        class Sftp:
            def __init__(self, client):
                self.client = client

            def get(self, remotepath, localpath, *args, **kwargs):
                env.check(self.client.sx_live, 'transfer without connection')
                with open(localpath, 'wb') as stream:
                    self.getfo(remotepath, stream)

            def getfo(self, remotepath, stream, *args, **kwargs):
                if remotepath not in net.files:
                    raise FileNotFoundError(remotepath)
                data = net.files[remotepath].encode()
                if net.fault and net.fault[0] == remotepath:
                    stream.write(data[:net.fault[1]])
                    raise Broken('connection lost')
                stream.write(data)

            def close(self):
                pass

        def proxy(self, line):
            self.sx_line = line
            net.proxies.append(line)
        env.patch(paramiko.SSHClient, '_log', lambda self, *args: None)
        env.patch(paramiko.SSHClient, 'connect', connect)
        env.patch(paramiko.SSHClient, 'close', close)
        env.patch(paramiko.SSHClient, 'open_sftp', lambda client: Sftp(client))
        env.patch(paramiko.ProxyCommand, '__init__', proxy)


@harness('K05', quick=[dict(d=2)], thorough=[dict(d=6)], covers=('described', 'alias', 'nofile', 'port', 'proxy'))
def connects_as_described(env, d):
    """The connection opened for a host is the one its SSH configuration describes, whatever the values."""
    host = env.choose('host', ['node1', 'other.site'])
    path = os.path.join(env.scratch, 'ssh_config')
    if os.path.exists(path):
        os.remove(path)
    described = env.flag('file')
    profile = {'hostname': host}
    if described:
        with open(path, 'w') as stream:
            stream.write(env.choose('pattern', [f'Host {host}\n    Compression yes\n', 'Host *\n    Compression yes\n']))
        env.cover('described')
        if env.flag('alias'):
            profile['hostname'] = env.text('hostname', d, 1, NAME)
            env.cover('alias')
        if env.flag('user'):
            profile['user'] = env.text('user', d, 1, NAME)
        port = env.int('port', 1, 65535)
        if env.flag('port'):
            profile['port'] = to_text(port)
            env.cover('port')
        if env.flag('key'):
            profile['identityfile'] = [env.text('key', d, 1, NAME), '/second/key'][:1 + env.choose('keys', [0, 1])]
        if env.flag('proxy'):
            profile['proxycommand'] = env.text('proxy', d, 1, NAME)
            env.cover('proxy')
    else:
        env.cover('nofile')
    read, asked = [], []
    parse = paramiko.SSHConfig.parse
    env.patch(paramiko.SSHConfig, 'parse', lambda self, stream: read.append(stream.name) or parse(self, stream))
    env.patch(paramiko.SSHConfig, 'lookup', lambda self, name: asked.append(name) or dict(profile))
    net = Network(env)
    with remote_mod.SSHConnection(remote_mod.SSHConfig.from_config(host, path)):
        env.check(len(net.opened) == 1 and net.live == 1, 'number of connections')
    env.check(net.live == 0, 'connection left open')
    env.check(asked == ([host] if described else []) and read == ([path] if described else []), 'another configuration is read')
    got = net.opened[0]
    env.check(got['hostname'] == profile['hostname'], 'connects to another host')
    if 'port' in profile:
        env.check(sym_and(not isinstance(got['port'], str), got['port'] == port), 'connects to another port')
    else:
        env.check(got['port'] == 22, 'connects to another port')
    env.check(got['username'] == profile['user'] if 'user' in profile else got['username'] is None, 'logs in as another user')
    keys = got['key_filename']
    keys = [] if keys is None else keys if isinstance(keys, list) else [keys]
    want = profile.get('identityfile', [])
    env.check(len(keys) == len(want) and sym_and(*[a == b for a, b in zip(keys, want)]), 'uses other keys')
    if 'proxycommand' in profile:
        env.check(len(net.proxies) == 1 and net.proxies[0] == profile['proxycommand'] and got['sock'] is not None
                  and got['sock'].sx_line == profile['proxycommand'], 'connects without the proxy')
    else:
        env.check(got['sock'] is None and not net.proxies, 'connects through a proxy')
    env.check(got['password'] is None and got['pkey'] is None, 'credentials from elsewhere')
    env.check(sym_and(got['allow_agent'], got['look_for_keys']), 'agent or default keys left out')


@harness('K05', quick=[dict()], covers=('whole', 'connect', 'interrupted', 'missing', 'local', 'again'))
def fetches_whole(env):
    """Output of another host is shown whole or not at all, however the transfer fails; a later request fetches it again."""
    lib = os.path.join(env.scratch, 'lib')
    shutil.rmtree(lib, ignore_errors=True)
    os.makedirs(os.path.join(lib, 'task'), exist_ok=True)
    env.patch(task_mod, 'default_path', SimpleNamespace(lib=lib, log=env.scratch))
    far = {'out': '/far/path.out', 'err': '/far/path.err'}
    far_host = env.choose('host', ['far.host', HOSTNAME.split('.')[0] + '.far', HOSTNAME + '2'])
    row = put(env, 0, exit_status=0, completion_time=mkdt(6000, True),
              client_host=far_host, outpath=far['out'], errpath=far['err'])
    put(env, 1, exit_status=0, completion_time=mkdt(6000, True), client_host='other.host', outpath='/o', errpath='/e')
    kind = env.choose('kind', ['out', 'err'])
    option = {'out': '--stdout', 'err': '--stderr'}[kind]
    how = env.choose('how', ['whole', 'connect', 'interrupted', 'missing', 'local'])
    env.cover(how)
    fault = None
    files = {far[k]: OUTPUT[k] for k in far}
    if how == 'connect':
        fault = ('connect',)
    elif how == 'interrupted':
        which = env.choose('which', ['out', 'err'])
        fault = (far[which], env.count('bytes', 0, len(OUTPUT[which])))
    elif how == 'missing':
        which = env.choose('which', ['out', 'err'])
        del files[far[which]]
    elif how == 'local':
        for k in far:
            with open(os.path.join(lib, 'task', f"{row['id']}.{k}"), 'w') as stream:
                stream.write(OUTPUT[k])
    net = Network(env, files, fault)

    def ask():
        err = Out()
        try:
            status, out = command(env, task_mod.TaskInfoApp, [row['id'], option], err=err)
        except Exception:
            return None, '', ''
        return status, out, err.text

    def whole(status, out, err):
        env.check(status == 0, 'output is not shown')
        env.check((out, err) == ((OUTPUT['out'], '') if kind == 'out' else ('', OUTPUT['err'])), 'not the output of the task')
    first = ask()
    env.observe('first', [first[0] == 0, len(first[1]), len(first[2])])
    env.check(net.live == 0, 'connection left open')
    if how in ('whole', 'local'):
        whole(*first)
        env.check([c['hostname'] for c in net.opened] == ([far_host] if how == 'whole' else []), 'connections')
    elif first[0] == 0:
        env.check(how != 'connect' and which != kind, 'incomplete output is shown as the output of the task')
        whole(*first)
    else:
        env.check(first[1] == '' and first[2] == '', 'incomplete output is shown')
    # the network is back
    net.fault = None
    net.files = {far[k]: OUTPUT[k] for k in far}
    whole(*ask())
    env.check(net.live == 0, 'connection left open')
    # by now it is here
    env.cover('again')
    net.fault = ('connect',)
    whole(*ask())


@harness('K05', quick=[dict()], covers=('gone', 'never', 'kept'))
def output_of_this_host(env):
    """Output of a task of this host is read here: lost output is an error, and no connection is opened for it."""
    lib = os.path.join(env.scratch, 'lib')
    shutil.rmtree(lib, ignore_errors=True)
    os.makedirs(os.path.join(lib, 'task'), exist_ok=True)
    env.patch(task_mod, 'default_path', SimpleNamespace(lib=lib, log=env.scratch))
    how = env.choose('how', ['gone', 'never', 'kept'])
    env.cover(how)
    paths = {k: os.path.join(lib, 'task', f'00000000-0000-0000-0000-000000000000.{k}') for k in OUTPUT}
    row = put(env, 0, exit_status=0, completion_time=mkdt(6000, True), client_host=HOSTNAME,
              outpath=paths['out'] if how != 'never' else None, errpath=paths['err'] if how != 'never' else None)
    if how == 'kept':
        for k, p in paths.items():
            with open(p, 'w') as stream:
                stream.write(OUTPUT[k])
    net = Network(env, {p: 'not this\n' for p in paths.values()}, None)
    kind = env.choose('kind', ['out', 'err'])
    err = Out()
    try:
        status, out = command(env, task_mod.TaskInfoApp, [row['id'], '--std' + kind], err=err)
    except Exception:
        status, out = None, ''
    env.check(not net.opened, 'connects to itself')
    if how == 'kept':
        env.check(status == 0 and (out, err.text) == ((OUTPUT['out'], '') if kind == 'out' else ('', OUTPUT['err'])),
                  'not the output of the task')
    else:
        env.check(status != 0 and out == '' and err.text == '', 'lost output is no error')


class Far:
    """A stream of a command that runs on another host."""

    def __init__(self, env, net, lines, exited):
        self.env, self.net, self.lines, self.exited = env, net, list(lines), exited
        self.channel = self

    def exit_status_ready(self):
        return self.exited()

    def recv_exit_status(self):
        return 0

    def readline(self, size=None):
        self.env.check(self.net.live == 1, 'output is read without a connection')
        return self.lines.pop(0) if self.lines else ''

    def readlines(self, sizehint=None):
        return list(self)

    def read(self, size=None):
        return ''.join(self)

    def __iter__(self):
        return iter(self.readline, '')

    def close(self):
        pass

    def flush(self):
        pass


@harness('K05', quick=[dict(n=2)], thorough=[dict(n=4)], covers=('nothing', 'lines'))
def command_elsewhere(env, n):
    """What a command on another host prints is passed on whole, whenever it exits."""
    net = Network(env)
    text = CharDomain('ab \t%')
    said = {k: [env.text(f'{k}{i}', 2, domain=text) + '\n' for i in range(env.count(k, 0, n))] for k in ('out', 'err')}
    left = [env.count('exit', 0, 2 * n)]        # the exit is noticed at the n-th look

    def exited():
        left[0] -= 1
        return left[0] < 0
    env.cover('lines' if any(said.values()) else 'nothing')
    ran = []

    def run(client, command, *args, **kwargs):
        env.check(client.sx_live, 'command without connection')
        ran.append((command, kwargs))
        return tuple(Far(env, net, lines, exited) for lines in ((), said['out'], said['err']))
    env.patch(paramiko.SSHClient, 'exec_command', run)
    env.patch(threading.Thread, 'start', lambda self: self.run())
    env.patch(threading.Thread, 'join', lambda self, timeout=None: None)
    env.patch(remote_mod.SSHConfig, 'from_config', classmethod(lambda cls, name, *a: cls(hostname=name)))
    got = {'out': [], 'err': []}

    class Here:
        def __init__(self, kind):
            self.kind = kind

        def write(self, text):
            got[self.kind].append(text)

        def flush(self):
            pass
    command = env.text('command', 2, domain=text)
    remote_mod.RemoteProcess.run_and_wait('far.host', command, stdout=Here('out'), stderr=Here('err'), timeout=7)
    env.check(len(ran) == 1 and ran[0][1] == {'timeout': 7}, 'other commands are run')
    env.check(ran[0][0] == command, 'another command is run')
    env.check([c['hostname'] for c in net.opened] == ['far.host'] and net.live == 0, 'connections')
    for k in said:
        whole, mine = '', ''
        for x in said[k]:
            whole = whole + x
        for x in got[k]:
            mine = mine + x
        env.check(len(mine) == len(whole), 'output is lost')
        env.check(mine == whole, 'other output')
