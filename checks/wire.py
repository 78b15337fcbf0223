"""Messages between server and clients (W01), tag validation (W02)."""
from sx.env import harness
from sx.core import sym_and, sym_or, sym_not, sym_implies, CharDomain, is_sym
from datetime import datetime
from hypershell.data.model import Task, Client
from hypershell.client import ClientInfo
from hypershell.core.heartbeat import Heartbeat, ClientState

ASCII = CharDomain([chr(c) for c in range(0x20, 0x7f)] + ['\n', '\t'])
DATEISH = CharDomain('0123456789-:T W')
TEXTS = ['id', 'args', 'submit_id', 'submit_host', 'server_id', 'server_host', 'client_id', 'client_host', 'command',
         'outpath', 'errpath', 'previous_id', 'next_id']
TIMES = ['submit_time', 'schedule_time', 'start_time', 'completion_time']
NUMS = ['exit_status', 'attempt', 'waited', 'duration']
REQUIRED = ['id', 'args', 'submit_id', 'submit_time', 'attempt', 'retried', 'tag']


def filled(env, n, aware=True):
    """A task with every field arbitrary, or with some or all optional fields unset."""
    out = {}
    for k in TEXTS:
        out[k] = 'x-' + k
    for k in TIMES:
        out[k] = env.instant(k, 0, 5_000_000_000, aware=aware)
    for k in NUMS:
        out[k] = env.int(k, -9, 99)
    out['retried'] = env.bool('retried')
    out['tag'] = {}
    absent = env.choose('absent', ['none', 'all', 'run'])
    if absent == 'all':
        for k in out:
            if k not in REQUIRED:
                out[k] = None
    elif absent == 'run':
        for k in ('start_time', 'completion_time', 'exit_status', 'outpath', 'errpath', 'command', 'duration', 'next_id'):
            out[k] = None
    return out


def equal(env, a, b, what):
    for k in Task.columns:
        x, y = a[k], getattr(b, k)
        env.check((x is None) == (y is None), f'{what}: {k} lost or invented')
        if x is None:
            continue
        if k in TIMES:
            env.check(isinstance(y, datetime), f'{what}: {k} is no instant any more')
        elif k in TEXTS:
            env.check(isinstance(y, str) and not isinstance(y, datetime), f'{what}: {k} is no text any more')
        elif k == 'tag':
            env.check(isinstance(y, dict) and list(y) == list(x), f'{what}: tag keys changed')
            for t in x:
                env.check(isinstance(y[t], datetime) is False and (isinstance(x[t], str) == isinstance(y[t], str))
                          and (isinstance(x[t], bool) == isinstance(y[t], bool)), f'{what}: type of a tag value changed')
                env.check(x[t] is y[t] if x[t] is None else x[t] == y[t], f'{what}: tag value changed')
            continue
        env.check(x == y, f'{what}: {k} changed')


@harness('W01', quick=[dict(n=3, aware=True), dict(n=3, aware=False)], thorough=[dict(n=5, aware=True), dict(n=5, aware=False)],
         covers=('trip',))
def task_roundtrip(env, n, aware):
    """What the other side unpacks equals what was packed, for every field."""
    data = filled(env, n, aware)
    field = env.choose('field', ['args', 'command', 'outpath', 'client_host', 'tag'])
    text = env.text('text', n, domain=ASCII)
    if field == 'tag':
        data['tag'] = {'a': text, 'b': env.int('tagint', -5, 5), 'c': env.bool('tagbool'), 'd': None, '2024': ''}
    else:
        data[field] = text
    task = Task(**data)
    msg = task.pack()
    env.check(isinstance(msg, bytes), 'a packed task is not bytes')
    got = Task.unpack(msg)
    env.cover('trip')
    equal(env, data, got, 'round trip')
    again = Task.unpack(got.pack())
    equal(env, data, again, 'second round trip')


@harness('W01', quick=[dict()], covers=('trip',))
def long_texts(env):
    """Texts of any length arrive whole."""
    data = filled(env, 1, False)
    field = env.choose('field', ['args', 'command', 'outpath', 'tag'])
    size = env.choose('size', [100, 5000, 70_000])
    text = 'x' * size + env.chars('text', 1, ASCII) + 'y'
    if field == 'tag':
        data['tag'] = {f'k{i}': i for i in range(size // 1000)} | {'t': text}
    else:
        data[field] = text
    got = Task.unpack(Task(**data).pack())
    env.cover('trip')
    equal(env, data, got, 'round trip')


@harness('W01', quick=[dict()], thorough=[dict(deep=True)], covers=('trip',))
def dateish_text(env, deep=False):
    """Texts that read like dates or numbers stay texts."""
    fields = ['args', 'command', 'outpath', 'errpath', 'submit_host', 'client_host', 'server_host', 'tag']
    field = env.choose('field', fields)
    kind = env.choose('kind', ['compact', 'dashed', 'time', 'word', 'short'])
    d = CharDomain('0123456789')
    text = {'compact': lambda: env.chars('y', 8, d), 'word': lambda: env.choose('w', ['null', 'true', '-1', 'NaN', '0']),
            'dashed': lambda: '20' + env.chars('y', 2, d) + '-' + env.chars('m', 2, d) + '-' + env.chars('d', 2, d),
            'time': lambda: '2024-01-01 ' + env.chars('h', 2, d) + ':00:00', 'short': lambda: env.chars('y', 6, DATEISH)
            }[kind]()
    data = dict(id='a', args='b', submit_id='c', submit_time=env.instant('submit', 0, 1_000_000_000), attempt=1,
                retried=False, tag={})
    if field == 'tag':
        data['tag'] = {'t': text}
    else:
        data[field] = text
    got = Task.unpack(Task(**data).pack())
    env.cover('trip')
    full = {k: data.get(k) for k in Task.columns}
    equal(env, full, got, 'round trip')


@harness('W01', quick=[dict(n=3)], thorough=[dict(n=5)], covers=('confirm', 'beat'))
def messages(env, n):
    """Confirmations and heartbeats arrive as sent; confirmations name every task of the bundle once."""
    if env.flag('confirm?'):
        k = env.count('tasks', 0, n)
        ids = [env.text(f'id{i}', 2, domain=ASCII) for i in range(k)]
        cid, host = env.text('client', 2, domain=ASCII), env.text('host', 2, domain=ASCII)
        info = ClientInfo.unpack(ClientInfo(client_id=cid, client_host=host, task_ids=list(ids)).pack())
        env.check(info.client_id == cid, 'client id changed')
        env.check(info.client_host == host, 'client host changed')
        rows = info.transpose()
        env.check(len(rows) == k, 'confirmation does not name every task once')
        for i, r in enumerate(rows):
            env.check(sorted(r) == ['client_host', 'client_id', 'id'], 'confirmation changes other fields')
            env.check(sym_and(r['id'] == ids[i], r['client_id'] == cid, r['client_host'] == host), 'confirmation changed')
        mine = ClientInfo.from_tasks([Task(id=f't{i}') for i in range(k)])
        env.check(mine.task_ids == [f't{i}' for i in range(k)], 'confirmation does not name the tasks received')
        env.cover('confirm')
    else:
        uuid, host = env.text('uuid', 3, 1, domain=ASCII), env.text('host', 3, 1, domain=ASCII)
        t = env.instant('time', 0, 5_000_000_000)
        st = env.choose('state', [ClientState.RUNNING, ClientState.FINISHED])
        got = Heartbeat.unpack(Heartbeat.new(uuid=uuid, host=host, time=t, state=st).pack())
        env.check(sym_and(got.uuid == uuid, got.host == host, got.time == t), 'heartbeat changed')
        env.check(got.state is st, 'heartbeat state changed')
        env.cover('beat')


ALLOWED = [chr(c) for c in range(0x20, 0x7f) if chr(c).isalnum()] + list('_.+-')
VALUE = CharDomain([chr(c) for c in range(0x20, 0x7f)] + ['\n', '\t', 'é', '５'])


def text_ok(s):
    blank = sym_and(*[sym_or(c == ' ', c == '\n', c == '\t') for c in s])
    good = sym_and(*[sym_or(sym_and('a' <= c, c <= 'z'), sym_and('A' <= c, c <= 'Z'), sym_and('0' <= c, c <= '9'), c == '_',
                            c == '.', c == '+', c == '-') for c in s])
    return sym_or(blank, sym_and(len(s) > 0, len(s) <= 120, good))


def accepted(tag):
    try:
        Task.ensure_valid_tag(tag)
        return True
    except (TypeError, ValueError):
        return False


@harness('W02', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('ok', 'bad'))
def tag_values(env, n):
    """A tag set is accepted exactly when every value is valid, whatever the other tags are."""
    tag, ok = {}, True
    for i in range(2):
        kind = env.choose(f'kind{i}', ['text', 'int', 'bool', 'none', 'list', 'float', 'empty'])
        v = {'text': lambda: env.text(f'v{i}', n, domain=VALUE), 'int': lambda: env.int(f'v{i}', -5, 5),
             'bool': lambda: env.bool(f'v{i}'), 'none': lambda: None, 'list': lambda: ['x'], 'float': lambda: 1.5,
             'empty': lambda: ''}[kind]()
        tag[f'k{i}'] = v
        if kind == 'text':
            ok = sym_and(ok, text_ok(v))
        elif kind == 'list':
            ok = False
    got = accepted(tag)
    env.observe('got', got)
    env.cover('ok' if got else 'bad')
    env.check(ok if got else sym_not(ok), 'an invalid tag was accepted' if got else 'a valid tag was rejected')


@harness('W02', quick=[dict()], covers=('ok', 'bad'))
def tag_length(env):
    """The 120 character limit, and keys and containers of the wrong type."""
    kind = env.choose('kind', ['length', 'container', 'key', 'new'])
    if kind == 'length':
        k = env.count('extra', 117, 120)
        s = env.text('edge', 3, domain=CharDomain(ALLOWED))
        got = accepted({'x': '', 'k': 'a' * k + s})
        want = k + len(s) <= 120
    elif kind == 'container':
        bad = env.choose('bad', [[], 'a:b', 3, (), None, {}])
        got, want = accepted(bad), bad is None or bad == {}
    elif kind == 'key':
        bad = env.choose('badkey', [3, None, True, ('a',), 'ok'])
        got, want = accepted({'a': '', bad: 'x'}), bad == 'ok'
    else:
        v = env.text('value', 2, domain=VALUE)
        try:
            t = Task.new(args='x', tag={'k': v})
            got = True
            env.check(t.tag['k'] == v, 'tag value changed by creation')
        except (TypeError, ValueError):
            got = False
        want = text_ok(v)
    env.cover('ok' if got else 'bad')
    env.check(want if got else sym_not(want), 'an invalid tag was accepted' if got else 'a valid tag was rejected')
