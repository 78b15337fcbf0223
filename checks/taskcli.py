"""The task commands over the database: search (K01), update, cancel, revert, delete (K02), wait and run (K03),
submit and info (K04)."""
import os
import sys
import json
import re
import datetime
import yaml
import rich.console
import rich.syntax
from types import SimpleNamespace
from sx.env import harness
from sx.core import (sym_and, sym_or, sym_not, sym_implies, sym_ite, mkdt, mkstr, chars_of, PathEnd, CharDomain, is_sym, Tok,
                     Unsupported)
from sx.models import to_text, fromisoformat, make_timedelta
from sx.dbenv import task_row
from checks.sched_db import any_task, populate, norm_row, table, same, same_row, ALL, RUN_FIELDS, KEEP_FIELDS, count
from hypershell.data.model import Task
from hypershell.data.core import Session
from hypershell.core.logging import INSTANCE, HOSTNAME
from hypershell import task as task_mod

WORD = CharDomain('abxyz019._-+=:~<>! "\'\\/*$')
S = 1_000_000


class Out:
    """Standard output of a command."""

    name = '<stdout>'
    closed = False

    def __init__(self, tty=False):
        self.text = ''
        self.tty = tty

    def write(self, s):
        self.text = self.text + s

    def flush(self):
        pass

    def isatty(self):
        return self.tty

    def close(self):
        self.closed = True


class Marks:
    """Command lines with symbolic words: the argument parser sees a mark, the program the word."""

    def __init__(self):
        self.words = {}

    def mark(self, word):
        if not is_sym(word):
            return word
        m = f'@{len(self.words)}@'
        self.words[m] = word
        return m

    def restore(self, value):
        if isinstance(value, str) and not is_sym(value) and value in self.words:
            return self.words[value]
        if isinstance(value, list):
            return [self.restore(v) for v in value]
        return value


def colourless(env):
    """Standard output is a terminal; what the rich library would show there, without colours and line breaks."""
    def init(self, code, lexer=None, *args, **kwargs):
        self.code = code

    def show(self, *objects, **kwargs):
        for o in objects:
            sys.stdout.write(o.code if isinstance(o, rich.syntax.Syntax) else str(o))
            sys.stdout.write('\n')
    env.patch(rich.syntax.Syntax, '__init__', init)
    env.patch(rich.console.Console, 'print', show)


def command(env, app, argv, err=None, tty=False):
    """-> (exit status, output); what `hs` does with this command line."""
    marks = Marks()
    plain = [marks.mark(a) for a in argv]
    made = app.__dict__.get('from_cmdline')
    build = app.from_cmdline

    def from_cmdline(cmdline=None):
        a = build(cmdline)
        for k, v in list(vars(a).items()):
            setattr(a, k, marks.restore(v))
        return a
    out = Out(tty)
    real = sys.stdout, sys.stderr
    app.from_cmdline = from_cmdline
    sys.stdout = out
    sys.stderr = err or real[1]
    try:
        status = app.main(plain)
    finally:
        sys.stdout, sys.stderr = real
        if made is None:
            del app.from_cmdline
        else:
            app.from_cmdline = made
    Session.remove()
    return status, out.text


def ids_of(text):
    return [x for x in text.split('\n') if x]


OPS = {'==': lambda a, b: a == b, '!=': lambda a, b: sym_not(a == b), '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
       '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


def put(env, i, **over):
    row = norm_row(task_row(env, f'00000000-0000-0000-0000-00000000000{i}', submit_time=mkdt(1000 * i, True), **over))
    env.db.put('task', **row)
    return row


def sets(env, got, rows, want, what):
    """Exactly the rows for which `want` holds, each once."""
    env.check(len(set(got)) == len(got), f'{what}: a task is listed twice')
    env.check(all(any(r['id'] == g for r in rows) for g in got), f'{what}: unknown task')
    for r in rows:
        w = want(r)
        env.check(w if r['id'] in got else sym_not(w), f'{what}: ' + ('listed without matching' if r['id'] in got
                                                                      else 'matches but is not listed'))


@harness('K01', quick=[dict(n=2, d=2)], thorough=[dict(n=3, d=4)], covers=('number', 'null', 'hit', 'miss'))
def search_numbers(env, n, d):
    """-w FIELD OP NUMBER lists exactly the tasks whose recorded number compares so."""
    field = env.choose('field', ['exit_status', 'attempt', 'duration'])
    rows = []
    for i in range(n):
        v = env.int(f'value{i}', -99, 999)
        if field != 'attempt' and env.flag(f'none{i}'):
            v = None
        rows.append(put(env, i, **{field: v}))
    op = env.choose('op', list(OPS))
    sp = env.choose('space', ['', ' '])
    if op in ('==', '!=') and env.flag('null'):
        text = env.choose('nulltext', ['null', 'None'])
        limit = None
        env.cover('null')
    else:
        digits = env.text('digits', d, minlen=1, domain=CharDomain('0123456789'))
        minus = env.choose('minus', ['', '-'])
        text = minus + digits
        limit = -int(digits) if minus else int(digits)
        env.cover('number')
    status, out = command(env, task_mod.TaskSearchApp, ['id', '-w', field + sp + op + sp + text])
    env.check(status == 0, 'search fails')
    got = ids_of(out)
    env.observe('got', got)
    env.cover('hit' if got else 'miss')

    def want(r):
        v = r[field]
        if limit is None:
            return (v is None) == (op == '==')
        return False if v is None else OPS[op](v, limit)
    sets(env, got, rows, want, f'{field} {op}')


@harness('K01', quick=[dict(n=2, d=2)], thorough=[dict(n=2, d=3)], covers=('equal', 'regex', 'hit', 'miss'))
def search_texts(env, n, d):
    """-w FIELD OP TEXT compares texts as texts, whatever they read like; ~ finds a regular expression."""
    field = env.choose('field', ['args', 'command'])
    rows = [put(env, i, **{field: env.text(f'text{i}', d, minlen=1, domain=CharDomain('ab01=<')) if i == 0 else 'b0'})
            for i in range(n)]
    op = env.choose('op', ['==', '!=', '<', '>=', '~'])
    if op == '~':
        pat = env.choose('pattern', ['^b', '0$', 'a|0', '[ab]1', '^..$'])
        env.cover('regex')
    else:
        pat = env.text('pattern', d, minlen=1, domain=CharDomain('ab01'))
        env.cover('equal')
    status, out = command(env, task_mod.TaskSearchApp, ['id', '-w', field + ' ' + op + ' ' + pat])
    env.check(status == 0, 'search fails')
    got = ids_of(out)
    env.observe('got', got)
    env.cover('hit' if got else 'miss')
    sets(env, got, rows, (lambda r: OPS[op](r[field], pat)) if op != '~' else
         (lambda r: re.search(pat, r[field]) is not None), f'{field} {op}')


ALIAS = {'--failed': lambda r: False if r['exit_status'] is None else r['exit_status'] != 0,
         '--succeeded': lambda r: False if r['exit_status'] is None else r['exit_status'] == 0,
         '--completed': lambda r: r['exit_status'] is not None,
         '--remaining': lambda r: r['exit_status'] is None}
TAGSETS = [{}, {'a': ''}, {'a': '', 'b': ''}, {'b': 'x'}, {'a': 1, 'b': 'x'}, {'a': True, 'c.d': 5}, {'c': {}}]


def has_tag(t, spec):
    """Documented meaning of KEY or KEY:VALUE."""
    if ':' not in spec:
        return spec in t
    k, v = spec.split(':', 1)
    if k not in t or t[k] is None:
        return False
    v = {'true': 1, 'false': 0}.get(v, v)
    try:
        v = int(v)
    except ValueError:
        pass
    have = int(t[k]) if isinstance(t[k], bool) else t[k]
    return type(have) is type(v) and have == v


@harness('K01', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('alias', 'tags', 'both', 'hit'))
def search_tags(env, n):
    """Several conditions and tags all apply; a tag without value asks only for its presence."""
    rows = []
    for i in range(n):
        t = env.choose(f'tags{i}', [{}, {'a': ''}, {'b': ''}, {'a': '', 'b': ''}, {'a': 1, 'b': 'x'}, {'a': True, 'c-d': 5},
                                    {'a': '1'}, {'a': None}])
        ex = env.choose(f'status{i}', [None, 'ran'])
        ex = ex and env.int(f'exit{i}', -20, 255)
        rows.append(put(env, i, tag=t, exit_status=ex))
    alias = env.choose('alias', [None] + list(ALIAS))
    specs = env.choose('specs', [[], ['a'], ['a', 'b'], ['b:x'], ['a:1'], ['a', 'b:x'], ['a:true'], ['c-d:5', 'a'],
                                 ['zzz']])
    argv = ['id'] + ([alias] if alias else []) + (['-t'] + specs if specs else [])
    if alias:
        env.cover('alias')
    if specs:
        env.cover('tags')
    if alias and specs:
        env.cover('both')
    status, out = command(env, task_mod.TaskSearchApp, argv)
    env.check(status == 0, 'search fails')
    got = ids_of(out)
    env.observe('got', got)
    if got:
        env.cover('hit')
    sets(env, got, rows, lambda r: sym_and(ALIAS[alias](r) if alias else True, all(has_tag(r['tag'], s) for s in specs)),
         f'{alias} {specs}')


VALUES = {'1': 1, '-7': -7, '1.0': 1.0, '0.0': 0.0, '2.5': 2.5, 'true': True, 'False': False, 'x': 'x', '1_x': '1_x',
          'null': None}


@harness('K01', quick=[dict(n=2)], thorough=[dict(n=2)], covers=('hit', 'miss'))
def search_tag_values(env, n):
    """KEY:VALUE finds the tasks with that value (of any kind); true and 1 are not told apart."""
    rows = []
    for i in range(n):
        v = env.choose(f'value{i}', ['none', 'int', 'text'] + ([1.0, 2.5, True, False, None] if i == 0 else []))
        v = env.int(f'int{i}', -9, 9) if v == 'int' else v
        if v == 'text':
            v = 'x' + env.text(f'text{i}', 1, domain=CharDomain('xyZ0+_'))
        rows.append(put(env, i, tag={'other': 1} if isinstance(v, str) and not is_sym(v) and v == 'none' else {'key': v}))
    spec = env.choose('spec', list(VALUES) + ['symbolic'])
    if spec == 'symbolic':
        spec = value = 'x' + env.chars('want', 1, CharDomain('xyZ0+_'))
    else:
        value = VALUES[spec]
    status, out = command(env, task_mod.TaskSearchApp, ['id', '-t', 'key:' + spec])
    env.check(status == 0, 'search fails')
    got = ids_of(out)
    env.observe('got', got)
    env.cover('hit' if got else 'miss')

    def want(r):
        if 'key' not in r['tag']:
            return False
        have = r['tag']['key']
        if have is None or value is None:
            return have is None and value is None
        if isinstance(have, str) or isinstance(value, str):
            return have == value if isinstance(have, str) and isinstance(value, str) else False
        return have == value
    if isinstance(value, float):      # whether 1 and 1.0 are told apart is left open
        rows = [r for r in rows if not isinstance(r['tag'].get('key'), (bool, int))]
        got = [g for g in got if g in [r['id'] for r in rows]]
    elif isinstance(value, (bool, int)):
        rows = [r for r in rows if not isinstance(r['tag'].get('key'), float)]
        got = [g for g in got if g in [r['id'] for r in rows]]
    sets(env, got, rows, want, 'tag value')


@harness('K01', quick=[dict(n=3)], thorough=[dict(n=4)], covers=('ordered', 'limited', 'counted'))
def search_order(env, n):
    """Order, limit and count."""
    rows = []
    for i in range(n):
        rows.append(put(env, i, attempt=env.int(f'attempt{i}', 1, 9), exit_status=env.choose(f'status{i}', [None, 1])))
    argv = ['id']
    desc = env.flag('desc')
    alias = env.choose('alias', [None, '--remaining'])
    limit = env.choose('limit', [None, 0, 1, 2])
    by = env.flag('ordered') or desc
    if by:
        argv += ['-s', 'attempt'] + (['--desc'] if desc else [])
        env.cover('ordered')
    if alias:
        argv += [alias]
    if limit is not None:
        argv += ['--limit', str(limit)]
        env.cover('limited')
    matches = [r for r in rows if alias is None or r['exit_status'] is None]
    k = len(matches) if limit is None else min(limit, len(matches))
    if env.flag('count'):
        status, out = command(env, task_mod.TaskSearchApp, argv + ['--count'])
        env.check(sym_and(status == 0, out.strip() == str(k)), 'count')
        env.cover('counted')
        return
    status, out = command(env, task_mod.TaskSearchApp, argv)
    env.check(status == 0, 'search fails')
    got = ids_of(out)
    env.observe('got', got)
    env.check(len(got) == k and len(set(got)) == k, 'number of results')
    env.check(all(g in [r['id'] for r in matches] for g in got), 'listed without matching')
    value = {r['id']: r['attempt'] for r in rows}
    if by:
        for a, b in zip(got, got[1:]):
            env.check(value[a] >= value[b] if desc else value[a] <= value[b], 'not in order')
        for r in matches:
            if r['id'] not in got and got:
                env.check(value[r['id']] <= value[got[-1]] if desc else value[r['id']] >= value[got[-1]],
                          'the limit drops the wrong ones')


SELECT = {'all': ([], lambda r: True),
          'failed': (['--failed'], ALIAS['--failed']),
          'remaining': (['--remaining'], ALIAS['--remaining']),
          'completed': (['-C'], ALIAS['--completed']),
          'status': (['-w', 'exit_status == 3'], lambda r: False if r['exit_status'] is None else r['exit_status'] == 3),
          'attempt': (['-w', 'attempt<=1'], lambda r: r['attempt'] <= 1),
          'tag': (['-t', 'site:a'], lambda r: r['tag'].get('site') == 'a'),
          'two': (['-t', 'site', '-w', 'attempt > 1', 'exit_status != null'],
                  lambda r: sym_and('site' in r['tag'], r['attempt'] > 1, r['exit_status'] is not None))}
FIELDS = {'exit_status=3': ('exit_status', 3), 'exit_status=null': ('exit_status', None), 'attempt=1': ('attempt', 1),
          'args=a=b c': ('args', 'a=b c'), 'command=007': ('command', '007'), 'command=none': ('command', None),
          'retried=true': ('retried', True)}
TAG_SET = {'site:b': ('site', 'b'), 'n:5': ('n', 5), 'on:true': ('on', True), 'nil:null': ('nil', None), 'a.b:x': ('a.b', 'x'),
           'k-1:2.5': ('k-1', 2.5), 'e:': ('e', '')}


def stored(env, n):
    rows = []
    for i in range(n):
        kind, row = any_task(env, i, ['new', 'sent', 'failed'] if i == 0 else ['new', 'done'])
        rows.append((kind, row))
    return rows


def tags_equal(env, got, want, what):
    env.check(set(got) == set(want), f'{what}: tags {sorted(got)}')
    for k in want:
        if k in got:
            a, b = got[k], want[k]
            env.check((a is None) == (b is None) and isinstance(a, bool) == isinstance(b, bool)
                      and isinstance(a, str) == isinstance(b, str), f'{what}: kind of tag value')
            if a is not None:
                env.check(a == b, f'{what}: tag value')


U0, U1, U2, U3 = (f'0a000000-0000-4000-8000-00000000000{i}' for i in range(4))


def prepare(env, n, tags=({'site': 'a', 'x': 1}, {'site': 'b'}, {}), ids=None):
    """n stored tasks in different states."""
    rows = []
    for i in range(n):
        row = task_row(env, ids[i] if ids else f'task{i}', submit_time=mkdt(1000 * (n - i), True), attempt=env.int(f'attempt{i}', 1, 2),
                       tag=dict(tags[i % len(tags)]))
        if env.flag(f'ran{i}'):
            row.update(schedule_time=mkdt(5000, True), server_id='s', server_host='sh', client_id='c', client_host='ch',
                       command='cmd', start_time=mkdt(6000, True), completion_time=mkdt(7000, True), waited=1, duration=2,
                       outpath='o', errpath='e', exit_status=env.int(f'status{i}', -3, 3))
        row = norm_row(row)
        env.db.put('task', **row)
        rows.append(row)
    return rows


def changed(env, rows, hit, change, what, tags=None, gone=()):
    """The rows for which `hit` holds have `change` applied, the others are as before."""
    post = table(env)
    for r in rows:
        h = hit(r)
        if bool(h):
            if gone:
                env.check(r['id'] not in post, f'{what}: not deleted')
                continue
            env.check(r['id'] in post, f'{what}: task deleted')
            want = dict(r)
            want.update(change)
            p = post[r['id']]
            for k in ALL:
                if k == 'tag':
                    tags_equal(env, p[k], tags(r['tag']) if tags else r['tag'], what)
                elif want[k] == 'now':
                    env.check(p[k] is not None, f'{what}: {k}')
                    env.check(sym_and(p[k].replace(tzinfo=None) >= mkdt(10_000_000_000, False),
                                      p[k].replace(tzinfo=None) <= mkdt(env.t, False)), f'{what}: {k}')
                else:
                    env.check(same(p[k], want[k]), f'{what}: {k} of a matching task')
        else:
            env.check(r['id'] in post, f'{what}: deletes a task that does not match')
            for k in ALL:
                if k == 'tag':
                    tags_equal(env, post[r['id']][k], r[k], what + ' (other task)')
                else:
                    env.check(same(post[r['id']][k], r[k]), f'{what}: {k} of a task that does not match')
    env.check(set(post) <= {r['id'] for r in rows}, f'{what}: new tasks')


REVERT = {k: None for k in RUN_FIELDS}
ACTIONS = {'--cancel': dict(schedule_time='now', exit_status=-1), '--revert': REVERT}


@harness('K02', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('cancel', 'revert', 'delete', 'confirmed', 'declined', 'limit'))
def update_actions(env, n):
    """Cancel, revert and delete apply to exactly the matching tasks, after confirmation."""
    rows = prepare(env, n)
    name = env.choose('select', list(SELECT))
    argv, hit = SELECT[name]
    action = env.choose('action', ['--cancel', '--revert', '--delete'])
    env.cover(action[2:])
    limit = env.choose('limit', [None, 1] + ([0] if name == 'all' else []))
    answer = env.choose('answer', [None, 'y', 'YES ', 'n', '', 'maybe', 'yep']) if limit is None else None
    asked = []

    def ask(prompt=''):
        asked.append(prompt)
        return answer
    env.patch(task_mod, 'input', ask)
    if limit is not None:
        env.cover('limit')
        argv = argv + (['--order-by', 'submit_time', '--desc'] if limit else []) + ['--limit', str(limit)]
    status, out = command(env, task_mod.TaskUpdateApp, [action] + argv + ([] if answer is not None else ['--no-confirm']))
    env.check(status == 0, 'update fails')
    any_hit = sym_or(*[hit(r) for r in rows])
    if answer is not None:
        env.check(any_hit if asked else sym_not(any_hit), 'asks without need or not at all')
        if asked:
            k = count([hit(r) for r in rows])
            nums = re.findall(r'\d+', asked[0])
            env.check(sym_or(*[k == int(x) for x in nums]) if nums else False, 'wrong number of tasks announced')
    if limit is not None:      # the latest of the matching tasks; submit times are descending
        first = next((r['id'] for r in rows if bool(hit(r))), None) if limit else None
        hit = lambda r: r['id'] == first   # noqa
    go = answer in (None, 'y', 'YES ')
    env.cover('confirmed' if go else 'declined')
    changed(env, rows, hit if go else lambda r: False, ACTIONS.get(action, {}), f'{action} {name}', gone=action == '--delete')


@harness('K02', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('field', 'tag', 'remove', 'both', 'limit'))
def update_fields(env, n):
    """Field and tag changes apply to exactly the tasks that match before the change, and change nothing else."""
    rows = prepare(env, n)
    name = env.choose('select', list(SELECT))
    argv, hit = SELECT[name]
    field = env.choose('field', [None] + list(FIELDS))
    tag = env.choose('tag', [None] + list(TAG_SET)) if field is None or field.startswith('exit') else None
    more = env.choose('more', [None, 'm:1']) if tag else None
    remove = env.choose('remove', [[], ['site'], ['zz', 'x', 'sit'], ['a.b']]) if tag in (None, 'a.b:x') else []
    if not (field or tag or remove):
        env.end('nothing to do')
    limit = env.choose('limit', [None, 1] + ([0] if name == 'all' else []))
    args = [x for x in (field, tag, more) if x]
    for what, v in (('field', field), ('tag', tag), ('remove', remove), ('both', field and tag), ('limit', limit is not None)):
        if v:
            env.cover(what)
    change = dict([FIELDS[field]]) if field else {}
    status, out = command(env, task_mod.TaskUpdateApp,
                          args + (['--remove-tag'] + remove if remove else []) + argv + ['--no-confirm']
                          + ([] if limit is None else ['-s', 'submit_time'] if limit else []) + ([] if limit is None else ['--limit', str(limit)]))
    env.check(status == 0, f'update fails ({status})')
    matching = [bool(hit(r)) for r in rows]
    order = [r for r, m in zip(rows, matching) if m]
    order.sort(key=lambda r: r['id'], reverse=True)       # submit times are descending
    chosen = [r['id'] for r in (order if limit is None else order[:limit])]

    def tags(t):
        t = dict(t)
        for x in (tag, more):
            if x:
                k, v = TAG_SET[x] if x in TAG_SET else ('m', 1)
                t[k] = v
        for k in remove:
            t.pop(k, None)
        return t
    changed(env, rows, lambda r: r['id'] in chosen, change, f'{args} {remove} {name}', tags=tags)


@harness('K02', quick=[dict(n=103)], thorough=[dict(n=205)], covers=('delete', 'tag', 'field', 'limit'))
def update_many(env, n):
    """However many tasks match, all of them (or as many as the limit allows) are changed."""
    status = env.int('status', -3, 3)
    rows = []
    for i in range(n):
        row = norm_row(task_row(env, f'00000000-0000-0000-0000-{i:012d}', submit_time=mkdt(1000 * i, True), tag={'i': i},
                                schedule_time=mkdt(5000, True), exit_status=status if i % 2 else None))
        env.db.put('task', **row)
        rows.append(row)
    limit = env.choose('limit', [None, n - 1])
    what = env.choose('what', ['--delete', 'new:1', 'attempt=5', '--cancel', '--revert'])
    env.cover({'--delete': 'delete', 'new:1': 'tag', 'attempt=5': 'field'}.get(what, 'delete'))
    if limit:
        env.cover('limit')
    got, out = command(env, task_mod.TaskUpdateApp, [what, '--no-confirm'] + (
        ['-s', 'submit_time', '--limit', str(limit)] if limit else []))
    env.check(got == 0, 'update fails')
    post = table(env)
    for i, r in enumerate(rows):
        hit = limit is None or i < limit
        if what == '--delete':
            env.check((r['id'] not in post) == hit, 'not deleted' if hit else 'deletes more than asked for')
            continue
        env.check(r['id'] in post, 'task deleted')
        p = post[r['id']]
        env.check(same(p['attempt'], 5 if hit and what == 'attempt=5' else r['attempt']), 'attempt')
        env.check(p['tag'] == (dict(r['tag'], new=1) if hit and what == 'new:1' else r['tag']), 'tags')
        if what == '--cancel' and hit:
            env.check(same(p['exit_status'], -1), 'not cancelled')
        elif what == '--revert' and hit:
            env.check(sym_and(same(p['exit_status'], None), same(p['schedule_time'], None)), 'not reverted')
        else:
            env.check(sym_and(same(p['exit_status'], r['exit_status']), same(p['schedule_time'], r['schedule_time'])),
                      'exit status or schedule time')


BAD = [['id=x'], ['nofield=3'], ['word'], ['site:a b/c'], ['site:a:b'], ['exit_status == 3'], ['attempt=1', '--desc'],
       ['attempt=1', '-s', 'attempt'], ['attempt=1', '-w', 'exit_status']]


@harness('K02', quick=[dict(n=1)], covers=('refused',))
def update_refused(env, n):
    """Malformed updates are refused and change nothing."""
    rows = prepare(env, n)
    argv = env.choose('argv', BAD)
    try:
        status, out = command(env, task_mod.TaskUpdateApp, argv + ['--no-confirm'])
    except Exception:
        status = 'error'
    env.check(status != 0, f'{argv} accepted')
    env.cover('refused')
    changed(env, rows, lambda r: False, {}, str(argv))


LEGACY = {'exit_status': {'3': 3, 'null': None, 'None': None}, 'args': {'a=b c': 'a=b c', '007': '007'},
          'command': {'x': 'x', 'NULL': None}, 'attempt': {'2': 2}, 'retried': {'true': True, 'False': False},
          'client_id': {'c2': 'c2', 'none': None}}
BAD_LEGACY = [('id', U1), ('nofield', '3'), ('tag', 'site:a b/c'), ('Tag', 'a:1')]


@harness('K02', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('field', 'tag', 'unknown', 'refused'))
def update_one(env, n):
    """`update ID FIELD VALUE` changes this field of this task and nothing else."""
    rows = prepare(env, n, ids=[U1, U2, U3])
    id = env.choose('id', [U1, U2, U1.upper(), U0])
    kind = env.choose('kind', ['field', 'tag', 'refused'])
    if kind == 'field':
        field = env.choose('field', list(LEGACY))
        text = env.choose('value', list(LEGACY[field]))
        change, tags = {field: LEGACY[field][text]}, None
    elif kind == 'tag':
        field, text = 'tag', env.choose('tag', list(TAG_SET) + ['new', 'site:'])
        k, v = TAG_SET.get(text) or (text.rstrip(':'), '')
        change, tags = {}, lambda t: {**t, k: v}
    else:
        field, text = env.choose('bad', BAD_LEGACY)
        change, tags = {}, None
    try:
        status, out = command(env, task_mod.TaskUpdateApp, [id, field, text] + (['--no-confirm'] if env.flag('flag') else []))
    except Exception:
        status = 'error'
    there = id in [r['id'] for r in rows]
    if kind == 'refused' or not there:
        env.cover('refused' if kind == 'refused' else 'unknown')
        env.check(status != 0, f'{field} {text} of {"a" if there else "an unknown"} task accepted')
        env.check(status == 2 or kind != 'refused' or field == 'tag', f'{field} is not told to be a wrong argument')
        changed(env, rows, lambda r: False, {}, f'{field} {text}')
    else:
        env.cover(kind)
        env.check(status == 0, f'update fails ({status})')
        changed(env, rows, lambda r: r['id'] == id, change, f'{field} {text}', tags=tags)


# ---------------------------------------------------------------------------
# K03: wait and run

PRINTABLE = CharDomain('ab1 "\'\\$[,é')


class Files:
    """The directory for captured output on this host, and what other hosts have."""

    def __init__(self, env):
        self.lib = os.path.join(env.scratch, 'lib')
        os.makedirs(os.path.join(self.lib, 'task'), exist_ok=True)
        env.patch(task_mod, 'default_path', SimpleNamespace(lib=self.lib, log=env.scratch))
        self.remote = {}         # (host, path) -> text
        files = self

        class Connection:
            def __init__(self, host, *a, **kw):
                self.host = host

            def __enter__(self):
                return self

            def __exit__(self, *exc):
                pass

            def get_file(self, remote, local):
                with open(local, 'w') as f:
                    f.write(files.remote[self.host, remote])
        env.patch(task_mod, 'SSHConnection', Connection)

    def path(self, id, kind):
        return os.path.join(self.lib, 'task', f'{id}.{kind}')

    def local(self, id, out, err):
        for kind, text in (('out', out), ('err', err)):
            with open(self.path(id, kind), 'w') as f:
                f.write(text)


def finish(env, id, status, **more):
    """Status None: cancelled."""
    if status is None:
        env.db.update('task', id, exit_status=-1, schedule_time=mkdt(env.t, True))
    else:
        env.db.update('task', id, exit_status=status, completion_time=mkdt(env.t, True), **more)


@harness('K03', quick=[dict(polls=2)], thorough=[dict(polls=4)], covers=('return', 'status', 'json', 'plain', 'waited', 'done', 'cancelled'))
def wait_ends(env, polls):
    """Waiting ends at the first poll after the task has a result, and not before; the result is the task's."""
    row = put(env, 0, schedule_time=mkdt(5000, True), attempt=env.int('attempt', 1, 3))
    put(env, 1, exit_status=7, completion_time=mkdt(6000, True), previous_id=env.choose('relation', [None, row['id']]))
    cancelled = env.flag('cancelled')
    status = None if cancelled else env.int('status', -20, 255)
    if cancelled:
        env.cover('cancelled')
    k = env.count('polls', 0, polls)
    interval = env.choose('interval', [None, 1, 7])
    mode = env.choose('mode', ['plain', 'return', 'status', 'json'])
    env.cover(mode)
    env.cover('waited' if k else 'done')
    if k == 0:
        finish(env, row['id'], status)
    seen = []

    def on_sleep(secs):
        seen.append(secs)
        env.check(len(seen) <= k, 'still waiting after the task has ended')
        env.check(secs == (5 if interval is None else interval), 'polling interval')
        if len(seen) == k:
            finish(env, row['id'], status)
    env.on_sleep = on_sleep
    got, out = command(env, task_mod.TaskWaitApp, [row['id']] + (['-n', str(interval)] if interval else [])
                       + {'plain': [], 'return': ['--return'], 'status': ['-s'], 'json': ['-i', '--json']}[mode])
    env.observe('got', [got, len(seen)])
    if cancelled:
        status = -1
    env.check(len(seen) == k, 'returned before the task has ended')
    env.check(got == (status if mode == 'return' else 0), 'exit status of the command')
    if mode == 'status':
        env.check(out == to_text(status) + '\n', 'printed exit status')
    elif mode == 'json':
        same_json(env, parsed(out), {**row, 'exit_status': status, 'completion_time': mkdt(env.t, True)},
                  skip=('completion_time', 'schedule_time'))
    else:
        env.check(out == '', 'prints something')


@harness('K03', quick=[dict(d=2)], thorough=[dict(d=4)], covers=('ok', 'failed', 'cancelled', 'remote', 'two'))
def run_prints_own_output(env, d):
    """`hs task run` submits exactly the command, waits for that task, and prints what it wrote."""
    files = Files(env)
    other = put(env, 0)
    words = ['x' + env.text('word', d, domain=WORD) + 'y']
    if env.flag('two'):
        words += ['-z']
        env.cover('two')
    status = env.choose('status', [0, 3, -1])
    env.cover({0: 'ok', 3: 'failed', -1: 'cancelled'}[status])
    where = env.choose('host', [HOSTNAME, 'far'])
    if where == 'far':
        env.cover('remote')
    k = env.count('polls', 1, 2)
    interval = env.choose('interval', [2, 0, None]) if len(words) == 1 and k == 1 else 2
    seen = []

    def on_sleep(secs):
        seen.append(secs)
        env.check(len(seen) <= k, 'still waiting after the task has ended')
        new = [r for r in env.db.rows('task') if r['id'] != other['id']]
        env.check(len(new) == 1, 'number of tasks submitted')
        env.check(secs == (5 if interval is None else interval), 'polling interval')
        if len(seen) < k:
            if len(seen) == 1:
                finish(env, other['id'], 9, outpath='/o', errpath='/e')
            return
        id = new[0]['id']
        if status == -1:
            finish(env, id, None)
            return
        if where == HOSTNAME:
            files.local(id, 'text out\n', 'text err\n')
            finish(env, id, status, client_host=where, outpath=files.path(id, 'out'), errpath=files.path(id, 'err'))
        else:
            files.remote[where, f'/far/{id}.out'] = 'text out\n'
            files.remote[where, f'/far/{id}.err'] = 'text err\n'
            finish(env, id, status, client_host=where, outpath=f'/far/{id}.out', errpath=f'/far/{id}.err')
    env.on_sleep = on_sleep
    err = Out()
    got, out = command(env, task_mod.TaskRunApp, ([] if interval is None else ['-n', str(interval)])
                       + ['-t', 'a:1', '--'] + words, err=err)
    env.check(len(seen) == k, 'returned before the task has ended')
    new = [r for r in env.db.rows('task') if r['id'] != other['id']]
    want = words[0]
    for w in words[1:]:
        want = want + ' ' + w
    env.check(len(new) == 1, 'number of tasks submitted')
    env.check(sym_and(new[0]['args'] == want, new[0]['attempt'] == 1), 'task submitted')
    tags_equal(env, new[0]['tag'], {'a': 1}, 'submitted')
    if status == -1:
        env.check(sym_and(got != 0, out == ''), 'output of a task that never ran')
    else:
        env.check(sym_and(out == 'text out\n', err.text == 'text err\n', got == 0), 'printed output')


# ---------------------------------------------------------------------------
# K04: submit, info, output formats

def parsed(text):
    """Structure printed as JSON or YAML."""
    if not is_sym(text) and not text.strip():
        return {}
    if is_sym(text):
        toks = [c for c in text.chars if isinstance(c, Tok) and c.kind in ('json', 'yaml')]
        if len(toks) == 1 and mkstr([c for c in text.chars if c is not toks[0]]).strip() == '':
            v = toks[0].value
            return v.value if toks[0].kind == 'json' else v
        raise Unsupported('output is not one JSON text')
    try:
        return json.loads(text)
    except ValueError:
        return yaml.safe_load(text)


def as_json(v):
    if is_sym(v) and hasattr(v, 'isoformat') or isinstance(v, datetime.datetime):
        v = v.replace(tzinfo=None)
        return v.isoformat(sep=' ')
    return v


def same_value(env, got, want, what):
    if isinstance(want, dict):
        tags_equal(env, got, want, what)
        return
    if is_time(want):
        env.check(isinstance(got, str), f'{what}: kind of value')
        got = fromisoformat(datetime.datetime, got) if is_sym(got) else datetime.datetime.fromisoformat(got)
        env.check(got.replace(tzinfo=None) == want.replace(tzinfo=None), f'{what}: instant')
        return
    env.check((got is None) == (want is None) and isinstance(got, bool) == isinstance(want, bool)
              and isinstance(got, str) == isinstance(want, str), f'{what}: kind of value')
    if want is not None:
        env.check(got == want, f'{what}: value')


def is_time(v):
    return isinstance(v, datetime.datetime)


def same_json(env, got, row, skip=(), fields=ALL):
    env.check(sorted(got) == sorted(fields), 'fields')
    for k in fields:
        if k not in skip:
            same_value(env, got[k], row[k], k)


def full(env, i, d):
    """A stored task with anything in it."""
    kw = dict(args=env.text(f'args{i}', d, minlen=1, domain=PRINTABLE), attempt=env.int(f'attempt{i}', 1, 9))
    if env.flag(f'ran{i}'):
        kw.update(schedule_time=mkdt(5_000_000, True), server_id='sid', server_host='s.h', client_id='cid', client_host='c.h',
                  command='x"y" \\', start_time=mkdt(6_000_000, True),
                  completion_time=mkdt(1_000_000 * env.int(f'completed{i}', 7, 99), True),
                  waited=env.int(f'waited{i}', 0, 9), duration=env.int(f'duration{i}', 0, 99999), outpath='/o p', errpath='"e"',
                  exit_status=env.int(f'status{i}', -20, 255), retried=env.choose(f'retried{i}', [False, True]),
                  next_id='nid')
    kw['tag'] = env.choose(f'tag{i}', [{}, {'a': '', 'n': 0}, {'f': False, 'k': 'v-1'}, {'u': None, 'x': 2.5}])
    return put(env, i, **kw)


@harness('K04', quick=[dict(d=2)], thorough=[dict(d=4)], covers=('plain', 'tags', 'refused'))
def submit_stores(env, d):
    """`hs task submit` stores the command and tags as given and prints the new task's id."""
    words = ['x' + env.text('word', d, domain=WORD)]
    words += env.choose('more', [[], ['-a'], ['b c', '--', 'd'], ['', 'e']])
    spec = env.choose('tags', [None, ['a'], ['a:1', 'b:x-1'], ['t: true ', 'n:null'], ['k:v w'], ['k:a/b'], ['u:http:x'],
                               ['e:', 'x:2.5', 'long:' + 'q' * 121]])
    bad = spec is not None and any(x in ('k:v w', 'k:a/b', 'u:http:x') or x.startswith('long') for x in spec)
    got, out = command(env, task_mod.TaskSubmitApp, ['--'] + words if spec is None else ['-t'] + spec + ['--'] + words)
    rows = env.db.rows('task')
    if bad:
        env.cover('refused')
        env.check(got != 0, 'invalid tag accepted')
        env.check(not rows and out == '', 'refused and stored')
        return
    env.cover('tags' if spec else 'plain')
    env.check(got == 0, 'submit fails')
    env.check(len(rows) == 1, 'number of tasks')
    row = rows[0]
    want = words[0]
    for w in words[1:]:
        want = want + ' ' + w
    env.check(row['args'] == (want.strip()), 'stored command')
    env.check(out == row['id'] + '\n', 'printed id')
    tags_equal(env, row['tag'], {None: {}, 'a': {'a': ''}, 'a:1': {'a': 1, 'b': 'x-1'}, 't: true ': {'t': True, 'n': None},
                                 }[spec[0] if spec else None], 'submitted')
    env.check(row['attempt'] == 1 and row['retried'] is False, 'new task')
    env.check(all(row[k] is None for k in RUN_FIELDS) and row['previous_id'] is None, 'new task')
    env.check(sym_and(row['submit_id'] == INSTANCE, row['submit_host'] == HOSTNAME), 'submitter')
    env.check(sym_and(row['submit_time'].replace(tzinfo=None) <= mkdt(env.t, False),
                      row['submit_time'].replace(tzinfo=None) >= mkdt(10_000_000_000, False)), 'submit time')


def plain_text(v):
    """Values in plain text: texts as they are."""
    if v is None:
        return 'null'
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, dict):
        return json.dumps(v)
    if is_time(v):
        return v.replace(tzinfo=None).isoformat(sep=' ')
    return to_text(v)


@harness('K04', quick=[dict(d=2)], thorough=[dict(d=4)], covers=('field', 'json', 'yaml', 'normal', 'tag'))
def info_shows(env, d):
    """`hs task info` shows what is stored for that task, whatever the values."""
    put(env, 1, args='other', exit_status=1)
    row = full(env, 0, d)
    mode = env.choose('mode', ['field', 'json', 'yaml', 'normal', 'tag'])
    env.cover(mode)
    tty = mode in ('json', 'yaml', 'tag') and env.flag('terminal')
    if tty:
        colourless(env)
    if mode == 'field':
        field = env.choose('field', [f for f in ALL if f != 'tag'])
        got, out = command(env, task_mod.TaskInfoApp, [row['id'], '-x', field])
        env.check(out == plain_text(row[field]) + '\n', f'{field} is printed otherwise')
    elif mode == 'tag':
        how = env.choose('how', [[], ['--json'], ['--yaml']])
        got, out = command(env, task_mod.TaskInfoApp, [row['id'], '-x', 'tag'] + how, tty=tty)
        if how:
            tags_equal(env, parsed(out), row['tag'], 'printed')
        else:
            env.check(out == ', '.join(k if v == '' and isinstance(v, str) else f'{k}:{v}' for k, v in row['tag'].items()) + '\n',
                      'printed tags')
    elif mode == 'normal':
        got, out = command(env, task_mod.TaskInfoApp, [row['id']])
        normal(env, out, row)
    else:
        got, out = command(env, task_mod.TaskInfoApp, [row['id'], '-f', mode], tty=tty)
        same_json(env, parsed(out), row)
    env.check(got == 0, 'info fails')


def normal(env, out, row):
    lines = out.split('\n')
    found = {}
    for line in lines:
        if not line.strip():
            continue
        k, v = line.split(': ', 1) if ': ' in line else (line, '')
        found[k.strip()] = v
    for k in ('id', 'args', 'command', 'exit_status', 'attempt', 'retried', 'outpath', 'errpath', 'previous_id', 'next_id'):
        env.check(found[k] == plain_text(row[k]), f'{k} is shown otherwise')
    for k, f in (('submitted', 'submit_time'), ('scheduled', 'schedule_time')):
        env.check(found[k] == plain_text(row[f]), f'{f} is shown otherwise')
    for k, f, g in (('started', 'start_time', 'waited'), ('completed', 'completion_time', 'duration')):
        t = 'null' if row[g] is None else to_text(make_timedelta(seconds=row[g]))
        env.check(found[k] == plain_text(row[f]) + f' ({g}: ' + t + ')', f'{f} or {g} is shown otherwise')
    for k in ('submit', 'server', 'client'):
        env.check(found[k + '_host'] == plain_text(row[k + '_host']) + ' (' + plain_text(row[k + '_id']) + ')', f'{k} is shown otherwise')


@harness('K04', quick=[dict()], covers=('unknown', 'bad', 'none', 'missing'))
def info_fails(env):
    """A wrong id or output that was not captured is an error, not other output."""
    files = Files(env)
    row = put(env, 0, exit_status=0, client_host=HOSTNAME)
    what = env.choose('what', ['unknown', 'bad', 'none', 'missing'])
    env.cover(what)
    app = env.choose('app', [task_mod.TaskInfoApp, task_mod.TaskWaitApp])
    if what in ('none', 'missing') and app is task_mod.TaskWaitApp:
        env.end('wait prints no output')
    if what == 'missing':
        env.db.update('task', row['id'], outpath='/nowhere', errpath='/nowhere')
    id = {'unknown': '00000000-0000-0000-0000-00000000beef', 'bad': 'not-an-id'}.get(what, row['id'])
    err = Out()
    env.on_sleep = lambda secs: env.fail('waits for an unknown task')
    got, out = command(env, app, [id] + (['--stderr' if env.flag('err') else '--stdout'] if what in ('none', 'missing') else []),
                       err=err)
    env.check(sym_and(got != 0, out == '', err.text == ''), 'no error')


def split_csv(text, delimiter):
    """RFC 4180."""
    rows, row, field, quoted, start = [], [], '', False, True
    i = 0
    chars = chars_of(text) if is_sym(text) else list(text)

    def is_(c, x):
        return not isinstance(c, Tok) and bool(mkstr([c]) == x)
    n = len(chars)
    while i < n:
        c = chars[i]
        if quoted:
            if is_(c, '"'):
                if i + 1 < n and is_(chars[i + 1], '"'):
                    field = field + '"'
                    i += 1
                else:
                    quoted = False
            else:
                field = field + mkstr([c])
        elif start and is_(c, '"'):
            quoted = True
            start = False
        elif is_(c, delimiter):
            row.append(field)
            field, start = '', True
        elif is_(c, '\r') or is_(c, '\n'):
            if is_(c, '\r') and i + 1 < n and is_(chars[i + 1], '\n'):
                i += 1
            rows.append(row + [field])
            row, field, start = [], '', True
        else:
            field = field + mkstr([c])
            start = False
        i += 1
    if row or not start:
        rows.append(row + [field])
    return rows


@harness('K04', quick=[dict(d=2)], thorough=[dict(d=3)], covers=('json', 'csv', 'plain', 'normal', 'all'))
def search_formats(env, d):
    """Search prints the selected fields of every listed task as stored, in every format."""
    rows = [full(env, 0, d), put(env, 1, args='b "c",d', tag={'k': 'v'}, exit_status=env.choose('other', [None, 3]))]
    fields = env.choose('fields', [['args'], ['exit_status', 'args'], ['id', 'tag', 'command', 'retried'], ['completion_time', 'attempt', 'errpath'], [], list(Task.columns)[::-1]])
    how = env.choose('format', ['json', 'csv', 'plain', 'normal'])
    if how == 'normal' and fields:
        env.end('normal output is for whole tasks')
    env.cover(how)
    if not fields:
        env.cover('all')
    delimiter = env.choose('delimiter', [None, ';', '  ']) if how in ('csv', 'plain') else None
    if how == 'csv' and delimiter == '  ':
        env.end('csv needs one character')
    tty = how == 'json' and env.flag('terminal')
    if tty:
        colourless(env)
    argv = list(fields) + ['-s', 'submit_time'] + (['-f', how] if how != 'plain' or not fields else [])
    if delimiter:
        argv += ['-d', delimiter]
    got, out = command(env, task_mod.TaskSearchApp, argv, tty=tty)
    env.check(got == 0, 'search fails')
    names = fields or list(Task.columns)
    if how == 'json':
        data = parsed(out)
        env.check(len(data) == 2, 'number of results')
        for r, p in zip(rows, data):
            same_json(env, p, r, fields=names)
    elif how == 'csv':
        lines = split_csv(out, delimiter or ',')
        env.check(len(lines) == 3 and lines[0] == list(names), 'header or number of lines')
        for r, line in zip(rows, lines[1:]):
            env.check(len(line) == len(names), 'number of columns')
            for k, v in zip(names, line):
                env.check(v == plain_text(r[k]), f'{k} in csv')
    elif how == 'plain':
        want = ''
        for r in rows:
            for n, k in enumerate(names):
                want = want + (('\t' if delimiter is None else delimiter) if n else '') + plain_text(r[k])
            want = want + '\n'
        env.check(out == want, 'plain output')
    else:
        parts = out.split('---\n')
        env.check(len(parts) == 3 and parts[0] == '', 'number of results')
        for r, p in zip(rows, parts[1:]):
            normal(env, p, r)


@harness('K04', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('keys', 'values', 'empty'))
def tag_listing(env, n):
    """--tag-keys and --tag-values list every key, and every value of a key, once."""
    rows = []
    for i in range(n):
        t = env.choose(f'tags{i}', [{}, {'a': ''}, {'a': 'x', 'b': 1}, {'b': 'sym', 'c-d': 5}])
        if 'b' in t and t['b'] == 'sym':
            t = {**t, 'b': 'x' + env.chars(f'b{i}', 1, CharDomain('xyZ0+_'))}
        rows.append(put(env, i, tag=t))
    if env.flag('keys'):
        env.cover('keys')
        got, out = command(env, task_mod.TaskSearchApp, ['--tag-keys'])
        want = sorted({k for r in rows for k in r['tag']})
        env.check(sorted(ids_of(out)) == want, 'keys')
    else:
        env.cover('values')
        key = env.choose('key', ['a', 'b', 'c-d', 'zz'])
        got, out = command(env, task_mod.TaskSearchApp, [key, '--tag-values'])
        lines = out.split('\n')[:-1]
        have = [r['tag'][key] for r in rows if key in r['tag']]
        if not have:
            env.cover('empty')
        texts = [plain_text(v) for v in have]
        for i, line in enumerate(lines):
            env.check(sym_or(*[line == t for t in texts]), 'value of no task')
            for other in lines[:i]:
                env.check(sym_not(line == other), 'value listed twice')
        for t in texts:
            env.check(sym_or(*[line == t for line in lines]), 'value not listed')
    env.check(got == 0, 'fails')
