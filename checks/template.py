"""Template expansion (T01-T04)."""
import subprocess
from sx.env import harness
from sx.core import sym_and, sym_or, sym_not, sym_implies, CharDomain, is_sym
from hypershell.core.template import Template
from hypershell.core.types import smart_coerce

TEXT = CharDomain([chr(c) for c in range(0x20, 0x7f)])
PLAIN = CharDomain([chr(c) for c in range(0x20, 0x7f) if chr(c) not in '{}'])
SMALL = CharDomain('{}./-+=% a')


def expand(template, args):
    """Expansion text, or None if the template is rejected."""
    try:
        return Template(template).expand(args)
    except Template.Error:
        return None


# -- reference model of the documented path shorthands -----------------------------

def ref_split(p):
    """(directory, name) of a path."""
    i = len(p)
    while i > 0 and p[i - 1] != '/':
        i -= 1
    head, name = p[:i], p[i:]
    k = len(head)
    while k > 0 and head[k - 1] == '/':
        k -= 1
    return (head[:k] if k > 0 else head), name


def ref_ext(p):
    """(path without extension, extension)."""
    i = len(p) - 1
    while i >= 0 and p[i] != '/' and p[i] != '.':
        i -= 1
    if i < 0 or p[i] == '/':
        return p, ''
    k = i - 1
    while k >= 0 and p[k] == '.':
        k -= 1
    if k < 0 or p[k] == '/':       # leading dots only: hidden file, no extension
        return p, ''
    return p[:i], p[i:]


def ref_simple(key, args):
    if key == '':
        return args
    if key == '.':
        return ref_split(args)[0]
    if key == '..':
        return ref_split(ref_split(args)[0])[0]
    if key == '/':
        return ref_split(args)[1]
    if key == '/-':
        return ref_ext(ref_split(args)[1])[0]
    if key == '-':
        return ref_ext(args)[0]
    if key == '+':
        return ref_ext(args)[1]
    if key == '++':
        e = ref_ext(args)[1]
        return e[1:] if e else ''
    return None


SIMPLE = ['', '.', '..', '/', '/-', '-', '+', '++']


def ref_expand(t, args):
    """None: rejected.  False: outside the reference (slice, lambda, shell)."""
    out, i, n = '', 0, len(t)
    while i < n:
        if t[i] == '{':
            j = i + 1
            while j < n and t[j] != '}':
                j += 1
            if j < n:
                key = t[i + 1:j].strip()
                hit = None
                for k in SIMPLE:
                    if key == k:
                        hit = ref_simple(k, args)
                if hit is None:
                    if len(key) > 1 and sym_or(key[0] == '=', key[0] == '%'):
                        return False
                    return None
                out = out + hit
                i = j + 1
                continue
        out = out + t[i]
        i += 1
    return out


@harness('T01', quick=[dict(lits=(2, 2, 1), n=2)], thorough=[dict(lits=(3, 3, 2), n=3)], covers=('expanded',))
def literals(env, lits, n):
    """Literal text around placeholders is preserved; arguments are inserted verbatim."""
    a = env.text('lit0', lits[0], domain=PLAIN)
    b = env.text('lit1', lits[1], domain=PLAIN)
    c = env.text('lit2', lits[2], domain=PLAIN)
    pad = env.choose('pad', ['', ' ', '  '])
    args = env.text('args', n, domain=TEXT)
    got = expand(a + '{' + pad + '}' + b + '{}' + c, args)
    env.observe('got', got)
    env.cover('expanded')
    env.check(got is not None, 'a plain placeholder is rejected')
    env.check(got == a + args + b + args + c, 'literal text or arguments changed by expansion')


@harness('T01', quick=[dict(k=14, n=1)], thorough=[dict(k=40, n=2)], covers=('many',))
def many_placeholders(env, k, n):
    """However many placeholders a template has, each is expanded."""
    args = env.text('args', n, domain=TEXT)
    lit = env.chars('lit', 1, PLAIN)
    got = expand(''.join(lit + '{}' for _ in range(k)) + lit, args)
    env.cover('many')
    env.check(got is not None, 'a template of many placeholders is rejected')
    env.check(got == ''.join(lit + args for _ in range(k)) + lit, 'a placeholder of many is not expanded')


@harness('T01', quick=[dict(n=4)], thorough=[dict(n=6)])
def no_placeholder(env, n):
    t = env.text('template', n, domain=PLAIN)
    args = env.text('args', 2, domain=TEXT)
    got = expand(t, args)
    env.observe('got', got)
    env.check(got == t, 'a template without placeholders changed')


@harness('T01', quick=[dict(n=4), dict(n=5)], thorough=[dict(n=6)], covers=('expanded', 'rejected'))
def any_template(env, n):
    """Every template over a small alphabet against a reference parser."""
    t = env.chars('template', n, SMALL)
    args = 'd.x/b.c'
    want = ref_expand(t, args)
    if want is False:
        env.end('outside')
    got = expand(t, args)
    env.observe('got', got)
    if want is None:
        env.cover('rejected')
        env.check(got is None, 'an unknown placeholder was accepted')
    else:
        env.cover('expanded')
        env.check(got is not None, 'a documented placeholder was rejected')
        env.check(got == want, 'wrong expansion')


PATH = CharDomain('/.ab')


@harness('T01', quick=[dict(n=2)], thorough=[dict(n=3)], covers=('lines',))
def several_lines(env, n):
    """A template of several lines, with a block in braces that is no placeholder."""
    block = CharDomain('a $1;\n')
    a = env.text('block0', n, domain=block)
    b = env.text('block1', n, domain=block)
    args = env.text('args', 1, domain=TEXT)
    text = 'awk \'{' + a + '\n' + b + '}\'\n'
    got = expand(text + '{}', args)
    env.cover('lines')
    env.observe('got', got)
    env.check(got is not None and got == text + args, 'text of a template of several lines changed')


@harness('T02', quick=[dict(n=5)], thorough=[dict(n=7)], covers=SIMPLE[1:])
def paths(env, n):
    """Every path text up to n characters against a reference model of the shorthands."""
    key = env.choose('key', SIMPLE[1:])
    args = env.text('args', n, domain=PATH)
    got = expand('<{' + key + '}>', args)
    env.cover(key)
    env.observe('got', got)
    env.check(got is not None, 'a documented path shorthand was rejected')
    env.check(got == '<' + ref_simple(key, args) + '>', 'wrong expansion of a path shorthand')


@harness('T02', quick=[dict(n=2)], thorough=[dict(n=3)])
def path_names(env, n):
    """Directory, stem and extension put together are found again."""
    word = CharDomain([chr(c) for c in range(0x20, 0x7f) if chr(c) not in './'])
    d = env.text('dir', n, 1, domain=word)
    e = env.text('dir2', n, 1, domain=word)
    f = env.text('stem', n, 1, domain=word)
    x = env.text('ext', n, 1, domain=word)
    top = env.choose('top', ['/', ''])
    args = top + d + '/' + e + '/' + f + '.' + x
    key, want = env.choose('key', [('.', 0), ('..', 1), ('/', 2), ('/-', 3), ('-', 4), ('+', 5), ('++', 6)])
    want = [top + d + '/' + e, top + d, f + '.' + x, f, top + d + '/' + e + '/' + f, '.' + x, x][want]
    got = expand('{' + key + '}', args)
    env.observe('got', got)
    env.check(got == want, 'wrong part of the path')


@harness('T03', quick=[dict(words=3)], thorough=[dict(words=4)], covers=('index', 'range', 'error'))
def slices(env, words):
    """Index and range selection of whitespace-delimited arguments, positive and negative."""
    k = env.count('count', 0, words)
    w = [env.chars(f'w{i}', 1 + (i == 1), CharDomain('ab-[{')) for i in range(k)]
    args = ''
    for i in range(k):
        args = args + (env.choose(f'sep{i}', [' ', '\t', '  ']) if i else '') + w[i]
    kind = env.choose('kind', ['index', 'range', 'step'])
    opt = [None] + list(range(-words - 1, words + 2))

    def num(name, options=opt):
        v = env.choose(name, options)
        return v, '' if v is None else str(v)
    if kind == 'index':
        v, s = num('index', opt[1:])
        got = expand('{[' + s + ']}', args)
        env.observe('got', got)
        if -k <= v < k:
            env.cover('index')
            env.check(got == w[v], 'wrong argument selected')
        else:
            env.cover('error')
            env.check(got is None, 'an argument that is not there was accepted')
        return
    if kind == 'range':
        (a, sa), (b, sb) = num('start'), num('stop')
        got = expand('{[' + sa + ':' + sb + ']}', args)
        want = w[a:b]
    else:
        a, sa = env.choose('start', [(None, ''), (0, '0'), (1, '1'), (-2, '-2')])
        b, sb = env.choose('stop', [(None, ''), (2, '2'), (-1, '-1')])
        c, sc = env.choose('step', [(1, '1'), (2, '2'), (-1, '-1'), (None, '')])
        got = expand('{[' + sa + ':' + sb + ':' + sc + ']}', args)
        want = w[a:b:c]
    env.cover('range')
    env.observe('got', got)
    text = ''
    for i, x in enumerate(want):
        text = text + (' ' if i else '') + x
    env.check(got is not None, 'a documented slice was rejected')
    env.check(got == text, 'wrong arguments selected')


@harness('T03', quick=[dict(words=12)], thorough=[dict(words=24)], covers=('index', 'range'))
def many_words(env, words):
    """Numbers of two digits, with many arguments."""
    w = [env.chars(f'w{i}', 1, CharDomain('ab-')) for i in range(words)]
    args = w[0]
    for x in w[1:]:
        args = args + ' ' + x
    i = env.choose('index', [10, -10, words - 1, -words, words, -words - 1])
    if env.flag('range'):
        j, c = env.choose('stop', [(None, 1), (words, 1), (-1, 1), (None, -1), (None, 10)])
        got = expand('{[%d:%s:%s]}' % (i, '' if j is None else j, '' if c == 1 else c), args)
        want = w[i:j:c]
    else:
        got = expand('{[%d]}' % i, args)
        want = [w[i]] if -words <= i < words else None
    env.cover('index' if want is None or len(want) == 1 else 'range')
    env.observe('got', got)
    if want is None:
        env.check(got is None, 'an argument that is not there was accepted')
        return
    text = ''
    for k, x in enumerate(want):
        text = text + (' ' if k else '') + x
    env.check(got is not None and got == text, 'wrong arguments selected')


@harness('T03', quick=[dict(n=3)], thorough=[dict(n=4)], covers=('accepted', 'rejected'))
def slice_text(env, n):
    """Only slice expressions are evaluated: any other text between the brackets is rejected."""
    s = env.text('key', n, domain=CharDomain('012:-+x ('))
    got = expand('{[' + s + ']}', 'a b c')
    env.observe('got', got)
    if got is not None:
        env.cover('accepted')
        for ch in s:
            env.check(sym_or(ch == ':', ch == '-', ch == '0', ch == '1', ch == '2'), 'a non-slice expression was evaluated')
    else:
        env.cover('rejected')


class Shell:
    """Stand-in for the shell process."""
    def __init__(self, out):
        self.out = out
        self.args = None
        self.returncode = 0
        self.stdout = self.stderr = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def communicate(self, input=None, timeout=None):
        return self.out, None

    def poll(self):
        return 0

    def wait(self, timeout=None):
        return 0


NOPCT = CharDomain([chr(c) for c in range(0x20, 0x7f) if chr(c) not in '{}'])


@harness('T04', quick=[dict(n=3, m=2)], thorough=[dict(n=4, m=3)], covers=('shell',))
def shell(env, n, m):
    """The command between {% and %} is run as written with every @ replaced by the arguments."""
    body = env.text('body', n, domain=NOPCT)
    if env.flag('inner'):
        body = 'e' + body + 'o'
    args = env.text('args', m, domain=TEXT)
    seen = []

    def popen(cmd, *a, **kw):
        seen.append((cmd, kw.get('shell')))
        return Shell(b' out\n')
    env.on_popen = popen
    got = expand('<{% ' + body + ' %}>', args)
    env.cover('shell')
    env.check(got is not None and len(seen) == 1, 'shell expansion did not run one command')
    cmd, sh = seen[0]
    want = ''
    for ch in body:
        want = want + (args if ch == '@' else ch)
    env.observe('cmd', cmd)
    env.check(cmd.strip() == want.strip(), 'the shell command is not the one written in the template')
    env.check(sh is True, 'not run by the shell')
    env.check(got == '<out>', 'output of the command not inserted')


@harness('T04', quick=[dict()], covers=('value',))
def expressions(env):
    """Expressions over the coerced argument, including ones containing '='."""
    digits = env.text('v', 3, 1, domain=CharDomain('0123456789'))
    digits = ('-' if env.flag('neg') else '') + digits
    v = int(digits)
    text, want = env.choose('expr', [
        ('x', lambda x: x), ('x + 1', lambda x: x + 1), ('x * 2 - 3', lambda x: x * 2 - 3),
        ('x == 7', lambda x: x == 7), ('x >= 10', lambda x: x >= 10), ('(x != 3) * 5', lambda x: (x != 3) * 5),
        ("'a' if x <= 0 else 'b'", lambda x: 'a' if x <= 0 else 'b'), ('max([x, 3], key=lambda y: y)', lambda x: max(x, 3)),
        ('path.join("a", "b")', lambda x: 'a/b'), ('math.floor(2.5)', lambda x: 2), ('os.sep', lambda x: '/'),
        ('dt.timedelta(seconds=1)', lambda x: '0:00:01'), ('"a  b"', lambda x: 'a  b')])
    pad = env.choose('pad', ['', ' '])
    if text not in ('x', 'x + 1', 'x == 7', 'x >= 10'):
        v = env.choose('value', [0, 3, 7, 10, -4])
        digits = str(v)
    k = v
    got = expand('{=' + pad + text + pad + '=}', digits)
    env.cover('value')
    env.observe('got', got)
    env.check(got == str(want(k)), 'wrong value of an expression')


@harness('T04', quick=[dict()], covers=('same', 'other'))
def expressions_in_turn(env):
    """Tasks one after the other, with one template or several: each gets the value for its own argument."""
    expr = env.choose('expr', [['x'], ['type(x).__name__'], ['x', 'x + 1'], ['[x]', '[ x ]']])
    values = ['1', 'true', '1.0', '0', 'False', 'a']
    template = [Template('{=' + e + '=}') for e in expr]
    for k in range(3):
        v = env.choose(f'value{k}', values)
        i = k % len(expr)
        if expr[i] == 'x + 1' and v == 'a':
            env.end('no sum')
        got = template[i].expand(v)
        want = str(eval(expr[i], {'x': {'1': 1, 'true': True, '1.0': 1.0, '0': 0, 'False': False, 'a': 'a'}[v]}))
        env.observe('got', got)
        env.cover('same' if len(expr) == 1 else 'other')
        env.check(got == want, 'wrong value of an expression after another')


@harness('T04', quick=[dict(n=3)], thorough=[dict(n=4)], covers=('text', 'blank'))
def text_expressions(env, n):
    """An expression gets text arguments as they are."""
    args = env.text('args', n, 1, domain=CharDomain('ab \t'))
    if not isinstance(smart_coerce(args), str):
        env.end('not text')
    env.cover('text')
    if args.strip() != args:
        env.cover('blank')
    got = expand('<{=x + "|"=}>', args)
    env.observe('got', got)
    env.check(got is not None and got == '<' + args + '|>', 'wrong value of an expression on text')


WORDS = CharDomain('nulNULoeEtrfas')


@harness('T04', quick=[dict(n=3)], thorough=[dict(n=5)], covers=('int', 'str', 'float', 'exponent', 'word'))
def coercion(env, n):
    """Text becomes None, bool, int or float exactly when it reads as one; any other text stays as it is."""
    kind = env.choose('kind', ['int', 'word', 'text', 'float', 'exponent'])
    if kind == 'int':
        digits = env.text('digits', n, 1, domain=CharDomain('0123456789'))
        neg = env.flag('neg')
        got = smart_coerce(('-' if neg else '') + digits)
        want = 0
        for ch in digits:
            want = want * 10 + (ord(ch) - 48)
        env.observe('got', got)
        env.cover('int')
        env.check(isinstance(got, int) and not isinstance(got, bool), 'integer text is not an integer')
        env.check(got == (-want if neg else want), 'wrong integer')
    elif kind == 'float':
        a = env.text('whole', 2, 1, domain=CharDomain('0123456789'))
        b = env.text('frac', 1, 1, domain=CharDomain('0123456789'))
        got = smart_coerce(a + '.' + b)
        env.cover('float')
        env.check(isinstance(got, float), 'decimal text is not a float')
        w = 0
        for ch in a + b:
            w = w * 10 + (ord(ch) - 48)
        env.check(got * 10 == w, 'wrong decimal value')
    elif kind == 'exponent':
        d = env.chars('mantissa', 1, CharDomain('0123456789'))
        a = ord(d) - 48
        b = env.choose('exponent', [0, 1, 3, -1, -3])
        form = env.choose('form', ['%se%s', '%sE%s', '%s.e%s', '+%se%s'])
        got = smart_coerce(form % (d, str(b)))
        env.cover('exponent')
        env.observe('got', got)
        env.check(isinstance(got, float), 'a number with an exponent is not a float')
        env.check(got == float(a * 10 ** b) if b >= 0 else got * 10 ** -b == a, 'wrong value of a number with an exponent')
    elif kind == 'word':
        s = env.text('word', n + 1, 1, domain=WORDS)
        got = smart_coerce(s)
        low = s.lower()
        if sym_or(low == 'null', low == 'none'):
            env.cover('word')
            env.check(got is None, 'null is not None')
        elif low == 'true':
            env.check(sym_and(isinstance(got, bool), got == True), 'true is not True')
        elif low == 'false':
            env.check(sym_and(isinstance(got, bool), got == False), 'false is not False')
        elif sym_or(low == 'nan', low == 'inf'):
            return
        else:
            env.check(isinstance(got, str), 'a word was coerced')
            env.check(got == s, 'a word changed')
    else:
        s = env.text('text', n, domain=TEXT)
        letters = sym_or(*[sym_or(sym_and('a' <= ch, ch <= 'z'), sym_and('A' <= ch, ch <= 'Z')) for ch in s])
        got = smart_coerce(s)
        env.observe('got', got)
        if isinstance(got, str):
            env.cover('str')
            env.check(got == s, 'uncoerced text changed')
            digits = sym_and(len(s) > 0, *[sym_and('0' <= ch, ch <= '9') for ch in s])
            env.check(sym_not(digits), 'integer text is not an integer')
        elif got is None or isinstance(got, bool):
            env.check(letters, 'text without letters became a keyword value')
        elif isinstance(got, int):
            for ch in s:
                env.check(sym_or(sym_and('0' <= ch, ch <= '9'), ch == '-', ch == '+', ch == '_', ch == ' '),
                          'text that is not an integer became one')
