"""Models of builtins, C functions and library calls on symbolic values; dispatch used by instrumented code."""
from __future__ import annotations
import builtins
import csv
import functools
import io
import json
import math
import os
import re
import copy
import types
import datetime as _dt
import urllib.parse
import yaml
import z3
from . import rx
from .core import (sym_ite, Sym, SymBool, SymInt, SymReal, SymStr, SymBytes, SymJson, SymDatetime, SymTimedelta, SChar, Tok,
                   Unsupported, PathEnd, eng, is_sym, mkstr, mkint, mkdt, chars_of, concretize, concretize_str,
                   char_test, char_eq, lift_bool, sym_and, sym_or, sym_not, zint, str_eq, lift_num, CharDomain,
                   in_ranges, ISO, REAL_DATETIME, REAL_TIMEDELTA, EPOCH, us_dt)

_real_type = builtins.type
_METH = type(re.compile('').search)


def has_sym(x, depth=2):
    """Does x contain a symbolic value (bounded depth)?"""
    if isinstance(x, Sym):
        return True
    if depth == 0:
        return False
    t = _real_type(x)
    if t in (list, tuple, set, frozenset):
        return builtins.any(has_sym(v, depth - 1) for v in x)
    if t is dict or (isinstance(x, dict)):
        return builtins.any(has_sym(v, depth - 1) or isinstance(k, Sym) for k, v in x.items())
    return False


# ---------------------------------------------------------------------------
# text rendering

def to_text(x):
    """str(x)"""
    if not isinstance(x, Sym):
        if has_sym(x, 4):
            if isinstance(x, BaseException):
                return SymStr([Tok('str', x)])
            return render(x)
        if isinstance(x, BaseException) and has_sym(x.args):
            if len(x.args) == 1:
                return to_text(x.args[0])
            return SymStr([Tok('exc', x)])
        m = getattr(_real_type(x), '__str__', None)
        if isinstance(m, types.FunctionType):
            return m(x)
        return str(x)
    t = _real_type(x)
    if t is SymStr:
        return x
    if t is SymJson:
        return x._text()
    if t is SymBool:
        return 'True' if x else 'False'
    if t is SymDatetime:
        return x.isoformat(sep=' ')
    return SymStr([Tok('str', x)])


def render(x):
    """repr(x)"""
    t = _real_type(x)
    if t is list:
        return _join('[', ', ', ']', [render(v) for v in x])
    if t is tuple:
        return _join('(', ', ', ',)' if len(x) == 1 else ')', [render(v) for v in x])
    if t is dict:
        return _join('{', ', ', '}', [render(k) + ': ' + render(v) for k, v in x.items()])
    if t is SymBool:
        return 'True' if x else 'False'
    if t is SymInt:
        return SymStr([Tok('str', x)])
    if isinstance(x, Sym):
        return SymStr([Tok('repr', x)])
    m = getattr(t, '__repr__', None)
    if isinstance(m, types.FunctionType):
        return m(x)
    return repr(x)


def _join(a, sep, b, items):
    r = a
    for n, i in enumerate(items):
        r = r + (sep if n else '') + i
    return r + b


def fstr(parts):
    """parts: str | (value, conversion, spec)"""
    out = []
    for p in parts:
        if isinstance(p, str) and not isinstance(p, Sym):
            out += list(p)
            continue
        v, conv, spec = p
        if conv == 's':
            v = to_text(v)
        elif conv == 'r':
            v = render(v)
        elif conv == 'a':
            v = ascii(v)
        out += chars_of(do_format(v, spec))
    return mkstr(out)


def do_format(v, spec=''):
    if isinstance(spec, Sym):
        raise Unsupported('symbolic format spec')
    if not isinstance(v, Sym):
        if spec == '':
            if has_sym(v, 4) or isinstance(v, BaseException):
                return to_text(v)
            m = getattr(_real_type(v), '__format__', None)
            if _real_type(v).__str__ is not object.__str__ and isinstance(getattr(_real_type(v), '__str__', None),
                                                                      types.FunctionType):
                return to_text(v)
        return format(v, spec)
    if spec == '':
        return to_text(v)
    if _real_type(v) is SymStr:
        m = re.fullmatch(r'(.?[<>^])?(\d+)?s?', spec)
        if m and m.group(2) and not any(isinstance(c, Tok) for c in v.chars):
            w = int(m.group(2)) - len(v)
            al = (m.group(1) or '<')[-1]
            fill = m.group(1)[0] if m.group(1) and len(m.group(1)) > 1 else ' '
            if w > 0:
                l = {'<': 0, '>': w, '^': w // 2}[al]
                return fill * l + v + fill * (w - l)
            return v
    return SymStr([Tok('format ' + spec, v)])


def percent_format(fmt, arg):
    args = arg if isinstance(arg, tuple) else (arg,)
    out, i, n = '', 0, 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([sdrifxXc%])', fmt):
        out = out + fmt[i:m.start()]
        i = m.end()
        if m.group(3) == '%':
            out = out + '%'
            continue
        if m.group(1):
            v = arg[m.group(1)]
        else:
            v = args[n]
            n += 1
        if not has_sym(v):
            out = out + ('%' + m.group(2) + m.group(3)) % (v,)
        elif m.group(3) == 's' and not m.group(2):
            out = out + to_text(v)
        elif m.group(3) == 'd' and not m.group(2):
            out = out + to_text(v)
        elif m.group(3) == 'r' and not m.group(2):
            out = out + render(v)
        else:
            out = out + SymStr([Tok('percent ' + m.group(0), v)])
    return out + fmt[i:]


def str_format(fmt, *args, **kw):
    import string
    out, auto = '', 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out = out + lit
        if field is None:
            continue
        first, rest = __import__('_string').formatter_field_name_split(field)
        if first == '':
            first = auto
            auto += 1
        v = args[first] if isinstance(first, int) else kw[first]
        for is_attr, name in rest:
            v = getattr(v, name) if is_attr else v[name]
        out = out + fstr([(v, conv, spec)])
    return out


# ---------------------------------------------------------------------------
# numbers from text

def _digits_value(cs):
    e = z3.IntVal(0)
    for c in cs:
        d = z3.IntVal(ord(c) - 48) if isinstance(c, str) else c.e - 48
        e = e * 10 + d
    return mkint(z3.simplify(e))


_isdig = lambda c: char_test(c, 'asciidigit', lambda ch: ch in '0123456789')


def _has_unicode_digit(cs):
    return sym_or(*[char_test(c, 'nonasciidecimal', lambda ch: ch.isdecimal() and not ch.isascii()) for c in cs])


def parse_int(x, base=10):
    t = _real_type(x)
    if t is SymStr:
        if len(x.chars) == 1 and isinstance(x.chars[0], Tok):
            tok = x.chars[0]
            if tok.kind == 'str' and _real_type(tok.value) is SymInt:
                return tok.value
            raise ValueError('invalid literal for int()')
        if base != 10:
            return int(concretize_str(x), base)
        s = x.strip()
        cs = chars_of(s)
        neg = False
        if cs and bool(char_eq(cs[0], '-')):
            neg, cs = True, cs[1:]
        elif cs and bool(char_eq(cs[0], '+')):
            cs = cs[1:]
        prev = False
        digits = []
        if not cs:
            raise ValueError("invalid literal for int() with base 10")
        if _has_unicode_digit(cs):
            raise Unsupported('non-ascii digits')
        for i, c in enumerate(cs):
            if _isdig(c):
                digits.append(c)
                prev = True
            elif prev and i + 1 < len(cs) and char_eq(c, '_'):
                prev = False
            else:
                raise ValueError("invalid literal for int() with base 10")
        v = _digits_value(digits)
        return -v if neg else v
    if t is SymInt:
        return x
    if t is SymBool:
        return mkint(zint(x))
    if t is SymReal:
        return x.__trunc__()
    raise TypeError(f'int() argument must be a string or a number, not {t.__name__}')


FLOAT_RE = re.compile(r'\s*[-+]?(?:(?:\d(?:_?\d)*)(?:\.(?:\d(?:_?\d)*)?)?|\.\d(?:_?\d)*)(?:[eE][-+]?\d(?:_?\d)*)?\s*\Z'
                      r'|\s*[-+]?(?:inf(?:inity)?|nan)\s*\Z', re.I)


class FloatOf(Tok):
    pass


def parse_float(x):
    t = _real_type(x)
    if t is SymStr:
        if len(x.chars) == 1 and isinstance(x.chars[0], Tok):
            v = x.chars[0].value
            if _real_type(v) in (SymInt, SymReal):
                return SymReal(z3.ToReal(v.e) if _real_type(v) is SymInt else v.e)
            raise ValueError('could not convert string to float')
        if not rx.match(FLOAT_RE, x):
            raise ValueError('could not convert string to float')
        s = x.strip()
        m = rx.fullmatch(re.compile(r'([-+]?)(\d*)(?:\.(\d*))?'), s)
        if m is None:
            return float(concretize_str(x))
        sign, ip, fp = m.groups('')
        e = z3.ToReal(zint(_digits_value(chars_of(ip))))
        if len(fp):
            e = e + z3.ToReal(zint(_digits_value(chars_of(fp)))) / (10 ** len(fp))
        if len(sign) and bool(sign == '-'):
            e = -e
        return SymReal(z3.simplify(e))
    if t is SymInt:
        return SymReal(z3.ToReal(x.e))
    if t is SymBool:
        return SymReal(z3.ToReal(zint(x)))
    if t is SymReal:
        return x
    raise TypeError('float() argument')


# ---------------------------------------------------------------------------
# json

_JSON_SCALARS = (str, int, float, bool, type(None))


def _json_copy(x, default=None):
    if isinstance(x, Sym):
        t = _real_type(x)
        if t in (SymBool, SymInt, SymReal, SymStr):
            return x
        if default is not None:
            return _json_copy(default(x), default)
        raise TypeError(f'Object of type {t.__name__} is not JSON serializable')
    if x is None or _real_type(x) in (str, int, float, bool):
        return x
    if isinstance(x, (list, tuple)):
        return [_json_copy(v, default) for v in x]
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if isinstance(k, Sym):
                k = k if _real_type(k) is SymStr else to_text(k)
                out_set(out, k, _json_copy(v, default))
                continue
            if k is True or k is False or k is None:
                k = {True: 'true', False: 'false', None: 'null'}[k]
            elif isinstance(k, (int, float)):
                k = repr(k)
            elif not isinstance(k, str):
                raise TypeError('keys must be str, int, float, bool or None')
            out[k] = _json_copy(v, default)
        return out
    if isinstance(x, (str, int, float)):
        return x
    if default is not None:
        return _json_copy(default(x), default)
    raise TypeError(f'Object of type {_real_type(x).__name__} is not JSON serializable')


def json_dumps(x, **kw):
    default = kw.get('default')
    copied = _json_copy(x, default)
    if not has_sym(copied, 8):
        return json.dumps(copied, **{k: v for k, v in kw.items() if k != 'default'})
    t = _real_type(copied)
    if t is SymStr:
        return json_text(copied)
    if t is SymInt:
        return to_text(copied)
    if t is SymBool:
        return 'true' if copied else 'false'
    return SymJson(copied)


def json_text(s):
    """JSON text of a symbolic string."""
    out = ['"']
    for c in s.chars:
        if isinstance(c, str):
            out += list(json.dumps(c)[1:-1])
        elif isinstance(c, SChar):
            special = [x for x in sorted(c.dom.chars) if json.dumps(x) != f'"{x}"']
            for x in special:
                if bool(mkstr([c]) == x):
                    out += list(json.dumps(x)[1:-1])
                    break
            else:
                out.append(c)
        elif c.kind in ('str',) + ISO:
            out.append(c)
        else:
            raise Unsupported(f'JSON text of {c.kind}')
    return mkstr(out + ['"'])


def yaml_dump(x, *a, **kw):
    if not has_sym(x, 8):
        return yaml.dump(x, *a, **kw)
    return SymStr([Tok('yaml', _json_copy(x)), '\n'])


class CsvWriter:
    """csv.writer for symbolic text (excel dialect, minimal quoting)."""

    def __init__(self, out, dialect='excel', delimiter=',', **kw):
        if kw or dialect != 'excel':
            raise Unsupported('csv options')
        self.out = out
        self.delimiter = delimiter

    def field(self, v, alone):
        if v is None:
            v = ''
        v = to_text(v)
        if not is_sym(v):
            v = SymStr(list(v))
        quote = alone and not v.chars
        out = []
        for c in v.chars:
            if isinstance(c, Tok):
                if c.kind not in ('str',) + ISO:
                    quote = True       # JSON text of an object
                out.append(c)
                continue
            one = mkstr([c])
            if bool(one == '"'):
                quote = True
                out += ['"', '"']
                continue
            if bool(sym_or(*[one == x for x in self.delimiter + '\r\n'])):
                quote = True
            out.append(c)
        return mkstr(['"'] + out + ['"']) if quote else mkstr(out)

    def writerow(self, row):
        row = list(row)
        text = ''
        for n, v in enumerate(row):
            text = text + (self.delimiter if n else '') + self.field(v, len(row) == 1)
        self.out.write(text + '\r\n')

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


def json_loads(x, **kw):
    t = _real_type(x)
    if t is SymBytes:
        x = x.decode()
        t = _real_type(x)
    if t is SymJson:
        return copy_struct(x.value)
    if t is SymStr:
        return json_scan(x)
    return json.loads(x, **kw)


def json_scan(x):
    """json.loads of symbolic characters: decide well-formed scalars, else concretise."""
    s = x.strip(' \t\n\r')
    if not isinstance(s, Sym):
        return json.loads(s)
    m = rx.fullmatch(re.compile(r'-?(?:0|[1-9][0-9]*)'), s)
    if m is not None:
        return parse_int(s) if is_sym(s) else int(s)
    m = rx.fullmatch(re.compile(r'(-?(?:0|[1-9][0-9]*))(\.[0-9]+)?([eE][-+]?[0-9]+)?'), s)
    if m is not None:
        if m.group(3) is None:
            return parse_float(s)
        return json.loads(concretize_str(s))
    for word, val in (('true', True), ('false', False), ('null', None), ('NaN', math.nan), ('Infinity', math.inf),
                      ('-Infinity', -math.inf)):
        if bool(s == word):
            return val
    first = s[:1]
    if bool(first == '"'):
        m = rx.fullmatch(re.compile(r'"[^"\\\x00-\x1f]*"'), s)
        if m is not None:
            return s[1:-1]
        return json.loads(concretize_str(s))
    if bool(sym_or(first == '[', first == '{')):
        return json.loads(concretize_str(s))
    raise json.JSONDecodeError('Expecting value', '?', 0)


def copy_struct(x):
    if _real_type(x) is list:
        return [copy_struct(v) for v in x]
    if _real_type(x) is dict:
        return {k: copy_struct(v) for k, v in x.items()}
    return x


# ---------------------------------------------------------------------------
# datetime

def fromisoformat(cls, s):
    t = _real_type(s)
    if t is SymStr and len(s.chars) == 1 and isinstance(s.chars[0], Tok):
        tok = s.chars[0]
        if tok.kind in ISO:
            return tok.value
        raise ValueError('Invalid isoformat string')
    if t is SymJson:
        raise ValueError('Invalid isoformat string')
    if t is not SymStr:
        raise TypeError('fromisoformat: argument must be str')
    return _iso_symbolic(s)


_ISO_DATES = [re.compile(p) for p in (r'(\d{4})-(\d\d)-(\d\d)', r'(\d{4})(\d\d)(\d\d)')]
_ISO_TIMES = re.compile(r'(\d\d)(?::?(\d\d)(?::?(\d\d))?)?\Z')
_ISO_WEEK = re.compile(r'(\d{4})-?W(\d\d)(?:-?(\d))?')


def _iso_symbolic(s):
    """Subset of the ISO grammar accepted by CPython: calendar/week dates with optional time to seconds."""
    for p in _ISO_DATES:
        m = rx.match(p, s)
        if m is None:
            continue
        y, mo, d = (parse_int(g) if is_sym(g) else int(g) for g in m.groups())
        y, mo, d = (concretize_range(v, r) for v, r in ((y, None), (mo, (1, 12)), (d, (1, 31))))
        rest = s[m.end():]
        return _iso_finish(y, mo, d, rest)
    m = rx.match(_ISO_WEEK, s)
    if m is not None:
        raise Unsupported('ISO week date')
    raise ValueError('Invalid isoformat string')


def concretize_range(v, rng):
    if not is_sym(v):
        if rng and not rng[0] <= v <= rng[1]:
            raise ValueError('out of range')
        return v
    if rng is not None and not bool(sym_and(v >= rng[0], v <= rng[1])):
        raise ValueError('out of range')
    if rng is None and not bool(v >= 1):
        raise ValueError('year out of range')
    return v


def _iso_finish(y, mo, d, rest):
    if len(rest) == 0:
        return SymDatetime(SymInt(z3.Int(eng().fresh_name('iso!date'))), False)
    m = rx.match(_ISO_TIMES, rest[1:])
    if m is None:
        raise ValueError('Invalid isoformat string')
    return SymDatetime(SymInt(z3.Int(eng().fresh_name('iso!date'))), False)


def fromtimestamp(cls, t, tz=None):
    if _real_type(t) is SymReal or _real_type(t) is SymInt:
        e = t.e if _real_type(t) is SymReal else z3.ToReal(t.e)
        return SymDatetime(mkint(z3.simplify(z3.ToInt((e - int(EPOCH.timestamp())) * 1000000))), tz is not None)
    raise Unsupported('fromtimestamp')


def make_timedelta(*a, **k):
    names = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
    scale = dict(days=86400000000, seconds=1000000, microseconds=1, milliseconds=1000, minutes=60000000,
                 hours=3600000000, weeks=604800000000)
    vals = dict(zip(names, a))
    vals.update(k)
    total = 0
    for n, v in vals.items():
        x = v * scale[n]
        if _real_type(x) is SymReal:
            x = round(x)
        elif isinstance(x, float):
            x = round(x)
        total = total + x
    return SymTimedelta(total) if is_sym(total) else REAL_TIMEDELTA(microseconds=total)


# ---------------------------------------------------------------------------
# url quoting

_ALWAYS_SAFE = frozenset('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~')


def url_quote(s, safe='/', encoding=None, errors=None, plus=False):
    s = to_text(s) if not isinstance(s, str) else s
    safe = frozenset(safe if isinstance(safe, str) else safe.decode()) | _ALWAYS_SAFE
    out = []
    for c in chars_of(s):
        if isinstance(c, str):
            out += list('+' if plus and c == ' ' else urllib.parse.quote(c, safe=''.join(safe)))
        elif char_test(c, ('safe', tuple(sorted(safe))), lambda ch: ch in safe):
            out.append(c)
        elif plus and char_eq(c, ' '):
            out.append('+')
        elif char_test(c, 'ascii', str.isascii):
            hi, lo = mkint(z3.simplify(c.e / 16)), mkint(z3.simplify(c.e % 16))
            out += ['%', _hexchar(hi), _hexchar(lo)]
        else:
            raise Unsupported('non-ascii quoting')
    return mkstr(out)


HEXDOM = CharDomain('0123456789ABCDEF')


def _hexchar(v):
    if not is_sym(v):
        return '0123456789ABCDEF'[v]
    return SChar(z3.simplify(z3.If(v.e < 10, v.e + 48, v.e + 55)), HEXDOM)


def quote_plus(s, safe='', encoding=None, errors=None):
    return url_quote(s, safe=safe, plus=True)


def urlencode(query, doseq=False, safe='', encoding=None, errors=None, quote_via=None):
    items = query.items() if hasattr(query, 'items') else query
    via = urllib.parse.quote_plus if quote_via is None else quote_via
    out = ''
    for n, (k, v) in enumerate(items):
        if not isinstance(v, (str, int, float, bool, type(None))):
            raise Unsupported('urlencode nested')
        out = out + ('&' if n else '') + call(via, to_text(k), safe) + '=' + call(via, to_text(v), safe)
    return out


def unquote(s, encoding='utf-8', errors='replace', plus=False):
    cs = chars_of(s)
    out, i = [], 0
    ishex = lambda c: char_test(c, 'hex', lambda ch: ch in '0123456789abcdefABCDEF')
    while i < len(cs):
        c = cs[i]
        if i + 2 < len(cs) and char_eq(c, '%') and ishex(cs[i + 1]) and ishex(cs[i + 2]):
            v = _hexval(cs[i + 1]) * 16 + _hexval(cs[i + 2])
            if is_sym(v):
                out.append(SChar(v.e, FULLCHR))
            else:
                out.append(chr(v))
            i += 3
        elif plus and char_eq(c, '+'):
            out.append(' ')
            i += 1
        else:
            out.append(c)
            i += 1
    return mkstr(out)


def parse_qsl(qs, keep_blank_values=False, strict_parsing=False, *a, **k):
    out = []
    for part in (qs.split('&') if qs else []):
        if not part and not strict_parsing:
            continue
        name, eq, value = part.partition('=')
        if not eq and not keep_blank_values or not (value or keep_blank_values):
            continue
        out.append((unquote(name, plus=True), unquote(value, plus=True)))
    return out


FULLCHR = CharDomain([chr(i) for i in range(128)])


def _hexval(c):
    if isinstance(c, str):
        return int(c, 16)
    return SymInt(z3.If(c.e <= 57, c.e - 48, z3.If(c.e <= 70, c.e - 55, c.e - 87)))


# ---------------------------------------------------------------------------
# containers

def find_key(d, k):
    """Concrete key of mapping d equal to symbolic k on this path (forks), or None-marker."""
    t = _real_type(k)
    for key in list(d):
        if isinstance(key, Sym) or not isinstance(key, (str, int, float, bool)):
            if key is k:
                return key
            continue
        if t is SymStr:
            if isinstance(key, str) and bool(str_eq(k, key)):
                return key
        elif t in (SymInt, SymBool, SymReal):
            if not isinstance(key, str) and bool(k == key):
                return key
    return _MISSING


_MISSING = object()


def out_set(d, k, v):
    key = find_key(d, k)
    if key is _MISSING:
        key = concretize_str(k) if _real_type(k) is SymStr else concretize(k)
    d[key] = v


class SymKeyDict(dict):
    """Mapping able to hold symbolic string keys (association list semantics)."""


def contains(x, c):
    """x in c"""
    if isinstance(c, Sym):
        return c.__contains__(x)
    if isinstance(x, Sym):
        if isinstance(c, str):
            return SymStr(list(c)).__contains__(x) if _real_type(x) is SymStr else x in c
        if isinstance(c, (dict, set, frozenset, _dt.__class__)) or isinstance(c, (type({}.keys()),)):
            return find_key(c, x) is not _MISSING
        if isinstance(c, range):
            if c.step == 1:
                return bool(sym_and(x >= c.start, x < c.stop))
        if isinstance(c, type({}.values())):
            c = list(c)
        for item in c:
            if item is x or bool(_eq(item, x)):
                return True
        return False
    return x in c


def _eq(a, b):
    if isinstance(b, Sym) and not isinstance(a, Sym):
        return b == a
    return a == b


def getitem(o, k):
    if isinstance(o, Sym):
        return o[k]
    if isinstance(k, Sym):
        if isinstance(o, str):
            return o[concretize(k)]
        if isinstance(o, (list, tuple)):
            return o[concretize(k)]
        if isinstance(o, dict):
            key = find_key(o, k)
            if key is _MISSING:
                dflt = getattr(o, 'default_factory', None)
                if dflt or hasattr(type(o), '__missing__'):
                    return o[concretize_str(k)]
                raise KeyError(k)
            return o[key]
    elif _real_type(k) is slice and (isinstance(k.start, Sym) or isinstance(k.stop, Sym) or isinstance(k.step, Sym)):
        k = slice(*[None if v is None else concretize(v) if isinstance(v, Sym) else v for v in (k.start, k.stop, k.step)])
    return o[k]


def setitem(o, k, v):
    if isinstance(k, Sym):
        if isinstance(o, dict):
            out_set(o, k, v)
            return
        k = concretize(k)
    o[k] = v


# ---------------------------------------------------------------------------
# dispatch tables

def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_minmax(pick):
    def f(*args, key=None, default=_MISSING):
        items = list(args[0]) if len(args) == 1 else list(args)
        if not items:
            if default is _MISSING:
                raise ValueError('empty sequence')
            return default
        best = items[0]
        kb = key(best) if key else best
        for x in items[1:]:
            kx = key(x) if key else x
            if bool(pick(kx, kb)):
                best, kb = x, kx
        return best
    return f


def m_sorted(it, key=None, reverse=False):
    import functools
    items = list(it)
    keyed = [(key(x) if key else x, x) for x in items]
    out = []
    for k, x in (keyed[::-1] if reverse else keyed):   # stable insertion sort
        i = len(out)
        while i > 0 and bool(k < out[i - 1][0]):
            i -= 1
        out.insert(i, (k, x))
    r = [x for _, x in out]
    return r[::-1] if reverse else r


def m_any(it):
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    for x in it:
        if not x:
            return False
    return True


def m_print(*args, sep=' ', end='\n', file=None, flush=False):
    import sys
    text = ''
    for n, a in enumerate(args):
        text = text + (sep if n else '') + to_text(a)
    (file or sys.stdout).write(text + end)


def m_range(*a):
    if 1 < len(a) and isinstance(a[0], Sym) and (len(a) == 2 or a[2] == 1):
        out = []
        v = a[0]
        while v < a[1]:              # a short range somewhere: decide its length, not its place
            out.append(v)
            v = v + 1
            if len(out) > 300:
                raise Unsupported('long symbolic range')
        return out
    return range(*[concretize(x) if isinstance(x, Sym) else x for x in a])


def m_round(x, n=None):
    return x.__round__(n) if n is not None else x.__round__()


def m_type(x, *rest):
    if rest:
        return _real_type(x, *rest)
    return x.__class__ if isinstance(x, Sym) else _real_type(x)


def m_ord(c):
    ch = c.chars[0]
    return SymInt(ch.e) if isinstance(ch, SChar) else ord(ch)


def m_chr(i):
    return SymStr([SChar(i.e, FULLCHR)])


def m_eval(src, *a):
    return eval(concretize_str(src) if isinstance(src, Sym) else src, *a)


def m_bytes(x=b'', *a):
    if _real_type(x) is SymStr:
        return x.encode()
    raise Unsupported('bytes()')


def m_map(f, *its):
    for xs in zip(*its):
        yield call(f, *xs)


def m_filter(f, it):
    for x in it:
        if (call(f, x) if f else x):
            yield x


def m_isinstance(x, t):
    return isinstance(x, t)


def m_str(x='', *a):
    if a and _real_type(x) is SymBytes:
        return x.decode()
    return to_text(x)


def m_bool(x=False):
    # kept symbolic so that flags may be stored without forking
    if _real_type(x) is SymBool:
        return x
    return bool(x)


def m_pow(a, b, *m):
    return a ** b


def m_floor(x):
    return x.__floor__() if _real_type(x) is SymReal else x


def m_ceil(x):
    return x.__ceil__() if _real_type(x) is SymReal else x


def m_fspath(x):
    return x


def m_list(x=()):
    return list(x)


def m_copy(x):
    return x


def m_len(x):
    """len(x); text holding rendered instants or integers has a length that depends on the value."""
    if _real_type(x) is SymStr and builtins.any(isinstance(c, Tok) for c in x.chars):
        n = 0
        for c in x.chars:
            if not isinstance(c, Tok):
                n = n + 1
            elif c.kind in ISO:
                us = c.value.us
                base = 19 if not c.kind.endswith('+') else 25
                n = n + sym_ite(us % 1_000_000 == 0, base, base + 7)
            elif c.kind == 'str' and _real_type(c.value) is SymInt:
                v = c.value
                neg = sym_ite(v < 0, 1, 0)
                a = sym_ite(v < 0, -v, v)
                d = 1
                for k in range(1, 19):
                    d = d + sym_ite(a >= 10 ** k, 1, 0)
                n = n + d + neg
            else:
                raise Unsupported(f'length of rendered {c.kind}')
        return n
    return len(x)


_NONE, _MISSING = object(), object()


def m_getattr(obj, name, default=_NONE):
    """Attribute of symbolic name: one of those there are."""
    if is_sym(name):
        if hasattr(type(obj), '__getattr__'):
            raise Unsupported(f'attribute of symbolic name of {type(obj).__name__}')
        n = len(chars_of(name))
        if any(type(c) is Tok for c in chars_of(name)):
            raise Unsupported('attribute of rendered name')
        for k in dir(obj):
            if len(k) == n and bool(name == k):
                name = k
                break
        else:
            if default is not _NONE:
                return default
            raise AttributeError(f'{type(obj).__name__} has no such attribute')
    return getattr(obj, name) if default is _NONE else getattr(obj, name, default)


def m_hasattr(obj, name):
    return m_getattr(obj, name, _MISSING) is not _MISSING


BUILTINS = {
    getattr: m_getattr, hasattr: m_hasattr,
    len: m_len, str: m_str, int: parse_int, float: parse_float, bool: m_bool, repr: render, format: do_format, sum: m_sum,
    min: m_minmax(lambda a, b: a < b), max: m_minmax(lambda a, b: a > b), sorted: m_sorted, any: m_any, all: m_all,
    range: m_range, round: m_round, type: m_type, ord: m_ord, chr: m_chr, eval: m_eval, bytes: m_bytes,
    map: m_map, filter: m_filter,
    json.dumps: json_dumps, json.loads: json_loads, yaml.dump: yaml_dump,
    re.match: rx.match, re.search: rx.search, re.fullmatch: rx.fullmatch, re.finditer: rx.finditer,
    re.findall: rx.findall, re.sub: rx.sub, re.subn: rx.subn, re.split: rx.split,
    math.floor: m_floor, math.ceil: m_ceil, math.trunc: lambda x: x.__trunc__(),
    urllib.parse.quote: url_quote, urllib.parse.quote_plus: quote_plus, urllib.parse.urlencode: urlencode,
    urllib.parse.unquote: unquote, urllib.parse.parse_qsl: parse_qsl, urllib.parse.unquote_plus: lambda s, *a, **k: unquote(s, plus=True),
    os.fspath: m_fspath, os.fsdecode: m_fspath,
    copy.deepcopy: lambda x, memo=None: copy_struct(x), copy.copy: lambda x: copy_struct(x),
    _dt.timedelta: make_timedelta,
}

# always dispatched, whatever the arguments
ALWAYS = {print: m_print, csv.writer: CsvWriter}

_PATTERN_METHODS = {'match': rx.match, 'search': rx.search, 'fullmatch': rx.fullmatch, 'finditer': rx.finditer,
                    'findall': rx.findall, 'sub': None, 'subn': None, 'split': rx.split}

_STR_ARG_METHODS = {'join', 'find', 'rfind', 'index', 'rindex', 'count', 'startswith', 'endswith', 'split', 'rsplit',
                    'partition', 'rpartition', 'replace', 'strip', 'lstrip', 'rstrip', 'removeprefix', 'removesuffix',
                    '__contains__', '__add__', '__eq__', 'ljust', 'rjust', 'zfill'}


def _argsym(args, kw):
    for a in args:
        if isinstance(a, Sym):
            return True
        t = _real_type(a)
        if (t is list or t is tuple or t is dict) and has_sym(a, 4):
            return True
    for a in kw.values():
        if isinstance(a, Sym) or has_sym(a, 3):
            return True
    return False


class TextBuffer(io.StringIO):
    """io.StringIO holding symbolic text."""

    def __init__(self, text='', newline='\n'):
        super().__init__()
        self.parts = text

    def write(self, s):
        self.parts = self.parts + s
        return len(s) if not is_sym(s) else 0

    def getvalue(self):
        return self.parts

    def read(self, *a):
        raise Unsupported('reading a text buffer')

    readline = readlines = __iter__ = __next__ = read


_ITER = {any, all, sum, min, max, sorted}
PATCHES = {}      # real function -> stand-in, installed by harnesses (environment stubs)
CALLS = {'n': 0}


def call(f, *args, **kw):
    """Every call in instrumented code."""
    t = _real_type(f)
    if t is functools.partial:
        return call(f.func, *f.args, *args, **{**f.keywords, **kw})
    if t is types.FunctionType:
        if f in BUILTINS and (_argsym(args, kw) or f in (re.sub, re.subn) and len(args) > 1 and callable(args[1])):
            return BUILTINS[f](*args, **kw)
        return f(*args, **kw)
    if t is types.MethodType:
        fn = f.__func__
        s = f.__self__
        return f(*args, **kw)
    if t is types.BuiltinFunctionType or t is _METH:
        self = f.__self__
        if self is not None and not isinstance(self, types.ModuleType):
            return call_method(f, self, f.__name__, args, kw)
        if f in ALWAYS:
            return ALWAYS[f](*args, **kw)
        if f in _ITER:
            return BUILTINS[f](*args, **kw)
        if _argsym(args, kw):
            h = BUILTINS.get(f)
            if h is not None:
                return h(*args, **kw)
        return f(*args, **kw)
    if t is type or isinstance(f, type):
        if f is io.StringIO:
            return TextBuffer(*args, **kw)
        if f in BUILTINS:
            if f is str and len(args) == 1:
                return to_text(args[0])
            if f in (map, filter):
                return BUILTINS[f](*args, **kw)
            if _argsym(args, kw):
                return BUILTINS[f](*args, **kw)
        elif f is dict or f is list or f is tuple or f is set:
            return f(*args, **kw)
        return f(*args, **kw)
    if t is types.MethodDescriptorType and args:      # str.strip, str.lower used as functions
        if isinstance(args[0], Sym):
            return getattr(args[0], f.__name__)(*args[1:], **kw)
        if f.__objclass__ is str and _argsym(args, kw):
            return getattr(SymStr(list(args[0])), f.__name__)(*args[1:], **kw)
    return f(*args, **kw)


def call_method(f, self, name, args, kw):
    ts = _real_type(self)
    if ts is str:
        if name == 'format':
            if _argsym(args, kw):
                return str_format(self, *args, **kw)
        elif name == 'join':
            items = list(args[0])
            if has_sym(items, 1):
                return SymStr(list(self)).join(items)
            return self.join(items)
        elif _argsym(args, kw):
            return getattr(SymStr(list(self)), name)(*args, **kw)
        return f(*args, **kw)
    if ts is re.Pattern:
        if (builtins.any(isinstance(a, Sym) for a in args) or builtins.any(isinstance(a, Sym) for a in kw.values())
                or name in ('sub', 'subn') and args and callable(args[0])):      # whose result may be symbolic
            if name == 'sub':
                return rx.sub(self, *args, **kw)
            if name == 'subn':
                return rx.subn(self, *args, **kw)
            if name in ('match', 'search') and len(args) > 1:
                return _PATTERN_METHODS[name](self, args[0], 0, *args[1:])
            return _PATTERN_METHODS[name](self, *args, **kw)
        return f(*args, **kw)
    if isinstance(self, type) and issubclass(self, REAL_DATETIME):
        if name == 'fromisoformat' and isinstance(args[0], Sym):
            return fromisoformat(self, *args)
        if name == 'fromtimestamp' and isinstance(args[0], Sym):
            return fromtimestamp(self, *args, **kw)
        return f(*args, **kw)
    if isinstance(self, dict):
        if args and isinstance(args[0], Sym) and name in ('get', 'pop', 'setdefault', '__contains__', '__getitem__'):
            key = find_key(self, args[0])
            if name == '__contains__':
                return key is not _MISSING
            if key is _MISSING:
                if name == 'get':
                    return args[1] if len(args) > 1 else None
                if name == 'pop' and len(args) > 1:
                    return args[1]
                if name == 'setdefault':
                    out_set(self, args[0], args[1])
                    return args[1]
                raise KeyError(args[0])
            return f(key, *args[1:], **kw)
        if name == 'update' and args and _real_type(args[0]) in (list, tuple):
            for k, v in args[0]:
                setitem(self, k, v)
            return None
        return f(*args, **kw)
    if ts is list:
        if name == 'sort' and (has_sym(self, 2) or kw.get('key')):
            self[:] = m_sorted(self, **kw)
            return None
        if name == 'pop' and args and isinstance(args[0], Sym):
            return f(concretize(args[0]))
        return f(*args, **kw)
    if isinstance(self, REAL_DATETIME) or isinstance(self, REAL_TIMEDELTA):
        return f(*args, **kw)
    return f(*args, **kw)


def mod(a, b):
    if isinstance(a, str) and not isinstance(a, Sym) and has_sym(b, 3):
        return percent_format(a, b)
    return a % b


LOOP_LIMIT = 20000
_ticks = [0]


def tick():
    _ticks[0] += 1
    if _ticks[0] > LOOP_LIMIT:
        raise PathEnd('loop bound')


def reset_ticks():
    _ticks[0] = 0
