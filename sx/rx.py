"""Backtracking regular-expression matcher over symbolic strings (driven by CPython's own sre parser).

Alternatives are tried in the order CPython tries them; every character test is a solver-decided branch,
so the match returned on a path is exactly the one CPython returns for every string of that path.
"""
from __future__ import annotations
import re
try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sc
from .core import (expand, expandable, SymStr, SChar, Tok, Unsupported, char_test, char_eq, chars_of, mkstr, lift_bool, in_ranges,
                   sym_and, sym_or, sym_not, is_sym)

_CATS = {
    sc.CATEGORY_DIGIT: ('digit', str.isdecimal),
    sc.CATEGORY_SPACE: ('space', str.isspace),
    sc.CATEGORY_WORD: ('word', lambda c: c == '_' or c.isalnum()),
}
_NCATS = {sc.CATEGORY_NOT_DIGIT: sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_SPACE: sc.CATEGORY_SPACE,
          sc.CATEGORY_NOT_WORD: sc.CATEGORY_WORD}


class SymMatch:
    """Result of a match on a symbolic string."""

    def __init__(self, pattern, string, start, end, groups):
        self.re = pattern
        self.string = string
        self._chars = chars_of(string)
        self._spans = {0: (start, end), **groups}
        self.pos, self.endpos = 0, len(self._chars)

    def __bool__(self):
        return True

    def span(self, g=0):
        return self._spans.get(self._idx(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _idx(self, g):
        return self.re.groupindex[g] if isinstance(g, str) else g

    def _get(self, g, default=None):
        s, e = self.span(g)
        return default if s < 0 else mkstr(self._chars[s:e])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    def __getitem__(self, g):
        return self._get(g)

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(i, default) for k, i in self.re.groupindex.items()}

    @property
    def lastindex(self):
        return max([g for g in self._spans if g], default=None)

    def expand(self, template):
        if '\\' in template:
            out, i = '', 0
            for m in re.finditer(r'\\(?:g<(\w+)>|(\d))', template):
                g = m.group(1) or m.group(2)
                out = out + template[i:m.start()] + self._get(int(g) if g.isdigit() else g, '')
                i = m.end()
            rest = template[i:]
            if '\\' in rest:
                raise Unsupported('replacement escapes')
            return out + rest
        return template


class _Matcher:
    def __init__(self, pattern):
        self.pattern = pattern
        self.flags = pattern.flags
        if self.flags & re.LOCALE:
            raise Unsupported('regex flags')
        self.ic = bool(self.flags & re.IGNORECASE)
        self.ascii = bool(self.flags & re.ASCII)
        self.tree = sre_parse.parse(pattern.pattern, pattern.flags & ~re.UNICODE)

    def lit(self, c, code):
        ch = chr(code)
        if self.ic:
            opts = {ch, ch.lower(), ch.upper()}
            return sym_or(*[char_eq(c, o) for o in sorted(opts) if len(o) == 1])
        return char_eq(c, ch)

    def cat(self, c, code):
        if code in _NCATS:
            return sym_not(self.cat(c, _NCATS[code]))
        key, pred = _CATS[code]
        if self.ascii:
            return char_test(c, 'a' + key, lambda ch: ch.isascii() and pred(ch))
        return char_test(c, 're' + key, pred)

    def inset(self, c, items):
        neg = False
        res = []
        for op, av in items:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                res.append(self.lit(c, av))
            elif op is sc.RANGE:
                lo, hi = av
                def inr(x):
                    if isinstance(x, str):
                        return lo <= ord(x) <= hi
                    if isinstance(x, Tok):
                        raise Unsupported('regex over rendered text')
                    return lift_bool(in_ranges(x.e, [(lo, hi)]))
                if self.ic:
                    if isinstance(c, str):
                        res.append(any(lo <= ord(v) <= hi for v in (c.lower(), c.upper()) if len(v) == 1))
                    else:
                        res.append(char_test(c, ('icr', lo, hi),
                                             lambda ch: any(lo <= ord(v) <= hi for v in {ch, ch.lower(), ch.upper()}
                                                            if len(v) == 1)))
                else:
                    res.append(inr(c))
            elif op is sc.CATEGORY:
                res.append(self.cat(c, av))
            else:
                raise Unsupported(f'regex set {op}')
        r = sym_or(*res)
        return sym_not(r) if neg else r

    # node list matcher, continuation passing; returns end position/groups via k or None
    def m(self, nodes, i, s, pos, groups, k):
        if i == len(nodes):
            return k(pos, groups)
        op, av = nodes[i]
        n = len(s)
        nxt = lambda p, g: self.m(nodes, i + 1, s, p, g, k)
        if op is sc.LITERAL:
            return nxt(pos + 1, groups) if pos < n and self.lit(s[pos], av) else None
        if op is sc.NOT_LITERAL:
            return nxt(pos + 1, groups) if pos < n and not self.lit(s[pos], av) else None
        if op is sc.ANY:
            if pos < n and ((self.flags & re.DOTALL) or not char_eq(s[pos], '\n')):
                return nxt(pos + 1, groups)
            return None
        if op is sc.IN:
            return nxt(pos + 1, groups) if pos < n and self.inset(s[pos], av) else None
        if op is sc.AT:
            return nxt(pos, groups) if self.at(av, s, pos) else None
        if op is sc.SUBPATTERN:
            gid, add, dele, sub = av
            if add or dele:
                raise Unsupported('inline flags')

            def after(p, g, start=pos):
                if gid is not None:
                    g = {**g, gid: (start, p)}
                return nxt(p, g)
            return self.m(list(sub), 0, s, pos, groups, after)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, s, pos, groups, nxt)
                if r is not None:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is sc.MAX_REPEAT

            def rep(count, p, g, last):
                def more():
                    if hi is not sc.MAXREPEAT and count >= hi:
                        return None
                    if count >= lo and last == p:
                        return None
                    return self.m(sub, 0, s, p, g, lambda p2, g2: rep(count + 1, p2, g2, p))
                if count < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else nxt(p, g)
                r = nxt(p, g)
                return r if r is not None else more()
            return rep(0, pos, groups, None)
        if op is sc.GROUPREF:
            if av not in groups:
                return None
            a, b = groups[av]
            seg = s[a:b]
            if pos + len(seg) > n or not sym_and(*[char_eq(x, y) for x, y in zip(seg, s[pos:pos + len(seg)])]):
                return None
            return nxt(pos + len(seg), groups)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, sub = av
            sub = list(sub)
            if direction > 0:
                r = self.m(sub, 0, s, pos, groups, lambda p, g: (p, g))
            else:
                lo, hi = av[1].getwidth()
                r = None
                for w in range(lo, min(hi, pos) + 1):
                    r = self.m(sub, 0, s, pos - w, groups, lambda p, g: (p, g) if p == pos else None)
                    if r is not None:
                        break
            if op is sc.ASSERT:
                return nxt(pos, r[1]) if r is not None else None
            return nxt(pos, groups) if r is None else None
        if op is getattr(sc, 'ATOMIC_GROUP', None):
            r = self.m(list(av), 0, s, pos, groups, lambda p, g: (p, g))
            return None if r is None else nxt(*r)
        if op is getattr(sc, 'POSSESSIVE_REPEAT', None):
            lo, hi, sub = av
            sub = list(sub)
            count, p, g = 0, pos, groups
            while hi is sc.MAXREPEAT or count < hi:
                r = self.m(sub, 0, s, p, g, lambda p2, g2: (p2, g2))
                if r is None or (r[0] == p and count >= lo):
                    break
                p, g = r
                count += 1
            return nxt(p, g) if count >= lo else None
        if op is sc.GROUPREF_EXISTS:
            gid, yes, no = av
            sub = list(yes) if gid in groups else list(no or [])
            return self.m(sub, 0, s, pos, groups, nxt)
        raise Unsupported(f'regex op {op}')

    def at(self, code, s, pos):
        n = len(s)
        multi = self.flags & re.MULTILINE
        if code is sc.AT_BEGINNING:
            return pos == 0 or (multi and bool(char_eq(s[pos - 1], '\n')))
        if code is sc.AT_BEGINNING_STRING:
            return pos == 0
        if code is sc.AT_END:
            if pos == n or (pos == n - 1 and char_eq(s[pos], '\n')):
                return True
            return bool(multi and pos < n and char_eq(s[pos], '\n'))
        if code is sc.AT_END_STRING:
            return pos == n
        if code in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            a = bool(pos > 0 and self.cat(s[pos - 1], sc.CATEGORY_WORD))
            b = bool(pos < n and self.cat(s[pos], sc.CATEGORY_WORD))
            return (a != b) == (code is sc.AT_BOUNDARY)
        raise Unsupported(f'regex at {code}')


_cache = {}


def matcher(pattern):
    m = _cache.get(pattern)
    if m is None:
        m = _cache[pattern] = _Matcher(pattern)
    return m


def _compile(p, flags=0):
    return p if isinstance(p, re.Pattern) else re.compile(p, flags)


def match_at(p, string, pos, mode='match', forbid_empty_at=None):
    m = matcher(p)
    s = chars_of(string)

    def done(e, g):
        if mode == 'fullmatch' and e != len(s):
            return None
        if forbid_empty_at is not None and e == pos == forbid_empty_at:
            return None
        return e, g
    r = m.m(list(m.tree), 0, s, pos, {}, done)
    return None if r is None else SymMatch(p, string, pos, r[0], r[1])


def digits(string):
    """Rendered integers become characters."""
    if isinstance(string, SymStr) and any(expandable(c) for c in string.chars):
        new = expand(string.chars)
        if new is not None:
            string.chars = new


def match(p, string, flags=0, pos=0):
    digits(string)
    return match_at(_compile(p, flags), string, pos)


def fullmatch(p, string, flags=0):
    digits(string)
    return match_at(_compile(p, flags), string, 0, 'fullmatch')


def search(p, string, flags=0, pos=0):
    digits(string)
    p = _compile(p, flags)
    for i in range(pos, len(chars_of(string)) + 1):
        r = match_at(p, string, i)
        if r is not None:
            return r
    return None


def finditer(p, string, flags=0):
    digits(string)
    p = _compile(p, flags)
    n = len(chars_of(string))
    i, out, last = 0, [], None
    while i <= n:
        r = match_at(p, string, i, forbid_empty_at=last)
        if r is None:
            i += 1
            continue
        out.append(r)
        s, e = r.span()
        i = e
        last = e if e == s else None  # an empty match must not repeat at the same position
    return iter(out)


def findall(p, string, flags=0):
    out = []
    for m in finditer(p, string, flags):
        g = m.groups('')
        out.append(m.group() if not g else g[0] if len(g) == 1 else g)
    return out


def sub(p, repl, string, count=0, flags=0):
    return subn(p, repl, string, count, flags)[0]


def subn(p, repl, string, count=0, flags=0):
    out, i, n = '', 0, 0
    for m in finditer(p, string, flags):
        if count and n >= count:
            break
        out = out + string[i:m.start()] + (repl(m) if callable(repl) else m.expand(repl))
        i = m.end()
        n += 1
    return out + string[i:], n


def split(p, string, maxsplit=0, flags=0):
    out, i, n = [], 0, 0
    for m in finditer(p, string, flags):
        if maxsplit and n >= maxsplit:
            break
        out.append(string[i:m.start()])
        out += list(m.groups())
        i = m.end()
        n += 1
    out.append(string[i:])
    return out
