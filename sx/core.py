"""Symbolic execution core: path exploration by re-execution, z3-decided branching, symbolic values.

Everything the explored program branches on goes through `Engine.branch`, which asks z3 whether
each side is feasible under the current path condition.  An assertion (`Engine.check`) is decided by z3
over all values admitted by the path condition; a model of its negation is a counterexample.
"""
from __future__ import annotations
import re
import time as _time
import datetime as _dt
import z3

REAL_DATETIME = _dt.datetime
REAL_TIMEDELTA = _dt.timedelta


class Unsupported(Exception):
    """Operation outside what the engine models (inconclusive, never silently ignored)."""
    def __init__(self, msg):
        super().__init__(msg)
        eng = Engine.current
        if eng is not None:
            eng.unsupported.append(msg)


class PathEnd(BaseException):
    """Ends the current path (environment budget exhausted, bound reached)."""
    def __init__(self, reason='end'):
        super().__init__(reason)
        self.reason = reason


class Infeasible(BaseException):
    """Current path condition became unsatisfiable (an assumption failed)."""


class Violation(BaseException):
    """The property assertion fails for some value on the current path."""
    def __init__(self, message, model):
        super().__init__(message)
        self.message = message
        self.model = model


class Engine:
    """One exploration (depth first, re-executing from the start for every path)."""

    current: 'Engine' = None

    def __init__(self, max_branches=20000, forced=(), depth_limit=None, timeout_ms=60000):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.stack = []             # [cond_ast, taken, other_feasible, forced]
        self.pos = 0
        self.names = {}
        self.model = None
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0             # assertions discharged
        self.transitions = 0
        self.paths = 0
        self.states = 0
        self.unsupported = []
        self.max_branches = max_branches
        self.forced = list(forced)  # forced initial decisions (prefix)
        self.depth_limit = depth_limit
        self.frontier = []
        self.inputs = {}            # name -> (kind, expr)
        self.ranges = {}
        self.unknown = 0
        self.asserted_pos = 0

    # -- exploration -------------------------------------------------------
    def begin(self):
        self.pos = 0
        self.names = {}
        self.inputs = {}
        self.unsupported = []
        Engine.current = self

    def backtrack(self) -> bool:
        """Move to next unexplored alternative; False if exhausted."""
        while self.stack:
            cond, taken, other, forced = self.stack.pop()
            self.solver.pop()
            if other:
                self.solver.push()
                neg = z3.Not(cond) if taken else cond
                self.solver.add(neg)
                self.stack.append([cond, not taken, False, forced])
                self.model = None
                return True
        return False

    def _check(self, *extra):
        self.queries += 1
        t = _time.perf_counter()
        r = self.solver.check(*extra)
        self.solver_s += _time.perf_counter() - t
        if r == z3.unknown:
            self.unknown += 1
            raise Unsupported(f'solver returned unknown: {self.solver.reason_unknown()}')
        return r == z3.sat

    def prefix(self):
        out = []
        for cond, taken, _, _ in self.stack:
            out.append((taken, _eq_value(cond)))
        return out

    def branch(self, cond) -> bool:
        """Decide a branch condition (z3 Bool); fork when both sides are feasible."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.stack):
            entry = self.stack[self.pos]
            if not entry[0].eq(cond):
                raise RuntimeError(f'non-deterministic re-execution: {entry[0]} vs {cond}')
            self.pos += 1
            return entry[1]
        if len(self.stack) >= self.max_branches:
            raise PathEnd('branch bound')
        self.transitions += 1
        if self.pos < len(self.forced):
            taken = self.forced[self.pos][0]
            self._push(cond, taken, False, True)
            return taken
        if self.depth_limit is not None and self._live_depth >= self.depth_limit:
            self.frontier.append(self.prefix())
            raise PathEnd('frontier')
        if self.model is None:
            if not self._check():
                raise Infeasible()
            self.model = self.solver.model()
        val = z3.is_true(self.model.eval(cond, model_completion=True))
        neg = z3.Not(cond)
        other = self._check(neg if val else cond)
        othermodel = self.solver.model() if other else None
        # deterministic choice of order: explore True first when feasible
        if val or not other:
            taken = val
        else:
            taken = True
            self.model = othermodel
        self._push(cond, taken, other, False)
        return taken

    @property
    def _live_depth(self):
        return sum(1 for s in self.stack if s[2] or s[3])

    def _push(self, cond, taken, other, forced):
        self.solver.push()
        self.solver.add(cond if taken else z3.Not(cond))
        self.stack.append([cond, taken, other, forced])
        self.pos += 1

    def assume(self, cond):
        """Restrict the path to values satisfying cond."""
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        e = cond.e if isinstance(cond, SymBool) else cond
        if z3.is_true(e):
            return
        self._assume_entry(e)

    def _assume_entry(self, e):
        if self.pos < len(self.stack):
            entry = self.stack[self.pos]
            if not entry[0].eq(e):
                raise RuntimeError(f'non-deterministic re-execution: {entry[0]} vs {e}')
            self.pos += 1
            return
        if self.pos < len(self.forced):
            self._push(e, True, False, True)
            return
        self._push(e, True, False, False)
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None
        if self.model is None:
            if not self._check():
                raise Infeasible()
            self.model = self.solver.model()

    def get_model(self):
        if self.model is None:
            if not self._check():
                raise Infeasible()
            self.model = self.solver.model()
        return self.model

    def check(self, cond, message):
        """Decide the assertion: unsat(pc and not cond) or raise Violation with a model."""
        self.checks += 1
        if isinstance(cond, bool):
            if not cond:
                raise Violation(message, self.get_model())
            return
        e = cond.e if isinstance(cond, SymBool) else cond
        if z3.is_true(e):
            return
        if self._check(z3.Not(e)):
            raise Violation(message, self.solver.model())

    # -- fresh inputs ------------------------------------------------------
    def fresh_name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f'{name}#{n}'

    def int_var(self, name, lo=None, hi=None, kind='int'):
        full = self.fresh_name(name)
        v = z3.Int(full)
        self.inputs[full] = (kind, v)
        self.ranges[full] = (lo, hi)
        if lo is not None and hi is not None:
            self._assume_entry(z3.And(v >= lo, v <= hi))
        elif lo is not None:
            self._assume_entry(v >= lo)
        elif hi is not None:
            self._assume_entry(v <= hi)
        return v

    def bool_var(self, name):
        full = self.fresh_name(name)
        v = z3.Bool(full)
        self.inputs[full] = ('bool', v)
        return v

    def variants(self, rnd, k=2, limit=10):
        """k further assignments of the current path, away from the solver's favourite values."""
        out = []
        for _ in range(k):
            fixed = []
            names = list(self.inputs)
            rnd.shuffle(names)
            for name in names[:limit]:
                kind, v = self.inputs[name]
                if kind == 'bool':
                    cand = v if rnd.random() < .5 else z3.Not(v)
                else:
                    lo, hi = self.ranges.get(name, (None, None))
                    if kind == 'char':
                        lo, hi = 32, 126
                    lo = lo if isinstance(lo, int) else -1000
                    hi = hi if isinstance(hi, int) else 1000
                    cand = v == rnd.randint(lo, max(lo, hi))
                if self._check(*fixed, cand):
                    fixed.append(cand)
            if self._check(*fixed):
                out.append(self.assignment(self.solver.model()))
        return out

    def assignment(self, model):
        """Concrete input values of the current path under model."""
        out = {}
        for name, (kind, v) in self.inputs.items():
            val = model.eval(v, model_completion=True)
            if kind == 'bool':
                out[name] = z3.is_true(val)
            else:
                out[name] = val.as_long()
        return out


def eng() -> Engine:
    return Engine.current


# ---------------------------------------------------------------------------
# values

class Sym:
    """Base of symbolic values."""
    __slots__ = ()

    def __hash__(self):
        raise Unsupported(f'hash of symbolic {type(self).__name__}')


def is_sym(x):
    return isinstance(x, Sym)


def lift_bool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool(Sym):
    __slots__ = ('e',)
    __class__ = property(lambda self: bool)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def __eq__(self, o):
        if type(o) is SymBool:
            return lift_bool(self.e == o.e)
        if o is True or (type(o) is int and o == 1):
            return self
        if o is False or (type(o) is int and o == 0):
            return lift_bool(z3.Not(self.e))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) and not is_sym(r) else lift_bool(z3.Not(r.e))

    def __and__(self, o):
        return sym_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return sym_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return lift_bool(z3.Xor(self.e, o.e)) if type(o) is SymBool else self ^ bool(o) if type(o) is not bool else (
            lift_bool(z3.Not(self.e)) if o else self)
    __rxor__ = __xor__

    def __invert__(self):
        return lift_bool(z3.Not(self.e))

    # as a number
    def __add__(self, o):
        return sym_ite(self, 1, 0) + o
    __radd__ = __add__

    def __sub__(self, o):
        return sym_ite(self, 1, 0) - o

    def __rsub__(self, o):
        return o - sym_ite(self, 1, 0)

    def __mul__(self, o):
        return sym_ite(self, 1, 0) * o
    __rmul__ = __mul__

    def __neg__(self):
        return -sym_ite(self, 1, 0)

    def __lt__(self, o):
        return sym_ite(self, 1, 0) < o

    def __le__(self, o):
        return sym_ite(self, 1, 0) <= o

    def __gt__(self, o):
        return sym_ite(self, 1, 0) > o

    def __ge__(self, o):
        return sym_ite(self, 1, 0) >= o

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return f'<SymBool {self.e}>'


def to_z3bool(x):
    if type(x) is SymBool:
        return x.e
    if x is True or x is False:
        return z3.BoolVal(x)
    return z3.BoolVal(bool(x))


def sym_and(*xs):
    es = []
    for x in xs:
        if type(x) is SymBool:
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return SymBool(es[0] if len(es) == 1 else z3.And(*es))


def sym_or(*xs):
    es = []
    for x in xs:
        if type(x) is SymBool:
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return SymBool(es[0] if len(es) == 1 else z3.Or(*es))


def sym_not(x):
    if type(x) is SymBool:
        return lift_bool(z3.Not(x.e))
    return not x


def sym_implies(a, b):
    return sym_or(sym_not(a), b)


def sym_ite(c, a, b):
    """Merge two int values."""
    if type(c) is not SymBool:
        return a if c else b
    return mkint(z3.If(c.e, zint(a), zint(b)))


def zint(x):
    if type(x) is SymInt:
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    return z3.IntVal(x)


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _num(x):
    """Return (z3 expr, is_real) or None."""
    if isinstance(x, Sym):
        t = type(x)
        if t is SymInt:
            return x.e, False
        if t is SymReal:
            return x.e, True
        if t is SymBool:
            return zint(x), False
        return None
    if isinstance(x, bool):
        return z3.IntVal(int(x)), False
    if isinstance(x, int):
        return z3.IntVal(x), False
    if isinstance(x, float):
        from fractions import Fraction
        f = Fraction(x).limit_denominator(10**9)
        return z3.RealVal(f'{f.numerator}/{f.denominator}'), True
    return None


def _both(a, b):
    na, nb = _num(a), _num(b)
    if na is None or nb is None:
        return None
    ea, ra = na
    eb, rb = nb
    if ra or rb:
        return (ea if ra else z3.ToReal(ea)), (eb if rb else z3.ToReal(eb)), True
    return ea, eb, False


def mkreal(e):
    return SymReal(e)


def _arith(op):
    def f(self, o):
        p = _both(self, o)
        if p is None:
            return NotImplemented
        a, b, real = p
        e = z3.simplify(op(a, b))
        return mkreal(e) if real else mkint(e)
    return f


def _cmp(op):
    def f(self, o):
        p = _both(self, o)
        if p is None:
            return NotImplemented
        a, b, _ = p
        return lift_bool(z3.simplify(op(a, b)))
    return f


class _SymNum(Sym):
    __slots__ = ()
    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _arith(lambda a, b: b + a)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _arith(lambda a, b: b - a)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        p = _both(self, o)
        if p is None:
            return False
        return lift_bool(z3.simplify(p[0] == p[1]))

    def __ne__(self, o):
        p = _both(self, o)
        if p is None:
            return True
        return lift_bool(z3.simplify(p[0] != p[1]))

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)) and not is_sym(o):
            return o * concretize(self)
        if isinstance(o, REAL_TIMEDELTA) or type(o) is SymTimedelta:
            return NotImplemented
        return _arith(lambda a, b: a * b)(self, o)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if bool(self < 0) else self

    def __bool__(self):
        return bool(self != 0)

    def __truediv__(self, o):
        p = _both(self, o)
        if p is None:
            return NotImplemented
        a, b, real = p
        if not real:
            a, b = z3.ToReal(a), z3.ToReal(b)
        if bool(lift_bool(z3.simplify(b == 0))):
            raise ZeroDivisionError('division by zero')
        return mkreal(z3.simplify(a / b))

    def __rtruediv__(self, o):
        return lift_num(o).__truediv__(self)

    def __hash__(self):
        return hash(concretize(self))


def lift_num(x):
    e, real = _num(x)
    return SymReal(e) if real else SymInt(e)


class SymInt(_SymNum):
    __slots__ = ('e',)
    __class__ = property(lambda self: int)

    def __init__(self, e):
        self.e = e

    def __floordiv__(self, o):
        p = _both(self, o)
        if p is None or p[2]:
            if p is None:
                return NotImplemented
            return mkreal(z3.ToReal(z3.ToInt(p[0] / p[1])))
        if bool(lift_bool(z3.simplify(p[1] == 0))):
            raise ZeroDivisionError()
        if not is_sym(o) and o > 0:
            return mkint(z3.simplify(p[0] / p[1]))
        return self._divsym(p[0], p[1])[0]

    @staticmethod
    def _divsym(a, b):
        q, r = a / b, a % b  # z3: euclidean (r >= 0)
        fq = z3.If(z3.And(b < 0, r != 0), q - 1, q)
        return mkint(z3.simplify(fq)), mkint(z3.simplify(a - b * fq))

    def __rfloordiv__(self, o):
        return lift_num(o).__floordiv__(self)

    def __mod__(self, o):
        p = _both(self, o)
        if p is None or p[2]:
            raise Unsupported('mod')
        if not is_sym(o) and o > 0:
            return mkint(z3.simplify(p[0] % p[1]))
        if bool(lift_bool(z3.simplify(p[1] == 0))):
            raise ZeroDivisionError()
        return self._divsym(p[0], p[1])[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            from . import models
            return models.percent_format(o, self)
        return lift_num(o).__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o, mod=None):
        if mod is not None or is_sym(o) or not isinstance(o, int) or not 0 <= o <= 4:
            return pow(concretize(self), o if not is_sym(o) else concretize(o), mod)
        out = 1
        for _ in range(o):
            out = self * out
        return out

    def __rpow__(self, o):
        return o ** concretize(self)

    def __and__(self, o):
        if not is_sym(o) and isinstance(o, int) and o >= 0 and not o & (o + 1):     # the low bits
            return self % (o + 1)
        return concretize(self) & o

    def __or__(self, o):
        return concretize(self) | o

    def __xor__(self, o):
        return concretize(self) ^ o
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __lshift__(self, o):
        return self * 2 ** o if not is_sym(o) else concretize(self) << o

    def __rshift__(self, o):
        return self // 2 ** o if not is_sym(o) else concretize(self) >> o

    def __rlshift__(self, o):
        return o << concretize(self)

    def __rrshift__(self, o):
        return o >> concretize(self)

    def __invert__(self):
        return -self - 1

    def bit_length(self):
        return concretize(self).bit_length()

    def __int__(self):
        return concretize(self)

    def __index__(self):
        return concretize(self)

    def __float__(self):
        return float(concretize(self))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __repr__(self):
        return f'<SymInt {self.e}>'

    def __str__(self):
        raise Unsupported('native str() of SymInt')

    def __format__(self, spec):
        raise Unsupported('native format() of SymInt')


class SymReal(_SymNum):
    """Exact rational standing in for a float (floating-point rounding is outside the model)."""
    __slots__ = ('e',)
    __class__ = property(lambda self: float)

    def __init__(self, e):
        self.e = e

    def __trunc__(self):
        return mkint(z3.simplify(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))))

    def __floor__(self):
        return mkint(z3.simplify(z3.ToInt(self.e)))

    def __ceil__(self):
        return mkint(z3.simplify(-z3.ToInt(-self.e)))

    def __round__(self, n=None):
        if n:
            raise Unsupported('round digits')
        fl = z3.ToInt(self.e)
        frac = self.e - z3.ToReal(fl)
        half = z3.RealVal('1/2')
        r = z3.If(frac < half, fl, z3.If(frac > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
        r = mkint(z3.simplify(r))
        return r if n is None else SymReal(z3.ToReal(zint(r)))

    def __floordiv__(self, o):
        p = _both(self, o)
        return mkreal(z3.simplify(z3.ToReal(z3.ToInt(p[0] / p[1]))))

    def __int__(self):
        return concretize(self.__trunc__())

    def __float__(self):
        raise Unsupported('native float() of SymReal')

    def is_integer(self):
        return lift_bool(z3.IsInt(self.e))

    def __repr__(self):
        return f'<SymReal {self.e}>'

    def __str__(self):
        raise Unsupported('native str() of SymReal')

    def __format__(self, spec):
        raise Unsupported('native format() of SymReal')


CONCRETIZE_LIMIT = 300


def _eq_value(cond):
    """The constant of an equation term == constant."""
    if cond.decl().kind() == z3.Z3_OP_EQ:
        for i in (1, 0):
            if z3.is_int_value(cond.arg(i)):
                return cond.arg(i).as_long()
    return None


def concretize(x):
    """Fork over every feasible concrete value of an integer term."""
    if type(x) is SymBool:
        return bool(x)
    if type(x) is not SymInt:
        if isinstance(x, int):
            return x
        raise Unsupported(f'concretize {type(x)}')
    en = eng()
    for _ in range(CONCRETIZE_LIMIT):
        if en.pos < len(en.stack):
            v = _eq_value(en.stack[en.pos][0])
            if v is None:
                raise RuntimeError(f'non-deterministic re-execution: {en.stack[en.pos][0]} at concretize {x.e}')
        elif en.pos < len(en.forced):
            # forced prefix replays values recorded alongside
            v = en.forced[en.pos][1]
        else:
            v = en.get_model().eval(x.e, model_completion=True).as_long()
        if en.branch(x.e == z3.IntVal(v)):
            return v
    raise Unsupported('concretize: too many values')


# ---------------------------------------------------------------------------
# strings

SEPARATORS = ('\n', '\r\n', '\t', ': ', '---\n')      # never part of a rendered number, instant or duration


ISO = ('iso', 'iso+', 'isoT', 'isoT+')      # instants with a blank or a T inside, '+': with a zone


class Tok:
    """Opaque piece of text: rendering of a symbolic non-string value (injective per kind)."""
    __slots__ = ('kind', 'value')

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value

    def __repr__(self):
        return f'<{self.kind}:{self.value!r}>'


# domain of symbolic characters
def _domain():
    return [chr(c) for c in range(0x20, 0x7f)] + ['\t', '\n']


def char_ranges(pred, domain):
    """Code point ranges of the domain characters satisfying pred."""
    cps = sorted(ord(c) for c in domain if pred(c))
    out = []
    for c in cps:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


class CharDomain:
    def __init__(self, chars):
        self.chars = sorted(set(chars))
        self.cache = {}

    def ranges(self, key, pred):
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = char_ranges(pred, self.chars)
        return r


ASCII_DOMAIN = CharDomain([chr(c) for c in range(0x20, 0x7f)] + ['\t', '\n'])
FULL_DOMAIN = CharDomain([chr(c) for c in range(0x01, 0x100)] + ['\u2028', '\u3000', '\u0131', '\uff11', '\u0660'])


class SChar:
    """Symbolic character."""
    __slots__ = ('e', 'dom')

    def __init__(self, e, dom):
        self.e = e
        self.dom = dom

    def __repr__(self):
        return f'<c {self.e}>'


def in_ranges(e, ranges):
    parts = [(e == lo) if lo == hi else z3.And(e >= lo, e <= hi) for lo, hi in ranges]
    if not parts:
        return z3.BoolVal(False)
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


def char_test(c, key, pred):
    """SymBool/bool: does char c satisfy pred."""
    if isinstance(c, str):
        return bool(pred(c))
    if isinstance(c, Tok):
        raise Unsupported(f'character test on rendered {c.kind}')
    rs = c.dom.ranges(key, pred)
    return lift_bool(in_ranges(c.e, rs)) if rs else False


def char_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Tok) or isinstance(b, Tok):
        if isinstance(a, Tok) and isinstance(b, Tok) and a.kind == b.kind:
            return a.value == b.value
        raise Unsupported('comparison of rendered value with characters')
    ea = z3.IntVal(ord(a)) if isinstance(a, str) else a.e
    eb = z3.IntVal(ord(b)) if isinstance(b, str) else b.e
    return lift_bool(z3.simplify(ea == eb))


def mkstr(chars):
    if all(isinstance(c, str) for c in chars):
        return ''.join(chars)
    return SymStr(chars)


def chars_of(s):
    if type(s) is SymStr:
        return s.chars
    if isinstance(s, str) and not is_sym(s):
        return list(s)
    raise TypeError(f'expected str, got {type(s).__name__}')


def isspace(c):
    return char_test(c, 'space', str.isspace)


DIGITS = CharDomain('0123456789-')
PADDED = re.compile(r'format 0?(\d*)d?$')


def expandable(c):
    if not isinstance(c, Tok) or type(c.value) is not SymInt:
        return False
    return c.kind == 'str' or PADDED.match(c.kind) is not None


def expand(chars):
    """Rendered integers as digit characters (their number is decided on this path); None if something else is rendered."""
    if not all(not isinstance(c, Tok) or expandable(c) for c in chars):
        return None
    out = []
    for c in chars:
        if not isinstance(c, Tok):
            out.append(c)
            continue
        v = c.value
        sign = []
        if v < 0:
            v = -v
            sign = ['-']
        n, top = 1, 10
        while not v < top:
            n, top = n + 1, top * 10
            if n > 12:
                raise Unsupported('large rendered number')
        v = zint(v)
        digits = [SChar(z3.simplify(48 + (v / 10 ** i) % 10), DIGITS) for i in range(n - 1, -1, -1)]
        if c.kind != 'str':
            spec = c.kind[7:].rstrip('d')
            width = int(spec or 0) - len(sign)
            if width > n:
                if not spec.startswith('0'):
                    sign, digits = [' '] * (width - n) + sign, digits
                else:
                    digits = ['0'] * (width - n) + digits
        out.extend(sign + digits)
    return out


def str_eq(a, b):
    ca, cb = chars_of(a), chars_of(b)
    if [c.kind if isinstance(c, Tok) else '' for c in ca] != [c.kind if isinstance(c, Tok) else '' for c in cb]:
        if any(expandable(c) for c in ca) or any(expandable(c) for c in cb):
            ea, eb = expand(ca), expand(cb)
            if ea is not None and eb is not None:
                ca, cb = ea, eb
    if len(ca) != len(cb):
        ta, tb = any(isinstance(c, Tok) for c in ca), any(isinstance(c, Tok) for c in cb)
        if ta or tb:
            if ta and tb and [type(c) for c in ca] == [type(c) for c in cb]:
                pass
            else:
                # cheap refutation on concrete prefix/suffix characters
                for x, y in ((ca, cb), (ca[::-1], cb[::-1])):
                    for p, q in zip(x, y):
                        if isinstance(p, Tok) or isinstance(q, Tok):
                            break
                        if isinstance(p, str) and isinstance(q, str) and p != q:
                            return False
                raise Unsupported('comparison of rendered text of unknown length')
        return False
    return sym_and(*[char_eq(x, y) for x, y in zip(ca, cb)])


class SymStr(Sym):
    """Bounded string: concrete number of elements, each a concrete or symbolic character."""
    __slots__ = ('chars',)
    __class__ = property(lambda self: str)

    def __init__(self, chars):
        self.chars = list(chars)

    def __repr__(self):
        return '<SymStr ' + ''.join(c if isinstance(c, str) else '?' for c in self.chars) + '>'

    def __str__(self):
        raise Unsupported('native str() of SymStr')

    def __format__(self, spec):
        raise Unsupported('native format() of SymStr')

    def __hash__(self):
        return hash(concretize_str(self))

    def _notok(self):
        if any(isinstance(c, Tok) for c in self.chars):
            new = expand(self.chars)
            if new is None:
                raise Unsupported('length-dependent operation on rendered text')
            self.chars = new

    def __len__(self):
        self._notok()
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __iter__(self):
        self._notok()
        return iter([mkstr([c]) for c in self.chars])

    def __getitem__(self, k):
        self._notok()
        if isinstance(k, slice):
            k = slice(*[None if v is None else concretize(v) for v in (k.start, k.stop, k.step)])
            return mkstr(self.chars[k])
        return mkstr([self.chars[concretize(k)]])

    def __add__(self, o):
        if isinstance(o, str):
            return mkstr(self.chars + chars_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return mkstr(chars_of(o) + self.chars)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.chars * concretize(n))
    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported('symbolic format string')

    def __eq__(self, o):
        if isinstance(o, str):
            return str_eq(self, o)
        return False

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def _lt(self, o, orequal):
        a, b = self.chars, chars_of(o)
        res = z3.BoolVal(len(a) < len(b) or (orequal and len(a) == len(b)))
        for x, y in reversed(list(zip(a, b))):
            ex = z3.IntVal(ord(x)) if isinstance(x, str) else x.e
            ey = z3.IntVal(ord(y)) if isinstance(y, str) else y.e
            res = z3.Or(ex < ey, z3.And(ex == ey, res))
        return lift_bool(z3.simplify(res))

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        return sym_not(self._lt(o, True))

    def __ge__(self, o):
        return sym_not(self._lt(o, False))

    def __contains__(self, sub):
        if isinstance(sub, str) and not is_sym(sub) and sub in SEPARATORS:
            return len(self.split(sub, 1)) == 2
        return self.find(sub) >= 0

    # -- searching
    def _match_at(self, sub, i):
        if any(isinstance(c, Tok) for c in self.chars[i:i + len(sub)]):
            return False      # only with SEPARATORS
        return sym_and(*[char_eq(x, y) for x, y in zip(self.chars[i:i + len(sub)], sub)])

    def _bounds(self, start, end):
        n = len(self.chars)
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        self._notok()
        sub = chars_of(sub)
        s, e = self._bounds(start, end)
        for i in range(s, e - len(sub) + 1):
            if self._match_at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        self._notok()
        sub = chars_of(sub)
        s, e = self._bounds(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if self._match_at(sub, i):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub):
        sub_ = chars_of(sub)
        if not sub_:
            return len(self.chars) + 1
        n = i = 0
        while i <= len(self.chars) - len(sub_):
            if self._match_at(sub_, i):
                n += 1
                i += len(sub_)
            else:
                i += 1
        return n

    def startswith(self, prefix, start=0, end=None):
        if isinstance(prefix, tuple):
            return any(self.startswith(p, start, end) for p in prefix)
        part = self.chars[start:end]
        p = chars_of(prefix)
        if len(p) > len(part):
            return False
        return sym_and(*[char_eq(x, y) for x, y in zip(part, p)])

    def endswith(self, suffix, start=0, end=None):
        if isinstance(suffix, tuple):
            return any(self.endswith(p, start, end) for p in suffix)
        part = self.chars[start:end]
        p = chars_of(suffix)
        if len(p) > len(part):
            return False
        return sym_and(*[char_eq(x, y) for x, y in zip(part[len(part) - len(p):], p)]) if p else True

    # -- stripping
    def _strippred(self, chars):
        if chars is None:
            return isspace
        cs = chars_of(chars)
        return lambda c: sym_or(*[char_eq(c, x) for x in cs])

    def lstrip(self, chars=None):
        p = self._strippred(chars)
        i = 0
        while i < len(self.chars) and not isinstance(self.chars[i], Tok) and p(self.chars[i]):
            i += 1
        return mkstr(self.chars[i:])

    def rstrip(self, chars=None):
        p = self._strippred(chars)
        n = len(self.chars)
        while n > 0 and not isinstance(self.chars[n - 1], Tok) and p(self.chars[n - 1]):
            n -= 1
        return mkstr(self.chars[:n])

    def strip(self, chars=None):
        s = self.lstrip(chars)
        return s.rstrip(chars)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        if is_sym(sep) or sep not in SEPARATORS or any(isinstance(c, Tok) and c.kind not in ('str',) + ISO
                                                       for c in self.chars):
            self._notok()
        if sep is None:
            out, cur, i, n = [], [], 0, len(self.chars)
            while i < n:
                while i < n and isspace(self.chars[i]):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mkstr(self.chars[i:]).rstrip())
                    return out
                j = i
                while j < n and not isspace(self.chars[j]):
                    j += 1
                out.append(mkstr(self.chars[i:j]))
                i = j
            return out
        sub = chars_of(sep)
        if not sub:
            raise ValueError('empty separator')
        out, i, last = [], 0, 0
        while i <= len(self.chars) - len(sub) and (maxsplit < 0 or len(out) < maxsplit):
            if self._match_at(sub, i):
                out.append(mkstr(self.chars[last:i]))
                i += len(sub)
                last = i
            else:
                i += 1
        out.append(mkstr(self.chars[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            rev = SymStr(self.chars[::-1]).split(None, maxsplit)
            return [mkstr(chars_of(x)[::-1]) for x in rev][::-1]
        rev = SymStr(self.chars[::-1]).split(mkstr(chars_of(sep)[::-1]), maxsplit)
        return [mkstr(chars_of(x)[::-1]) for x in rev][::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return self[:i], sep, self[i + len(sep):]

    def splitlines(self, keepends=False):
        out, cur, i = [], [], 0
        while i < len(self.chars):
            c = self.chars[i]
            if char_test(c, 'linebreak', lambda ch: len((ch + 'x').splitlines()) == 2):
                ends = [c]
                if i + 1 < len(self.chars) and char_eq(c, '\r') and char_eq(self.chars[i + 1], '\n'):
                    ends.append(self.chars[i + 1])
                out.append(mkstr(cur + (ends if keepends else [])))
                cur = []
                i += len(ends)
            else:
                cur.append(c)
                i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def join(self, items):
        out = []
        for n, it in enumerate(items):
            if n:
                out += self.chars
            out += chars_of(it)
        return mkstr(out)

    def replace(self, old, new, count=-1):
        o, nw = chars_of(old), chars_of(new)
        out, i, done = [], 0, 0
        if not o:
            raise Unsupported('replace empty')
        while i < len(self.chars):
            if (count < 0 or done < count) and i + len(o) <= len(self.chars) \
                    and not isinstance(self.chars[i], Tok) and self._match_at(o, i):
                out += nw
                i += len(o)
                done += 1
            else:
                out.append(self.chars[i])
                i += 1
        return mkstr(out)

    # -- classification
    def _all(self, key, pred):
        if not self.chars:
            return False
        return sym_and(*[char_test(c, key, pred) for c in self.chars])

    def isspace(self):
        return self._all('space', str.isspace)

    def isdigit(self):
        return self._all('digit', str.isdigit)

    def isdecimal(self):
        return self._all('decimal', str.isdecimal)

    def isnumeric(self):
        return self._all('numeric', str.isnumeric)

    def isalpha(self):
        return self._all('alpha', str.isalpha)

    def isalnum(self):
        return self._all('alnum', str.isalnum)

    def isascii(self):
        return sym_and(*[char_test(c, 'ascii', str.isascii) for c in self.chars])

    def isprintable(self):
        return sym_and(*[char_test(c, 'printable', str.isprintable) for c in self.chars])

    def isidentifier(self):
        if not self.chars:
            return False
        return sym_and(char_test(self.chars[0], 'idstart', str.isidentifier),
                       *[char_test(c, 'idcont', lambda ch: ('a' + ch).isidentifier()) for c in self.chars[1:]])

    def _map(self, key, f):
        out = []
        for c in self.chars:
            if isinstance(c, str):
                out += list(f(c))
            elif isinstance(c, Tok):
                if not (c.kind == 'str' and type(c.value) is SymInt):     # digits have no case
                    raise Unsupported('case mapping of rendered text')
                out.append(c)
            else:
                # characters of the domain moved by f, grouped by offset
                multi = c.dom.ranges((key, 'multi'), lambda ch: len(f(ch)) != 1)
                if multi and lift_bool(in_ranges(c.e, multi)):
                    raise Unsupported('expanding case mapping')
                e = c.e
                groups = {}
                for ch in c.dom.chars:
                    if len(f(ch)) == 1 and f(ch) != ch:
                        groups.setdefault(ord(f(ch)) - ord(ch), []).append(ch)
                for off, members in groups.items():
                    rs = c.dom.ranges((key, off), lambda ch, m=frozenset(members): ch in m)
                    e = z3.If(in_ranges(c.e, rs), c.e + off, e)
                out.append(SChar(e, CharDomain(set(map(lambda ch: f(ch)[:1], c.dom.chars)) | set(c.dom.chars))))
        return mkstr(out)

    def lower(self):
        return self._map('lower', str.lower)

    def casefold(self):
        return self._map('lower', str.lower)

    def upper(self):
        return self._map('upper', str.upper)

    def islower(self):
        return sym_and(self == self.lower(), any(True for _ in self.chars))

    def isupper(self):
        return sym_and(self == self.upper(), any(True for _ in self.chars))

    def title(self):
        out, inside = [], False
        for c in self.chars:
            one = mkstr([c])
            one = one.lower() if inside else one.upper()
            inside = bool(one.isalpha())
            out += list(one.chars if is_sym(one) else one)
        return mkstr(out)

    def center(self, w, fill=' '):
        n = max(0, w - len(self))
        left = n // 2 + (n & w & 1)
        return fill * left + self + fill * (n - left)

    def swapcase(self):
        out = ''
        for c in self.chars:
            one = mkstr([c])
            out = out + (one.lower() if bool(one.isupper()) else one.upper())
        return out

    def __getattr__(self, name):
        if hasattr(str, name):
            raise Unsupported(f'str.{name}')
        raise AttributeError(f"'str' object has no attribute {name!r}")

    def capitalize(self):
        return self[:1].upper() + self[1:].lower()

    def encode(self, encoding='utf-8', errors='strict'):
        name = encoding.lower().replace('-', '').replace('_', '')
        if name not in ('utf8', 'utf16', 'utf32'):
            limit = {'ascii': str.isascii, 'usascii': str.isascii, 'latin1': lambda ch: ord(ch) < 256,
                     'iso88591': lambda ch: ord(ch) < 256}.get(name)
            if limit is None:
                raise Unsupported(f'encoding {encoding}')
            out = []
            for c in self.chars:
                if bool(char_test(c, 'encodable ' + name, limit)):
                    out.append(c)
                elif errors == 'strict':
                    raise UnicodeEncodeError(encoding, '?', 0, 1, 'ordinal not in range')
                elif errors == 'replace':
                    out.append('?')
                elif errors != 'ignore':
                    raise Unsupported(f'errors={errors}')
            return SymBytes('text', mkstr(out))
        return SymBytes('text', self)

    def expandtabs(self, *a):
        raise Unsupported('expandtabs')

    def format(self, *a, **k):
        raise Unsupported('symbolic format string')

    def zfill(self, w):
        n = w - len(self)
        if n <= 0:
            return self
        if self.startswith(('+', '-')):
            return self[:1] + '0' * n + self[1:]
        return '0' * n + self

    def ljust(self, w, fill=' '):
        return self + fill * max(0, w - len(self))

    def rjust(self, w, fill=' '):
        return fill * max(0, w - len(self)) + self if w > len(self) else self

    def translate(self, table):
        out = ''
        for c in self.chars:
            one = mkstr([c])
            for k, v in table.items():
                if bool(one == chr(k)):
                    one = '' if v is None else chr(v) if isinstance(v, int) else v
                    break
            out = out + one
        return out


def concretize_str(s):
    """Fork over concrete values of a symbolic string (small domains only)."""
    out = []
    for c in s.chars:
        if isinstance(c, str):
            out.append(c)
        elif isinstance(c, SChar):
            out.append(chr(concretize(SymInt(c.e))))
        else:
            raise Unsupported('concretize rendered text')
    return ''.join(out)


class SymBytes(Sym):
    """Encoded text: ('text', SymStr) or ('json', structure)."""
    __slots__ = ('kind', 'value')
    __class__ = property(lambda self: bytes)

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value

    def decode(self, encoding='utf-8', errors='strict'):
        return self.value if self.kind == 'text' else SymJson(self.value)

    def __bool__(self):
        return True if self.kind == 'json' else bool(self.value)

    def __eq__(self, o):
        if type(o) is SymBytes:
            return self.value == o.value
        return False

    def __len__(self):
        raise Unsupported('len of encoded symbolic text')

    def __repr__(self):
        return f'<SymBytes {self.kind} {self.value!r}>'

    def __hash__(self):
        raise Unsupported('hash of SymBytes')


class SymJson(Sym):
    """JSON text of a structure holding symbolic values (json contract: loads(dumps(x)) == x)."""
    __slots__ = ('value',)
    __class__ = property(lambda self: str)

    def __init__(self, value):
        self.value = value

    def encode(self, *a, **k):
        return SymBytes('json', self.value)

    def __bool__(self):
        return True

    def __eq__(self, o):
        return type(o) is SymJson and self.value == o.value

    def __repr__(self):
        return f'<SymJson {self.value!r}>'

    def _text(self):
        return SymStr([Tok('json', self)])

    def __add__(self, o):
        return self._text() + o

    def __radd__(self, o):
        return o + self._text()

    def strip(self, chars=None):
        if chars and set(chars) & set('[]{}'):
            raise Unsupported('strip of symbolic JSON')
        return self

    lstrip = rstrip = strip


# ---------------------------------------------------------------------------
# time

EPOCH = REAL_DATETIME(2024, 1, 1, tzinfo=_dt.timezone.utc)


def dt_us(d):
    """microseconds since EPOCH of a datetime (naive is taken as UTC; TZ=UTC in checks)."""
    if type(d) is SymDatetime:
        return d.us
    if d.tzinfo is None:
        d = d.replace(tzinfo=_dt.timezone.utc)
    td = d - EPOCH
    return td // REAL_TIMEDELTA(microseconds=1)


def td_us(t):
    if type(t) is SymTimedelta:
        return t.us
    return t // REAL_TIMEDELTA(microseconds=1)


def us_dt(us, aware=True):
    d = EPOCH + REAL_TIMEDELTA(microseconds=us)
    return d if aware else d.replace(tzinfo=None)


def mkdt(us, aware=True):
    if is_sym(us):
        return SymDatetime(us, aware)
    return us_dt(us, aware)


def mktd(us):
    if is_sym(us):
        return SymTimedelta(us)
    return REAL_TIMEDELTA(microseconds=us)


def _isdt(o):
    return type(o) is SymDatetime or (isinstance(o, REAL_DATETIME) and not is_sym(o))


def _istd(o):
    return type(o) is SymTimedelta or (isinstance(o, REAL_TIMEDELTA) and not is_sym(o))


def _dtcmp(op):
    def f(self, o):
        if not _isdt(o):
            return NotImplemented
        if _aware(self) != _aware(o):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return op(lift_num(self.us) if not is_sym(self.us) else self.us, dt_us(o))
    return f


def _aware(d):
    return d.aware if type(d) is SymDatetime else d.tzinfo is not None


class SymDatetime(Sym):
    __slots__ = ('us', 'aware')
    __class__ = property(lambda self: REAL_DATETIME)

    def __init__(self, us, aware=True):
        self.us = us
        self.aware = aware

    def __repr__(self):
        return f'<SymDatetime {self.us!r}>'

    def __str__(self):
        raise Unsupported('native str() of SymDatetime')

    def __format__(self, spec):
        raise Unsupported('native format() of SymDatetime')

    def __sub__(self, o):
        if _isdt(o):
            if self.aware != _aware(o):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return mktd(self.us - dt_us(o))
        if _istd(o):
            return mkdt(self.us - td_us(o), self.aware)
        return NotImplemented

    def __rsub__(self, o):
        if _isdt(o):
            if self.aware != _aware(o):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return mktd(dt_us(o) - self.us)
        return NotImplemented

    def __add__(self, o):
        if _istd(o):
            return mkdt(self.us + td_us(o), self.aware)
        return NotImplemented
    __radd__ = __add__
    __lt__ = _dtcmp(lambda a, b: a < b)
    __le__ = _dtcmp(lambda a, b: a <= b)
    __gt__ = _dtcmp(lambda a, b: a > b)
    __ge__ = _dtcmp(lambda a, b: a >= b)

    def __eq__(self, o):
        if not _isdt(o) or self.aware != _aware(o):
            return False
        return self.us == dt_us(o)

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __bool__(self):
        return True

    def astimezone(self, tz=None):
        return SymDatetime(self.us, True)

    def replace(self, **kw):
        if set(kw) == {'tzinfo'}:
            return SymDatetime(self.us, kw['tzinfo'] is not None)
        if set(kw) == {'microsecond'} and kw['microsecond'] == 0:
            return SymDatetime(self.us - self.us % 1000000, self.aware)
        raise Unsupported('datetime.replace')

    @property
    def tzinfo(self):
        return _dt.timezone.utc if self.aware else None

    def utcoffset(self):
        return REAL_TIMEDELTA(0) if self.aware else None

    def isoformat(self, sep='T', timespec='auto'):
        if is_sym(sep) or sep not in ('T', ' ') or timespec not in ('auto', 'microseconds', 'seconds', 'milliseconds'):
            raise Unsupported('isoformat options')
        v = self
        if timespec in ('seconds', 'milliseconds'):
            # NOTE: the shorter text stands for the truncated instant
            v = SymDatetime(self.us - self.us % (1000000 if timespec == 'seconds' else 1000), self.aware)
        return SymStr([Tok('iso' + ('T' if sep == 'T' else '') + ('+' if self.aware else ''), v)])

    def timestamp(self):
        base = int(EPOCH.timestamp())
        return SymReal(z3.ToReal(zint(self.us)) / 1000000 + base)

    def strftime(self, fmt):
        return SymStr([Tok('strftime ' + fmt, self)])

    def __getattr__(self, name):
        if hasattr(REAL_DATETIME, name):
            raise Unsupported(f'datetime.{name}')
        raise AttributeError(name)


def _tdcmp(op):
    def f(self, o):
        if not _istd(o):
            return NotImplemented
        return op(self.us, td_us(o))
    return f


class SymTimedelta(Sym):
    __slots__ = ('us',)
    __class__ = property(lambda self: REAL_TIMEDELTA)

    def __init__(self, us):
        self.us = us

    def __repr__(self):
        return f'<SymTimedelta {self.us!r}>'

    def __str__(self):
        raise Unsupported('native str() of SymTimedelta')

    def __format__(self, spec):
        raise Unsupported('native format() of SymTimedelta')

    def total_seconds(self):
        return SymReal(z3.simplify(z3.ToReal(zint(self.us)) / 1000000))

    @property
    def days(self):
        return self.us // 86400000000

    @property
    def seconds(self):
        return (self.us // 1000000) % 86400

    @property
    def microseconds(self):
        return self.us % 1000000

    def __add__(self, o):
        if _istd(o):
            return mktd(self.us + td_us(o))
        if _isdt(o):
            return mkdt(dt_us(o) + self.us, _aware(o))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return mktd(self.us - td_us(o)) if _istd(o) else NotImplemented

    def __rsub__(self, o):
        if _istd(o):
            return mktd(td_us(o) - self.us)
        if _isdt(o):
            return mkdt(dt_us(o) - self.us, _aware(o))
        return NotImplemented

    def __mul__(self, k):
        if isinstance(k, int):
            return mktd(self.us * k)
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        if _istd(o):
            return lift_num(self.us) / td_us(o) if not is_sym(self.us) else self.us / td_us(o)
        if isinstance(o, int) and not is_sym(o) and o > 0:
            q, r = self.us // o, self.us % o
            return mktd(q + sym_ite(sym_or(2 * r > o, sym_and(2 * r == o, q % 2 == 1)), 1, 0))
        raise Unsupported('timedelta division')

    def __floordiv__(self, o):
        if _istd(o):
            return self.us // td_us(o)
        return mktd(self.us // o)

    def __neg__(self):
        return mktd(-self.us)

    def __abs__(self):
        return mktd(abs(self.us))

    def __bool__(self):
        return bool(self.us != 0)
    __lt__ = _tdcmp(lambda a, b: a < b)
    __le__ = _tdcmp(lambda a, b: a <= b)
    __gt__ = _tdcmp(lambda a, b: a > b)
    __ge__ = _tdcmp(lambda a, b: a >= b)

    def __eq__(self, o):
        return self.us == td_us(o) if _istd(o) else False

    def __ne__(self, o):
        return sym_not(self.__eq__(o))


# ---------------------------------------------------------------------------
# evaluation under a model

def evaluate(x, model):
    """Concrete Python value of x under a z3 model (deep)."""
    t = type(x)
    if t is SymBool:
        return z3.is_true(model.eval(x.e, model_completion=True))
    if t is SymInt:
        return model.eval(x.e, model_completion=True).as_long()
    if t is SymReal:
        v = model.eval(x.e, model_completion=True)
        return float(v.numerator_as_long()) / float(v.denominator_as_long())
    if t is SymStr:
        out = ''
        for c in x.chars:
            if isinstance(c, str):
                out += c
            elif isinstance(c, SChar):
                out += chr(model.eval(c.e, model_completion=True).as_long())
            else:
                v = evaluate(c.value, model)
                if c.kind.startswith('iso'):
                    out += v.isoformat(sep='T' if 'T' in c.kind else ' ')
                elif c.kind.startswith('strftime'):
                    out += v.strftime(c.kind[9:])
                elif c.kind == 'repr':
                    out += repr(v)
                elif c.kind.startswith('format '):
                    out += format(v, c.kind[7:])
                else:
                    out += str(v)
        return out
    if t is SymDatetime:
        return us_dt(evaluate(x.us, model), x.aware)
    if t is SymTimedelta:
        return REAL_TIMEDELTA(microseconds=evaluate(x.us, model))
    if t is SymBytes or t is SymJson:
        return evaluate(x.value, model)
    if t is list:
        return [evaluate(v, model) for v in x]
    if t is tuple:
        return tuple(evaluate(v, model) for v in x)
    if t is dict:
        return {evaluate(k, model): evaluate(v, model) for k, v in x.items()}
    return x
