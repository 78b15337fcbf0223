"""Symbolic database: the real SQLAlchemy ORM runs on this dialect, whose tables hold symbolic cells.

Statements arrive as compiled SQLAlchemy Core trees and are evaluated with SQL semantics (three-valued logic,
NULLs first in ascending order as in SQLite, constraint checks) on rows whose cells may be symbolic; every
row predicate and ordering comparison is a solver-decided branch.  Rows without ORDER BY come in insertion order.
"""
from __future__ import annotations
import re
import z3
from sqlalchemy.engine import default
from sqlalchemy import types as sqltypes, create_engine as _real_create_engine
from sqlalchemy.pool import StaticPool
from sqlalchemy.sql import elements, selectable, functions, operators, dml, schema as sa_schema, visitors
from .core import (Sym, SymBool, SymInt, SymReal, SymStr, SymDatetime, Unsupported, PathEnd, is_sym, sym_and, sym_or,
                   sym_not, lift_bool, dt_us, mkdt, mkint, zint, lift_num, REAL_DATETIME)
from .models import copy_struct, find_key, _MISSING, has_sym, json_loads
from . import models, rx


class DBAPI:
    """Module-like DBAPI namespace."""
    paramstyle = 'named'
    apilevel = '2.0'
    threadsafety = 1

    class Error(Exception):
        pass

    class Warning(Exception):
        pass

    class InterfaceError(Error):
        pass

    class DatabaseError(Error):
        pass

    class DataError(DatabaseError):
        pass

    class OperationalError(DatabaseError):
        pass

    class IntegrityError(DatabaseError):
        pass

    class InternalError(DatabaseError):
        pass

    class ProgrammingError(DatabaseError):
        pass

    class NotSupportedError(DatabaseError):
        pass


class Store:
    """All tables; committed image plus working image."""

    def __init__(self):
        self.tables = {}
        self.committed = {}
        self.dirty = False
        self.listener = None      # callable(event, detail)
        self.log = []             # (event, detail)
        self.count = 0

    def reset(self):
        self.tables = {}
        self.committed = {}
        self.dirty = False
        self.listener = None
        self.log = []
        self.count = 0

    def rows(self, name):
        return self.tables.setdefault(name, [])

    def event(self, kind, detail=None):
        self.count += 1
        if self.listener is not None:
            self.listener(kind, detail)

    def commit(self):
        if self.dirty:
            self.event('before-commit')
            self.committed = {t: [dict(r) for r in rows] for t, rows in self.tables.items()}
            self.dirty = False
            self.event('after-commit')

    def rollback(self):
        if self.dirty:
            self.tables = {t: [dict(r) for r in rows] for t, rows in self.committed.items()}
            self.dirty = False

    def put(self, table, row):
        """Harness access: add a committed row."""
        self.rows(table).append(dict(row))
        self.committed.setdefault(table, []).append(dict(row))

    def snapshot(self, table):
        """Harness access: committed rows."""
        return [dict(r) for r in self.committed.get(table, [])]


STORE = Store()


class Connection:
    def cursor(self):
        return Cursor()

    def commit(self):
        STORE.commit()

    def rollback(self):
        STORE.rollback()

    def close(self):
        pass

    def create_function(self, *a, **k):
        pass


class Cursor:
    def __init__(self):
        self.description = None
        self.rowcount = -1
        self.arraysize = 1
        self.lastrowid = None
        self._rows = []

    def execute(self, *a):
        raise Unsupported('raw cursor')

    def fetchall(self):
        r, self._rows = self._rows, []
        return r

    def fetchone(self):
        return self._rows.pop(0) if self._rows else None

    def fetchmany(self, size=None):
        n = size or self.arraysize
        r, self._rows = self._rows[:n], self._rows[n:]
        return r

    def close(self):
        self._rows = []

    def setinputsizes(self, *a):
        pass


class RawJSON(sqltypes.JSON):
    def bind_processor(self, dialect):
        return lambda v: _json_store(v)

    def result_processor(self, dialect, coltype):
        return lambda v: copy_struct(v)

    class JSONIndexType(sqltypes.JSON.JSONIndexType):
        pass


def _json_store(v):
    return None if v is None else models._json_copy(v)


def naive(v):
    """SQLite keeps the wall clock and drops the zone (TZ=UTC in checks)."""
    if type(v) is SymDatetime:
        return SymDatetime(v.us, False)
    if isinstance(v, REAL_DATETIME):
        return v.replace(tzinfo=None)
    return v


class RawDateTime(sqltypes.DateTime):
    def bind_processor(self, dialect):
        def process(v):
            if v is None:
                return None
            if not isinstance(v, REAL_DATETIME):
                raise TypeError('SQLite DateTime type only accepts Python datetime and date objects as input.')
            return naive(v)
        return process

    def result_processor(self, dialect, coltype):
        return naive


class RawText(sqltypes.Text):
    def bind_processor(self, dialect):
        return None

    def result_processor(self, dialect, coltype):
        return None


class RawBoolean(sqltypes.Boolean):
    def bind_processor(self, dialect):
        return None

    def result_processor(self, dialect, coltype):
        return None

    def _strict_as_bool(self, value):
        return value


class SymDialect(default.DefaultDialect):
    name = 'sqlite'
    driver = 'symbolic'
    supports_statement_cache = False
    supports_native_boolean = True
    supports_native_decimal = True
    supports_sane_rowcount = True
    supports_sane_multi_rowcount = True
    supports_default_values = True
    supports_cast = True
    insert_returning = update_returning = delete_returning = False
    insert_executemany_returning = False
    use_insertmanyvalues = False
    postfetch_lastrowid = False
    default_paramstyle = 'named'
    colspecs = {sqltypes.JSON: RawJSON, sqltypes.DateTime: RawDateTime, sqltypes.Boolean: RawBoolean}
    _json_serializer = None
    _json_deserializer = None

    @classmethod
    def import_dbapi(cls):
        return DBAPI

    def initialize(self, connection):
        pass

    def connect(self, *a, **k):
        return Connection()

    def on_connect(self):
        return None

    def has_table(self, connection, table_name, schema=None, **kw):
        return True

    def get_table_names(self, connection, schema=None, **kw):
        return ['task', 'client']

    def _check_unicode_returns(self, c):
        return True

    def do_ping(self, c):
        return True

    def do_execute(self, cursor, statement, parameters, context=None):
        execute(cursor, context, [parameters])

    def do_execute_no_params(self, cursor, statement, context=None):
        execute(cursor, context, [{}])

    def do_executemany(self, cursor, statement, parameters, context=None):
        execute(cursor, context, parameters)


from sqlalchemy.dialects.sqlite.base import SQLiteCompiler, SQLiteTypeCompiler, SQLiteDDLCompiler, SQLiteIdentifierPreparer
SymDialect.statement_compiler = SQLiteCompiler
SymDialect.type_compiler_cls = SQLiteTypeCompiler
SymDialect.ddl_compiler = SQLiteDDLCompiler
SymDialect.preparer = SQLiteIdentifierPreparer

from sqlalchemy.dialects import registry as _registry
_registry.impls['sqlite.symbolic'] = lambda: SymDialect


def create_engine(url, **kw):
    """Stand-in for sqlalchemy.create_engine: any URL opens the symbolic database."""
    from sqlalchemy.engine.url import make_url
    make_url(url)
    return _real_create_engine('sqlite+symbolic://', poolclass=StaticPool)


# ---------------------------------------------------------------------------
# expression evaluation

TRUTHY = object()


def b_not(v):
    return None if v is None else sym_not(truth(v))


def truth(v):
    if v is None or type(v) is SymBool or v is True or v is False:
        return v
    if isinstance(v, Sym):
        return v != 0
    return bool(v)


def b_and(vals):
    vals = [truth(v) for v in vals]
    known = [v for v in vals if v is not None]
    r = sym_and(*known)
    if len(known) < len(vals):
        # NULL and x: false if x false else NULL  -> as a filter both reject
        return False if r is False else None if r is True else SymNull(r, when_true=None)
    return r


def b_or(vals):
    vals = [truth(v) for v in vals]
    known = [v for v in vals if v is not None]
    r = sym_or(*known)
    if len(known) < len(vals):
        if r is True:
            return True
        if r is False:
            return None
        return True if bool(r) else None
    return r


def SymNull(r, when_true):
    return when_true if bool(r) else False


def norm(v):
    """Bring a cell to a comparable form."""
    if isinstance(v, REAL_DATETIME):
        return dt_us(v)
    return v


def compare(op, a, b):
    if a is None or b is None:
        return None
    if isinstance(a, REAL_DATETIME) != isinstance(b, REAL_DATETIME):
        if isinstance(a, str) or isinstance(b, str):
            raise Unsupported('datetime compared with text')
    a, b = norm(a), norm(b)
    if isinstance(a, bool) and not is_sym(a):
        a = int(a)
    if isinstance(b, bool) and not is_sym(b):
        b = int(b)
    if isinstance(a, str) != isinstance(b, str):
        # SQLite: numbers sort before text; equality across classes is false
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        num_first = not isinstance(a, str)
        return num_first if op in ('lt', 'le') else not num_first
    if not is_sym(a) and is_sym(b) and isinstance(a, str):
        flip = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}[op]
        a, b, op = b, a, flip
    if type(a) is SymBool:
        a = mkint(zint(a))
    if type(b) is SymBool:
        b = mkint(zint(b))
    if op == 'eq':
        return a == b
    if op == 'ne':
        return sym_not(a == b) if not is_sym(a) else a != b
    if op == 'lt':
        return a < b
    if op == 'le':
        return a <= b
    if op == 'gt':
        return a > b
    return a >= b


class Ctx:
    def __init__(self, params, rows=None, group=None, outer=None):
        self.params = params
        self.rows = rows or {}
        self.group = group          # list of row-envs for aggregates
        self.outer = outer

    def lookup(self, col):
        t = getattr(col, 'table', None)
        c = self
        while c is not None:
            if t is not None:
                key = tkey(t)
                if key in c.rows:
                    row = c.rows[key]
                    if col.key in row:
                        return row[col.key]
                    return row[col.name]
            elif len(c.rows) == 1:
                row = next(iter(c.rows.values()))
                if col.name in row:
                    return row[col.name]
            c = c.outer
        raise Unsupported(f'column {col}')


def tkey(t):
    if isinstance(t, sa_schema.Table):
        return t.name
    name = getattr(t, 'name', None)
    return str(name) if name is not None else id(t)


_BIN = {operators.eq: 'eq', operators.ne: 'ne', operators.lt: 'lt', operators.le: 'le', operators.gt: 'gt',
        operators.ge: 'ge'}


def ev(e, c: Ctx):
    """Evaluate a Core expression."""
    if isinstance(e, elements.Null):
        return None
    if isinstance(e, elements.True_):
        return True
    if isinstance(e, elements.False_):
        return False
    if isinstance(e, elements.BindParameter):
        v = c.params[e.key] if e.key in c.params else e.effective_value
        return v
    if isinstance(e, (elements.Label,)):
        return ev(e.element, c)
    if isinstance(e, (elements.Grouping, elements.AsBoolean)):
        v = ev(e.element, c)
        if isinstance(e, elements.AsBoolean) and e.operator is operators.is_false:
            return b_not(v)
        return v
    if isinstance(e, elements.ColumnClause):
        if isinstance(e, sa_schema.Column) or e.table is not None:
            return c.lookup(e)
        if e.is_literal and e.name == '*':
            return True
        if e.is_literal and e.name.isdigit():
            return int(e.name)
        return c.lookup(e)
    if isinstance(e, elements.BooleanClauseList):
        vals = [ev(x, c) for x in e.clauses]
        return b_and(vals) if e.operator is operators.and_ else b_or(vals)
    if isinstance(e, elements.BinaryExpression):
        return ev_binary(e, c)
    if isinstance(e, elements.UnaryExpression):
        op = e.operator
        if op in (operators.inv,):
            return b_not(ev(e.element, c))
        if op is operators.neg:
            v = ev(e.element, c)
            return None if v is None else 0 - v
        if op is operators.exists:
            sub = e.element
            while isinstance(sub, (elements.Grouping, selectable.SelectStatementGrouping, selectable.ScalarSelect)):
                sub = sub.element
            return len(select_rows(sub, c.params, c)) > 0
        if op is operators.distinct_op:
            return ev(e.element, c)
        if op is None and e.modifier is not None:
            return ev(e.element, c)
        raise Unsupported(f'unary {op}')
    if isinstance(e, elements.Cast):
        v = ev(e.clause, c)
        if v is None:
            return None
        kind = e.type
        if isinstance(kind, sqltypes.String):
            return models.to_text(v) if not isinstance(v, bool) else '1' if v else '0'
        if isinstance(kind, sqltypes.Integer) and isinstance(v, int):
            return models.sym_ite(v, 1, 0) if isinstance(v, bool) and is_sym(v) else int(v) if isinstance(v, bool) else v
        if isinstance(kind, sqltypes.Float) and isinstance(v, int) and not isinstance(v, bool):
            return v * 1.0
        if type(kind) in (sqltypes.JSON, sqltypes.DateTime, sqltypes.Boolean) or type(kind) is type(e.clause.type):
            return v
        raise Unsupported(f'sql cast to {kind}')
    if isinstance(e, elements.TypeCoerce):
        return ev(e.clause, c)
    if isinstance(e, functions.FunctionElement):
        return ev_func(e, c)
    if isinstance(e, (elements.ClauseList, elements.ExpressionClauseList)):
        return [ev(x, c) for x in e.clauses]
    if isinstance(e, elements.Case):
        for cond, val in e.whens:
            t = truth(ev(cond, c)) if e.value is None else compare('eq', ev(e.value, c), ev(cond, c))
            if t is not None and bool(t):
                return ev(val, c)
        return None if e.else_ is None else ev(e.else_, c)
    if isinstance(e, selectable.ScalarSelect):
        rows = select_rows(e.element, c.params, c)
        return rows[0][0] if rows else None
    if isinstance(e, selectable.Exists):
        return len(select_rows(e.element.element, c.params, c)) > 0
    if isinstance(e, elements.TextClause):
        return TextExpr(e.text, c, {k: (c.params[k] if k in c.params else b.effective_value)
                                    for k, b in e._bindparams.items()}).parse()
    raise Unsupported(f'sql element {type(e).__name__}')


def is_json_item(e):
    while isinstance(e, elements.Grouping):
        e = e.element
    return isinstance(e, elements.BinaryExpression) and e.operator in (operators.json_getitem_op,
                                                                       operators.json_path_getitem_op)


def json_kind(v, stored):
    """What json_quote() of an extracted member, or the JSON text of a bound value, begins with."""
    if v is None:
        return 'null', v
    if isinstance(v, bool) or type(v) is SymBool:
        return ('int', mkint(zint(v)) if is_sym(v) else int(v)) if stored else ('bool', v)
    if isinstance(v, str):
        return 'text', v
    if isinstance(v, float):
        return 'real', v
    if isinstance(v, (dict, list)):
        return 'other', v
    return 'int', v


def json_same(a, b, sa, sb):
    """JSON_QUOTE(JSON_EXTRACT(..)) = <JSON text>: an absent or null member reads 'null', truth values read 1 and 0."""
    (ka, a), (kb, b) = json_kind(a, sa), json_kind(b, sb)
    if ka != kb:
        return False
    return True if ka == 'null' else a == b


LIKE = {operators.like_op: (False, '', ''), operators.ilike_op: (False, '', ''), operators.not_like_op: (True, '', ''),
        operators.not_ilike_op: (True, '', ''), operators.contains_op: (False, '%', '%'),
        operators.not_contains_op: (True, '%', '%'), operators.startswith_op: (False, '', '%'),
        operators.not_startswith_op: (True, '', '%'), operators.endswith_op: (False, '%', ''),
        operators.not_endswith_op: (True, '%', '')}


def ev_binary(e, c):
    op = e.operator
    if op in (operators.eq, operators.ne) and (is_json_item(e.left) or is_json_item(e.right)):
        r = json_same(ev(e.left, c), ev(e.right, c), is_json_item(e.left), is_json_item(e.right))
        return sym_not(r) if op is operators.ne else r
    if op in _BIN:
        return compare(_BIN[op], ev(e.left, c), ev(e.right, c))
    if op in (operators.is_, operators.is_not, operators.is_not_distinct_from, operators.is_distinct_from):
        a, b = ev(e.left, c), ev(e.right, c)
        neg = op in (operators.is_not, operators.is_distinct_from)
        if a is None or b is None:
            r = a is None and b is None
        else:
            r = compare('eq', a, b)
        return sym_not(r) if neg else r
    if op in (operators.in_op, operators.not_in_op):
        a = ev(e.left, c)
        r = e.right
        if isinstance(r, (selectable.SelectBase, selectable.ScalarSelect)):
            sel = r
            while isinstance(sel, (selectable.SelectStatementGrouping, selectable.ScalarSelect, selectable.Subquery)):
                sel = sel.element
            vals = [row[0] for row in select_rows(sel, c.params, c)]
        else:
            vals = ev(r, c)
        if not isinstance(vals, (list, tuple)):
            vals = [vals]
        res = b_or([compare('eq', a, v) for v in vals]) if vals else False
        return b_not(res) if op is operators.not_in_op else res
    if op in (operators.between_op, operators.not_between_op):
        a = ev(e.left, c)
        lo, hi = ev(e.right, c)
        t = b_and([compare('ge', a, lo), compare('le', a, hi)])
        return b_not(t) if op is operators.not_between_op else t
    if op in (operators.add, operators.sub, operators.mul, operators.truediv, operators.floordiv, operators.mod):
        a, b = ev(e.left, c), ev(e.right, c)
        if a is None or b is None:
            return None
        return {operators.add: lambda: a + b, operators.sub: lambda: a - b, operators.mul: lambda: a * b,
                operators.truediv: lambda: a / b, operators.floordiv: lambda: a // b,
                operators.mod: lambda: a % b}[op]()
    if op is operators.concat_op:
        a, b = ev(e.left, c), ev(e.right, c)
        return None if a is None or b is None else a + b
    if op in (operators.regexp_match_op, operators.not_regexp_match_op):
        a, b = ev(e.left, c), ev(e.right, c)
        if a is None or b is None:
            return None
        r = (rx.search(b, a) if is_sym(a) else re.search(b, a)) is not None
        return (not r) if op is operators.not_regexp_match_op else r
    if op in (operators.json_getitem_op, operators.json_path_getitem_op):
        a, k = ev(e.left, c), ev(e.right, c)
        return json_get(a, k)
    like = LIKE.get(op)
    if like is not None:
        a, b = ev(e.left, c), ev(e.right, c)
        if a is None or b is None:
            return None
        if is_sym(b):
            raise Unsupported('symbolic pattern')
        negate, b = like[0], like[1] + b + like[2]
        esc = e.modifiers.get('escape')
        pat, i = '', 0
        while i < len(b):
            ch = b[i]
            if esc is not None and ch == esc and i + 1 < len(b):
                i += 1
                pat += re.escape(b[i])
            else:
                pat += '.*' if ch == '%' else '.' if ch == '_' else re.escape(ch)
            i += 1
        p = re.compile('(?s)' + pat, re.I)
        r = (rx.fullmatch(p, a) if is_sym(a) else p.fullmatch(a)) is not None
        return (not r) if negate else r
    if op is operators.and_:
        return b_and([ev(e.left, c), ev(e.right, c)])
    if op is operators.or_:
        return b_or([ev(e.left, c), ev(e.right, c)])
    if op is operators.comma_op:
        return [ev(e.left, c), ev(e.right, c)]
    if isinstance(op, operators.custom_op) and op.opstring.upper() in ('REGEXP',):
        a, b = ev(e.left, c), ev(e.right, c)
        if a is None or b is None:
            return None
        return (rx.search(b, a) if is_sym(a) else re.search(b, a)) is not None
    raise Unsupported(f'sql operator {op}')


def json_get(a, k):
    if a is None or not isinstance(a, (dict, list)):
        return None
    if isinstance(a, dict):
        key = find_key(a, k) if is_sym(k) else (k if k in a else _MISSING)
        return None if key is _MISSING else a[key]
    return a[k] if isinstance(k, int) and k < len(a) else None


def ev_func(e, c):
    name = e.name.lower()
    args = list(e.clauses) if hasattr(e, 'clauses') else []
    if name in ('count', 'max', 'min', 'avg', 'sum') and c.group is not None:
        distinct = False
        star = not args or (isinstance(args[0], elements.ColumnClause) and args[0].name == '*') \
            or isinstance(args[0], elements.TextClause)
        if star:
            return len(c.group)
        a = args[0]
        if isinstance(a, elements.UnaryExpression) and a.operator is operators.distinct_op:
            distinct, a = True, a.element
        vals = [ev(a, Ctx(c.params, r, None, c.outer)) for r in c.group]
        vals = [v for v in vals if v is not None]
        if distinct:
            vals = dedupe([(v,) for v in vals])
            vals = [v[0] for v in vals]
        if name == 'count':
            return len(vals)
        if not vals:
            return None
        if name in ('max', 'min'):
            best = vals[0]
            for v in vals[1:]:
                if bool(compare('gt' if name == 'max' else 'lt', v, best)):
                    best = v
            return best
        total = vals[0]
        for v in vals[1:]:
            total = total + v
        if name == 'sum':
            return total
        return total / len(vals)
    vals = [ev(a, c) for a in args]
    return scalar_func(name, vals)


def scalar_func(name, vals):
    if name == 'coalesce':
        for v in vals:
            if v is not None:
                return v
        return None
    if name in ('lower', 'upper'):
        return None if vals[0] is None else getattr(vals[0], name)()
    if name == 'length':
        return None if vals[0] is None else len(vals[0])
    if name == 'abs':
        return None if vals[0] is None else abs(vals[0])
    if name == 'json_extract':
        return json_path_get(vals[0], vals[1])
    if name == 'json_type':
        doc = vals[0]
        k = json_path(vals[1]) if len(vals) > 1 else None
        if k is not None:
            key = find_key(doc, k) if is_sym(k) else (k if k in doc else _MISSING)
            if key is _MISSING:
                return None
            doc = doc[key]
        kind = json_kind(doc, False)[0]
        return {'int': 'integer', 'bool': 'true' if doc is True else 'false', 'other': 'object'}.get(kind, kind)
    if name == 'json_quote':
        return vals[0]
    if name == 'json_set':
        return json_set(vals[0], vals[1:])
    if name == 'json_remove':
        return json_remove(vals[0], vals[1:])
    if name == 'json':
        return json_loads(vals[0])
    raise Unsupported(f'sql function {name}')


def json_path(p):
    """SQLite path of one object member: $.key, $."key"  (key text may be symbolic)."""
    if isinstance(p, str) and not is_sym(p):
        m = re.fullmatch(r'\$\."([^"]*)"', p) or re.fullmatch(r'\$\.([^".\[]+)', p)
        if not m:
            raise Unsupported(f'json path {p}')
        return m.group(1)
    m = rx.fullmatch(re.compile(r'\$\."([^"]*)"', re.S), p) or rx.fullmatch(re.compile(r'\$\.([^".\[]+)', re.S), p)
    if not m:
        raise Unsupported('json path')
    return m.group(1)


def json_path_get(doc, p):
    return json_get(doc, json_path(p))


def json_set(doc, kv):
    out = copy_struct(doc)
    for p, v in zip(kv[::2], kv[1::2]):
        models.setitem(out, json_path(p), v)
    return out


def json_remove(doc, ps):
    out = copy_struct(doc)
    for p in ps:
        k = json_path(p)
        key = find_key(out, k) if is_sym(k) else (k if k in out else _MISSING)
        if key is not _MISSING:
            out.pop(key)
    return out


class TextExpr:
    """Expressions in raw SQL text: columns, :binds, literals, function calls, is [not] null, comparisons, and/or/not."""
    TOK = re.compile(r"\s*(?:(:\w+)|('(?:[^']|'')*')|(\d+(?:\.\d+)?)|(\"?[A-Za-z_]\w*\"?(?:\.\"?\w+\"?)?)"
                     r"|(<=|>=|!=|<>|==|->>|->|[-+*/<>=(),]))")

    def __init__(self, text, c, params):
        self.c = c
        self.params = params
        self.toks = []
        i = 0
        text = text.strip()
        while i < len(text):
            m = self.TOK.match(text, i)
            if not m:
                raise Unsupported(f'sql text {text}')
            self.toks.append(m)
            i = m.end()
        self.i = 0

    def peek(self):
        return self.toks[self.i].group().strip() if self.i < len(self.toks) else None

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def accept(self, *words):
        save = self.i
        for w in words:
            t = self.peek()
            if t is None or t.lower() != w:
                self.i = save
                return False
            self.i += 1
        return True

    def parse(self):
        v = self.p_or()
        if self.peek() is not None:
            raise Unsupported('sql text')
        return v

    def p_or(self):
        vals = [self.p_and()]
        while self.accept('or'):
            vals.append(self.p_and())
        return vals[0] if len(vals) == 1 else b_or(vals)

    def p_and(self):
        vals = [self.p_not()]
        while self.accept('and'):
            vals.append(self.p_not())
        return vals[0] if len(vals) == 1 else b_and(vals)

    def p_not(self):
        if self.accept('not'):
            return b_not(self.p_not())
        a = self.p_atom()
        if self.accept('is', 'not', 'null'):
            return a is not None
        if self.accept('is', 'null'):
            return a is None
        for t, op in (('==', 'eq'), ('=', 'eq'), ('!=', 'ne'), ('<>', 'ne'), ('<=', 'le'), ('>=', 'ge'), ('<', 'lt'),
                      ('>', 'gt')):
            if self.accept(t):
                return compare(op, a, self.p_atom())
        return a

    def p_atom(self):
        m = self.toks[self.i] if self.i < len(self.toks) else None
        if m is None:
            raise Unsupported('sql text')
        self.i += 1
        bind, lit, num, name, sym = m.groups()
        if bind:
            return self.params[bind[1:]]
        if lit:
            return lit[1:-1].replace("''", "'")
        if num:
            return float(num) if '.' in num else int(num)
        if name:
            if self.peek() == '(':
                self.i += 1
                args = []
                while self.peek() != ')':
                    args.append(self.p_or())
                    if self.peek() == ',':
                        self.i += 1
                self.i += 1
                return scalar_func(name.lower(), args)
            if name.lower() == 'null':
                return None
            if name.lower() in ('true', 'false'):
                return name.lower() == 'true'
            parts = name.replace('"', '').split('.')
            for key, row in self.c.rows.items():
                if (len(parts) == 1 or key == parts[0]) and parts[-1] in row:
                    return row[parts[-1]]
            raise Unsupported(f'sql name {name}')
        if sym == '(':
            v = self.p_or()
            self.next()
            return v
        raise Unsupported(f'sql text token {sym}')


# ---------------------------------------------------------------------------
# statements

def source_rows(frm, params, outer):
    """List of row environments {tablekey: row}."""
    if isinstance(frm, sa_schema.Table):
        return [{frm.name: r} for r in STORE.rows(frm.name)]
    if isinstance(frm, selectable.Join):
        left = source_rows(frm.left, params, outer)
        right = source_rows(frm.right, params, outer)
        out = []
        for l in left:
            hit = False
            for r in right:
                env = {**l, **r}
                t = truth(ev(frm.onclause, Ctx(params, env, None, outer)))
                if t is not None and bool(t):
                    out.append(env)
                    hit = True
            if frm.isouter and not hit:
                null = {}
                for k in (right[0] if right else {}):
                    null[k] = {x: None for x in right[0][k]}
                out.append({**l, **null})
        return out
    if isinstance(frm, (selectable.Subquery, selectable.Alias, selectable.CTE)):
        el = frm.element
        if isinstance(el, sa_schema.Table):
            return [{tkey(frm): r} for r in STORE.rows(el.name)]
        sel = el
        while isinstance(sel, (selectable.SelectStatementGrouping, selectable.Subquery)):
            sel = sel.element
        rows = select_rows(sel, params, outer)
        keys = [col.key for col in frm.c]
        return [{tkey(frm): dict(zip(keys, r))} for r in rows]
    raise Unsupported(f'from {type(frm).__name__}')


def is_agg(e):
    found = []

    def visit(x):
        if isinstance(x, functions.FunctionElement) and x.name.lower() in ('count', 'max', 'min', 'avg', 'sum'):
            found.append(x)
    for x in visitors.iterate(e):
        if isinstance(x, selectable.SelectBase):
            continue
        visit(x)
    return bool(found)


def dedupe(rows):
    out = []
    for r in rows:
        for q in out:
            if len(q) == len(r) and bool(sym_and(*[same(x, y) for x, y in zip(q, r)])):
                break
        else:
            out.append(r)
    return out


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    return compare('eq', a, b) if not isinstance(a, (dict, list)) else a == b


def order_key_cmp(a, b, desc, nulls):
    """-1/0/1 of two cells under one ORDER BY term; forks on symbolic comparisons."""
    if a is None or b is None:
        if a is None and b is None:
            return 0
        first = (a is None)
        nulls_first = (not desc) if nulls is None else nulls == 'first'
        return -1 if first == nulls_first else 1
    if bool(compare('eq', a, b)):
        return 0
    lt = bool(compare('lt', a, b))
    return (1 if lt else -1) if desc else (-1 if lt else 1)


def order_terms(clauses):
    out = []
    for cl in clauses:
        desc, nulls, e = False, None, cl
        while isinstance(e, (elements.UnaryExpression, elements.Label, elements._label_reference, elements.Grouping)):
            if isinstance(e, elements.UnaryExpression):
                if e.modifier is operators.desc_op:
                    desc = True
                elif e.modifier is operators.asc_op:
                    pass
                elif e.modifier is operators.nulls_first_op:
                    nulls = 'first'
                elif e.modifier is operators.nulls_last_op:
                    nulls = 'last'
                else:
                    break
            e = e.element
        out.append((e, desc, nulls))
    return out


def sort_items(items, keysof, terms):
    """Stable insertion sort."""
    out = []
    for it in items:
        ks = keysof(it)
        i = len(out)
        while i > 0:
            cmp = 0
            for (e, desc, nulls), x, y in zip(terms, ks, out[i - 1][0]):
                cmp = order_key_cmp(x, y, desc, nulls)
                if cmp:
                    break
            if cmp < 0:
                i -= 1
            else:
                break
        out.insert(i, (ks, it))
    return [it for _, it in out]


def select_rows(st, params, outer=None):
    if isinstance(st, (selectable.SelectStatementGrouping, selectable.ScalarSelect, selectable.Subquery)):
        return select_rows(st.element, params, outer)
    if isinstance(st, selectable.CompoundSelect):
        rows = []
        for s in st.selects:
            rows += select_rows(s, params, outer)
        if 'ALL' not in str(st.keyword):
            rows = dedupe(rows)
        if st._order_by_clauses or st._limit_clause is not None or st._offset_clause is not None:
            raise Unsupported('order of a union')
        return rows
    if not isinstance(st, selectable.Select):
        raise Unsupported(f'select {type(st).__name__}')
    froms = st.get_final_froms()
    outer_keys = set()
    o = outer
    while o is not None:
        outer_keys |= set(o.rows)
        o = o.outer
    if outer is not None:
        # correlation: tables of the enclosing query are not re-scanned
        kept = [f for f in froms if tkey(f) not in outer_keys]
        froms = kept or froms
    envs = [{}]
    for f in froms:
        envs = [{**a, **b} for a in envs for b in source_rows(f, params, outer)]
    sel = []
    for env in envs:
        ok = True
        for w in st._where_criteria:
            t = truth(ev(w, Ctx(params, env, None, outer)))
            if t is None or not bool(t):
                ok = False
                break
        if ok:
            sel.append(env)
    cols = list(expand_columns(st))
    group_by = list(st._group_by_clauses)
    terms = order_terms(st._order_by_clauses)
    if group_by or any(is_agg(x) for x in cols):
        groups = []
        if group_by:
            for env in sel:
                key = [ev(g, Ctx(params, env, None, outer)) for g in group_by]
                for k, members in groups:
                    if bool(sym_and(*[same(x, y) for x, y in zip(k, key)])):
                        members.append(env)
                        break
                else:
                    groups.append((key, [env]))
        else:
            groups = [([], sel)]
        items = []
        for key, members in groups:
            cc = Ctx(params, members[0] if members else {}, members, outer)
            if st._having_criteria:
                t = b_and([ev(h, cc) for h in st._having_criteria])
                if t is None or not bool(t):
                    continue
            items.append((cc, tuple(ev_group(x, cc) for x in cols)))
        if terms:
            items = sort_items(items, lambda it: [ev(t[0], it[0]) for t in terms], terms)
        rows = [r for _, r in items]
    else:
        if terms:
            sel = sort_items(sel, lambda env: [ev(t[0], Ctx(params, env, None, outer)) for t in terms], terms)
        rows = [tuple(ev(x, Ctx(params, env, None, outer)) for x in cols) for env in sel]
    if st._distinct or any(isinstance(x, elements.UnaryExpression) and x.operator is operators.distinct_op for x in cols):
        rows = dedupe(rows)
    off = 0
    if st._offset_clause is not None:
        off = ev(st._offset_clause, Ctx(params))
    lim = None
    if st._limit_clause is not None:
        lim = ev(st._limit_clause, Ctx(params))
    from .core import concretize
    if is_sym(lim):
        n = len(rows) - off
        k = 0
        while k < n and bool(sym_or(lim > k, lim < 0)):
            k += 1
        lim = k
    elif lim is not None and lim < 0:
        lim = None
    rows = rows[off:] if lim is None else rows[off:off + lim]
    return rows


def ev_group(x, cc):
    return ev(x, cc)


def expand_columns(st):
    for col in st._raw_columns:
        if isinstance(col, (sa_schema.Table, selectable.FromClause)):
            yield from col.c
        elif hasattr(col, '_all_selected_columns') and not isinstance(col, elements.ColumnElement):
            yield from col._all_selected_columns
        else:
            yield col


def table_of(st):
    return st.table


def row_copy(row):
    return dict(row)


def execute(cursor, context, parameters):
    if context is None or context.compiled is None or getattr(context, 'isddl', False):
        st = context.statement if context is not None else ''
        if context is not None and context.compiled is None:
            up = (st or '').strip().upper()
            if not up.startswith(('PRAGMA', 'CREATE', 'DROP', 'VACUUM', 'ANALYZE')):
                raise Unsupported(f'raw SQL {st}')
        cursor.rowcount = 0
        return
    compiled = context.compiled
    st = compiled.statement
    cs = getattr(compiled, 'compile_state', None)
    plist = context.compiled_parameters
    STORE.event('statement', type(st).__name__)
    if isinstance(st, elements.TextClause):
        up = st.text.strip().upper()
        if up.startswith(('PRAGMA', 'VACUUM', 'ANALYZE', 'CREATE', 'DROP')):
            STORE.log.append(('raw', up))
            cursor.rowcount = 0
            return
        raw_select(cursor, st, plist[0])
        return
    if isinstance(st, dml.Insert):
        n = 0
        for p in plist:
            do_insert(st, p)
            n += 1
        cursor.rowcount = n
        return
    if isinstance(st, dml.Update):
        cursor.rowcount = sum(do_update(compiled, st, p) for p in plist)
        return
    if isinstance(st, dml.Delete):
        cursor.rowcount = sum(do_delete(st, p) for p in plist)
        return
    core = getattr(cs, 'statement', None)
    if core is None or not isinstance(core, (selectable.Select, selectable.CompoundSelect)):
        core = st
    if isinstance(core, selectable.FromStatement if hasattr(selectable, 'FromStatement') else ()):
        core = core.element
    params = plist[0]
    rows = select_rows(core, params)
    names = [rc.keyname for rc in compiled._result_columns]
    cursor.description = [(n, None, None, None, None, None, None) for n in names]
    cursor._rows = [tuple(copy_struct(v) for v in r) for r in rows]
    cursor.rowcount = -1
    STORE.log.append(('select', len(rows)))


def raw_select(cursor, st, params):
    """select [distinct] EXPR from TABLE, json_each(COLUMN) as ALIAS [where EXPR]"""
    m = re.fullmatch(r'\s*select\s+(distinct\s+)?(.+?)\s+from\s+(\w+)\s*,\s*json_each\((?:\w+\.)?(\w+)\)\s+(?:as\s+)?(\w+)'
                     r'(?:\s+where\s+(.+?))?\s*;?\s*', st.text, re.S | re.I)
    if not m:
        raise Unsupported(f'raw SQL {st.text}')
    distinct, what, table, column, alias, where = m.groups()
    binds = {k: (params[k] if k in params else b.effective_value) for k, b in st._bindparams.items()}
    out = []
    for row in STORE.rows(table):
        for k, v in (row[column] or {}).items():
            c = Ctx(params, {table: row, alias: {'key': k, 'value': int(v) if isinstance(v, bool) and not is_sym(v) else v}})
            if where is not None:
                t = truth(TextExpr(where, c, binds).parse())
                if t is None or not bool(t):
                    continue
            out.append((TextExpr(what, c, binds).parse(),))
    if distinct:
        out = dedupe(out)
    cursor.description = [(what, None, None, None, None, None, None)]
    cursor._rows = out
    cursor.rowcount = -1


def constraint_checks(table, row, others):
    for col in table.columns:
        v = row.get(col.key)
        if not col.nullable and v is None:
            raise DBAPI.IntegrityError(f'NOT NULL constraint failed: {table.name}.{col.key}')
        if (col.unique or col.primary_key) and v is not None:
            for o in others:
                w = o.get(col.key)
                if w is not None and bool(same(v, w)):
                    raise DBAPI.IntegrityError(f'UNIQUE constraint failed: {table.name}.{col.key}')


def bindval(col, v):
    if isinstance(col.type, sqltypes.DateTime):
        return RawDateTime().bind_processor(None)(v)
    if isinstance(col.type, sqltypes.JSON):
        return _json_store(v)
    if isinstance(v, (dict, list)):
        raise DBAPI.ProgrammingError(f"Error binding parameter: type '{type(v).__name__}' is not supported")
    return v


def do_insert(st, p):
    table = st.table
    row = {col.key: None for col in table.columns}
    for col in table.columns:
        if col.key in p:
            row[col.key] = bindval(col, p[col.key])
        elif col.default is not None and col.default.is_scalar:
            row[col.key] = bindval(col, col.default.arg)
    rows = STORE.rows(table.name)
    constraint_checks(table, row, rows)
    rows.append(row)
    STORE.dirty = True
    STORE.log.append(('insert', table.name, row.get('id')))


def do_update(compiled, st, p):
    table = st.table
    where = list(st._where_criteria)
    sets = {}
    for k, v in (st._values or {}).items():
        sets[k.key if hasattr(k, 'key') else k] = v
    for k, v in (getattr(st, '_ordered_values', None) or []):
        sets[k.key if hasattr(k, 'key') else k] = v
    binds = set()
    for w in where:
        for x in visitors.iterate(w):
            if isinstance(x, elements.BindParameter):
                binds.add(x.key)
    for k in (compiled.column_keys or []):
        if k in table.columns and k not in sets and k in p and k not in binds:
            sets[k] = _Raw(p[k])
    n = 0
    for row in STORE.rows(table.name):
        c = Ctx(p, {table.name: row})
        ok = True
        for w in where:
            t = truth(ev(w, c))
            if t is None or not bool(t):
                ok = False
                break
        if not ok:
            continue
        new = {}
        for k, v in sets.items():
            col = table.columns[k]
            if isinstance(v, _Raw):
                x = v.v
            elif isinstance(v, elements.BindParameter):
                x = p[k] if (k in p and v.key not in p) else ev(v, c)
            elif isinstance(v, elements.ClauseElement):
                x = ev(v, c)
            else:
                x = v
            new[k] = bindval(col, x)
        n += 1
        merged = {**row, **new}
        constraint_checks(table, merged, [r for r in STORE.rows(table.name) if r is not row])
        row.update(new)
        STORE.dirty = True
        STORE.log.append(('update', table.name, row.get('id'), tuple(sorted(new))))
    return n


class _Raw:
    def __init__(self, v):
        self.v = v


def do_delete(st, p):
    table = st.table
    rows = STORE.rows(table.name)
    kept, n = [], 0
    for row in rows:
        ok = True
        for w in st._where_criteria:
            t = truth(ev(w, Ctx(p, {table.name: row})))
            if t is None or not bool(t):
                ok = False
                break
        if ok:
            n += 1
            STORE.dirty = True
            STORE.log.append(('delete', table.name, row.get('id')))
        else:
            kept.append(row)
    STORE.tables[table.name] = kept
    return n
