"""Database access for harnesses: symbolic store or a real SQLite file, same interface."""
from __future__ import annotations
import gc
import datetime as _dt
from .core import REAL_DATETIME, SymDatetime, is_sym


def _naive(v):
    if type(v) is SymDatetime:
        return SymDatetime(v.us, False)
    if isinstance(v, REAL_DATETIME) and v.tzinfo is not None:
        return v.astimezone(_dt.timezone.utc).replace(tzinfo=None)
    return v


class BaseDB:
    def __init__(self, env):
        self.env = env
        self.hook = None         # callable(kind) with kind in read/write/commit
        self.busy = False

    def event(self, kind):
        if self.hook is not None and not self.busy:
            self.busy = True
            try:
                self.hook(kind)
            finally:
                self.busy = False


class SymDB(BaseDB):
    def __init__(self, env):
        super().__init__(env)
        from . import db
        self.store = db.STORE
        self.store.reset()

    def put(self, table, **row):
        row = {k: _naive(v) for k, v in row.items()}
        self.store.put(table, row)

    def rows(self, table):
        return self.store.snapshot(table)

    def update(self, table, id, **changes):
        """Another process's committed update (id concrete)."""
        changes = {k: _naive(v) for k, v in changes.items()}
        for img in (self.store.tables, self.store.committed):
            for r in img.get(table, []):
                if r['id'] == id:
                    r.update(changes)


class ConDB(BaseDB):
    def __init__(self, env, engine):
        super().__init__(env)
        self.engine = engine
        from hypershell.data.model import Entity
        self.meta = Entity.metadata
        for left in (1, 0):
            try:
                with engine.begin() as c:
                    for t in self.meta.sorted_tables:
                        c.execute(t.delete())
                break
            except Exception:
                if not left:
                    raise
                # a connection of an abandoned run still holds its lock
                gc.collect()
                engine.dispose()

    def put(self, table, **row):
        t = self.meta.tables[table]
        with self.engine.begin() as c:
            c.execute(t.insert().values(**{k: _naive(v) for k, v in row.items()}))

    def rows(self, table):
        from sqlalchemy import text
        t = self.meta.tables[table]
        with self.engine.connect() as c:
            return [{k: _naive(v) for k, v in r._mapping.items()}
                    for r in c.execute(t.select().order_by(text('rowid')))]

    def update(self, table, id, **changes):
        t = self.meta.tables[table]
        with self.engine.begin() as c:
            c.execute(t.update().where(t.c.id == id).values(**{k: _naive(v) for k, v in changes.items()}))


TASK_NULLS = dict(submit_host=None, server_id=None, server_host=None, schedule_time=None, client_id=None,
                  client_host=None, command=None, start_time=None, completion_time=None, exit_status=None,
                  outpath=None, errpath=None, waited=None, duration=None, previous_id=None, next_id=None)


def task_row(env, id, **over):
    """A freshly submitted task record (all later fields empty)."""
    row = dict(id=id, args=f'cmd {id}', submit_id='submitter', submit_time=None, attempt=1, retried=False, tag={})
    row.update(TASK_NULLS)
    row['submit_host'] = 'host'
    row.update(over)
    return row


class Hooks:
    """SQLAlchemy events of the project's engine forwarded to the active environment's db."""

    def __init__(self, engine, current):
        from sqlalchemy import event

        @event.listens_for(engine, 'before_cursor_execute')
        def before(conn, cursor, statement, parameters, context, executemany):
            env = current()
            db = getattr(env, 'db', None)
            if db is not None and db.hook is not None:
                s = statement.lstrip()[:6].upper()
                if s in ('INSERT', 'UPDATE', 'DELETE'):
                    db.event('write')
                elif s == 'SELECT':
                    db.event('read')

        @event.listens_for(engine, 'commit')
        def commit(conn):
            env = current()
            db = getattr(env, 'db', None)
            if db is not None and db.hook is not None:
                db.event('commit')
