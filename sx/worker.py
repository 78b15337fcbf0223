"""Worker process: explores harness paths symbolically, or runs recorded assignments on the real code."""
from __future__ import annotations
import os
import sys
import inspect
import json
import time
import signal
import tempfile
import shutil
import traceback
import importlib
import random
import resource

REPO = os.environ.get('SX_REPO', '/repo')
VENV = '/opt/venv/lib/python3.12/site-packages'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Alarm(BaseException):
    pass


def setup_environment(scratch, mode):
    for k in [k for k in os.environ if k.startswith('HYPERSHELL')]:
        del os.environ[k]
    home = os.path.join(scratch, 'home')
    site = os.path.join(scratch, 'site')
    os.makedirs(home)
    os.makedirs(site)
    os.environ.update(HOME=home, HYPERSHELL_SITE=site, TZ='UTC', HYPERSHELL_LOGGING_LEVEL='critical',
                      HYPERSHELL_DATABASE_FILE=os.path.join(scratch, 'task.db'), NO_COLOR='1', COLUMNS='100000',
                      SHELL='/bin/sh', HYPERSHELL_CONFIG_FILE='')
    del os.environ['HYPERSHELL_CONFIG_FILE']
    time.tzset()
    os.chdir(scratch)


THIRD_PARTY = ['sqlalchemy', 'sqlalchemy.orm', 'sqlalchemy.orm.exc', 'sqlalchemy.ext.declarative',
               'sqlalchemy.dialects.postgresql', 'sqlalchemy.dialects.sqlite', 'sqlalchemy.sql.elements',
               'cmdkit.app', 'cmdkit.cli', 'cmdkit.config', 'cmdkit.logging', 'tomlkit', 'rich', 'rich.console',
               'rich.table', 'rich.syntax', 'yaml', 'paramiko', 'psutil', 'logging.handlers', 'multiprocessing.managers',
               'multiprocessing', 'concurrent.futures', 'uuid', 'socket', 'platform', 'shlex', 'greenlet', 'decimal',
               'fractions', 'statistics', 'csv', 'secrets', 'parse_it', 'toml', 'ctypes', 'tabulate', 'requests',
               'rich.progress', 'rich.live', 'rich.panel', 'rich.layout']


def bootstrap(mode, scratch):
    sys.dont_write_bytecode = True
    sys.path.insert(0, ROOT)
    sys.path.append(VENV)
    setup_environment(scratch, mode)
    if mode == 'sym':      # symbolic text passes through this library into task environments
        from sx import instrument
        sys.meta_path.insert(0, instrument.Finder(('cmdkit.namespace',), VENV))
    for m in THIRD_PARTY:
        try:
            importlib.import_module(m)
        except Exception:
            pass
    from sx import env
    env.install_patches()
    from sx import des
    des.install()
    if mode == 'sym':
        from sx import instrument, db
        instrument.install(os.path.join(REPO, 'src'), ('hypershell',))
        sys.meta_path.insert(0, instrument.Finder(('checks',), ROOT))
        import sqlalchemy
        import sqlalchemy.engine
        sqlalchemy.create_engine = db.create_engine
        sqlalchemy.engine.create_engine = db.create_engine
    else:
        sys.path.insert(0, os.path.join(REPO, 'src'))
    return env


def raised_for_the_code(tb, e, mode):
    """An exception raised here on behalf of the code under test (a modelled failure, or an answer that lacks what it must
    have), not an error of the machinery. A symbolic run only nominates it: the real code has to repeat it."""
    inner = tb[-1]
    explicit = (inner.line or '').strip().startswith('raise ')
    if any('/hypershell/' in f.filename for f in tb):
        return explicit or mode == 'sym' and inner.filename.startswith(ROOT + '/sx/')
    return isinstance(e, (KeyError, IndexError, ValueError, AssertionError))


class Worker:
    def __init__(self, mode, module, scratch, known):
        self.mode = mode
        self.scratch = scratch
        self.known = known
        self.env_mod = bootstrap(mode, scratch)
        for m in module.split(','):
            importlib.import_module('checks.' + m)
        import hypershell
        f = os.path.realpath(hypershell.__file__)
        if not f.startswith(os.path.realpath(os.path.join(REPO, 'src')) + '/'):
            raise RuntimeError(f'wrong project sources: {f}')
        self.db_engine = None
        if 'hypershell.data.core' in sys.modules:
            from sx import dbenv
            core = sys.modules['hypershell.data.core']
            self.db_engine = core.engine
            if mode != 'sym' and 'hypershell.data.model' in sys.modules:
                sys.modules['hypershell.data.model'].Entity.metadata.create_all(core.engine)
            if 'hypershell.data.model' in sys.modules:
                dbenv.Hooks(core.engine, self.env_mod.current)
                from sqlalchemy.orm import configure_mappers
                configure_mappers()
        self.stub_tracebacks()
        self.snap = self.env_mod.Snapshot()
        from sx import instrument
        instrument.ENCODED.clear()
        self.n = 0

    def stub_tracebacks(self):
        """Crash dumps written to disk by the project are recorded instead."""
        exc = sys.modules.get('hypershell.core.exceptions')
        real = getattr(exc, 'write_traceback', None)
        if real is None:
            return
        cur = self.env_mod.current
        sig = inspect.signature(real)

        def write_traceback(err, *a, **k):
            env = cur()
            if env is not None:
                env.tracebacks.append(err)
            b = sig.bind(err, *a, **k)
            b.apply_defaults()
            return b.arguments.get('status')
        for name, m in list(sys.modules.items()):
            if m is not None and name.startswith('hypershell') and m.__dict__.get('write_traceback') is real:
                m.write_traceback = write_traceback

    def reset(self):
        self.snap.restore()
        core = sys.modules.get('hypershell.data.core')
        if core is not None and hasattr(core, 'Session'):
            try:
                core.Session.remove()
            except Exception:
                traceback.print_exc()
        close = getattr(sys.modules.get('sqlalchemy.orm'), 'close_all_sessions', None)
        if close is not None:   # also those of modules loaded anew during a path
            close()
        from sx import models
        models.reset_ticks()

    def attach_db(self, env):
        if self.db_engine is not None and 'hypershell.data.model' in sys.modules:
            from sx import dbenv
            if self.mode == 'sym':
                env.db = dbenv.SymDB(env)
            else:
                env.db = dbenv.ConDB(env, self.db_engine)

    # -- one run ------------------------------------------------------------------
    def run_once(self, h, case, env):
        """-> (outcome, detail) ; detail for violation: (message, model)"""
        em = self.env_mod
        core = sys.modules['sx.core']
        self.reset()
        em.CURRENT[0] = None
        self.attach_db(env)
        em.CURRENT[0] = env
        out, err = sys.stdout, sys.stderr
        try:
            h.fn(env, **case)
            return 'ok', None
        except core.PathEnd as e:
            if h.liveness and (e.reason in ('loop bound', 'environment call bound', 'schedule bound')
                               or e.reason.startswith('blocked ')):
                return 'violation', (f'does not terminate within bounds ({e.reason})', None)
            return 'end', e.reason
        except core.Infeasible:
            return 'infeasible', None
        except core.Violation as v:
            return 'violation', (v.message, v.model)
        except em.CheckFailed as v:
            return 'violation', (v.message, v.known)
        except Alarm:
            return 'hang', None
        except core.Unsupported as e:
            return 'unsupported', f'{e} @ {where()}'
        except (Exception, SystemExit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            inner = tb[-1].filename
            if core.Engine.current is not None and core.Engine.current.unsupported:
                return 'unsupported', f'{core.Engine.current.unsupported[0]} @ {where()}'
            infra = [f for f in tb if f.filename.startswith(ROOT)]
            text = ''.join(traceback.format_exception(e))[-3000:]
            if inner.startswith(ROOT + '/') and not isinstance(e, (_Empty, _Full)) and not raised_for_the_code(tb, e, self.mode):
                return 'harness-error', text
            return 'violation', (f'unexpected {type(e).__name__}: {safe(e)}', ('exc', text))
        finally:
            if env.sched is not None:
                env.sched.kill()
            env.unpatch()
            em.CURRENT[0] = None
            sys.stdout, sys.stderr = out, err

    # -- symbolic job -----------------------------------------------------------------
    def explore(self, job):
        core = sys.modules['sx.core']
        h = self.env_mod.HARNESSES[(job['prop'], job['harness'])]
        models = sys.modules['sx.models']
        case = job['case']
        rnd = random.Random(f"{job['seed']}/{job['harness']}/{json.dumps(case, sort_keys=True)}/{job['prefix']}")
        e = core.Engine(forced=[tuple(x) for x in job['prefix']], max_branches=job.get('max_branches', 20000))
        res = dict(paths=0, ends={}, violations=[], covers=set(), samples=[], unsupported=[], outside=[], errors=[], known={},
                   leftover=[], checks=0, infeasible=0, bounded={}, load=0.0)
        t0 = time.time()
        kept = 0
        while True:
            e.begin()
            env = self.env_mod.SymEnv(e, self.scratch, self.known)
            env.known_hits = res['known']
            try:
                outcome, detail = self.run_once(h, case, env)
            except RuntimeError:
                raise
            res['load'] = max(res['load'], env.calls / env.call_limit, models._ticks[0] / models.LOOP_LIMIT,
                              getattr(env.sched, 'used', 0.0))
            witness = None
            if outcome in ('ok', 'end', 'violation') and e.unsupported:
                if outcome == 'violation' and detail[1] is not None and not isinstance(detail[1], tuple):
                    witness = detail[1]
                outcome, detail = 'unsupported', f'{e.unsupported[0]} (swallowed by the code)'
            res['ends'][outcome] = res['ends'].get(outcome, 0) + 1
            if outcome == 'infeasible':
                res['infeasible'] += 1
            else:
                res['paths'] += 1
                res['covers'] |= env.covers
            if outcome == 'end':
                res['bounded'][detail] = res['bounded'].get(detail, 0) + 1
            if outcome == 'violation':
                msg, model = detail
                extra = None
                try:
                    if model is None or isinstance(model, tuple):
                        extra = model[1] if model else None
                        model = e.get_model()
                    res['violations'].append(dict(message=msg, assignment=e.assignment(model), extra=extra))
                except core.Infeasible:
                    pass
            elif outcome == 'unsupported':
                if len(res['unsupported']) < 5:
                    res['unsupported'].append(detail)
                if len(res['outside']) < 45:
                    try:
                        res['outside'].append(dict(assignment=e.assignment(witness or e.get_model())))
                        if len(res['outside']) < 30:
                            res['outside'] += [dict(assignment=a, fill=rnd.random()) for a in e.variants(rnd)]
                    except (core.Infeasible, core.Unsupported):
                        pass
                elif res['ends'][outcome] > 300:
                    break
            elif outcome in ('harness-error', 'hang'):
                res['errors'].append(detail)
                break
            elif outcome in ('ok', 'end'):
                if kept < 2 or rnd.random() < job.get('sample_rate', 0.01) and kept < 12:
                    try:
                        m = e.get_model()
                        res['samples'].append(dict(assignment=e.assignment(m), obs=env.evaluated(m), outcome=outcome))
                        kept += 1
                    except core.Unsupported as u:
                        pass
                    except core.Infeasible:
                        pass
            if not e.backtrack():
                break
            if time.time() - t0 > job['slice'] or len(res['violations']) >= job.get('max_violations', 2):
                # current stack top is an unexplored alternative: hand over everything unexplored
                st = e.stack
                pre = e.prefix()
                res['leftover'].append(pre)
                for i, (cond, taken, other, forced) in enumerate(st):
                    if other:
                        res['leftover'].append(pre[:i] + [(not taken, pre[i][1])])
                break
        res['covers'] = sorted(res['covers'])
        res['known'] = {k: list(v) for k, v in res['known'].items()}
        res.update(queries=e.queries, solver_s=e.solver_s, checks=e.checks, transitions=e.transitions,
                   wall=time.time() - t0, unknown=e.unknown)
        from sx import instrument
        res['encoded'] = {m: sorted(v) for m, v in instrument.ENCODED.items() if m.startswith('hypershell')}
        return res

    # -- concrete run --------------------------------------------------------------------
    def concrete(self, job):
        h = self.env_mod.HARNESSES[(job['prop'], job['harness'])]
        env = self.env_mod.ConEnv(job['assignment'], self.scratch,
                                  random.Random(job['fill']) if 'fill' in job else None)
        env.verbose = bool(job.get('verbose'))

        def alarm(*_):
            raise Alarm()
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(30)
        try:
            outcome, detail = self.run_once(h, job['case'], env)
        except Alarm:
            outcome, detail = 'hang', None
        finally:
            signal.alarm(0)
        if outcome == 'hang' and h.liveness:
            outcome, detail = 'violation', ('does not terminate within bounds (concrete run hangs)', None)
        res = dict(outcome=outcome, missing=env.missing, known=[])
        if outcome == 'violation':
            res['message'] = detail[0]
            if isinstance(detail[1], list):
                res['known'] = detail[1]
            elif detail[1]:
                res['extra'] = str(detail[1][1])
        elif detail is not None:
            res['message'] = str(detail)
        try:
            res['obs'] = env.evaluated()
        except Exception as err:
            res['obs'] = repr(err)
        return res


from queue import Empty as _Empty, Full as _Full


def safe(e):
    try:
        return str(e)[:500]
    except BaseException:
        return '?'


def plain(x):
    """JSON form of a value that has none (a symbolic text has no native one)."""
    try:
        return str(x)
    except BaseException:
        return f'<{type(x).__name__}>'


def where():
    et, e, tb = sys.exc_info()
    fr = traceback.extract_tb(tb)
    loc = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in fr if '/sx/' not in f.filename]
    return ' < '.join(loc[-1:-4:-1]) + ' | ' + ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}'
                                                        for f in fr[-1:-5:-1])


def main():
    mode, module, known = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
    proto = os.fdopen(os.dup(1), 'w', buffering=1)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    os.dup2(devnull.fileno(), 1)
    scratch = tempfile.mkdtemp(prefix='sx-')
    sys.setrecursionlimit(20000)
    if os.environ.get('SX_MEM'):
        m = int(os.environ['SX_MEM']) << 20
        resource.setrlimit(resource.RLIMIT_AS, (m, m))
    pid = os.getpid()
    try:
        try:
            w = Worker(mode, module, scratch, known)
        except BaseException as e:
            proto.write(json.dumps({'fatal': ''.join(traceback.format_exception(e))[-4000:]}) + '\n')
            return
        proto.write(json.dumps({'ready': True}) + '\n')
        for line in sys.stdin:
            job = json.loads(line)
            if job.get('quit'):
                break
            try:
                res = w.concrete(job) if job['kind'] == 'concrete' else w.explore(job)
            except BaseException as e:
                res = {'fatal': ''.join(traceback.format_exception(e))[-4000:]}
            res['id'] = job['id']
            proto.write(json.dumps(res, default=plain) + '\n')
    finally:
        if os.getpid() == pid:
            os.chdir('/')
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    main()
