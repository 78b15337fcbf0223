"""Planted bugs, fourth group."""
SRC = 'src/hypershell/'
DB = '''
from hypershell.data.core import Session
from hypershell.data import initdb
from hypershell.data.model import Task, Client
from datetime import datetime, timedelta
initdb()
NOW = datetime.now().astimezone()
'''
PLANTS = {
 'signals-not-retried': dict(property='P02', file=SRC + 'data/model.py',
  edits=[("                .filter(cls.exit_status != 0)\n                .filter(cls.attempt < attempts)",
          "                .filter(cls.exit_status > 0)\n                .filter(cls.attempt < attempts)")],
  needs='a task killed by a signal (negative exit status) with attempts left, next to tasks failing otherwise',
  breaks='tasks that were killed (out of memory, walltime) are never retried',
  demo=DB + '''
Task.add_all([Task.new(args='a', exit_status=-9, schedule_time=NOW, start_time=NOW, completion_time=NOW),
              Task.new(args='b', exit_status=1, schedule_time=NOW, start_time=NOW, completion_time=NOW)])
got = sorted(t.args for t in Task.next(limit=5, attempts=2))
assert got == ['a', 'b'], got
'''),
 'retry-of-command': dict(property='P02', file=SRC + 'data/model.py',
  edits=[("            new_tasks = [cls.new(args=task.args,", "            new_tasks = [cls.new(args=task.command or task.args,")],
  needs='a failing task whose client expands a template',
  breaks='the retry gets the expanded command line as its argument and the template is applied twice',
  demo=DB + '''
Task.add(Task.new(args='a', command='run a', exit_status=1, schedule_time=NOW, start_time=NOW, completion_time=NOW))
(t,) = Task.next(limit=5, attempts=2)
assert t.args == 'a', t.args
'''),
 'blank-lines-dropped': dict(property='U01', file=SRC + 'submit.py',
  edits=[("map(self.template.expand, map(str.strip, map(str, source)))",
          "map(self.template.expand, filter(None, map(str.strip, map(str, source))))")],
  needs='a source with an empty line and a template that does not need an argument',
  breaks='empty lines do not become tasks: fewer tasks than lines',
  demo='''
from queue import Queue
from hypershell.submit import Loader
q = Queue()
Loader(iter(['a\\n', '\\n', 'b\\n']), queue=q, template='./work.sh [{}]').run()
got = [q.get_nowait() for _ in range(q.qsize())]
got = [t.args for t in got if t is not None]
assert got == ['./work.sh [a]', './work.sh []', './work.sh [b]'], got
'''),
 'equal-values-cached': dict(property='T04', file=SRC + 'core/template.py',
  edits=[("        return str(self.build_lambda(key)(smart_coerce(args)))",
          "        return str(self.evaluate(key, smart_coerce(args)))\n\n    @staticmethod\n    @functools.lru_cache(maxsize=None)\n    def evaluate(key: str, value):\n        return Template.build_lambda(key)(value)")],
  needs='two arguments whose values compare equal but print differently (1, 1.0, true) in one process',
  breaks='the second argument is expanded with the value of the first',
  demo='''
from hypershell.core.template import Template
t = Template('{= x =}')
assert [t.expand(a) for a in ('1', '1.0', '1')] == ['1', '1.0', '1'], [t.expand(a) for a in ('1', '1.0', '1')]
'''),
 'braces-across-lines': dict(property='T01', file=SRC + 'core/template.py',
  edits=[("re.compile(r'{(.*?)}')", "re.compile(r'{(.*?)}', re.DOTALL)")],
  needs='a template of several lines with a brace that closes on another line (awk, shell functions)',
  breaks='text that is no placeholder is taken for one and the template is refused or changed',
  demo='''
from hypershell.core.template import Template
text = "awk '{\\n print $1\\n}' {}"
assert Template(text).expand('x') == text[:-2] + 'x'
'''),
 'inherited-wins': dict(property='C06', file=SRC + 'client.py',
  edits=[("        **os.environ,\n        **load_task_env(),", "        **load_task_env(),\n        **os.environ,")],
  needs='a variable of the client that is also configured under [export]',
  breaks='tasks see the inherited value instead of the exported one',
  demo='''
os.environ['HYPERSHELL_EXPORT_FOO'] = 'exported'
os.environ['FOO'] = 'inherited'
from hypershell.client import task_env
from hypershell.data.model import Task
assert task_env(Task.new(args='a'))['FOO'] == 'exported'
'''),
 'minutes-of-61': dict(property='L01', file=SRC + 'core/logging.py',
  edits=[("divmod(remainder, 60)", "divmod(remainder, 61)")],
  needs='a process running longer than a minute',
  breaks='elapsed times in log messages drift from the true time',
  demo='''
import logging
logging._startTime -= 2 * 3600 + 59 * 60
from hypershell.core.logging import LogRecord
text = LogRecord('hypershell.x', logging.INFO, 'f', 1, 'm', (), None).elapsed_hms
assert text.startswith('00-02:59:'), text
'''),
 'short-host-names': dict(property='W01', file=SRC + 'core/heartbeat.py',
  edits=[("host=(host or HOSTNAME)", "host=(host or HOSTNAME).partition('.')[0]")],
  needs='hosts known by a name with a domain, or by an address',
  breaks='the server files the client under another host than its tasks (10.0.0.7 becomes 10)',
  demo='''
from hypershell.core.heartbeat import Heartbeat, ClientState
hb = Heartbeat.unpack(Heartbeat.new(state=ClientState.RUNNING, host='10.0.0.7').pack())
assert hb.host == '10.0.0.7', hb.host
'''),
 'site-ignored-by-root': dict(property='D01', file=SRC + 'core/platform.py',
  edits=[("if 'HYPERSHELL_SITE' in os.environ:\n    default_path", "if 'HYPERSHELL_SITE' in os.environ and not is_admin:\n    default_path")],
  needs='HYPERSHELL_SITE set for an administrator',
  breaks='files go to the system directories instead of the given site',
  demo='''
os.geteuid = lambda: 0
os.getuid = lambda: 0
real = os.makedirs
def only_here(name, *a, **kw):
    if not str(name).startswith(SCRATCH):
        raise PermissionError(name)
    return real(name, *a, **kw)
os.makedirs = only_here
import getpass
getpass.getuser = lambda: 'root'
os.getlogin = lambda: 'root'
from hypershell.core.platform import default_path
assert default_path.log.startswith(SCRATCH), default_path.log
'''),
}
