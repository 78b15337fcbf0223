"""Planted bugs, fifth group."""
SRC = 'src/hypershell/'
DB = '''
from hypershell.data.core import Session
from hypershell.data import initdb
from hypershell.data.model import Task, Client
from datetime import datetime, timedelta
initdb()
NOW = datetime.now().astimezone()
'''
PLANTS = {
 'exits-together': dict(property='A06', file=SRC + 'cluster/remote.py',
  edits=[("        self.clients = [client for i, client in enumerate(self.clients) if i not in marked]",
          "        for i in marked:\n            self.clients.pop(min(i, len(self.clients) - 1))")],
  needs='two launched clients that exit between two checks while others go on',
  breaks='running clients are forgotten and exited ones are counted: the limits of the autoscaler are not kept',
  demo='''
from hypershell.cluster.remote import AutoScaler
class Proc:
    def __init__(self, pid, status): self.pid, self.status = pid, status
    def poll(self): return self.status
a = AutoScaler(['true'])
a.clients = [Proc(1, 0), Proc(2, None), Proc(3, 0), Proc(4, None)]
a.clean()
assert [c.pid for c in a.clients] == [2, 4], [c.pid for c in a.clients]
'''),
 'set-into-parent': dict(property='G02', file=SRC + 'config.py',
  edits=[("            config_section = config_section[subsection]\n\n        config_section[variable] = self.value",
          "\n        config_section = config_section.get(subsections[-1], config_section) if subsections else config_section\n        config_section[variable] = self.value")],
  needs='hs config set with a variable at least three sections deep',
  breaks='the value is written under another section: the option set has no effect',
  demo='''
from hypershell.config import ConfigSetApp
assert ConfigSetApp.main(['a.b.c.d', '1']) in (0, None)
import tomllib, glob
(file, ) = [f for f in glob.glob(SCRATCH + '/**/config.toml', recursive=True, include_hidden=True)]
got = tomllib.load(open(file, 'rb'))
assert got == {'a': {'b': {'c': {'d': 1}}}}, got
'''),
 'not-my-namesake': dict(property='K05', file=SRC + 'task.py',
  edits=[("self.task.client_host != HOSTNAME:", "self.task.client_host.split('.')[0] != HOSTNAME.split('.')[0]:")],
  needs='a client whose host has the same short name as this one in another domain',
  breaks='its captured output is not fetched and cannot be shown',
  demo='''
from hypershell import task
from uuid import uuid4
class T:
    id, client_host, outpath, errpath = str(uuid4()), 'node1.other', '/far/out', '/far/err'
task.HOSTNAME = 'node1.here'
app = task.TaskInfoApp.__new__(task.TaskInfoApp)
app.uuid, app.__dict__['task'] = T.id, T()
def fetch():
    os.makedirs(os.path.dirname(app.outpath), exist_ok=True)
    open(app.outpath, 'w').write('hello')
app.copy_remote_files = fetch
import io
out = io.StringIO()
out.name = '<stdout>'
app.print_file(app.outpath, T.outpath, out)
assert out.getvalue() == 'hello'
'''),
 'days-of-duration': dict(property='C01', file=SRC + 'client.py',
  edits=[("self.task.duration = int((self.task.completion_time - self.task.start_time).total_seconds())",
          "self.task.duration = (self.task.completion_time - self.task.start_time).seconds")],
  needs='a task that runs longer than a day',
  breaks='its duration is recorded modulo one day',
  demo='''
from datetime import datetime, timedelta
from queue import Queue
from hypershell.client import TaskExecutor
from hypershell.data.model import Task
ex = TaskExecutor(id=1, inbound=Queue(), outbound=Queue())
class P:
    pid, returncode = 1, 0
    def wait(self, timeout=None): return 0
    def poll(self): return 0
ex.process = P()
ex.task = Task.new(args='a', start_time=datetime.now().astimezone() - timedelta(days=1, hours=1))
ex.wait_task()
assert ex.task.duration // 60 == 25 * 60, ex.task.duration
'''),
 'idle-of-days': dict(property='C04', file=SRC + 'client.py',
  edits=[("            if self.timeout is None or waited < self.timeout:",
          "            if self.timeout is None or waited.seconds < self.timeout.seconds:")],
  needs='an idle limit of a day or more',
  breaks='the client leaves at once (or never)',
  demo='''
from queue import Queue, Empty
from hypershell.client import ClientScheduler, SchedulerState
class Q:
    def get(self, timeout=None): raise Empty
    def task_done(self): pass
class Server:
    scheduled = Q()
s = ClientScheduler(Server(), Queue(), timeout=24 * 3600)
s.start()
assert s.get_remote() is SchedulerState.GET_REMOTE
'''),
 'failures-respaced': dict(property='S02', file=SRC + 'server.py',
  edits=[("print(task.args, file=self.redirect_failures)", "print(*task.args.split(), file=self.redirect_failures)")],
  needs='a failed task with several blanks in a row in its arguments',
  breaks='the failures written are other command lines than those submitted',
  demo=DB + '''
import io
from hypershell.server import Receiver
out = io.StringIO()
r = Receiver(None, in_memory=True, redirect_failures=out)
r.tasks = [Task.new(args='grep "a  b" f', exit_status=1)]
r.update_tasks()
assert out.getvalue() == 'grep "a  b" f\\n', out.getvalue()
'''),
 'old-error-path': dict(property='P04', file=SRC + 'data/model.py',
  edits=[("                'outpath': None,\n                'errpath': None,\n                'waited'", "                'outpath': None,\n                'waited'")],
  needs='a task started with captured output whose client is lost',
  breaks='the task put back names the file of errors of the earlier, lost run',
  demo=DB + '''
Task.add(Task.new(args='a', schedule_time=NOW, start_time=NOW, outpath='/o', errpath='/e', client_id='c'))
(t,) = Task.next(limit=0) or Task.query().all()
Task.revert(t.id)
(t,) = Task.query().all()
assert (t.outpath, t.errpath) == (None, None), t.errpath
'''),
 'quietly-shorter': dict(property='K04', file=SRC + 'task.py',
  edits=[("        task = Task.new(args=' '.join(self.argv),\n                        tag=(None if not self.taglist else Tag.parse_cmdline_list(self.taglist)))\n        Task.add(task)\n        print(task.id)",
          "        task = Task.new(args=' '.join(filter(None, self.argv)),\n                        tag=(None if not self.taglist else Tag.parse_cmdline_list(self.taglist)))\n        Task.add(task)\n        print(task.id)")],
  needs='an empty argument among those of hs task submit',
  breaks='the task recorded has other arguments than those given',
  demo=DB + '''
from hypershell.task import TaskSubmitApp
assert TaskSubmitApp.main(['--', 'echo', '', 'x']) in (0, None)
(t,) = Task.query().all()
assert t.args == 'echo  x', t.args
'''),
 'signal-forever': dict(property='E06', file=SRC + 'server.py',
  edits=[("        if check_signal() in (SIGUSR1, SIGUSR2):", "        if check_signal() in (SIGUSR1, SIGUSR2) and not self.startup_phase:")],
  needs='SIGUSR1 while a server has not scheduled anything yet',
  breaks='the server ignores the signal',
  demo=DB + '''
import threading
from hypershell.core import signal
from hypershell.server import Scheduler
s = Scheduler(None, forever_mode=True)
signal.RECEIVED = signal.SIGUSR1
t = threading.Thread(target=s.run, daemon=True)
t.start()
t.join(20)
alive = t.is_alive()
s.halt()
assert not alive, 'goes on after SIGUSR1'
'''),
 'first-signal-wins': dict(property='C04', file=SRC + 'core/signal.py',
  edits=[("    RECEIVED = signum", "    RECEIVED = RECEIVED or signum")],
  needs='SIGUSR2 sent some time after SIGUSR1',
  breaks='running tasks are not interrupted by the second, stronger signal',
  demo='''
from hypershell.core import signal
signal.handler(signal.SIGUSR1, None)
signal.handler(signal.SIGUSR2, None)
assert signal.check_signal() == signal.SIGUSR2
'''),
}
