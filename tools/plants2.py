SRC = 'src/hypershell/'
DB = '''
from hypershell.data.core import Session
from hypershell.data import initdb
from hypershell.data.model import Task, Client
from datetime import datetime, timedelta
initdb()
NOW = datetime.now().astimezone()
'''
PLANTS = {
 'sticky-sigterm': dict(
    property='C02', file=SRC + 'client.py',
    edits=[("        self.attempted_sigint = False\n        self.attempted_sigterm = False\n        self.attempted_sigkill = False\n        try:",
            "        self.attempted_sigint = False\n        self.attempted_sigkill = False\n        try:"),
           ("        self.timeout = timeout\n        self.signalwait = signalwait\n\n    @functools.cached_property\n    def actions(self: TaskExecutor)",
            "        self.timeout = timeout\n        self.signalwait = signalwait\n        self.attempted_sigterm = False\n\n    @functools.cached_property\n    def actions(self: TaskExecutor)")],
    needs='one executor stopping two tasks that both ignore SIGINT',
    breaks='the second such task is killed outright, it never gets SIGTERM',
    demo='''
from queue import Queue
from datetime import datetime
from hypershell.client import TaskExecutor
from hypershell.data.model import Task
inbound, outbound = Queue(), Queue()
for i in range(2):
    inbound.put(Task.new(args='trap "" INT; while :; do sleep 0.1; done'))
inbound.put(None)
TaskExecutor(id=1, inbound=inbound, outbound=outbound, timeout=1, signalwait=2).run()
got = [outbound.get_nowait().exit_status for _ in range(2)]
assert got == [-15, -15], got
'''),
 'split-on-blank': dict(
    property='T03', file=SRC + 'core/template.py',
    edits=[("{'chunks': args.split()}", "{'chunks': args.split(' ')}")],
    needs='arguments separated by tabs or by more than one blank',
    breaks='argument positions count blanks instead of words',
    demo='''
from hypershell.core.template import Template
assert Template('{[1]}').expand('a  b c') == 'b'
assert Template('{[-1]}-{[:2]}').expand('a\\tb\\tc') == 'c-a b'
'''),
 'waited-days': dict(
    property='C01', file=SRC + 'client.py',
    edits=[("        self.task.waited = int((self.task.start_time - self.task.submit_time.astimezone()).total_seconds())",
            "        self.task.waited = (self.task.start_time - self.task.submit_time.astimezone()).seconds")],
    needs='a task that waited for more than a day before it was run',
    breaks='the recorded waiting time lacks the whole days',
    demo='''
from queue import Queue
from datetime import datetime, timedelta
from hypershell.client import TaskExecutor
from hypershell.data.model import Task
inbound, outbound = Queue(), Queue()
t = Task.new(args='true')
t.submit_time = datetime.now().astimezone() - timedelta(days=3)
inbound.put(t); inbound.put(None)
TaskExecutor(id=1, inbound=inbound, outbound=outbound).run()
assert outbound.get_nowait().waited >= 3 * 86400
'''),
 'revert-one-batch': dict(
    property='P04', file=SRC + 'data/model.py',
    edits=[("        while tasks := cls.select_interrupted(100):\n            cls.revert_all", "        if tasks := cls.select_interrupted(100):\n            cls.revert_all")],
    needs='a server that died with more than a hundred tasks under way',
    breaks='the rest of the interrupted tasks never runs again',
    demo=DB + '''
Task.add_all([Task.new(args=str(i), schedule_time=NOW, server_id='old', client_id='c') for i in range(130)])
Task.revert_interrupted()
Session.remove()
n = Task.query().filter(Task.schedule_time.is_(None)).count()
assert n == 130, n
'''),
 'cancel-mixed': dict(
    property='K02', file=SRC + 'task.py',
    edits=[("            field_updates['schedule_time'] = datetime.now().astimezone()\n            field_updates['exit_status'] = CANCEL_STATUS",
            "            else:\n                field_updates['schedule_time'] = datetime.now().astimezone()\n            field_updates['exit_status'] = CANCEL_STATUS")],
    needs='cancelling a selection in which some tasks are already scheduled and others are not',
    breaks='the waiting tasks of the selection are not cancelled: they are scheduled and run',
    demo=DB + '''
from hypershell.task import TaskUpdateApp
Task.add(Task.new(args='sent', schedule_time=NOW, server_id='s', client_id='c'))
Task.add(Task.new(args='new'))
assert TaskUpdateApp.main(['--cancel', '--no-confirm']) == 0
Session.remove()
got = [t.args for t in Task.next(limit=10)]
assert got == [], got
'''),
 'stale-wait': dict(
    property='K03', file=SRC + 'task.py',
    edits=[("            task = Task.from_id(self.uuid, caching=False)\n            if task.exit_status is None:", "            task = Task.from_id(self.uuid)\n            if task.exit_status is None:")],
    needs='a task that ends after the first query of `hs task wait`',
    breaks='the wait never ends: the first answer is reused',
    demo=DB + '''
import subprocess
t = Task.new(args='x', schedule_time=NOW); Task.add(t); id = t.id; Session.remove()
p = subprocess.Popen([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); from hypershell.task import TaskWaitApp; '
                      'sys.exit(TaskWaitApp.main(sys.argv[1:]))' % sys.path[0], id, '-n', '1', '--return'])
import time
time.sleep(6)
assert p.poll() is None
Task.update(id, exit_status=3, completion_time=NOW)
try:
    status = p.wait(15)
except subprocess.TimeoutExpired:
    p.kill()
    raise
assert status == 3, status
'''),
 'pad-one-zero': dict(
    property='A05', file=SRC + 'cluster/ssh.py',
    edits=[("apply_padding = str if start_chars[0] != '0' else lambda s: str(s).zfill(len(start_chars))",
            "apply_padding = str if len(start_chars) == len(stop_chars) and start_chars[-2:-1] != '0' else lambda s: str(s).zfill(len(start_chars))")],
    needs='a host range with padded numbers such as [010-012]',
    breaks='leading zeros are lost or appear, other hosts are contacted',
    demo='''
from hypershell.cluster.ssh import NodeList
assert NodeList.from_pattern('n[010-012]') == ['n010', 'n011', 'n012'], NodeList.from_pattern('n[010-012]')
assert NodeList.from_pattern('n[8-11],m[08-10]') == ['n8', 'n9', 'n10', 'n11', 'm08', 'm09', 'm10']
'''),
 'rate-of-the-gone': dict(
    property='A08', file=SRC + 'data/model.py',
    edits=[("                .filter(Client.disconnected_at == None)  # noqa: comparison to None\n                .one()[0]", "                .filter(Client.evicted == False)  # noqa: comparison to False\n                .one()[0]")],
    needs='clients that have left in good order after running tasks of another length',
    breaks='the autoscaler judges the load by tasks of clients that are gone',
    demo=DB + '''
for c, gone in (('a', None), ('b', NOW)):
    Client.add(Client.new(id=c, host=c, connected_at=NOW, server_id='s', server_host='s', disconnected_at=gone))
Task.add(Task.new(args='1', schedule_time=NOW, server_id='s', client_id='a', completion_time=NOW, exit_status=0, duration=10))
Task.add(Task.new(args='2', schedule_time=NOW, server_id='s', client_id='b', completion_time=NOW, exit_status=0, duration=1000))
got = Task.avg_duration()
assert got == 10, got
'''),
 'interrupt-first-client': dict(
    property='A07', file=SRC + 'cluster/ssh.py',
    edits=[("        for client in self.clients:\n            client.terminate()", "        for client in self.clients[:len(self.clients) // 2 or 1]:\n            client.terminate()")],
    needs='interrupting an SSH cluster of several hosts',
    breaks='launchers of part of the clients are left running',
    demo='''
import threading
from hypershell.cluster.ssh import SSHCluster
class P:
    ended = 0
    def terminate(self): self.ended += 1
    def wait(self, *a, **k): return 0
    def poll(self): return None
class S:
    def stop(self, *a, **k): pass
    def join(self, *a, **k): pass
    def is_alive(self): return False
c = SSHCluster.__new__(SSHCluster)
threading.Thread.__init__(c)
c.clients = [P(), P(), P()]
c.server = S()
c.stop()
assert all(p.ended for p in c.clients), [p.ended for p in c.clients]
'''),
 'unconfirmed-bundle': dict(
    property='C04', file=SRC + 'client.py',
    edits=[("        except QueueFull:\n            return SchedulerState.PUT_CONFIRM", "        except QueueFull:\n            return SchedulerState.POP_TASK")],
    needs='the queue of confirmations is full when a bundle arrives',
    breaks='the bundle is never confirmed, its tasks are lost if the client dies',
    demo='''
from queue import Queue, Full
from types import SimpleNamespace
from hypershell.client import ClientScheduler
from hypershell.data.model import Task
class Q:
    n, out = 0, []
    def put(self, item, timeout=None):
        self.n += 1
        if self.n < 3:
            raise Full
        self.out.append(item)
scheduled, confirmed, local = Queue(), Q(), Queue()
scheduled.put([Task.new(args='a').pack()]); scheduled.put(None)
ClientScheduler(queue=SimpleNamespace(scheduled=scheduled, confirmed=confirmed), local=local).run()
assert len(confirmed.out) == 1, 'not confirmed'
'''),
 'falsy-setting': dict(
    property='G03', file=SRC + 'config.py',
    edits=[("        elif variable in config_section:", "        elif config_section.get(variable):")],
    needs='an option of a section set to 0, false or an empty text',
    breaks='`hs config get` reports the option as missing',
    demo='''
import io, contextlib
os.makedirs(os.path.join(SCRATCH, '.hypershell'))
with open(os.path.join(SCRATCH, '.hypershell', 'config.toml'), 'w') as f:
    f.write('[server]\\nwait = 0\\n')
from hypershell.config import ConfigGetApp
out = io.StringIO()
with contextlib.redirect_stdout(out):
    status = ConfigGetApp.main(['--user', 'server.wait'])
assert status == 0 and out.getvalue().strip() == '0', (status, out.getvalue())
'''),
 'shallow-merge': dict(
    property='G02', file=SRC + 'core/config.py',
    edits=[("            original[key] = _inplace_update(original.get(key, {}), value)", "            original[key] = {**original.get(key, {}), **value}")],
    needs='setting an option two sections deep in a file that already has other options there',
    breaks='the other options of that section are lost from the file',
    demo='''
from hypershell.config import ConfigSetApp
from hypershell.core.config import path
for k in ('logging.a.x', 'logging.a.y'):
    assert ConfigSetApp.main(['--user', k, '1']) == 0
with open(path.user.config) as f:
    text = f.read()
import tomlkit
assert tomlkit.parse(text)['logging']['a'] == {'x': 1, 'y': 1}, text
'''),
}
