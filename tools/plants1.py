MODEL = 'src/hypershell/data/model.py'
SERVER = 'src/hypershell/server.py'
DB = '''
from hypershell.data.core import Session
from hypershell.data import initdb
from hypershell.data.model import Task, Client
from datetime import datetime, timedelta
initdb()
NOW = datetime.now().astimezone()
'''
PLANTS = {
 'eager-limit': dict(
    property='P01', file=MODEL,
    edits=[("            new_tasks = cls.select_new(limit=limit - len(tasks))\n", "            new_tasks = cls.select_new(limit=max(limit - len(tasks), limit // 2))\n")],
    needs='eager mode with more than half a bundle of failed tasks and further new tasks',
    breaks='more tasks than the bundle size are selected at once',
    demo=DB + '''
for i in range(3):
    Task.add(Task.new(args=str(i), schedule_time=NOW, start_time=NOW, completion_time=NOW, exit_status=1))
for i in range(4):
    Task.add(Task.new(args='new'))
got = Task.next(limit=4, attempts=2, eager=True)
assert len(got) <= 4, len(got)
'''),
 'evict-same-host': dict(
    property='S03', file=SERVER,
    edits=[("                if not self.in_memory and not self.no_confirm:\n", "                if (not self.in_memory and not self.no_confirm\n                        and hb.host not in [other.host for other in self.beats.values() if other.time > hb.time]):\n")],
    needs='two clients on the same host, one of which falls silent while the other lives',
    breaks='tasks of the evicted client never run again',
    demo=DB + '''
from types import SimpleNamespace
from queue import Queue
from hypershell.server import HeartMonitor
from hypershell.core.heartbeat import Heartbeat, ClientState
old = NOW - timedelta(seconds=500)
t = Task.new(args='x', schedule_time=old, client_id='A', client_host='h', server_id='s')
Task.add(t); id = t.id
q = Queue()
q.put(Heartbeat.new(uuid='B', host='h', time=NOW, state=ClientState.RUNNING).pack())
q.put(Heartbeat.new(uuid='A', host='h', time=old, state=ClientState.RUNNING).pack())
m = HeartMonitor(queue=SimpleNamespace(heartbeat=q, scheduled=Queue()), evict_after=30)
import threading, time
th = threading.Thread(target=m.run, daemon=True); th.start()
time.sleep(3.5)
q.put(Heartbeat.new(uuid='B', host='h', time=NOW, state=ClientState.RUNNING).pack())
time.sleep(.5)
q.put(None)
th.join(10)

Session.remove()
assert Client.from_id('A').evicted
assert Task.from_id(id).schedule_time is None
'''),
 'reregister-evicted': dict(
    property='S03', file=SERVER,
    edits=[("                        Client.update(old_client.id, disconnected_at=None, evicted=False)", "                        Client.update(old_client.id, disconnected_at=None if not old_client.evicted else old_client.disconnected_at,\n                                      evicted=False)")],
    needs='a client that was evicted and then heard from again',
    breaks='a falsely evicted client that returns stays recorded as disconnected',
    demo=DB + '''
from types import SimpleNamespace
from queue import Queue, Empty
from hypershell.server import HeartMonitor
from hypershell.core.heartbeat import Heartbeat, ClientState
from hypershell.core import heartbeat
old = NOW - timedelta(seconds=500)
Client.add(Client.new(id='A', host='h', server_id='s', server_host='s', connected_at=old, disconnected_at=old, evicted=True))
q = Queue()
q.put(Heartbeat.new(uuid='A', host='h', time=NOW, state=ClientState.RUNNING).pack())
q.put(None)
m = HeartMonitor(queue=SimpleNamespace(heartbeat=q, scheduled=Queue()), evict_after=30)
m.run()
Session.remove()
c = Client.from_id('A')
assert c.disconnected_at is None and c.evicted is False, (c.disconnected_at, c.evicted)
'''),
 'failures-negative': dict(
    property='S02', file=SERVER,
    edits=[("            if task.exit_status != 0:\n                log.warning(f'Non-zero", "            if task.exit_status > 0:\n                log.warning(f'Non-zero")],
    needs='a task killed by a signal (negative exit status)',
    breaks='such a task is missing from the list of failed tasks',
    demo=DB + '''
import io
from types import SimpleNamespace
from queue import Queue
from hypershell.server import Receiver
out = io.StringIO()
q = Queue()
for st in (0, 3, -9):
    q.put([Task.new(args=f'cmd {st}', exit_status=st, completion_time=NOW).pack()])
q.put(None)
Receiver(queue=SimpleNamespace(completed=q), in_memory=True, redirect_failures=out).run()
assert out.getvalue() == 'cmd 3\\ncmd -9\\n', out.getvalue()
'''),
 'full-queue-drop': dict(
    property='S01', file=SERVER,
    edits=[("            self.queue.scheduled.put(self.bundle, timeout=2)\n", "            self.queue.scheduled.put(self.bundle, timeout=2)\n            self.retries = 0\n"),
           ("        except QueueFull:\n            return SchedulerState.POST\n\n    @staticmethod\n    def finalize() -> SchedulerState:\n        \"\"\"Stop scheduler.\"\"\"\n        log.debug('Done (scheduler)')",
            "        except QueueFull:\n            self.retries = getattr(self, 'retries', 0) + 1\n            return SchedulerState.POST if self.retries % 3 else SchedulerState.LOAD\n\n    @staticmethod\n    def finalize() -> SchedulerState:\n        \"\"\"Stop scheduler.\"\"\"\n        log.debug('Done (scheduler)')")],
    needs='the outbound queue stays full for three attempts to post one bundle',
    breaks='the bundle is dropped: its tasks are marked as scheduled but never run',
    demo=DB + '''
from types import SimpleNamespace
from queue import Full
from hypershell.server import Scheduler
import hypershell.server as server
server.DEFAULT_QUERY_PAUSE = 0.01
Task.add_all([Task.new(args='a'), Task.new(args='b')])
class Q:
    n = 0; out = []
    def put(self, item, timeout=None):
        self.n += 1
        if self.n in (2, 3, 4):
            raise Full()
        for d in item:
            t = Task.unpack(d); self.out.append(t.args)
            Task.update(t.id, completion_time=NOW, exit_status=0)
import threading
q = Q()
m = Scheduler(queue=SimpleNamespace(scheduled=q), bundlesize=1)
th = threading.Thread(target=m.run, daemon=True); th.start(); th.join(15)
assert sorted(q.out) == ['a', 'b'], q.out
assert not th.is_alive()
'''),
 'double-extension': dict(
    property='T02', file='src/hypershell/core/template.py',
    edits=[("        return os.path.splitext(os.path.basename(args))[0]\n", "        return os.path.basename(os.path.splitext(args.rstrip('.'))[0])\n")],
    needs='a file name ending in a dot', breaks='the trailing dot makes {/-} drop more than the extension',
    demo='''
from hypershell.core.template import Template
import os
for p in ('a.b', 'd.x/a', '/x/y.tar.gz', '.rc', 'a', 'a.txt.'):
    want = os.path.splitext(os.path.basename(p))[0]
    assert Template('{/-}').expand(p) == want, p
'''),
 'client-late-clock': dict(
    property='W01', file=MODEL,
    edits=[("    return value if not isinstance(value, datetime) else value.isoformat(sep=' ')\n",
            "    return value if not isinstance(value, datetime) else value.isoformat(sep=' ', timespec='milliseconds')\n")],
    needs='an instant with a fraction finer than a millisecond', breaks='instants lose precision on the wire',
    demo='''
from hypershell.data.model import Task
from datetime import datetime, timezone
for us in (0, 1000, 123456):
    t = datetime(2024, 1, 2, 3, 4, 5, us).astimezone()
    assert Task.unpack(Task.new(args='a', start_time=t).pack()).start_time == t
'''),
}
