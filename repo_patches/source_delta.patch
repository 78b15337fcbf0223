From ab1e0083dd293b9f2a1b04c2e57f25f54ae0a56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 01/74] fix: retries are selected twice in eager mode

---
 src/hypershell/data/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index a5ef391..cc7c9e7 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -362,10 +362,14 @@ class Task(Entity):
         failed_tasks = cls.select_failed(attempts=attempts, limit=limit)
         if failed_tasks:
             log.trace(f'Selected {len(failed_tasks)} previously failed tasks')
+            # NOTE: schedule immediately so eager mode does not also select these as new tasks
             new_tasks = [cls.new(args=task.args,
                                  attempt=task.attempt + 1,
                                  previous_id=task.id,
-                                 tag=task.tag)
+                                 tag=task.tag,
+                                 server_id=INSTANCE,
+                                 server_host=HOSTNAME,
+                                 schedule_time=datetime.now().astimezone())
                          for task in failed_tasks]
             tasks.extend(new_tasks)
             cls.add_all(tasks)
-- 
2.43.0


From 03c1cf87abafc7a06185b39b62c684e000993926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 02/74] fix: link retries to failed tasks in the same
 transaction

---
 src/hypershell/data/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index cc7c9e7..e79a392 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -371,10 +371,11 @@ class Task(Entity):
                                  server_host=HOSTNAME,
                                  schedule_time=datetime.now().astimezone())
                          for task in failed_tasks]
+            for old_task, new_task in zip(failed_tasks, new_tasks):
+                old_task.retried = True
+                old_task.next_id = new_task.id
             tasks.extend(new_tasks)
-            cls.add_all(tasks)
-            cls.update_all([{'id': old_task.id, 'retried': True, 'next_id': new_task.id}
-                            for old_task, new_task in zip(failed_tasks, new_tasks)])
+            cls.add_all(tasks)  # NOTE: same transaction, a retry without its link is retried again
         return tasks
 
     @classmethod
-- 
2.43.0


From 1a7440ade8804399e16a07b85fd352b882376f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 03/74] fix: cancelled tasks are retried, revived on restart
 and never let the server finish

---
 src/hypershell/data/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index e79a392..642450e 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -315,6 +315,7 @@ class Task(Entity):
         """Select failed tasks for retry up to some `limit` under given number of `attempts`."""
         return (cls.query()
                 .order_by(cls.completion_time)
+                .filter(cls.completion_time.isnot(None))  # NOTE: not cancelled
                 .filter(cls.exit_status.isnot(None))
                 .filter(cls.exit_status != 0)
                 .filter(cls.attempt < attempts)
@@ -381,7 +382,7 @@ class Task(Entity):
     @classmethod
     def count_remaining(cls: Type[Task]) -> int:
         """Count of remaining unfinished tasks."""
-        return cls.query().filter(cls.completion_time.is_(None)).count()
+        return cls.query().filter(cls.completion_time.is_(None)).filter(cls.exit_status.is_(None)).count()
 
     @classmethod
     def count_interrupted(cls: Type[Task]) -> int:
@@ -390,6 +391,7 @@ class Task(Entity):
             cls.query()
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))  # NOTE: not cancelled
             .count()
         )
 
@@ -401,6 +403,7 @@ class Task(Entity):
             .order_by(cls.schedule_time)
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))  # NOTE: not cancelled
             .limit(limit)
             .all()
         )
@@ -468,6 +471,7 @@ class Task(Entity):
             .order_by(cls.schedule_time)
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))  # NOTE: not cancelled
             .filter(cls.client_id == client_id)
             .limit(limit)
             .all()
-- 
2.43.0


From 07f69f45fec493b66b0185879daf28203f939a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 04/74] fix: negative indices in template slices are rejected

---
 src/hypershell/core/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/core/template.py b/src/hypershell/core/template.py
index 4a3ed21..d988e64 100644
--- a/src/hypershell/core/template.py
+++ b/src/hypershell/core/template.py
@@ -171,7 +171,7 @@ class Template:
 
     def expand_slice(self: Template, args: str, key: str) -> str:
         """Expand slice `key` ([start][:stop][:step]) against args (on white space)."""
-        if re.match(r'(\d+)?:?(\d+)?:?(\d+)?$', key):
+        if re.fullmatch(r'(-?\d+)?(:(-?\d+)?(:(-?\d+)?)?)?', key):
             result = eval(f'chunks[{key}]', {'chunks': args.split()})
             return ' '.join(result if isinstance(result, list) else [result, ])
         else:
-- 
2.43.0


From 18260435a81e274676aa192668f9174881865f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 05/74] fix: shell and lambda patterns are cut at the first '%'
 or '='

---
 src/hypershell/core/template.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/core/template.py b/src/hypershell/core/template.py
index d988e64..94ffe52 100644
--- a/src/hypershell/core/template.py
+++ b/src/hypershell/core/template.py
@@ -124,9 +124,9 @@ class Template:
     def complex_patterns(self: Template) -> Dict[str, Callable[[str, str], str]]:
         """Map of complex patterns to their expansion routines."""
         return {
-            r'\[(.*?)]': self.expand_slice,
-            '=(.*?)=': self.expand_lambda,
-            '%(.*?)%': self.expand_shell,
+            r'\[(.*?)]$': self.expand_slice,
+            '=(.*?)=$': self.expand_lambda,
+            '%(.*?)%$': self.expand_shell,
         }
 
     @staticmethod
-- 
2.43.0


From c51489c2ce9860f15ddd62ea6dfe23ce48de3628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 06/74] fix: text that looks like a date is turned into a date
 on the way to clients

---
 src/hypershell/data/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 642450e..9ae489d 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -126,7 +126,8 @@ class Entity(DeclarativeBase):
     @classmethod
     def from_json(cls: Type[Entity], data: Dict[str, JSONValue]) -> Entity:
         """Build from JSON `text` string."""
-        return cls.from_dict({key: from_json_type(value) for key, value in data.items()})
+        return cls.from_dict({key: from_json_type(value) if cls.columns.get(key) is datetime else value
+                              for key, value in data.items()})
 
     @classmethod
     def unpack(cls: Type[Entity], data: bytes) -> Entity:
-- 
2.43.0


From 7a19727c9a26bfde3c58387bff90b6ccea1f8697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 07/74] fix: tags after an empty one and values with a trailing
 newline are not checked

---
 src/hypershell/data/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 9ae489d..652041f 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -296,10 +296,10 @@ class Task(Entity):
                 raise TypeError(f'Invalid type for tag value, {type(value)})')
             if isinstance(value, str):
                 if not value.strip():
-                    return  # Empty value is a naked tag (no value).
+                    continue  # Empty value is a naked tag (no value).
                 if len(value) > 120:
                     raise ValueError(f'Tag size ({len(value)}) exceeds 120 characters ({key}: {value})')
-                if not re.match(r'^[A-Za-z0-9_.+-]+$', value):
+                if not re.fullmatch(r'[A-Za-z0-9_.+-]+', value):
                     raise ValueError(f'Tag must only contain alphanumerics and basic symbols [+._-]: '
                                      f'({key}: {value})')
 
-- 
2.43.0


From 56dcdba4117d4da787f4a6598ef5f4405390b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 08/74] fix: server halts without retrying a task that fails
 while it checks for remaining tasks

---
 src/hypershell/server.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index abff879..82a1277 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -175,12 +175,16 @@ class Scheduler(StateMachine):
             log.warning(f'Signal interrupt ({SIGNAL_MAP[check_signal()]})')
             return SchedulerState.FINAL
         self.tasks = Task.next(limit=self.bundlesize, attempts=self.attempts, eager=self.eager)
+        # An empty database must wait for at least one task
+        if (not self.tasks and not self.forever_mode and not self.startup_phase and
+                Task.count() > 0 and Task.count_remaining() == 0):
+            # NOTE: The last tasks may have failed (need retry) since we selected
+            self.tasks = Task.next(limit=self.bundlesize, attempts=self.attempts, eager=self.eager)
+            if not self.tasks:
+                return SchedulerState.FINAL
         if self.tasks:
             self.startup_phase = False
             return SchedulerState.PACK
-        # An empty database must wait for at least one task
-        elif not self.forever_mode and Task.count() > 0 and Task.count_remaining() == 0 and not self.startup_phase:
-            return SchedulerState.FINAL
         else:
             time.sleep(DEFAULT_QUERY_PAUSE)
             return SchedulerState.LOAD
-- 
2.43.0


From 5b879069fa2e5ea1a629cc73b91e54d40c59e2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 09/74] fix: server finishes while tasks are still being read
 from a slow source

---
 src/hypershell/server.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 82a1277..d6be0dc 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -125,6 +125,7 @@ class Scheduler(StateMachine):
     states = SchedulerState
 
     startup_phase: bool = True
+    submitter_done: bool = True  # unset by parent thread while still submitting tasks
 
     def __init__(self: Scheduler, queue: QueueServer, bundlesize: int = DEFAULT_BUNDLESIZE,
                  attempts: int = DEFAULT_ATTEMPTS, eager: bool = DEFAULT_EAGER_MODE,
@@ -177,8 +178,8 @@ class Scheduler(StateMachine):
         self.tasks = Task.next(limit=self.bundlesize, attempts=self.attempts, eager=self.eager)
         # An empty database must wait for at least one task
         if (not self.tasks and not self.forever_mode and not self.startup_phase and
-                Task.count() > 0 and Task.count_remaining() == 0):
-            # NOTE: The last tasks may have failed (need retry) since we selected
+                Task.count() > 0 and Task.count_remaining() == 0 and self.submitter_done):
+            # NOTE: The last tasks may have failed (need retry) or been submitted since we selected
             self.tasks = Task.next(limit=self.bundlesize, attempts=self.attempts, eager=self.eager)
             if not self.tasks:
                 return SchedulerState.FINAL
@@ -227,6 +228,10 @@ class SchedulerThread(Thread):
         """Run machine."""
         self.machine.run()
 
+    def signal_submitter(self: SchedulerThread, done: bool) -> None:
+        """Set flag to tell scheduler whether more tasks are to be expected."""
+        self.machine.submitter_done = done
+
     def stop(self: SchedulerThread, wait: bool = False, timeout: int = None) -> None:
         """Stop machine."""
         log.warning('Stopping (scheduler)')
@@ -753,6 +758,7 @@ class ServerThread(Thread):
         if self.submitter is not None:
             self.submitter.start()
         if self.scheduler is not None:
+            self.scheduler.signal_submitter(done=self.submitter is None)
             self.scheduler.start()
         if not self.no_confirm:
             self.confirm.start()
@@ -764,6 +770,8 @@ class ServerThread(Thread):
         if self.submitter is not None:
             log.trace('Waiting (submitter)')
             self.submitter.join()
+            if self.scheduler is not None:
+                self.scheduler.signal_submitter(done=True)
 
     def wait_scheduler(self: ServerThread) -> None:
         """Wait scheduling until complete."""
-- 
2.43.0


From a6346070977fade2e3f231fcd014f51734e29061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 10/74] fix: heart monitor uses the database although none is
 configured

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index d6be0dc..6407a8c 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -738,7 +738,7 @@ class ServerThread(Thread):
             self.confirm = ConfirmThread(queue=self.queue, in_memory=self.in_memory)
         self.receiver = ReceiverThread(queue=self.queue, in_memory=self.in_memory, redirect_failures=redirect_failures)
         self.heartmonitor = HeartMonitorThread(queue=self.queue, evict_after=evict_after,
-                                               in_memory=in_memory, no_confirm=no_confirm)
+                                               in_memory=self.in_memory, no_confirm=no_confirm)
         super().__init__(name='hypershell-server')
 
     def run_with_exceptions(self: ServerThread) -> None:
-- 
2.43.0


From 83926f739a79ae8bcad8a0936ecee61f97c7b4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 11/74] fix: server hangs at shutdown when clients register
 late or died without notice

---
 src/hypershell/server.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 6407a8c..121b0af 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -456,6 +456,7 @@ class HeartMonitor(StateMachine):
     no_confirm: bool
     queue: QueueServer
     beats: Dict[str, Heartbeat]
+    signals: int  # disconnect requests not yet accounted for
     last_check: datetime
     wait_check: timedelta
     evict_after: timedelta
@@ -474,6 +475,7 @@ class HeartMonitor(StateMachine):
         self.queue = queue
         self.last_check = datetime.now().astimezone()
         self.beats = {}
+        self.signals = 0
         self.in_memory = in_memory
         self.no_confirm = no_confirm
         if evict_after >= 10:
@@ -535,6 +537,7 @@ class HeartMonitor(StateMachine):
             return HeartbeatState.SWITCH
         else:
             log.trace(f'Client disconnected ({hb.host}: {hb.uuid})')
+            self.signals = max(0, self.signals - 1)
             if hb.uuid in self.beats:
                 self.beats.pop(hb.uuid)
                 if not self.in_memory:
@@ -545,14 +548,15 @@ class HeartMonitor(StateMachine):
         """Decide to bail, signal, check, or get another heartbeat."""
         if self.startup_phase:
             return HeartbeatState.NEXT
-        if self.should_signal:
-            return HeartbeatState.SIGNAL
         if not self.beats and self.scheduler_done:
             return HeartbeatState.FINAL
         now = datetime.now().astimezone()
         if (now - self.last_check) > self.wait_check:
             self.last_check = now
             return HeartbeatState.CHECK
+        # NOTE: Also signals clients that (re-)register later on
+        elif self.should_signal and self.signals < len(self.beats):
+            return HeartbeatState.SIGNAL
         else:
             return HeartbeatState.NEXT
 
@@ -565,6 +569,7 @@ class HeartMonitor(StateMachine):
             if age > self.evict_after:
                 log.warning(f'Evicting client ({hb.host}: {uuid})')
                 self.beats.pop(uuid)
+                self.signals = max(0, self.signals - 1)
                 if not self.in_memory:
                     Client.update(hb.uuid, disconnected_at=datetime.now().astimezone(), evicted=True)
                 if not self.in_memory and not self.no_confirm:
@@ -575,11 +580,14 @@ class HeartMonitor(StateMachine):
     def signal_clients(self: HeartMonitor) -> HeartbeatState:
         """Send shutdown signal to all connected clients."""
         log.debug(f'Signaling clients ({len(self.beats)} connected)')
-        for hb in self.beats.values():
-            self.queue.scheduled.put(None)
-            log.debug(f'Disconnect requested ({hb.host}: {hb.uuid})')
-        self.should_signal = False
-        return HeartbeatState.SWITCH
+        while self.signals < len(self.beats):
+            try:
+                self.queue.scheduled.put(None, timeout=2)
+                self.signals += 1
+                log.trace(f'Disconnect requested ({self.signals})')
+            except QueueFull:
+                break  # NOTE: Clients may be gone, check heartbeats before trying again
+        return HeartbeatState.NEXT
 
     @staticmethod
     def finalize() -> HeartbeatState:
-- 
2.43.0


From 9e58cd18a9840881f52a138a64fc9b2f5e63d03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 12/74] fix: late result of an evicted client undoes the
 scheduling of a retry

---
 src/hypershell/server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 121b0af..ceb42b1 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -395,7 +395,9 @@ class Receiver(StateMachine):
     def update_tasks(self: Receiver) -> ReceiverState:
         """Update tasks in database with run details."""
         if not self.in_memory:
-            Task.update_all([task.to_dict() for task in self.tasks])
+            # NOTE: A late result (e.g., falsely evicted client) must not undo the scheduling of a retry
+            Task.update_all([{name: value for name, value in task.to_dict().items()
+                              if name not in ('retried', 'next_id')} for task in self.tasks])
         for task in self.tasks:
             log.debug(f'Completed task ({task.id})')
             if task.exit_status != 0:
-- 
2.43.0


From a52e74bdf7f6931ada92552adfa828cb4443623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 13/74] fix: client drops finished tasks not yet bundled at
 shutdown

---
 src/hypershell/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index f3406ae..c73d2c9 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -388,7 +388,9 @@ class ClientCollector(StateMachine):
 
     def finalize(self: ClientCollector) -> CollectorState:
         """Push out any remaining tasks and halt."""
-        self.put_remote()
+        self.pack_bundle()
+        if self.put_remote() is CollectorState.PUT_REMOTE:
+            return CollectorState.FINAL  # NOTE: remote queue is full, try again
         log.debug('Done (collector)')
         return CollectorState.HALT
 
-- 
2.43.0


From c96957b2114504a7eed4fb552d2998d983f377f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 14/74] fix: task that cannot be started takes down its
 executor and hangs the client

---
 src/hypershell/client.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index c73d2c9..2ec7b52 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -551,19 +551,25 @@ class TaskExecutor(StateMachine):
         # NOTE: enforce tz aware submit_time (in case of sqlite backend)
         self.task.start_time = datetime.now().astimezone()
         self.task.waited = int((self.task.start_time - self.task.submit_time.astimezone()).total_seconds())
-        env = task_env(self.task)
-        if self.capture:
-            self.task.outpath = env['TASK_OUTPATH']
-            self.task.errpath = env['TASK_ERRPATH']
-            self.redirect_output = open(self.task.outpath, mode='w')
-            self.redirect_errors = open(self.task.errpath, mode='w')
         self.stop_requested = None
         self.attempted_sigint = False
         self.attempted_sigterm = False
         self.attempted_sigkill = False
-        self.process = Popen(self.task.command, shell=True,
-                             stdout=self.redirect_output, stderr=self.redirect_errors,
-                             cwd=config.task.cwd, env=env)
+        try:
+            env = task_env(self.task)
+            if self.capture:
+                self.task.outpath = env['TASK_OUTPATH']
+                self.task.errpath = env['TASK_ERRPATH']
+                self.redirect_output = open(self.task.outpath, mode='w')
+                self.redirect_errors = open(self.task.errpath, mode='w')
+            self.process = Popen(self.task.command, shell=True,
+                                 stdout=self.redirect_output, stderr=self.redirect_errors,
+                                 cwd=config.task.cwd, env=env)
+        except Exception as error:
+            log.error(f'{error.__class__.__name__}: {error}')
+            self.task.completion_time = datetime.now().astimezone()
+            self.task.exit_status = -1
+            return TaskState.PUT_LOCAL
         log.info(f'Running task ({self.task.id})')
         log.debug(f'Running task ({self.task.id}: {self.task.command})')
         log.trace(f'Running task ({self.task.id}: pid={self.process.pid}, argv={self.task.command})')
-- 
2.43.0


From 0d3262a925d1ce16f2ba221d7049f19c048b5c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 15/74] fix: idle executor closes the output streams other
 executors still use

---
 src/hypershell/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 2ec7b52..884440a 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -662,9 +662,10 @@ class TaskExecutor(StateMachine):
     def finalize(self: TaskExecutor) -> TaskState:
         """Push out any remaining tasks and halt."""
         log.debug(f'Done (executor-{self.id})')
-        if self.redirect_output is not sys.stdout:
+        # NOTE: without --capture these streams are shared with the other executors
+        if self.capture and self.redirect_output is not sys.stdout:
             self.redirect_output.close()
-        if self.redirect_errors is not sys.stderr:
+        if self.capture and self.redirect_errors is not sys.stderr:
             self.redirect_errors.close()
         return TaskState.HALT
 
-- 
2.43.0


From 2108ee271185b3c7373e09c3a5bd73fb63e6e5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 16/74] fix: heartbeat thread dies when the heartbeat queue is
 full

---
 src/hypershell/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 884440a..9248ea6 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -762,7 +762,7 @@ class ClientHeartbeat(StateMachine):
             else:
                 log.trace(f'Heartbeat - final ({heartbeat.host}: {heartbeat.uuid})')
                 return HeartbeatState.FINAL
-        except QueueEmpty:
+        except QueueFull:
             return HeartbeatState.SUBMIT
 
     def wait(self: ClientHeartbeat) -> HeartbeatState:
-- 
2.43.0


From a9ca30ed97af5546ba10794b11b5ab0eee5f020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 17/74] fix: task interrupted up to half a second before its
 walltime limit

---
 src/hypershell/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 9248ea6..a51532a 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -602,7 +602,8 @@ class TaskExecutor(StateMachine):
             log.warning(f'Signal interrupt (SIGUSR2: executor-{self.id})')
             self.stop_requested = datetime.now()
             return TaskState.WAIT_SIGNAL
-        elif self.timeout is None or self.elapsed.total_seconds() < self.timeout:
+        elif (self.timeout is None or
+              (datetime.now().astimezone() - self.task.start_time).total_seconds() < self.timeout):
             return TaskState.WAIT_TASK
         else:
             log.warning(f'Task exceeded walltime limit ({self.elapsed})')
-- 
2.43.0


From da233348a269a730325aa3898e8d7fe8baea1331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 18/74] fix: submit flushes pending tasks after bundlewait when
 the source is slow

---
 src/hypershell/submit.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index f1e88d0..8b9086e 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -231,17 +231,18 @@ class DatabaseCommitter(StateMachine):
         try:
             task = self.queue.get(timeout=1)
         except QueueEmpty:
-            return DatabaseCommitterState.GET
+            return DatabaseCommitterState.COMMIT if self.tasks and self.is_due() else DatabaseCommitterState.GET
         if task is not None:
             self.tasks.append(task)
-            since_last = (datetime.now() - self.previous_submit).total_seconds()
-            if len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait:
-                return DatabaseCommitterState.COMMIT
-            else:
-                return DatabaseCommitterState.GET
+            return DatabaseCommitterState.COMMIT if self.is_due() else DatabaseCommitterState.GET
         else:
             return DatabaseCommitterState.FINAL
 
+    def is_due(self: DatabaseCommitter) -> bool:
+        """Check whether buffer is full or the waiting period has expired."""
+        since_last = (datetime.now() - self.previous_submit).total_seconds()
+        return len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait
+
     def commit(self: DatabaseCommitter) -> DatabaseCommitterState:
         """Commit tasks to database."""
         if self.tasks:
@@ -424,17 +425,18 @@ class QueueCommitter(StateMachine):
         try:
             task = self.local.get(timeout=1)
         except QueueEmpty:
-            return QueueCommitterState.GET
+            return QueueCommitterState.PACK if self.tasks and self.is_due() else QueueCommitterState.GET
         if task is not None:
             self.tasks.append(task)
-            since_last = (datetime.now() - self.previous_submit).total_seconds()
-            if len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait:
-                return QueueCommitterState.PACK
-            else:
-                return QueueCommitterState.GET
+            return QueueCommitterState.PACK if self.is_due() else QueueCommitterState.GET
         else:
             return QueueCommitterState.FINAL
 
+    def is_due(self: QueueCommitter) -> bool:
+        """Check whether buffer is full or the waiting period has expired."""
+        since_last = (datetime.now() - self.previous_submit).total_seconds()
+        return len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait
+
     def pack_bundle(self: QueueCommitter) -> QueueCommitterState:
         """Pack tasks into bundle for remote queue."""
         if self.tasks:
-- 
2.43.0


From c36727d0b4b6f5c4cce573a4094d46a90432b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 19/74] fix: submit does not drop the last bundle when the
 remote queue is full

---
 src/hypershell/submit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index 8b9086e..f48d38c 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -462,7 +462,8 @@ class QueueCommitter(StateMachine):
     def finalize(self) -> QueueCommitterState:
         """Force final commit of tasks and halt."""
         self.pack_bundle()
-        self.commit()
+        if self.commit() is QueueCommitterState.COMMIT:
+            return QueueCommitterState.FINAL  # NOTE: remote queue is full, try again
         log.debug('Done (committer: no database)')
         return QueueCommitterState.HALT
 
-- 
2.43.0


From e8b3bfc00be9f3a0cca48fb3200f6cd794e8fab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:25 +0000
Subject: [PATCH 20/74] fix: submit hangs when its committer fails or is
 stopped while the queue is full

---
 src/hypershell/submit.py | 44 ++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index f48d38c..6cf044b 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -339,11 +339,27 @@ class SubmitThread(Thread):
         log.debug(f'Started ({self.source_name})')
         self.loader.start()
         self.committer.start()
-        self.loader.join()
-        self.queue.put(None)
+        self.wait_loader()
+        self.signal_committer()
         self.committer.join()
         log.debug('Done')
 
+    def wait_loader(self: SubmitThread) -> None:
+        """Wait for loader to exhaust source (unless committer failed)."""
+        while self.loader.is_alive() and self.committer.is_alive():
+            self.loader.join(timeout=1)
+        if not self.committer.is_alive():
+            self.committer.join()  # NOTE: re-raises exception
+        self.loader.join()
+
+    def signal_committer(self: SubmitThread) -> None:
+        """Signal committer there are no more tasks (unless it already stopped)."""
+        while self.committer.is_alive():
+            try:
+                return self.queue.put(None, timeout=1)
+            except QueueFull:
+                pass
+
     @functools.cached_property
     def source_name(self: SubmitThread) -> str:
         """Log details of source."""
@@ -358,7 +374,7 @@ class SubmitThread(Thread):
         """Stop child threads before main thread."""
         log.warning('Stopping')
         self.loader.stop(wait=wait, timeout=timeout)
-        self.queue.put(None)
+        self.signal_committer()
         self.committer.stop(wait=wait, timeout=timeout)
         super().stop(wait=wait, timeout=timeout)
 
@@ -558,12 +574,28 @@ class LiveSubmitThread(Thread):
             self.loader.start()
             self.committer.start()
             log.trace('Waiting (loader)')
-            self.loader.join()
-            self.local.put(None)
+            self.wait_loader()
+            self.signal_committer()
             log.trace('Waiting (committer)')
             self.committer.join()
         log.debug('Done')
 
+    def wait_loader(self: LiveSubmitThread) -> None:
+        """Wait for loader to exhaust source (unless committer failed)."""
+        while self.loader.is_alive() and self.committer.is_alive():
+            self.loader.join(timeout=1)
+        if not self.committer.is_alive():
+            self.committer.join()  # NOTE: re-raises exception
+        self.loader.join()
+
+    def signal_committer(self: LiveSubmitThread) -> None:
+        """Signal committer there are no more tasks (unless it already stopped)."""
+        while self.committer.is_alive():
+            try:
+                return self.local.put(None, timeout=1)
+            except QueueFull:
+                pass
+
     @functools.cached_property
     def source_name(self: LiveSubmitThread) -> str:
         """Log details of source."""
@@ -578,7 +610,7 @@ class LiveSubmitThread(Thread):
         """Stop child threads before main thread."""
         log.warning('Stopping')
         self.loader.stop(wait=wait, timeout=timeout)
-        self.local.put(None)
+        self.signal_committer()
         self.committer.stop(wait=wait, timeout=timeout)
         super().stop(wait=wait, timeout=timeout)
 
-- 
2.43.0


From 562411e665b1fa9913ca327b283af5215bc98b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 21/74] fix: where-clauses with >= and <= were read as > and <

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index a8c738d..0e2a953 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -1057,7 +1057,7 @@ class WhereClause:
     value: Any
     operand: str
 
-    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>|>=|<|<=|~)\s*(.*)$')
+    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>=|>|<=|<|~)\s*(.*)$')
     op_call = {
         '==': lambda lhs, rhs: lhs == rhs,
         '!=': lambda lhs, rhs: lhs != rhs,
-- 
2.43.0


From 638de84aeb890836d55b5dceb9885bb4dae560c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 22/74] fix: search for several tags without value only looked
 for the last one

---
 src/hypershell/task.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 0e2a953..30a42d6 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -428,11 +428,12 @@ class SearchableMixin:
             if isinstance(tags_with_value[name], str) and not tags_with_value[name]:
                 tags_name_only.append(name)
                 tags_with_value.pop(name)
-        for name in tags_name_only:
+        for i, name in enumerate(tags_name_only):
             if config.database.provider == 'sqlite':
                 # NOTE: sqlalchemy adds `json_quote(json_extract(task.tag, ?)) is not null`
                 # and cannot find a way to exclude `json_quote`, so we do it ourselves
-                query = query.filter(text('json_extract(task.tag, :key) is not null')).params(key=f'$."{name}"')
+                query = query.filter(text(f'json_extract(task.tag, :tag_{i}) is not null'))
+                query = query.params(**{f'tag_{i}': f'$."{name}"'})
             else:
                 query = query.filter(Task.tag[name].isnot(None))
         for name, value in tags_with_value.items():
-- 
2.43.0


From a40045dbdcd608e910edcd701524883b62d59652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 23/74] fix: search for a tag with value 0.0 or 1.0 found
 nothing

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 30a42d6..14e1b1c 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -437,7 +437,7 @@ class SearchableMixin:
             else:
                 query = query.filter(Task.tag[name].isnot(None))
         for name, value in tags_with_value.items():
-            if config.database.provider == 'sqlite' and value in (True, False):
+            if config.database.provider == 'sqlite' and isinstance(value, bool):
                 value = int(value)  # NOTE: SQLite stores as 0/1 not JSON true/false :(
             query = query.filter(Task.tag[name] == type_coerce(value, JSON))
         return query
-- 
2.43.0


From 901727806866e2ff19d83030cf10d7eb9be9ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 24/74] fix: search for a tag with value null also matched
 tasks without the tag

---
 src/hypershell/task.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 14e1b1c..ade721f 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -436,7 +436,12 @@ class SearchableMixin:
                 query = query.params(**{f'tag_{i}': f'$."{name}"'})
             else:
                 query = query.filter(Task.tag[name].isnot(None))
-        for name, value in tags_with_value.items():
+        for i, (name, value) in enumerate(tags_with_value.items()):
+            if config.database.provider == 'sqlite' and value is None:
+                # NOTE: `json_quote(json_extract(task.tag, ?))` is also 'null' if the tag is missing
+                query = query.filter(text(f'json_type(task.tag, :null_tag_{i}) = \'null\''))
+                query = query.params(**{f'null_tag_{i}': f'$."{name}"'})
+                continue
             if config.database.provider == 'sqlite' and isinstance(value, bool):
                 value = int(value)  # NOTE: SQLite stores as 0/1 not JSON true/false :(
             query = query.filter(Task.tag[name] == type_coerce(value, JSON))
-- 
2.43.0


From f3ba2aadef4b7395129f7b0ea704f12ef369e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:25 +0000
Subject: [PATCH 25/74] fix: search for a tag without value missed tasks whose
 tag is null

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index ade721f..2cc9979 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -432,7 +432,7 @@ class SearchableMixin:
             if config.database.provider == 'sqlite':
                 # NOTE: sqlalchemy adds `json_quote(json_extract(task.tag, ?)) is not null`
                 # and cannot find a way to exclude `json_quote`, so we do it ourselves
-                query = query.filter(text(f'json_extract(task.tag, :tag_{i}) is not null'))
+                query = query.filter(text(f'json_type(task.tag, :tag_{i}) is not null'))
                 query = query.params(**{f'tag_{i}': f'$."{name}"'})
             else:
                 query = query.filter(Task.tag[name].isnot(None))
-- 
2.43.0


From 841182ec743ee3d8d44c9a19dc0b92dbf1279a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:39 +0000
Subject: [PATCH 26/74] fix: updating or removing a tag whose name contains a
 dot changed another path

---
 src/hypershell/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 2cc9979..8e60eb5 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -930,7 +930,7 @@ class TaskUpdateApp(Application, SearchableMixin):
                 tag_changes = {}
                 change_expr = 'json_set(task.tag'
                 for i, (k, v) in enumerate(tag_updates.items()):
-                    tag_changes[f'k{i}'] = f'$.{k}'
+                    tag_changes[f'k{i}'] = f'$."{k}"'
                     tag_changes[f'v{i}'] = v
                     change_expr += f', :k{i}, :v{i}'
                 change_expr += ')'
@@ -948,7 +948,7 @@ class TaskUpdateApp(Application, SearchableMixin):
                 tag_changes = {}
                 change_expr = 'json_remove(task.tag'
                 for i, name in enumerate(self.remove_tag):
-                    tag_changes[f'k{i}'] = f'$.{name}'
+                    tag_changes[f'k{i}'] = f'$."{name}"'
                     change_expr += f', :k{i}'
                 change_expr += ')'
                 query.update({Task.tag: text(change_expr).params(tag_changes)})
-- 
2.43.0


From a1e14ac3f21fa43e3e2b7d2b1f04beb02a8a8c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 27/74] fix: updating a tag to true or false stored a number

---
 src/hypershell/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 8e60eb5..fec3543 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -931,8 +931,8 @@ class TaskUpdateApp(Application, SearchableMixin):
                 change_expr = 'json_set(task.tag'
                 for i, (k, v) in enumerate(tag_updates.items()):
                     tag_changes[f'k{i}'] = f'$."{k}"'
-                    tag_changes[f'v{i}'] = v
-                    change_expr += f', :k{i}, :v{i}'
+                    tag_changes[f'v{i}'] = json.dumps(v)
+                    change_expr += f', :k{i}, json(:v{i})'
                 change_expr += ')'
                 query.update({Task.tag: text(change_expr).params(tag_changes)})
             else:
-- 
2.43.0


From a77e33a6536286f7942a9b175dff36138c25d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 28/74] fix: a combined task update applied later changes only
 to tasks that still matched after the first

---
 src/hypershell/task.py | 72 ++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 49 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index fec3543..38a0d54 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -901,62 +901,36 @@ class TaskUpdateApp(Application, SearchableMixin):
             # We cannot apply an UPDATE query with a LIMIT field
             # The alternative is to pull the data and batch the update
             # While terribly inefficient at least it has a LIMIT
-            if field_updates:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([{'id': task.id, **field_updates} for task in batch])
-            if tag_updates:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([{'id': task.id, 'tag': {**task.tag, **tag_updates}} for task in batch])
-            if self.remove_tag:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([
-                        {'id': task.id, 'tag': self.drop_items(task.tag, *self.remove_tag)}
-                        for task in batch
-                    ])
+            tasks_it = iter(query.all())
+            while batch := tuple(itertools.islice(tasks_it, 100)):
+                changes = [{'id': task.id, **field_updates} for task in batch]
+                if tag_updates or self.remove_tag:
+                    for task, change in zip(batch, changes):
+                        change['tag'] = self.drop_items({**task.tag, **tag_updates}, *(self.remove_tag or []))
+                Task.update_all(changes)
             log.info(f'Updated {count} tasks')
             return
 
-        if field_updates:
-            query.update(field_updates)
-
-        if tag_updates:
+        # NOTE: a single update, as the changes can otherwise alter what is matched by the query
+        tag_expr, tag_params = 'task.tag', {}
+        for i, (k, v) in enumerate(tag_updates.items()):
             if config.database.provider == 'sqlite':
-                tag_changes = {}
-                change_expr = 'json_set(task.tag'
-                for i, (k, v) in enumerate(tag_updates.items()):
-                    tag_changes[f'k{i}'] = f'$."{k}"'
-                    tag_changes[f'v{i}'] = json.dumps(v)
-                    change_expr += f', :k{i}, json(:v{i})'
-                change_expr += ')'
-                query.update({Task.tag: text(change_expr).params(tag_changes)})
+                tag_expr = f'json_set({tag_expr}, :k{i}, json(:v{i}))'
+                tag_params.update({f'k{i}': f'$."{k}"', f'v{i}': json.dumps(v)})
             else:
-                # We cannot stack inserts with Postgres
-                # Instead we do them with individual update queries
-                for i, (k, v) in enumerate(tag_updates.items()):
-                    change_expr = 'jsonb_set(task.tag, :key, :value)'
-                    params = {'key': '{' + k + '}', 'value': json.dumps(to_json_type(v))}
-                    query.update({Task.tag: text(change_expr).params(**params)})
-
-        if self.remove_tag:
+                tag_expr = f'jsonb_set({tag_expr}, :k{i}, :v{i})'
+                tag_params.update({f'k{i}': '{' + k + '}', f'v{i}': json.dumps(to_json_type(v))})
+        for i, name in enumerate(self.remove_tag or []):
             if config.database.provider == 'sqlite':
-                tag_changes = {}
-                change_expr = 'json_remove(task.tag'
-                for i, name in enumerate(self.remove_tag):
-                    tag_changes[f'k{i}'] = f'$."{name}"'
-                    change_expr += f', :k{i}'
-                change_expr += ')'
-                query.update({Task.tag: text(change_expr).params(tag_changes)})
+                tag_expr = f'json_remove({tag_expr}, :r{i})'
+                tag_params[f'r{i}'] = f'$."{name}"'
             else:
-                # We cannot stack subtractions with Postgres
-                # Instead we do them with individual update queries
-                for name in self.remove_tag:
-                    query.update({Task.tag: text('task.tag - :name').params(name=name)})
+                tag_expr = f'({tag_expr} - :r{i})'
+                tag_params[f'r{i}'] = name
+        if tag_params:
+            field_updates['tag'] = text(tag_expr).params(tag_params)
+        if field_updates:
+            query.update(field_updates)
 
         Session.commit()
         log.info(f'Updated {count} tasks')
-- 
2.43.0


From 05315deb3abffbcb71f5dc7407f4dcaaaeb0e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 29/74] fix: deleting tasks with --limit failed

---
 src/hypershell/task.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 38a0d54..59c74a6 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -867,7 +867,13 @@ class TaskUpdateApp(Application, SearchableMixin):
                 return
 
         if self.delete_mode:
-            query.delete()
+            if self.limit is not None:
+                # NOTE: We cannot apply a DELETE query with a LIMIT field
+                tasks_it = iter(query.all())
+                while batch := tuple(itertools.islice(tasks_it, 100)):
+                    Task.query().filter(Task.id.in_([task.id for task in batch])).delete()
+            else:
+                query.delete()
             Session.commit()
             log.info(f'Deleted {count} tasks')
             return
-- 
2.43.0


From ad610ae284cc4d3cd426fa13765390757fd53497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 30/74] fix: task info and search mangled texts with quotes,
 backslashes or non-ASCII characters

---
 src/hypershell/task.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 59c74a6..c60aa07 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -179,9 +179,9 @@ class TaskInfoApp(Application):
     def print_field(self: TaskInfoApp) -> None:
         """Print single field."""
         if self.extract_field != 'tag':
-            print(json.dumps(self.task.to_json().get(self.extract_field)).strip('"'))
+            print(format_value(getattr(self.task, self.extract_field)))
         elif self.output_format == 'normal':
-            print(', '.join(f'{k}:{v}' if v else k for k, v in self.task.tag.items()))
+            print(', '.join(format_tag(k, v) for k, v in self.task.tag.items()))
         else:
             formatter = self.format_method[self.output_format]
             output = formatter(self.task.tag)
@@ -646,7 +646,7 @@ class TaskSearchApp(Application, SearchableMixin):
         for name in self.field_names:
             table.add_column(name)
         for record in results:
-            table.add_row(*[json.dumps(to_json_type(value)).strip('"') for value in record])
+            table.add_row(*[format_value(value) for value in record])
         Console().print(table)
 
     @staticmethod
@@ -659,8 +659,8 @@ class TaskSearchApp(Application, SearchableMixin):
     def print_plain(self: TaskSearchApp, results: List[Tuple]) -> None:
         """Print plain text output with given field names, one task per line."""
         for record in results:
-            data = [json.dumps(to_json_type(value)).strip('"') for value in record]
-            print(self.output_delimiter.join(map(str, data)))
+            data = [format_value(value) for value in record]
+            print(self.output_delimiter.join(data))
 
     def print_json(self: TaskSearchApp, results: List[Tuple]) -> None:
         """Print in output in JSON format."""
@@ -678,9 +678,7 @@ class TaskSearchApp(Application, SearchableMixin):
         writer = csv.writer(sys.stdout, delimiter=self.output_delimiter)
         writer.writerow(self.field_names)
         for record in results:
-            data = [to_json_type(value) for value in record]
-            data = [value if isinstance(value, str) else json.dumps(value) for value in data]
-            writer.writerow(data)
+            writer.writerow([format_value(value) for value in record])
 
     def check_output_format(self: TaskSearchApp) -> None:
         """Check given output format is valid."""
@@ -1112,9 +1110,9 @@ class Tag:
 
 def print_normal(task: Task) -> None:
     """Print semi-structured task metadata with all field names."""
-    task_data = {k: json.dumps(to_json_type(v)).strip('"') for k, v in task.to_dict().items()}
-    task_data['waited'] = 'null' if not task.waited else timedelta(seconds=int(task_data['waited']))
-    task_data['duration'] = 'null' if not task.duration else timedelta(seconds=int(task_data['duration']))
+    task_data = {k: format_value(v) for k, v in task.to_dict().items()}
+    task_data['waited'] = 'null' if task.waited is None else timedelta(seconds=task.waited)
+    task_data['duration'] = 'null' if task.duration is None else timedelta(seconds=task.duration)
     task_data['tag'] = ', '.join(format_tag(k, v) for k, v in task.tag.items())
     print(f'          id: {task_data["id"]}')
     print(f'        args: {task_data["args"]}')
@@ -1136,6 +1134,12 @@ def print_normal(task: Task) -> None:
     print(f'        tags: {task_data["tag"]}')
 
 
+def format_value(value: Any) -> str:
+    """Format as plain text (text as is, everything else as JSON)."""
+    value = to_json_type(value)
+    return value if isinstance(value, str) else json.dumps(value)
+
+
 def format_tag(key: str, value: JSONValue) -> str:
     """Format as `key` or `key:value` if not empty string."""
     if isinstance(value, str) and not value:
-- 
2.43.0


From 0ee8ec34b3664ec046c507b7e5ffa732859f1b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 31/74] fix: hs server --print closed the standard output on
 exit

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index ceb42b1..3cca64b 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1228,5 +1228,5 @@ class ServerApp(Application):
         """Clean up IO if necessary."""
         if self.input_stream is not None and self.input_stream is not sys.stdin:
             self.input_stream.close()
-        if self.failure_stream is not None and self.failure_path is not sys.stdout:
+        if self.failure_stream is not None and self.failure_stream is not sys.stdout:
             self.failure_stream.close()
-- 
2.43.0


From 86a1deff079e2033900cb80476e90c8cab97ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 32/74] fix: hs server ignored --eager

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 3cca64b..f94d886 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1122,7 +1122,7 @@ class ServerApp(Application):
     eager_mode: bool = config.server.eager
     max_retries: int = config.server.attempts - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
-    interface.add_argument('--eager', action='store_true')
+    interface.add_argument('--eager', action='store_true', default=eager_mode, dest='eager_mode')
 
     forever_mode: bool = False
     interface.add_argument('--forever', action='store_true', dest='forever_mode')
-- 
2.43.0


From 38761e2b55935b3b90cb74570bc5c914e07b1057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 33/74] fix: hs server ignored --initdb and demanded a database
 with --no-db

---
 src/hypershell/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index f94d886..2fa8004 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1218,7 +1218,8 @@ class ServerApp(Application):
     def __enter__(self: ServerApp) -> ServerApp:
         """Ensure context and database ready."""
         self.check_args()
-        ensuredb()
+        if not self.in_memory:
+            ensuredb(auto_init=self.auto_initdb)
         return self
 
     def __exit__(self: ServerApp,
-- 
2.43.0


From 11de24240ad5cacf2adbed7e6d69e56a94dcd1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:58 +0000
Subject: [PATCH 34/74] fix: hs client took bundle size and wait from the
 submit section of the configuration

---
 src/hypershell/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index a51532a..3f55ca5 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -1173,10 +1173,10 @@ class ClientApp(Application):
     template: str = DEFAULT_TEMPLATE
     interface.add_argument('-t', '--template', default=template)
 
-    bundlesize: int = config.submit.bundlesize
+    bundlesize: int = config.client.bundlesize
     interface.add_argument('-b', '--bundlesize', type=int, default=bundlesize)
 
-    bundlewait: int = config.submit.bundlewait
+    bundlewait: int = config.client.bundlewait
     interface.add_argument('-w', '--bundlewait', type=int, default=bundlewait)
 
     delay_start: float = DEFAULT_DELAY
-- 
2.43.0


From 46744ebbf5200761a0ea40ef49f3a86b6e94beb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:58 +0000
Subject: [PATCH 35/74] fix: hs client did not accept the documented option
 --signalwait

---
 src/hypershell/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 3f55ca5..090d5e5 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -1188,7 +1188,8 @@ class ClientApp(Application):
     interface.add_argument('-W', '--task-timeout', type=int, default=task_timeout, dest='task_timeout')
 
     task_signalwait: int = config.task.signalwait
-    interface.add_argument('-S', '--task-signalwait', type=int, default=task_signalwait, dest='task_signalwait')
+    interface.add_argument('-S', '--signalwait', '--task-signalwait', type=int,
+                           default=task_signalwait, dest='task_signalwait')
 
     no_confirm: bool = False
     interface.add_argument('--no-confirm', action='store_true')
-- 
2.43.0


From faac5bf48b3bdd4b7793852b1dcd3c39a272438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 36/74] fix: hs cluster ignored server.attempts of the
 configuration

---
 src/hypershell/cluster/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 6ea63b2..88a3f4c 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -129,7 +129,7 @@ class ClusterApp(Application):
     interface.add_argument('-d', '--delay-start', type=float, default=delay_start)
 
     eager_mode: bool = False
-    max_retries: int = DEFAULT_ATTEMPTS - 1
+    max_retries: int = config.server.attempts - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
     interface.add_argument('--eager', action='store_true', dest='eager_mode')
 
-- 
2.43.0


From 46c33659ed33794ad0e4c3b58f43dd4b40c01b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 37/74] fix: cluster classes retried failed tasks by default

---
 src/hypershell/cluster/local.py  | 2 +-
 src/hypershell/cluster/remote.py | 4 ++--
 src/hypershell/cluster/ssh.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 7ded8b5..4bc7668 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -155,7 +155,7 @@ class LocalCluster(Thread):
                  no_confirm: bool = False,
                  forever_mode: bool = False,
                  restart_mode: bool = False,
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  redirect_output: IO = None,
diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 57dee7f..5502258 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -201,7 +201,7 @@ class RemoteCluster(Thread):
                  no_confirm: bool = False,
                  forever_mode: bool = False,
                  restart_mode: bool = False,
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  delay_start: float = DEFAULT_DELAY,
@@ -663,7 +663,7 @@ class AutoScalingCluster(Thread):
                  no_confirm: bool = False,  # noqa: ignored (passed by ClusterApp)
                  forever_mode: bool = False,  # noqa: ignored (passed by ClusterApp)
                  restart_mode: bool = False,  # noqa: ignored (passed by ClusterApp)
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  delay_start: float = DEFAULT_DELAY,
diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 7bda57b..ccfbf41 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -195,7 +195,7 @@ class SSHCluster(Thread):
                  no_confirm: bool = False,
                  forever_mode: bool = False,
                  restart_mode: bool = False,
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  delay_start: float = DEFAULT_DELAY,
-- 
2.43.0


From 3bc94a1cc917e399eb7ee4fcacdac418941df979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 38/74] fix: hs cluster ignored --eager and server.eager of the
 configuration

---
 src/hypershell/cluster/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 88a3f4c..403b332 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -128,10 +128,10 @@ class ClusterApp(Application):
     delay_start: float = DEFAULT_DELAY
     interface.add_argument('-d', '--delay-start', type=float, default=delay_start)
 
-    eager_mode: bool = False
+    eager_mode: bool = config.server.eager
     max_retries: int = config.server.attempts - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
-    interface.add_argument('--eager', action='store_true', dest='eager_mode')
+    interface.add_argument('--eager', action='store_true', dest='eager_mode', default=eager_mode)
 
     in_memory: bool = False
     auto_initdb: bool = False
@@ -212,7 +212,7 @@ class ClusterApp(Application):
         launcher = self.launchers.get(self.mode)
         launcher(source=self.source, num_tasks=self.num_tasks, template=self.template,
                  bundlesize=self.bundlesize, bundlewait=self.bundlewait, max_retries=self.max_retries,
-                 in_memory=self.in_memory, no_confirm=self.no_confirm, forever_mode=self.forever_mode,
+                 eager=self.eager_mode, in_memory=self.in_memory, no_confirm=self.no_confirm, forever_mode=self.forever_mode,
                  restart_mode=self.restart_mode, redirect_failures=self.failure_stream,
                  delay_start=self.delay_start, capture=self.capture,
                  client_timeout=self.client_timeout, task_timeout=self.task_timeout,
-- 
2.43.0


From e92a0b08064047f16de25c936dc099a5ab1f49c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 39/74] fix: hs cluster ignored server.evict of the
 configuration

---
 src/hypershell/cluster/__init__.py |  1 +
 src/hypershell/cluster/local.py    | 10 ++++++++--
 src/hypershell/cluster/remote.py   | 18 +++++++++++++++---
 src/hypershell/cluster/ssh.py      | 10 ++++++++--
 4 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 403b332..455cbd7 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -214,6 +214,7 @@ class ClusterApp(Application):
                  bundlesize=self.bundlesize, bundlewait=self.bundlewait, max_retries=self.max_retries,
                  eager=self.eager_mode, in_memory=self.in_memory, no_confirm=self.no_confirm, forever_mode=self.forever_mode,
                  restart_mode=self.restart_mode, redirect_failures=self.failure_stream,
+                 evict_after=config.server.evict,
                  delay_start=self.delay_start, capture=self.capture,
                  client_timeout=self.client_timeout, task_timeout=self.task_timeout,
                  task_signalwait=self.task_signalwait)
diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 4bc7668..aefb43e 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -17,7 +17,7 @@ from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger
 from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.submit import DEFAULT_BUNDLEWAIT
-from hypershell.server import ServerThread, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
+from hypershell.server import ServerThread, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS, DEFAULT_EVICT
 from hypershell.client import ClientThread, DEFAULT_DELAY, DEFAULT_SIGNALWAIT, set_client_standalone
 
 # public interface
@@ -102,6 +102,10 @@ class LocalCluster(Thread):
         redirect_failures (IO, optional):
             Open file-like object to write failed tasks.
 
+        evict_after (int, optional):
+            Period in seconds to wait before evicting clients that miss heartbeats.
+            See :const:`~hypershell.server.DEFAULT_EVICT`.
+
         redirect_output (IO, optional):
             Optional file-like object for <stdout> redirect.
 
@@ -158,6 +162,7 @@ class LocalCluster(Thread):
                  max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
+                 evict_after: int = DEFAULT_EVICT,
                  redirect_output: IO = None,
                  redirect_errors: IO = None,
                  delay_start: float = DEFAULT_DELAY,
@@ -177,7 +182,8 @@ class LocalCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=evict_after)
         self.client = ClientThread(num_tasks=num_tasks,
                                    template=template,
                                    bundlesize=bundlesize,
diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 5502258..6879e47 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -28,7 +28,7 @@ from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.data.model import Task, Client
 from hypershell.client import DEFAULT_DELAY, DEFAULT_SIGNALWAIT
 from hypershell.submit import DEFAULT_BUNDLEWAIT
-from hypershell.server import ServerThread, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
+from hypershell.server import ServerThread, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS, DEFAULT_EVICT
 
 # public interface
 __all__ = ['run_cluster', 'RemoteCluster', 'AutoScalingCluster',
@@ -150,6 +150,10 @@ class RemoteCluster(Thread):
         redirect_failures (IO, optional):
             Open file-like object to write failed tasks.
 
+        evict_after (int, optional):
+            Period in seconds to wait before evicting clients that miss heartbeats.
+            See :const:`~hypershell.server.DEFAULT_EVICT`.
+
         delay_start (float, optional):
             Delay in seconds before connecting to server.
             See :const:`~hypershell.client.DEFAULT_DELAY`.
@@ -204,6 +208,7 @@ class RemoteCluster(Thread):
                  max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
+                 evict_after: int = DEFAULT_EVICT,
                  delay_start: float = DEFAULT_DELAY,
                  capture: bool = False,
                  client_timeout: int = None,
@@ -222,7 +227,8 @@ class RemoteCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=evict_after)
         launcher = shlex.split(launcher)
         if launcher_args is None:
             launcher_args = []
@@ -587,6 +593,10 @@ class AutoScalingCluster(Thread):
         redirect_failures (IO, optional):
             Open file-like object to write failed tasks.
 
+        evict_after (int, optional):
+            Period in seconds to wait before evicting clients that miss heartbeats.
+            See :const:`~hypershell.server.DEFAULT_EVICT`.
+
         delay_start (float, optional):
             Delay in seconds before connecting to server.
             See :const:`~hypershell.client.DEFAULT_DELAY`.
@@ -666,6 +676,7 @@ class AutoScalingCluster(Thread):
                  max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
+                 evict_after: int = DEFAULT_EVICT,
                  delay_start: float = DEFAULT_DELAY,
                  capture: bool = False,
                  client_timeout: int = None,
@@ -682,7 +693,8 @@ class AutoScalingCluster(Thread):
         auth = secrets.token_hex(64)
         self.server = ServerThread(source=source, auth=auth, bundlesize=bundlesize, bundlewait=bundlewait,
                                    max_retries=max_retries, eager=eager, address=bind, forever_mode=True,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=evict_after)
         launcher = shlex.split(launcher)
         if launcher_args is None:
             launcher_args = []
diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index ccfbf41..571ff02 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -26,7 +26,7 @@ from hypershell.core.logging import Logger, HOSTNAME
 from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.client import DEFAULT_DELAY, DEFAULT_SIGNALWAIT
 from hypershell.submit import DEFAULT_BUNDLEWAIT
-from hypershell.server import ServerThread, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
+from hypershell.server import ServerThread, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS, DEFAULT_EVICT
 
 # public interface
 __all__ = ['run_ssh', 'SSHCluster', 'NodeList', 'DEFAULT_REMOTE_EXE']
@@ -141,6 +141,10 @@ class SSHCluster(Thread):
         redirect_failures (IO, optional):
             Open file-like object to write failed tasks.
 
+        evict_after (int, optional):
+            Period in seconds to wait before evicting clients that miss heartbeats.
+            See :const:`~hypershell.server.DEFAULT_EVICT`.
+
         delay_start (float, optional):
             Delay in seconds before connecting to server.
             See :const:`~hypershell.client.DEFAULT_DELAY`.
@@ -198,6 +202,7 @@ class SSHCluster(Thread):
                  max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
+                 evict_after: int = DEFAULT_EVICT,
                  delay_start: float = DEFAULT_DELAY,
                  capture: bool = False,
                  client_timeout: int = None,
@@ -218,7 +223,8 @@ class SSHCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=evict_after)
         launcher = shlex.split(launcher)
         launcher_env = shlex.split('' if not export_env else compile_env())
         if launcher_args is None:
-- 
2.43.0


From 96be19cc4b2055878d0c513cbffdf39471797ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 40/74] fix: hs cluster ignored server.port of the
 configuration

---
 src/hypershell/cluster/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 455cbd7..40a0d65 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -168,7 +168,7 @@ class ClusterApp(Application):
     export_env: bool = False
     interface.add_argument('-E', '--env', action='store_true', dest='export_env')
 
-    port: int = QueueConfig.port
+    port: int = config.server.port
     interface.add_argument('-p', '--port', default=port, type=int)
 
     capture: bool = False
-- 
2.43.0


From a19febd6694c6a8884691ccd041a8fc2cdf0b5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 41/74] fix: hs cluster ignored --port without remote clients

---
 src/hypershell/cluster/__init__.py |  3 ++-
 src/hypershell/cluster/local.py    | 12 ++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 40a0d65..5c478cd 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -221,7 +221,8 @@ class ClusterApp(Application):
 
     def run_local(self: ClusterApp, **options) -> None:
         """Run local cluster."""
-        run_local(**options, redirect_output=self.output_stream, redirect_errors=self.errors_stream)
+        run_local(**options, bind=('localhost', self.port),
+                  redirect_output=self.output_stream, redirect_errors=self.errors_stream)
 
     def run_launch(self: ClusterApp, **options) -> None:
         """Run remote cluster with custom launcher."""
diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index aefb43e..a1a03f4 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -6,7 +6,7 @@
 
 # type annotations
 from __future__ import annotations
-from typing import Iterable, IO
+from typing import Iterable, Tuple, IO
 
 # standard libs
 import time
@@ -17,7 +17,8 @@ from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger
 from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.submit import DEFAULT_BUNDLEWAIT
-from hypershell.server import ServerThread, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS, DEFAULT_EVICT
+from hypershell.server import (ServerThread, DEFAULT_BIND, DEFAULT_PORT,
+                               DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS, DEFAULT_EVICT)
 from hypershell.client import ClientThread, DEFAULT_DELAY, DEFAULT_SIGNALWAIT, set_client_standalone
 
 # public interface
@@ -76,6 +77,10 @@ class LocalCluster(Thread):
             Waiting period in seconds before forcing return of task bundle to server.
             See :const:`~hypershell.server.DEFAULT_BUNDLEWAIT`.
 
+        bind (tuple, optional):
+            Local address for server and client with port number.
+            See :const:`~hypershell.server.DEFAULT_PORT`.
+
         in_memory (bool, optional):
             If True, revert to basic in-memory queue.
 
@@ -155,6 +160,7 @@ class LocalCluster(Thread):
                  template: str = DEFAULT_TEMPLATE,
                  bundlesize: int = DEFAULT_BUNDLESIZE,
                  bundlewait: int = DEFAULT_BUNDLEWAIT,
+                 bind: Tuple[str, int] = (DEFAULT_BIND, DEFAULT_PORT),
                  in_memory: bool = False,
                  no_confirm: bool = False,
                  forever_mode: bool = False,
@@ -175,6 +181,7 @@ class LocalCluster(Thread):
         self.server = ServerThread(source=source,
                                    bundlesize=bundlesize,
                                    bundlewait=bundlewait,
+                                   address=bind,
                                    auth=auth,
                                    in_memory=in_memory,
                                    no_confirm=no_confirm,
@@ -188,6 +195,7 @@ class LocalCluster(Thread):
                                    template=template,
                                    bundlesize=bundlesize,
                                    bundlewait=bundlewait,
+                                   address=bind,
                                    auth=auth,
                                    no_confirm=no_confirm,
                                    redirect_output=redirect_output,
-- 
2.43.0


From 470e74e37336b6d067dcbabf18d74fb6f6a80fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 42/74] fix: hs cluster ignored client.heartrate of the
 configuration for its local client

---
 src/hypershell/cluster/__init__.py | 2 +-
 src/hypershell/cluster/local.py    | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 5c478cd..2f9a032 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -221,7 +221,7 @@ class ClusterApp(Application):
 
     def run_local(self: ClusterApp, **options) -> None:
         """Run local cluster."""
-        run_local(**options, bind=('localhost', self.port),
+        run_local(**options, bind=('localhost', self.port), heartrate=config.client.heartrate,
                   redirect_output=self.output_stream, redirect_errors=self.errors_stream)
 
     def run_launch(self: ClusterApp, **options) -> None:
diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index a1a03f4..d6abd80 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -19,7 +19,8 @@ from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.submit import DEFAULT_BUNDLEWAIT
 from hypershell.server import (ServerThread, DEFAULT_BIND, DEFAULT_PORT,
                                DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS, DEFAULT_EVICT)
-from hypershell.client import ClientThread, DEFAULT_DELAY, DEFAULT_SIGNALWAIT, set_client_standalone
+from hypershell.client import (ClientThread, DEFAULT_DELAY, DEFAULT_SIGNALWAIT, DEFAULT_HEARTRATE,
+                               set_client_standalone)
 
 # public interface
 __all__ = ['run_local', 'LocalCluster']
@@ -125,6 +126,10 @@ class LocalCluster(Thread):
             Isolate task <stdout> and <stderr> in discrete files.
             Defaults to `False`.
 
+        heartrate (int, optional):
+            Period in seconds to wait between heartbeats.
+            See :const:`~hypershell.client.DEFAULT_HEARTRATE`.
+
         client_timeout (int, optional):
             Timeout in seconds before disconnecting from server.
             By default, the client waits for server tor request disconnect.
@@ -173,6 +178,7 @@ class LocalCluster(Thread):
                  redirect_errors: IO = None,
                  delay_start: float = DEFAULT_DELAY,
                  capture: bool = False,
+                 heartrate: int = DEFAULT_HEARTRATE,
                  client_timeout: int = None,
                  task_timeout: int = None,
                  task_signalwait: int = DEFAULT_SIGNALWAIT) -> None:
@@ -202,6 +208,7 @@ class LocalCluster(Thread):
                                    redirect_errors=redirect_errors,
                                    delay_start=delay_start,
                                    capture=capture,
+                                   heartrate=heartrate,
                                    client_timeout=client_timeout,
                                    task_timeout=task_timeout,
                                    task_signalwait=task_signalwait)
-- 
2.43.0


From 0512b2eb05ac87b9f3860d8ef11a65be275861c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 43/74] fix: hs cluster ignored --no-confirm with --autoscaling

---
 src/hypershell/cluster/remote.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 6879e47..658fc00 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -670,7 +670,7 @@ class AutoScalingCluster(Thread):
                  launcher_args: List[str] = None,
                  remote_exe: str = DEFAULT_REMOTE_EXE,
                  in_memory: bool = False,  # noqa: ignored (passed by ClusterApp)
-                 no_confirm: bool = False,  # noqa: ignored (passed by ClusterApp)
+                 no_confirm: bool = False,
                  forever_mode: bool = False,  # noqa: ignored (passed by ClusterApp)
                  restart_mode: bool = False,  # noqa: ignored (passed by ClusterApp)
                  max_retries: int = DEFAULT_ATTEMPTS - 1,
@@ -693,6 +693,7 @@ class AutoScalingCluster(Thread):
         auth = secrets.token_hex(64)
         self.server = ServerThread(source=source, auth=auth, bundlesize=bundlesize, bundlewait=bundlewait,
                                    max_retries=max_retries, eager=eager, address=bind, forever_mode=True,
+                                   no_confirm=no_confirm,
                                    redirect_failures=redirect_failures,
                                    evict_after=evict_after)
         launcher = shlex.split(launcher)
@@ -703,6 +704,8 @@ class AutoScalingCluster(Thread):
         client_args = []
         if capture:
             client_args.append('--capture')
+        if no_confirm:
+            client_args.append('--no-confirm')
         if client_timeout is not None:
             client_args.extend(['-T', str(client_timeout)])
         if task_timeout is not None:
-- 
2.43.0


From 4fd3ab225f3ee7f750ddf9bf9187b9fe5e5275c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 44/74] fix: hs cluster ignored ssh.args of the configuration

---
 src/hypershell/cluster/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 2f9a032..5d540a7 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -6,7 +6,7 @@
 
 # type annotations
 from __future__ import annotations
-from typing import IO, Optional, Iterable, Dict, Callable, Type
+from typing import IO, Optional, Iterable, List, Dict, Callable, Type
 from types import TracebackType
 
 # standard libs
@@ -240,9 +240,14 @@ class ClusterApp(Application):
             nodelist = NodeList.from_config(self.ssh_group)
         else:
             nodelist = NodeList.from_cmdline(self.ssh_mode if self.ssh_mode != '<default>' else None)
-        run_ssh(**options, launcher='ssh', launcher_args=shlex.split(self.ssh_args), nodelist=nodelist,
+        run_ssh(**options, launcher='ssh', launcher_args=self.ssh_options, nodelist=nodelist,
                 remote_exe=self.remote_exe, bind=('0.0.0.0', self.port), export_env=self.export_env)
 
+    @property
+    def ssh_options(self: ClusterApp) -> Optional[List[str]]:
+        """Command-line arguments for SSH (those of the configuration if not given)."""
+        return None if not self.ssh_args else shlex.split(self.ssh_args)
+
     def run_autoscaling(self: ClusterApp, **options) -> None:
         """Run remote cluster with custom launcher and autoscaling."""
         run_cluster(**options, autoscaling=True, launcher=(self.launch_mode or ''),
-- 
2.43.0


From 785d523a15d79b67ee90282ebfc86cb305367491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 45/74] fix: template with quotes was mangled by the remote
 shell of ssh clients

---
 src/hypershell/cluster/ssh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 571ff02..b7ac0f8 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -241,7 +241,7 @@ class SSHCluster(Thread):
         self.client_argv = [
             [*launcher, *launcher_args, host, *launcher_env, remote_exe, 'client', '-H', HOSTNAME,
              '-p', str(bind[1]), '-N', str(num_tasks), '-b', str(bundlesize), '-w', str(bundlewait),
-             '-t', f'\'{template}\'', '-k', auth, '-d', str(delay_start),
+             '-t', shlex.quote(template), '-k', auth, '-d', str(delay_start),
              '-S', str(task_signalwait), *client_args]
             for host in nodelist
         ]
-- 
2.43.0


From 34ced4114157c7c02c38fbc99a8679c43382d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 46/74] fix: exported variables were mangled by the remote
 shell of ssh clients

---
 src/hypershell/cluster/ssh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index b7ac0f8..794d8b7 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -226,7 +226,7 @@ class SSHCluster(Thread):
                                    redirect_failures=redirect_failures,
                                    evict_after=evict_after)
         launcher = shlex.split(launcher)
-        launcher_env = shlex.split('' if not export_env else compile_env())
+        launcher_env = [] if not export_env else compile_env()
         if launcher_args is None:
             launcher_args = shlex.split(config.ssh.get('args', ''))
         client_args = []
@@ -352,6 +352,6 @@ class NodeList(list):
         return result
 
 
-def compile_env() -> str:
+def compile_env() -> List[str]:
     """Build environment variable argument expansion for remote client launch command."""
-    return ' '.join([f'{key}="{value}"' for key, value in Namespace.from_env('HYPERSHELL').items()])
+    return [f'{key}={shlex.quote(value)}' for key, value in Namespace.from_env('HYPERSHELL').items()]
-- 
2.43.0


From 30e2c1d36ad095cdbd945ab60b6912ec8d35d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 47/74] fix: hs server accepted --no-db together with --forever
 or --restart

---
 src/hypershell/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 2fa8004..0a5f4eb 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1196,6 +1196,10 @@ class ServerApp(Application):
             self.filepath = '-'  # NOTE: assume STDIN
         if self.restart_mode and self.forever_mode:
             raise ArgumentError('Using --forever with --restart is invalid')
+        if self.in_memory and self.forever_mode:
+            raise ArgumentError('Using --forever with --no-db is invalid')
+        if self.in_memory and self.restart_mode:
+            raise ArgumentError('Using --restart with --no-db is invalid')
 
     @cached_property
     def input_stream(self: ServerApp) -> Optional[IO]:
-- 
2.43.0


From f5d3734386e06b5b9cc628bb2111eec5ac96997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 48/74] fix: host patterns with several ranges failed or lost
 ranges

---
 src/hypershell/cluster/ssh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 794d8b7..7d6900f 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -328,9 +328,9 @@ class NodeList(list):
         else:
             if match := cls.range_pattern.search(pattern):
                 range_spec = match.group()
-                prefix, suffix = pattern.split(range_spec)
+                prefix, suffix = pattern[:match.start()], pattern[match.end():]
                 segments = cls.expand_pattern(range_spec)
-                return cls([f'{prefix}{segment}{suffix}' for segment in segments])
+                return cls([f'{prefix}{segment}{rest}' for segment in segments for rest in cls.from_pattern(suffix)])
             else:
                 return cls([pattern, ])
 
-- 
2.43.0


From d056a3603a59a0bb57ba58d444b43f7782a3c8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 49/74] fix: cluster failed with AttributeError when its
 launcher could not be started

---
 src/hypershell/cluster/remote.py | 7 ++++---
 src/hypershell/cluster/ssh.py    | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 658fc00..0b53f1f 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -6,7 +6,7 @@
 
 # type annotations
 from __future__ import annotations
-from typing import Tuple, List, Dict, IO, Iterable, Callable, Type, Final
+from typing import Tuple, List, Dict, Optional, IO, Iterable, Callable, Type, Final
 
 # standard libs
 import os
@@ -188,7 +188,7 @@ class RemoteCluster(Thread):
     """
 
     server: ServerThread
-    clients: Popen
+    clients: Optional[Popen] = None
     client_argv: List[str]
 
     def __init__(self: RemoteCluster,
@@ -264,7 +264,8 @@ class RemoteCluster(Thread):
     def stop(self: RemoteCluster, wait: bool = False, timeout: int = None) -> None:
         """Stop child threads before main thread."""
         self.server.stop(wait=wait, timeout=timeout)
-        self.clients.terminate()
+        if self.clients is not None:
+            self.clients.terminate()
         super().stop(wait=wait, timeout=timeout)
 
 
diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 7d6900f..a6d0e95 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -245,13 +245,13 @@ class SSHCluster(Thread):
              '-S', str(task_signalwait), *client_args]
             for host in nodelist
         ]
+        self.clients = []
         super().__init__(name='hypershell-cluster')
 
     def run_with_exceptions(self: SSHCluster) -> None:
         """Start child threads, wait."""
         self.server.start()
         time.sleep(2)  # NOTE: give the server a chance to start
-        self.clients = []
         for argv in self.client_argv:
             log.debug(f'Launching client: {argv}')
             self.clients.append(Popen(argv, stdout=sys.stdout, stderr=sys.stderr))
-- 
2.43.0


From 046575123d6466206f5fac80522b2262ff011f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 50/74] fix: autoscaling cluster hangs when its server fails

---
 src/hypershell/cluster/remote.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 0b53f1f..16b6dd8 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -725,6 +725,9 @@ class AutoScalingCluster(Thread):
         self.server.start()
         time.sleep(2)  # NOTE: give the server a chance to start
         self.autoscaler.start()
+        while self.server.is_alive() and self.autoscaler.is_alive():
+            time.sleep(1)
+        self.autoscaler.stop()
         self.autoscaler.join()
         self.server.join()
 
-- 
2.43.0


From ce7d7f4da169d1d29ec83f3ab90f3176f6032bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 51/74] fix: autoscaling by task pressure failed with SQLite

---
 src/hypershell/data/model.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 652041f..78cad50 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -502,18 +502,15 @@ class Task(Entity):
     def effective_rate_by_client(cls: Type[Task]) -> Optional[Dict[str, float]]:
         """Effective completion rate in tasks per second by client."""
         if server_id := cls.latest_server():
-            return {id: 1 / dt.total_seconds() for id, dt in (
-                cls.query(
-                    cls.client_id,
-                    (func.max(cls.completion_time) - func.min(cls.start_time)) / func.count(cls.id)
-                )
+            return {id: count / (stop - start).total_seconds() for id, start, stop, count in (
+                cls.query(cls.client_id, func.min(cls.start_time), func.max(cls.completion_time), func.count(cls.id))
                 .join(Client, Task.client_id == Client.id)
                 .filter(cls.server_id == server_id)
                 .filter(cls.completion_time.isnot(None))
                 .filter(Client.disconnected_at == None)  # noqa: comparison to None
                 .group_by(cls.client_id)
                 .all()
-            )}
+            ) if stop > start}
         else:
             return None
 
-- 
2.43.0


From b2580737679ac1a980ff7632a7a8bbda1cabdc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 52/74] fix: hs config get altered text with quotes,
 backslashes or non-ASCII characters

---
 src/hypershell/config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index 2300b93..56d801b 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -218,15 +218,15 @@ class ConfigGetApp(Application):
 
     def print_output(self: ConfigGetApp, value: Any) -> None:
         """Format and print final `value`."""
-        value = self.format_output(value)
         if sys.stdout.isatty() and not self.raw_mode:
-            output = Syntax(value, 'toml', word_wrap=True,
+            output = Syntax(self.format_output(value), 'toml', word_wrap=True,
                             theme = full_config.console.theme,
                             background_color = 'default')
             Console().print(output)
         else:
-            # NOTE: JSON formatting puts quotations - we don't want these on raw output
-            print(value.strip('"'), file=sys.stdout, flush=True)
+            # NOTE: JSON formatting puts quotations and escapes - we don't want these on raw output
+            output = value if isinstance(value, str) else self.format_output(value)
+            print(output, file=sys.stdout, flush=True)
 
     def format_output(self: ConfigGetApp, value: Any) -> str:
         """Format `value` as appropriate text."""
-- 
2.43.0


From e9ac033161a57b6534cded4c6b9e2e909951affd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 53/74] fix: hs config which crashed for logging.format set by
 the logging style

---
 src/hypershell/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index 56d801b..1b493de 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -382,7 +382,7 @@ class ConfigWhichApp(Application):
             value = '[...]'
         if '[' in default_value:
             default_value = '[...]'
-        if site in ('default', 'logging', ):
+        if site in ('default', 'preload', ):
             print(f'{value} ({site})')
         elif site == 'env':
             env_varname = 'HYPERSHELL_' + self.varpath.upper().replace('.', '_')
-- 
2.43.0


From eced4dae41733578b05fd14aad5b868c860b4c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 54/74] fix: exported variables reached tasks with altered
 values or not at all

---
 src/hypershell/core/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 8e5f855..e3f7b3c 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -354,4 +354,11 @@ def __collapse_lists(ns: Namespace) -> Namespace:
 @functools.cache
 def load_task_env() -> Environ:
     """Export environment defined in `config.export`."""
-    return __collapse_lists(config.export).to_env().flatten()
+    # NOTE: Environment variables are passed on as is (no type coercion, no expanded hierarchy)
+    export = Namespace({})
+    for namespace in (*[ns for name, ns in config.namespaces.items() if name != 'env'], config.local):
+        export.update(namespace.get('export', {}))
+    env = __collapse_lists(export).to_env().flatten()
+    prefix = 'HYPERSHELL_EXPORT_'
+    env.update({name[len(prefix):]: value for name, value in os.environ.items() if name.startswith(prefix)})
+    return env
-- 
2.43.0


From 0e54d56e1f8b047b396923849bd7e2d309c0004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 55/74] fix: keys and passwords that look like numbers were
 altered when given as environment variables

---
 src/hypershell/core/config.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index e3f7b3c..c0b4ed4 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -148,9 +148,21 @@ def load_file(filepath: str) -> Namespace:
     return reload_file(filepath)
 
 
+# Always text even if the environment variable looks like a number
+TEXT_OPTIONS = [
+    ('database', 'file'), ('database', 'database'), ('database', 'user'), ('database', 'password'),
+    ('server', 'auth'),
+]
+
+
 def reload_env() -> Environ:
     """Force reloading environment variables and expanding hierarchy as namespace."""
-    return Environ(prefix='HYPERSHELL').expand()
+    env = Environ(prefix='HYPERSHELL').expand()
+    for section, option in TEXT_OPTIONS:
+        value = os.getenv(f'HYPERSHELL_{section}_{option}'.upper(), None)
+        if value and isinstance(env.get(section, None), dict) and env[section].get(option, None) is not None:
+            env[section][option] = value
+    return env
 
 
 @functools.lru_cache(maxsize=None)
-- 
2.43.0


From c71cf144ada634173bfc686157e0f1be51e42a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 56/74] fix: an authentication key that looks like a number
 crashed server and client

---
 src/hypershell/core/queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/core/queue.py b/src/hypershell/core/queue.py
index 06824f1..39b3159 100644
--- a/src/hypershell/core/queue.py
+++ b/src/hypershell/core/queue.py
@@ -59,7 +59,7 @@ class QueueInterface(BaseManager, ABC):
     def __init__(self: QueueInterface, config: QueueConfig) -> None:
         """Initialize queue interface."""
         self.config = config
-        super().__init__(address=(self.config.host, self.config.port), authkey=self.config.auth.encode())
+        super().__init__(address=(self.config.host, self.config.port), authkey=str(self.config.auth).encode())
 
     @classmethod
     def new(cls: Type[QueueInterface]) -> QueueInterface:
-- 
2.43.0


From ae3bc3df27692294ab3f5d5f65c01d1c0404d9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 57/74] fix: QueueConfig.load failed for want of an option
 server.host

---
 src/hypershell/core/queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/core/queue.py b/src/hypershell/core/queue.py
index 39b3159..ce88eeb 100644
--- a/src/hypershell/core/queue.py
+++ b/src/hypershell/core/queue.py
@@ -40,7 +40,7 @@ class QueueConfig:
     def load(cls: Type[QueueConfig]) -> QueueConfig:
         """Initialize from global configuration."""
         return cls.from_dict({
-            'host': _config.server.host,
+            'host': _config.server.bind,
             'port': _config.server.port,
             'auth': _config.server.auth,
             'size': _config.server.queuesize,
-- 
2.43.0


From 49a04e8255edcd408e51b80bbd7618adaa9312b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 58/74] fix: hs config set and edit failed for
 HYPERSHELL_CONFIG_FILE in the current directory

---
 src/hypershell/config.py      | 2 +-
 src/hypershell/core/config.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index 1b493de..61c233a 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -84,7 +84,7 @@ class ConfigEditApp(Application):
             raise RuntimeError('EDITOR or VISUAL environment variable not defined')
 
         config_path = path[self.site_name].config
-        os.makedirs(os.path.dirname(config_path), exist_ok=True)
+        os.makedirs(os.path.dirname(config_path) or '.', exist_ok=True)
 
         log.debug(f'Opening {config_path}')
         log.debug(f'Editor: {editor}')
diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index c0b4ed4..8438727 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -309,7 +309,7 @@ DEFAULT_CONFIG_HEADERS = f"""\
 def update(scope: str, partial: dict) -> None:
     """Extend the current configuration and commit it to disk."""
     config_path = path[scope].config
-    os.makedirs(os.path.dirname(config_path), exist_ok=True)
+    os.makedirs(os.path.dirname(config_path) or '.', exist_ok=True)
     if os.path.exists(config_path):
         timestamp = datetime.now().strftime('%Y%m%d-%H%M%S')
         config_backup_path = os.path.join(os.path.dirname(config_path), f'.config.{timestamp}.toml')
-- 
2.43.0


From 0fe4b26488fdcadb0bb89d1f95a15009f555fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 59/74] fix: documented section database.connection_args was
 taken for an URL parameter

---
 src/hypershell/data/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index 55306ce..28cbb1c 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -177,7 +177,7 @@ providers = {
 config = Namespace(config.database.copy())
 schema = config.pop('schema', None)
 engine_echo = config.pop('echo', False)
-connect_args = config.pop('connect_args', {})
+connect_args = {**config.pop('connection_args', {}), **config.pop('connect_args', {})}
 
 
 # additional parameters for engine creation
-- 
2.43.0


From b1658c7f471c77f8e79bcefbc12b5333b4aa753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 60/74] fix: database users and passwords with special
 characters broke the database URL

---
 src/hypershell/data/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index 28cbb1c..fba0687 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -11,7 +11,7 @@ from typing import Any, Type
 # standard libs
 import sys
 import logging
-from urllib.parse import urlencode
+from urllib.parse import urlencode, quote
 
 # external libs
 from cmdkit.app import exit_status
@@ -138,7 +138,7 @@ class DatabaseURL(dict):
 
     def _format_user_and_password(self: DatabaseURL) -> str:
         if self.user and self.password:
-            return f'{self.user}:{self.password}@'
+            return f'{quote(str(self.user), safe="")}:{quote(str(self.password), safe="")}@'
         else:
             return ''
 
-- 
2.43.0


From ff34f98e9a254e51e14d97917af00109d7eb7956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 61/74] fix: configured server.wait between database queries
 was ignored

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 0a5f4eb..72de684 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -187,7 +187,7 @@ class Scheduler(StateMachine):
             self.startup_phase = False
             return SchedulerState.PACK
         else:
-            time.sleep(DEFAULT_QUERY_PAUSE)
+            time.sleep(config.server.wait)
             return SchedulerState.LOAD
 
     def pack_bundle(self: Scheduler) -> SchedulerState:
-- 
2.43.0


From 4efd4f984774a38bd1e737602f469e9f016a5d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:01 +0000
Subject: [PATCH 62/74] fix: server hangs when its receiver or another
 component fails

---
 src/hypershell/server.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 72de684..a9458cf 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -779,7 +779,7 @@ class ServerThread(Thread):
         """Wait on task submission to complete."""
         if self.submitter is not None:
             log.trace('Waiting (submitter)')
-            self.submitter.join()
+            self.wait_thread(self.submitter)
             if self.scheduler is not None:
                 self.scheduler.signal_submitter(done=True)
 
@@ -787,20 +787,20 @@ class ServerThread(Thread):
         """Wait scheduling until complete."""
         if self.scheduler is not None:
             log.trace('Waiting (scheduler)')
-            self.scheduler.join()
+            self.wait_thread(self.scheduler)
 
     def wait_heartbeat(self: ServerThread) -> None:
         """Wait for heartmonitor to stop."""
         log.trace('Waiting (heartbeat)')
         self.heartmonitor.signal_scheduler_done()
         self.heartmonitor.signal_clients()
-        self.heartmonitor.join()
+        self.wait_thread(self.heartmonitor)
 
     def wait_receiver(self: ServerThread) -> None:
         """Wait for receiver to stop."""
         log.trace('Waiting (receiver)')
-        self.queue.completed.put(None)
-        self.receiver.join()
+        self.signal_receiver()
+        self.wait_thread(self.receiver)
 
     def wait_confirm(self: ServerThread) -> None:
         """Wait for confirm thread to stop."""
@@ -809,6 +809,23 @@ class ServerThread(Thread):
             self.queue.confirmed.put(None)
             self.confirm.join()
 
+    def wait_thread(self: ServerThread, thread: Thread) -> None:
+        """Wait for `thread` to complete (unless one of the others failed)."""
+        while thread.is_alive():
+            for other in (self.scheduler, self.confirm, self.receiver, self.heartmonitor):
+                if other is not None and not other.is_alive():
+                    other.join()  # NOTE: re-raises exception
+            thread.join(timeout=1)
+        thread.join()
+
+    def signal_receiver(self: ServerThread) -> None:
+        """Signal receiver there are no more tasks (unless it already stopped)."""
+        while self.receiver.is_alive():
+            try:
+                return self.queue.completed.put(None, timeout=1)
+            except QueueFull:
+                pass
+
     def stop(self: ServerThread, wait: bool = False, timeout: int = None) -> None:
         """Stop child threads before main thread."""
         log.warning('Stopping')
@@ -817,7 +834,7 @@ class ServerThread(Thread):
         if self.scheduler is not None:
             self.scheduler.stop(wait=wait, timeout=timeout)
         self.heartmonitor.stop(wait=wait, timeout=timeout)
-        self.queue.completed.put(None)
+        self.signal_receiver()
         self.receiver.stop(wait=wait, timeout=timeout)
         if not self.no_confirm:
             self.queue.confirmed.put(None)
-- 
2.43.0


From 7a48575b1e7d33a9e3f2bd4ae664d5447138d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:01 +0000
Subject: [PATCH 63/74] fix: port of the SSH configuration was ignored

---
 src/hypershell/core/remote.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypershell/core/remote.py b/src/hypershell/core/remote.py
index b64a784..9a3fc79 100644
--- a/src/hypershell/core/remote.py
+++ b/src/hypershell/core/remote.py
@@ -39,6 +39,7 @@ class SSHConfig:
     """Connection details for an SSHConnection."""
 
     hostname: str
+    port: int = 22
     timeout: Optional[float] = None
     username: Optional[str] = None
     password: Optional[str] = None
@@ -61,6 +62,7 @@ class SSHConfig:
         if profile := cls.check_config(hostname, filepath):
             return cls(**{
                 'hostname': profile.get('hostname', hostname),
+                'port': int(profile.get('port', 22)),
                 'username': profile.get('user', None),
                 'key_filename': profile.get('identityfile', None),
                 'sock': None if 'proxycommand' not in profile else ProxyCommand(profile['proxycommand']),
-- 
2.43.0


From 9b16a569f79f24a5b3d2c05fc0aac303fde7068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:02 +0000
Subject: [PATCH 64/74] fix: interrupted transfer of task output left a partial
 file shown as whole

---
 src/hypershell/core/remote.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/remote.py b/src/hypershell/core/remote.py
index 9a3fc79..9928e57 100644
--- a/src/hypershell/core/remote.py
+++ b/src/hypershell/core/remote.py
@@ -128,7 +128,9 @@ class SSHConnection:
         """Use SFTP to copy remote file to local file."""
         self.open_sftp()
         log.trace(f'GET {self.config.hostname}:{remote_path} -> {local_path}')
-        self.sftp.get(remote_path, local_path)
+        partial_path = f'{local_path}.part'
+        self.sftp.get(remote_path, partial_path)
+        os.replace(partial_path, local_path)  # NOTE: never leave an incomplete file as if it were whole
 
     def put_file(self: SSHConnection, local_path: str, remote_path: str) -> None:
         """Use SFTP to copy local file to remote file."""
-- 
2.43.0


From b385e3ae6cf92ceb146168fa256634d9aa006747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:48 +0000
Subject: [PATCH 65/74] fix: second server in one program served no client

---
 src/hypershell/core/queue.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/core/queue.py b/src/hypershell/core/queue.py
index ce88eeb..1ced207 100644
--- a/src/hypershell/core/queue.py
+++ b/src/hypershell/core/queue.py
@@ -89,10 +89,10 @@ class QueueServer(QueueInterface):
         self.completed = JoinableQueue(maxsize=self.config.size)
         self.heartbeat = JoinableQueue(maxsize=0)
         self.confirmed = JoinableQueue(maxsize=0)
-        self.register('_get_scheduled', callable=self._get_scheduled)
-        self.register('_get_completed', callable=self._get_completed)
-        self.register('_get_heartbeat', callable=self._get_heartbeat)
-        self.register('_get_confirmed', callable=self._get_confirmed)
+        self.register('_get_scheduled', callable=self._get_scheduled, create_method=False)
+        self.register('_get_completed', callable=self._get_completed, create_method=False)
+        self.register('_get_heartbeat', callable=self._get_heartbeat, create_method=False)
+        self.register('_get_confirmed', callable=self._get_confirmed, create_method=False)
         super().start()
 
     def _get_scheduled(self: QueueServer) -> JoinableQueue[Optional[List[bytes]]]:
-- 
2.43.0


From d59dd7d68846ff43a8d67931c96ff2c692d675e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:34 +0000
Subject: [PATCH 66/74] fix: --autoscaling with --restart and a FILE crashed on
 its own warning

---
 src/hypershell/cluster/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 5d540a7..f931981 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -313,7 +313,7 @@ class ClusterApp(Application):
             log.warning('Using --restart is redundant with --autoscaling (implies --forever)')
         if self.autoscaling_policy is not None and self.forever_mode:
             log.warning('Using --forever is redundant with --autoscaling')
-        if self.autoscaling_policy is not None and given_filepath:
+        if self.autoscaling_policy is not None and given_filepath and not self.restart_mode:
             log.warning(f'Task file ({self.input_stream.name}) in use but server will '
                         f'not halt (--autoscaling implies --forever)')
         if self.autoscaling_policy is not None and self.client_timeout is not None and self.autoscaling_minimum > 0:
-- 
2.43.0


From b139da7451f5ef8419453c157e3f70d7645e8242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 67/74] fix: config which reported success for an unknown
 option

---
 src/hypershell/config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index 61c233a..39a498c 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -356,9 +356,8 @@ class ConfigWhichApp(Application):
         """Business logic for `config which`."""
         try:
             site = full_config.which(*self.varpath.split('.'))
-        except KeyError:
-            log.critical(f'"{self.varpath}" not found')
-            return
+        except KeyError as error:
+            raise ConfigurationError(f'"{self.varpath}" not found') from error
         if self.site_only:
             print(site)
             return
-- 
2.43.0


From d01cf80d204974b1971f04c3e4b150b18a49f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 68/74] fix: legacy task update crashed on field id

---
 src/hypershell/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index c60aa07..39593df 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -821,6 +821,8 @@ class TaskUpdateApp(Application, SearchableMixin):
     def update_legacy(self: TaskUpdateApp) -> None:
         """Implement legacy interface to update single task."""
         uuid, field, value = self.update_args
+        if field == 'id':
+            raise ArgumentError(f'Cannot alter task "id" (given: {field}={value})')
         if field not in Task.columns:
             raise ArgumentError(f'Invalid field name "{field}"')
         try:
-- 
2.43.0


From 9640c5c4da9b5a4675ec37ede3bcb2bb6b3e6479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:42 +0000
Subject: [PATCH 69/74] fix: task pressure unknown after a task was cancelled

---
 src/hypershell/data/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 78cad50..5e79dda 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -490,6 +490,7 @@ class Task(Entity):
         if records := (
                 cls.query(cls.server_id)
                 .filter(cls.schedule_time.isnot(None))
+                .filter(cls.server_id.isnot(None))  # NOTE: cancelled before any server scheduled them
                 .order_by(func.max(cls.schedule_time).desc())
                 .group_by(cls.server_id)
                 .first()
-- 
2.43.0


From 20deafa8c03d04e0db59635a805d1ee5aa41a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:21 +0000
Subject: [PATCH 70/74] fix: stopped client hung and lost the results of its
 tasks

---
 src/hypershell/client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 090d5e5..bef83d3 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -152,6 +152,7 @@ class ClientScheduler(StateMachine):
     timeout: Optional[timedelta]
 
     previous_received: datetime
+    should_stop: bool = False
 
     task: Task
     tasks: List[Task]
@@ -197,6 +198,8 @@ class ClientScheduler(StateMachine):
         if check_signal() in (SIGUSR1, SIGUSR2) and CLIENT_STANDALONE_MODE:
             log.warning(f'Signal interrupt ({SIGNAL_MAP[check_signal()]})')
             return SchedulerState.FINAL
+        if self.should_stop:
+            return SchedulerState.FINAL
         try:
             self.bundle = self.queue.scheduled.get(timeout=2)
             self.queue.scheduled.task_done()
@@ -275,7 +278,7 @@ class ClientSchedulerThread(Thread):
     def stop(self: ClientSchedulerThread, wait: bool = False, timeout: int = None) -> None:
         """Stop machine."""
         log.warning('Stopping (scheduler)')
-        self.machine.halt()
+        self.machine.should_stop = True  # NOTE: tasks already received are not dropped
         super().stop(wait=wait, timeout=timeout)
 
 
@@ -1005,8 +1008,7 @@ class ClientThread(Thread):
     def stop(self: ClientThread, wait: bool = False, timeout: int = None) -> None:
         """Stop child threads before main thread."""
         log.warning('Stopping')
-        self.scheduler.stop(wait=wait, timeout=timeout)
-        self.collector.stop(wait=wait, timeout=timeout)
+        self.scheduler.stop(wait=wait, timeout=timeout)  # NOTE: others finish in turn
         super().stop(wait=wait, timeout=timeout)
 
 
-- 
2.43.0


From 0d175a2143640fa1dd5775e48a63cfa212f07c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 71/74] fix: stopping a local cluster closed its server before
 its client had finished

---
 src/hypershell/cluster/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index d6abd80..dda5681 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -225,6 +225,6 @@ class LocalCluster(Thread):
 
     def stop(self: LocalCluster, wait: bool = False, timeout: int = None) -> None:
         """Stop child threads before main thread."""
-        self.server.stop(wait=wait, timeout=timeout)
         self.client.stop(wait=wait, timeout=timeout)
+        self.server.stop(wait=wait, timeout=timeout)
         super().stop(wait=wait, timeout=timeout)
-- 
2.43.0


From 952e8a6f55404b68ef0b5590c9f70549dee72013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:57 +0000
Subject: [PATCH 72/74] fix: a leaving client hung when its server died before
 its tasks had ended

---
 src/hypershell/client.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index bef83d3..4bc8c7e 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -988,17 +988,33 @@ class ClientThread(Thread):
     def wait_collector(self: ClientThread) -> None:
         """Signal collector to halt."""
         log.trace('Waiting (collector)')
-        self.outbound.put(None)
+        self.put_signal(self.outbound)
         self.collector.join()
 
     def wait_executors(self: ClientThread) -> None:
         """Send disconnect signal to each task executor thread."""
         for _ in self.executors:
-            self.inbound.put(None)  # signal executors to shut down
+            self.put_signal(self.inbound)  # signal executors to shut down
         for thread in self.executors:
             log.trace(f'Waiting (executor-{thread.id})')
+            while thread.is_alive():
+                self.check_collector()
+                thread.join(timeout=1)
             thread.join()
 
+    def put_signal(self: ClientThread, queue: Queue[Optional[Task]]) -> None:
+        """Put sentinel on local `queue` (unless collector failed)."""
+        while True:
+            try:
+                return queue.put(None, timeout=1)
+            except QueueFull:
+                self.check_collector()
+
+    def check_collector(self: ClientThread) -> None:
+        """Executors cannot finish if the collector failed."""
+        if not self.collector.is_alive():
+            self.collector.join()  # NOTE: re-raises exception
+
     def wait_heartbeat(self: ClientThread) -> None:
         """Signal HALT on heartbeat."""
         log.trace('Waiting (heartbeat)')
-- 
2.43.0


From 2819d3e2b88c1c978efeb625dcc2e30e8cfd9509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:00 +0000
Subject: [PATCH 73/74] fix: count the idle limit of a client from when it is
 connected

---
 src/hypershell/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 4bc8c7e..9badc77 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -191,6 +191,7 @@ class ClientScheduler(StateMachine):
         """Jump to GET_REMOTE state."""
         timeout_label = self.timeout or 'no'
         log.debug(f'Started (scheduler: {timeout_label} timeout)')
+        self.previous_received = datetime.now()  # NOTE: not while the client was waiting to start
         return SchedulerState.GET_REMOTE
 
     def get_remote(self: ClientScheduler) -> SchedulerState:
-- 
2.43.0


From 34549fbc48e1060db056a20f5ee27c81e599ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:31 +0000
Subject: [PATCH 74/74] fix: pass on the output that remains when a remote
 command exits

---
 src/hypershell/core/remote.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hypershell/core/remote.py b/src/hypershell/core/remote.py
index 9928e57..fb121eb 100644
--- a/src/hypershell/core/remote.py
+++ b/src/hypershell/core/remote.py
@@ -191,6 +191,5 @@ class BufferedTransport(Thread):
 
     def run_with_exceptions(self: BufferedTransport) -> None:
         """Start reading data."""
-        while not self.remote.channel.exit_status_ready():
-            buffer = self.remote.readline()
+        while buffer := self.remote.readline():  # NOTE: output may remain after the command has exited
             self.local.write(buffer)
-- 
2.43.0

