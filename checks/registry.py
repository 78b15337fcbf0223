"""Registry of properties: statements for properties.jsonl, modules and bounds for the checks."""

COMMON = ['CPython 3.12 semantics as modelled by sx/ (validated by replaying sampled symbolic paths on the plain '
          'sources)',
          'the clock is a stub giving the harness-chosen instants; logging has no side effects']
DB = ['the database is modelled at the SQLAlchemy dialect level (real ORM, session and query compilation; symbolic '
      'rows); sampled paths are replayed on a real SQLite file and must agree']
MODEL = 'src/hypershell/data/model.py'
SERVER = 'src/hypershell/server.py'
CLIENT = 'src/hypershell/client.py'
SUBMIT = 'src/hypershell/submit.py'
TASKPY = 'src/hypershell/task.py'
CLUSTER = 'src/hypershell/cluster'
TESTS = 'The stable tests only exercise database URL parsing; nothing runs this code.'

PROPS = {}


def prop(id, module, title, statement, over, text, files, mechanism, bounds, outside, why='', assumptions=(), db=False,
         quick_budget=300, thorough_budget=2400, **kw):
    mods = [module] if isinstance(module, str) else list(module)
    PROPS[id] = dict(modules=mods, title=title, statement=statement, over=over, text=text, files=files,
                     mechanism=mechanism, bounds=bounds, outside=outside, why=why or TESTS,
                     assumptions=list(assumptions) + COMMON + (DB if db else []), quick_budget=quick_budget,
                     thorough_budget=thorough_budget, **kw)


prop('P01', 'sched_db', 'Scheduling picks each waiting task once, in order, up to the limit',
     'Asking the database for the next tasks returns at most the requested number, only tasks that were never '
     'scheduled or fresh retries of failed ones, each exactly once, and as many as are available. Waiting tasks go in '
     'order of submission, ahead of retries unless eager mode prefers retries. What is returned is recorded as '
     'scheduled by this server before it is returned, and no other task changes.',
     ['inputs', 'histories'],
     'Every database content of n tasks in any life-cycle state with arbitrary instants, attempt numbers and exit '
     'statuses; every limit, attempts setting and eager flag; repeated calls until drained.',
     [MODEL], [dict(name='Task.next / select_new / select_failed', where=f'{MODEL}')],
     'n=2 tasks in mixed states (thorough 3); n=3 waiting tasks drained by repeated calls (thorough 5); attempt numbers 1..1000, attempts 1..1001',
     'more tasks; PostgreSQL; several servers scheduling concurrently from one database', db=True,
     why=TESTS + ' Ordering, limits and double selection depend on combinations of states and instants.')
prop('P02', 'sched_db', 'A failed task is retried exactly once per failure, up to the allowed attempts',
     'A task that fails is retried if and only if it has attempts left, so it runs at most the allowed number of '
     'times and never again after it succeeded. Each failed run gets at most one retry, which carries the same '
     'command and tags, the next attempt number, and links in both directions.',
     ['inputs', 'histories'],
     'One scheduling step from any content of n tasks; whole histories of one task whose every run ends with an '
     'arbitrary exit status.',
     [MODEL], [dict(name='Task.next, select_failed and the retry scheduling', where=MODEL)],
     'n=2 tasks per step (thorough 3); attempt numbers 1..1000 and attempts 1..1001; histories of 3 rounds (thorough 4), bundle limit 1..2',
     'more tasks and rounds', db=True)
prop('P03', 'sched_db', 'A server crash while scheduling loses and duplicates no task',
     'If the server dies at any database statement or commit while it selects tasks, a server started afterwards on '
     'the same database can schedule every unfinished task exactly once. No failed task gets a second retry, no '
     'retry is lost or left unlinked, and finished tasks stay as they were.',
     ['crash_points', 'histories'],
     'Crash before any read, write or commit of a scheduling step from any content of n tasks, then restart and '
     'drain.',
     [MODEL, SERVER], [dict(name='Task.next (transaction boundaries), Task.revert_interrupted', where=MODEL)],
     'n=1 in all states, n=2 waiting/failed tasks (thorough 2 / 3); one crash; bundles of 1..2; attempts 2..3',
     'crashes inside SQLite itself (its atomic commit is trusted), several crashes in a row', db=True)
prop('P04', 'sched_db', 'A restarted server puts back every interrupted task and nothing else',
     'When a server starts on an existing database, every task that was scheduled without a recorded result is '
     'scheduled again exactly as submitted, with all traces of the interrupted run removed, however many there are. '
     'Finished tasks keep their record and are not run again. If everything is finished a restarted server ends '
     'instead of waiting.',
     ['inputs', 'crash_points'],
     'Any database content a dead server can leave behind: n tasks in any state with arbitrary instants and statuses.',
     [MODEL, SERVER], [dict(name='Scheduler start-up, Task.revert_interrupted', where=f'{SERVER}, {MODEL}')],
     'n=2 in all states, n=3 in new/sent/done (thorough 3 and 4); 103 interrupted tasks (thorough also 205)',
     'tasks still running on surviving clients of the dead server', db=True)
prop('P05', 'sched_db', 'Evicting a client reverts exactly its unfinished tasks',
     'Reverting the orphans of a client makes every task that client received and did not finish schedulable again '
     'as if newly submitted, however many there are. Tasks of other clients, finished, cancelled or unscheduled '
     'tasks do not change.',
     ['inputs', 'fault_sequences'],
     'Any content of n tasks owned by either of two clients, in any life-cycle state.',
     [MODEL], [dict(name='Task.revert_orphaned, select_orphaned', where=MODEL)],
     'n=2 tasks (thorough 3); 103 orphans of one client', 'more tasks', db=True)
prop('P06', 'sched_db', 'Cancelled tasks are never run, retried or waited for',
     'A cancelled task is never scheduled, retried or put back by a restart, whatever the attempts and eager '
     'settings, and keeps its record. It does not keep a server from finishing. Cancelling affects only the tasks '
     'named.',
     ['inputs', 'histories', 'configurations'],
     'Any content of n tasks including cancelled ones; cancelling any subset of waiting tasks.',
     [MODEL, SERVER], [dict(name='Task.cancel_all, count_remaining, select_failed', where=MODEL)],
     'n=2 tasks (thorough 3), attempts 1..3', 'cancelling while a client runs the task (documented as impossible)',
     db=True)

TEMPLATE = 'src/hypershell/core/template.py'
prop('T01', 'template', 'Template expansion changes placeholders only',
     'Expanding a command template inserts the task arguments verbatim at every plain placeholder and leaves all '
     'other text exactly as written, also when the arguments themselves contain braces or placeholder text. '
     'A template with an unknown placeholder is rejected rather than passed on.',
     ['inputs'], 'Every literal text, argument text and short template within the bounds.',
     [TEMPLATE], [dict(name='Template.expand', where=TEMPLATE)],
     'literals of 2+2+1 printable characters, arguments of 2 (thorough 3+3+2, 3); every template of 4 and 5 '
     '(thorough 6) characters over an alphabet of 9; templates without placeholders of 4 (6) characters; 14 (40) placeholders in one template',
     'longer texts; non-ASCII text')
prop('T02', 'template', 'Path shorthands select the documented part of a path',
     'The placeholders {.} {..} {/} {/-} {-} {+} {++} expand to the parent, grandparent, file name, file name without '
     'extension, path without extension, extension, and extension without dot of the argument taken as a path.',
     ['inputs'], 'Every path text up to 5 characters, and every dir/dir/stem.ext composed of short names.',
     [TEMPLATE], [dict(name='Template.expand and the simple patterns', where=TEMPLATE)],
     'paths of 5 (thorough 7) characters over /.ab; names of 2 (3) printable characters', 'longer paths; Windows paths')
prop('T03', 'template', 'Argument slices select the documented whitespace-separated parts',
     'Slice placeholders select arguments by index or range as documented, with positive or negative numbers, optional '
     'bounds and step, joined by single spaces. A slice that is out of range or is not a slice is an error and is '
     'never evaluated as code.',
     ['inputs'], 'Every number of arguments, index, range and step within the bounds; every short text in brackets.',
     [TEMPLATE], [dict(name='Template.expand_slice', where=TEMPLATE)],
     'up to 3 (thorough 4) arguments, indices -4..4 (-5..5); bracket text of 3 (4) characters', 'more arguments')
prop('T04', 'template', 'Shell and expression placeholders run exactly what is written',
     'A shell placeholder runs exactly the written command with every @ replaced by the arguments and inserts its '
     'output. An expression placeholder evaluates the whole written expression over the argument, which is an integer, '
     'float, bool or None exactly when the text reads as one and otherwise the text itself.',
     ['inputs'], 'Every short command text, argument text, and value within the bounds.',
     [TEMPLATE, 'src/hypershell/core/types.py'],
     [dict(name='Template.expand_shell / expand_lambda, smart_coerce', where=TEMPLATE)],
     'commands of 3 (thorough 4) characters, arguments of 2 (3); 12 expression forms over integers of 3 digits, 5 over texts; '
     'coercion of texts of 3 (5) characters',
     'expressions beyond the listed forms are evaluated by Python itself', assumptions=['the shell is a stand-in '
     'recording the command'])

SERIAL = 'src/hypershell/data/model.py'
prop('W01', 'wire', 'Tasks, client info and heartbeats survive the wire unchanged',
     'A task, a confirmation or a heartbeat that is packed for the queue and unpacked on the other side is equal to '
     'the original in every field, whatever text the command, paths and tags hold; dates stay dates and text stays '
     'text, even when it reads like a date, a number or JSON.',
     ['inputs'], 'Every short text in every text field, every instant, number, missing value and tag.',
     [MODEL, 'src/hypershell/core/heartbeat.py', CLIENT],
     [dict(name='Entity.pack/unpack, to_json/from_json, Heartbeat, ClientInfo', where=MODEL)],
     'texts of 3 symbolic characters (thorough 5) plus date-like shapes with symbolic digits; texts of 70,000 characters of which one is symbolic',
     'longer texts')
prop('W02', 'wire', 'A tag set is accepted exactly when every tag in it is valid',
     'Tags given to a task are accepted exactly when every key is a text and every value is an integer, float, '
     'boolean, null, or a text of at most 120 letters, digits, underscores, dots, plus and minus signs (or blank); one '
     'valid or empty tag never hides an invalid one, and accepted values are stored unchanged.',
     ['inputs'], 'Every pair of tag values of every type, every short text.', [MODEL],
     [dict(name='Task.ensure_valid_tag, Task.new', where=MODEL)],
     'two tags, texts of 2 (thorough 3) symbolic characters, lengths 117..123', 'longer texts')
prop('S01', 'server', 'The scheduler runs every task, retries failures, and ends only when done',
     'The scheduler posts every stored task exactly once in bundles of at most the configured size, posts a retry for '
     'every failure with attempts left, and ends exactly when every task is finished and no retry is due, whatever the '
     'timing of results. It never posts what it did not record, keeps going forever in forever mode, waits for a first '
     'task, and when interrupted still posts what it already marked as scheduled.',
     ['inputs', 'schedules', 'histories'],
     'Every outcome of every attempt, arrival of results at any database access or pause, full queues, interrupts.',
     [SERVER, MODEL], [dict(name='Scheduler', where=SERVER)],
     'n=2 tasks, up to 3 attempts, one result at an arbitrary point and the others during pauses (thorough: 3 tasks)',
     'PostgreSQL; several schedulers on one database', db=True)
prop('S02', 'server', 'Results and confirmations are recorded exactly and only once',
     'Every returned result is stored with exactly the returned status, times, host and command, on exactly the task '
     'returned; failures are listed once each in the failure file; a confirmation assigns exactly the named tasks to '
     'the client. A late result of a task that was already retried does not undo the retry. Without a database nothing '
     'touches one.',
     ['inputs', 'histories'], 'Every status, order, bundling, configuration and queue delay within the bounds.',
     [SERVER, MODEL], [dict(name='Receiver, Confirm, Task.update_all', where=SERVER)],
     'n=2 results and n=2 confirmations (thorough 3)', 'more results in one bundle', db=True)
prop('S03', 'server', 'Silent clients are evicted in time and their tasks run again',
     'A client that was heard from within the eviction period stays connected; one that falls silent is recorded as '
     'evicted within the period plus the checking interval, its unfinished tasks and only those are put back, and a '
     'client that returns is registered again. Too short a period is refused, and without confirmations or database '
     'nothing is put back.',
     ['inputs', 'schedules', 'histories'],
     'Every sequence of heartbeats, goodbyes and silences of two clients within the bounds.',
     [SERVER, MODEL], [dict(name='HeartMonitor, Task.revert_orphaned', where=SERVER)],
     'sequences of 4 events of 2 clients (thorough 6, or 5 of 3 clients); periods 10..25 s',
     'clients whose clocks differ from the server clock', db=True)
prop('S04', 'server', 'At shutdown every live client is told to stop and the server ends',
     'Once scheduling is over the server sends a stop request to every connected client, including ones that register '
     'late or come back, does not wait for clients that died without notice beyond their eviction, and then ends.',
     ['inputs', 'schedules', 'histories'],
     'Every combination of live, busy, late, dead and returning clients and queue sizes within the bounds.',
     [SERVER], [dict(name='HeartMonitor.signal_clients', where=SERVER)],
     '3 clients (thorough 4), queue sizes 1..2; a client that dies with a stop request in hand and one that '
     'registers after its eviction, queue sizes 1..3', 'more deaths and late registrations at once', db=True)

prop('C01', 'client', 'Every task a client receives runs once and is returned with its own outcome',
     'Each task handed to a client is executed exactly once, in order of arrival, and returned exactly once with the '
     'exit status, times, command and client of its own run; what the submitter recorded comes back unchanged. A task '
     'whose template fails or that cannot be started is returned as failed and does not disturb the others. There are '
     'never more tasks running than executors, and no executor idles while a task waits. Captured output goes to the '
     "files named in the task's record.",
     ['inputs', 'schedules'], 'Every status, duration, bundling, kind of failure and executor count within the bounds.',
     [CLIENT], [dict(name='ClientThread, TaskExecutor, ClientScheduler', where=CLIENT)],
     'n=2..4 tasks, 1..2 executors, exit status 0..255 symbolic, one preemption at any queue operation (thorough: 5 '
     'tasks, 3 executors, 2 preemptions)', 'the operating system starting and stopping processes (stand-ins)')
prop('C02', 'client', 'A task is stopped when its walltime is over, not earlier, with growing force',
     'With a walltime limit, a task still running at the limit gets an interrupt, then after the configured wait a '
     'terminate, then a kill, each once, in this order and in time; the same happens from the moment a client receives SIGUSR2. No task is '
     'signalled otherwise. The task is returned with the status of its process and the executor continues with the next '
     'task.', ['inputs', 'schedules'],
     'Every duration (symbolic, in microseconds), reaction to signals, limit and wait within the bounds; clock '
     'readings of different spacing.',
     [CLIENT], [dict(name='TaskExecutor wait/check/signal states', where=CLIENT)],
     'limits 2 and 4 s, waits 1 and 3 s (thorough: 5 limits, 4 waits), durations up to limit + 2 s; 2 (3) overdue tasks in '
     'a row; limits of 25 and 55 hours; SIGUSR2 after 1 and 9.5 s',
     'processes that ignore SIGKILL (the executor stops by design)')
prop('C03', 'client', 'Finished tasks are returned once each, in time, also by a stopping client',
     'Results are sent in order of completion in bundles of at most the configured size, no later than the configured '
     'waiting time when the server accepts them; none is lost or sent twice when the server is slow or the client '
     'shuts down with an incomplete bundle.', ['inputs', 'schedules'],
     'Every arrival pattern, bundle size and wait, and a server that does not take results for a while.',
     [CLIENT], [dict(name='ClientCollector', where=CLIENT)],
     'n=3 tasks (thorough 4, or one preemption), sizes 1..3, waits 1 and 4 s, three arrival gaps', 'longer histories')
prop('C04', ['client', 'errors'], 'Bundles are confirmed before they run, and the client stops only for a reason',
     'Each bundle taken is confirmed, for exactly its tasks, before any of them runs (unless disabled); the client ends '
     'on the stop request, after its idle limit and not before, or on a user signal, and in each case everything it '
     'took is run and returned.', ['inputs', 'schedules'],
     'Every arrival pattern, stop reason, slow confirmation within the bounds.',
     [CLIENT, 'src/hypershell/core/signal.py'], [dict(name='ClientScheduler', where=CLIENT)],
     'n=2 bundles (thorough 3, or one preemption) of 1..2 tasks, idle limits 3 and 7 s', 'longer histories')
prop('C05', 'client', 'The server hears from a client in every period, and a goodbye exactly at its end',
     'A running client sends a heartbeat at start and then once per period, whatever its tasks do and also when a '
     'heartbeat could not be delivered at once; it says goodbye exactly once, soon after all tasks ended and results '
     'were returned.', ['inputs', 'schedules'], 'Every period, task duration and idle time within the bounds.',
     [CLIENT, 'src/hypershell/core/heartbeat.py'], [dict(name='ClientHeartbeat', where=CLIENT)],
     'periods 1, 2, 5 and 90 s; runs of up to 25 s', 'longer runs')
prop('C06', 'client', 'A task finds its description, tags and exported variables in its environment',
     "The environment of a task's process holds the client's own variables, the exported ones, one variable for each "
     'documented field and each tag with exactly its value as text, and nothing of another task.',
     ['inputs'], 'Every command text, tag text and tag type within the bounds.',
     [CLIENT, 'src/hypershell/core/config.py'], [dict(name='task_env, load_task_env', where=CLIENT)],
     'texts of up to 4 symbolic characters (thorough 10)', 'longer texts')
prop('E01', 'whole', 'A whole run executes every task of the source and then everything ends',
     'Server and clients together run every task from the source once, plus one retry per failure while attempts are '
     'left; every run has its own record with its true status and times, failures are listed, and in the end the '
     'server and all clients finish, with or without a database, confirmations, or a slow source.',
     ['inputs', 'schedules'],
     'Every outcome of the tasks, configuration, source pause and client start time within the bounds.',
     [SERVER, CLIENT, SUBMIT, MODEL], [dict(name='ServerThread and ClientThread with all their threads', where=SERVER)],
     'n=2 tasks and 1 client in all configurations, n=3 and 2 clients (thorough: one preemption at any queue operation)',
     'the network: the queue manager is a stand-in', db=True)
prop('E02', 'whole', 'Tasks of a client that dies are run by the others',
     'When a client dies at any point, every task it had confirmed and not returned is run by another client, results '
     'it had returned are kept and not run again, and the run ends with every task finished.',
     ['crash_points', 'schedules'], 'Death at any queue operation of one of two clients.',
     [SERVER, CLIENT, MODEL], [dict(name='HeartMonitor, Task.revert_orphaned, Confirm', where=SERVER)],
     'n=2..3 tasks, every third (ninth) operation (thorough: every operation up to 150)',
     'death between taking a bundle and confirming it (the tasks wait for a restart of the server)', db=True)
prop('E03', 'whole', 'A client that is suspended and comes back does no harm',
     'When a client is cut off for any while and returns, evicted or not, every task ends up with the record of one of '
     'its runs, no task is lost, retries stay within the limit, and server and clients end.',
     ['schedules', 'histories'], 'Every start and length of the suspension and outcome of the runs within the bounds.',
     [SERVER, CLIENT, MODEL], [dict(name='HeartMonitor, Receiver, ServerThread', where=SERVER)],
     'n=2 tasks, 9 instants, 2 lengths, 2 durations (thorough 12 x 5 x 4, n=3)', 'several suspensions', db=True)

prop('E04', 'whole', 'A server whose database or output fails ends with that error and nothing hangs',
     'When a database operation of a running server fails at any point, once or for good, or failed tasks cannot be listed, '
     'the server ends and reports exactly that error, and its clients end too.',
     ['faults', 'schedules'], 'A failure of every database operation of a run.',
     [SERVER, MODEL], [dict(name='ServerThread, serve_from', where=SERVER)],
     'n=2 tasks, 21 points (thorough 120; n=3)', 'several independent failures; failures of the network', db=True)

prop('E05', 'whole', 'After a server dies another one finishes the run from the same database',
     'When the server dies at any point of a run its clients end. A server started later on the same database, to restart '
     'it or with further tasks, and with other clients, runs every task the database holds without a result, and the '
     'further tasks, once each, records their true results, changes no record of a finished task and runs none again, and '
     'everything ends.', ['crash_points', 'schedules'],
     'Death at any queue operation of the server, every outcome of the tasks, both ways to start again.',
     [SERVER, CLIENT, SUBMIT, MODEL], [dict(name='ServerThread and ClientThread with all their threads', where=SERVER)],
     'n=2..3 tasks, 1..3 executors; also a client leaving at the time; death after every 4th (11th) queue operation up to 60 (90), thorough every one up to 150 (every 2nd up to 200)',
     'death inside a database transaction is P03; further deaths', db=True)

prop('E06', 'whole', 'A server, client or cluster that is told to stop ends soon and loses nothing',
     'Stopped at any moment, a client runs and returns the tasks it has taken, takes no others, says goodbye and ends; the '
     'rest is run by other clients, once each. A stopped server ends soon, its clients with it, all it recorded is true and '
     'a server started later finishes what is left. A local cluster stops both; who waits for that gets no error. '
     'On SIGUSR1 a server or local cluster schedules nothing more, finishes what it scheduled, and ends.',
     ['schedules', 'histories'], 'Every moment to stop, outcome of the tasks and configuration within the bounds.',
     [SERVER, CLIENT, 'src/hypershell/cluster/local.py'],
     [dict(name='stop of ServerThread, ClientThread, LocalCluster and all their threads', where=SERVER)],
     'n=3 tasks, 6 moments (thorough 40; n=5), 2 executors; SIGUSR1 at 9 moments (thorough 61) with 4 tasks',
     'without a database a server whose clients all left is done; other clusters', db=True)

prop('U01', 'submit', 'Every line of the source becomes one task, in order, exactly as given',
     'Submitting a source creates one task per line, in order, whose command is the stripped line expanded by the '
     'template, with the given tags and nothing else set; the reported count is that of the tasks stored or posted, and '
     'no bundle exceeds the configured size, whether the target is a database or a server queue that is full for a while.',
     ['inputs', 'schedules'], 'Every line text, template, tag set, bundle size, source pause and queue delay within the '
     'bounds.', [SUBMIT, MODEL], [dict(name='Loader, DatabaseCommitter, QueueCommitter, submit_from', where=SUBMIT)],
     'n=3 lines (thorough 5), 2 symbolic characters in one line (3), one preemption (2)', 'longer sources', db=True)
prop('U02', 'submit', 'Tasks of a slow source are passed on within the waiting time',
     'A line that was read from the source is submitted after at most the configured waiting time even when the source '
     'delivers nothing further, and a complete bundle is submitted at once.',
     ['inputs', 'schedules'], 'Every pattern of source pauses, bundle size and waiting time within the bounds.',
     [SUBMIT], [dict(name='DatabaseCommitter, QueueCommitter', where=SUBMIT)],
     'n=2 lines (thorough 3), pauses 0, 1 and 30 s, waits 2 and 6 s', 'longer sources', db=True)
prop('U03', 'submit', 'A failed or stopped submission ends, reports it, and invents nothing',
     'When the source, the template, the tags, the database or the server fails, the submission ends with that error '
     'instead of hanging or reporting success; stopped at any moment it ends. What has arrived by then is the beginning '
     'of the source.', ['inputs', 'fault_sequences', 'schedules'],
     'Failure of each kind at any line, statement or bundle; stop at any of the listed moments.',
     [SUBMIT], [dict(name='SubmitThread, LiveSubmitThread, submit_from', where=SUBMIT)],
     'n=4 lines (thorough 7), 6 moments (30)', 'longer sources', db=True)

prop('K01', 'taskcli', 'Task search lists exactly the matching tasks',
     'A search lists exactly the stored tasks that satisfy all given conditions, tags and status aliases, each once, in '
     'the requested order and number; numbers compare as numbers, texts as texts, and a missing value only matches null.',
     ['inputs'], 'Every number, short text, operator, tag set, status, order and limit within the bounds.',
     [TASKPY], [dict(name='SearchableMixin, WhereClause, TaskSearchApp', where=TASKPY)],
     'n=2..3 tasks (thorough 3..4), numbers of 2 digits (4), texts of 2 characters (3)', 'PostgreSQL', db=True)

prop('K02', 'taskcli', 'Task update changes exactly the matching tasks as told',
     'Updating, cancelling, reverting or deleting tasks affects exactly the tasks that match the conditions before the '
     'change (the first ones in order when limited), only after confirmation, sets exactly the named fields and tags to '
     'the given values, and leaves every other field, tag and task as it was. Malformed updates change nothing.',
     ['inputs'], 'Every state of the stored tasks, selection, action, field, tag and answer within the bounds.',
     [TASKPY, MODEL], [dict(name='TaskUpdateApp, SearchableMixin', where=TASKPY)],
     'n=2 tasks (thorough 3), 8 selections, 7 field and 7 tag assignments, limits 0..3; 103 tasks for one update of each '
     'kind', 'PostgreSQL', db=True)

prop('K03', 'taskcli', 'Waiting for a task ends exactly when it has a result, which is its own',
     'Waiting for a task returns at the first poll at which that task has a result, not before and not for the result of '
     'another task. The reported or returned status is that of the task. Running a task submits exactly the given '
     'command, waits for that task, and prints exactly the output it captured on whatever host it ran.',
     ['inputs', 'histories'],
     'Every exit status, attempt and number of polls; results of other tasks arriving first; local and remote output.',
     [TASKPY], [dict(name='TaskWaitApp, TaskRunApp, TaskInfoApp', where=TASKPY)],
     '0..2 polls (thorough 4), commands with 2 free characters (4), cancelled tasks', 'the SSH transfer itself (a stand-in)', db=True)

prop('K04', 'taskcli', 'Submitted tasks are stored as given and shown as stored in every format',
     'Submitting one task stores exactly the given command and tags, or refuses them. Task info and search show every '
     'stored value unchanged, whatever characters it contains: single fields and plain output verbatim, and JSON, YAML '
     'and CSV output so that reading it back gives the stored values. Tag listings name every key, and every value of '
     'a key, once. Unknown ids and missing output are errors.',
     ['inputs'], 'Every stored state and short text within the bounds, every field and format.',
     [TASKPY, MODEL], [dict(name='TaskSubmitApp, TaskInfoApp, TaskSearchApp output', where=TASKPY)],
     'texts of 2 characters (thorough 4) over letters, quotes, backslash, delimiters and non-ASCII; 2 tasks',
     'coloured terminal output, the table layout; YAML writing and reading are trusted inverses', db=True)

prop('K05', 'remote', 'Output of other hosts is fetched as the SSH configuration says and shown whole',
     'For a task that ran on another host, task info connects to that host exactly as its SSH configuration describes '
     '(host name, port, user, keys, proxy), fetches the captured output and shows all of it. When the connection or the '
     'transfer fails at any point the command fails and shows nothing of it, and a later request fetches and shows the '
     'whole output. Output that is already here is shown without a connection. No connection is left open. '
     'What a command run on another host prints is passed on whole.',
     ['inputs', 'faults'], 'Every SSH profile within the bounds, every point where the connection or transfer fails.',
     ['src/hypershell/core/remote.py', TASKPY], [dict(name='SSHConfig, SSHConnection, RemoteProcess', where='src/hypershell/core/remote.py'),
      dict(name='TaskInfoApp.print_file, copy_remote_files', where=TASKPY)],
     'profile values of 2 characters (thorough 6), every port; outputs of 25 and 8 bytes cut at every byte; '
     'commands printing up to 2 lines (thorough 4) on each stream, exiting at every moment',
     'the SSH library itself (parsing, transport, authentication) is replaced at its interface', db=True)

prop('N01', 'network', 'Clients with the address and key of a server use its own queues, others none',
     'A server listens at exactly the given address while it is in use. A client that gives the same address and the same '
     'key, whatever characters it has, gets each of the four queues of that server and no other; with another key it is '
     'refused. The task and result queues hold the configured number of bundles, heartbeats and confirmations never block. '
     'When the server leaves, normally or by an error, it no longer listens. Servers in one program do not share queues.',
     ['inputs'], 'Every address, key and queue size within the bounds.',
     ['src/hypershell/core/queue.py'], [dict(name='QueueServer, QueueClient, QueueInterface, QueueConfig', where='src/hypershell/core/queue.py')],
     'keys of up to 3 characters (thorough 10) including non-ASCII ones, numeric keys; every port; two servers',
     "multiprocessing's managers, sockets and key exchange are a stand-in with the documented behaviour")

prop('A01', 'apps', 'A server is run with exactly the given options, the others as configured',
     'The server program runs one server whose every setting is the command line option when given and the configured value '
     'otherwise; its tasks come from the given file or standard input and failed tasks go where asked.',
     ['inputs'], 'Every configured and given value of every option.',
     [SERVER], [dict(name='ServerApp, serve_from, serve_forever', where=SERVER)],
     'each option alone and all together', 'help texts')
prop('A02', 'apps', 'A client is run with exactly the given options, the others as configured',
     'The client program runs one client whose every setting is the command line option when given and the configured value '
     'otherwise. Task output goes to the given files, the standard streams or captured files; contradictory or non-positive '
     'limits are refused before a client is started.',
     ['inputs'], 'Every configured and given value of every option.',
     [CLIENT], [dict(name='ClientApp, run_client', where=CLIENT)],
     'each option alone and all together', 'help texts')
prop('A03', 'apps', 'A cluster runs its server and every client with exactly the given options',
     'In every mode (local, launcher, MPI, SSH, autoscaling) the cluster program runs one server and the clients of that '
     'mode. Server and clients get each option as given, or as configured; clients get the port and one-time key of that '
     'server. What a launcher or a remote shell makes of the client command line is exactly the intended one, whatever '
     'characters template and exported variables contain.',
     ['inputs'], 'Every configured and given value of every option, in every mode.',
     [CLUSTER + '/__init__.py', CLUSTER + '/local.py', CLUSTER + '/remote.py', CLUSTER + '/ssh.py'],
     [dict(name='ClusterApp, LocalCluster, RemoteCluster, AutoScalingCluster, SSHCluster', where=CLUSTER)],
     'each option alone and all together, 8 variants; 2 symbolic characters of template and variable',
     'launchers and remote shells themselves (the shell is modelled: quoting rules of POSIX sh, no expansions)')

prop('A04', 'apps', 'Options that contradict each other are refused before anything starts',
     'Combinations of options that the documentation calls conflicting or mutually exclusive, or that need another option, '
     'are refused by server, client and cluster programs with an error, before any component is started. All other '
     'combinations are accepted.',
     ['inputs'], 'Every combination of up to k options.',
     [SERVER, CLIENT, CLUSTER + '/__init__.py'], [dict(name='check_args / check_arguments', where=SERVER)],
     'combinations of 3 (cluster: 2) options, thorough 7 (cluster: 4)', 'options that take only numbers')
prop('A05', 'apps', 'Host patterns and host groups name exactly the intended hosts',
     'A host pattern with ranges and lists expands to every host it describes once, in order, numbers padded with zeros as '
     'written; several ranges combine. Without a pattern the hosts come from the configured list, pattern or named group; '
     'anything else is an error.',
     ['inputs'], 'Every number within the bounds.',
     [CLUSTER + '/ssh.py'], [dict(name='NodeList', where=CLUSTER + '/ssh.py')],
     'numbers of 2 digits, spans of 4, 2 parts, 2 ranges (thorough: 3 digits, spans of 13, 2 groups); ranges across 10, 100, 1000 and 10000, '
     'with up to two zeros in front',
     'ranges written downwards; hosts repeated by overlapping ranges')
prop('A06', 'apps', 'The autoscaler keeps the number of clients the policy asks for',
     'The autoscaler starts with the given initial number of clients. Then, once per period, it starts one client if fewer '
     'than the minimum run, or tasks remain and no client runs (fixed, or pressure unknown), or the pressure is above one '
     'and the maximum is not reached (dynamic); otherwise it starts none. Clients that exited do not count. It ends when '
     'stopped.',
     ['inputs', 'histories'], 'Every history of remaining tasks, task pressure and client exits.',
     [CLUSTER + '/remote.py'], [dict(name='AutoScaler', where=CLUSTER + '/remote.py')],
     '2 checks (thorough 4), sizes 0..2, 3 periods, 4 pressures', 'the task pressure itself')
prop('A07', 'apps', 'A cluster ends with its work, or with the error of the component that failed',
     'A cluster ends when its server has finished. When a component fails (the launcher cannot be started, the server or the '
     'client or the autoscaler raises an error, at once or later), the cluster program ends with an error status and that '
     'error, and the server is stopped, and so are clients that were launched already.',
     ['faults', 'histories'], 'Every mode and fault, failing at any time.',
     [CLUSTER + '/__init__.py', CLUSTER + '/local.py', CLUSTER + '/remote.py', CLUSTER + '/ssh.py'],
     [dict(name='run_with_exceptions, stop, run_local, run_cluster, run_ssh', where=CLUSTER)],
     'one fault, instants 1..9 s; 4 hosts', 'a launcher that ends early without clients having done the work')

prop('A08', 'apps', 'Task pressure is computed as documented from the tasks of this server',
     'The pressure used for autoscaling is the estimated time to complete all remaining tasks, at the current throughput of '
     'the connected clients of the latest server, divided by the scaling factor times their average task duration; it is '
     'unknown as long as none of them finished a task.',
     ['inputs'], 'Every state of n tasks and their clients, every start and duration.',
     [MODEL], [dict(name='Task.task_pressure, time_to_completion, effective_rate, avg_duration', where=MODEL)],
     '3 tasks of 1 or 2 clients (thorough 4)', 'floating point rounding; PostgreSQL', db=True)

prop('A09', ['apps', 'wiring'], 'The parts of a server or client work with exactly the options given to it',
     'A server, client or submission started from the library hands every given option to the part that needs it, and the '
     'documented default otherwise: addresses, keys, queue and bundle sizes, attempts, eviction, time limits, streams; one '
     'executor per requested parallel task. The configured polling pause and queue size are used. A client starts after the '
     'given delay. What fails is stopped and its error is raised.',
     ['inputs'], 'Every value of every option.',
     [SERVER, 'src/hypershell/client.py', 'src/hypershell/submit.py'],
     [dict(name='ServerThread, SubmitThread, LiveSubmitThread', where=SERVER),
      dict(name='ClientThread, run_client', where='src/hypershell/client.py')],
     'each option alone and all together, 2 executors (thorough 4)', 'what the parts do with them (other checks)', db=True)
prop('A10', ['apps', 'wiring'], 'hs submit submits the given tasks to the configured database or refuses',
     'The program submits the lines of the given file or standard input with the given template, tags and bundle settings, the '
     'others as configured, after the database was made ready: created for SQLite or with --initdb, else checked. Without a '
     'database that outlives it, or with one that is not ready, it fails and submits nothing.',
     ['inputs'], 'Every value and combination of options.',
     ['src/hypershell/submit.py'], [dict(name='SubmitApp, submit_from', where='src/hypershell/submit.py')],
     'each option alone and all together, 3 tags', 'reading the file')

prop('A11', ['apps', 'wiring'], 'Programs start only with a database that is ready',
     'Before a server, a cluster, a submission or a task command starts or uses anything, the tables are created (SQLite, or '
     'with --initdb) or else looked for; if they are missing or the database cannot be reached, it fails and nothing is '
     'started or used. Without a database that outlives them, servers, submissions and task commands refuse; a cluster '
     'runs in memory, and so does a server with --no-db, which touches no database.',
     ['inputs', 'faults'], 'Every command, kind of database and state of it.',
     ['src/hypershell/data/__init__.py', SERVER, 'src/hypershell/cluster/__init__.py', 'src/hypershell/task.py',
      'src/hypershell/submit.py'],
     [dict(name='ensuredb, initdb, checkdb', where='src/hypershell/data/__init__.py'),
      dict(name='ServerApp, ClusterApp, SubmitApp, task applications', where='src/hypershell')],
     '9 commands, 7 kinds of database, file names of 2 (thorough 4) characters',
     'the connection itself (SQLAlchemy, drivers); locks of other processes', db=True)

CONFIG = 'src/hypershell/core/config.py'
prop('G01', ['apps', 'conf'], 'Configuration comes from the most specific source that gives it',
     'Every option has the value of the most specific source giving it: environment, then local, user and system file, then '
     'the default; options given elsewhere in the same section keep theirs. HYPERSHELL_CONFIG_FILE replaces all files by '
     'that one, or by none if empty. A file in use that cannot be read stops the program. Keys and passwords stay text.',
     ['inputs'], 'Every combination of sources and every value.',
     [CONFIG], [dict(name='load, reload, reload_local, build_configuration, load_env', where=CONFIG)],
     '9 options, values of 2 characters or 0..99, all subsets of sources; logging style and format',
     'TOML syntax itself (toml library); Windows and macOS paths')
prop('G02', ['apps', 'conf'], 'Setting an option changes that option of that file only, and keeps a backup',
     'hs config set writes the given value under the given name into the file of the chosen site and leaves everything else '
     'there as it was; what was there before is kept in a backup file. If the value cannot be written, or writing fails at '
     'any point, that is an error and the previous content still exists. hs config edit opens that file, and no '
     'other, in the editor named by EDITOR, else VISUAL.',
     ['inputs', 'crash points'], 'Every value and file content within the bounds; a failure at every file operation.',
     [CONFIG, 'src/hypershell/config.py'], [dict(name='update, _inplace_update, ConfigSetApp', where=CONFIG)],
     'values of 2 characters or 0..999, files of up to 3 options, 2 (thorough 5) option paths; edit: every site, EDITOR and VISUAL set or not',
     'comments and layout of the file (tomlkit); two changes within one second share a backup name')
prop('G03', ['apps', 'conf'], 'config get shows the value in effect as it is, config which its source',
     'hs config get prints exactly the value in effect (or of the asked site), and fails when there is none; hs config which '
     'prints the value, the source it comes from and the default.',
     ['inputs'], 'Every value and source within the bounds.',
     ['src/hypershell/config.py'], [dict(name='ConfigGetApp, ConfigWhichApp', where='src/hypershell/config.py')],
     'text of 2 characters, numbers 0..99, 3 options', 'whole sections (toml.dumps); colored output on terminals')
prop('G04', ['apps', 'conf'], 'Exported variables reach tasks with exactly the given value',
     'Every environment variable HYPERSHELL_EXPORT_X defines X for tasks with the same text, and every option of the export '
     'section defines the variable of that name (upper case, lists joined by colons); the environment takes precedence.',
     ['inputs'], 'Every value within the bounds.',
     [CONFIG], [dict(name='load_task_env', where=CONFIG)],
     'text of 2 (thorough 3) characters, 2 related names', 'names that are not upper case')

CORE = 'src/hypershell/data/core.py'
prop('G05', ['apps', 'conf'], 'The configured PostgreSQL database and account are exactly the ones used',
     'The database connected to is the configured one: host, port, name, user, password (given, or taken from the named '
     'variable or command), schema, parameters and connection arguments, whatever characters they contain. An incomplete '
     'configuration is refused when the program starts.',
     ['inputs'], 'Every configuration and value within the bounds.',
     [CORE], [dict(name='DatabaseURL, get_url, get_engine', where=CORE)],
     'user and password of 1 character with every combination of the others, or 2 (thorough 3) characters alone',
     'the server itself; IPv6 hosts; question marks in database names',
     why='The stable tests cover some fixed URLs.')
prop('G06', ['apps', 'conf'], 'The database is on exactly when one is configured, and is the configured file',
     'With SQLite a database is in use exactly when a file is configured (in a file or the environment) and then it is that '
     'file; otherwise there is one private in-memory database for all threads. Other providers than SQLite and PostgreSQL '
     'are refused.',
     ['inputs'], 'Every configuration within the bounds.',
     [CORE], [dict(name='in_memory, get_url, get_engine', where=CORE)],
     'file names of 2 characters', 'question marks in file names')
prop('G07', ['apps', 'conf'], 'Task history is dropped only when asked for and confirmed',
     'hs initdb creates missing tables and never drops any; with --truncate tables are dropped only with --yes, or on a '
     'terminal after a positive answer. Any other answer, or no terminal, leaves them as they are.',
     ['inputs'], 'Every answer and combination of options.',
     ['src/hypershell/data/__init__.py'], [dict(name='InitDBApp, truncatedb', where='src/hypershell/data/__init__.py')],
     'answers of 2 (thorough 3) characters', 'the SQL of creating and dropping tables (SQLAlchemy)')

prop('X01', ['apps', 'conf', 'errors'], 'A failing command says why and ends with the documented status',
     'Whatever command fails for whatever reason: it ends with the documented exit status (2 bad argument, 3 bad '
     'configuration, 4 interrupted, 5 or 6 otherwise; 0 only on success), tells the cause in one line of the log, on the '
     'standard error and never the standard output, keeps the trace of an unexpected error in a file that it names, and '
     'does not dump ordinary ones.',
     ['inputs', 'faults'], 'Every command, cause and text of the error within the bounds.',
     ['src/hypershell/core/exceptions.py', 'src/hypershell/__init__.py'],
     [dict(name='get_shared_exception_mapping, write_traceback, handle_*; App.exceptions', where='src/hypershell/core/exceptions.py')],
     '15 commands, 12 causes, texts of 2 (thorough 3) characters', 'errors while the program loads; a log directory that cannot be written')

prop('L01', ['apps', 'conf', 'errors'], 'Messages of the configured level and above are shown, with exact times',
     'Exactly the messages of the configured severity and above are emitted, each once; the level may be spelled in upper '
     'or lower case, and anything else is refused when the program starts. The relative times messages may include '
     '(elapsed, elapsed_ms, elapsed_delta, elapsed_hms) denote the time since the start.',
     ['inputs'], 'Every spelling, level and elapsed time within the bounds.',
     ['src/hypershell/core/logging.py'],
     [dict(name='level_from_name, Logger, LogRecord, solve_relative_time', where='src/hypershell/core/logging.py')],
     'elapsed times up to 400 days in milliseconds; case of the first 2 (thorough 3) letters', 'rendering by the logging library; colors')

prop('D01', ['apps', 'conf', 'errors'], 'Data, logs and configuration are in the documented places',
     'The library, log directory and configuration file of the system, user and local site are the documented ones; the '
     'site used by default is the one HYPERSHELL_SITE names, or else the system site for administrators and the user site '
     'for others; its directories are made when missing, and a HYPERSHELL_SITE that does not exist stops the program.',
     ['inputs'], 'Every home, working and site directory within the bounds, either kind of account, Linux and macOS.',
     ['src/hypershell/core/platform.py'], [dict(name='site, path, default_path', where='src/hypershell/core/platform.py')],
     'names of 2 (thorough 4) characters', 'Windows; where macOS keeps system and user logs differs between code and documentation (as in the code)')

NOT_APPLICABLE = {}
