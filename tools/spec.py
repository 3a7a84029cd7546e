#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, na=None):
    assert len(title) <= 80, (id, len(title))
    if na is None and not os.path.exists(os.path.join(HERE, "harness", id.lower() + ".py")):
        na = "check not built yet"
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na))


TR = "asyncz/triggers/"
SB = "asyncz/schedulers/base.py"
SY = "symbolic execution of the real functions + z3 (exhaustive over all paths and input values within the bounds)"

prop("P01", "Interval triggers fire on the start + k*interval grid, never early or late",
     "For any start, end, interval, jitter and current time, the first run time of an interval trigger is the earliest start_at + k*interval that is neither before start_at nor in the past, and each following run time is exactly the previous one plus the interval, plus a random delay between 0 and `jitter` seconds when jitter is set. Run times are strictly increasing, none lies after end_at, and the trigger reports that it is finished only when the next run would lie past end_at.",
     ["inputs", "configurations"], "all start/end/previous/now instants (microsecond grid) within a 2-year window, all jitter values, a set of intervals from 1 s to 2 weeks, fixed-offset and DST time zones of trigger and scheduler",
     "Tests pin a handful of instants; rounding at slot boundaries, sub-second offsets and DST days are not sampled.",
     [TR + "interval.py", TR + "base.py", "asyncz/utils.py"],
     [("next run computation", TR + "interval.py:get_next_trigger_time"), ("jitter", TR + "base.py:apply_jitter"), ("normalize", "asyncz/utils.py:normalize")],
     "every instant on the microsecond grid in the window, per interval shape; floats modelled as exact rationals")
prop("P02", "Cron triggers fire at the earliest matching second and skip none",
     "For any cron specification, the next run time is the earliest whole second, at or after the current time (strictly after the previous run time, not before start_at for the first run), at which every field of the specification matches. Fields less significant than the least significant one given take their minimum, all others match anything. When the clocks are turned back, both passes of the repeated hour match; a time skipped when they are turned forward may be moved past the gap. No run time is returned exactly when no matching time exists up to end_at.",
     ["inputs", "configurations"], "all previous/now/start/end instants in windows of up to three years, for 22 specifications that use every kind of field expression, and 6 specifications around the clock changes of DST zones",
     "Tests check a few instants per expression; the carry between fields, month lengths and leap days fail only on specific dates.",
     [TR + "cron/trigger.py", TR + "cron/fields.py", TR + "cron/expressions.py"],
     [("field search", TR + "cron/trigger.py:get_next_trigger_time"), ("carry", TR + "cron/trigger.py:increment_field_value"), ("field values", TR + "cron/fields.py:get_next_value")],
     "every instant in the window per specification; minimality is a universally quantified solver query")
prop("P03", "Cron field expressions select exactly the documented values",
     "For any bounds and step, a field expression (`*`, `*/n`, `a`, `a-b`, `a-b/n`, `a/n`, month and weekday names and ranges, `last`, `nth weekday`, comma lists) yields as next value the smallest allowed value not below the current one, or none when the field has no further value in its current period. Expressions whose bounds or steps lie outside the field's limits, or whose first value exceeds the last, are rejected with an error.",
     ["inputs", "programs"], "all integer bounds, steps and current field values, for all fields; all weekday/position/month combinations over all months",
     "Tests try a few expressions per field, never all bounds against all current values.",
     [TR + "cron/expressions.py", TR + "cron/fields.py"],
     [("next value", TR + "cron/expressions.py:get_next_value"), ("limits", TR + "cron/expressions.py:validate_range")],
     "symbolic first/last/step/current value per field and expression form")
prop("P04", "Date, shutdown and combination triggers obey their definitions",
     "A date trigger yields its run date exactly once, as its first run, even when that date is past; a shutdown trigger never yields a run time. An `or` trigger yields the earliest run time of its sub-triggers and is finished only when all are; an `and` trigger yields only times on which all its sub-triggers agree and is finished as soon as one is. Asking for the next run time terminates whenever the sub-triggers agree at some later time or one of them is finished.",
     ["inputs", "configurations"], "all dates, previous and current times; up to three sub-triggers with arbitrary answers",
     "Tests use fixed sub-trigger answers; ordering and absence of answers in every combination is not covered.",
     [TR + "date.py", TR + "combination.py", TR + "shutdown.py"],
     [("date", TR + "date.py:get_next_trigger_time"), ("or / and", TR + "combination.py:get_next_trigger_time")],
     "sub-triggers are arbitrary (symbolic) within their contract; combinations of up to three")
prop("P05", "Due run times are exactly the elapsed fire times; coalescing keeps the last",
     "When a task is due, the run times submitted for it are its next run time followed by every later fire time of its trigger up to and including the current time, in strictly increasing order and without gaps; none lies in the future. With coalescing enabled only the most recent of them is submitted and the reported number of coalesced runs is the number dropped; without it all are submitted.",
     ["histories", "inputs"], "all next run times and current times, interval / date / arbitrary triggers, with at most five missed runs",
     "Tests use one backlog length and one alignment.",
     ["asyncz/tasks/base.py", SB],
     [("run time collection", "asyncz/tasks/base.py:get_run_times"), ("coalescing", SB + ":_coalesce_run_times")],
     "backlog of up to five runs, everything else symbolic")
prop("P06", "Each scheduler round submits every due task once and re-arms or removes it",
     "In one processing round every task whose next run time is not after the current time is submitted exactly once to its configured executor with its due run times, and no paused or not-yet-due task is touched. Afterwards its stored next run time is the trigger's next fire time after the last submitted one, or the task has been removed when the trigger is finished or its executor does not exist; this also holds when the executor rejects the run or raises. Exactly one submitted / max-instances event per accepted / limit-rejected task is dispatched, after the round.",
     ["schedules", "histories", "fault_sequences"], "up to three tasks in up to two stores with arbitrary next run times, arbitrary trigger answers, coalescing on or off and every executor outcome",
     "Tests drive single tasks with one outcome; combinations of outcomes and orders are not explored.",
     [SB, "asyncz/stores/memory.py", "asyncz/tasks/base.py"],
     [("processing round", SB + ":process_tasks"), ("per store", SB + ":_process_tasks_of_store")],
     "up to three tasks, two stores, two due runs per task; triggers symbolic within their contract")
prop("P07", "The scheduler always sleeps until the earliest next run or the retry time",
     "After a processing round the scheduler waits exactly until the earliest next run time over all stores, never longer and never a negative time, and sleeps indefinitely only when nothing is scheduled. If a store fails to report its due tasks or is locked by another process, or another thread is already processing, it retries no later than the store retry interval; a paused scheduler processes nothing. Waking up (re)arms exactly one timer.",
     ["schedules", "fault_sequences"], "up to three stores with arbitrary next run times, faults and lock states; all retry intervals",
     "A lost wakeup needs a particular combination of store answers and fault, which the tests do not enumerate.",
     [SB, "asyncz/schedulers/asyncio.py"],
     [("wait computation", SB + ":process_tasks"), ("timer", "asyncz/schedulers/asyncio.py:wakeup")],
     "up to three stores with symbolic answers, faults and lock states")
prop("P08", "A task never has more running instances than max_instances",
     "At no time are more than max_instances executions of one task in flight in an executor, a further submission is rejected with a maximum-instances error and leaves everything unchanged, and other tasks are not affected. Every finished execution, whether it succeeded, failed or was cancelled, frees exactly one slot, and a submission the executor failed to start takes none.",
     ["histories", "schedules"], "all sequences of up to five submit / finish / fail steps over two tasks with symbolic limits",
     "Leaked or double-freed slots only show after specific sequences of outcomes.",
     ["asyncz/executors/base.py", "asyncz/executors/asyncio.py", "asyncz/executors/pool.py", "asyncz/executors/debug.py"],
     [("accounting", "asyncz/executors/base.py:send_task"), ("release", "asyncz/executors/base.py:run_task_success")],
     "sequences of up to five steps, two tasks, limits 1..3 or any")
prop("P09", "Every submitted run ends in exactly one executed, error or missed event",
     "For each run time submitted, in order, the task function is called at most once with the task's arguments, and exactly one event is produced: missed (and no call) when the run starts more than the misfire grace time after its scheduled time, otherwise executed with the function's return value, or error with its exception and traceback. Without a grace time no run is ever missed, and one run's failure does not prevent the following ones. This holds equally for plain and coroutine functions.",
     ["inputs", "fault_sequences", "schedules"], "all start delays and grace times, every combination of outcomes of up to three runs",
     "Grace boundary and mixed outcomes are not sampled by tests.",
     ["asyncz/executors/base.py"],
     [("run", "asyncz/executors/base.py:run_task"), ("coroutine run", "asyncz/executors/base.py:run_coroutine_task")],
     "up to three runs, symbolic delays and grace times (microsecond grid)")
prop("P10", "Running a task by hand submits it once and keeps its schedule moving forward",
     "A manual run submits the task exactly once: with its due run times (coalesced as configured), or at the current time when none is due and the run is forced; unforced and not due it changes nothing. Afterwards the task's next run time lies strictly in the future, or the task is removed (or kept paused on request) when its trigger is finished. When the executor rejects or fails, the error is reported to the caller and the task's schedule is unchanged.",
     ["inputs", "fault_sequences"], "all next run times, trigger answers, flags and executor outcomes",
     "Tests cover a few flag combinations at fixed instants.",
     [SB], [("manual run", SB + ":run_task")], "one task, all flag/outcome combinations, symbolic times")
prop("P11", "Pause, resume, reschedule and remove have exactly their documented effect",
     "Pausing a task clears its next run time and it is not run until resumed; resuming sets the trigger's next fire time from now, or removes the task if its schedule is finished; rescheduling replaces the trigger and recomputes the next run time from it. Removing a task makes it unknown, removing or changing an unknown task is an error, and no operation changes any other task. The same holds before the scheduler is started.",
     ["histories"], "all sequences of up to three operations on two tasks in two stores, scheduler stopped or running, with arbitrary trigger answers",
     "Tests try each operation alone.",
     [SB, "asyncz/tasks/types.py"],
     [("lifecycle operations", SB + ":update_task, pause_task, resume_task, reschedule_task, delete_task")],
     "sequences of up to three operations, two tasks, two stores")
prop("P12", "Task updates are validated and applied all or nothing",
     "An update of a task either applies every given attribute or, if any of them is invalid, raises and leaves every attribute unchanged. The task id can never change, unknown attributes are rejected, limits and grace times must be positive (and a grace time a finite time the executors can compare with), arguments must fit the callable, and text references are resolved.",
     ["inputs"], "every subset of valid and invalid attribute values",
     "Atomicity must hold for each combination of valid and invalid attributes; tests try one invalid attribute at a time.",
     ["asyncz/tasks/base.py"], [("update", "asyncz/tasks/base.py:update_task")], "all combinations of valid/invalid classes of 10 attributes, symbolic numbers")
prop("P13", "The memory store is an exact, time-ordered map of tasks",
     "After any sequence of operations the memory store contains exactly the tasks added and not removed: adding an existing id is a conflict, looking up or removing an unknown one reports so, updates replace in place. Due tasks are exactly those whose next run time is not after the given time, in order of run time; the next run time is the minimum over scheduled tasks; all tasks are listed by run time with paused tasks last.",
     ["histories"], "every state of up to four tasks with arbitrary ids and run times, followed by any operation",
     "The sorted index goes wrong only for particular orders, ties and id orders.",
     ["asyncz/stores/memory.py"], [("sorted list + index", "asyncz/stores/memory.py:get_task_index")],
     "all states of up to four tasks (arbitrary id order, arbitrary ties) and one further operation: an inductive step")
prop("P14", "The SQLAlchemy store is an exact, time-ordered map of tasks",
     "After any sequence of operations the SQLAlchemy store contains exactly the tasks added and not removed, with conflict and unknown-id errors reported; the due query returns exactly the tasks whose next run time is not after the given time in run-time order, the next-run query the minimum, and listings put paused tasks last. A stored task that cannot be restored is dropped without affecting the others.",
     ["histories", "fault_sequences"], "tables of up to three rows with arbitrary ids and run times, any operation",
     "Tests use two or three fixed rows.",
     ["asyncz/stores/sqlalchemy.py"], [("queries", "asyncz/stores/sqlalchemy.py:get_due_tasks, get_tasks")],
     "the statements the store builds are interpreted over a symbolic table")
prop("P15", "The Redis store is an exact, time-ordered map of tasks",
     "After any sequence of operations the Redis store contains exactly the tasks added and not removed, with conflict and unknown-id errors reported; due tasks are exactly those whose next run time is not after the given time in run-time order, pausing removes a task from the schedule, resuming puts it back, and listings put paused tasks last. Task data and schedule index never disagree.",
     ["histories"], "states of up to three tasks with arbitrary ids and run times, any operation", "Tests need a server and sample a few states.",
     ["asyncz/stores/redis.py"], [("hash + sorted set", "asyncz/stores/redis.py:add_task")], "client replaced by a model of the used commands")
prop("P16", "The MongoDB store is an exact, time-ordered map of tasks",
     "After any sequence of operations the MongoDB store contains exactly the tasks added and not removed, with conflict and unknown-id errors reported; due tasks are exactly those whose next run time is not after the given time in run-time order, and listings put paused tasks last.",
     ["histories"], "states of up to three tasks with arbitrary ids and run times, any operation", "Tests need a server and sample a few states.",
     ["asyncz/stores/mongo.py"], [("collection queries", "asyncz/stores/mongo.py:get_tasks")], "client replaced by a model of the used commands")
prop("P17", "The file store is an exact map of tasks and never leaves its directory",
     "After any sequence of operations the file store contains exactly the tasks added and not removed, with conflict and unknown-id errors reported, due and next-run queries exact and listings ordered by run time with paused tasks last. Whatever the task id, no file outside the store directory is read, written or removed. An update interrupted at any point, or observed by another process while under way, shows either the old or the new version of the task, and a task that cannot be read for the moment is not deleted.",
     ["histories", "crash_points", "inputs"], "states of up to three tasks, any operation, any interruption point, any task id up to the bound", "Tests do not interrupt writes and use benign ids.",
     ["asyncz/stores/file.py"], [("path check", "asyncz/stores/file.py:check_task_id"), ("atomic write", "asyncz/stores/file.py:write_task_file")], "file system replaced by a recording model")
prop("P18", "Persisted tasks are restored exactly as they were",
     "A task written to a persistent store and read back has the same id, callable, arguments, name, trigger, executor, limits, coalescing, grace time and next run time, and its trigger, of any built-in kind, continues to produce the same run times. With an encryption key configured stored bytes are decryptable only with that key; records with a foreign entity, version or shape are refused.",
     ["inputs", "configurations"], "all attribute values and all built-in triggers (including nested combinations), with symbolic times",
     "Restoration must agree for every later question asked of the trigger.",
     ["asyncz/stores/base.py", "asyncz/tasks/base.py", "asyncz/state.py", TR + "base.py"],
     [("state conversion", "asyncz/tasks/base.py:__getstate__"), ("envelope", "asyncz/stores/base.py:deserialize_task_state")], "pickle replaced by its protocol on symbolic content")
prop("P19", "Start and shutdown are reference counted; pending tasks survive until start",
     "The scheduler runs from the first start until as many shutdowns as starts were requested; nested starts and shutdowns only count. Tasks added before the start are kept and each is scheduled exactly once at start, with a start-up delay applied when configured; shutting down stops every executor and store and runs each shutdown task exactly once. A start that fails leaves the scheduler stopped and can be repeated; shutting down a scheduler that does not run is reported.",
     ["histories"], "all sequences of up to five start/shutdown/pause/resume/add operations", "Tests exercise the simple sequence only.",
     [SB], [("reference count", SB + ":inc_refcount"), ("start", SB + ":start"), ("shutdown", SB + ":shutdown")], "operation sequences of length five")
prop("P20", "Events reach exactly the matching listeners, and listeners cannot do harm",
     "Every dispatched event reaches each registered listener whose mask includes the event's code exactly once, in registration order, and no other. Every operation dispatches its own event exactly once, naming the task, store or executor concerned. A listener that raises affects neither the other listeners nor the operation that caused the event, and a listener may add or remove listeners while being notified.",
     ["configurations", "fault_sequences"], "up to four listeners with arbitrary masks, arbitrary event codes and failures", "Tests use one or two masks.",
     [SB, "asyncz/events/constants.py"], [("dispatch", SB + ":dispatch_event")], "symbolic masks and failures")
prop("P21", "One scheduler at a time processes a store; threads never interfere",
     "Schedulers in several processes that share a store and a lock path never process that store at the same time: each due run is submitted by exactly one of them, also while others start or shut down, a scheduler that had to skip a round looks again, and locks are always released and their files cleaned up. Within one process, operations issued by several threads (adding, pausing, resuming, running, updating, rescheduling, deleting tasks, listing, starting, processing) have the effect of some sequential order of them: no run is submitted twice, no removed task reappears, no pause or new task is lost; and no combination of them, including a shutdown that waits for a task which uses the scheduler, deadlocks.",
     ["schedules", "histories", "configurations"], "all schedules of two (or three) processes or threads with a bounded number of preemptions at any system call, or any call, assignment or lock operation of the scheduler code",
     "Tests run with the schedule the operating system happens to choose.",
     ["asyncz/locks.py", "asyncz/file_locking.py", SB, "asyncz/stores/memory.py", "asyncz/executors/base.py"],
     [("file lock", "asyncz/locks.py:FileLockProtected"), ("processing lock", SB + ":process_tasks"), ("store lock", SB + ":run_task")],
     "two threads or processes (three for the file lock), up to three preemptions for the file lock and one for threads (thorough: two), symbolic times")
prop("P22", "Task inspection filters, orders and counts correctly and changes nothing",
     "Listing tasks with filters returns exactly the tasks satisfying all of them, in the requested order (by run time, unscheduled tasks last; descending reverses the order); the scheduler's counts equal the number of tasks in each state. Previewing future runs yields the same run times the scheduler would produce, at most the requested number, strictly increasing, and modifies no task.",
     ["inputs", "configurations"], "up to three tasks in arbitrary states, all filters and sort keys", "Tests use fixed small sets.",
     [SB, "asyncz/tasks/inspection.py"], [("filters", SB + ":get_task_infos"), ("preview", SB + ":preview_task_runs")], "three tasks, symbolic times and states")
prop("P23", "Argument checking accepts exactly the calls that would succeed",
     "A task is accepted with given arguments if and only if calling its function with those arguments would bind: no missing, unexpected or duplicate parameters for any combination of positional-only, keyword-only, defaulted and variadic parameters.",
     ["programs", "inputs"], "all signatures with up to four parameters of any kind and all argument lists up to the bound", "The number of signature/argument combinations is far beyond the tests.",
     ["asyncz/utils.py"], [("argument check", "asyncz/utils.py:check_callable_args")], "all signatures up to four parameters")
prop("P24", "Dates given as text or objects denote exactly the instants they say",
     "A date string `YYYY-MM-DD[( |T)HH:MM:SS[.fraction][Z|+HH:MM|-HH:MM]]` denotes the instant of its digits (the fraction as a decimal fraction of a second) in its own time zone or else in the given one; date strings of days or times that do not exist and all other strings are rejected with an error, never silently read as another instant. Dates are midnight of their day, naive datetimes wall-clock times in the given zone (moved forward when skipped by a DST change), aware ones stay unchanged; triggers given such values use exactly these instants. Conversions between instants and timestamps are inverse to each other and keep their order.",
     ["inputs"], "all digits and lengths of the fields, all offsets, arbitrary other strings up to the bound, all instants of a year including both DST changes",
     "Tests parse a handful of strings; fractions of fewer than six digits, odd offsets and DST gaps are not among them.",
     ["asyncz/utils.py", TR + "date.py", TR + "interval.py"],
     [("parser", "asyncz/utils.py:to_datetime"), ("wall clock", "asyncz/utils.py:localize"), ("timestamps", "asyncz/utils.py:datetime_to_utc_timestamp")],
     "every digit string of the grammar for 2020-2031; arbitrary strings of up to 12 characters (thorough: 15) and masks of longer ones")
prop("P25", "The dashboard's history, events, audit trail and logs tell what happened",
     "Every run of a task has exactly one history record (however its run time is written, and never shared with a run of another task, store or time) whose status, times, result, error, source and log lines are those of the run, whichever order its submission and its outcome are reported in and from whichever threads; every scheduler event, reported dashboard action and log line is kept as it was reported, in order, the oldest being dropped once the storage is full. Queries return exactly the newest records that satisfy all given filters, newest first, never more than the limit; counts equal the stored records; installing the recorders again records nothing twice. The logs of a run are the lines that name it and those of its task around its time, each once. Log lines are attributed to the task they name and to no other.",
     ["inputs", "histories", "schedules"], "all sequences of events, all clocks and log times, all filters and limits, all schedules of two reporting threads within the bound",
     "Tests record one run in the usual order and query it once; late submissions, races between the reporting threads, full storages, similar ids, limits and windows are not covered.",
     ["asyncz/contrib/dashboard/history.py", "asyncz/contrib/dashboard/events.py", "asyncz/contrib/dashboard/audit.py", "asyncz/contrib/dashboard/logs/storage.py", "asyncz/contrib/dashboard/logs/handler.py"],
     [("history", "asyncz/contrib/dashboard/history.py:MemoryRunHistoryStorage"), ("events", "asyncz/contrib/dashboard/events.py:MemorySchedulerEventStorage"), ("audit", "asyncz/contrib/dashboard/audit.py:MemoryAuditTrailStorage"), ("logs", "asyncz/contrib/dashboard/logs/storage.py:MemoryLogStorage.query"), ("handler", "asyncz/contrib/dashboard/logs/handler.py:TaskLogHandler.emit")],
     "three events (thorough: more), storages of up to four records, limits 0 to 4, two threads with one preemption (thorough: two)")
DB = "asyncz/contrib/dashboard/"
prop("P26", "No dashboard page opens without a login; redirects and links stay on site",
     "With login enabled, a request reaches the dashboard if and only if its path is exactly an allowlisted path or lies below one, or its user is authenticated; every other request is answered with a redirect to the dashboard's login page (401 with HX-Redirect for HTMX), for every way of mounting the dashboard, every route, method and spelling of a path. A session is authenticated exactly from a successful login to the next logout, as the user who logged in. The login page gets the requested path and a login leads back to it unchanged, whatever characters it contains; a redirect target given by a client never leads to another site. A forwarded prefix counts from trusted clients only, never changes the routing, and always becomes one path; prefixes and mounts are joined once, and every link of the dashboard's pages stays below its own path as clients see it. Every response has each security header once, the application's own taking precedence.",
     ["inputs", "histories", "configurations"], "all request paths, redirect targets and forwarded prefixes up to the bound, all mounts, clients and trust lists of a pool, all histories of logins and logouts, all routes of the assembled application",
     "Tests open a few pages below one prefix; odd paths, hostile redirect targets, nested mounts, proxies and header spellings are not covered.",
     [DB + "admin/core.py", DB + "admin/backends.py", DB + "admin/middleware/auth_gate.py", DB + "admin/middleware/forward_root_path.py", DB + "admin/middleware/security_headers.py", DB + "config.py", DB + "application.py"],
     [("gate", DB + "admin/middleware/auth_gate.py:AuthGateMiddleware.__call__"), ("login", DB + "admin/backends.py:SimpleUsernamePasswordBackend.login"), ("proxy", DB + "admin/middleware/forward_root_path.py:ForwardedPrefixMiddleware.__call__"), ("prefixes", DB + "config.py:get_external_root_path"), ("headers", DB + "admin/middleware/security_headers.py:SecurityHeadersMiddleware.__call__")],
     "paths of 6 characters, redirect targets of 5, prefixes of 4, three login operations; thorough: 8, 6, 5, four")
prop("P27", "A remotely controlled scheduler behaves like a local one",
     "Every operation of RemoteSchedulerClient reaches the worker's scheduler exactly once, as the same operation on the same task (whatever characters its id contains) with the same options: omitted options stay omitted, explicit None stays None, triggers keep their schedule; its result is what the scheduler returned. The same history of operations done locally and remotely leaves the same tasks, returns the same results and runs the same tasks. Missing tasks, stopped schedulers, exceeded limits and invalid values are reported as the exceptions the local scheduler raises, everything else - including unreachable workers, error pages and answers that are not the worker's - as RemoteSchedulerError, never as success. With a token configured, the scheduler is reached exactly by requests that carry it. A malformed request is refused with a structured error and changes nothing. The task shown before an update accepts and shows what the worker will.",
     ["inputs", "histories", "configurations"], "all option values, strings and tokens up to the bound; every error at every endpoint; all histories of two operations",
     "Tests call some endpoints with ordinary ids and options through a test client; the HTTP path, odd ids, None options, errors and broken answers are not covered.",
     [DB + "remote.py"],
     [("client", DB + "remote.py:RemoteSchedulerClient"), ("worker", DB + "remote.py:create_remote_scheduler_app"), ("task", DB + "remote.py:RemoteTask")],
     "options with arbitrary numbers and strings of 3 characters, tokens of 3, ids of two parts (thorough: three below a mount), two (thorough: three) operations")
prop("P28", "Dashboard actions and forms act on exactly the tasks they name",
     "A single or bulk action of the dashboard is carried out once on each named task and on no other, in the order given; an action that fails does not prevent the others, and every outcome is audited and reported as what happened. A create form adds exactly the task it describes or reports why not, adding nothing. The edit page changes exactly the fields that were edited to the values entered, a preview changes nothing, a form submitted as shown changes nothing, invalid values are reported and change nothing. Whatever characters a task's id contains, wherever the dashboard is mounted and whatever prefix a proxy strips, every link, button and form of every page works, and leads to the task it stands at. Lists show every matching task exactly once across their pages, in the chosen order; filters, pages, sizes and limits that are no valid values never fail a page. The timeline shows the next runs of all tasks of all stores in order. Texts of tasks, logs, events and requests are shown as they are and never become markup.",
     ["inputs", "configurations"], "all outcomes of all listed actions; field values, pages, limits and filters up to the bound; ids and texts from hostile pools on every page",
     "Tests click through a few pages with ordinary ids and valid values; failing actions in bulk, odd ids and texts, invalid values and partially edited forms are not covered.",
     [DB + "controllers/tasks.py", DB + "controllers/_helpers.py", DB + "controllers/timeline.py"],
     [("actions", DB + "controllers/tasks.py:TaskBulkRunController"), ("edit", DB + "controllers/tasks.py:_parse_task_edit_updates"), ("create", DB + "controllers/tasks.py:TaskCreateController"), ("lists", DB + "controllers/_helpers.py"), ("timeline", DB + "controllers/timeline.py"), ("routes", DB + "application.py:create_dashboard_app")],
     "bulk lists of up to 3 ids, symbolic texts of 3 characters, two edited fields, lists of 5 tasks, 28 ids, 7 hostile texts on every page (thorough: more of each)")
prop("P29", "Commands of the command line do exactly what they say to the tasks they name",
     "Whichever stores and tasks there are: run, pause, resume and remove act on the task they name and on no other, and say so when there is none; add adds exactly the task described by its options, update changes exactly the fields given (nothing with --dry-run or when declined); list, inspect, preview, timeline, status, instances and doctor show every matching task once, with the runs its trigger will produce, and change nothing. Triggers, stores and executors given as texts are either understood as documented, in the time zone of the scheduler, or refused. start loads every job of its module or configuration file exactly once, starts one scheduler, calls the hooks once while it runs, stops it whichever way it ends, and boots it anew exactly when a watched file changes. Commands with --bootstrap use the application's scheduler and leave its due tasks alone.",
     ["inputs", "configurations", "histories"], "layouts of up to 3 tasks in 2 stores at arbitrary distances from now, all combinations of absent, valid and invalid options",
     "Tests run each command once with ordinary options on one task; other stores, unknown ids, paused or due tasks, invalid options and interrupts are not covered.",
     ["asyncz/cli/commands/", "asyncz/cli/loader.py", "asyncz/cli/types.py", "asyncz/cli/utils.py", "asyncz/cli/bootstrap_loader.py"],
     [("commands", "asyncz/cli/commands/"), ("triggers", "asyncz/cli/types.py:parse_trigger"), ("jobs", "asyncz/cli/loader.py"), ("stores", "asyncz/cli/utils.py"), ("application", "asyncz/cli/bootstrap_loader.py")],
     "up to 3 tasks, 2 stores, 2 jobs, 2 edited fields, 2 polls (thorough: 3), texts with 4 (thorough: 6) symbolic characters")
prop("P30", "Adding a task never loses, duplicates or silently replaces another",
     "Adding a task whose id already exists in its store raises a conflict (at start, for tasks added before it, it is skipped) and leaves the existing task untouched, unless replacing was requested, in which case exactly that task is replaced. A new task is stored once, in the requested store, with its first run time computed from its trigger (or as given, or paused when explicitly none), configured defaults fill only unspecified options, and the scheduler is woken.",
     ["inputs", "histories"], "all combinations of given and omitted options, existing ids, stores, scheduler states", "Tests cover some combinations.",
     [SB], [("add", SB + ":add_task"), ("commit", SB + ":real_add_task")], "all option combinations with symbolic ids and times")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    man = dict(version=1, setup_cmd="bin/setup.sh", checks=[], not_applicable=[])
    for p in P:
        if p["na"]:
            man["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
        else:
            man["checks"].append(dict(
                property=p["id"], quick_cmd="bin/check.py %s --tier quick" % p["id"],
                thorough_cmd="bin/check.py %s --tier thorough" % p["id"], technique=SY, level="model_checking",
                level_note="Bounded: " + p["note"] + ". Trusts z3, the proxy semantics (cross-checked by replaying path models on the real code) and the listed stubs."))
    man["notes"] = "All checks import /repo's working tree at run time; no build step, no hooks in /repo."
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
