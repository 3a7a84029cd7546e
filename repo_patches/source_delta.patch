From d9e5baf8330fc2a990c984ff14a18b083ee5ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 01/89] fix: reject trailing text after named cron expressions

---
 asyncz/triggers/cron/expressions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncz/triggers/cron/expressions.py b/asyncz/triggers/cron/expressions.py
index fdc6cf3..826874c 100644
--- a/asyncz/triggers/cron/expressions.py
+++ b/asyncz/triggers/cron/expressions.py
@@ -150,7 +150,7 @@ class RangeExpression(AllExpression):
 
 class MonthRangeExpression(RangeExpression):
     regex: ClassVar[re.Pattern] = re.compile(
-        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?", re.IGNORECASE
+        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?$", re.IGNORECASE
     )
     step: Optional[int] = None
 
@@ -195,7 +195,7 @@ class MonthRangeExpression(RangeExpression):
 
 class WeekdayRangeExpression(RangeExpression):
     regex: ClassVar[re.Pattern] = re.compile(
-        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?", re.IGNORECASE
+        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?$", re.IGNORECASE
     )
 
     def __init__(
@@ -238,7 +238,7 @@ class WeekdayRangeExpression(RangeExpression):
 
 class WeekdayPositionExpression(AllExpression):
     regex: ClassVar[re.Pattern] = re.compile(
-        r"(?P<option_name>{}) +(?P<weekday_name>(?:\d+|\w+))".format("|".join(OPTIONS)),
+        r"(?P<option_name>{}) +(?P<weekday_name>(?:\d+|\w+))$".format("|".join(OPTIONS)),
         re.IGNORECASE,
     )
 
@@ -288,7 +288,7 @@ class WeekdayPositionExpression(AllExpression):
 
 
 class LastDayOfMonthExpression(AllExpression):
-    regex: ClassVar[re.Pattern] = re.compile(r"last", re.IGNORECASE)
+    regex: ClassVar[re.Pattern] = re.compile(r"last$", re.IGNORECASE)
 
     def __init__(self, **kwargs: Any) -> None:
         super().__init__(step=None, **kwargs)
-- 
2.43.0


From c787e9b5f2a81ad0e8bd60fa5f07201af4491d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 02/89] fix: check the step of cron ranges that end at zero

---
 asyncz/triggers/cron/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/triggers/cron/expressions.py b/asyncz/triggers/cron/expressions.py
index 826874c..9339587 100644
--- a/asyncz/triggers/cron/expressions.py
+++ b/asyncz/triggers/cron/expressions.py
@@ -99,7 +99,8 @@ class RangeExpression(AllExpression):
                 f"The last value ({self.last}) is higher than the maximum value ({MAX_VALUES[field_name]})."
             )
 
-        value_range = (self.last or MAX_VALUES[field_name]) - self.first
+        last = self.last if self.last is not None else MAX_VALUES[field_name]
+        value_range = last - self.first
 
         if self.step and self.step > value_range:
             raise ValueError(
-- 
2.43.0


From b37d5c7e99d58b7843201ec149c5239f3cb81f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 03/89] fix: let and-triggers step sub-triggers that only
 follow the previous time

---
 asyncz/triggers/combination.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/asyncz/triggers/combination.py b/asyncz/triggers/combination.py
index 7fa2244..e69c13d 100644
--- a/asyncz/triggers/combination.py
+++ b/asyncz/triggers/combination.py
@@ -21,10 +21,21 @@ class AndTrigger(BaseCombinationTrigger):
     ) -> Union[datetime, None]:
         if now is None:
             now = datetime.now(timezone)
+        earliest: Optional[datetime] = None
         while True:
             trigger_times = []
             for trigger in self.triggers:
                 next_trigger_time = trigger.get_next_trigger_time(timezone, previous_time, now)
+                # Some triggers only look at the previous time. Step them forward until they
+                # reach the time to agree on, otherwise the recheck would never make progress.
+                while (
+                    earliest is not None
+                    and next_trigger_time is not None
+                    and next_trigger_time < earliest
+                ):
+                    next_trigger_time = trigger.get_next_trigger_time(
+                        timezone, next_trigger_time, now
+                    )
                 # bail out early
                 if next_trigger_time is None:
                     return None
@@ -33,7 +44,7 @@ class AndTrigger(BaseCombinationTrigger):
                 return self.apply_jitter(trigger_times[0], self.jitter, now)
             else:
                 # recheck
-                now = max(trigger_times)
+                now = earliest = max(trigger_times)
 
 
 class OrTrigger(BaseCombinationTrigger):
-- 
2.43.0


From 43ab26d5627e7224f1037be4548dc060bb79b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 04/89] fix: keep waking up after a failed processing round

---
 asyncz/schedulers/asyncio.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index bc75208..87281a6 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -91,8 +91,12 @@ class AsyncIOScheduler(BaseScheduler):
     @run_in_event_loop
     def wakeup(self) -> None:
         self.stop_timer()
-        wait_seconds = self.process_tasks()
-        self.start_timer(wait_seconds)
+        # when the round fails, try again later instead of never waking up again
+        wait_seconds: Optional[float] = self.store_retry_interval
+        try:
+            wait_seconds = self.process_tasks()
+        finally:
+            self.start_timer(wait_seconds)
 
     def create_default_executor(self) -> BaseExecutor:
         return AsyncIOExecutor()
-- 
2.43.0


From 356b7ca399d6391e69334fd1902f5af3e534d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 05/89] fix: release locks when the protected block raises

---
 asyncz/file_locking.py | 6 ++++--
 asyncz/locks.py        | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/asyncz/file_locking.py b/asyncz/file_locking.py
index c5705f0..c2724e7 100644
--- a/asyncz/file_locking.py
+++ b/asyncz/file_locking.py
@@ -123,5 +123,7 @@ else:
 @contextmanager
 def with_lock(f: IO, flags: int) -> Generator[IO, None, None]:
     lock(f, flags)
-    yield f
-    unlock(f)
+    try:
+        yield f
+    finally:
+        unlock(f)
diff --git a/asyncz/locks.py b/asyncz/locks.py
index d9412a0..ad0e088 100644
--- a/asyncz/locks.py
+++ b/asyncz/locks.py
@@ -36,9 +36,11 @@ class LockProtected(LockProtectedProtocol):
         self, blocking: bool = False, timeout: Optional[int] = None
     ) -> Generator[bool, None, None]:
         locked = self.lock.acquire(blocking, -1 if timeout is None else timeout)
-        yield locked
-        if locked:
-            self.lock.release()
+        try:
+            yield locked
+        finally:
+            if locked:
+                self.lock.release()
 
 
 class RLockProtected(LockProtected):
-- 
2.43.0


From fda21cefdce960daa5c1f97de9c99cd79e70613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 06/89] fix: free the instance slot of cancelled pool runs

---
 asyncz/executors/pool.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index 2931f97..e8e13e7 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -27,15 +27,13 @@ class BasePoolExecutor(BaseExecutor):
         assert task_id is not None, "Cannot send decorator type task"
 
         def callback(fn: Any) -> None:
-            exc, _ = (
-                fn.exception_info()
-                if hasattr(fn, "exception_info")
-                else (fn.exception(), getattr(fn.exception(), "__traceback__", None))
-            )
-            if exc:
+            try:
+                events = fn.result()
+            except BaseException:
+                # includes the cancellation of runs that have not been started yet
                 self.run_task_error(task_id)
             else:
-                self.run_task_success(task_id, fn.result())
+                self.run_task_success(task_id, events)
 
         try:
             fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
-- 
2.43.0


From 3c1b01923700de08f0d00636307e892ad4e92644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 07/89] fix: replace a broken process pool

---
 asyncz/executors/pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index e8e13e7..0afdf0e 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -41,7 +41,7 @@ class BasePoolExecutor(BaseExecutor):
             self.scheduler.loggers[self.logger_name].warning(
                 "Process pool is broken. Replacing pool with a new instance."
             )
-            self.pool = self.pool.__class__(self.pool.max_workers)
+            self.pool = self.pool.__class__(self.pool._max_workers)
             fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
 
         fn.add_done_callback(callback)
-- 
2.43.0


From 468921c652f51bab12258a871081aa30118ae17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 08/89] fix: accept task objects when updating, pausing and
 rescheduling tasks

---
 asyncz/schedulers/base.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index b8f0695..d7de5f9 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -72,6 +72,23 @@ class ClassicLogging(LoggersType):
 default_loggers_class: type[LoggersType] = ClassicLogging
 
 
+TASK_UPDATE_ATTRIBUTES: frozenset[str] = frozenset(
+    {
+        "fn",
+        "args",
+        "kwargs",
+        "name",
+        "mistrigger_grace_time",
+        "coalesce",
+        "max_instances",
+        "next_run_time",
+        "trigger",
+        "executor",
+        "store_alias",
+    }
+)
+
+
 class BaseScheduler(SchedulerType):
     """
     Abstract base class for all schedulers. Implement the base logic.
@@ -668,7 +685,16 @@ class BaseScheduler(SchedulerType):
             )
             if not isinstance(new_updates, Mapping):
                 raise TypeError("Task snapshots must dump to a mapping.")
-            new_updates = dict(new_updates)
+            # Only the modifiable attributes are taken over. The values come from the task itself
+            # because dumping converts runtime objects like triggers.
+            new_updates = {
+                key: getattr(task_id, key, value)
+                for key, value in new_updates.items()
+                if key in TASK_UPDATE_ATTRIBUTES
+            }
+            for key in ("fn", "trigger", "executor", "store_alias"):
+                if new_updates.get(key) is None:
+                    new_updates.pop(key, None)
             new_updates.update(**updates)
             task_id = task_id.id
         else:
-- 
2.43.0


From 2df487d9d253f863bbf14af1a4c61efc3e61e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 09/89] fix: keep pending tasks paused when the scheduler
 starts

---
 asyncz/schedulers/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index d7de5f9..31ee777 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -706,6 +706,13 @@ class BaseScheduler(SchedulerType):
 
             if store:
                 self.lookup_store(store).update_task(task)
+            elif "next_run_time" in updates:
+                # A pending task keeps an explicitly set state (e.g. paused) when the scheduler starts.
+                start_task = updates["next_run_time"] is not None
+                self.pending_tasks = [
+                    (entry[0], entry[1], start_task) if entry[0] is task else entry
+                    for entry in self.pending_tasks
+                ]
 
         self.dispatch_event(TaskEvent(code=TASK_MODIFIED, task_id=task_id, store=store))
 
-- 
2.43.0


From d5da8328fdfc0b12208b4166f51531e6c91a492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 10/89] fix: keep the textual reference of a task when its
 arguments change

---
 asyncz/tasks/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index 20ffc8f..47c1c19 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -106,6 +106,9 @@ class Task(BaseState, TaskType):  # type: ignore
             elif isinstance(fn, str):
                 fn_reference = fn
                 fn = ref_to_obj(fn)
+            elif fn is self.fn and self.fn_reference:
+                # keep a textual reference which cannot be derived from the object
+                fn_reference = self.fn_reference
             elif callable(fn):
                 try:
                     fn_reference = obj_to_ref(fn)
-- 
2.43.0


From 6c19428304b6e9e5a31a2dd5beef8ca4f3821765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 11/89] fix: compute the next run of restored interval triggers

---
 asyncz/triggers/interval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index 6573031..cca6334 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -83,7 +83,9 @@ class IntervalTrigger(BaseTrigger):
             next_trigger_time = start_at
         else:
             time_difference_seconds = timedelta_seconds(now - start_at)
-            next_interval_number = int(ceil(time_difference_seconds / self.interval_size))
+            # not self.interval_size, it isn't part of the persisted state
+            interval_size = timedelta_seconds(self.interval)
+            next_interval_number = int(ceil(time_difference_seconds / interval_size))
             next_trigger_time = start_at + self.interval * next_interval_number
 
         if self.jitter is not None:
-- 
2.43.0


From 83558553aad2f3d84717a6c28bd9d8762f80d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 12/89] fix: restore pickled triggers without an own state
 object

---
 asyncz/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asyncz/state.py b/asyncz/state.py
index ae4b0ba..b48311e 100644
--- a/asyncz/state.py
+++ b/asyncz/state.py
@@ -14,6 +14,10 @@ class BaseState(BaseModel):
         """
         Retrieves the data pickled and sets the state for Pydantic compatible fashion.
         """
+        if isinstance(state, dict):
+            # no own state object, e.g. a trigger without parameters
+            super().__setstate__(state)
+            return self
         state.model_config.update(self.model_config)
         object_setattr(self, "__dict__", state.__dict__)
         object_setattr(self, "__pydantic_fields_set__", state.__pydantic_fields_set__)
-- 
2.43.0


From 0576391f087c6d0f96514a9bd5d247a972513862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 13/89] fix: persist tasks with a fractional mistrigger grace
 time

---
 asyncz/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/datastructures.py b/asyncz/datastructures.py
index afcac42..4de6e22 100644
--- a/asyncz/datastructures.py
+++ b/asyncz/datastructures.py
@@ -67,7 +67,7 @@ class TaskState(BaseDatastructureState):  # type: ignore
     coalesce: Optional[bool] = None
     trigger: Optional[TriggerType] = None
     executor: Optional[str] = None
-    mistrigger_grace_time: Optional[int] = None
+    mistrigger_grace_time: Optional[Union[int, float]] = None
     max_instances: Optional[int] = None
     next_run_time: Optional[datetime] = None
     scheduler: Optional[Any] = None
-- 
2.43.0


From 4f337704a794ee7cf133f8aaf3e94e3184ce98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:13 +0000
Subject: [PATCH 14/89] fix: let the redis store report tasks due before 1970

---
 asyncz/stores/redis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 3bfb0df..0dba240 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -67,7 +67,7 @@ class RedisStore(BaseStore):
 
     def get_due_tasks(self, now: datetime) -> list["TaskType"]:
         timestamp = datetime_to_utc_timestamp(now)
-        ids: list[str] = self.redis.zrangebyscore(self.run_times_key, 0, timestamp)  # type: ignore
+        ids: list[str] = self.redis.zrangebyscore(self.run_times_key, "-inf", timestamp)  # type: ignore
         if not ids:
             return []
         states: list[Any] = self.redis.hmget(self.tasks_key, ids)  # type: ignore
-- 
2.43.0


From 30bf6d5c4a7487c8e0fe1f81b15a128b46f72831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 15/89] fix: write file store tasks atomically

---
 asyncz/stores/file.py | 45 ++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index 0bbb060..a478303 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -4,6 +4,7 @@ import glob
 import os
 import pickle
 import shutil
+import uuid
 from contextlib import suppress
 from datetime import datetime
 from pathlib import Path
@@ -101,6 +102,9 @@ class FileStore(BaseStore):
         tasks: list[tuple[TaskType, os.stat_result]] = []
         with os.scandir(self.directory) as scanner:
             for entry in scanner:
+                # task ids don't start with a dot, temporary files do
+                if entry.name.startswith(".") and entry.name != self.suffix:
+                    continue
                 if not entry.name.endswith(self.suffix) or not entry.is_file():
                     continue
                 try:
@@ -135,30 +139,45 @@ class FileStore(BaseStore):
     def get_all_tasks(self) -> list[TaskType]:
         return self.get_tasks()
 
+    def write_temporary(self, task: TaskType) -> Path:
+        """
+        Write the task completely to a file which isn't visible as a task yet.
+
+        Readers, also after a crash, never see a partly written task this way.
+        """
+        data = self.conditional_encrypt(
+            pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
+        )
+        temporary_path = self.directory / f".{task.id}{self.suffix}.{uuid.uuid4().hex}"
+        try:
+            with temporary_path.open("xb") as write_ob:
+                write_ob.write(data)
+        except BaseException:
+            temporary_path.unlink(missing_ok=True)
+            raise
+        return temporary_path
+
     def add_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
+        temporary_path = self.write_temporary(task)
         try:
-            with task_path.open("xb") as write_ob, with_lock(write_ob, LOCK_EX):
-                write_ob.write(
-                    self.conditional_encrypt(
-                        pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                    )
-                )
+            os.link(temporary_path, task_path)
         except FileExistsError:
             raise ConflictIdError(task.id) from None
+        finally:
+            temporary_path.unlink(missing_ok=True)
 
     def update_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
         try:
-            with task_path.open("r+b") as write_ob, with_lock(write_ob, LOCK_EX):
-                write_ob.truncate()
-                write_ob.write(
-                    self.conditional_encrypt(
-                        pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                    )
-                )
+            with task_path.open("r+b") as lock_ob, with_lock(lock_ob, LOCK_EX):
+                temporary_path = self.write_temporary(task)
+                try:
+                    os.replace(temporary_path, task_path)
+                finally:
+                    temporary_path.unlink(missing_ok=True)
         except FileNotFoundError:
             raise TaskLookupError(task.id) from None
 
-- 
2.43.0


From d2c9f40b363b6440ab09311adfe74d12d7ec2ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:36 +0000
Subject: [PATCH 16/89] fix: don't delete task files the file store cannot read

---
 asyncz/stores/file.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index a478303..629f503 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -77,11 +77,14 @@ class FileStore(BaseStore):
         task_path = self.directory / f"{task_id}{self.suffix}"
         try:
             with open(task_path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
-                task = self.rebuild_task(read_ob.read())
+                data = read_ob.read()
+        except FileNotFoundError:
+            return None
+        try:
+            return self.rebuild_task(data)
         except Exception:
             task_path.unlink(missing_ok=True)
-            task = None
-        return task
+            return None
 
     def rebuild_task(self, state: Any) -> TaskType:
         state = self.deserialize_task_state(pickle.loads(self.conditional_decrypt(state)))
@@ -109,8 +112,13 @@ class FileStore(BaseStore):
                     continue
                 try:
                     with open(entry.path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
-                        task = self.rebuild_task(read_ob.read())
-                    tasks.append((task, entry.stat()))
+                        data = read_ob.read()
+                    entry_stat = entry.stat()
+                except FileNotFoundError:
+                    # removed in the meantime
+                    continue
+                try:
+                    tasks.append((self.rebuild_task(data), entry_stat))
                 except Exception:
                     with suppress(FileNotFoundError):
                         os.unlink(entry.path)
-- 
2.43.0


From c38027ab19b0f26c292a116c3f6b449cedc04ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 17/89] fix: lock the file store directory instead of single
 task files

---
 asyncz/stores/file.py | 136 ++++++++++++++++++++++--------------------
 1 file changed, 72 insertions(+), 64 deletions(-)

diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index 629f503..8e9e670 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -5,7 +5,8 @@ import os
 import pickle
 import shutil
 import uuid
-from contextlib import suppress
+from collections.abc import Generator
+from contextlib import contextmanager, suppress
 from datetime import datetime
 from pathlib import Path
 from typing import TYPE_CHECKING, Any, Optional, Union, cast
@@ -72,18 +73,34 @@ class FileStore(BaseStore):
             shutil.rmtree(self.directory, ignore_errors=True)
         super().shutdown()
 
+    @contextmanager
+    def locked_directory(self, flags: int) -> Generator[None, None, None]:
+        """
+        Readers share the directory, a writer has it for itself.
+        """
+        with open(self.directory / ".lock", "ab") as lock_ob, with_lock(lock_ob, flags):
+            yield
+
+    def drop_unreadable(self, task_path: Path, data: bytes) -> None:
+        """
+        Remove a task file which cannot be restored unless it was replaced in the meantime.
+        """
+        with self.locked_directory(LOCK_EX), suppress(FileNotFoundError):
+            if task_path.read_bytes() == data:
+                task_path.unlink()
+
     def lookup_task(self, task_id: str) -> Optional[TaskType]:
         self.check_task_id(task_id)
         task_path = self.directory / f"{task_id}{self.suffix}"
         try:
-            with open(task_path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
-                data = read_ob.read()
+            with self.locked_directory(LOCK_SH):
+                data = task_path.read_bytes()
         except FileNotFoundError:
             return None
         try:
             return self.rebuild_task(data)
         except Exception:
-            task_path.unlink(missing_ok=True)
+            self.drop_unreadable(task_path, data)
             return None
 
     def rebuild_task(self, state: Any) -> TaskType:
@@ -102,38 +119,34 @@ class FileStore(BaseStore):
         ]
 
     def get_tasks(self) -> list[TaskType]:
-        tasks: list[tuple[TaskType, os.stat_result]] = []
-        with os.scandir(self.directory) as scanner:
+        files: list[tuple[Path, bytes, os.stat_result]] = []
+        with self.locked_directory(LOCK_SH), os.scandir(self.directory) as scanner:
             for entry in scanner:
-                # task ids don't start with a dot, temporary files do
+                # task ids don't start with a dot, the lock and temporary files do
                 if entry.name.startswith(".") and entry.name != self.suffix:
                     continue
                 if not entry.name.endswith(self.suffix) or not entry.is_file():
                     continue
-                try:
-                    with open(entry.path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
-                        data = read_ob.read()
-                    entry_stat = entry.stat()
-                except FileNotFoundError:
-                    # removed in the meantime
-                    continue
-                try:
-                    tasks.append((self.rebuild_task(data), entry_stat))
-                except Exception:
-                    with suppress(FileNotFoundError):
-                        os.unlink(entry.path)
-            return [
-                task
-                for task, _ in sorted(
-                    tasks,
-                    key=lambda task_stat: (
-                        int(task_stat[0].next_run_time is None),
-                        task_stat[0].next_run_time,
-                        # sort for task creation not update
-                        task_stat[1].st_ctime,
-                    ),
-                )
-            ]
+                task_path = Path(entry.path)
+                files.append((task_path, task_path.read_bytes(), entry.stat()))
+        tasks: list[tuple[TaskType, os.stat_result]] = []
+        for task_path, data, stat in files:
+            try:
+                tasks.append((self.rebuild_task(data), stat))
+            except Exception:
+                self.drop_unreadable(task_path, data)
+        return [
+            task
+            for task, _ in sorted(
+                tasks,
+                key=lambda task_stat: (
+                    int(task_stat[0].next_run_time is None),
+                    task_stat[0].next_run_time,
+                    # sort for task creation not update
+                    task_stat[1].st_ctime,
+                ),
+            )
+        ]
 
     def get_next_run_time(self) -> Optional[datetime]:
         next_run_time: datetime | None = None
@@ -147,59 +160,54 @@ class FileStore(BaseStore):
     def get_all_tasks(self) -> list[TaskType]:
         return self.get_tasks()
 
-    def write_temporary(self, task: TaskType) -> Path:
-        """
-        Write the task completely to a file which isn't visible as a task yet.
-
-        Readers, also after a crash, never see a partly written task this way.
-        """
-        data = self.conditional_encrypt(
+    def dump_task(self, task: TaskType) -> bytes:
+        return self.conditional_encrypt(
             pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
         )
-        temporary_path = self.directory / f".{task.id}{self.suffix}.{uuid.uuid4().hex}"
+
+    def write_task_file(self, task_path: Path, data: bytes) -> None:
+        """
+        Replace the task file at once. After a failure or crash the old version is intact.
+        """
+        temporary_path = self.directory / f".{uuid.uuid4().hex}.tmp"
         try:
-            with temporary_path.open("xb") as write_ob:
-                write_ob.write(data)
+            temporary_path.write_bytes(data)
+            os.replace(temporary_path, task_path)
         except BaseException:
             temporary_path.unlink(missing_ok=True)
             raise
-        return temporary_path
 
     def add_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
-        temporary_path = self.write_temporary(task)
-        try:
-            os.link(temporary_path, task_path)
-        except FileExistsError:
-            raise ConflictIdError(task.id) from None
-        finally:
-            temporary_path.unlink(missing_ok=True)
+        data = self.dump_task(task)
+        with self.locked_directory(LOCK_EX):
+            if task_path.exists():
+                raise ConflictIdError(task.id)
+            self.write_task_file(task_path, data)
 
     def update_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
-        try:
-            with task_path.open("r+b") as lock_ob, with_lock(lock_ob, LOCK_EX):
-                temporary_path = self.write_temporary(task)
-                try:
-                    os.replace(temporary_path, task_path)
-                finally:
-                    temporary_path.unlink(missing_ok=True)
-        except FileNotFoundError:
-            raise TaskLookupError(task.id) from None
+        data = self.dump_task(task)
+        with self.locked_directory(LOCK_EX):
+            if not task_path.exists():
+                raise TaskLookupError(task.id)
+            self.write_task_file(task_path, data)
 
     def delete_task(self, task_id: str) -> None:
         self.check_task_id(task_id)
         task_path = self.directory / f"{task_id}{self.suffix}"
-        try:
-            task_path.unlink(missing_ok=False)
-        except FileNotFoundError:
-            raise TaskLookupError(task_id) from None
+        with self.locked_directory(LOCK_EX):
+            try:
+                task_path.unlink(missing_ok=False)
+            except FileNotFoundError:
+                raise TaskLookupError(task_id) from None
 
     def remove_all_tasks(self) -> None:
-        for task_path in self.directory.glob(f"*{glob.escape(self.suffix)}"):
-            task_path.unlink(missing_ok=True)
+        with self.locked_directory(LOCK_EX):
+            for task_path in self.directory.glob(f"*{glob.escape(self.suffix)}"):
+                task_path.unlink(missing_ok=True)
 
     def __repr__(self) -> str:
         return f"<{self.__class__.__name__} (directory={self.directory})>"
-- 
2.43.0


From 4dfac9f6ef3dd4135661188b2be0c1f9c5772bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 18/89] fix: keep the class of inherited class methods in
 references

---
 asyncz/utils.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index 6401b6a..31dc1b9 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -258,21 +258,17 @@ def obj_to_ref(obj: Any) -> str:
     if isinstance(obj, partial):
         raise ValueError("Cannot create a reference to a partial()")
 
-    name = get_callable_name(obj)
+    if inspect.ismethod(obj) and inspect.isclass(obj.__self__):
+        # the class may have inherited the method
+        name = f"{obj.__self__.__qualname__}.{obj.__name__}"
+        module = obj.__self__.__module__
+    else:
+        name = get_callable_name(obj)
+        module = obj.__module__
     if "<lambda>" in name:
         raise ValueError("Cannot create a reference to a lambda")
     if "<locals>" in name:
         raise ValueError("Cannot create a reference to a nested function")
-
-    if inspect.ismethod(obj):
-        if hasattr(obj, "im_self") and obj.im_self:
-            module = obj.im_self.__module__
-        elif hasattr(obj, "im_class") and obj.im_class:
-            module = obj.im_class.__module__
-        else:
-            module = obj.__module__
-    else:
-        module = obj.__module__
     return f"{module}:{name}"
 
 
-- 
2.43.0


From eba7a1a04004e980b16512f842e86946d55c48d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 19/89] fix: refuse to persist callable objects under the name
 of their class

---
 asyncz/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index 31dc1b9..0d792f6 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -258,6 +258,10 @@ def obj_to_ref(obj: Any) -> str:
     if isinstance(obj, partial):
         raise ValueError("Cannot create a reference to a partial()")
 
+    if not hasattr(obj, "__name__") or obj.__module__ is None:
+        # the name would be the one of its class, e.g. instances with __call__ or [].append
+        raise ValueError("Cannot create a reference to a callable object")
+
     if inspect.ismethod(obj) and inspect.isclass(obj.__self__):
         # the class may have inherited the method
         name = f"{obj.__self__.__qualname__}.{obj.__name__}"
-- 
2.43.0


From 993ae181c53c32afce607baf89274d901a8fa76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 20/89] fix: don't count shutdowns of schedulers which aren't
 running

---
 asyncz/schedulers/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 31ee777..e94ae09 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -200,7 +200,9 @@ class BaseScheduler(SchedulerType):
 
     def decr_refcount(self) -> bool:
         with self.ref_lock:
-            self.ref_counter -= 1
+            # a shutdown without a matching start isn't counted
+            if self.ref_counter > 0:
+                self.ref_counter -= 1
             # first start with 0
             if self.ref_counter > 0:
                 return False
-- 
2.43.0


From d139c9024a321d1522ad1100f61fb3cd1ab9c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:10 +0000
Subject: [PATCH 21/89] fix: return from asyncio scheduler shutdowns if the
 scheduler was stopped

---
 asyncz/schedulers/asyncio.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index 87281a6..e913f9f 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -68,10 +68,10 @@ class AsyncIOScheduler(BaseScheduler):
                     thread.join()
 
     def shutdown(self, wait: bool = True) -> bool:
-        # not decremented yet so +1
+        # not decremented yet, so it is the last one with 1
         result = self.ref_counter
         self._shutdown(wait)
-        return result > 1
+        return result <= 1
 
     def _setup(self, config: Any) -> None:
         self.event_loop = maybe_ref(config.pop("event_loop", None))
@@ -133,7 +133,7 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
             self._shutdown_handle = None
 
     async def shutdown(self, wait: bool = True) -> bool:  # type: ignore
-        # not decremented yet so +1
+        # not decremented yet, so it is the last one with 1
         result = self.ref_counter
         if super(AsyncIOScheduler, self).shutdown(wait):
             handle = self._shutdown_handle
@@ -146,7 +146,7 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
                 self.event_loop.stop()
                 self.event_loop = self.event_loop_thread = None
                 await asyncio.to_thread(thread.join)
-        return result > 1
+        return result <= 1
 
     def _setup(self, config: Any) -> None:
         self.isolated_event_loop = bool(config.pop("isolated_event_loop", False))
-- 
2.43.0


From ab99b88bb6ddabe10ea522e07903f6ee78573a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 22/89] fix: allow to repeat the start of a scheduler after it
 failed

---
 asyncz/schedulers/base.py | 45 ++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index e94ae09..95d785a 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -220,29 +220,34 @@ class BaseScheduler(SchedulerType):
         # should not happen, ref_counter should protect
         assert self.state == SchedulerState.STATE_STOPPED
 
-        self.check_uwsgi()
-        with self.executor_lock:
-            if "default" not in self.executors:
-                self.add_executor(self.create_default_executor(), "default")
-
-            for alias, executor in self.executors.items():
-                executor.start(self, alias)
-        #
-        min_dtime = None
-        if self.lock_path:
-            min_dtime = datetime.now(self.timezone) + timedelta(seconds=self.startup_delay)
+        try:
+            self.check_uwsgi()
+            with self.executor_lock:
+                if "default" not in self.executors:
+                    self.add_executor(self.create_default_executor(), "default")
+
+                for alias, executor in self.executors.items():
+                    executor.start(self, alias)
+            #
+            min_dtime = None
+            if self.lock_path:
+                min_dtime = datetime.now(self.timezone) + timedelta(seconds=self.startup_delay)
 
-        with self.store_lock:
-            if "default" not in self.stores:
-                self.add_store(self.create_default_store(), "default")
+            with self.store_lock:
+                if "default" not in self.stores:
+                    self.add_store(self.create_default_store(), "default")
 
-            for alias, store in self.stores.items():
-                store.start(self, alias)
+                for alias, store in self.stores.items():
+                    store.start(self, alias)
 
-            for task, replace_existing, start_task in self.pending_tasks:
-                with contextlib.suppress(ConflictIdError):
-                    self.real_add_task(task, replace_existing, start_task, min_dtime)
-            del self.pending_tasks[:]
+                for task, replace_existing, start_task in self.pending_tasks:
+                    with contextlib.suppress(ConflictIdError):
+                        self.real_add_task(task, replace_existing, start_task, min_dtime)
+                del self.pending_tasks[:]
+        except BaseException:
+            # otherwise the scheduler could never be started
+            self.decr_refcount()
+            raise
 
         self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
         self.started_at = datetime.now(self.timezone)
-- 
2.43.0


From 079f7e5166ee4d2bcd1805e17fd210bd0dc0849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 23/89] fix: report the shutdown of asyncio schedulers which
 aren't running

---
 asyncz/schedulers/asyncio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index e913f9f..696e2b6 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -6,6 +6,7 @@ from collections.abc import Sequence
 from threading import Event, Thread
 from typing import TYPE_CHECKING, Any, Optional
 
+from asyncz.exceptions import SchedulerNotRunningError
 from asyncz.executors.asyncio import AsyncIOExecutor
 from asyncz.schedulers.base import BaseScheduler
 from asyncz.schedulers.utils import run_in_event_loop
@@ -68,6 +69,8 @@ class AsyncIOScheduler(BaseScheduler):
                     thread.join()
 
     def shutdown(self, wait: bool = True) -> bool:
+        if not self.running:
+            raise SchedulerNotRunningError()
         # not decremented yet, so it is the last one with 1
         result = self.ref_counter
         self._shutdown(wait)
-- 
2.43.0


From d2868277e8a8c35d80bcf7c58fa560d6ee0f35b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 24/89] fix: name the store in the events of added tasks

---
 asyncz/schedulers/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 95d785a..583734e 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1511,7 +1511,9 @@ class BaseScheduler(SchedulerType):
                 raise exc
         task.pending = False
 
-        event = TaskEvent(code=TASK_ADDED, task_id=task.id, alias=task.store_alias)
+        event = TaskEvent(
+            code=TASK_ADDED, task_id=task.id, store=task.store_alias, alias=task.store_alias
+        )
         self.dispatch_event(event)
 
         self.loggers[self.logger_name].info(
-- 
2.43.0


From 6b14f2917715b56b643e9f374c9b259892aeb2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 25/89] fix: accept keyword arguments named like
 positional-only parameters for **kwargs

---
 asyncz/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index 0d792f6..7b2b0b2 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -365,11 +365,10 @@ def check_callable_args(func: Callable[..., Any], args: Any, kwargs: Any) -> Non
         elif param.kind == param.POSITIONAL_ONLY:
             if unmatched_args:
                 del unmatched_args[0]
-            elif param.name in unmatched_kwargs:
-                unmatched_kwargs.remove(param.name)
-                positional_only_kwargs.append(param.name)
             elif param.default is param.empty:
                 unsatisfied_args.append(param.name)
+            if param.name in unmatched_kwargs:
+                positional_only_kwargs.append(param.name)
         elif param.kind == param.KEYWORD_ONLY:
             if param.name in unmatched_kwargs:
                 unmatched_kwargs.remove(param.name)
@@ -387,7 +386,8 @@ def check_callable_args(func: Callable[..., Any], args: Any, kwargs: Any) -> Non
             )
         )
 
-    if positional_only_kwargs:
+    # keyword arguments with the name of a positional-only parameter go into **kwargs
+    if positional_only_kwargs and not has_var_kwargs:
         raise ValueError(
             "The following arguments cannot be given as keyword arguments: {}".format(
                 ", ".join(positional_only_kwargs)
-- 
2.43.0


From a7515fec1b92d289852e2beba15cbb6eff7ab967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 26/89] fix: don't exhaust iterators given as arguments of a
 task

---
 asyncz/tasks/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index 47c1c19..7b40232 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -1,5 +1,5 @@
 import inspect
-from collections.abc import Callable, Iterable, Mapping, Sequence
+from collections.abc import Callable, Collection, Iterable, Mapping, Sequence
 from datetime import datetime, tzinfo
 from typing import Any, Optional, Union, cast
 from uuid import uuid4
@@ -122,6 +122,9 @@ class Task(BaseState, TaskType):  # type: ignore
 
             if isinstance(args, str) or not isinstance(args, Iterable):
                 raise TypeError("args must be a non-string iterable.")
+            if not isinstance(args, Collection):
+                # keep the items of iterators
+                args = tuple(args)
             if isinstance(kwargs, str) or not isinstance(kwargs, Mapping):
                 raise TypeError("kwargs must be a dict-like object.")
 
-- 
2.43.0


From 89e7cd88e3bce357bdfc6ae6070fe43a207889be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 27/89] fix: respect a default mistrigger_grace_time of None

---
 asyncz/schedulers/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 583734e..3747d90 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -654,7 +654,6 @@ class BaseScheduler(SchedulerType):
         task_defaults = self.shape.dump(
             self.task_defaults,
             context=task_default_context,
-            exclude_none=True,
         )
         if not isinstance(task_defaults, Mapping):
             raise TypeError("Task defaults must dump to a mapping.")
-- 
2.43.0


From 65918dec7b2a7f864fa2c7d86c72d9356cb72ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 28/89] fix: allow to submit tasks with an id

---
 asyncz/schedulers/base.py | 2 +-
 asyncz/tasks/base.py      | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 3747d90..bd654ab 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -587,7 +587,7 @@ class BaseScheduler(SchedulerType):
                 "scheduler": self,
                 "args": tuple(args) if args is not None else undefined,
                 "kwargs": dict(kwargs) if kwargs is not None else undefined,
-                "id": id or undefined,
+                "id": id if id and id != fn_or_task.id else undefined,
                 "name": name or undefined,
                 "mistrigger_grace_time": mistrigger_grace_time,
                 "coalesce": coalesce,
diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index 7b40232..d7cbfcb 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -93,7 +93,12 @@ class Task(BaseState, TaskType):  # type: ignore
             scheduler = self.scheduler
 
         if "id" in updates:
-            raise ValueError("The task ID may not be changed.")
+            if self.id is not None:
+                raise ValueError("The task ID may not be changed.")
+            task_id = updates.pop("id")
+            if not task_id or not isinstance(task_id, str):
+                raise TypeError("id must be a non empty string.")
+            approved["id"] = task_id
 
         if fn or "args" in updates or "kwargs" in updates:
             if not fn:
-- 
2.43.0


From c050a15619d1767d9d1fe72d1440d51631196094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:02 +0000
Subject: [PATCH 29/89] fix: don't remove lock files while the lock is held

---
 asyncz/locks.py | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/asyncz/locks.py b/asyncz/locks.py
index ad0e088..89290f0 100644
--- a/asyncz/locks.py
+++ b/asyncz/locks.py
@@ -4,7 +4,7 @@ import os
 from collections.abc import Generator
 from contextlib import contextmanager, suppress
 from threading import Lock, RLock
-from typing import Any, Optional
+from typing import IO, Any, Optional
 
 from .file_locking import LOCK_EX, LOCK_NB, lock, unlock
 from .protocols import LockProtectedProtocol
@@ -63,17 +63,39 @@ class FileLockProtected(LockProtectedProtocol):
     def protected(
         self, blocking: bool = False, timeout: Optional[int] = None
     ) -> Generator[bool, None, None]:
-        with open(self.file_path, "w+") as file:
-            flags = LOCK_EX
-            if not blocking:
-                flags |= LOCK_NB
-            locked = lock(file, flags)
-            try:
-                yield locked
-            finally:
-                if locked:
-                    unlock(file)
+        flags = LOCK_EX
+        if not blocking:
+            flags |= LOCK_NB
+        while True:
+            with open(self.file_path, "w+") as file:
+                locked = lock(file, flags)
+                try:
+                    if locked and not self.is_current(file):
+                        # removed by a shutdown in the meantime, others may lock a new file
+                        continue
+                    yield locked
+                    return
+                finally:
+                    if locked:
+                        unlock(file)
+
+    def is_current(self, file: IO[Any]) -> bool:
+        """
+        Is the opened file still the lock file?
+        """
+        try:
+            return os.path.samestat(os.fstat(file.fileno()), os.stat(self.file_path))
+        except FileNotFoundError:
+            return False
 
     def shutdown(self) -> None:
-        with suppress(FileNotFoundError):
-            os.remove(self.file_path)
+        # never remove the lock file while someone else holds the lock
+        with suppress(FileNotFoundError), open(self.file_path, "r+") as file:
+            if lock(file, LOCK_EX | LOCK_NB):
+                try:
+                    if self.is_current(file):
+                        # open files cannot be removed on every platform
+                        with suppress(PermissionError):
+                            os.remove(self.file_path)
+                finally:
+                    unlock(file)
-- 
2.43.0


From 922b5bff9a2458b478536ebf50985726f63203bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:32 +0000
Subject: [PATCH 30/89] fix: don't let others change a task while it is run
 manually

---
 asyncz/schedulers/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index bd654ab..622c97a 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -827,6 +827,13 @@ class BaseScheduler(SchedulerType):
             assert task_id.id, "Cannot run a decorator style Task."
             task_id = task_id.id
 
+        # the task must not be changed, removed or submitted by others in between
+        with self.store_lock:
+            return self._run_task(task_id, store, force, remove_finished)
+
+    def _run_task(
+        self, task_id: str, store: Optional[str], force: bool, remove_finished: bool
+    ) -> Union[TaskType, None]:
         task, store_alias = self.lookup_task(task_id, store)
         now = datetime.now(self.timezone)
         run_times = task.get_run_times(self.timezone, now)
@@ -896,8 +903,7 @@ class BaseScheduler(SchedulerType):
 
         task.update_task(next_run_time=next_run_time)
         if store_alias is not None:
-            with self.store_lock:
-                self.lookup_store(store_alias).update_task(task)
+            self.lookup_store(store_alias).update_task(task)
 
         return task
 
-- 
2.43.0


From d28191feb67555553ff829ae67586e11b215c0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:33 +0000
Subject: [PATCH 31/89] fix: don't lose tasks which are added while the
 scheduler starts

---
 asyncz/schedulers/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 622c97a..9d0b764 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -244,12 +244,15 @@ class BaseScheduler(SchedulerType):
                     with contextlib.suppress(ConflictIdError):
                         self.real_add_task(task, replace_existing, start_task, min_dtime)
                 del self.pending_tasks[:]
+                # tasks added by other threads from now on must not become pending
+                self.state = (
+                    SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
+                )
         except BaseException:
             # otherwise the scheduler could never be started
             self.decr_refcount()
             raise
 
-        self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
         self.started_at = datetime.now(self.timezone)
         self.last_seen_at = self.started_at
         self.loggers[self.logger_name].info("Scheduler started.")
-- 
2.43.0


From e598456f45774b6c23c79a21da23cbcddad3432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:05 +0000
Subject: [PATCH 32/89] fix: don't deadlock in a shutdown when a running task
 uses the scheduler

---
 asyncz/schedulers/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 9d0b764..b747068 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -306,9 +306,13 @@ class BaseScheduler(SchedulerType):
         self.last_seen_at = datetime.now(self.timezone)
         self.started_at = None
 
-        with self.executor_lock, self.store_lock:
-            for executor in self.executors.values():
-                executor.shutdown(wait)
+        with self.executor_lock:
+            executors = list(self.executors.values())
+        # the awaited tasks may use the scheduler, so no lock can be held here
+        for executor in executors:
+            executor.shutdown(wait)
+
+        with self.store_lock:
             coros = []
             for _store in self.stores.values():
                 for task in _store.get_all_tasks():
-- 
2.43.0


From 1cde18c4dc401acd8065ffb8f886f260c9463da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 33/89] fix: start runs submitted from other threads

---
 asyncz/executors/asyncio.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/asyncz/executors/asyncio.py b/asyncz/executors/asyncio.py
index e88a40a..5ab0682 100644
--- a/asyncz/executors/asyncio.py
+++ b/asyncz/executors/asyncio.py
@@ -1,3 +1,4 @@
+import asyncio
 import inspect
 from datetime import datetime
 from typing import TYPE_CHECKING, Any, cast
@@ -37,6 +38,27 @@ class AsyncIOExecutor(BaseExecutor):
         assert task_id is not None, "Cannot send decorator type task"
         assert self.logger is not None, "logger is None"
 
+        if self.event_loop.is_running() and not self.in_event_loop():
+            # event loops are neither thread-safe nor woken up by other threads
+            self.event_loop.call_soon_threadsafe(self.send_in_event_loop, task, run_times)
+        else:
+            self.submit(task, run_times)
+
+    def in_event_loop(self) -> bool:
+        try:
+            return asyncio.get_running_loop() is self.event_loop
+        except RuntimeError:
+            return False
+
+    def send_in_event_loop(self, task: "TaskType", run_times: list[datetime]) -> None:
+        try:
+            self.submit(task, run_times)
+        except Exception:
+            self.run_task_error(cast(str, task.id))
+
+    def submit(self, task: "TaskType", run_times: list[datetime]) -> None:
+        task_id = cast(str, task.id)
+
         def callback(fn: Any) -> None:
             self.pending_futures.discard(fn)
             try:
-- 
2.43.0


From cbb43b55122c662ae9b0be4ed045f86fbf273c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 34/89] fix: read the fraction of a second in date strings as a
 decimal fraction

---
 asyncz/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index 7b2b0b2..931ddd9 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -147,6 +147,8 @@ def to_datetime(
             sign = 1 if tzname[0] == "+" else -1
             tz = dttz(sign * timedelta(hours=hours, minutes=minutes))
 
+        # the digits after the point are a decimal fraction
+        values["microsecond"] = (values["microsecond"] or "").ljust(6, "0")
         values = {k: int(v or 0) for k, v in values.items()}
         _datetime = datetime(**values)  # type: ignore
     else:
-- 
2.43.0


From 24b4b56740315e418d7e26f6895daa830955970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:51 +0000
Subject: [PATCH 35/89] fix: return no records when the dashboard storages are
 queried with a limit of zero

---
 asyncz/contrib/dashboard/audit.py        | 4 ++--
 asyncz/contrib/dashboard/events.py       | 4 ++--
 asyncz/contrib/dashboard/history.py      | 4 ++--
 asyncz/contrib/dashboard/logs/storage.py | 7 +++----
 4 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/asyncz/contrib/dashboard/audit.py b/asyncz/contrib/dashboard/audit.py
index 4f4b1f2..25d0716 100644
--- a/asyncz/contrib/dashboard/audit.py
+++ b/asyncz/contrib/dashboard/audit.py
@@ -89,6 +89,8 @@ class MemoryAuditTrailStorage:
 
         out: list[AuditRecord] = []
         for record in records:
+            if len(out) >= limit:
+                break
             if action_filter and record.action != action_filter:
                 continue
             if status_filter and record.status != status_filter:
@@ -109,8 +111,6 @@ class MemoryAuditTrailStorage:
                 if needle not in haystack:
                     continue
             out.append(record)
-            if len(out) >= limit:
-                break
         return out
 
     def summary(self) -> dict[str, int]:
diff --git a/asyncz/contrib/dashboard/events.py b/asyncz/contrib/dashboard/events.py
index 7dc4147..a158180 100644
--- a/asyncz/contrib/dashboard/events.py
+++ b/asyncz/contrib/dashboard/events.py
@@ -125,6 +125,8 @@ class MemorySchedulerEventStorage:
 
         out: list[SchedulerEventRecord] = []
         for record in reversed(records):
+            if len(out) >= limit:
+                break
             if category_filter and record.category != category_filter:
                 continue
             if name_filter and record.name != name_filter:
@@ -148,8 +150,6 @@ class MemorySchedulerEventStorage:
                 if needle not in haystack:
                     continue
             out.append(record)
-            if len(out) >= limit:
-                break
         return out
 
     def summary(self) -> dict[str, int]:
diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index 0bc53e4..438aca8 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -114,6 +114,8 @@ class MemoryRunHistoryStorage:
 
         out: list[RunRecord] = []
         for record in sorted(records, key=sort_key, reverse=True):
+            if len(out) >= limit:
+                break
             if task_id and record.task_id != task_id:
                 continue
             if status_filter and record.status != status_filter:
@@ -137,8 +139,6 @@ class MemoryRunHistoryStorage:
                 if needle not in haystack:
                     continue
             out.append(record)
-            if len(out) >= limit:
-                break
         return out
 
     def summary(self) -> dict[str, int]:
diff --git a/asyncz/contrib/dashboard/logs/storage.py b/asyncz/contrib/dashboard/logs/storage.py
index e8a8a1c..9bee2f2 100644
--- a/asyncz/contrib/dashboard/logs/storage.py
+++ b/asyncz/contrib/dashboard/logs/storage.py
@@ -192,6 +192,9 @@ class MemoryLogStorage(LogStorage):
         with self.mutex:
             # Iterate in reverse order (newest first)
             for e in reversed(self.buffer):
+                # Check limit and break if reached
+                if len(out) >= limit:
+                    break
                 # Filter 1: task_id
                 if task_id and e.task_id != task_id:
                     continue
@@ -212,10 +215,6 @@ class MemoryLogStorage(LogStorage):
 
                 out.append(e)
 
-                # Check limit and break if reached
-                if len(out) >= limit:
-                    break
-
         # Returns a list, which is a common pattern for returning a finite result set from a query
         return out
 
-- 
2.43.0


From c612a75306c33da725b8047dc28423b7b5ddb16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:23 +0000
Subject: [PATCH 36/89] fix: give runs of different tasks and stores different
 history ids

---
 asyncz/contrib/dashboard/history.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index 438aca8..d2066a1 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -428,8 +428,7 @@ def _run_key(
 
 
 def _run_id(key: tuple[str, str | None, str]) -> str:
-    raw = "|".join(part or "" for part in key)
-    return hashlib.sha256(raw.encode()).hexdigest()[:20]
+    return hashlib.sha256(repr(key).encode()).hexdigest()[:20]
 
 
 def _task_metadata(scheduler: Any, task_id: str, store: str | None) -> dict[str, Any]:
-- 
2.43.0


From f6877c5fdf6d6e082582ce0426f9ec18fb7173d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:23 +0000
Subject: [PATCH 37/89] fix: don't lose the outcome of a run when its
 submission is recorded by another thread

---
 asyncz/contrib/dashboard/history.py | 62 +++++++++++++++--------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index d2066a1..146d28c 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -5,6 +5,7 @@ import hashlib
 import threading
 import weakref
 from collections import deque
+from collections.abc import Iterator
 from dataclasses import dataclass
 from datetime import datetime, timedelta, timezone
 from typing import Any
@@ -166,26 +167,26 @@ class MemoryRunHistoryStorage:
         records: list[RunRecord] = []
 
         for scheduled_run_time in event.scheduled_run_times:
-            record = self._upsert(
+            with self._upsert(
                 task_id=event.task_id,
                 store=event.store,
                 scheduled_run_time=scheduled_run_time,
                 scheduler=scheduler,
                 scheduler_identity=event.scheduler_identity,
                 now=now,
-            )
-            was_terminal = record.status in TERMINAL_STATUSES
-            record.source = source
-            record.coalesced_run_count = max(
-                record.coalesced_run_count,
-                event.coalesced_run_count,
-            )
-            record.submitted_at = record.submitted_at or (record.finished_at or now)
-            if record.status not in TERMINAL_STATUSES:
-                record.status = status
-            if status == "max_instances":
-                record.finished_at = record.finished_at or now
-            record.updated_at = now
+            ) as record:
+                was_terminal = record.status in TERMINAL_STATUSES
+                record.source = source
+                record.coalesced_run_count = max(
+                    record.coalesced_run_count,
+                    event.coalesced_run_count,
+                )
+                record.submitted_at = record.submitted_at or (record.finished_at or now)
+                if record.status not in TERMINAL_STATUSES:
+                    record.status = status
+                if status == "max_instances":
+                    record.finished_at = record.finished_at or now
+                record.updated_at = now
             records.append(record)
 
             if log_storage is not None:
@@ -214,25 +215,25 @@ class MemoryRunHistoryStorage:
         log_storage: LogStorage | None = None,
     ) -> RunRecord:
         now = _utc_now()
-        record = self._upsert(
+        with self._upsert(
             task_id=event.task_id,
             store=event.store,
             scheduled_run_time=event.scheduled_run_time,
             scheduler=scheduler,
             scheduler_identity=event.scheduler_identity,
             now=now,
-        )
-        record.finished_at = now
-        record.submitted_at = record.submitted_at or now
-        record.status = _status_from_execution_code(event.code)
-        record.return_value = (
-            _safe_repr(event.return_value) if event.return_value is not None else None
-        )
-        record.exception_type = _exception_type(event.exception)
-        record.exception_message = _safe_str(event.exception)
-        record.exception = _safe_repr(event.exception) if event.exception is not None else None
-        record.traceback = event.traceback
-        record.updated_at = now
+        ) as record:
+            record.finished_at = now
+            record.submitted_at = record.submitted_at or now
+            record.status = _status_from_execution_code(event.code)
+            record.return_value = (
+                _safe_repr(event.return_value) if event.return_value is not None else None
+            )
+            record.exception_type = _exception_type(event.exception)
+            record.exception_message = _safe_str(event.exception)
+            record.exception = _safe_repr(event.exception) if event.exception is not None else None
+            record.traceback = event.traceback
+            record.updated_at = now
 
         if log_storage is not None:
             if record.status == "succeeded":
@@ -261,6 +262,7 @@ class MemoryRunHistoryStorage:
 
         return record
 
+    @contextlib.contextmanager
     def _upsert(
         self,
         *,
@@ -270,7 +272,9 @@ class MemoryRunHistoryStorage:
         scheduler: Any,
         scheduler_identity: str | None,
         now: datetime,
-    ) -> RunRecord:
+    ) -> Iterator[RunRecord]:
+        # submission and execution events can arrive from different threads at the same
+        # time, so the lock is kept until the caller updated the record
         normalized_run_time = _normalize_run_time(scheduled_run_time)
         key = _run_key(task_id, store, normalized_run_time)
         metadata = _task_metadata(scheduler, task_id, store)
@@ -301,7 +305,7 @@ class MemoryRunHistoryStorage:
                         setattr(record, field, value)
                 if run_scheduler_identity and not record.scheduler_identity:
                     record.scheduler_identity = run_scheduler_identity
-            return record
+            yield record
 
     def _trim(self) -> None:
         while len(self._order) > self.maxlen:
-- 
2.43.0


From 3242b2993e057e4080eeb33f43654bd57aab5eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:23 +0000
Subject: [PATCH 38/89] fix: treat naive timestamps of log entries as UTC

---
 asyncz/contrib/dashboard/logs/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/logs/storage.py b/asyncz/contrib/dashboard/logs/storage.py
index 9bee2f2..654e0ba 100644
--- a/asyncz/contrib/dashboard/logs/storage.py
+++ b/asyncz/contrib/dashboard/logs/storage.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import threading
 from collections import deque
 from collections.abc import Iterable
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from datetime import datetime, timezone
 from typing import Any
 
@@ -112,6 +112,8 @@ class MemoryLogStorage(LogStorage):
             TypeError: If the input type is neither `LogEntry` nor a dictionary.
         """
         if isinstance(entry, LogEntry):
+            if entry.ts.tzinfo is None:
+                return replace(entry, ts=entry.ts.replace(tzinfo=timezone.utc))
             return entry
         if not isinstance(entry, dict):
             raise TypeError(f"Unsupported log entry type: {type(entry)!r}")
-- 
2.43.0


From 5b49f4cceab728e1fc1c74cfe394bb221add5e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:23 +0000
Subject: [PATCH 39/89] fix: don't put the task id into the caller's extra
 dictionary of a log call

---
 asyncz/contrib/dashboard/logs/handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/logs/handler.py b/asyncz/contrib/dashboard/logs/handler.py
index 8173ec6..9ed8c89 100644
--- a/asyncz/contrib/dashboard/logs/handler.py
+++ b/asyncz/contrib/dashboard/logs/handler.py
@@ -92,7 +92,9 @@ class TaskLoggerAdapter(logging.LoggerAdapter):
         Returns:
             The original message and the modified kwargs dictionary.
         """
-        extra: dict[str, Any] = kwargs.setdefault("extra", {})
+        # The dictionary belongs to the caller, who may pass it to other loggers, too.
+        extra: dict[str, Any] = dict(kwargs.get("extra") or {})
+        kwargs["extra"] = extra
 
         # Inject the task_id from the adapter's context, but do not clobber an
         # existing, explicit task_id provided in the log call itself.
-- 
2.43.0


From 8c4613f025c1ae2b3871f2ffb772505fc6ac930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:13 +0000
Subject: [PATCH 40/89] fix: make the login page reachable when the dashboard
 is mounted at the root

---
 asyncz/contrib/dashboard/admin/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/core.py b/asyncz/contrib/dashboard/admin/core.py
index 3fc2e63..bc3f9ab 100644
--- a/asyncz/contrib/dashboard/admin/core.py
+++ b/asyncz/contrib/dashboard/admin/core.py
@@ -262,12 +262,12 @@ class AsynczAdmin:
         ]
 
         # 2. Build Top-Level Routes (Mounting everything under the final prefix)
-        routes: list[Path | Include] = [
-            Include(path=base_norm, routes=inner_routes, name="dashboard")
-        ]
+        routes: list[Path | Include] = []
         if self.enable_login:
-            # Add /login and /logout handlers if authentication is enabled at root level
+            # Add /login and /logout handlers if authentication is enabled at root level.
+            # They come first because a dashboard mounted at "/" matches every path.
             routes.extend(self.add_sign_in_pages())
+        routes.append(Include(path=base_norm, routes=inner_routes, name="dashboard"))
 
         # 3. Build Middleware Stack (Order is critical)
         middlewares: list[DefineMiddleware] = []
-- 
2.43.0


From c6e6193dbf144ae9dcac5f44faac9486f2c7552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:13 +0000
Subject: [PATCH 41/89] fix: quote the path in the next parameter of the login
 URL

---
 asyncz/contrib/dashboard/admin/middleware/auth_gate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
index 61303bd..9d325b6 100644
--- a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
+++ b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from collections.abc import Awaitable, Callable, Iterable
 from typing import Any
+from urllib.parse import quote
 
 from lilya.requests import Request
 from lilya.responses import PlainText, RedirectResponse, Response
@@ -89,8 +90,8 @@ class AuthGateMiddleware:
         # Build the final login URL under the mount prefix
         login_url: str = f"{mount_prefix}{self.login_path}"
 
-        # Determine the target URL after login
-        next_q: str = f"?next={path}"
+        # Determine the target URL after login (a URL, quoted as the value of a parameter)
+        next_q: str = f"?next={quote(quote(path))}"
 
         response: Response
         if request.headers.get("hx-request") == "true":
-- 
2.43.0


From 8b86505bebb63e393857b3eb17b4ae8bd9f0b7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:43 +0000
Subject: [PATCH 42/89] fix: redirect to paths of the dashboard site only after
 a login

---
 asyncz/contrib/dashboard/admin/backends.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/admin/backends.py b/asyncz/contrib/dashboard/admin/backends.py
index 00616d0..3f39eee 100644
--- a/asyncz/contrib/dashboard/admin/backends.py
+++ b/asyncz/contrib/dashboard/admin/backends.py
@@ -15,6 +15,18 @@ from asyncz.contrib.dashboard.mixins import default_context
 VerifyCallable = Callable[[str, str], User | None]
 
 
+def _is_local_path(url: str) -> bool:
+    """
+    Checks that a redirect target is a path of this site.
+
+    Browsers ignore control characters, treat backslashes like slashes, and take
+    everything after two leading slashes as another host.
+    """
+    if any(char < " " or char == "\x7f" for char in url):
+        return False
+    return url.startswith("/") and not url.replace("\\", "/").startswith("//")
+
+
 class SimpleUsernamePasswordBackend(AuthBackend):
     """
     A basic authentication backend that verifies credentials using a synchronous
@@ -104,7 +116,9 @@ class SimpleUsernamePasswordBackend(AuthBackend):
         }
 
         # Redirect to the requested 'next' URL or default to root
-        next: str = form.get("next") or reverse("dashboard:index")
+        next: str = form.get("next") or ""
+        if not _is_local_path(next):
+            next = reverse("dashboard:index")
         return RedirectResponse(next, status_code=303)
 
     async def logout(self, request: Request) -> Response:
-- 
2.43.0


From cf9187ae3ab9bc480366db580b44d870a8855e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:43 +0000
Subject: [PATCH 43/89] fix: respect the mount path in the redirects after
 login and logout

---
 asyncz/contrib/dashboard/admin/backends.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/backends.py b/asyncz/contrib/dashboard/admin/backends.py
index 3f39eee..90e5a94 100644
--- a/asyncz/contrib/dashboard/admin/backends.py
+++ b/asyncz/contrib/dashboard/admin/backends.py
@@ -15,6 +15,11 @@ from asyncz.contrib.dashboard.mixins import default_context
 VerifyCallable = Callable[[str, str], User | None]
 
 
+def _mount_prefix(request: Request) -> str:
+    """Return the path below which the application with the login pages is mounted."""
+    return (request.scope.get("root_path") or "").rstrip("/")
+
+
 def _is_local_path(url: str) -> bool:
     """
     Checks that a redirect target is a path of this site.
@@ -118,7 +123,7 @@ class SimpleUsernamePasswordBackend(AuthBackend):
         # Redirect to the requested 'next' URL or default to root
         next: str = form.get("next") or ""
         if not _is_local_path(next):
-            next = reverse("dashboard:index")
+            next = f"{_mount_prefix(request)}{reverse('dashboard:index')}"
         return RedirectResponse(next, status_code=303)
 
     async def logout(self, request: Request) -> Response:
@@ -133,4 +138,4 @@ class SimpleUsernamePasswordBackend(AuthBackend):
         """
         # Remove user data from the session
         request.session.pop(self.session_key, None)
-        return RedirectResponse(reverse("login"), status_code=303)
+        return RedirectResponse(f"{_mount_prefix(request)}{reverse('login')}", status_code=303)
-- 
2.43.0


From 95ef0a72a680d9d608e7cef38c2a8649e1eab63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:43 +0000
Subject: [PATCH 44/89] fix: keep the requested page after a failed login

---
 asyncz/contrib/dashboard/admin/backends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/admin/backends.py b/asyncz/contrib/dashboard/admin/backends.py
index 90e5a94..dcaca15 100644
--- a/asyncz/contrib/dashboard/admin/backends.py
+++ b/asyncz/contrib/dashboard/admin/backends.py
@@ -109,7 +109,7 @@ class SimpleUsernamePasswordBackend(AuthBackend):
 
         if not user:
             # Login failed: re-render form with error message
-            context.update({"error": "Invalid credentials"})
+            context.update({"error": "Invalid credentials", "next": form.get("next")})
             return templates.get_template_response(request, self.login_template, context)
 
         # Login successful: store user data in session
-- 
2.43.0


From fc80f94ff0e43f790950eeb897c36f1e17a668b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:43 +0000
Subject: [PATCH 45/89] fix: compare the names of security headers
 case-insensitively

---
 asyncz/contrib/dashboard/admin/middleware/security_headers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/admin/middleware/security_headers.py b/asyncz/contrib/dashboard/admin/middleware/security_headers.py
index 8605cb0..c8805cd 100644
--- a/asyncz/contrib/dashboard/admin/middleware/security_headers.py
+++ b/asyncz/contrib/dashboard/admin/middleware/security_headers.py
@@ -39,7 +39,7 @@ class SecurityHeadersMiddleware:
                 existing = {name.lower() for name, _value in message.get("headers", [])}
                 message_headers = list(message.get("headers", []))
                 for name, value in self.headers:
-                    if name not in existing:
+                    if name.lower() not in existing:
                         message_headers.append((name, value))
                 if scope.get("scheme") == "https" and b"strict-transport-security" not in existing:
                     message_headers.append(
-- 
2.43.0


From faa742251241a6dc79afdce910e05fd8dcd1d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:51 +0000
Subject: [PATCH 46/89] fix: normalize a URL prefix of several slashes to the
 root

---
 asyncz/contrib/dashboard/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/config.py b/asyncz/contrib/dashboard/config.py
index 998852e..c95b91e 100644
--- a/asyncz/contrib/dashboard/config.py
+++ b/asyncz/contrib/dashboard/config.py
@@ -102,7 +102,7 @@ def _normalize_prefix(value: str | None) -> str:
     v = value.strip()
     if not v.startswith("/"):
         v = "/" + v
-    return v if v == "/" else v.rstrip("/")
+    return v.rstrip("/") or "/"
 
 
 def _combine_prefixes(external_prefix: str, configured_prefix: str) -> str:
-- 
2.43.0


From a183f9170f83ae6bcfab2e0fe8ff107162840239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:51 +0000
Subject: [PATCH 47/89] fix: generate no URLs of other hosts for a forwarded
 prefix with several slashes

---
 .../admin/middleware/forward_root_path.py         | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py b/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py
index 7cf004c..b5cae78 100644
--- a/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py
+++ b/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py
@@ -58,14 +58,13 @@ class ForwardedPrefixMiddleware:
                 # Decode and strip the prefix value
                 p: str = prefix_bytes.decode("latin-1").strip()
 
-                if p and p != "/":
-                    # 1. Ensure leading slash (e.g., 'base' -> '/base')
-                    if not p.startswith("/"):
-                        p = "/" + p
-
-                    # 2. Strip trailing slash unless it's just '/'
-                    if p != "/":
-                        p = p.rstrip("/")
+                # 1. Strip leading and trailing slashes
+                p = p.strip("/")
+
+                if p:
+                    # 2. Ensure exactly one leading slash (e.g., 'base' -> '/base'):
+                    #    URLs starting with two slashes would point to another host
+                    p = "/" + p
 
                     # 3. Combine with any existing external root path
                     existing: str = scope.get("app_root_path") or scope.get("root_path") or ""
-- 
2.43.0


From 446f80103ba398a62d3184b29e5a32836a21f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 48/89] fix: respect the prefix of a proxy in the redirects of
 the login

---
 asyncz/contrib/dashboard/admin/backends.py        | 10 +++-------
 .../dashboard/admin/middleware/auth_gate.py       |  9 ++++++---
 asyncz/contrib/dashboard/config.py                | 15 +++++++++++++++
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/backends.py b/asyncz/contrib/dashboard/admin/backends.py
index dcaca15..faec1b3 100644
--- a/asyncz/contrib/dashboard/admin/backends.py
+++ b/asyncz/contrib/dashboard/admin/backends.py
@@ -9,17 +9,13 @@ from lilya.requests import Request
 from lilya.responses import RedirectResponse, Response
 
 from asyncz.contrib.dashboard.admin.protocols import AuthBackend, User
+from asyncz.contrib.dashboard.config import get_external_root_path
 from asyncz.contrib.dashboard.engine import templates
 from asyncz.contrib.dashboard.mixins import default_context
 
 VerifyCallable = Callable[[str, str], User | None]
 
 
-def _mount_prefix(request: Request) -> str:
-    """Return the path below which the application with the login pages is mounted."""
-    return (request.scope.get("root_path") or "").rstrip("/")
-
-
 def _is_local_path(url: str) -> bool:
     """
     Checks that a redirect target is a path of this site.
@@ -123,7 +119,7 @@ class SimpleUsernamePasswordBackend(AuthBackend):
         # Redirect to the requested 'next' URL or default to root
         next: str = form.get("next") or ""
         if not _is_local_path(next):
-            next = f"{_mount_prefix(request)}{reverse('dashboard:index')}"
+            next = f"{get_external_root_path(request.scope)}{reverse('dashboard:index')}"
         return RedirectResponse(next, status_code=303)
 
     async def logout(self, request: Request) -> Response:
@@ -138,4 +134,4 @@ class SimpleUsernamePasswordBackend(AuthBackend):
         """
         # Remove user data from the session
         request.session.pop(self.session_key, None)
-        return RedirectResponse(f"{_mount_prefix(request)}{reverse('login')}", status_code=303)
+        return RedirectResponse(f"{get_external_root_path(request.scope)}{reverse('login')}", status_code=303)
diff --git a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
index 9d325b6..3a432f5 100644
--- a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
+++ b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
@@ -8,6 +8,8 @@ from lilya.requests import Request
 from lilya.responses import PlainText, RedirectResponse, Response
 from lilya.types import ASGIApp, Receive, Scope, Send
 
+from asyncz.contrib.dashboard.config import get_external_root_path
+
 AuthenticateCallable = Callable[[Request], Awaitable[Any | None]]
 
 
@@ -87,11 +89,12 @@ class AuthGateMiddleware:
 
         # 4. Unauthenticated Response
 
-        # Build the final login URL under the mount prefix
-        login_url: str = f"{mount_prefix}{self.login_path}"
+        # Build the final login URL under the mount prefix, as seen by the client
+        root: str = get_external_root_path(scope)
+        login_url: str = f"{root}{self.login_path}"
 
         # Determine the target URL after login (a URL, quoted as the value of a parameter)
-        next_q: str = f"?next={quote(quote(path))}"
+        next_q: str = f"?next={quote(quote(root + child_path))}"
 
         response: Response
         if request.headers.get("hx-request") == "true":
diff --git a/asyncz/contrib/dashboard/config.py b/asyncz/contrib/dashboard/config.py
index c95b91e..0ccf90e 100644
--- a/asyncz/contrib/dashboard/config.py
+++ b/asyncz/contrib/dashboard/config.py
@@ -3,6 +3,7 @@ from dataclasses import dataclass
 from typing import Literal
 
 from lilya.requests import Request
+from lilya.types import Scope
 
 try:
     from lilya.middleware import DefineMiddleware
@@ -119,6 +120,20 @@ def _combine_prefixes(external_prefix: str, configured_prefix: str) -> str:
     return f"{external}{configured}"
 
 
+def get_external_root_path(scope: Scope) -> str:
+    """
+    Compute the path below which clients reach the application handling ``scope``.
+
+    It consists of the prefix stripped by a proxy (``app_root_path``) and the ASGI mount
+    (``root_path``), has no trailing slash and is empty for an application at the root.
+    """
+    external = _normalize_prefix(scope.get("app_root_path"))
+    mounted = _normalize_prefix(scope.get("root_path"))
+    if not mounted.startswith(f"{external}/"):
+        mounted = _combine_prefixes(external, mounted)
+    return "" if mounted == "/" else mounted
+
+
 def get_effective_prefix(request: Request | None = None) -> str:
     """Compute the effective base URL prefix for the dashboard.
 
-- 
2.43.0


From 6e1ed1cacfc1ee91d31957b18e3695ba35154271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:08 +0000
Subject: [PATCH 49/89] fix: allow a dashboard with the URL prefix /

---
 asyncz/contrib/dashboard/admin/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/admin/core.py b/asyncz/contrib/dashboard/admin/core.py
index bc3f9ab..a779efe 100644
--- a/asyncz/contrib/dashboard/admin/core.py
+++ b/asyncz/contrib/dashboard/admin/core.py
@@ -82,7 +82,7 @@ class AsynczAdmin:
 
         # Resolve defaults
         self.config = monkay.settings.dashboard_config
-        self.url_prefix: str = (url_prefix or self.config.dashboard_url_prefix).rstrip("/")
+        self.url_prefix: str = (url_prefix or self.config.dashboard_url_prefix).rstrip("/") or "/"
         self.scheduler: Any = scheduler or AsyncIOScheduler(stores={"default": {"type": "memory"}})
 
         assert self.url_prefix.startswith("/"), "The dashboard url prefix must start with /."
-- 
2.43.0


From e73e415d1799478b601a368dedaea4384382a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:14 +0000
Subject: [PATCH 50/89] fix: don't add a mount twice to the external root path
 of a forwarded prefix

---
 .../dashboard/admin/middleware/forward_root_path.py        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py b/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py
index b5cae78..865c398 100644
--- a/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py
+++ b/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py
@@ -67,7 +67,12 @@ class ForwardedPrefixMiddleware:
                     p = "/" + p
 
                     # 3. Combine with any existing external root path
-                    existing: str = scope.get("app_root_path") or scope.get("root_path") or ""
+                    #    (below a mount, root_path contains the mount itself)
+                    existing: str = (
+                        scope["app_root_path"]
+                        if "app_root_path" in scope
+                        else scope.get("root_path")
+                    ) or ""
 
                     # Ensure existing external prefix also has a leading slash
                     if existing and not existing.startswith("/"):
-- 
2.43.0


From ebbeb4f6e7f8c2047ee896694573b1bf52e50314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:51 +0000
Subject: [PATCH 51/89] fix: generate dashboard links below the path the
 dashboard is mounted at

---
 asyncz/contrib/dashboard/application.py | 15 +++++++++++++++
 asyncz/contrib/dashboard/config.py      |  9 ++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/application.py b/asyncz/contrib/dashboard/application.py
index 45e2bcb..7d384aa 100644
--- a/asyncz/contrib/dashboard/application.py
+++ b/asyncz/contrib/dashboard/application.py
@@ -1,10 +1,13 @@
 import logging
 from typing import Any
 
+from lilya.middleware import DefineMiddleware
 from lilya.routing import Include, RoutePath, Router
 from lilya.staticfiles import StaticFiles
+from lilya.types import ASGIApp, Receive, Scope, Send
 
 from asyncz.contrib.dashboard.audit import MemoryAuditTrailStorage, get_audit_storage
+from asyncz.contrib.dashboard.config import DASHBOARD_ROOT_PATH, get_external_root_path
 from asyncz.contrib.dashboard.controllers import home
 from asyncz.contrib.dashboard.controllers.audit import AuditPageController
 from asyncz.contrib.dashboard.controllers.events import EventsPageController
@@ -45,6 +48,17 @@ from asyncz.contrib.dashboard.logs.handler import install_task_log_handler
 from asyncz.contrib.dashboard.logs.storage import LogStorage
 
 
+class DashboardRootMiddleware:
+    """Record the path below which clients reach the pages of the dashboard."""
+
+    def __init__(self, app: ASGIApp) -> None:
+        self.app = app
+
+    async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
+        scope[DASHBOARD_ROOT_PATH] = get_external_root_path(scope)
+        await self.app(scope, receive, send)
+
+
 def create_dashboard_app(
     scheduler: Any,
     log_storage: LogStorage | None = None,
@@ -73,6 +87,7 @@ def create_dashboard_app(
     logging.getLogger("asyncz").propagate = True
 
     app = Router(
+        middleware=[DefineMiddleware(DashboardRootMiddleware)],
         routes=[
             Include(
                 path="/audit",
diff --git a/asyncz/contrib/dashboard/config.py b/asyncz/contrib/dashboard/config.py
index 0ccf90e..f53f637 100644
--- a/asyncz/contrib/dashboard/config.py
+++ b/asyncz/contrib/dashboard/config.py
@@ -16,6 +16,8 @@ except ImportError:
 
 from asyncz import monkay
 
+DASHBOARD_ROOT_PATH = "asyncz_dashboard_root_path"
+
 
 @dataclass
 class DashboardConfig:
@@ -140,7 +142,9 @@ def get_effective_prefix(request: Request | None = None) -> str:
     - If *request* is **None**, return the configured dashboard prefix exactly as before
       (leading '/', no trailing '/', except when it is '/'). This preserves
       backward compatibility with tests that called the old zero-arg function.
-    - If *request* is provided, combine ASGI mount ``root_path`` (if any) with the
+    - If *request* is provided and handled by the dashboard, return the path below which
+      clients reach the dashboard.
+    - If any other *request* is provided, combine ASGI mount ``root_path`` (if any) with the
       configured prefix, avoiding double-prefixing and double slashes.
     """
     configured_prefix = _normalize_prefix(
@@ -149,6 +153,9 @@ def get_effective_prefix(request: Request | None = None) -> str:
 
     if request is not None:
         scope = getattr(request, "scope", {}) or {}
+        if DASHBOARD_ROOT_PATH in scope:
+            return _normalize_prefix(scope[DASHBOARD_ROOT_PATH])
+
         external_prefix = _normalize_prefix(scope.get("app_root_path") or "/")
         if external_prefix != "/":
             return _combine_prefixes(external_prefix, configured_prefix)
-- 
2.43.0


From 2f92bd87daaf748261f9ab17831aa790db373be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:51 +0000
Subject: [PATCH 52/89] fix: don't generate links starting with two slashes for
 a dashboard at the root

---
 asyncz/contrib/dashboard/mixins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/mixins.py b/asyncz/contrib/dashboard/mixins.py
index c2bbfda..e816883 100644
--- a/asyncz/contrib/dashboard/mixins.py
+++ b/asyncz/contrib/dashboard/mixins.py
@@ -21,7 +21,8 @@ def default_context(request: Request) -> dict:
             "title": monkay.settings.dashboard_config.title,
             "header_text": monkay.settings.dashboard_config.header_title,
             "favicon": favicon,
-            "url_prefix": effective_prefix,
+            # templates append paths starting with a slash
+            "url_prefix": "" if effective_prefix == "/" else effective_prefix,
             "sidebar_bg_colour": "#f06824",
             "messages": get_messages(request),
         }
-- 
2.43.0


From f82a1b3d98ef1071cfb4ae0e158b3c46550af592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:06 +0000
Subject: [PATCH 53/89] fix: quote the mount path in the login URL of HTMX
 responses

---
 asyncz/contrib/dashboard/admin/middleware/auth_gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
index 3a432f5..dc1d8fa 100644
--- a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
+++ b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
@@ -91,7 +91,7 @@ class AuthGateMiddleware:
 
         # Build the final login URL under the mount prefix, as seen by the client
         root: str = get_external_root_path(scope)
-        login_url: str = f"{root}{self.login_path}"
+        login_url: str = f"{quote(root)}{self.login_path}"
 
         # Determine the target URL after login (a URL, quoted as the value of a parameter)
         next_q: str = f"?next={quote(quote(root + child_path))}"
-- 
2.43.0


From 65acdcbe66122e2dbf920b05a4f816db3cba3064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:39 +0000
Subject: [PATCH 54/89] fix: respect the prefix of a proxy in the logout link

---
 asyncz/contrib/dashboard/engine.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/asyncz/contrib/dashboard/engine.py b/asyncz/contrib/dashboard/engine.py
index a0171ed..5e27559 100644
--- a/asyncz/contrib/dashboard/engine.py
+++ b/asyncz/contrib/dashboard/engine.py
@@ -1,10 +1,8 @@
 from pathlib import Path
 from typing import Any
 
-from lilya.apps import Lilya
-from lilya.compat import reverse
 from lilya.requests import Request
-from lilya.routing import NoMatchFound, Router
+from lilya.routing import NoMatchFound
 from lilya.templating import Jinja2Template
 
 
@@ -24,14 +22,9 @@ def safe_url_for(request: Request, name: str, **params: Any) -> str | None:
     Returns:
         The generated absolute URL string, or `None` if the route name cannot be found.
     """
-    # Retrieve the router or application instance from the ASGI scope
-    scoped_app: Router | Lilya | Any | None = request.scope.get("router") or request.scope.get(
-        "app"
-    )
-
     try:
         # Attempt to reverse the URL using the current routing context
-        return reverse(name, app=scoped_app, **params)
+        return str(request.url_path_for(name, **params))
     except NoMatchFound:
         # Gracefully handle the case where the route name does not exist
         return None
-- 
2.43.0


From 691745e19796cfd7136754b45c566d2edac126bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:44 +0000
Subject: [PATCH 55/89] fix: send explicit None options of a remotely added
 task

---
 asyncz/contrib/dashboard/remote.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index ec53e29..6fbc1d3 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -855,14 +855,19 @@ class RemoteSchedulerClient:
         for key, value in {
             "id": id,
             "name": name,
+            "store": store,
+            "executor": executor,
+        }.items():
+            if value is not undefined and value is not None:
+                payload[key] = value
+        # None is a value of these options: e.g. a task without next run time is paused
+        for key, value in {
             "mistrigger_grace_time": mistrigger_grace_time,
             "coalesce": coalesce,
             "max_instances": max_instances,
             "next_run_time": next_run_time,
-            "store": store,
-            "executor": executor,
         }.items():
-            if value is not undefined and value is not None:
+            if value is not undefined:
                 payload[key] = value
         data = self._request("POST", "/tasks", payload)
         task = self._task_from_data(data)
-- 
2.43.0


From 374ca2a7a84d6659d4d9ff784b67f4a75d3104de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:25 +0000
Subject: [PATCH 56/89] fix: preview the runs of a remote task from the given
 time

---
 asyncz/contrib/dashboard/remote.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 6fbc1d3..9676c3d 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -402,12 +402,16 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
         if response := _require_token(request, token):
             return response
         task_id = request.path_params["task_id"]
-        count = int(request.query_params.get("count") or 5)
-        result = scheduler.preview_task_runs(
-            task_id,
-            request.query_params.get("store") or None,
-            count=count,
-        )
+        params = request.query_params
+        try:
+            result = scheduler.preview_task_runs(
+                task_id,
+                params.get("store") or None,
+                count=int(params.get("count") or 5),
+                now=datetime.fromisoformat(params["now"]) if params.get("now") else None,
+            )
+        except Exception as exc:
+            return _error(exc, status_code=400, task_id=task_id)
         if result is None:
             return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
         return _success(result)
-- 
2.43.0


From 86b3fe8ae228a92ef537a1b44d34b3b93513b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:25 +0000
Subject: [PATCH 57/89] fix: report broken responses and connections as
 RemoteSchedulerError

---
 asyncz/contrib/dashboard/remote.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 9676c3d..a51bebf 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -9,6 +9,7 @@ so dashboard reads and task actions travel over HTTP to the worker.
 from __future__ import annotations
 
 import base64
+import http.client
 import json
 import pickle
 import urllib.error
@@ -621,13 +622,21 @@ class RemoteSchedulerClient:
         request = urllib.request.Request(url, data=data, method=method, headers=headers)
         try:
             with urllib.request.urlopen(request, timeout=10) as response:
-                body = response.read().decode() or "{}"
-                return response.status, json.loads(body)
+                status, body = response.status, response.read()
         except urllib.error.HTTPError as exc:
-            body = exc.read().decode() or "{}"
-            return exc.code, json.loads(body)
-        except urllib.error.URLError as exc:
+            try:
+                return exc.code, json.loads(exc.read() or b"{}")
+            except (OSError, http.client.HTTPException, ValueError):
+                # e.g. the error page of a proxy
+                raise RemoteSchedulerError(f"Remote scheduler request failed: {exc}") from exc
+        except (OSError, http.client.HTTPException) as exc:
             raise RemoteSchedulerError(f"Remote scheduler request failed: {exc}") from exc
+        try:
+            return status, json.loads(body or b"{}")
+        except ValueError as exc:
+            raise RemoteSchedulerError(
+                f"The remote scheduler did not send valid JSON: {exc}"
+            ) from exc
 
     def _request(
         self,
@@ -649,6 +658,8 @@ class RemoteSchedulerClient:
             status_code, response = self.transport(method, path, payload, headers, query)
         else:
             status_code, response = self._urllib_request(method, path, payload, headers, query)
+        if not isinstance(response, dict):
+            raise RemoteSchedulerError("The remote scheduler did not send a JSON object.")
         if status_code < 400:
             return response.get("data")
         self._raise_remote_error(response)
-- 
2.43.0


From d7da273f6b2b75bdf1fa710f7391a33355e2c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:25 +0000
Subject: [PATCH 58/89] fix: reject malformed remote scheduler requests with a
 structured error

---
 asyncz/contrib/dashboard/remote.py | 64 +++++++++++++++---------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index a51bebf..54ee55e 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -287,10 +287,10 @@ async def _json_body(request: Request) -> dict[str, Any]:
     parameters.
     """
 
-    try:
-        body = await request.json()
-    except json.JSONDecodeError:
+    raw = await request.body()
+    if not raw:
         return {}
+    body = json.loads(raw)
     if body is None:
         return {}
     if not isinstance(body, dict):
@@ -427,32 +427,34 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        body = await _json_body(request)
-        trigger: Any
-        trigger_args = dict(body.get("trigger_args") or {})
-        if body.get("trigger_pickle"):
-            trigger = _decode_trigger(str(body["trigger_pickle"]))
-        else:
-            trigger = body.get("trigger")
-        kwargs = {
-            key: body[key]
-            for key in (
-                "id",
-                "name",
-                "args",
-                "kwargs",
-                "mistrigger_grace_time",
-                "coalesce",
-                "max_instances",
-                "next_run_time",
-                "store",
-                "executor",
-                "replace_existing",
-            )
-            if key in body
-        }
         try:
-            task = scheduler.add_task(body.get("fn"), trigger=trigger, **kwargs, **trigger_args)
+            body = await _json_body(request)
+            if not body.get("fn"):
+                raise ValueError("A remote task needs a callable reference.")
+            trigger: Any
+            trigger_args = dict(body.get("trigger_args") or {})
+            if body.get("trigger_pickle"):
+                trigger = _decode_trigger(str(body["trigger_pickle"]))
+            else:
+                trigger = body.get("trigger")
+            kwargs = {
+                key: body[key]
+                for key in (
+                    "id",
+                    "name",
+                    "args",
+                    "kwargs",
+                    "mistrigger_grace_time",
+                    "coalesce",
+                    "max_instances",
+                    "next_run_time",
+                    "store",
+                    "executor",
+                    "replace_existing",
+                )
+                if key in body
+            }
+            task = scheduler.add_task(body["fn"], trigger=trigger, **kwargs, **trigger_args)
         except Exception as exc:
             return _error(exc, status_code=400)
         return _success(task.snapshot())
@@ -468,8 +470,8 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
         if response := _require_token(request, token):
             return response
         task_id = request.path_params["task_id"]
-        body = await _json_body(request)
         try:
+            body = await _json_body(request)
             task = scheduler.update_task(
                 task_id, body.get("store"), **dict(body.get("updates") or {})
             )
@@ -491,9 +493,9 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
             return response
         task_id = request.path_params["task_id"]
         action = request.path_params["action"]
-        body = await _json_body(request)
-        store = body.get("store")
         try:
+            body = await _json_body(request)
+            store = body.get("store")
             if action == "run":
                 task = scheduler.run_task(
                     task_id,
-- 
2.43.0


From 0726aff19e68e05716fdec1f1c63b7b058786d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:25 +0000
Subject: [PATCH 59/89] fix: convert the payloads given to custom remote
 transports to JSON types

---
 asyncz/contrib/dashboard/remote.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 54ee55e..7d7126e 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -620,7 +620,7 @@ class RemoteSchedulerClient:
         url = f"{self.base_url}{path}"
         if query:
             url = f"{url}?{urllib.parse.urlencode(query)}"
-        data = None if payload is None else json.dumps(_dump_json(payload)).encode()
+        data = None if payload is None else json.dumps(payload).encode()
         request = urllib.request.Request(url, data=data, method=method, headers=headers)
         try:
             with urllib.request.urlopen(request, timeout=10) as response:
@@ -656,6 +656,8 @@ class RemoteSchedulerClient:
         """
 
         headers = self._headers()
+        if payload is not None:
+            payload = _dump_json(payload)
         if self.transport is not None:
             status_code, response = self.transport(method, path, payload, headers, query)
         else:
-- 
2.43.0


From 4faf5a5d796b678a62118c4fac83b937a0270aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:25 +0000
Subject: [PATCH 60/89] fix: address remote tasks whose ids contain slashes

---
 asyncz/contrib/dashboard/remote.py | 41 ++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 7d7126e..9dd084b 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -279,6 +279,25 @@ def _error(exc: Exception, *, status_code: int = 500, task_id: str | None = None
     return JSONResponse(payload, status_code=status_code)
 
 
+def _task_path(task_id: Any) -> str:
+    """
+    Return the path of a task resource.
+
+    The id is quoted twice because servers unquote the path before routing: an id
+    containing a slash has to stay one path segment.
+    """
+
+    return f"/tasks/{urllib.parse.quote(urllib.parse.quote(str(task_id), safe=''), safe='')}"
+
+
+def _path_task_id(request: Request) -> str:
+    """
+    Return the task id of a request whose path was built by `_task_path`.
+    """
+
+    return urllib.parse.unquote(request.path_params["task_id"])
+
+
 async def _json_body(request: Request) -> dict[str, Any]:
     """
     Read a JSON request body into a dictionary.
@@ -386,7 +405,7 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
+        task_id = _path_task_id(request)
         task = scheduler.get_task_info(task_id, request.query_params.get("store") or None)
         if task is None:
             return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
@@ -402,7 +421,7 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
+        task_id = _path_task_id(request)
         params = request.query_params
         try:
             result = scheduler.preview_task_runs(
@@ -469,7 +488,7 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
+        task_id = _path_task_id(request)
         try:
             body = await _json_body(request)
             task = scheduler.update_task(
@@ -491,7 +510,7 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
+        task_id = _path_task_id(request)
         action = request.path_params["action"]
         try:
             body = await _json_body(request)
@@ -769,7 +788,7 @@ class RemoteSchedulerClient:
         try:
             data = self._request(
                 "GET",
-                f"/tasks/{urllib.parse.quote(task_id, safe='')}",
+                _task_path(task_id),
                 query={"store": store} if store else None,
             )
         except TaskLookupError:
@@ -823,7 +842,7 @@ class RemoteSchedulerClient:
         try:
             data = self._request(
                 "GET",
-                f"/tasks/{urllib.parse.quote(task_id, safe='')}/preview",
+                f"{_task_path(task_id)}/preview",
                 query=query,
             )
         except TaskLookupError:
@@ -905,7 +924,7 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         data = self._request(
             "PATCH",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}",
+            _task_path(task_id),
             {"store": store, "updates": updates},
         )
         task = self._task_from_data(data)
@@ -931,7 +950,7 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         data = self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/run",
+            f"{_task_path(task_id)}/run",
             {"store": store, "force": force, "remove_finished": remove_finished},
         )
         return self._task_from_data(data)
@@ -947,7 +966,7 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         data = self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/pause",
+            f"{_task_path(task_id)}/pause",
             {"store": store},
         )
         task = self._task_from_data(data)
@@ -966,7 +985,7 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         data = self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/resume",
+            f"{_task_path(task_id)}/resume",
             {"store": store},
         )
         return self._task_from_data(data)
@@ -983,6 +1002,6 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/remove",
+            f"{_task_path(task_id)}/remove",
             {"store": store},
         )
-- 
2.43.0


From 7a7d2ecadde0833bb36dfc00454b030177265146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:02 +0000
Subject: [PATCH 61/89] fix: show remote tasks whose arguments JSON cannot
 express

---
 asyncz/contrib/dashboard/remote.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 9dd084b..1cd81f9 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -11,6 +11,7 @@ from __future__ import annotations
 import base64
 import http.client
 import json
+import math
 import pickle
 import urllib.error
 import urllib.parse
@@ -213,7 +214,11 @@ def _dump_json(value: Any) -> Any:
     """
 
     if hasattr(value, "model_dump"):
-        return value.model_dump(mode="json")
+        try:
+            return value.model_dump(mode="json")
+        except ValueError:
+            # e.g. a task of the worker whose arguments JSON cannot express
+            return _dump_json(_displayable(value.model_dump()))
     if isinstance(value, Enum):
         return value.value
     if isinstance(value, datetime):
@@ -225,6 +230,25 @@ def _dump_json(value: Any) -> Any:
     return value
 
 
+def _displayable(value: Any) -> Any:
+    """
+    Replace the values JSON cannot express by their representation.
+
+    Tasks of the worker may have arbitrary arguments, which the dashboard only
+    displays.
+    """
+
+    if value is None or isinstance(value, str | int | datetime | Enum):
+        return value
+    if isinstance(value, float) and math.isfinite(value):
+        return value
+    if isinstance(value, Mapping):
+        return {str(key): _displayable(item) for key, item in value.items()}
+    if isinstance(value, tuple | list | set | frozenset):
+        return [_displayable(item) for item in value]
+    return repr(value)
+
+
 def _encode_trigger(trigger: TriggerType) -> str:
     """
     Serialize a trigger object for a trusted remote control request.
-- 
2.43.0


From 7aae8d4e5942b64cbeae3dcea23fff6606857412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:53 +0000
Subject: [PATCH 62/89] fix: report answers of remote schedulers without data
 as errors

---
 asyncz/contrib/dashboard/remote.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 1cd81f9..9c10820 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -708,7 +708,9 @@ class RemoteSchedulerClient:
         if not isinstance(response, dict):
             raise RemoteSchedulerError("The remote scheduler did not send a JSON object.")
         if status_code < 400:
-            return response.get("data")
+            if "data" not in response:
+                raise RemoteSchedulerError("The remote scheduler did not send any data.")
+            return response["data"]
         self._raise_remote_error(response)
 
     def _raise_remote_error(self, response: dict[str, Any]) -> None:
-- 
2.43.0


From 8d6bd5c720ca8bcab2de7124641e4226ec7851dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:17 +0000
Subject: [PATCH 63/89] fix: address dashboard tasks whose ids need quoting

---
 .../contrib/dashboard/controllers/_helpers.py | 10 +++++++-
 asyncz/contrib/dashboard/controllers/tasks.py | 25 ++++++++++---------
 asyncz/contrib/dashboard/engine.py            | 12 +++++++++
 .../dashboard/templates/tasks/_table.html     | 14 +++++------
 .../dashboard/templates/tasks/detail.html     | 10 ++++----
 .../dashboard/templates/tasks/edit.html       |  4 +--
 6 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/_helpers.py b/asyncz/contrib/dashboard/controllers/_helpers.py
index 35e0a0c..19f0040 100644
--- a/asyncz/contrib/dashboard/controllers/_helpers.py
+++ b/asyncz/contrib/dashboard/controllers/_helpers.py
@@ -4,7 +4,7 @@ import json
 from collections.abc import Mapping
 from datetime import datetime
 from typing import TYPE_CHECKING, Any
-from urllib.parse import urlencode
+from urllib.parse import unquote, urlencode
 
 from lilya.requests import Request
 from lilya.responses import HTMLResponse
@@ -24,6 +24,14 @@ DEFAULT_TASK_PAGE_SIZE = 50
 MAX_TASK_PAGE_SIZE = 200
 
 
+def path_task_id(request: Request) -> str:
+    """
+    Return the task id of a request whose path was built with the `path_id` filter.
+    """
+
+    return unquote(request.path_params["task_id"])
+
+
 def serialize(task: Any, last_run: RunRecord | None = None) -> dict[str, Any]:
     """
     Convert a task or task snapshot into a dashboard-friendly dictionary.
diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index ba805fa..a75fd33 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -16,6 +16,7 @@ from asyncz.contrib.dashboard.controllers._helpers import (
     build_task_dashboard_context,
     parse_ids_from_request_form,
     parse_trigger_config,
+    path_task_id,
     render_table,
 )
 from asyncz.contrib.dashboard.controllers.logs import get_log_storage
@@ -261,7 +262,7 @@ class TaskRunController(_BaseTaskAction):
 
     async def post(self, request: Request) -> Any:
         """Trigger the specified task immediately through the scheduler API."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         try:
             self.scheduler.run_task(task_id, remove_finished=False)
             _audit_task_action("run", task_id, message=f"Triggered task {task_id} manually.")
@@ -278,7 +279,7 @@ class TaskPauseController(_BaseTaskAction):
 
     async def post(self, request: Request) -> Any:
         """Pause the specified task through the scheduler API."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         try:
             self.scheduler.pause_task(task_id)
             _audit_task_action("pause", task_id, message=f"Paused task {task_id}.")
@@ -292,7 +293,7 @@ class TaskResumeController(_BaseTaskAction):
 
     async def post(self, request: Request) -> Any:
         """Resume the specified task through the scheduler API."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         try:
             self.scheduler.resume_task(task_id)
             _audit_task_action("resume", task_id, message=f"Resumed task {task_id}.")
@@ -306,7 +307,7 @@ class TaskRemoveController(_BaseTaskAction):
 
     async def post(self, request: Request) -> Any:
         """Permanently removes the specified task from its store."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         try:
             self.scheduler.delete_task(task_id)
             _audit_task_action("remove", task_id, message=f"Removed task {task_id}.")
@@ -349,7 +350,7 @@ class TaskDetailController(DashboardMixin, Controller):
             page_header="Task Detail",
             active_page="tasks",
         )
-        task_id = request.path_params["task_id"]
+        task_id = path_task_id(request)
         preview = None
         recent_runs = []
         recent_logs = []
@@ -381,7 +382,7 @@ class TaskDetailController(DashboardMixin, Controller):
         )
 
     async def get(self, request: Request) -> HTMLResponse:
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         try:
             task, store_alias = self.scheduler.lookup_task(task_id, None)
         except TaskLookupError:
@@ -512,7 +513,7 @@ class TaskEditController(DashboardMixin, Controller):
 
     async def get(self, request: Request) -> HTMLResponse:
         """Render the task edit form with values from the live scheduler task."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         try:
             task, store_alias = self._lookup_task(task_id)
         except TaskLookupError:
@@ -521,7 +522,7 @@ class TaskEditController(DashboardMixin, Controller):
 
     async def post(self, request: Request) -> HTMLResponse:
         """Validate, preview, or apply task metadata updates."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         try:
             task, store_alias = self._lookup_task(task_id)
         except TaskLookupError:
@@ -703,7 +704,7 @@ class TaskHXRunController(DashboardMixin, Controller):
 
     async def post(self, request: Request) -> HTMLResponse:
         """Trigger the specified task immediately and return the refreshed table."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         try:
             self.scheduler.run_task(task_id, remove_finished=False)
             _audit_task_action("run", task_id, message=f"Triggered task {task_id} manually.")
@@ -725,7 +726,7 @@ class TaskHXPauseController(DashboardMixin, Controller):
 
     async def post(self, request: Request) -> HTMLResponse:
         """Pause the specified task and return the refreshed task table."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         try:
             self.scheduler.pause_task(task_id)
             _audit_task_action("pause", task_id, message=f"Paused task {task_id}.")
@@ -744,7 +745,7 @@ class TaskHXResumeController(DashboardMixin, Controller):
 
     async def post(self, request: Request) -> HTMLResponse:
         """Resume the specified task and return the refreshed task table."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
         try:
             self.scheduler.resume_task(task_id)
             _audit_task_action("resume", task_id, message=f"Resumed task {task_id}.")
@@ -763,7 +764,7 @@ class TaskHXRemoveController(DashboardMixin, Controller):
 
     async def post(self, request: Request) -> HTMLResponse:
         """Permanently removes the specified task and returns the updated task table."""
-        task_id: str = request.path_params["task_id"]
+        task_id: str = path_task_id(request)
 
         try:
             self.scheduler.delete_task(task_id)
diff --git a/asyncz/contrib/dashboard/engine.py b/asyncz/contrib/dashboard/engine.py
index 5e27559..86ee9ac 100644
--- a/asyncz/contrib/dashboard/engine.py
+++ b/asyncz/contrib/dashboard/engine.py
@@ -1,5 +1,6 @@
 from pathlib import Path
 from typing import Any
+from urllib.parse import quote
 
 from lilya.requests import Request
 from lilya.routing import NoMatchFound
@@ -30,6 +31,17 @@ def safe_url_for(request: Request, name: str, **params: Any) -> str | None:
         return None
 
 
+def path_id(value: Any) -> str:
+    """
+    Quotes an id as one segment of a path.
+
+    The id is quoted twice because servers unquote the path before routing: an id
+    containing a slash has to stay one segment.
+    """
+    return quote(quote(str(value), safe=""), safe="")
+
+
 templates = Jinja2Template(directory=str(Path(__file__).resolve().parent / "templates"))
 templates.env.globals["getattr"] = getattr
 templates.env.globals["safe_url_for"] = safe_url_for
+templates.env.filters["path_id"] = path_id
diff --git a/asyncz/contrib/dashboard/templates/tasks/_table.html b/asyncz/contrib/dashboard/templates/tasks/_table.html
index b414186..acf1435 100644
--- a/asyncz/contrib/dashboard/templates/tasks/_table.html
+++ b/asyncz/contrib/dashboard/templates/tasks/_table.html
@@ -106,7 +106,7 @@
 
             <td style="text-align: right">
               <div class="az-actions">
-                <form hx-post="{{ t.id }}/run{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
+                <form hx-post="{{ url_prefix }}/tasks/{{ t.id | path_id }}/run{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
                   <button class="az-icon-button az-action-button az-icon-button--primary" aria-label="Run {{ t.name or t.id }} now" title="Run now">
                     <svg viewBox="0 0 24 24" fill="none" stroke="currentColor" stroke-width="1.9" stroke-linecap="round" stroke-linejoin="round" aria-hidden="true">
                       <path d="M8 5v14l11-7z"/>
@@ -115,7 +115,7 @@
                   </button>
                 </form>
 
-                <a href="{{ url_prefix }}/tasks/{{ t.id }}"
+                <a href="{{ url_prefix }}/tasks/{{ t.id | path_id }}"
                    class="az-icon-button az-action-button"
                    aria-label="Open details for {{ t.name or t.id }}"
                    title="Details">
@@ -128,7 +128,7 @@
                 </a>
 
                 {% if t.state == "scheduled" %}
-                  <form hx-post="{{ t.id }}/pause{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
+                  <form hx-post="{{ url_prefix }}/tasks/{{ t.id | path_id }}/pause{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
                     <button class="az-icon-button az-action-button az-icon-button--warning" aria-label="Pause {{ t.name or t.id }}" title="Pause">
                       <svg viewBox="0 0 24 24" fill="none" stroke="currentColor" stroke-width="1.9" stroke-linecap="round" stroke-linejoin="round" aria-hidden="true">
                         <path d="M9 6v12"/>
@@ -138,7 +138,7 @@
                     </button>
                   </form>
                 {% else %}
-                  <form hx-post="{{ t.id }}/resume{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
+                  <form hx-post="{{ url_prefix }}/tasks/{{ t.id | path_id }}/resume{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
                     <button class="az-icon-button az-action-button az-icon-button--success" aria-label="Resume {{ t.name or t.id }}" title="Resume">
                       <svg viewBox="0 0 24 24" fill="none" stroke="currentColor" stroke-width="1.9" stroke-linecap="round" stroke-linejoin="round" aria-hidden="true">
                         <path d="M8 5v14l11-7z"/>
@@ -148,7 +148,7 @@
                   </form>
                 {% endif %}
 
-                <a href="{{ url_prefix }}/logs?task_id={{ t.id }}"
+                <a href="{{ url_prefix }}/logs?task_id={{ t.id | urlencode }}"
                    class="az-icon-button az-action-button"
                    aria-label="Open logs for {{ t.name or t.id }}"
                    title="Logs">
@@ -163,7 +163,7 @@
                   <span>Logs</span>
                 </a>
 
-                <a href="{{ url_prefix }}/tasks/{{ t.id }}/edit"
+                <a href="{{ url_prefix }}/tasks/{{ t.id | path_id }}/edit"
                    class="az-icon-button az-action-button"
                    aria-label="Edit {{ t.name or t.id }}"
                    title="Edit">
@@ -187,7 +187,7 @@
                   <span>Copy</span>
                 </button>
 
-                <form hx-post="{{ t.id }}/remove{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML"
+                <form hx-post="{{ url_prefix }}/tasks/{{ t.id | path_id }}/remove{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML"
                       data-confirm-label="{{ t.name or t.id }}"
                       x-on:submit="confirmRemove">
                   <button class="az-icon-button az-action-button az-icon-button--danger" aria-label="Remove {{ t.name or t.id }}" title="Remove">
diff --git a/asyncz/contrib/dashboard/templates/tasks/detail.html b/asyncz/contrib/dashboard/templates/tasks/detail.html
index 0944d22..dd4c0ca 100644
--- a/asyncz/contrib/dashboard/templates/tasks/detail.html
+++ b/asyncz/contrib/dashboard/templates/tasks/detail.html
@@ -19,9 +19,9 @@
           <div class="az-panel-meta az-mono">{{ task.id }}</div>
         </div>
         <div class="az-actions">
-          <a href="{{ url_prefix }}/tasks/{{ task.id }}/edit" class="az-button">Edit</a>
-          <a href="{{ url_prefix }}/history?task_id={{ task.id }}" class="az-button">History</a>
-          <a href="{{ url_prefix }}/logs?task_id={{ task.id }}" class="az-button az-button--primary">Logs</a>
+          <a href="{{ url_prefix }}/tasks/{{ task.id | path_id }}/edit" class="az-button">Edit</a>
+          <a href="{{ url_prefix }}/history?task_id={{ task.id | urlencode }}" class="az-button">History</a>
+          <a href="{{ url_prefix }}/logs?task_id={{ task.id | urlencode }}" class="az-button az-button--primary">Logs</a>
           <a href="{{ url_for('dashboard:tasks:index') }}" class="az-button">Back</a>
         </div>
       </div>
@@ -124,7 +124,7 @@
           <h2 class="az-panel-title">Recent Runs</h2>
           <div class="az-panel-meta">Latest run records for this task.</div>
         </div>
-        <a href="{{ url_prefix }}/history?task_id={{ task.id }}" class="az-button">Open History</a>
+        <a href="{{ url_prefix }}/history?task_id={{ task.id | urlencode }}" class="az-button">Open History</a>
       </div>
       <div class="az-table-wrap">
         <table class="az-table">
@@ -176,7 +176,7 @@
           <h2 class="az-panel-title">Recent Logs</h2>
           <div class="az-panel-meta">Latest captured log records for this task id.</div>
         </div>
-        <a href="{{ url_prefix }}/logs?task_id={{ task.id }}" class="az-button">Open Logs</a>
+        <a href="{{ url_prefix }}/logs?task_id={{ task.id | urlencode }}" class="az-button">Open Logs</a>
       </div>
       <div class="az-table-wrap">
         <table class="az-table">
diff --git a/asyncz/contrib/dashboard/templates/tasks/edit.html b/asyncz/contrib/dashboard/templates/tasks/edit.html
index a9335a8..bc88b2f 100644
--- a/asyncz/contrib/dashboard/templates/tasks/edit.html
+++ b/asyncz/contrib/dashboard/templates/tasks/edit.html
@@ -19,7 +19,7 @@
           <div class="az-panel-meta az-mono">{{ task.id }}</div>
         </div>
         <div class="az-actions">
-          <a href="{{ url_prefix }}/history?task_id={{ task.id }}" class="az-button">History</a>
+          <a href="{{ url_prefix }}/history?task_id={{ task.id | urlencode }}" class="az-button">History</a>
           <a href="{{ url_for('dashboard:tasks:index') }}" class="az-button">Back</a>
         </div>
       </div>
@@ -58,7 +58,7 @@
       </div>
     {% endif %}
 
-    <form method="post" action="{{ url_for('dashboard:tasks:edit', task_id=task.id) }}" class="az-panel" data-no-loading>
+    <form method="post" action="{{ url_prefix }}/tasks/{{ task.id | path_id }}/edit" class="az-panel" data-no-loading>
       <div class="az-panel-header">
         <div>
           <h2 class="az-panel-title">Task Metadata</h2>
-- 
2.43.0


From 5414c49ebd1dc3d330542a8759ab0905f34e59af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:26 +0000
Subject: [PATCH 64/89] fix: escape flash messages of partial dashboard
 responses

---
 asyncz/contrib/dashboard/controllers/_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/controllers/_helpers.py b/asyncz/contrib/dashboard/controllers/_helpers.py
index 19f0040..0b65e77 100644
--- a/asyncz/contrib/dashboard/controllers/_helpers.py
+++ b/asyncz/contrib/dashboard/controllers/_helpers.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import json
 from collections.abc import Mapping
 from datetime import datetime
+from html import escape
 from typing import TYPE_CHECKING, Any
 from urllib.parse import unquote, urlencode
 
@@ -235,7 +236,7 @@ def _render_messages_oob(request: Request, context: dict[str, Any]) -> str:
             else:
                 color = "blue"
                 icon = "info"
-            text = str(m.get("text", ""))
+            text = escape(str(m.get("text", "")))
             parts.append(
                 f"""
                   <div id="flash-{i}" class="relative flex items-start gap-3 p-4 bg-{color}-50
-- 
2.43.0


From 0ed1f159712f60992a0d89b31bc9423438b41814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:03 +0000
Subject: [PATCH 65/89] fix: report and audit dashboard actions that fail, and
 carry out the others

---
 asyncz/contrib/dashboard/controllers/tasks.py | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index a75fd33..2577152 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -217,6 +217,15 @@ def _audit_task_action(
     )
 
 
+def _report_failed_action(
+    request: Request, action: str, task_id: str | None, exc: Exception, **details: Any
+) -> None:
+    """Show and audit an action the scheduler could not carry out."""
+    message = str(exc) or type(exc).__name__
+    add_message(request, "error", message)
+    _audit_task_action(action, task_id, status="failed", message=message, details=details)
+
+
 class TasklistController(DashboardMixin, TemplateController):
     """
     Renders the main task management dashboard page, displaying a list of all scheduled tasks.
@@ -608,7 +617,8 @@ class TaskBulkPauseController(DashboardMixin, Controller):
                 _audit_task_action(
                     "pause", task_id, status="failed", message="Task was not found."
                 )
-                continue
+            except Exception as exc:
+                _report_failed_action(request, "pause", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -635,7 +645,8 @@ class TaskBulkRunController(DashboardMixin, Controller):
                 _audit_task_action("run", task_id, status="warning", message=str(exc))
             except TaskLookupError:
                 _audit_task_action("run", task_id, status="failed", message="Task was not found.")
-                continue
+            except Exception as exc:
+                _report_failed_action(request, "run", task_id, exc)
 
         # Return refreshed table fragment for HTMX swap
         context = await self.get_context_data(request)
@@ -664,7 +675,8 @@ class TaskBulkResumeController(DashboardMixin, Controller):
                 _audit_task_action(
                     "resume", task_id, status="failed", message="Task was not found."
                 )
-                continue
+            except Exception as exc:
+                _report_failed_action(request, "resume", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -690,7 +702,8 @@ class TaskBulkRemoveController(DashboardMixin, Controller):
                 _audit_task_action(
                     "remove", task_id, status="failed", message="Task was not found."
                 )
-                continue
+            except Exception as exc:
+                _report_failed_action(request, "remove", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -713,6 +726,8 @@ class TaskHXRunController(DashboardMixin, Controller):
             _audit_task_action("run", task_id, status="warning", message=str(exc))
         except TaskLookupError:
             _audit_task_action("run", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _report_failed_action(request, "run", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -732,6 +747,8 @@ class TaskHXPauseController(DashboardMixin, Controller):
             _audit_task_action("pause", task_id, message=f"Paused task {task_id}.")
         except TaskLookupError:
             _audit_task_action("pause", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _report_failed_action(request, "pause", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -751,6 +768,8 @@ class TaskHXResumeController(DashboardMixin, Controller):
             _audit_task_action("resume", task_id, message=f"Resumed task {task_id}.")
         except TaskLookupError:
             _audit_task_action("resume", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _report_failed_action(request, "resume", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -771,6 +790,8 @@ class TaskHXRemoveController(DashboardMixin, Controller):
             _audit_task_action("remove", task_id, message=f"Removed task {task_id}.")
         except TaskLookupError:
             _audit_task_action("remove", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _report_failed_action(request, "remove", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
-- 
2.43.0


From 338c387982387050ab2afca7555aaadb74f5dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:21 +0000
Subject: [PATCH 66/89] fix: report dashboard tasks that cannot be created

---
 asyncz/contrib/dashboard/controllers/tasks.py | 40 ++++++++-----------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index 2577152..62364e1 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -419,43 +419,37 @@ class TaskCreateController(DashboardMixin, Controller):
         trigger_type: str = (form.get("trigger_type") or "interval").strip()
         trigger_value: str = (form.get("trigger_value") or "10s").strip()
 
-        # Parse args/kwargs JSON
-        raw_args: str = (form.get("args") or "").strip()
-        raw_kwargs: str = (form.get("kwargs") or "").strip()
-        args: list[Any] = json.loads(raw_args) if raw_args else []
-        kwargs: dict[str, Any] = json.loads(raw_kwargs) if raw_kwargs else {}
-
-        # Import callable and parse trigger
+        # Parse args/kwargs JSON, import callable, parse trigger and add the task
         try:
+            args: list[Any] = _parse_json_list((form.get("args") or "").strip())
+            kwargs: dict[str, Any] = _parse_json_object((form.get("kwargs") or "").strip())
             func: Callable[..., Any] | str
             if getattr(self.scheduler, "is_remote", False):
                 func = callable_path
             else:
                 func = import_callable(callable_path)
             trigger_alias, trigger_args = parse_trigger_config(trigger_type, trigger_value)
+            task = self.scheduler.add_task(
+                func,
+                trigger=trigger_alias,
+                args=args,
+                kwargs=kwargs,
+                name=name,
+                store=store_alias,
+                **trigger_args,
+            )
         except Exception as e:
-            message = str(e)
-            add_message(request, "error", f"{message}")
-            _audit_task_action(
+            _report_failed_action(
+                request,
                 "create",
                 callable_path or None,
-                status="failed",
-                message=message,
-                details={"callable_path": callable_path, "trigger_type": trigger_type},
+                e,
+                callable_path=callable_path,
+                trigger_type=trigger_type,
             )
             context = await self.get_context_data(request)
             return await render_table(self.scheduler, request, context)
 
-        # Add task to the scheduler
-        task = self.scheduler.add_task(
-            func,
-            trigger=trigger_alias,
-            args=args,
-            kwargs=kwargs,
-            name=name,
-            store=store_alias,
-            **trigger_args,
-        )
         _audit_task_action(
             "create",
             task.id,
-- 
2.43.0


From 540b0b946ffac81e0e5cbc0f3f097057232af780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:55 +0000
Subject: [PATCH 67/89] fix: reject grace times the executors cannot represent

---
 asyncz/contrib/dashboard/remote.py | 4 +++-
 asyncz/tasks/base.py               | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 9c10820..1c0cd3b 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -33,6 +33,7 @@ from asyncz.exceptions import (
 )
 from asyncz.schedulers.inspection import SchedulerInfo, SchedulerInstanceInfo
 from asyncz.schedulers.types import SchedulerType
+from asyncz.tasks.base import MAX_GRACE_TIME
 from asyncz.tasks.inspection import TaskInfo, TaskRunPreview
 from asyncz.triggers.types import TriggerType
 from asyncz.typing import Undefined, undefined
@@ -158,7 +159,8 @@ class RemoteTask:
         if "mistrigger_grace_time" in updates:
             mistrigger_grace_time = updates.pop("mistrigger_grace_time")
             if mistrigger_grace_time is not None and (
-                not isinstance(mistrigger_grace_time, int | float) or mistrigger_grace_time <= 0
+                not isinstance(mistrigger_grace_time, int | float)
+                or not 0 < mistrigger_grace_time <= MAX_GRACE_TIME
             ):
                 raise TypeError(
                     "mistrigger_grace_time must be either None or a positive float/integer."
diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index d7cbfcb..da6a367 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -1,6 +1,6 @@
 import inspect
 from collections.abc import Callable, Collection, Iterable, Mapping, Sequence
-from datetime import datetime, tzinfo
+from datetime import datetime, timedelta, tzinfo
 from typing import Any, Optional, Union, cast
 from uuid import uuid4
 
@@ -21,6 +21,8 @@ from asyncz.utils import (
 )
 
 object_setattr = object.__setattr__
+# the executors compare with timedeltas, which cannot be longer
+MAX_GRACE_TIME = timedelta.max // timedelta(seconds=1)
 
 
 class Task(BaseState, TaskType):  # type: ignore
@@ -153,7 +155,8 @@ class Task(BaseState, TaskType):  # type: ignore
         if "mistrigger_grace_time" in updates:
             mistrigger_grace_time = updates.pop("mistrigger_grace_time")
             if mistrigger_grace_time is not None and (
-                not isinstance(mistrigger_grace_time, (float, int)) or mistrigger_grace_time <= 0
+                not isinstance(mistrigger_grace_time, (float, int))
+                or not 0 < mistrigger_grace_time <= MAX_GRACE_TIME
             ):
                 raise TypeError(
                     "mistrigger_grace_time must be either None or a positive float/integer."
-- 
2.43.0


From 9ca4e450bad4ef2debb1bad0357f9d9fafbd9cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:39 +0000
Subject: [PATCH 68/89] fix: show dashboard tasks whose arguments JSON cannot
 express

---
 asyncz/contrib/dashboard/controllers/tasks.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index 62364e1..b799c50 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import contextlib
 import json
-from collections.abc import Callable
+from collections.abc import Callable, Mapping
 from typing import Any
 
 from lilya.controllers import Controller
@@ -39,8 +39,21 @@ def _string_form_value(form: Any, key: str, default: str = "") -> str:
     return str(value)
 
 
+def _displayable(value: Any) -> Any:
+    """Replace the values JSON cannot express by their representation."""
+    try:
+        json.dumps(value, sort_keys=True)
+    except (TypeError, ValueError):
+        if isinstance(value, Mapping):
+            return {str(key): _displayable(item) for key, item in value.items()}
+        if isinstance(value, (list, tuple)):
+            return [_displayable(item) for item in value]
+        return repr(value)
+    return value
+
+
 def _json_text(value: Any) -> str:
-    return json.dumps(value, indent=2, sort_keys=True)
+    return json.dumps(_displayable(value), indent=2, sort_keys=True)
 
 
 def _task_update_snapshot(task: TaskType) -> dict[str, Any]:
-- 
2.43.0


From 6cfde432db8ce01b0ea8e89b4ee30ccbe29244d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:39 +0000
Subject: [PATCH 69/89] fix: keep task fields which were not edited on the edit
 page, and report updates that fail

---
 asyncz/contrib/dashboard/controllers/tasks.py | 135 ++++++++++++------
 1 file changed, 92 insertions(+), 43 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index b799c50..64c2e08 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -73,7 +73,7 @@ def _build_update_diff(before: dict[str, Any], after: dict[str, Any]) -> dict[st
     return {
         key: {"before": before.get(key), "after": after.get(key)}
         for key in before
-        if before.get(key) != after.get(key)
+        if _json_text(before.get(key)) != _json_text(after.get(key))
     }
 
 
@@ -141,6 +141,20 @@ def _parse_json_object(value: str) -> dict[str, Any]:
     return parsed
 
 
+def _is_edited_json(label: str, parsed: Any, current: Any) -> bool:
+    """
+    Tell whether a JSON field was edited.
+
+    The field shows values JSON cannot express by their representation, so these
+    cannot be combined with edits.
+    """
+    if _json_text(parsed) == _json_text(json.loads(_json_text(current))):
+        return False
+    if _displayable(current) is not current:
+        raise ValueError(f"{label} cannot be edited: JSON cannot express the current value.")
+    return True
+
+
 def _parse_positive_int(value: str) -> int:
     parsed = int(value)
     if parsed <= 0:
@@ -158,57 +172,80 @@ def _parse_mistrigger_grace_time(value: str) -> float | int | None:
 
 
 def _parse_task_edit_updates(form: Any, task: TaskType) -> tuple[dict[str, Any], list[str]]:
+    """
+    Return the updates of the fields which were edited and the errors of the form.
+
+    Fields submitted as they were shown are left alone: the form cannot express
+    every value a task may have.
+    """
     values = _task_edit_form_from_post(form)
+    edited = {
+        field
+        for field, shown in _task_edit_form_from_task(task).items()
+        if values[field] != (shown.strip() if isinstance(shown, str) else shown)
+    }
     updates: dict[str, Any] = {}
     errors: list[str] = []
 
-    name = str(values["name"]).strip()
-    if name:
-        updates["name"] = name
-    elif task.name and form.get("name") is not None:
-        errors.append("name cannot be blank.")
-
-    callable_path = str(values["callable_path"]).strip()
-    if callable_path:
-        updates["fn"] = callable_path
-    elif task.fn_reference:
-        errors.append("callable reference is required.")
+    if "name" in edited:
+        name = str(values["name"])
+        if name:
+            updates["name"] = name
+        elif form.get("name") is not None:
+            errors.append("name cannot be blank.")
+
+    if "callable_path" in edited:
+        callable_path = str(values["callable_path"])
+        if callable_path:
+            updates["fn"] = callable_path
+        else:
+            errors.append("callable reference is required.")
 
-    executor = str(values["executor"]).strip()
-    if executor:
-        updates["executor"] = executor
-    else:
-        errors.append("executor is required.")
+    if "executor" in edited:
+        executor = str(values["executor"])
+        if executor:
+            updates["executor"] = executor
+        else:
+            errors.append("executor is required.")
 
-    try:
-        updates["args"] = _parse_json_list(str(values["args"]))
-    except (TypeError, ValueError, json.JSONDecodeError) as exc:
-        errors.append(str(exc))
+    if "args" in edited:
+        try:
+            args = _parse_json_list(str(values["args"]))
+            if _is_edited_json("args", args, list(task.args)):
+                updates["args"] = args
+        except (TypeError, ValueError, RecursionError) as exc:
+            errors.append(str(exc))
 
-    try:
-        updates["kwargs"] = _parse_json_object(str(values["kwargs"]))
-    except (TypeError, ValueError, json.JSONDecodeError) as exc:
-        errors.append(str(exc))
+    if "kwargs" in edited:
+        try:
+            kwargs = _parse_json_object(str(values["kwargs"]))
+            if _is_edited_json("kwargs", kwargs, dict(task.kwargs)):
+                updates["kwargs"] = kwargs
+        except (TypeError, ValueError, RecursionError) as exc:
+            errors.append(str(exc))
 
-    try:
-        updates["coalesce"] = _parse_bool(str(values["coalesce"]))
-    except ValueError as exc:
-        errors.append(str(exc))
+    if "coalesce" in edited:
+        try:
+            updates["coalesce"] = _parse_bool(str(values["coalesce"]))
+        except ValueError as exc:
+            errors.append(str(exc))
 
-    try:
-        updates["max_instances"] = _parse_positive_int(str(values["max_instances"]))
-    except (TypeError, ValueError) as exc:
-        errors.append(str(exc))
+    if "max_instances" in edited:
+        try:
+            updates["max_instances"] = _parse_positive_int(str(values["max_instances"]))
+        except (TypeError, ValueError) as exc:
+            errors.append(str(exc))
 
-    try:
-        if values["clear_mistrigger_grace_time"]:
-            updates["mistrigger_grace_time"] = None
-        else:
-            updates["mistrigger_grace_time"] = _parse_mistrigger_grace_time(
-                str(values["mistrigger_grace_time"])
-            )
-    except (TypeError, ValueError) as exc:
-        errors.append(str(exc))
+    if edited & {"mistrigger_grace_time", "clear_mistrigger_grace_time"}:
+        try:
+            if values["clear_mistrigger_grace_time"]:
+                updates["mistrigger_grace_time"] = None
+            else:
+                updates["mistrigger_grace_time"] = _parse_mistrigger_grace_time(
+                    str(values["mistrigger_grace_time"])
+                )
+        except (TypeError, ValueError) as exc:
+            errors.append(str(exc))
 
     return updates, errors
 
@@ -588,7 +625,19 @@ class TaskEditController(DashboardMixin, Controller):
                 diff=diff,
             )
 
-        updated = self.scheduler.update_task(task_id, store_alias, **updates)
+        try:
+            updated = self.scheduler.update_task(task_id, store_alias, **updates)
+        except Exception as exc:
+            _audit_task_action("update", task_id, status="failed", message=str(exc))
+            return await self._render(
+                request,
+                task=task,
+                store_alias=store_alias,
+                form=form,
+                diff=diff,
+                errors=[str(exc) or type(exc).__name__],
+                status_code=400,
+            )
         _audit_task_action(
             "update",
             task_id,
-- 
2.43.0


From 2120be68d21b882cf00dc79024fad13a2b83cce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:17 +0000
Subject: [PATCH 70/89] fix: list the runs of tasks of every store in the
 timeline

---
 asyncz/contrib/dashboard/controllers/timeline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/controllers/timeline.py b/asyncz/contrib/dashboard/controllers/timeline.py
index dc79977..8b87b6b 100644
--- a/asyncz/contrib/dashboard/controllers/timeline.py
+++ b/asyncz/contrib/dashboard/controllers/timeline.py
@@ -42,7 +42,10 @@ def build_timeline_context(scheduler: AsyncIOScheduler, request: Request) -> dic
         if task_info.id is None:
             continue
 
-        preview = scheduler.preview_task_runs(task_info.id, count=filters["per_task"])
+        # the same id may be used in several stores
+        preview = scheduler.preview_task_runs(
+            task_info.id, task_info.store_alias, count=filters["per_task"]
+        )
         if preview is None:
             continue
         if preview.exhausted:
-- 
2.43.0


From be66d0a402dd7de047f600629df1486487c3b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:30 +0000
Subject: [PATCH 71/89] fix: ignore unsupported state and sort filters of the
 dashboard

---
 .../contrib/dashboard/controllers/_helpers.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/_helpers.py b/asyncz/contrib/dashboard/controllers/_helpers.py
index 0b65e77..d0fee88 100644
--- a/asyncz/contrib/dashboard/controllers/_helpers.py
+++ b/asyncz/contrib/dashboard/controllers/_helpers.py
@@ -12,6 +12,7 @@ from lilya.responses import HTMLResponse
 
 from asyncz.contrib.dashboard.engine import templates
 from asyncz.contrib.dashboard.history import RunRecord, get_run_history_storage
+from asyncz.enums import TaskScheduleState
 from asyncz.tasks.inspection import TaskInfo
 from asyncz.triggers.cron import CronTrigger
 from asyncz.triggers.date import DateTrigger
@@ -20,6 +21,16 @@ from asyncz.triggers.interval import IntervalTrigger
 if TYPE_CHECKING:
     from asyncz.schedulers import AsyncIOScheduler
 
+TASK_STATES = tuple(state.value for state in TaskScheduleState)
+TASK_SORT_OPTIONS = (
+    "id",
+    "name",
+    "next_run_time",
+    "schedule_state",
+    "executor",
+    "store",
+    "trigger",
+)
 TASK_PAGE_SIZE_OPTIONS = (25, 50, 100, 200)
 DEFAULT_TASK_PAGE_SIZE = 50
 MAX_TASK_PAGE_SIZE = 200
@@ -263,10 +274,14 @@ def parse_task_filters(request: Request) -> dict[str, Any]:
 
     params: Mapping[str, Any] = request.query_params
     q = (params.get("q") or "").strip() or None
-    state = (params.get("state") or "").strip().lower() or None
+    state: str | None = (params.get("state") or "").strip().lower()
+    if state not in TASK_STATES:
+        state = None
     executor = (params.get("executor") or "").strip() or None
     trigger = (params.get("trigger") or "").strip() or None
-    sort_by = (params.get("sort") or "next_run_time").strip() or "next_run_time"
+    sort_by = (params.get("sort") or "").strip()
+    if sort_by not in TASK_SORT_OPTIONS:
+        sort_by = "next_run_time"
     direction = (params.get("direction") or "asc").strip().lower() or "asc"
     descending = direction == "desc"
     page = _bounded_int(params.get("page"), default=1, minimum=1, maximum=10_000)
-- 
2.43.0


From c1efdcca80a79093ee341d6294dc0df3825613bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:35 +0000
Subject: [PATCH 72/89] fix: serve the dashboard pages below a proxy without
 trailing slash too

---
 asyncz/contrib/dashboard/application.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/asyncz/contrib/dashboard/application.py b/asyncz/contrib/dashboard/application.py
index 7d384aa..fbcdf96 100644
--- a/asyncz/contrib/dashboard/application.py
+++ b/asyncz/contrib/dashboard/application.py
@@ -48,6 +48,21 @@ from asyncz.contrib.dashboard.logs.handler import install_task_log_handler
 from asyncz.contrib.dashboard.logs.storage import LogStorage
 
 
+# The pages below which the others are found
+SECTIONS = frozenset(
+    (
+        "/audit",
+        "/runtime",
+        "/instances",
+        "/timeline",
+        "/history",
+        "/events",
+        "/logs",
+        "/tasks",
+    )
+)
+
+
 class DashboardRootMiddleware:
     """Record the path below which clients reach the pages of the dashboard."""
 
@@ -56,6 +71,12 @@ class DashboardRootMiddleware:
 
     async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
         scope[DASHBOARD_ROOT_PATH] = get_external_root_path(scope)
+        if (
+            scope["type"] == "http"
+            and scope["path"].removeprefix(scope.get("root_path", "")) in SECTIONS
+        ):
+            # redirecting to the path with a slash would lose the prefix stripped by a proxy
+            scope = {**scope, "path": scope["path"] + "/"}
         await self.app(scope, receive, send)
 
 
-- 
2.43.0


From 7c458ef3a7daeaafb531a118a68b27f89f8ed932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:53 +0000
Subject: [PATCH 73/89] fix: keep the dashboard page of a task with the id
 "create" reachable

---
 asyncz/contrib/dashboard/application.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asyncz/contrib/dashboard/application.py b/asyncz/contrib/dashboard/application.py
index fbcdf96..c9e559a 100644
--- a/asyncz/contrib/dashboard/application.py
+++ b/asyncz/contrib/dashboard/application.py
@@ -190,6 +190,8 @@ def create_dashboard_app(
                     RoutePath(
                         "/create",
                         TaskCreateController.with_init(scheduler=scheduler),
+                        # leave the page of a task named "create" reachable
+                        methods=["POST"],
                         name="create",
                     ),
                     RoutePath(
-- 
2.43.0


From e6f92641fd8ba44fcebb3a3b36c0a1ed08b9e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:21 +0000
Subject: [PATCH 74/89] fix: accept the documented store specifications in the
 CLI

---
 asyncz/cli/utils.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/asyncz/cli/utils.py b/asyncz/cli/utils.py
index 28b821c..12b93a5 100644
--- a/asyncz/cli/utils.py
+++ b/asyncz/cli/utils.py
@@ -5,6 +5,7 @@ from collections.abc import Callable
 from dataclasses import dataclass
 from pathlib import Path
 from typing import Any, cast
+from urllib.parse import urlsplit
 
 from asyncz.cli._parsers import parse_store_option
 
@@ -151,13 +152,19 @@ def parse_store(spec: str) -> tuple[str, dict[str, Any]]:
         return alias, {"type": "memory"}
 
     if value.startswith("file://"):
-        return alias, {"type": "file", "path": value.removeprefix("file://")}
+        return alias, {"type": "file", "directory": value.removeprefix("file://")}
 
     if value.startswith("redis://"):
-        return alias, {"type": "redis", "url": value}
+        from redis.connection import parse_url
+
+        options: dict[str, Any] = dict(parse_url(value))
+        return alias, {"type": "redis", "database": options.pop("db", 0), **options}
 
     if value.startswith("mongo://") or value.startswith("mongodb://"):
-        return alias, {"type": "mongodb", "url": value}
+        url: str = value.replace("mongo://", "mongodb://", 1)
+        cfg: dict[str, Any] = {"type": "mongodb", "host": url}
+        database: str = urlsplit(url).path.strip("/")
+        return alias, {**cfg, "database": database} if database else cfg
 
     # fallback to sqlalchemy for anything else that looks like a DB URL
     return alias, {"type": "sqlalchemy", "database": value}
@@ -219,6 +226,11 @@ def build_stores_map(specs: list[str]) -> dict[str, dict[str, Any]]:
 
     stores: dict[str, dict[str, Any]] = {}
     for i, spec in enumerate(specs):
+        if spec.partition("=")[2].strip():
+            alias, config = parse_store(spec)
+            stores[alias] = config
+            continue
+
         parsed: tuple[str | Any, ...] = parse_store_option(spec)
 
         if not isinstance(parsed, tuple):
@@ -237,7 +249,7 @@ def build_stores_map(specs: list[str]) -> dict[str, dict[str, Any]]:
             raise ValueError(f"Unexpected parse_store_option() result: {parsed!r}")
 
         # Determine the alias: use hint, or 'default' for the first store, or the plugin type
-        alias: str = alias_hint or ("default" if i == 0 else plugin)
+        alias = alias_hint or ("default" if i == 0 else plugin)
 
         stores[alias] = {"type": plugin, **kwargs}
 
-- 
2.43.0


From 7f1746b05693a4b979508c3c768511c8906e36be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 75/89] fix: leave due tasks to the schedulers of the
 application in CLI commands

---
 asyncz/cli/commands/add.py       | 10 ++++++++--
 asyncz/cli/commands/doctor.py    |  4 ++--
 asyncz/cli/commands/inspect.py   |  4 ++--
 asyncz/cli/commands/instances.py |  4 ++--
 asyncz/cli/commands/list.py      |  4 ++--
 asyncz/cli/commands/pause.py     |  4 ++--
 asyncz/cli/commands/preview.py   |  4 ++--
 asyncz/cli/commands/remove.py    |  4 ++--
 asyncz/cli/commands/resume.py    |  4 ++--
 asyncz/cli/commands/run.py       |  4 ++--
 asyncz/cli/commands/status.py    |  4 ++--
 asyncz/cli/commands/timeline.py  |  4 ++--
 asyncz/cli/commands/update.py    |  4 ++--
 asyncz/cli/utils.py              | 18 ++++++++++++++++++
 14 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index 20fee74..2ad9e90 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -10,7 +10,13 @@ from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.types import parse_trigger
-from asyncz.cli.utils import build_stores_map, ensure_loop, import_callable, maybe_await
+from asyncz.cli.utils import (
+    TemporaryScheduler,
+    build_stores_map,
+    ensure_loop,
+    import_callable,
+    maybe_await,
+)
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.triggers.base import BaseTrigger
 
@@ -87,7 +93,7 @@ def add(
             )
             cfg: dict[str, Any] = {"stores": stores_cfg}
             target_store_alias = next(iter(stores_cfg.keys()))
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = TemporaryScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         # 4) Resolve callable and add task
diff --git a/asyncz/cli/commands/doctor.py b/asyncz/cli/commands/doctor.py
index ce5f0a3..85d9d58 100644
--- a/asyncz/cli/commands/doctor.py
+++ b/asyncz/cli/commands/doctor.py
@@ -8,7 +8,7 @@ from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.commands.status import _serialize_scheduler_info
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInfo
 
@@ -134,7 +134,7 @@ def doctor(
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = TemporaryScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/inspect.py b/asyncz/cli/commands/inspect.py
index d9e4955..a1886c7 100644
--- a/asyncz/cli/commands/inspect.py
+++ b/asyncz/cli/commands/inspect.py
@@ -8,7 +8,7 @@ import click
 from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskInfo
 
@@ -69,7 +69,7 @@ def inspect_task(
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = TemporaryScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/instances.py b/asyncz/cli/commands/instances.py
index 94b8906..1bee65f 100644
--- a/asyncz/cli/commands/instances.py
+++ b/asyncz/cli/commands/instances.py
@@ -6,7 +6,7 @@ from typing import Annotated, Any
 from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInstanceInfo
 
@@ -66,7 +66,7 @@ def instances(
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = TemporaryScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/list.py b/asyncz/cli/commands/list.py
index 1a7cf38..3e41846 100644
--- a/asyncz/cli/commands/list.py
+++ b/asyncz/cli/commands/list.py
@@ -7,7 +7,7 @@ from typing import Annotated, Any
 from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.enums import TaskScheduleState
 from asyncz.schedulers import AsyncIOScheduler
 
@@ -86,7 +86,7 @@ def list_jobs(
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             cfg: dict[str, dict[str, dict[str, Any]]] = {"stores": stores_cfg}
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = TemporaryScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/pause.py b/asyncz/cli/commands/pause.py
index 59957b5..83e50ef 100644
--- a/asyncz/cli/commands/pause.py
+++ b/asyncz/cli/commands/pause.py
@@ -7,7 +7,7 @@ from typing import Annotated, Any
 from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -51,7 +51,7 @@ def pause(
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             cfg: dict[str, dict[str, Any]] = {"stores": stores_cfg}
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = TemporaryScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         # 2) Delegate to the scheduler API.
diff --git a/asyncz/cli/commands/preview.py b/asyncz/cli/commands/preview.py
index c7336f1..7bfb0d9 100644
--- a/asyncz/cli/commands/preview.py
+++ b/asyncz/cli/commands/preview.py
@@ -8,7 +8,7 @@ import click
 from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskRunPreview
 
@@ -70,7 +70,7 @@ def preview(
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = TemporaryScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/remove.py b/asyncz/cli/commands/remove.py
index 699d965..3f3bf00 100644
--- a/asyncz/cli/commands/remove.py
+++ b/asyncz/cli/commands/remove.py
@@ -7,7 +7,7 @@ from typing import Annotated, Any
 from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -50,7 +50,7 @@ def remove(
                 await maybe_await(scheduler.start())
         else:
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = TemporaryScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         # 2) Determine the store alias that holds the job (so delete works across multi-store setups)
diff --git a/asyncz/cli/commands/resume.py b/asyncz/cli/commands/resume.py
index 931fef0..25e3af9 100644
--- a/asyncz/cli/commands/resume.py
+++ b/asyncz/cli/commands/resume.py
@@ -7,7 +7,7 @@ from typing import Annotated, Any
 from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -50,7 +50,7 @@ def resume(
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             cfg: dict[str, dict[str, Any]] = {"stores": stores_cfg}
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = TemporaryScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         # 2) Delegate to the scheduler API and mirror the resulting state in the message.
diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index 5b1a8f7..5e58731 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -7,7 +7,7 @@ from typing import Annotated, Any
 from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -50,7 +50,7 @@ def run(
         else:
             # 1. Build configuration and initialize a temporary scheduler
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = TemporaryScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         # 2. Delegate the "run now" flow to the scheduler itself.
diff --git a/asyncz/cli/commands/status.py b/asyncz/cli/commands/status.py
index 37a3ac2..25a458c 100644
--- a/asyncz/cli/commands/status.py
+++ b/asyncz/cli/commands/status.py
@@ -6,7 +6,7 @@ from typing import Annotated, Any
 from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInfo
 
@@ -65,7 +65,7 @@ def status(
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = TemporaryScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index 435d3cc..144e9bd 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -8,7 +8,7 @@ from typing import Annotated, Any
 from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskInfo
 
@@ -109,7 +109,7 @@ def timeline(
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = TemporaryScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/update.py b/asyncz/cli/commands/update.py
index e52c8ea..5951e89 100644
--- a/asyncz/cli/commands/update.py
+++ b/asyncz/cli/commands/update.py
@@ -8,7 +8,7 @@ import click
 from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.types import TaskType
 
@@ -138,7 +138,7 @@ def update(
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = TemporaryScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/utils.py b/asyncz/cli/utils.py
index 12b93a5..053fc47 100644
--- a/asyncz/cli/utils.py
+++ b/asyncz/cli/utils.py
@@ -6,8 +6,26 @@ from dataclasses import dataclass
 from pathlib import Path
 from typing import Any, cast
 from urllib.parse import urlsplit
+from uuid import uuid4
 
 from asyncz.cli._parsers import parse_store_option
+from asyncz.schedulers import AsyncIOScheduler
+
+
+class TemporaryScheduler(AsyncIOScheduler):
+    """
+    The scheduler of a single CLI command.
+
+    It gives access to the tasks of its stores, but leaves running those which are due to the
+    schedulers of the application.
+    """
+
+    def _setup(self, config: Any) -> None:
+        config.setdefault("identity", f"{AsyncIOScheduler.__name__}-{uuid4().hex[:12]}")
+        super()._setup(config)
+
+    def wakeup(self) -> None:
+        """Do not process due tasks."""
 
 
 async def maybe_await(value: Any) -> Any:
-- 
2.43.0


From 606435869814555a695dddd4ce434dc5c4ca93ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:44 +0000
Subject: [PATCH 76/89] fix: load the jobs of modules and configuration files
 in the CLI

---
 asyncz/cli/loader.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/asyncz/cli/loader.py b/asyncz/cli/loader.py
index e5f18fa..77d35fb 100644
--- a/asyncz/cli/loader.py
+++ b/asyncz/cli/loader.py
@@ -6,7 +6,6 @@ from pathlib import Path
 from typing import Any
 
 from asyncz.schedulers import AsyncIOScheduler
-from asyncz.tasks import Task
 
 
 async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -> int:
@@ -21,12 +20,12 @@ async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -
 
     added = 0
     for item in entries:  # type: ignore
-        task = Task(func=item["func"], name=item.get("name"))
         scheduler.add_task(
-            task,
+            item["func"],
             trigger=item["trigger"],
             args=item.get("args", []),
             kwargs=item.get("kwargs", {}),
+            name=item.get("name"),
         )
         added += 1
     return added
@@ -57,9 +56,12 @@ async def load_jobs_from_config(scheduler: AsyncIOScheduler, path: str) -> int:
     added = 0
     for job in data.get("jobs", []):
         trig = parse_trigger(cron=job.get("cron"), interval=job.get("interval"), at=job.get("at"))
-        task = Task(func=job["func"], name=job.get("name"))
         scheduler.add_task(
-            task, trigger=trig, args=job.get("args", []), kwargs=job.get("kwargs", {})
+            job["func"],
+            trigger=trig,
+            args=job.get("args", []),
+            kwargs=job.get("kwargs", {}),
+            name=job.get("name"),
         )
         added += 1
     return added
-- 
2.43.0


From 93d270d6728a4b02397a1132bcb57674ff022cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:44 +0000
Subject: [PATCH 77/89] fix: let runs started by the CLI finish

---
 asyncz/cli/commands/run.py |  9 ++++++++-
 asyncz/cli/utils.py        | 18 ++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index 5e58731..b6ffe5b 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -7,7 +7,13 @@ from typing import Annotated, Any
 from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import TemporaryScheduler, build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import (
+    TemporaryScheduler,
+    build_stores_map,
+    ensure_loop,
+    maybe_await,
+    wait_for_runs,
+)
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -55,6 +61,7 @@ def run(
 
         # 2. Delegate the "run now" flow to the scheduler itself.
         await maybe_await(scheduler.run_task(job_id))
+        await wait_for_runs(scheduler)
         info(f"Triggered job {job_id}")
 
         # 3. Shutdown the temporary scheduler
diff --git a/asyncz/cli/utils.py b/asyncz/cli/utils.py
index 053fc47..15622e5 100644
--- a/asyncz/cli/utils.py
+++ b/asyncz/cli/utils.py
@@ -56,6 +56,24 @@ async def _call_hook(path: str | None) -> None:
     await maybe_await(maybe_coro)
 
 
+async def wait_for_runs(scheduler: AsyncIOScheduler) -> None:
+    """
+    Waits for the runs in the event loop, which would be cancelled when the command ends.
+
+    Args:
+        scheduler: The scheduler which submitted the runs.
+    """
+    loop = asyncio.get_running_loop()
+    runs = {
+        run
+        for executor in scheduler.executors.values()
+        for run in getattr(executor, "pending_futures", ())
+        if run.get_loop() is loop
+    }
+    if runs:
+        await asyncio.wait(runs)
+
+
 def ensure_loop() -> asyncio.AbstractEventLoop:
     """
     Retrieves the currently running event loop. If no loop is running in the current
-- 
2.43.0


From cce73d13342928b4a911ad8d6f21135a67db17bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:07 +0000
Subject: [PATCH 78/89] fix: preview the tasks of their own store in the CLI
 timeline

---
 asyncz/cli/commands/timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index 144e9bd..806a5bd 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -47,7 +47,7 @@ def _timeline_payload(
         if task.id is None:
             continue
 
-        preview = scheduler.preview_task_runs(task.id, count=per_task)
+        preview = scheduler.preview_task_runs(task.id, task.store_alias, count=per_task)
         if preview is None:
             continue
         if preview.exhausted:
-- 
2.43.0


From cd3565abf7efabfe9ff73d103afaf9ec3ce3029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:41 +0000
Subject: [PATCH 79/89] fix: accept run dates without time zone in the CLI

---
 asyncz/cli/commands/add.py |  7 ++++++-
 asyncz/cli/loader.py       |  7 ++++++-
 asyncz/cli/types.py        | 12 ++++++++++--
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index 2ad9e90..a0dce51 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -58,7 +58,12 @@ def add(
         """The core asynchronous logic for submitting the job."""
 
         # 1) Parse trigger (mutually exclusive)
-        t: BaseTrigger = parse_trigger(cron=cron, interval=interval, at=at)
+        t: BaseTrigger = parse_trigger(
+            cron=cron,
+            interval=interval,
+            at=at,
+            timezone=load_bootstrap_scheduler(bootstrap).timezone if bootstrap else None,
+        )
 
         # 2) Parse JSON args/kwargs
         pos: list[Any] = json.loads(args) if args else []
diff --git a/asyncz/cli/loader.py b/asyncz/cli/loader.py
index 77d35fb..708f90f 100644
--- a/asyncz/cli/loader.py
+++ b/asyncz/cli/loader.py
@@ -55,7 +55,12 @@ async def load_jobs_from_config(scheduler: AsyncIOScheduler, path: str) -> int:
 
     added = 0
     for job in data.get("jobs", []):
-        trig = parse_trigger(cron=job.get("cron"), interval=job.get("interval"), at=job.get("at"))
+        trig = parse_trigger(
+            cron=job.get("cron"),
+            interval=job.get("interval"),
+            at=job.get("at"),
+            timezone=scheduler.timezone,
+        )
         scheduler.add_task(
             job["func"],
             trigger=trig,
diff --git a/asyncz/cli/types.py b/asyncz/cli/types.py
index d69e152..fb7e034 100644
--- a/asyncz/cli/types.py
+++ b/asyncz/cli/types.py
@@ -6,6 +6,7 @@ from typing import Literal
 
 from asyncz.triggers.base import BaseTrigger
 from asyncz.triggers.cron import CronTrigger
+from asyncz.utils import to_timezone_with_fallback
 
 
 def parse_interval(text: str) -> float:
@@ -40,7 +41,13 @@ def parse_interval(text: str) -> float:
     return float(value * mult[unit])
 
 
-def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) -> BaseTrigger:
+def parse_trigger(
+    *,
+    cron: str | None,
+    interval: str | None,
+    at: str | None,
+    timezone: dt.tzinfo | None = None,
+) -> BaseTrigger:
     """
     Parses mutually exclusive job scheduling arguments into the appropriate Asyncz trigger object.
 
@@ -50,6 +57,7 @@ def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) ->
         cron: A cron expression string (e.g., '0 0 * * *').
         interval: A human-readable duration string (e.g., '10m', '2h').
         at: An ISO 8601 formatted datetime string indicating a single run time.
+        timezone: The time zone of `at` if it has none, defaults to the local one.
 
     Returns:
         An instantiated subclass of `BaseTrigger` (CronTrigger, IntervalTrigger, or DateTrigger).
@@ -75,4 +83,4 @@ def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) ->
     when: dt.datetime = dt.datetime.fromisoformat(at)  # type: ignore[arg-type]
     from asyncz.triggers.date import DateTrigger
 
-    return DateTrigger(run_at=when)
+    return DateTrigger(run_at=when, timezone=to_timezone_with_fallback(timezone))
-- 
2.43.0


From 4e5bead29fd41f600a82946e44c72b121a0cd51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:57 +0000
Subject: [PATCH 80/89] fix: accept the dates of YAML files in the CLI

---
 asyncz/cli/types.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/asyncz/cli/types.py b/asyncz/cli/types.py
index fb7e034..eee6b57 100644
--- a/asyncz/cli/types.py
+++ b/asyncz/cli/types.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import datetime as dt
 import re
-from typing import Literal
+from typing import Any, Literal
 
 from asyncz.triggers.base import BaseTrigger
 from asyncz.triggers.cron import CronTrigger
@@ -45,7 +45,7 @@ def parse_trigger(
     *,
     cron: str | None,
     interval: str | None,
-    at: str | None,
+    at: str | dt.date | None,
     timezone: dt.tzinfo | None = None,
 ) -> BaseTrigger:
     """
@@ -80,7 +80,8 @@ def parse_trigger(
         return IntervalTrigger(seconds=int(seconds))
 
     # DateTrigger
-    when: dt.datetime = dt.datetime.fromisoformat(at)  # type: ignore[arg-type]
+    # YAML files have dates of their own
+    when: Any = dt.datetime.fromisoformat(at) if isinstance(at, str) else at
     from asyncz.triggers.date import DateTrigger
 
     return DateTrigger(run_at=when, timezone=to_timezone_with_fallback(timezone))
-- 
2.43.0


From 0c99bb958a7a57037d77f4342f86e9cbb2e98fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:13 +0000
Subject: [PATCH 81/89] fix: start intervals in the time zone of the scheduler

---
 asyncz/triggers/interval.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index cca6334..73e1945 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -1,4 +1,5 @@
 from datetime import datetime, timedelta, tzinfo
+from datetime import timezone as dttz
 from math import ceil
 from typing import Any, ClassVar, Optional, Union
 
@@ -58,7 +59,8 @@ class IntervalTrigger(BaseTrigger):
         else:
             self.timezone = None
 
-        start_at = start_at or (datetime.now(self.timezone) + self.interval)
+        # without time zone the time zone of the scheduler is used, which isn't known yet
+        start_at = start_at or (datetime.now(self.timezone or dttz.utc) + self.interval)
         self.start_at = to_datetime(start_at, self.timezone, "start_at", require_tz=False)
         self.end_at = to_datetime(end_at, self.timezone, "end_at", require_tz=False)
 
@@ -77,6 +79,8 @@ class IntervalTrigger(BaseTrigger):
             if self.start_at and self.start_at.tzinfo is None
             else self.start_at
         )
+        if start_at and self.timezone is None:
+            start_at = start_at.astimezone(timezone)
         if previous_time:
             next_trigger_time = previous_time + self.interval
         elif start_at > now:
-- 
2.43.0


From c69e566c64d8b157eadd233d154618384cfa54b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:22 +0000
Subject: [PATCH 82/89] fix: stop the scheduler when the CLI is interrupted

---
 asyncz/cli/commands/start.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asyncz/cli/commands/start.py b/asyncz/cli/commands/start.py
index 492743f..d36de84 100644
--- a/asyncz/cli/commands/start.py
+++ b/asyncz/cli/commands/start.py
@@ -155,4 +155,11 @@ def start(
             await maybe_await(_call_hook(on_stop))
             await maybe_await(scheduler.shutdown(wait=True))
 
-    loop.run_until_complete(run_forever())
+    runner: asyncio.Task[None] = loop.create_task(run_forever())
+    try:
+        loop.run_until_complete(runner)
+    except KeyboardInterrupt:
+        # the interrupt stops the event loop only, stop also the scheduler
+        runner.cancel()
+        with contextlib.suppress(asyncio.CancelledError):
+            loop.run_until_complete(runner)
-- 
2.43.0


From 499bfc53e861dceef56eb659b8be785c48392ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:14 +0000
Subject: [PATCH 83/89] fix: leave due tasks to the application in CLI commands
 with bootstrap

---
 asyncz/cli/commands/add.py      | 3 ++-
 asyncz/cli/commands/inspect.py  | 3 ++-
 asyncz/cli/commands/list.py     | 3 ++-
 asyncz/cli/commands/pause.py    | 3 ++-
 asyncz/cli/commands/preview.py  | 3 ++-
 asyncz/cli/commands/remove.py   | 3 ++-
 asyncz/cli/commands/resume.py   | 3 ++-
 asyncz/cli/commands/run.py      | 3 ++-
 asyncz/cli/commands/timeline.py | 3 ++-
 asyncz/cli/commands/update.py   | 3 ++-
 10 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index a0dce51..99c7e51 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -77,7 +77,8 @@ def add(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                # running due tasks is left to the application
+                await maybe_await(scheduler.start(paused=True))
 
             # Determine a target store alias from the framework scheduler (best effort)
             target_store_alias: str | None = None
diff --git a/asyncz/cli/commands/inspect.py b/asyncz/cli/commands/inspect.py
index a1886c7..0f94f25 100644
--- a/asyncz/cli/commands/inspect.py
+++ b/asyncz/cli/commands/inspect.py
@@ -64,7 +64,8 @@ def inspect_task(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                # running due tasks is left to the application
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
diff --git a/asyncz/cli/commands/list.py b/asyncz/cli/commands/list.py
index 3e41846..c07663f 100644
--- a/asyncz/cli/commands/list.py
+++ b/asyncz/cli/commands/list.py
@@ -78,7 +78,8 @@ def list_jobs(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                # running due tasks is left to the application
+                await maybe_await(scheduler.start(paused=True))
 
         else:
             # Default to an in-memory store if none provided to make the command useful out of the box
diff --git a/asyncz/cli/commands/pause.py b/asyncz/cli/commands/pause.py
index 83e50ef..3e27add 100644
--- a/asyncz/cli/commands/pause.py
+++ b/asyncz/cli/commands/pause.py
@@ -44,7 +44,8 @@ def pause(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                # running due tasks is left to the application
+                await maybe_await(scheduler.start(paused=True))
 
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
diff --git a/asyncz/cli/commands/preview.py b/asyncz/cli/commands/preview.py
index 7bfb0d9..673d7c3 100644
--- a/asyncz/cli/commands/preview.py
+++ b/asyncz/cli/commands/preview.py
@@ -65,7 +65,8 @@ def preview(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                # running due tasks is left to the application
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
diff --git a/asyncz/cli/commands/remove.py b/asyncz/cli/commands/remove.py
index 3f3bf00..583b0cc 100644
--- a/asyncz/cli/commands/remove.py
+++ b/asyncz/cli/commands/remove.py
@@ -47,7 +47,8 @@ def remove(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                # running due tasks is left to the application
+                await maybe_await(scheduler.start(paused=True))
         else:
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
             scheduler = TemporaryScheduler(**cfg)
diff --git a/asyncz/cli/commands/resume.py b/asyncz/cli/commands/resume.py
index 25e3af9..c8fa896 100644
--- a/asyncz/cli/commands/resume.py
+++ b/asyncz/cli/commands/resume.py
@@ -44,7 +44,8 @@ def resume(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                # running due tasks is left to the application
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index b6ffe5b..7e882cd 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -52,7 +52,8 @@ def run(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             # Try starting the scheduler if not already running
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                # running due tasks is left to the application
+                await maybe_await(scheduler.start(paused=True))
         else:
             # 1. Build configuration and initialize a temporary scheduler
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index 806a5bd..d5e32e1 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -104,7 +104,8 @@ def timeline(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                # running due tasks is left to the application
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
diff --git a/asyncz/cli/commands/update.py b/asyncz/cli/commands/update.py
index 5951e89..2abdc68 100644
--- a/asyncz/cli/commands/update.py
+++ b/asyncz/cli/commands/update.py
@@ -133,7 +133,8 @@ def update(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                # running due tasks is left to the application
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
-- 
2.43.0


From b33d8ca4f1bba69c4995a60f144db67aaeae6464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:33 +0000
Subject: [PATCH 84/89] fix: let intervals elapse while the clocks are changed

---
 asyncz/triggers/base.py     |  7 ++++++-
 asyncz/triggers/interval.py | 10 ++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/asyncz/triggers/base.py b/asyncz/triggers/base.py
index 278db54..7b6855f 100644
--- a/asyncz/triggers/base.py
+++ b/asyncz/triggers/base.py
@@ -1,5 +1,6 @@
 import random
 from datetime import datetime, timedelta
+from datetime import timezone as dttz
 from typing import Any, Optional, Union, overload
 
 from asyncz.datastructures import CombinationState
@@ -36,7 +37,11 @@ class BaseTrigger(BaseStateExtra, TriggerType):
         """
         if next_trigger_time is None or not jitter:
             return next_trigger_time
-        return next_trigger_time + timedelta(seconds=random.uniform(0, jitter))
+        # in utc, adding to a local time goes wrong when dst changes
+        delayed = next_trigger_time.astimezone(dttz.utc) + timedelta(
+            seconds=random.uniform(0, jitter)
+        )
+        return delayed.astimezone(next_trigger_time.tzinfo)
 
 
 class BaseCombinationTrigger(BaseTrigger):
diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index 73e1945..38c814b 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -5,7 +5,7 @@ from typing import Any, ClassVar, Optional, Union
 
 from asyncz.datastructures import IntervalState
 from asyncz.triggers.base import BaseTrigger
-from asyncz.utils import datetime_repr, normalize, timedelta_seconds, to_datetime, to_timezone
+from asyncz.utils import datetime_repr, timedelta_seconds, to_datetime, to_timezone
 
 
 class IntervalTrigger(BaseTrigger):
@@ -81,9 +81,11 @@ class IntervalTrigger(BaseTrigger):
         )
         if start_at and self.timezone is None:
             start_at = start_at.astimezone(timezone)
+        # intervals elapse in utc, the wall clock jumps when dst changes
+        result_timezone = previous_time.tzinfo if previous_time else start_at.tzinfo
         if previous_time:
-            next_trigger_time = previous_time + self.interval
-        elif start_at > now:
+            next_trigger_time = previous_time.astimezone(dttz.utc) + self.interval
+        elif (start_at := start_at.astimezone(dttz.utc)) > now:
             next_trigger_time = start_at
         else:
             time_difference_seconds = timedelta_seconds(now - start_at)
@@ -103,7 +105,7 @@ class IntervalTrigger(BaseTrigger):
         )
 
         if not end_at or next_trigger_time <= end_at:
-            return normalize(value=next_trigger_time)
+            return next_trigger_time.astimezone(result_timezone)
         return None
 
     def __getstate__(self) -> IntervalState:  # type: ignore
-- 
2.43.0


From db5420047d4c5c651597fa65108e0d9521a4e8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:33 +0000
Subject: [PATCH 85/89] fix: find the cron runs while the clocks are changed

---
 asyncz/triggers/cron/trigger.py | 34 ++++++++++++++++++++-------------
 asyncz/utils.py                 | 20 +++++++++++++++++++
 2 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index b828db1..c144bca 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -1,4 +1,5 @@
 from datetime import datetime, timedelta, tzinfo
+from datetime import timezone as dttz
 from typing import Any, ClassVar, Optional, Union
 
 from asyncz.datastructures import CronState
@@ -14,8 +15,7 @@ from asyncz.triggers.cron.fields import (
 from asyncz.utils import (
     datetime_ceil,
     datetime_repr,
-    localize,
-    normalize,
+    localize_from,
     to_datetime,
     to_timezone,
 )
@@ -202,8 +202,14 @@ class CronTrigger(BaseTrigger):
                     values[field.name] = value + 1
                     count += 1
 
-        difference = datetime(**values) - dateval.replace(tzinfo=None)
-        return normalize(dateval + difference), field_number
+        value = datetime(**values)
+        target = localize_from(value, dateval.tzinfo, dateval)
+        if target.utcoffset() != dateval.utcoffset():
+            # when the clocks are turned back in between, the hour to repeat comes first
+            elapsed = value.replace(tzinfo=dttz(dateval.utcoffset()))
+            if elapsed < target:
+                target = elapsed.astimezone(dateval.tzinfo)
+        return target, field_number
 
     def set_field_value(
         self, dateval: datetime, field_number: int, new_value: Any, timezone: tzinfo
@@ -218,7 +224,7 @@ class CronTrigger(BaseTrigger):
                 else:
                     values[field.name] = new_value
 
-        return localize(datetime(**values), timezone)
+        return localize_from(datetime(**values), timezone, dateval)
 
     def get_next_trigger_time(
         self, timezone: tzinfo, previous_time: Optional[datetime], now: Optional[datetime] = None
@@ -236,17 +242,19 @@ class CronTrigger(BaseTrigger):
             if self.end_at and self.end_at.tzinfo is None
             else self.end_at
         )
+        # compared in utc, local times are ambiguous when the clocks are turned back
+        start_at = now.astimezone(dttz.utc)
         if previous_time:
-            start_at = min(now, previous_time + timedelta(microseconds=1))
+            previous_time = previous_time.astimezone(dttz.utc)
+            start_at = min(start_at, previous_time + timedelta(microseconds=1))
             if start_at == previous_time:
                 start_at += timedelta(microseconds=1)
-        else:
-            start_at = max(now, start_at_field) if start_at_field else now
-        if start_at.tzinfo != timezone:
-            start_at = start_at.astimezone(timezone)
+        elif start_at_field:
+            start_at = max(start_at, start_at_field.astimezone(dttz.utc))
+        end_at = end_at_field.astimezone(dttz.utc) if end_at_field else None
 
         fieldnum = 0
-        next_date = datetime_ceil(start_at)
+        next_date = datetime_ceil(start_at).astimezone(timezone)
 
         while 0 <= fieldnum < len(self.fields):
             field = self.fields[fieldnum]
@@ -264,12 +272,12 @@ class CronTrigger(BaseTrigger):
             else:
                 fieldnum += 1
 
-            if end_at_field and next_date > end_at_field:
+            if end_at and next_date > end_at:
                 return None
 
         if fieldnum >= 0:
             next_date = self.apply_jitter(next_date, self.jitter, now)
-            return min(next_date, end_at_field) if end_at_field else next_date
+            return end_at_field if end_at and next_date > end_at else next_date
         return None
 
     def __getstate__(self) -> Any:
diff --git a/asyncz/utils.py b/asyncz/utils.py
index 931ddd9..a1a5802 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -435,3 +435,23 @@ def localize(value: datetime, tzinfo: tzinfo) -> datetime:
         return cast(datetime, tzinfo.localize(value))
 
     return normalize(value.replace(tzinfo=tzinfo))
+
+
+def localize_from(value: datetime, tzinfo: tzinfo, earliest: datetime) -> datetime:
+    """
+    The first time, not before earliest, at which the clocks of the time zone show the value.
+    Values skipped by a dst change are moved forward.
+    """
+    if hasattr(tzinfo, "localize"):
+        # pytz localize
+        first = tzinfo.localize(value, is_dst=True)
+        second = tzinfo.localize(value, is_dst=False)
+    else:
+        first = value.replace(tzinfo=tzinfo, fold=0)
+        second = value.replace(tzinfo=tzinfo, fold=1)
+    if first.utcoffset() == second.utcoffset():
+        return cast(datetime, first)
+    first, second = normalize(first), normalize(second)
+    if first.replace(tzinfo=None) != value:
+        return first if first.timestamp() > second.timestamp() else second
+    return first if first.timestamp() >= earliest.timestamp() else second
-- 
2.43.0


From 3aab9e0bc94185b1272e174fd9332755ae90d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:10 +0000
Subject: [PATCH 86/89] fix: combine the runs of triggers while the clocks are
 changed

---
 asyncz/triggers/combination.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/asyncz/triggers/combination.py b/asyncz/triggers/combination.py
index e69c13d..bf0e823 100644
--- a/asyncz/triggers/combination.py
+++ b/asyncz/triggers/combination.py
@@ -31,7 +31,7 @@ class AndTrigger(BaseCombinationTrigger):
                 while (
                     earliest is not None
                     and next_trigger_time is not None
-                    and next_trigger_time < earliest
+                    and next_trigger_time.timestamp() < earliest.timestamp()
                 ):
                     next_trigger_time = trigger.get_next_trigger_time(
                         timezone, next_trigger_time, now
@@ -40,11 +40,13 @@ class AndTrigger(BaseCombinationTrigger):
                 if next_trigger_time is None:
                     return None
                 trigger_times.append(next_trigger_time)
-            if min(trigger_times) == max(trigger_times):
+            # local times are ambiguous when the clocks are turned back
+            timestamps = [trigger_time.timestamp() for trigger_time in trigger_times]
+            if min(timestamps) == max(timestamps):
                 return self.apply_jitter(trigger_times[0], self.jitter, now)
             else:
                 # recheck
-                now = earliest = max(trigger_times)
+                now = earliest = trigger_times[timestamps.index(max(timestamps))]
 
 
 class OrTrigger(BaseCombinationTrigger):
@@ -71,6 +73,9 @@ class OrTrigger(BaseCombinationTrigger):
                 trigger_times.append(next_trigger_time)
 
         if trigger_times:
-            return self.apply_jitter(min(trigger_times), self.jitter, now)
+            # local times are ambiguous when the clocks are turned back
+            timestamps = [trigger_time.timestamp() for trigger_time in trigger_times]
+            earliest = trigger_times[timestamps.index(min(timestamps))]
+            return self.apply_jitter(earliest, self.jitter, now)
         else:
             return None
-- 
2.43.0


From c14f48dc46c202a8838ae1ac556169896801725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:10 +0000
Subject: [PATCH 87/89] fix: order the file store by instants

---
 asyncz/stores/file.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index 8e9e670..f0a8126 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -115,7 +115,8 @@ class FileStore(BaseStore):
         return [
             task
             for task in self.get_all_tasks()
-            if task.next_run_time is not None and task.next_run_time <= now
+            if task.next_run_time is not None
+            and task.next_run_time.timestamp() <= now.timestamp()
         ]
 
     def get_tasks(self) -> list[TaskType]:
@@ -141,7 +142,8 @@ class FileStore(BaseStore):
                 tasks,
                 key=lambda task_stat: (
                     int(task_stat[0].next_run_time is None),
-                    task_stat[0].next_run_time,
+                    # local times are ambiguous when the clocks are turned back
+                    task_stat[0].next_run_time and task_stat[0].next_run_time.timestamp(),
                     # sort for task creation not update
                     task_stat[1].st_ctime,
                 ),
@@ -153,7 +155,10 @@ class FileStore(BaseStore):
         for task in self.get_all_tasks():
             if task.next_run_time is None:
                 break
-            if next_run_time is None or next_run_time >= task.next_run_time:
+            if (
+                next_run_time is None
+                or next_run_time.timestamp() >= task.next_run_time.timestamp()
+            ):
                 next_run_time = task.next_run_time
         return next_run_time
 
-- 
2.43.0


From b7052aced34c2653808c684ae41144f239f27920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:10 +0000
Subject: [PATCH 88/89] fix: order the redis store by instants

---
 asyncz/stores/redis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 0dba240..97458de 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -104,7 +104,8 @@ class RedisStore(BaseStore):
         states: list[tuple[str, Any]] = self.redis.hgetall(self.tasks_key)  # type: ignore
         tasks = self.rebuild_tasks(states.items())
         paused_sort_key = datetime(9999, 12, 31, tzinfo=tz.utc)
-        return sorted(tasks, key=lambda task: task.next_run_time or paused_sort_key)
+        # local times are ambiguous when the clocks are turned back
+        return sorted(tasks, key=lambda task: (task.next_run_time or paused_sort_key).timestamp())
 
     def add_task(self, task: "TaskType") -> None:
         assert task.id
-- 
2.43.0


From a37b257e02671b3132408a3740269d18ad0fc78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:10 +0000
Subject: [PATCH 89/89] fix: process due tasks while the clocks are changed

---
 asyncz/schedulers/base.py | 17 +++++++++++++----
 asyncz/tasks/base.py      |  3 ++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index b747068..de1b562 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -11,6 +11,7 @@ from abc import abstractmethod
 from collections import defaultdict
 from collections.abc import Callable, Mapping, Sequence
 from datetime import datetime, timedelta
+from datetime import timezone as dttz
 from importlib import import_module
 from inspect import isawaitable
 from threading import TIMEOUT_MAX, Lock, RLock
@@ -1622,7 +1623,9 @@ class BaseScheduler(SchedulerType):
         # mt lock
         with store.lock.protected(blocking=False) as success_blocking:
             if not success_blocking:
-                retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
+                retry_wakeup_time = now.astimezone(dttz.utc) + timedelta(
+                    seconds=self.store_retry_interval
+                )
                 if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
                     next_wakeup_time = retry_wakeup_time
                 return next_wakeup_time
@@ -1633,7 +1636,9 @@ class BaseScheduler(SchedulerType):
                 self.loggers[self.logger_name].warning(
                     f'Error getting due tasks from the store "{store_alias}": {e}.'
                 )
-                retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
+                retry_wakeup_time = now.astimezone(dttz.utc) + timedelta(
+                    seconds=self.store_retry_interval
+                )
                 if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
                     next_wakeup_time = retry_wakeup_time
                 return next_wakeup_time
@@ -1696,7 +1701,7 @@ class BaseScheduler(SchedulerType):
             if store_next_run_time and (
                 next_wakeup_time is None or store_next_run_time < next_wakeup_time
             ):
-                next_wakeup_time = store_next_run_time.astimezone(self.timezone)
+                next_wakeup_time = store_next_run_time.astimezone(dttz.utc)
             return next_wakeup_time
 
     def process_tasks(self) -> Optional[float]:
@@ -1713,6 +1718,7 @@ class BaseScheduler(SchedulerType):
 
         self.loggers[self.logger_name].debug("Looking for tasks to run.")
         now = datetime.now(self.timezone)
+        # in utc, local times don't tell what elapses while the clocks are changed
         next_wakeup_time: Optional[datetime] = None
         events: list[SchedulerEvent] = []
 
@@ -1726,7 +1732,9 @@ class BaseScheduler(SchedulerType):
                             now, next_wakeup_time, store_alias, store, events
                         )
             else:
-                retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
+                retry_wakeup_time = now.astimezone(dttz.utc) + timedelta(
+                    seconds=self.store_retry_interval
+                )
                 if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
                     next_wakeup_time = retry_wakeup_time
 
@@ -1747,6 +1755,7 @@ class BaseScheduler(SchedulerType):
 
         else:
             wait_seconds = min(max(timedelta_seconds(next_wakeup_time - now), 0), TIMEOUT_MAX)
+            next_wakeup_time = next_wakeup_time.astimezone(self.timezone)
             self.loggers[self.logger_name].debug(
                 f"Next wakeup is due at {next_wakeup_time} (in {wait_seconds} seconds)."
             )
diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index da6a367..1f1db46 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -70,7 +70,8 @@ class Task(BaseState, TaskType):  # type: ignore
         run_times = []
         next_run_time = self.next_run_time
         assert self.trigger
-        while next_run_time and next_run_time <= now:
+        # local times are ambiguous when the clocks are turned back
+        while next_run_time and next_run_time.timestamp() <= now.timestamp():
             run_times.append(next_run_time)
             next_run_time = self.trigger.get_next_trigger_time(timezone, next_run_time, now)
         return run_times
-- 
2.43.0

