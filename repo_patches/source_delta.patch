From 5384fad0de0b5eda88fde172e81844228ed3e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 01/47] fix: step the clock only after cancelled tasks have
 cleaned up

---
 toffee/asynchronous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 79519b4..87d4712 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -62,7 +62,7 @@ def __has_unwait_task():
         if task.get_name() == "__clock_loop":
             continue
 
-        if task._fut_waiter is None or task._fut_waiter._state == "FINISHED":
+        if task._fut_waiter is None or task._fut_waiter.done():
             return True
 
     return False
-- 
2.43.0


From f1e4cc1cb000c4592c7e3535df7428f53d136d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 02/47] fix: keep pending hooks of a failed run out of the next
 run

---
 toffee/executor.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 18db891..b8cd3a8 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -1,5 +1,7 @@
 __all__ = ["Executor"]
 
+import asyncio
+
 from .asynchronous import add_callback
 from .asynchronous import create_task
 from .asynchronous import Event
@@ -11,7 +13,16 @@ from ._base import MObject
 Priority Task Execution
 """
 
-__priority_tasks = []
+
+def __get_priority_tasks():
+    """
+    Get the priority task list of the current event loop.
+    """
+
+    loop = asyncio.get_event_loop()
+    if not hasattr(loop, "priority_tasks"):
+        loop.priority_tasks = []
+    return loop.priority_tasks
 
 
 def add_priority_task(coro, priority, done_event=None):
@@ -19,7 +30,7 @@ def add_priority_task(coro, priority, done_event=None):
     Add a priority task to the priority task list.
     """
 
-    __priority_tasks.append((coro, priority, done_event))
+    __get_priority_tasks().append((coro, priority, done_event))
 
 
 async def __execute_priority_tasks():
@@ -28,13 +39,14 @@ async def __execute_priority_tasks():
     """
 
     set_event = False
-    for coro, _, done_event in sorted(__priority_tasks, key=lambda x: x[1]):
+    priority_tasks = __get_priority_tasks()
+    for coro, _, done_event in sorted(priority_tasks, key=lambda x: x[1]):
         await coro
         if done_event is not None:
             set_event = True
             done_event.set()
 
-    __priority_tasks.clear()
+    priority_tasks.clear()
     return set_event
 
 
-- 
2.43.0


From b2230b661efbc13de0d60298337682747ff53524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 03/47] fix: settle the tasks woken by monitor hooks before the
 next clock step

---
 toffee/executor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index b8cd3a8..d5d3bd2 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -38,16 +38,17 @@ async def __execute_priority_tasks():
     Execute the priority tasks in the priority task list. It will be called every clock cycle.
     """
 
-    set_event = False
+    # A hook may wake up other tasks, whether or not there is a done_event
+    need_rerun = False
     priority_tasks = __get_priority_tasks()
     for coro, _, done_event in sorted(priority_tasks, key=lambda x: x[1]):
         await coro
+        need_rerun = True
         if done_event is not None:
-            set_event = True
             done_event.set()
 
     priority_tasks.clear()
-    return set_event
+    return need_rerun
 
 
 add_callback(__execute_priority_tasks)
-- 
2.43.0


From c5fc84ed791dbb9327b128ce9f8f07affbb80be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 04/47] fix: sample delayers once per cycle, whatever hooks run
 in it

---
 toffee/asynchronous.py | 12 ++++++++++++
 toffee/delay.py        |  7 +++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 87d4712..ba51e8b 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -23,6 +23,15 @@ Specifically, we need to complete all executable tasks before the next clock eve
 """
 
 callback_list = []
+cycle_callback_list = []
+
+
+def add_cycle_callback(func):
+    """
+    Add a function that is called exactly once per clock cycle, after all tasks and callbacks of the cycle are done.
+    """
+
+    cycle_callback_list.append(func)
 
 
 def add_callback(coro, *args, **kwargs):
@@ -106,6 +115,9 @@ async def execute_all_coros():
         if not (await __execute_callback()):
             break
 
+    for func in cycle_callback_list:
+        func()
+
     if asyncio.get_event_loop().test_done:
         await cancel_all_tasks()
         await asyncio.sleep(0)
diff --git a/toffee/delay.py b/toffee/delay.py
index efdf27d..0a79ce9 100644
--- a/toffee/delay.py
+++ b/toffee/delay.py
@@ -1,17 +1,16 @@
 __all__ = ["Delayer"]
 
 import asyncio
-from .asynchronous import add_callback
+from .asynchronous import add_cycle_callback
 from ._base import MObject
 
 
-async def __process_delayer():
+def __process_delayer():
     for delayer in asyncio.get_event_loop().delayer_list:
         delayer.sample()
-    return False
 
 
-add_callback(__process_delayer)
+add_cycle_callback(__process_delayer)
 
 
 class Delayer(MObject):
-- 
2.43.0


From 05e4d351e3bf415def8fcbfb20a29bee229ac984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 05/47] fix: make unattach and re-attach of a model work

---
 toffee/env.py   | 5 +++--
 toffee/model.py | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 4b5f5ff..e4c98e2 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -52,6 +52,7 @@ class Env(MObject):
         self.__inject_all(model)
         self.__ensure_model_match(model)
         self.attached_models.append(model)
+        model.attached_env = self
 
         return self
 
@@ -66,9 +67,9 @@ class Env(MObject):
             The env itself.
         """
 
-        if model in self.attached_model:
+        if model in self.attached_models:
             self.__uninject_all(model)
-            self.attached_model.remove(model)
+            self.attached_models.remove(model)
             model.clear_matched()
             model.attached_env = None
         else:
diff --git a/toffee/model.py b/toffee/model.py
index 3d7b9ee..ec61b72 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -321,7 +321,7 @@ class Model(Component):
 
     def __init__(self):
         super().__init__()
-        self.attached_agent = None
+        self.attached_env = None
 
         self.all_agent_ports = []
         self.all_driver_ports = []
@@ -384,7 +384,7 @@ class Model(Component):
 
         for agent_hook in self.all_agent_hooks:
             agent_hook.__matched__[0] = False
-            agent_hook.__methods_matched__ = [False] * len(agent_hook.__methods__)
+            agent_hook.__methods_matched__[:] = [False] * len(agent_hook.__methods__)
 
         for agent_port in self.all_agent_ports:
             agent_port.matched = False
@@ -392,10 +392,10 @@ class Model(Component):
 
     def is_attached(self):
         """
-        Check if the model is attached to an agent.
+        Check if the model is attached to an env.
         """
 
-        return self.attached_agent is not None
+        return self.attached_env is not None
 
     def ensure_all_matched(self):
         """
-- 
2.43.0


From b71efe57ad8f4af5a52197b187a3a33ffecd7cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 06/47] fix: do not let an earlier attach hide an unmatched
 hook or port

---
 toffee/env.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/env.py b/toffee/env.py
index e4c98e2..6794297 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -49,6 +49,8 @@ class Env(MObject):
             )
             model.attached_env.unattach(model)
 
+        # The matched status may be left over from another env or another instance of the model
+        model.clear_matched()
         self.__inject_all(model)
         self.__ensure_model_match(model)
         self.attached_models.append(model)
-- 
2.43.0


From 71e9e6f02514de5622d6cf8bb30e973550d9f7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 07/47] fix: leave no connection behind when attach fails

---
 toffee/env.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toffee/env.py b/toffee/env.py
index 6794297..03da6c7 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -52,7 +52,11 @@ class Env(MObject):
         # The matched status may be left over from another env or another instance of the model
         model.clear_matched()
         self.__inject_all(model)
-        self.__ensure_model_match(model)
+        try:
+            self.__ensure_model_match(model)
+        except ValueError:
+            self.__uninject_all(model)
+            raise
         self.attached_models.append(model)
         model.attached_env = self
 
-- 
2.43.0


From f9305648cd840b526dadb33e3b5c0240f99133c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 08/47] fix: check an agent port against the agent it names,
 not its attribute name

---
 toffee/env.py   | 8 +++++---
 toffee/model.py | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 03da6c7..1118611 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -278,11 +278,13 @@ class Env(MObject):
             for agent in agent_port.agents:
                 if not hasattr(self, agent):
                     raise ValueError(
-                        f"Agent port {agent_port.__name__} is not matched to agent {agent}"
+                        f"Agent port {agent_port.name} is not matched to agent {agent}"
                     )
-            if not agent_port.name == "" and not hasattr(self, agent_port.name):
+            if not agent_port.get_path() == "" and not hasattr(
+                self, agent_port.get_path()
+            ):
                 raise ValueError(
-                    f"Agent port {agent_port.name} is not matched to agent {agent_port.name}"
+                    f"Agent port {agent_port.name} is not matched to agent {agent_port.get_path()}"
                 )
 
     def __get_driver(self, agent_name, driver_name):
diff --git a/toffee/model.py b/toffee/model.py
index ec61b72..6890fef 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -263,7 +263,9 @@ class AgentPort(Port):
         self.methods_matched = [False] * len(methods)
 
     def get_path(self):
-        return self.agent_name if self.agent_name != "" else self.name
+        if self.agent_name == "" and self.agents == [] and self.methods == []:
+            return self.name
+        return self.agent_name
 
     async def __call__(self):
         return await self.get()
-- 
2.43.0


From 3f3e9f33bd238a2d4345ed91eddf85a81498a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 09/47] fix: accept a hook or port that lists both an agent and
 one of its methods

---
 toffee/env.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 1118611..d38ce19 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -120,37 +120,39 @@ class Env(MObject):
     def __is_agent_hook_contain_method(
         agent_hook, agent_name_of_method: str, method_name: str
     ) -> bool:
+        is_contained = False
         if (
             agent_name_of_method == agent_hook.__agent_name__
             or agent_name_of_method in agent_hook.__agents__
         ):
             agent_hook.__matched__[0] = True
-            return True
-        elif f"{agent_name_of_method}.{method_name}" in agent_hook.__methods__:
+            is_contained = True
+        if f"{agent_name_of_method}.{method_name}" in agent_hook.__methods__:
             agent_hook.__matched__[0] = True
             agent_hook.__methods_matched__[
                 agent_hook.__methods__.index(f"{agent_name_of_method}.{method_name}")
             ] = True
-            return True
-        return False
+            is_contained = True
+        return is_contained
 
     @staticmethod
     def __is_agent_port_contain_method(
         agent_port, agent_name_of_method: str, method_name: str
     ) -> bool:
+        is_contained = False
         if (
             agent_name_of_method == agent_port.get_path()
             or agent_name_of_method in agent_port.agents
         ):
             agent_port.matched = True
-            return True
-        elif f"{agent_name_of_method}.{method_name}" in agent_port.methods:
+            is_contained = True
+        if f"{agent_name_of_method}.{method_name}" in agent_port.methods:
             agent_port.matched = True
             agent_port.methods_matched[
                 agent_port.methods.index(f"{agent_name_of_method}.{method_name}")
             ] = True
-            return True
-        return False
+            is_contained = True
+        return is_contained
 
     @staticmethod
     def __all_agent_hooks_contain_method(
-- 
2.43.0


From 86406df2be6519f353a168505a2110225c159628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 10/47] fix: reject agent names that are other attributes of
 the env

---
 toffee/env.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index d38ce19..5d8f28f 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -265,12 +265,13 @@ class Env(MObject):
 
         for agent_hook in model.all_agent_hooks:
             for agent in agent_hook.__agents__:
-                if not hasattr(self, agent):
+                if agent not in self.all_agent_names():
                     raise ValueError(
                         f"Agent hook {agent_hook.__name__} is not matched to agent {agent}"
                     )
-            if not agent_hook.__agent_name__ == "" and not hasattr(
-                self, agent_hook.__agent_name__
+            if (
+                not agent_hook.__agent_name__ == ""
+                and agent_hook.__agent_name__ not in self.all_agent_names()
             ):
                 raise ValueError(
                     f"Agent hook {agent_hook.__name__} is not matched to agent {agent_hook.__agent_name__}"
@@ -278,12 +279,13 @@ class Env(MObject):
 
         for agent_port in model.all_agent_ports:
             for agent in agent_port.agents:
-                if not hasattr(self, agent):
+                if agent not in self.all_agent_names():
                     raise ValueError(
                         f"Agent port {agent_port.name} is not matched to agent {agent}"
                     )
-            if not agent_port.get_path() == "" and not hasattr(
-                self, agent_port.get_path()
+            if (
+                not agent_port.get_path() == ""
+                and agent_port.get_path() not in self.all_agent_names()
             ):
                 raise ValueError(
                     f"Agent port {agent_port.name} is not matched to agent {agent_port.get_path()}"
-- 
2.43.0


From 328a098edb262d71d855c3bc8ccb63ee2355ee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 11/47] fix: apply a priority or schedule order override to its
 own call only

---
 toffee/_base_agent.py | 47 ++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index b48b51e..4abfcfe 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -65,7 +65,7 @@ class Driver(BaseAgent):
             await model_info["driver_port"].put(args)
 
     def __drive_single_driver_hook(
-        self, driver_hook, model_results, arg_list, kwarg_list
+        self, driver_hook, model_results, arg_list, kwarg_list, priority=None
     ):
         if inspect.iscoroutinefunction(driver_hook):
             assert False, "driver_hook should not be a coroutine function"
@@ -74,15 +74,14 @@ class Driver(BaseAgent):
             model_results.append((driver_hook, driver_hook(*arg_list, **kwarg_list)))
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else driver_hook.__priority__
-        )
+        if priority is None:
+            priority = driver_hook.__priority__
         add_priority_task(driver_hook_wrapper(), priority, event)
 
         return event
 
     def __drive_single_agent_hook(
-        self, agent_hook, model_results, arg_list, kwarg_list
+        self, agent_hook, model_results, arg_list, kwarg_list, priority=None
     ):
         if inspect.iscoroutinefunction(agent_hook):
             assert False, "agent_hook should not be a coroutine function"
@@ -96,9 +95,8 @@ class Driver(BaseAgent):
             )
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else agent_hook.__priority__
-        )
+        if priority is None:
+            priority = agent_hook.__priority__
         add_priority_task(agent_hook_wrapper(), priority, event)
 
         return event
@@ -115,6 +113,12 @@ class Driver(BaseAgent):
             The result of the DUT if imme_ret is False, otherwise None.
         """
 
+        # The priority and schedule order given for this call, if any, do not apply to any other call
+
+        priority, sche_order = self.priority, self.sche_order
+        self.priority = None
+        self.sche_order = None
+
         # Execute model_first driver hooks and agent hooks
 
         model_results = []
@@ -130,11 +134,15 @@ class Driver(BaseAgent):
                 if driver_hook := model_info["driver_hook"]:
                     if (
                         driver_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_driver_hook(
-                                driver_hook, model_results, arg_list, kwarg_list
+                                driver_hook,
+                                model_results,
+                                arg_list,
+                                kwarg_list,
+                                priority,
                             ).wait()
                         )
                     else:
@@ -143,11 +151,15 @@ class Driver(BaseAgent):
                 for agent_hook in model_info["agent_hook"]:
                     if (
                         agent_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_agent_hook(
-                                agent_hook, model_results, arg_list, kwarg_list
+                                agent_hook,
+                                model_results,
+                                arg_list,
+                                kwarg_list,
+                                priority,
                             ).wait()
                         )
                     else:
@@ -165,13 +177,13 @@ class Driver(BaseAgent):
             for driver_hook in dut_first_driver_hooks:
                 dut_first_events.append(
                     self.__drive_single_driver_hook(
-                        driver_hook, model_results, arg_list, kwarg_list
+                        driver_hook, model_results, arg_list, kwarg_list, priority
                     ).wait()
                 )
             for agent_hook in dut_first_agent_hooks:
                 dut_first_events.append(
                     self.__drive_single_agent_hook(
-                        agent_hook, model_results, arg_list, kwarg_list
+                        agent_hook, model_results, arg_list, kwarg_list, priority
                     ).wait()
                 )
             await gather(*dut_first_events)
@@ -186,9 +198,6 @@ class Driver(BaseAgent):
                         match_detail=True,
                     )
 
-            self.priority = None
-            self.sche_order = None
-
         create_task(background_exec())
 
         return dut_result
-- 
2.43.0


From 288d49666120206e6933568a391bc43ef2fe5b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 12/47] fix: let the test fail when a monitor method raises

---
 toffee/_base_agent.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index 4abfcfe..df4a7df 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -215,6 +215,22 @@ class Monitor(BaseAgent):
         self.agent = agent
 
         self.monitor_task = create_task(self.__monitor_forever())
+        self.monitor_task.add_done_callback(self.__report_failure)
+
+    @staticmethod
+    def __report_failure(task):
+        """
+        Report the exception of the monitor to the event loop, otherwise nobody would ever see it.
+        """
+
+        if not task.cancelled() and task.exception() is not None:
+            task.get_loop().call_exception_handler(
+                {
+                    "message": "Exception in monitor method",
+                    "exception": task.exception(),
+                    "task": task,
+                }
+            )
 
     def enable_get_queue(self, maxsize):
         self.get_queue = Queue()
-- 
2.43.0


From bb5ee3a54fc1b8e5441718ef23022b09d10efdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 13/47] fix: do not wait forever when the first completed group
 of an executor failed

---
 toffee/executor.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index d5d3bd2..da8b28e 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -160,6 +160,11 @@ class Executor(MObject):
             )
         await self.__exit_any_event.wait()
 
+        # If it is a failure that has completed a group, raise it
+        for task in self.__uncompleted:
+            if task.done():
+                task.result()
+
     async def wait_all(self):
         """
         Wait for all the coroutines to complete. This function should be called after execute.
@@ -237,24 +242,25 @@ class Executor(MObject):
             complete_event: The event to set when all tasks are completed.
         """
 
-        results = []
-        for coro, sche_order, priority in tasks:
-            driver = Executor.__get_driver(coro)
-
-            if driver is not None:
-                driver.priority = None
-                driver.sche_order = None
+        try:
+            results = []
+            for coro, sche_order, priority in tasks:
+                driver = Executor.__get_driver(coro)
 
-                if priority is not None:
-                    driver.priority = priority
+                if driver is not None:
+                    driver.priority = None
+                    driver.sche_order = None
 
-                if sche_order is not None:
-                    driver.sche_order = sche_order
+                    if priority is not None:
+                        driver.priority = priority
 
-            results.append(await coro)
+                    if sche_order is not None:
+                        driver.sche_order = sche_order
 
-        if complete_event is not None and not complete_event.is_set():
-            complete_event.set()
+                results.append(await coro)
+        finally:
+            if complete_event is not None and not complete_event.is_set():
+                complete_event.set()
 
         return results
 
-- 
2.43.0


From 109e830d6468edbf525ffe61bb6dfc1cfd13b606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 14/47] fix: report the failure of an executor group that is
 never waited for

---
 toffee/asynchronous.py |  5 +++++
 toffee/executor.py     | 20 ++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index ba51e8b..7f2de34 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -268,6 +268,11 @@ async def main_coro(test, env_handle=None):
     if hasattr(loop, "global_clock_event"):
         await loop.global_clock_event.wait()
 
+    # Raise the failure of an executor group whose result was never asked for
+    for task in getattr(loop, "group_tasks", []):
+        if task.done() and not task.cancelled() and task._log_traceback:
+            task.result()
+
     summary()
 
     return ret
diff --git a/toffee/executor.py b/toffee/executor.py
index da8b28e..8cf4ce5 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -1,6 +1,7 @@
 __all__ = ["Executor"]
 
 import asyncio
+import weakref
 
 from .asynchronous import add_callback
 from .asynchronous import create_task
@@ -142,7 +143,7 @@ class Executor(MObject):
 
         sche_groups = self.__get_sche_group()
         for coro in sche_groups:
-            self.__uncompleted.append(create_task(coro))
+            self.__uncompleted.append(self.__create_group_task(coro))
 
     async def __exit_any(self):
         """
@@ -152,7 +153,7 @@ class Executor(MObject):
         self.__exit_any_event.clear()
         for tasks in self.__coros.items():
             self.__uncompleted.append(
-                create_task(
+                self.__create_group_task(
                     self.__sequential_execution_all(
                         *tasks[1], complete_event=self.__exit_any_event
                     )
@@ -165,6 +166,21 @@ class Executor(MObject):
             if task.done():
                 task.result()
 
+    @staticmethod
+    def __create_group_task(coro):
+        """
+        Create a task for a group that may never be waited for. If it fails, main_coro will notice.
+        """
+
+        task = create_task(coro)
+
+        loop = asyncio.get_event_loop()
+        if not hasattr(loop, "group_tasks"):
+            loop.group_tasks = weakref.WeakSet()
+        loop.group_tasks.add(task)
+
+        return task
+
     async def wait_all(self):
         """
         Wait for all the coroutines to complete. This function should be called after execute.
-- 
2.43.0


From ae85257a628f94ff97e9d6e04fbb596bd0628dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 15/47] fix: give each bundle its own bundles in a bundle list

---
 toffee/bundle.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index e76332b..a308ec2 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -150,7 +150,9 @@ class BundleList:
         bundle_list = cls(old_bundle_list.bundles[0], "#", 1)
         bundle_list.format = old_bundle_list.format
         bundle_list.names = old_bundle_list.names[:]
-        bundle_list.bundles = old_bundle_list.bundles[:]
+        bundle_list.bundles = [
+            bundle._Bundle__new_instance() for bundle in old_bundle_list.bundles
+        ]
         return bundle_list
 
 
@@ -407,10 +409,7 @@ class Bundle(MObject):
 
         # Recreate subbundles and signal lists for each instance
         for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
-            new_sub_bundle = sub_bundle.__class__()
-            new_sub_bundle.current_level_signals = sub_bundle.current_level_signals
-            new_sub_bundle.__connect_method = sub_bundle.__connect_method
-            setattr(self, sub_bundle_name, new_sub_bundle)
+            setattr(self, sub_bundle_name, sub_bundle.__new_instance())
 
         # Recreate signal lists for each instance
         for signal_list_name, signal_list in self.__all_signal_lists():
@@ -422,6 +421,16 @@ class Bundle(MObject):
             new_bundle_list = BundleList.from_bundlelist(bundle_list)
             setattr(self, bundle_list_name, new_bundle_list)
 
+    def __new_instance(self):
+        """
+        Create an unbound bundle with the same signals and the same rule as this one.
+        """
+
+        new_bundle = self.__class__()
+        new_bundle.current_level_signals = self.current_level_signals[:]
+        new_bundle.__connect_method = self.__connect_method
+        return new_bundle
+
     def ___dut_call_on_rise__(self, cycle):
         """
         Call the on rise method of target DUT.
-- 
2.43.0


From 6bc64983bbff628a96f451a43b57e47c96b84841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 16/47] fix: release every signal of the previous bind when a
 bundle is bound again

---
 toffee/bundle.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index a308ec2..08690f4 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1291,12 +1291,26 @@ class Bundle(MObject):
             signal_name: The name of the signal to remove.
         """
 
-        signal = getattr(self, signal_name)
-        if hasattr(signal.xdata, "number_of_bundles_connected_to"):
+        # An unconnected signal may have no attribute in the instance
+        if signal_name in self.__dict__:
+            Bundle.__release_signal(self.__dict__[signal_name])
+            delattr(self, signal_name)
+
+    @staticmethod
+    def __release_signal(signal):
+        """
+        Update the signal info when a signal is no longer connected to the bundle.
+
+        Args:
+            signal: The signal that was connected.
+        """
+
+        if Bundle.__is_instance_of_xpin(signal) and hasattr(
+            signal.xdata, "number_of_bundles_connected_to"
+        ):
             signal.xdata.number_of_bundles_connected_to -= 1
             if signal.xdata.number_of_bundles_connected_to == 0:
                 delattr(signal.xdata, "number_of_bundles_connected_to")
-        delattr(self, signal_name)
 
     def __unbind_all(self):
         """
@@ -1304,10 +1318,17 @@ class Bundle(MObject):
         """
 
         for signal_name in self.current_level_signals:
-            if hasattr(self, signal_name):
-                self.__remove_signal_attr(signal_name)
+            self.__remove_signal_attr(signal_name)
+        for _, signal_list in self.__all_signal_lists():
+            for idx, signal in enumerate(signal_list.signals):
+                Bundle.__release_signal(signal)
+                signal_list.signals[idx] = Signal()
         for _, sub_bundle in self.__all_sub_bundles():
             sub_bundle.__unbind_all()
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                bundle.__unbind_all()
+        self.__clock_event = None
 
     def __bind_from_signal_list(
         self,
-- 
2.43.0


From a2caa102b6c2021b72ca1953a34f91b015a28f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 17/47] fix: issue one request per step after a bundle is bound
 again

---
 toffee/bundle.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 08690f4..45c902f 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -403,6 +403,7 @@ class Bundle(MObject):
         self.__connect_method = PrefixBindMethod("")
         self.__dut_requests__ = Queue()
         self.__dut_instance__ = None
+        self.__registered_duts = []
         self.__blocked_request__ = None
 
         self.__set_current_level_signal()
@@ -508,9 +509,19 @@ class Bundle(MObject):
         """
         if self.__dut_instance__ is not None:
             error("The dut instance is already set")
-        dut.StepRis(self.___dut_call_on_rise__)
         self.__dut_instance__ = dut
 
+        # Respond only once per step, and only to the dut that is bound now
+        if not any(registered is dut for registered in self.__registered_duts):
+            self.__registered_duts.append(dut)
+            dut.StepRis(
+                lambda cycle: (
+                    self.___dut_call_on_rise__(cycle)
+                    if self.__dut_instance__ is dut
+                    else None
+                )
+            )
+
     def process_requests(self, request: Optional[Union[Dict, List[Dict]]]):
         """
         Process the requests.
@@ -702,6 +713,7 @@ class Bundle(MObject):
         if self.bound:
             warning("bundle is already bound, the previous bind will be overwritten")
             self.__unbind_all()
+            self.__dut_instance__ = None
         else:
             # When first bind, set all sub-bundles' name
             for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
-- 
2.43.0


From e734e52d6758bab4d974ca9ad83c8cf5c7fdd509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 18/47] fix: let a bundle step whose signals are all in bundle
 lists

---
 toffee/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 45c902f..444f0dc 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1439,6 +1439,8 @@ class Bundle(MObject):
                     specific_signal,
                     all_signals_rule,
                 )
+                if bundle.__clock_event is not None:
+                    self.__clock_event = bundle.__clock_event
 
         Bundle.__revert_signal_name(matching_signals, all_signals)
         return matching_signals + remain_signals
-- 
2.43.0


From d1377eb636ec2c0a2bd990a787488c50ee3b05ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 19/47] fix: name each missing signal of a signal list
 correctly

---
 toffee/bundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 444f0dc..3c57b6f 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1284,11 +1284,11 @@ class Bundle(MObject):
             for idx, signal in enumerate(signal_list.names):
                 if signal not in connected_signals:
                     rule_string = Bundle.__get_rule_string(rule_stack, signal)
-                    level_string = Bundle.__appended_level_string(
+                    full_signal_name = Bundle.__appended_level_string(
                         level_string, f"{signal_list_name}[{idx}]"
                     )
                     warning(
-                        f'The signal that can be connected to "{level_string}" '
+                        f'The signal that can be connected to "{full_signal_name}" '
                         f'is not found in dut, it should satisfy rule "{rule_string}"'
                     )
 
-- 
2.43.0


From eb609bac21d663f6a62b27ce3f40819f9b4207b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 20/47] fix: do not leave the last request behind when its
 condition is not met

---
 toffee/bundle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 3c57b6f..d92fc08 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -546,7 +546,9 @@ class Bundle(MObject):
             request = [request]
         for req in request:
             self.__dut_requests__.put(req)
-        while not self.__dut_requests__.empty():
+        while (
+            not self.__dut_requests__.empty() or self.__blocked_request__ is not None
+        ):
             self.__dut_instance__.Step(1)
         ret = []
         for req in request:
-- 
2.43.0


From 719121c9bceed38f3fc59b11134188d078d663c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 21/47] fix: keep the wildcard in the dictionary that is
 assigned to a bundle

---
 toffee/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index d92fc08..a7bdaa6 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -864,7 +864,7 @@ class Bundle(MObject):
 
         if "*" in item:
             self.set_all(item["*"])
-            del item["*"]
+            item = {key: value for key, value in item.items() if key != "*"}
 
         if multilevel:
             for signal, value in item.items():
-- 
2.43.0


From ca35ec31bb5d68c25d6a517768d2895832c9ef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 22/47] fix: accept the flat names of bundle lists that as_dict
 returns

---
 toffee/bundle.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index a7bdaa6..347cb31 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -922,6 +922,19 @@ class Bundle(MObject):
                         for bundle_list in self.__all_bundle_lists()
                     ):
                         getattr(self, signal).assign(value, multilevel)
+                    elif sub_bundle_name in [
+                        f"{bundle_list_name}[{idx}]"
+                        for bundle_list_name, bundle_list in self.__all_bundle_lists()
+                        for idx in range(len(bundle_list.bundles))
+                    ]:
+                        bundle_list_name, idx = sub_bundle_name[:-1].rsplit("[", 1)
+                        getattr(self, bundle_list_name)[int(idx)].assign(
+                            {sub_bundle_signal: value},
+                            multilevel,
+                            Bundle.__appended_level_string(
+                                level_string, sub_bundle_name
+                            ),
+                        )
                     else:
                         full_signal_name = Bundle.__appended_level_string(
                             level_string, signal
-- 
2.43.0


From 2da8b6866c0d3f6f28c6ab26239044600b926270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 23/47] fix: detect_specific_connectivity answers for the
 specific signal only

---
 toffee/bundle.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 347cb31..838128b 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -234,7 +234,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, name_no_prefix
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 elif signal_list_name_and_inst := self.get_matching_signal_list(
                     bundle, name_no_prefix
                 ):
@@ -248,7 +248,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, signal_list_name_and_inst[0]
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 else:
                     matching_signals.append(
                         {
@@ -1399,17 +1399,13 @@ class Bundle(MObject):
             if specific_signal is not None:
                 error("specific signal could only be used in detection mode")
         else:
-            if specific_signal is not None:
-                remain_signals += connected_signals
-                connected_signals = []
-
-                for signal in remain_signals:
-                    full_signal_name = Bundle.__appended_level_string(
-                        level_string, signal["name"]
-                    )
-                    if full_signal_name == specific_signal:
-                        connected_signals.append(signal)
-                        remain_signals.remove(signal)
+            if specific_signal is not None and len(connected_signals) > 0:
+                # A connection to any other signal of the bundle does not count
+                if specific_signal not in [
+                    self.__get_signal_path(signal, level_string)
+                    for signal in connected_signals
+                ]:
+                    remain_signals = list(all_signals)
 
             if all_signals_rule is not None:
                 for signal in self.current_level_signals:
@@ -1460,6 +1456,21 @@ class Bundle(MObject):
         Bundle.__revert_signal_name(matching_signals, all_signals)
         return matching_signals + remain_signals
 
+    def __get_signal_path(self, signal_name, level_string):
+        """
+        Get the path of a signal in the current level from the name it is bound by.
+        """
+
+        for signal_list_name, signal_list in self.__all_signal_lists():
+            if (
+                signal_name not in self.current_level_signals
+                and signal_name in signal_list.names
+            ):
+                index = signal_list.names.index(signal_name)
+                signal_name = f"{signal_list_name}[{index}]"
+
+        return Bundle.__appended_level_string(level_string, signal_name)
+
     def __check_dict_value(self, dict):
         """
         Check if the values of the dictionary are valid.
-- 
2.43.0


From fab32bcc59fc5a81acee3439851ca5fb3abf278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 24/47] fix: report the pin that a connection dictionary names
 for a signal

---
 toffee/bundle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 838128b..fdce0ad 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1425,6 +1425,7 @@ class Bundle(MObject):
 
         # Bind the remain signals to the sub-bundles
         for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
+            sub_bundle.set_name(sub_bundle_name)
             matching_signals = sub_bundle.__bind_from_signal_list(
                 matching_signals,
                 Bundle.__appended_level_string(level_string, sub_bundle_name),
@@ -1439,6 +1440,7 @@ class Bundle(MObject):
 
         for bundle_list_name, bundle_list in self.__all_bundle_lists():
             for idx, bundle in enumerate(bundle_list.bundles):
+                bundle.set_name(f"{bundle_list_name}[{idx}]")
                 matching_signals = bundle.__bind_from_signal_list(
                     matching_signals,
                     Bundle.__appended_level_string(
@@ -1684,7 +1686,7 @@ class Bundle(MObject):
 
         filtered_dict = {}
         for key, value in dict.items():
-            if self.detect_specific_connectivity(key, could_connected_to):
+            if self.detect_specific_connectivity(value, could_connected_to):
                 filtered_dict[key] = value
         return filtered_dict
 
-- 
2.43.0


From 6221d5a3e0bf0fbeb519c748fd945456cdc73269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 25/47] fix: find the rule of the signals in a signal list

---
 toffee/bundle.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index fdce0ad..928d977 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1704,10 +1704,7 @@ class Bundle(MObject):
         if signal != "":
             rule_stack = rule_stack + [signal]
 
-        for rule in rule_stack[1:]:
-            if rule is rule_stack[-1]:
-                path += rule
-            else:
-                path += rule.name + "."
+        level_string = ".".join(rule.name for rule in rule_stack[1:-1])
+        path = rule_stack[-2].__get_signal_path(rule_stack[-1], level_string)
 
         return path
-- 
2.43.0


From d9bfb7f59761b81c37df692461c47e7e976a7905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 26/47] fix: never select a way that does not exist

---
 toffee/utils/plru.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/toffee/utils/plru.py b/toffee/utils/plru.py
index 2c1b3df..8ace899 100644
--- a/toffee/utils/plru.py
+++ b/toffee/utils/plru.py
@@ -20,5 +20,8 @@ class PLRU:
     def get(self):
         pos = 0
         for i in range(self.bits_layer_num):
-            pos = pos * 2 + self.bits[i][pos]
+            # Do not enter a subtree without any way when ways_num is not a power of two
+            right_first_way = (pos * 2 + 1) << (self.bits_layer_num - i - 1)
+            go_right = self.bits[i][pos] and right_first_way < self.ways_num
+            pos = pos * 2 + (1 if go_right else 0)
         return pos
-- 
2.43.0


From 276bb99428caa86fc8bde09b43a5ffe13b9ae0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 27/47] fix: make stop_sample callable

---
 toffee/funcov.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index d2bbe7c..6e0a722 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -254,7 +254,7 @@ class CovGroup(object):
         self.cov_points = OrderedDict()
         self.hinted = False
         self.all_once = False
-        self.stop_sample = False
+        self._stop_sample = False
         self.sample_count = 0
         self.sample_calln = 0
         return self
@@ -465,7 +465,7 @@ class CovGroup(object):
         sample the group
         """
         self.sample_calln += 1
-        if self.stop_sample:
+        if self._stop_sample:
             return
         if self.hinted and self.all_once:
             return
@@ -485,7 +485,7 @@ class CovGroup(object):
         """
         check if the group is stoped
         """
-        if self.stop_sample:
+        if self._stop_sample:
             return True
         return self.hinted and self.all_once
 
@@ -493,14 +493,14 @@ class CovGroup(object):
         """
         stop sampling
         """
-        self.stop_sample = True
+        self._stop_sample = True
         return self
 
     def resume_sample(self):
         """
         resume sampling
         """
-        self.stop_sample = False
+        self._stop_sample = False
         self.all_once = False
         return self
 
@@ -565,7 +565,7 @@ class CovGroup(object):
         )
         ret["__sample_count__"] = self.sample_count
         ret["__sample_calln__"] = self.sample_calln
-        ret["__stop_sample__"] = self.stop_sample
+        ret["__stop_sample__"] = self._stop_sample
         return ret
 
     def __str__(self) -> str:
-- 
2.43.0


From fc33f38349492a08b3789a37e8be680dddcd7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 28/47] fix: accept a single bin for a watch point without a
 name

---
 toffee/funcov.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index 6e0a722..7cbc57f 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -273,15 +273,15 @@ class CovGroup(object):
         @param bins: a dict of CovCondition objects, a single CovCondition object or a Callable object (its params is call(target) -> bool).
         @param name: the name of the point
         """
+        if not isinstance(bins, dict):
+            if not callable(bins):
+                raise ValueError("Invalid value %s for key %s" % (bins, name))
+            bins = {"anonymous": bins}
         key = name
         if not key:
             key = "%s:%s" % (target, bins.keys())
         if key in self.cov_points:
             raise ValueError("Duplicated key %s" % key)
-        if not isinstance(bins, dict):
-            if not callable(bins):
-                raise ValueError("Invalid value %s for key %s" % (bins, key))
-            bins = {"anonymous": bins}
         for k, v in bins.items():
             if not isinstance(v, (list, tuple)):
                 if not callable(v):
-- 
2.43.0


From 4ce70b1879a139e35c1a1e02994548af6a9f8819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 29/47] fix: show the id of a log record once in each handler

---
 toffee/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toffee/logger.py b/toffee/logger.py
index 8d49fd7..720439c 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 
 __all__ = [
@@ -60,6 +61,8 @@ class ToffeeFormatter(logging.Formatter):
     """
 
     def format(self, record):
+        # Other handlers will get the same record, so leave it unchanged
+        record = copy.copy(record)
         if not hasattr(record, "log_id") or record.log_id == "":
             record.log_id = ""
         else:
-- 
2.43.0


From 7b72254a66e60c9bbabe586d82fa6bb7bc92fc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 30/47] fix: generate the nested signals below a name that is a
 signal itself

---
 scripts/bundle_code_intel_gen.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scripts/bundle_code_intel_gen.py b/scripts/bundle_code_intel_gen.py
index c4d2950..01b78e2 100644
--- a/scripts/bundle_code_intel_gen.py
+++ b/scripts/bundle_code_intel_gen.py
@@ -30,7 +30,8 @@ class MProxy:
 # dfs function
 # node: the current node to be visit
 # logs: stores the name and some other might be useful attrs(now some of them are useless though)
-# insides: stores all the nodes' full name of the same kind. For bundles, also stores the index of the unique bundle
+# insides: stores all the nodes' full name of the same kind. For bundles, also stores the index of the unique bundle,
+#          the names of its own signals and the names of all signals below it
 # prefix: prefix str of current node
 # bundle_names_counter: store the bundle name, which might be useful in the future
 def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
@@ -70,7 +71,7 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                 # else:
                 # logs[son_hash] = (False, inside_hash, son_name, whole_name, grandsons)
             if inside_hash not in insides.keys():
-                insides[inside_hash] = [son_leaf, [], "", []]
+                insides[inside_hash] = [son_leaf, [], "", [], []]
                 if son_leaf & 2:
                     # new bundle appears
                     insides[inside_hash][2] = bundle_names_counter[0]
@@ -106,16 +107,21 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                             tprefix_name = prefix_name
                             if len(prefix) > 0:
                                 tprefix_name = f"_{tprefix_name}"
+                            son_leaves = insides[bundle_hash][4]
                             if boths[prefix_name]:
-                                son_leaves = insides[bundle_hash][3]
                                 for _son_leaf in son_leaves:
                                     leaf_name = f"{tprefix_name}{_son_leaf}"
                                     insides[inside_hash][3].append(leaf_name)
                             else:
+                                for _son_leaf in son_leaves:
+                                    leaf_name = f"{tprefix_name}{_son_leaf}"
+                                    insides[inside_hash][4].append(leaf_name)
                                 rp.print(
                                     f'\t{tprefix_name} = {bundle_cls}.from_prefix("{tprefix_name}")'
                                 )
 
+                    insides[inside_hash][4].extend(insides[inside_hash][3])
+
                     if len(insides[inside_hash][3]) > 0:
                         leaves_str = ", ".join(insides[inside_hash][3])
                         after_str = (
-- 
2.43.0


From ce6fb10d32f966b17f6d2c0b8cfacc4f869de692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 31/47] fix: step the clock exactly once after the end of the
 test

---
 toffee/asynchronous.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 7f2de34..5956218 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -185,6 +185,10 @@ async def __clock_loop(dut):
         dut.event.set()
         dut.event.clear()
 
+        # The test is over, this was the last clock event
+        if asyncio.get_event_loop().test_done:
+            break
+
 
 create_task = asyncio.create_task
 
-- 
2.43.0


From 0273c1473f01924f796dcecbcc1b0883a3f7225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:43 +0000
Subject: [PATCH 32/47] fix: log in the format given to setup_logging

---
 toffee/logger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toffee/logger.py b/toffee/logger.py
index 720439c..8c2bf9e 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -137,15 +137,17 @@ def setup_logging(
 
     toffee_logger.addHandler(stats_handler)
 
+    formatter = ToffeeFormatter(format)
+
     if console_display:
         screen_handler.setLevel(log_level)
-        screen_handler.setFormatter(default_formatter)
+        screen_handler.setFormatter(formatter)
         toffee_logger.addHandler(screen_handler)
 
     if log_file:
         fh = logging.FileHandler(log_file, mode="w")
         fh.setLevel(log_level)
-        fh.setFormatter(default_formatter)
+        fh.setFormatter(formatter)
         toffee_logger.addHandler(fh)
 
 
-- 
2.43.0


From 90e8b7372746da9673cc8ab28ee58f2b9b3a275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 33/47] fix: leave the requests given to process_requests
 unchanged

---
 toffee/bundle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 928d977..561192b 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -460,7 +460,7 @@ class Bundle(MObject):
             data = request(cycle, self)
             if data is None:
                 return
-            request = data
+            request = dict(data)
         # check condition
         if "__condition_func__" in request:
             if not request["__condition_func__"](
@@ -544,6 +544,8 @@ class Bundle(MObject):
             )
         if not isinstance(request, list):
             request = [request]
+        # Processing consumes the requests, so leave those of the caller unchanged
+        request = [dict(req) if isinstance(req, dict) else req for req in request]
         for req in request:
             self.__dut_requests__.put(req)
         while (
-- 
2.43.0


From 186825a5fbeeac7b9740c5054f26ddba5797a312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 34/47] fix: release the pin a bundle signal was connected to
 when another pin takes its place

---
 toffee/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 561192b..585381a 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -85,6 +85,7 @@ class SignalList:
         ), f"signal name {signal_name} not in signal list"
 
         index = self.names.index(signal_name)
+        Bundle._Bundle__release_signal(self.signals[index])
         self.signals[index] = signal
         bundle._Bundle__update_signal_info(signal)
         info(
@@ -1176,6 +1177,7 @@ class Bundle(MObject):
             info_dut_name: The name of the signal in the DUT in the log.
         """
 
+        Bundle.__release_signal(getattr(self, signal_name, None))
         setattr(self, signal_name, signal)
         self.__update_signal_info(signal)
         info(f'dut\'s signal "{info_dut_name}" is connected to "{info_bundle_name}"')
-- 
2.43.0


From 8e4dffb076de22c34ab30b9eac5e0fd6a6d8fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:22 +0000
Subject: [PATCH 35/47] fix: accept an agent hook or port that lists the same
 method twice

---
 toffee/env.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 5d8f28f..2d1bcac 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -129,9 +129,10 @@ class Env(MObject):
             is_contained = True
         if f"{agent_name_of_method}.{method_name}" in agent_hook.__methods__:
             agent_hook.__matched__[0] = True
-            agent_hook.__methods_matched__[
-                agent_hook.__methods__.index(f"{agent_name_of_method}.{method_name}")
-            ] = True
+            # A method may be listed more than once
+            for idx, method in enumerate(agent_hook.__methods__):
+                if method == f"{agent_name_of_method}.{method_name}":
+                    agent_hook.__methods_matched__[idx] = True
             is_contained = True
         return is_contained
 
@@ -148,9 +149,9 @@ class Env(MObject):
             is_contained = True
         if f"{agent_name_of_method}.{method_name}" in agent_port.methods:
             agent_port.matched = True
-            agent_port.methods_matched[
-                agent_port.methods.index(f"{agent_name_of_method}.{method_name}")
-            ] = True
+            for idx, method in enumerate(agent_port.methods):
+                if method == f"{agent_name_of_method}.{method_name}":
+                    agent_port.methods_matched[idx] = True
             is_contained = True
         return is_contained
 
-- 
2.43.0


From 3fb4215b85b795b5fd054d61664fdab4a7bbca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 36/47] fix: keep every group when the tree generator takes a
 group of the same name apart

---
 scripts/bundle_code_intel_gen.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/scripts/bundle_code_intel_gen.py b/scripts/bundle_code_intel_gen.py
index 01b78e2..9cf7718 100644
--- a/scripts/bundle_code_intel_gen.py
+++ b/scripts/bundle_code_intel_gen.py
@@ -101,6 +101,25 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                                 name = f"_{name}"
                             insides[inside_hash][3].append(f"{name}")
 
+                    # a signal found in a group that is taken apart would replace another group of the same name,
+                    # so take such a group apart as well
+                    clash = True
+                    while clash:
+                        leaves = set(insides[inside_hash][3])
+                        for bundle_hash, names in son_bundles.items():
+                            for name in names:
+                                if boths[name]:
+                                    name = f"_{name}" if prefix != "" else name
+                                    for _son_leaf in insides[bundle_hash][4]:
+                                        leaves.add(f"{name}{_son_leaf}")
+                        clash = False
+                        for names in son_bundles.values():
+                            for name in names:
+                                full_name = f"_{name}" if prefix != "" else name
+                                if not boths[name] and full_name in leaves:
+                                    boths[name] = True
+                                    clash = True
+
                     for bundle_hash in son_bundles.keys():
                         bundle_cls = bundle_names_counter[1][insides[bundle_hash][2]]
                         for prefix_name in son_bundles[bundle_hash]:
-- 
2.43.0


From 9ec4b444f131c9ed4dc7c39f76cde0e70c8af449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 37/47] fix: only treat a driver method's coroutine as one in
 the executor, not any coroutine with a variable named agent

---
 toffee/executor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 8cf4ce5..042d466 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -292,5 +292,7 @@ class Executor(MObject):
         agent = coro.cr_frame.f_locals.get("agent", None)
         driver_name = coro.__name__
 
-        if agent is not None:
+        # Other coroutines may have a local variable named agent as well
+        method = getattr(agent, driver_name, None)
+        if getattr(method, "__code__", None) is coro.cr_code:
             return agent.drivers.get(driver_name, None)
-- 
2.43.0


From 9185c81b8c6a7173891f4623ffca6165f8e94579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 38/47] fix: a driver method can have a parameter named agent

---
 toffee/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/agent.py b/toffee/agent.py
index b686d8a..0509e4a 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -127,7 +127,7 @@ def __driver_wrapped_func(func):
     func.__is_driver_decorated__ = True
 
     @functools.wraps(func)
-    async def wrapper(agent, *args, **kwargs):
+    async def wrapper(agent, /, *args, **kwargs):
         driver = agent.drivers[func.__name__]
         return await driver.process_driver_call(agent, args, kwargs)
 
-- 
2.43.0


From bbaa2de7c77bfa02484f8da299b7729b4e25cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 39/47] fix: the arguments of a driver method do not depend on
 the name of its first parameter

---
 toffee/_base_agent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index df4a7df..c2ccb47 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -51,7 +51,8 @@ class Driver(BaseAgent):
         bound_args = signature.bind(None, *arg_list, **kwarg_list)
         bound_args.apply_defaults()
         arguments = bound_args.arguments
-        del arguments["self"]
+        # The first parameter is the agent itself, whatever it is called
+        del arguments[next(iter(arguments))]
         return arguments
 
     async def __drive_single_model_ports(self, model_info, arg_list, kwarg_list):
-- 
2.43.0


From 52f297b90db00b92f6a06ebca5cdde370505ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 40/47] fix: a hook decorator can be applied to several
 functions

---
 toffee/model.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/toffee/model.py b/toffee/model.py
index 6890fef..cf39411 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -45,13 +45,14 @@ def agent_hook(
     ], "sche_order must be 'model_first' or 'dut_first'"
 
     def decorator(func):
-        nonlocal agent_name
+        # The decorator may be applied to several functions, so what it was given is not changed
 
+        name = agent_name
         if agent_name == "" and agents == [] and methods == []:
-            agent_name = func.__name__
+            name = func.__name__
 
         func.__is_agent_hook__ = True
-        func.__agent_name__ = agent_name
+        func.__agent_name__ = name
         func.__agents__ = agents
         func.__methods__ = methods
         func.__matched__ = [False]
@@ -101,19 +102,18 @@ def driver_hook(
     ], "sche_order must be 'model_first' or 'dut_first'"
 
     def decorator(func):
-        nonlocal driver_path, agent_name, driver_name
-
+        path = driver_path
         if driver_path == "":
             if agent_name != "":
                 if driver_name != "":
-                    driver_path = f"{agent_name}.{driver_name}"
+                    path = f"{agent_name}.{driver_name}"
                 else:
-                    driver_path = f"{agent_name}.{func.__name__}"
+                    path = f"{agent_name}.{func.__name__}"
             else:
-                driver_path = func.__name__.replace("__", ".")
+                path = func.__name__.replace("__", ".")
 
         func.__is_driver_hook__ = True
-        func.__driver_path__ = driver_path
+        func.__driver_path__ = path
         func.__matched__ = [False]
         func.__priority__ = priority
         func.__sche_order__ = sche_order
@@ -154,20 +154,19 @@ def monitor_hook(
     assert priority in range(0, 100), "priority should be between 0 and 99"
 
     def decorator(func):
-        nonlocal monitor_path, agent_name, monitor_name
-
+        path = monitor_path
         if monitor_path == "":
             if agent_name != "":
                 if monitor_name != "":
-                    monitor_path = f"{agent_name}.{monitor_name}"
+                    path = f"{agent_name}.{monitor_name}"
                 else:
-                    monitor_path = f"{agent_name}.{func.__name__}"
+                    path = f"{agent_name}.{func.__name__}"
             else:
-                monitor_path = func.__name__.replace("__", ".")
+                path = func.__name__.replace("__", ".")
 
         func.__is_monitor_hook__ = True
         func.__priority__ = priority
-        func.__monitor_path__ = monitor_path
+        func.__monitor_path__ = path
         func.__matched__ = [False]
 
         return func
-- 
2.43.0


From bcf99457786e1ee69108dd0f76c229bd015b3ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 41/47] fix: a task that waits for the clock while it cleans up
 does not hang the end of the run

---
 toffee/asynchronous.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 5956218..849c833 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -106,7 +106,11 @@ async def cancel_all_tasks():
     }
     for task in tasks:
         task.cancel()
-    await asyncio.gather(*tasks, return_exceptions=True)
+    finished = asyncio.gather(*tasks, return_exceptions=True)
+
+    # A task that waits for the clock while it cleans up cannot finish before the last clock event
+    while not finished.done() and __has_unwait_task():
+        await asyncio.sleep(0)
 
 
 async def execute_all_coros():
@@ -171,6 +175,22 @@ Using the asynchronous event logic defined above, the external asynchronous inte
 
 
 async def __clock_loop(dut):
+    """
+    Run the clock until the end of the test.
+    """
+
+    try:
+        await __clock_forever(dut)
+    except asyncio.CancelledError:
+        # The test has failed. A task that waits for the clock while it cleans up would wait forever, cancel it again
+        while others := asyncio.all_tasks() - {asyncio.current_task()}:
+            await __other_tasks_done()
+            for task in others:
+                task.cancel()
+        raise
+
+
+async def __clock_forever(dut):
     """
     The clock loop function, which is the main loop of the asynchronous event.
     """
-- 
2.43.0


From 51690242fc7777cd6226f7200c56671eaa3dedde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:07 +0000
Subject: [PATCH 42/47] fix: a task that joins one that waits for the clock
 while it cleans up does not hang the end of the run

---
 toffee/asynchronous.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 849c833..6bc670f 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -182,13 +182,33 @@ async def __clock_loop(dut):
     try:
         await __clock_forever(dut)
     except asyncio.CancelledError:
-        # The test has failed. A task that waits for the clock while it cleans up would wait forever, cancel it again
-        while others := asyncio.all_tasks() - {asyncio.current_task()}:
-            await __other_tasks_done()
-            for task in others:
-                task.cancel()
+        await __finish_cleanups()
         raise
 
+    await __finish_cleanups()
+
+
+async def __finish_cleanups():
+    """
+    The clock has stopped. A task that waits for it while it cleans up would wait forever, cancel it again.
+    """
+
+    def others():
+        return {
+            task
+            for task in asyncio.all_tasks() - {asyncio.current_task()}
+            if task.get_name() != "main_coro"
+        }
+
+    while others():
+        try:
+            await __other_tasks_done()
+        except asyncio.CancelledError:
+            continue
+
+        for task in others():
+            task.cancel()
+
 
 async def __clock_forever(dut):
     """
-- 
2.43.0


From f8b0aae6af995b0d2c6fb0f21f80b335034175a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 43/47] fix: binding a bundle releases the signals that a bind
 of its sub-bundle or its parent has connected

---
 toffee/bundle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 585381a..48e95d5 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -720,6 +720,9 @@ class Bundle(MObject):
             self.__unbind_all()
             self.__dut_instance__ = None
         else:
+            # Its signals may be connected by a bind of one of its sub-bundles, or of the bundle it is part of
+            self.__unbind_all()
+
             # When first bind, set all sub-bundles' name
             for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
                 sub_bundle.set_name(sub_bundle_name)
-- 
2.43.0


From 03d9ff6f9e53a702ccdf64c6675fd884242a1e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:10 +0000
Subject: [PATCH 44/47] fix: a coroutine that the executor refuses leaves no
 empty group behind

---
 toffee/executor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 042d466..df9d7ac 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -225,9 +225,6 @@ class Executor(MObject):
             if driver is not None:
                 sche_group = f"{driver.agent_name}.{sche_group}"
 
-        if sche_group not in self.__coros:
-            self.__coros[sche_group] = []
-
         if priority is not None:
             assert 0 <= priority <= 99, "Priority should be between 0 and 99"
 
@@ -246,6 +243,10 @@ class Executor(MObject):
                 driver is not None
             ), f"{coro_name} is not a driver function, cannot set sche_order"
 
+        # Only now, so that a coroutine that was refused leaves nothing behind
+        if sche_group not in self.__coros:
+            self.__coros[sche_group] = []
+
         self.__coros[sche_group].append((coro, sche_order, priority))
 
     @staticmethod
-- 
2.43.0


From 99d246e3f5382504e61de12af3be0cfa536a7918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:03 +0000
Subject: [PATCH 45/47] fix: a driver or monitor method called by the one that
 overrides it runs its own body

---
 toffee/agent.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/toffee/agent.py b/toffee/agent.py
index 0509e4a..4637802 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -129,6 +129,9 @@ def __driver_wrapped_func(func):
     @functools.wraps(func)
     async def wrapper(agent, /, *args, **kwargs):
         driver = agent.drivers[func.__name__]
+        # Called by the method that overrides it: a part of that one's work
+        if driver.func is not func:
+            return await func(agent, *args, **kwargs)
         return await driver.process_driver_call(agent, args, kwargs)
 
     wrapper.__original_func__ = func
@@ -155,6 +158,9 @@ def __monitor_wrapped_func(func):
     @functools.wraps(func)
     async def wrapper(agent, *args, **kwargs):
         monitor = agent.monitors[func.__name__]
+        # Called by the method that overrides it: a part of that one's work
+        if monitor.func is not func:
+            return await func(agent, *args, **kwargs)
         return await monitor.get_queue.get()
 
     wrapper.__original_func__ = func
-- 
2.43.0


From 2c80dd1805b373dceb39be8e13cd09d1e292dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:03 +0000
Subject: [PATCH 46/47] fix: an instance made for another bundle keeps the
 rules its own sub-bundles were given

---
 toffee/bundle.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 48e95d5..c09a230 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -431,6 +431,15 @@ class Bundle(MObject):
         new_bundle = self.__class__()
         new_bundle.current_level_signals = self.current_level_signals[:]
         new_bundle.__connect_method = self.__connect_method
+
+        # The bundles inside may have been given other rules than those of their class
+        for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
+            setattr(new_bundle, sub_bundle_name, sub_bundle.__new_instance())
+        for bundle_list_name, bundle_list in self.__all_bundle_lists():
+            setattr(
+                new_bundle, bundle_list_name, BundleList.from_bundlelist(bundle_list)
+            )
+
         return new_bundle
 
     def ___dut_call_on_rise__(self, cycle):
-- 
2.43.0


From a8c0692d17022152447f16b74a8535e788c733d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:03 +0000
Subject: [PATCH 47/47] fix: the write mode a sub-bundle was given before it is
 bound is not lost

---
 toffee/bundle.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index c09a230..a57e93e 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -431,8 +431,9 @@ class Bundle(MObject):
         new_bundle = self.__class__()
         new_bundle.current_level_signals = self.current_level_signals[:]
         new_bundle.__connect_method = self.__connect_method
+        new_bundle.write_mode = self.write_mode
 
-        # The bundles inside may have been given other rules than those of their class
+        # The bundles inside may have been given other rules and modes than those of their class
         for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
             setattr(new_bundle, sub_bundle_name, sub_bundle.__new_instance())
         for bundle_list_name, bundle_list in self.__all_bundle_lists():
@@ -643,11 +644,39 @@ class Bundle(MObject):
             The bundle itself.
         """
 
-        self.write_mode = write_mode
+        self.__keep_write_mode(write_mode)
         self.__set_all_signals_write_mode(write_mode)
 
         return self
 
+    def __keep_write_mode(self, write_mode: WriteMode):
+        """
+        Keep the write mode for signals that are connected later, including sub-bundles.
+
+        Args:
+            write_mode: The write mode to keep.
+        """
+
+        self.write_mode = write_mode
+        for _, sub_bundle in self.__all_sub_bundles():
+            sub_bundle.__keep_write_mode(write_mode)
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                bundle.__keep_write_mode(write_mode)
+
+    def __restore_write_mode(self):
+        """
+        Set the write mode that was kept, that of a sub-bundle may be another one.
+        """
+
+        if self.write_mode is not None:
+            self.__set_all_signals_write_mode(self.write_mode)
+        for _, sub_bundle in self.__all_sub_bundles():
+            sub_bundle.__restore_write_mode()
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                bundle.__restore_write_mode()
+
     def __set_all_signals_write_mode(self, write_mode: WriteMode):
         """
         Set the write mode of all signals in the bundle.
@@ -747,8 +776,7 @@ class Bundle(MObject):
         )
 
         self.bound = True
-        if self.write_mode is not None:
-            self.__set_all_signals_write_mode(self.write_mode)
+        self.__restore_write_mode()
         self.make_requset_response_for(dut)
         return self
 
-- 
2.43.0

