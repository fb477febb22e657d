From 0d81ae03c17d1149eea0d689b054fd9dbfe8d46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 01/85] fix: objection background process drains every
 scheduled drop, not one per wake-up

---
 src/uvm/base/uvm_objection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index d36934c..f1a27e7 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -777,7 +777,7 @@ class UVMObjection(UVMReportObject):
             await UVMObjection.m_scheduled_list_not_empty_event.wait()
             UVMObjection.m_scheduled_list_not_empty_event.clear()
 
-            if len(UVMObjection.m_scheduled_list) != 0:
+            while len(UVMObjection.m_scheduled_list) != 0:
                 # Save off the context before the fork
                 c = UVMObjection.m_scheduled_list.pop(0)
 
-- 
2.43.0


From a57ec77c5ac7d5c27d44354f6934a2e367ce788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 02/85] fix: a re-raise during a drain cancels the drain

---
 src/uvm/base/uvm_objection.py | 41 +++++++++++++++--------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index f1a27e7..7897268 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -513,16 +513,10 @@ class UVMObjection(UVMReportObject):
                 # Caught it with the forked drain running
                 ctxt = self.m_forked_contexts[obj]
                 del self.m_forked_contexts[obj]
-                # Kill the drain
+                # Cancel the running drain, it checks this after each wait
+                self.m_drain_proc.pop(obj, None)
 
         uvm_debug(self, 'm_raise', obj.get_name() + " ENDING FUNC")
-        # TODO
-        #if UVM_USE_PROCESS_CONTAINER:
-        #    self.m_drain_proc[obj].kill()
-        #    del self.m_drain_proc[obj]
-        #else:
-        #    self.m_drain_proc[obj].p.kill()
-        #    del self.m_drain_proc[obj]
         uvm_debug(self, 'm_raise', obj.get_name() + " NEVER GETS HERE")
 
         if ctxt is None:
@@ -809,27 +803,21 @@ class UVMObjection(UVMReportObject):
 
             # Move it in to forked (so re-raise can figure out props)
             objection.m_forked_contexts[ctxt.obj] = ctxt
-            # Save off our process handle, so a re-raise can kill it...
-
-            # TODO
-            #if UVM_USE_PROCESS_CONTAINER == 0:
-            #    objection.m_drain_proc[ctxt.obj] = process::self()
-            #else:
-            #    process_container_c c = new(process::self())
-            #    objection.m_drain_proc[ctxt.obj]=c
+            # Identify this drain, so a re-raise can cancel it...
+            obj = ctxt.obj
+            drain = object()
+            objection.m_drain_proc[obj] = drain
 
             # Execute the forked drain
             await objection.m_forked_drain(ctxt.obj, ctxt.source_obj, ctxt.description,
                     ctxt.count, 1)
-            # Cleanup if we survived (no re-raises)
-            if ctxt.obj in objection.m_drain_proc:
-                del objection.m_drain_proc[ctxt.obj]
-            else:
-                pass
+            # Cleanup if we survived (no re-raises), otherwise the context is
+            # no longer ours
+            if objection.m_drain_proc.get(obj) is not drain:
+                return
+            del objection.m_drain_proc[obj]
 
-            # tpoikela: Added check since ctxt.obj becomes None
-            #if ctxt.obj in objection.m_forked_contexts:
-            del objection.m_forked_contexts[ctxt.obj]
+            del objection.m_forked_contexts[obj]
             # Clear out the context object (prevent memory leaks)
             ctxt.clear()
             # Save the context in the pool for later reuse
@@ -846,10 +834,13 @@ class UVMObjection(UVMReportObject):
 
     async def m_forked_drain(self, obj, source_obj, description="", count=1,
             in_top_thread=0):
+        drain = self.m_drain_proc.get(obj)
 
         if obj in self.m_drain_time:
             # TODO `uvm_delay(self.m_drain_time[obj])
             await Timer(self.m_drain_time[obj])
+            if self.m_drain_proc.get(obj) is not drain:
+                return  # cancelled by a re-raise
 
         if self.m_trace_mode:
             self.m_report(obj,source_obj,description,count,"all_dropped")
@@ -859,6 +850,8 @@ class UVMObjection(UVMReportObject):
         # wait for all_dropped cbs to complete
         await uvm_zero_delay()
         # TODO wait fork
+        if self.m_drain_proc.get(obj) is not drain:
+            return  # cancelled by a re-raise
 
         # we are ready to delete the 0-count entries for the current
         # object before propagating up the hierarchy.
-- 
2.43.0


From 2e6cd2a1a9ca2208706e817e0e9beba0feaf2dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 03/85] fix: set_drain_time applies to the given object

---
 src/uvm/base/uvm_objection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 7897268..2c36336 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -892,7 +892,7 @@ class UVMObjection(UVMReportObject):
     def set_drain_time(self, obj=None, drain=0):
         if obj is None:
             obj = self.m_top
-            self.m_drain_time[obj] = drain
+        self.m_drain_time[obj] = drain
 
     #  //----------------------
     #  // Group: Callback Hooks
-- 
2.43.0


From 138dd94b4594ba27497e59c2d19cd8eefd600be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 04/85] fix: objection clear() removes forked and running
 drains

---
 src/uvm/base/uvm_objection.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 2c36336..4b50da5 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -738,18 +738,12 @@ class UVMObjection(UVMReportObject):
         while len(self.m_forked_list) > 0:
             self.m_forked_list[0].clear()
             UVMObjection.m_context_pool.append(self.m_forked_list[0])
-            front = self.m_forked_list[0]
-            self.m_forked_list[0].remove(front)
+            self.m_forked_list.pop(0)
 
         # running drains have a context and a process
-        for o in self.m_forked_contexts:
-            if UVM_USE_PROCESS_CONTAINER:
-                self.m_drain_proc[o].kill()
-                del self.m_drain_proc[o]
-            else:
-                self.m_drain_proc[o].p.kill()
-                del self.m_drain_proc[o]
-
+        for o in list(self.m_forked_contexts):
+            # cancels the drain, it checks this after each wait
+            self.m_drain_proc.pop(o, None)
             self.m_forked_contexts[o].clear()
             UVMObjection.m_context_pool.append(self.m_forked_contexts[o])
             del self.m_forked_contexts[o]
-- 
2.43.0


From b28d136752b05334901eac42082eb930b1f15403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 05/85] fix: objection do_copy reads the propagation mode of
 the copied objection

---
 src/uvm/base/uvm_objection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 4b50da5..4c8ed46 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -1152,7 +1152,7 @@ class UVMObjection(UVMReportObject):
         self.m_source_count = _rhs.m_source_count
         self.m_total_count  = _rhs.m_total_count
         self.m_drain_time   = _rhs.m_drain_time
-        self.m_prop_mode    = _rhs.self.m_prop_mode
+        self.m_prop_mode    = _rhs.m_prop_mode
 
 
 # Have a pool of context objects to use
-- 
2.43.0


From 6d1326eae750c4b558cb98632522a81ac68db2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 06/85] fix: copied objection does not share its counts with
 the original

---
 src/uvm/base/uvm_objection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 4c8ed46..2e0fbed 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -1149,9 +1149,9 @@ class UVMObjection(UVMReportObject):
 
     def do_copy(self, rhs):
         _rhs = rhs
-        self.m_source_count = _rhs.m_source_count
-        self.m_total_count  = _rhs.m_total_count
-        self.m_drain_time   = _rhs.m_drain_time
+        self.m_source_count = dict(_rhs.m_source_count)
+        self.m_total_count  = dict(_rhs.m_total_count)
+        self.m_drain_time   = dict(_rhs.m_drain_time)
         self.m_prop_mode    = _rhs.m_prop_mode
 
 
-- 
2.43.0


From fe0463263db5a719c0dfda8001d2f6369fc629ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 07/85] fix: objection wait_for waits for the next event, not
 for one already seen

---
 src/uvm/base/uvm_objection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 2e0fbed..33867f2 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -975,11 +975,15 @@ class UVMObjection(UVMReportObject):
             self.m_events[obj] = UVMObjectionEvents()
 
         self.m_events[obj].waiters += 1
+        # Wait for the next occurrence, the event may be set by an earlier one
         if objt_event == UVM_RAISED:
+            self.m_events[obj].raised.clear()
             await self.m_events[obj].raised.wait()
         elif objt_event == UVM_DROPPED:
+            self.m_events[obj].dropped.clear()
             await self.m_events[obj].dropped.wait()
         elif objt_event == UVM_ALL_DROPPED:
+            self.m_events[obj].all_dropped.clear()
             await self.m_events[obj].all_dropped.wait()
 
         self.m_events[obj].waiters -= 1
-- 
2.43.0


From a22031915051058f54fc62ed8e5f45fe5e9a7b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 08/85] fix: type override by name keeps the overridden type's
 own name entry

---
 src/uvm/base/uvm_factory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 91c943a..ce52c8d 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -333,7 +333,10 @@ class UVMDefaultFactory(UVMFactory):
                            ovrd_type=override_type)
 
             self.m_type_overrides.append(override)
-            self.m_type_names.add(original_type_name, override.ovrd_type)
+            # Do not hide a registered type, its name is still needed to find
+            # the instance overrides of that type
+            if original_type is None:
+                self.m_type_names.add(original_type_name, override.ovrd_type)
 
     def check_inst_override_exists(self, original_type, override_type,
             full_inst_path):
-- 
2.43.0


From 6b0b363fff98e0aa26b52013cc78e15646b8f423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 09/85] fix: a glob scope matches up to the end of the name; a
 re-set configuration value is found first

---
 src/uvm/base/sv.py           | 7 ++++++-
 src/uvm/base/uvm_resource.py | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 8a4a0f4..6c4d4bf 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -44,7 +44,12 @@ RET_OK = 0
 
 
 def uvm_re_match(rex, _str):
-    m = re.search(rex, _str)
+    if len(rex) > 1 and rex[0] == "/" and rex[-1] == "/":
+        m = re.search(rex[1:-1], _str)
+    elif rex == "":
+        m = re.search(rex, _str)
+    else:  # Converted from a glob, which must match up to the end
+        m = re.search("(?:" + rex + r")\Z", _str)
     if m is not None:
         return RET_OK
     return RET_ERR
diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 0a8617d..9f233af 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -1514,7 +1514,7 @@ class UVMResourcePool:
         q.pop(i)
 
         if pri == PRI_HIGH:
-            q.append(rsrc)
+            q.insert(0, rsrc)
         elif pri == PRI_LOW:
             q.append(rsrc)
 
-- 
2.43.0


From 084c60addf7d9afc2c5960e8049cb55064355d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 10/85] fix: configuration settings apply in precedence order

---
 src/uvm/base/uvm_component.py | 3 ++-
 src/uvm/base/uvm_resource.py  | 5 ++---
 src/uvm/comps/uvm_agent.py    | 1 +
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 032489a..af991b5 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -1216,11 +1216,12 @@ class UVMComponent(UVMReportObject):
         # // rq is in precedence order now, so we have to go through in reverse
         # // order to do the settings.
         #  for(int i=rq.size()-1; i>=0; --i):
-        for i in range(len(rq)):
+        for i in reversed(range(len(rq))):
 
             r = rq[i]
             name = r.get_name()
             # // does name have brackets [] in it?
+            j = 0
             while j < len(name):
                 if (name[j] == "[" or name[j] == "."):
                     break
diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 9f233af..52fbe0b 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -654,8 +654,7 @@ class UVMResource(UVMResourceBase):
     def get_type(cls):
         if UVMResource.my_type is None:
             UVMResource.my_type = UVMResource()
-        else:
-            return UVMResource.my_type
+        return UVMResource.my_type
 
     def get_type_handle(self):
         """
@@ -1283,7 +1282,7 @@ class UVMResourcePool:
                 _all[r.precedence] = UVMQueue()
             _all[r.precedence].push_front(r)  # since we will push_front in the final
         qq = []
-        for key in _all:
+        for key in sorted(_all):
             for j in range(len(_all[key])):
                 r = _all[key].get(j)
                 #qq.push_front(r)
diff --git a/src/uvm/comps/uvm_agent.py b/src/uvm/comps/uvm_agent.py
index 34afc24..5d251fb 100644
--- a/src/uvm/comps/uvm_agent.py
+++ b/src/uvm/comps/uvm_agent.py
@@ -76,6 +76,7 @@ class UVMAgent(UVMComponent):
             rsrc = rq[i]  # uvm_resource_base
             rap = rsrc
             self.is_active = rap.read(self)
+            break  # The first one has the highest precedence
 
     type_name = "uvm_agent"
 
-- 
2.43.0


From 58e8783f8a7d49b3aa484c5eaf4864110ae6b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 11/85] fix: queue slices and copies, string pool delete, one
 global pool per pool class

---
 src/uvm/base/uvm_pool.py  | 14 ++++++--------
 src/uvm/base/uvm_queue.py |  8 ++------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 23503ca..ab8f044 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -165,9 +165,7 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
         return UVMPool(name, self.T)
 
     def do_print(self, printer) -> None:
-        while self.has_next():
-            key = self.next()
-            item = self.pool[key]
+        for key, item in self.pool.items():
             # print_generic(self, name, type_name, size, value, scope_separator="."):
             if hasattr(item, 'convert2string'):
                 printer.print_string(item.get_name(), item.convert2string())
@@ -263,9 +261,9 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         Returns:
             UVMObjectStringPool: Global pool
         """
-        if UVMObjectStringPool.m_global_pool is None:
-            UVMObjectStringPool.m_global_pool = UVMObjectStringPool("global_pool")
-        return UVMObjectStringPool.m_global_pool
+        if cls.__dict__.get("m_global_pool") is None:
+            cls.m_global_pool = cls("global_pool")
+        return cls.m_global_pool
 
 
     @classmethod
@@ -279,7 +277,7 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         Returns:
             any: Object matching the key in the global pool.
         """
-        gpool = UVMObjectStringPool.get_global_pool()
+        gpool = cls.get_global_pool()
         return gpool.get(key)
 
 
@@ -310,7 +308,7 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         if not self.exists(key):
             uvm_warning("POOLDEL", "delete: key '{}' doesn't exist".format(key))
             return
-        self.delete(key)
+        super().delete(key)
     #  endfunction
 
     def do_print(self, printer) -> None:
diff --git a/src/uvm/base/uvm_queue.py b/src/uvm/base/uvm_queue.py
index 1be026e..0f2ac67 100644
--- a/src/uvm/base/uvm_queue.py
+++ b/src/uvm/base/uvm_queue.py
@@ -137,11 +137,7 @@ class UVMQueue(UVMObject, Generic[T]):
         Raises:
         """
         if isinstance(i, slice):
-            # TODO should handle slices like [:] and [:-1]
-            res = []
-            for i in range(slice.start, slice.stop):
-                res.append(self.queue[i])
-            return res
+            return self.queue[i]
         elif i < self.size():
             return self.queue[i]
         else:
@@ -250,7 +246,7 @@ class UVMQueue(UVMObject, Generic[T]):
         if rhs is None:
             return
         UVMObject.do_copy(self, rhs)
-        self.queue = rhs.queue
+        self.queue = list(rhs.queue)
 
     def convert2string(self) -> str:
         return str(self.queue)
-- 
2.43.0


From 075ca666de2b626a9dd5e97c223c888b72183b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 12/85] fix: command line verbosity, action and severity
 settings are validated and applied

---
 src/uvm/base/uvm_component.py | 57 +++++++++++++++--------------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index af991b5..9cc6b40 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2368,11 +2368,7 @@ class UVMComponent(UVMReportObject):
             uvm_split_string(values[i], ",", args)
 
             # Warning is already issued in uvm_root, so just don't keep it
-            len_match = len(args) not in [4, 5]
-            setting.verbosity = clp.m_convert_verb(args[2])
-            if UVMComponent.first_m_set_cl_verb and (len_match or setting.verbosity == -1):
-                del values[i]
-            else:
+            if len(args) in [4, 5] and clp.m_convert_verb(args[2]) != -1:
                 setting.comp = args[0]
                 setting.id = args[1]
                 setting.verbosity = clp.m_convert_verb(args[2])
@@ -2411,13 +2407,14 @@ class UVMComponent(UVMReportObject):
             top.find_all(m_time_settings[i].comp, comps)
             duration = m_time_settings[i].offset - last_time
             last_time = m_time_settings[i].offset
-            cocotb.start_soon(self.m_set_comp_settings(i, comps.copy(), duration))
+            await self.m_set_comp_settings(i, comps.copy(), duration)
         #end join_none // fork begin
 
 
     async def m_set_comp_settings(self, i, comps, dur):
         m_time_settings = UVMComponent.m_time_settings
-        await Timer(dur)
+        if dur > 0:
+            await Timer(dur)
         if m_time_settings[i].id == "_ALL_":
             for comp in comps:
                 comp.set_report_verbosity_level(m_time_settings[i].verbosity)
@@ -2447,12 +2444,13 @@ class UVMComponent(UVMReportObject):
 
                 if len(args) != 4:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN1, len(args), values[idx]))
+                    continue
 
-                if((args[2] != "_ALL_") and not uvm_string_to_severity(args[2], sev)):
+                if((args[2] != "_ALL_") and uvm_string_to_severity(args[2], sev) == -1):
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN2, args[2], values[idx]))
                     continue
 
-                if not uvm_string_to_action(args[3], action):
+                if not uvm_string_to_action(args[3], action) and args[3] != "UVM_NO_ACTION":
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN3, args[3], values[idx]))
                     continue
                 t.args = args
@@ -2508,7 +2506,7 @@ class UVMComponent(UVMReportObject):
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN4, len(args), values[idx]))
                     continue
 
-                if args[2] != "_ALL_" and not uvm_string_to_severity(args[2], orig_sev):
+                if args[2] != "_ALL_" and uvm_string_to_severity(args[2], orig_sev) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN5, args[2], values[idx]))
                     continue
 
@@ -2575,29 +2573,24 @@ class UVMComponent(UVMReportObject):
         Args:
             phase:
         """
-        pass
-        for i in self.m_verbosity_settings:
-            if phase.get_name() == self.m_verbosity_settings[i].phase:
-                if self.m_verbosity_settings[i].offset == 0:
-                    if self.m_verbosity_settings[i].id == "_ALL_":
-                        self.set_report_verbosity_level(self.m_verbosity_settings[i].verbosity)
-                    else:
-                        self.set_report_id_verbosity(self.m_verbosity_settings[i].id,
-                                self.m_verbosity_settings[i].verbosity)
+        settings = self.m_verbosity_settings
+        self.m_verbosity_settings = [x for x in settings if x.phase != phase.get_name()]
+        for setting in settings:
+            if phase.get_name() == setting.phase:
+                if setting.offset == 0:
+                    self.m_apply_verbosity_setting(setting)
                 else:
-                    #process p = process::self()
-                    #string p_rand = p.get_randstate()
-                    #fork begin
-                    setting = self.m_verbosity_settings[i]
-                    #setting.offset
-                    if setting.id == "_ALL_":
-                        self.set_report_verbosity_level(setting.verbosity)
-                    else:
-                        self.set_report_id_verbosity(setting.id, setting.verbosity)
-                    #end join_none
-                    #p.set_randstate(p_rand)
-                # Remove after use
-                del self.m_verbosity_settings[i]
+                    cocotb.start_soon(self.m_apply_delayed_setting(setting))
+
+    def m_apply_verbosity_setting(self, setting):
+        if setting.id == "_ALL_":
+            self.set_report_verbosity_level(setting.verbosity)
+        else:
+            self.set_report_id_verbosity(setting.id, setting.verbosity)
+
+    async def m_apply_delayed_setting(self, setting):
+        await Timer(setting.offset)
+        self.m_apply_verbosity_setting(setting)
 
     def kill(self):
         """
-- 
2.43.0


From baf43c42a9dab23b1603d566b001e029cf9e4060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 13/85] fix: report macros use the issuing object's verbosity;
 message recording reuses its stream

---
 src/uvm/base/uvm_report_catcher.py    |  2 +-
 src/uvm/base/uvm_report_server.py     | 16 ++++++----------
 src/uvm/macros/uvm_message_defines.py | 24 ++++++++++++++++--------
 3 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index dae815e..f0121f6 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -290,7 +290,7 @@ class UVMReportCatcher(UVMCallback):
     #
     def set_action(self, action):
         self.m_modified_report_message.set_action(action)
-        self.m_set_action_called = 1
+        UVMReportCatcher.m_set_action_called = True
 
     #// Function: set_context
     #//
diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index e0fc451..d903322 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -344,12 +344,10 @@ class UVMReportServer(UVMObject):
         return self.m_message_db
 
     def get_severity_set(self, q: List[Any]) -> None:
-        while self.m_severity_count.has_next():
-            q.append(self.m_severity_count.next())
+        q.extend(self.m_severity_count.key_list())
 
     def get_id_set(self, q: List[Any]) -> None:
-        while self.m_id_count.has_next():
-            q.append(self.m_id_count.next())
+        q.extend(self.m_id_count.key_list())
 
     def f_display(self, file, _str) -> None:
         """
@@ -422,13 +420,11 @@ class UVMReportServer(UVMObject):
 
         # UVM_RM_RECORD action
         if report_message.get_action() & UVM_RM_RECORD:
-            stream = None  # uvm_tr_stream stream
             ro = report_message.get_report_object()
             rh = report_message.get_report_handler()
 
-            # Check for pre-existing stream TODO
-            #if (m_streams.exists(ro.get_name()) && (m_streams[ro.get_name()].exists(rh.get_name())))
-            #stream = m_streams[ro.get_name()][rh.get_name()]
+            # Check for pre-existing stream
+            stream = self.m_streams.get(ro.get_name(), {}).get(rh.get_name())
 
             # If no pre-existing stream (or for some reason pre-existing stream was ~null~)
             if stream is None:
@@ -444,7 +440,7 @@ class UVMReportServer(UVMObject):
                     # Open the stream.    Name=report object name, scope=report handler name, type=MESSAGES
                     stream = db.open_stream(ro.get_name(), rh.get_name(), "MESSAGES")
                     # Save off the openned stream
-                    self.m_streams[ro.get_name()][rh.get_name()] = stream
+                    self.m_streams.setdefault(ro.get_name(), {})[rh.get_name()] = stream
             if stream is not None:
                 recorder = stream.open_recorder(report_message.get_name(), None,report_message.get_type_name())
                 if recorder is not None:
@@ -529,7 +525,7 @@ class UVMReportServer(UVMObject):
 
         if self.show_verbosity is True:
             verb = report_message.get_verbosity()
-            verbosity_str = "(" + verb + ")"
+            verbosity_str = "(" + str(verb) + ")"
 
         if self.show_terminator is True:
             terminator_str = " -" + sev_string
diff --git a/src/uvm/macros/uvm_message_defines.py b/src/uvm/macros/uvm_message_defines.py
index 6ea63b5..03b23b8 100644
--- a/src/uvm/macros/uvm_message_defines.py
+++ b/src/uvm/macros/uvm_message_defines.py
@@ -112,12 +112,20 @@ if UVM_REPORT_DISABLE_LINE:
 #//
 #// |`uvm_info(ID, MSG, VERBOSITY)
 
+def _reporter_enabled(f_locals, verbosity, severity, ID):
+    """ The object which issues the message decides whether it is enabled """
+    parent_self = f_locals.get('self')
+    if hasattr(parent_self, 'uvm_report_enabled'):
+        return parent_self.uvm_report_enabled(verbosity, severity, ID)
+    return uvm_report_enabled(verbosity, severity, ID)
+
+
 def uvm_info(ID, MSG, VERBOSITY):
-    if uvm_report_enabled(VERBOSITY, UVM_INFO, ID):
+    f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
+    if _reporter_enabled(f_locals, VERBOSITY, UVM_INFO, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
-        f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
         if 'self' in f_locals:
             parent_self = f_locals['self']
             if hasattr(parent_self, 'uvm_report_info'):
@@ -139,11 +147,11 @@ def uvm_info(ID, MSG, VERBOSITY):
 #// |`uvm_warning(ID, MSG)
 
 def uvm_warning(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_WARNING,ID):
+    f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
+    if _reporter_enabled(f_locals, UVM_NONE, UVM_WARNING, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
-        f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
         if 'self' in f_locals:
             parent_self = f_locals['self']
             if hasattr(parent_self, 'uvm_report_warning'):
@@ -164,11 +172,11 @@ def uvm_warning(ID, MSG):
 #// |`uvm_error(ID, MSG)
 
 def uvm_error(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_ERROR,ID):
+    f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
+    if _reporter_enabled(f_locals, UVM_NONE, UVM_ERROR, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
-        f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
         if 'self' in f_locals:
             parent_self = f_locals['self']
             if hasattr(parent_self, 'uvm_report_error'):
@@ -190,11 +198,11 @@ def uvm_error(ID, MSG):
 
 
 def uvm_fatal(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_FATAL,ID):
+    f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
+    if _reporter_enabled(f_locals, UVM_NONE, UVM_FATAL, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
-        f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
         if 'self' in f_locals:
             parent_self = f_locals['self']
             if hasattr(parent_self, 'uvm_report_fatal'):
-- 
2.43.0


From 1a5c3bcfd1f4d848a5e0e7814db4628830c36a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 14/85] fix: plus arguments are kept whole and argument
 patterns are searched, not anchored

---
 src/uvm/base/uvm_cmdline_processor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_cmdline_processor.py b/src/uvm/base/uvm_cmdline_processor.py
index b4b064d..81c709c 100644
--- a/src/uvm/base/uvm_cmdline_processor.py
+++ b/src/uvm/base/uvm_cmdline_processor.py
@@ -255,7 +255,7 @@ def uvm_dpi_regcomp(match):
 
 
 def uvm_dpi_regexec(exp_h, elem):
-    if exp_h.match(elem) is not None:
+    if exp_h.search(elem) is not None:
         return 0
     return 1
 
@@ -526,11 +526,11 @@ class UVMCmdlineProcessor(UVMReportObject):
                 continue
             self.m_argv.append(arg)
             if arg[0] == "+":
-                self.m_plus_argv.append(arg[0])
+                self.m_plus_argv.append(arg)
                 uvm_debug(self, '__init__', "Simple UVM plusarg %s" % (arg))
             sub = arg[1:4]
             sub = sub.upper()
-            if sub == "UVM":
+            if arg[0] in '+-' and sub == "UVM":
                 self.m_uvm_argv.append(arg)
                 uvm_debug(self, '__init__', "Found UVM plusarg %s" % (arg))
 
-- 
2.43.0


From a574bf9be15376ad98ae8aec9d2e004bf73167ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 15/85] fix: type-wide callbacks reach every object, iteration
 skips disabled callbacks, report catchers skip other callbacks

---
 src/uvm/base/uvm_callback.py           | 57 +++++++++++---------------
 src/uvm/base/uvm_report_catcher.py     |  4 ++
 src/uvm/macros/uvm_callback_defines.py |  2 +-
 3 files changed, 30 insertions(+), 33 deletions(-)

diff --git a/src/uvm/base/uvm_callback.py b/src/uvm/base/uvm_callback.py
index ce091e2..db90762 100644
--- a/src/uvm/base/uvm_callback.py
+++ b/src/uvm/base/uvm_callback.py
@@ -112,9 +112,9 @@ class UVMCallbacksBase(UVMObject):
 
     @classmethod
     def m_initialize(cls):
-        if cls.m_b_inst is None:
-            cls.m_b_inst = UVMCallbacksBase("callbacks_base")
-            cls.m_pool = UVMPool()
+        if UVMCallbacksBase.m_b_inst is None:
+            UVMCallbacksBase.m_b_inst = UVMCallbacksBase("callbacks_base")
+            UVMCallbacksBase.m_pool = UVMPool()
         return UVMCallbacksBase.m_b_inst
 
     def m_am_i_a(self, obj):
@@ -238,7 +238,6 @@ class UVMTypedCallbacks(UVMCallbacksBase):  # (type T=uvm_object) extends uvm_ca
         if UVMTypedCallbacks.m_t_inst is None:
             super().m_initialize()
             UVMTypedCallbacks.m_t_inst = UVMTypedCallbacks("typed_callbacks")
-            UVMTypedCallbacks.m_t_inst.m_tw_cb_q = []
         return UVMTypedCallbacks.m_t_inst
 
 
@@ -333,29 +332,22 @@ class UVMTypedCallbacks(UVMCallbacksBase):  # (type T=uvm_object) extends uvm_ca
             else:
                 cls.m_t_inst.m_tw_cb_q.insert(0, cb)
 
-        if cls.m_t_inst.m_pool.has_first():
-            obj = cls.m_t_inst.m_pool.get_first()
-            while True:
-                #if($cast(me,obj)):
-                me = obj
-                q = cls.m_t_inst.m_pool.get(obj)
-                if q is None:
-                    q = []
-                    cls.m_t_inst.m_pool.add(obj,q)
-
-                if self.m_cb_find(q,cb) == -1:
-                    if not warned:
-                        cls.m_cb_find_name(q, cb.get_name(), "object instance "
-                                + me.get_full_name())
-
-                    if ordering == UVM_APPEND:
-                        q.append(cb)
-                    else:
-                        q.insert(0, cb)
-
-                if cls.m_t_inst.m_pool.has_next() is False:
-                    break
-                #end while(m_t_inst.m_pool.next(obj))
+        for obj in cls.m_t_inst.m_pool.key_list():
+            me = obj
+            q = cls.m_t_inst.m_pool.get(obj)
+            if q is None:
+                q = []
+                cls.m_t_inst.m_pool.add(obj,q)
+
+            if self.m_cb_find(q,cb) == -1:
+                if not warned:
+                    cls.m_cb_find_name(q, cb.get_name(), "object instance "
+                            + me.get_full_name())
+
+                if ordering == UVM_APPEND:
+                    q.append(cb)
+                else:
+                    q.insert(0, cb)
 
         for i in range(len(self.m_derived_types)):
             cb_pair = UVMTypeIDBase.typeid_map[self.m_derived_types[i]]
@@ -765,7 +757,8 @@ class UVMCallbacks(UVMTypedCallbacks):
 
                 # for(int i=0; i<m_t_inst.m_tw_cb_q.size(); ++i)
                 for i in range(len(cls.m_t_inst.m_tw_cb_q)):
-                    q.append(cls.m_t_inst.m_tw_cb_q[i])
+                    if cls.m_cb_find(q, cls.m_t_inst.m_tw_cb_q[i]) == -1:
+                        q.append(cls.m_t_inst.m_tw_cb_q[i])
 
 
             #check if already exists in the queue
@@ -980,7 +973,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]  # Just return 1st index without type match
         return None
         #  endfunction
@@ -1020,7 +1013,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]  # Just return 1st index without type match
         return None
 
@@ -1060,7 +1053,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]
         return None
         #  endfunction
@@ -1104,7 +1097,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]
         return None
 
diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index f0121f6..6832b1e 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -51,6 +51,10 @@ class UVMReportCb(UVMCallbacks):
     def get_first(cls, itr, obj):
         return super().get_first(itr, obj, UVMReportCatcher)
 
+    @classmethod
+    def get_next(cls, itr, obj):
+        return super().get_next(itr, obj, UVMReportCatcher)
+
 
 UVMReportCbIter = UVMCallbackIter
 
diff --git a/src/uvm/macros/uvm_callback_defines.py b/src/uvm/macros/uvm_callback_defines.py
index 17f59f9..6df5f3b 100644
--- a/src/uvm/macros/uvm_callback_defines.py
+++ b/src/uvm/macros/uvm_callback_defines.py
@@ -254,7 +254,7 @@ async def uvm_do_obj_callbacks_async(OBJ, CB, METHOD, *args):
 #`define uvm_do_callbacks_exit_on(T,CB,METHOD,VAL) \
 #  `uvm_do_obj_callbacks_exit_on(T,CB,this,METHOD,VAL) \
 def uvm_do_callbacks_exit_on(self,CB,METHOD,VAL, *args):
-    uvm_do_obj_callbacks_exit_on(self, CB, METHOD, VAL, *args)
+    return uvm_do_obj_callbacks_exit_on(self, CB, METHOD, VAL, *args)
 
 
 #//-----------------------------------------------------------------------------
-- 
2.43.0


From 5594f7b490ee716a9a581322409d3be80a3ed50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 16/85] fix: set_inst_override_by_name, used by
 +uvm_set_inst_override, was missing

---
 src/uvm/base/uvm_factory.py | 109 +++++++++++++++++-------------------
 1 file changed, 52 insertions(+), 57 deletions(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index ce52c8d..63ac351 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -412,63 +412,58 @@ class UVMDefaultFactory(UVMFactory):
         self.m_inst_override_queues[original_type].push_back(override)
 
 
-    # set_inst_override_by_name
-    # TODO
-    #function void uvm_default_factory::set_inst_override_by_name (
-    # string original_type_name,
-    #                                                      string override_type_name,
-    #                                                      string full_inst_path)
-    #
-    #  uvm_factory_override override
-    #  uvm_object_wrapper original_type
-    #  uvm_object_wrapper override_type
-    #
-    #  if(self.m_type_names.exists(original_type_name))
-    #    original_type = self.m_type_names[original_type_name]
-    #
-    #  if(self.m_type_names.exists(override_type_name))
-    #    override_type = self.m_type_names[override_type_name]
-    #
-    #  // check that type is registered with the factory
-    #  if (override_type  is None):
-    #    uvm_report_error("TYPNTF", {"Cannot register instance override with type name '",
-    #    original_type_name,"' and instance path '",full_inst_path,"' because the type it's supposed ",
-    #    "to produce, '",override_type_name,"', is not registered with the factory."}, UVM_NONE)
-    #    return
-    #  end
-    #
-    #  if (original_type  is None)
-    #      m_lookup_strs[original_type_name] = 1
-    #
-    #  override = new(.full_inst_path(full_inst_path),
-    #                 .orig_type(original_type),
-    #                 .orig_type_name(original_type_name),
-    #                 .ovrd_type(override_type))
-    #
-    #  if(original_type != null):
-    #    if (check_inst_override_exists(original_type,override_type,full_inst_path))
-    #      return
-    #    if(!m_inst_override_queues.exists(original_type))
-    #      m_inst_override_queues[original_type] = new
-    #    m_inst_override_queues[original_type].queue.push_back(override)
-    #  end
-    #  else:
-    #    if(m_has_wildcard(original_type_name)):
-    #       foreach(self.m_type_names[i]):
-    #         if(uvm_is_match(original_type_name,i)):
-    #           this.set_inst_override_by_name(i, override_type_name, full_inst_path)
-    #         end
-    #       end
-    #       m_wildcard_inst_overrides.push_back(override)
-    #    end
-    #    else:
-    #      if(!self.m_inst_override_name_queues.exists(original_type_name))
-    #        self.m_inst_override_name_queues[original_type_name] = new
-    #      self.m_inst_override_name_queues[original_type_name].queue.push_back(override)
-    #    end
-    #  end
-    #
-    #endfunction
+    def set_inst_override_by_name(self, original_type_name, override_type_name,
+            full_inst_path):
+        """
+        Overrides the type with name `original_type_name` (which may contain
+        wildcards) with the type `override_type_name` in all instances which
+        match the given `full_inst_path`.
+
+        Args:
+            original_type_name (str):
+            override_type_name (str):
+            full_inst_path (str):
+        """
+        original_type = None
+        override_type = None
+
+        if self.m_type_names.exists(original_type_name):
+            original_type = self.m_type_names.get(original_type_name)
+
+        if self.m_type_names.exists(override_type_name):
+            override_type = self.m_type_names.get(override_type_name)
+
+        # check that type is registered with the factory
+        if override_type is None:
+            uvm_report_error("TYPNTF", "Cannot register instance override with type name '"
+                + original_type_name + "' and instance path '" + full_inst_path
+                + "' because the type it's supposed to produce, '"
+                + override_type_name + "', is not registered with the factory.", UVM_NONE)
+            return
+
+        if original_type is None:
+            self.m_lookup_strs[original_type_name] = 1
+
+        override = UVMFactoryOverride(full_inst_path=full_inst_path,
+            orig_type=original_type,
+            orig_type_name=original_type_name,
+            ovrd_type=override_type)
+
+        if original_type is not None:
+            if self.check_inst_override_exists(original_type, override_type, full_inst_path):
+                return
+            if original_type not in self.m_inst_override_queues:
+                self.m_inst_override_queues[original_type] = UVMQueue()
+            self.m_inst_override_queues[original_type].push_back(override)
+        elif m_has_wildcard(original_type_name):
+            for type_name in self.m_type_names.key_list():
+                if uvm_is_match(original_type_name, type_name):
+                    self.set_inst_override_by_name(type_name, override_type_name, full_inst_path)
+            self.m_wildcard_inst_overrides.push_back(override)
+        else:
+            if original_type_name not in self.m_inst_override_name_queues:
+                self.m_inst_override_name_queues[original_type_name] = UVMQueue()
+            self.m_inst_override_name_queues[original_type_name].push_back(override)
 
     def create_object_by_name(self, requested_type_name, parent_inst_path="",
               name=""):
-- 
2.43.0


From b84e018efcdc57c2281a8f8b84848dc4ccafbef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 17/85] fix: command line timeout, quit count, verbosity and
 type override settings are applied as given

---
 src/uvm/base/uvm_root.py | 52 +++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 5bbd5dc..bdfc140 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -415,8 +415,8 @@ class UVMRoot(UVMComponent):
 
         if len(comp_list) == 0:
             uvm_report_warning("CMPNFD",
-              "Component matching '", comp_match,
-               "' was not found in the list of uvm_components", UVM_NONE)
+              "Component matching '" + comp_match
+               + "' was not found in the list of uvm_components", UVM_NONE)
             return None
 
         return comp_list[0]
@@ -538,13 +538,14 @@ class UVMRoot(UVMComponent):
         self.clp.get_arg_values("+uvm_set_verbosity=", set_verbosity_settings)
 
         for i in range(len(set_verbosity_settings)):
+            split_vals.clear()
             uvm_split_string(set_verbosity_settings[i], ",", split_vals)
             if len(split_vals) < 4 or len(split_vals) > 5:
                 self.uvm_report_warning("INVLCMDARGS",
                   sv.sformatf(MSG_INVLCMDARGS, set_verbosity_settings[i]), UVM_NONE, "", "")
 
             # Invalid verbosity
-            if self.clp.m_convert_verb(split_vals[2]) == -1:
+            elif self.clp.m_convert_verb(split_vals[2]) == -1:
                 self.uvm_report_warning("INVLCMDVERB",
                   sv.sformatf("Invalid verbosity found on the command line for setting '%s'.",
                   set_verbosity_settings[i]), UVM_NONE, "", "")
@@ -579,9 +580,11 @@ class UVMRoot(UVMComponent):
                 sv.sformatf("'+UVM_TIMEOUT=%s' provided on the command line is being applied.",
                     timeout), UVM_NONE)
 
-            matches = sv.sscanf(timeout,"%d,%s", timeout_int, override_spec)
-            if len(matches) == 2:
-                override_spec, timeout_int = matches
+            split_timeout = []
+            uvm_split_string(timeout, ",", split_timeout)
+            timeout_int = int(split_timeout[0])
+            if len(split_timeout) > 1:
+                override_spec = split_timeout[1]
             if override_spec == "YES":
                 self.set_timeout(timeout_int, 1)
             elif override_spec == "NO":
@@ -638,7 +641,32 @@ class UVMRoot(UVMComponent):
         Args:
             ovr:
         """
-        pass  # TODO
+        from .uvm_coreservice import UVMCoreService
+        split_val = []
+        replace = True
+        factory = UVMCoreService.get().get_factory()
+
+        uvm_split_string(ovr, ",", split_val)
+
+        if len(split_val) < 2 or len(split_val) > 3:
+            self.uvm_report_error("UVM_CMDLINE_PROC", "Invalid setting for +uvm_set_type_override="
+                + ovr
+                + ", setting must specify <requested_type>,<override_type>[,<replace>]", UVM_NONE)
+            return
+
+        # Replace arg is optional. If set, must be 0 or 1
+        if len(split_val) == 3:
+            if split_val[2] not in ("0", "1"):
+                self.uvm_report_error("UVM_CMDLINE_PROC",
+                    "Invalid replace arg for +uvm_set_type_override=" + ovr
+                    + " value must be 0 or 1", UVM_NONE)
+                return
+            replace = split_val[2] == "1"
+
+        uvm_info("TYPOVR",
+            "Applying type override from the command line: +uvm_set_type_override=" + str(ovr),
+            UVM_NONE)
+        factory.set_type_override_by_name(split_val[0], split_val[1], replace)
 
 
     def m_do_config_settings(self):
@@ -694,11 +722,11 @@ class UVMRoot(UVMComponent):
             max_quit_int = int(split_max_quit[0])
             if len(split_max_quit) > 1:
                 if split_max_quit[1] == "YES":
-                    srvr.set_max_quit_count(max_quit_int, 1)
+                    srvr.set_max_quit_count(max_quit_int, True)
                 elif split_max_quit[1] == "NO":
-                    srvr.set_max_quit_count(max_quit_int, 0)
+                    srvr.set_max_quit_count(max_quit_int, False)
             else:
-                srvr.set_max_quit_count(max_quit_int, 1)
+                srvr.set_max_quit_count(max_quit_int, True)
 
     def m_do_dump_args(self):
         """
@@ -840,7 +868,9 @@ class UVMRoot(UVMComponent):
             elif verb_string == "DEBUG":
                 verbosity = UVM_DEBUG
             else:
-                verbosity = int(verb_string)
+                verbosity = 0
+                if verb_string.lstrip("-").isdigit():
+                    verbosity = int(verb_string)
                 if verbosity > 0:
                     self.uvm_report_info("NSTVERB",
                             sv.sformatf(NON_STD_VERB, verbosity), UVM_NONE)
-- 
2.43.0


From 712d5d9a5206972883acdbc6f0f0b5c3989b48d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 18/85] fix: event triggers run every callback, waiting ignores
 earlier triggers, barriers release their last arrival

---
 src/uvm/base/uvm_barrier.py |  4 ++--
 src/uvm/base/uvm_event.py   | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/uvm/base/uvm_barrier.py b/src/uvm/base/uvm_barrier.py
index 370ac93..9bf3c42 100644
--- a/src/uvm/base/uvm_barrier.py
+++ b/src/uvm/base/uvm_barrier.py
@@ -46,7 +46,7 @@ class UVMBarrier(UVMObject):
     #
     def __init__(self, name="", threshold=0):
         super().__init__(name)
-        self.m_event = UVMEvent({"barrier_",name})
+        self.m_event = UVMEvent("barrier_" + name)
         self.threshold = threshold
         self.num_waiters = 0
         self.auto_reset = 1
@@ -68,7 +68,7 @@ class UVMBarrier(UVMObject):
         if self.num_waiters >= self.threshold:
             if not self.auto_reset:
                 self.at_threshold=1
-            self.m_trigger()
+            await self.m_trigger()
             return
 
         await self.m_event.wait_trigger()
diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index 0255789..467c1ad 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -144,8 +144,9 @@ class UVMEventBase(UVMObject):
 
         """
         self.num_waiters += 1
-        await self.m_event.wait()
+        # Only a trigger from now on counts, not one that happened before
         self.m_event.clear()
+        await self.m_event.wait()
 
 
     async def wait_ptrigger(self):
@@ -155,11 +156,11 @@ class UVMEventBase(UVMObject):
         certain race conditions. If this method is called after the trigger but
         within the same time-slice, the caller returns immediately.
         """
-        if self.m_event.fired:
+        if self.on and self.trigger_time == sv.realtime():
             return
         self.num_waiters += 1
-        await self.m_event.wait()
         self.m_event.clear()
+        await self.m_event.wait()
 
     def get_trigger_time(self):
         """
@@ -331,7 +332,8 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
             for i in range(0, self.callbacks.size()):
                 #uvm_event_callback#(T) tmp=self.callbacks[i]
                 tmp = self.callbacks.get(i)
-            skip = skip + tmp.pre_trigger(self, data)
+                if tmp.pre_trigger(self, data):
+                    skip = True
         if skip is False:
             self.m_event.set(data)
             if self.callbacks.size() > 0:
@@ -376,7 +378,7 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
         if append is True:
             self.callbacks.push_back(cb)
         else:
-            self.callbacks.insert(0, cb)
+            self.callbacks.push_front(cb)
 
 
     def delete_callback(self, cb):
-- 
2.43.0


From 12e3bfdc54cea2e7d3128f47e4236f02235729e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 19/85] fix: mailbox and fifo report their true occupancy, peek
 waits and returns one item; transport mask is its own bit

---
 src/uvm/base/uvm_mailbox.py       | 4 ++--
 src/uvm/macros/uvm_tlm_defines.py | 2 +-
 src/uvm/tlm1/uvm_tlm_fifos.py     | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_mailbox.py b/src/uvm/base/uvm_mailbox.py
index f82140e..5a9f616 100644
--- a/src/uvm/base/uvm_mailbox.py
+++ b/src/uvm/base/uvm_mailbox.py
@@ -85,7 +85,7 @@ class UVMMailbox():
 
     async def peek(self, itemq: OutputItem=None) -> Any:
         """ Peeks (with blocking) next item from mailbox without removing it """
-        if not self.can_get():
+        while not self.can_get():
             _uvm_debug(self, 'get', 'waiting write event to get item')
             self.m_write_event.clear()
             await self.m_write_event.wait()
@@ -152,4 +152,4 @@ class UVMMailbox():
         return self.m_queue.size() < self.max_size
 
     def num(self) -> int:
-        return self.m_queue.size() > 0
+        return self.m_queue.size()
diff --git a/src/uvm/macros/uvm_tlm_defines.py b/src/uvm/macros/uvm_tlm_defines.py
index 8a3c122..ed7b628 100644
--- a/src/uvm/macros/uvm_tlm_defines.py
+++ b/src/uvm/macros/uvm_tlm_defines.py
@@ -628,7 +628,7 @@ def UVM_SEQ_ITEM_PULL_IMP(T, imp):
 UVM_TLM_BLOCKING_PUT_MASK = (1 << 0)
 UVM_TLM_BLOCKING_GET_MASK = (1 << 1)
 UVM_TLM_BLOCKING_PEEK_MASK = (1 << 2)
-UVM_TLM_BLOCKING_TRANSPORT_MASK = (2 << 3)
+UVM_TLM_BLOCKING_TRANSPORT_MASK = (1 << 3)
 #
 UVM_TLM_NONBLOCKING_PUT_MASK = (1 << 4)
 UVM_TLM_NONBLOCKING_GET_MASK = (1 << 5)
diff --git a/src/uvm/tlm1/uvm_tlm_fifos.py b/src/uvm/tlm1/uvm_tlm_fifos.py
index 32a3093..0e6c549 100644
--- a/src/uvm/tlm1/uvm_tlm_fifos.py
+++ b/src/uvm/tlm1/uvm_tlm_fifos.py
@@ -122,7 +122,7 @@ class UVMTLMFIFO(UVMTLMFIFOBase):
         return res
 
     async def peek(self, t=None) -> Any:
-        res = await self.m.peek(t)
+        res = await self.m.peek()
         if t is not None:
             t.append(res)
         return res
@@ -130,7 +130,7 @@ class UVMTLMFIFO(UVMTLMFIFOBase):
     def try_get(self, t) -> bool:
         if not self.m.try_get(t):
             return False
-        self.get_ap.write(t[0])
+        self.get_ap.write(t[-1])
         return True
 
     def try_peek(self, t) -> bool:
-- 
2.43.0


From f85c64790b0e2792d628ab703cb443da11c73f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 20/85] fix: item_done wakes the finishing sequence, stopped
 sequencer serves items again, next item after try is reported

---
 src/uvm/seq/uvm_sequencer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer.py b/src/uvm/seq/uvm_sequencer.py
index e4452d4..5d4fc2f 100644
--- a/src/uvm/seq/uvm_sequencer.py
+++ b/src/uvm/seq/uvm_sequencer.py
@@ -83,8 +83,8 @@ class UVMSequencer(UVMSequencerParamBase):
         idle state.
         """
         super().stop_sequences()
-        self.sequence_item_requested  = 0
-        self.get_next_item_called     = 0
+        self.sequence_item_requested  = False
+        self.get_next_item_called     = False
         # Empty the request fifo
         if self.m_req_fifo.used():
             uvm_report_info(self.get_full_name(),
@@ -151,7 +151,7 @@ class UVMSequencer(UVMSequencerParamBase):
         self.arb_sequence_q.delete(selected_sequence)
         self.m_update_lists()
         self.sequence_item_requested = True
-        self.get_next_item_called = 1
+        self.get_next_item_called = True
 
         # give it one NBA to put a new item in the fifo
         await self.wait_for_sequences()
@@ -179,8 +179,8 @@ class UVMSequencer(UVMSequencerParamBase):
             self.uvm_report_fatal(self.get_full_name(), FATAL_MSG1)
         else:
             t = t[0]
-            self.m_wait_for_item_sequence_id = t.get_sequence_id()
-            self.m_wait_for_item_transaction_id = t.get_transaction_id()
+            self.set_value('m_wait_for_item_sequence_id', t.get_sequence_id())
+            self.set_value('m_wait_for_item_transaction_id', t.get_transaction_id())
 
         if item is not None:
             self.seq_item_export.put_response(item)
-- 
2.43.0


From ae112b1bb1fe6463485bb52168bf62b90f3cfc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 21/85] fix: sequences can be stopped and waited for in any
 state, default phase sequences start, irrelevant sequences do not break
 arbitration, responses by id are not missed

---
 src/uvm/seq/uvm_sequence_base.py  | 93 +++++++++++++------------------
 src/uvm/seq/uvm_sequencer_base.py | 75 +++++++++++--------------
 2 files changed, 74 insertions(+), 94 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 318573a..1a4005e 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -189,8 +189,7 @@ class UVMSequenceBase(UVMSequenceItem):
         #self.m_resp_queue_event = UVMEvent("resp_queue_event")
         self.m_resp_queue_event = Event("resp_queue_event")
         self.m_resp_queue_event.clear()
-        self.m_events: Dict[int, Event] = {}
-        self.m_events[UVM_FINISHED] = Event("UVM_FINISHED")
+        self.m_state_event = Event("state_event")
         self.do_not_randomize = 0
 
     def is_item(self) -> bool:
@@ -233,12 +232,12 @@ class UVMSequenceBase(UVMSequenceItem):
             state_mask:
         Raises:
         """
-        state = self.m_sequence_state & state_mask
-        if state in self.m_events:
-            await self.m_events[state].wait()
-        else:
-            raise Exception("Cannot wait for state " + str(state)
-                    + " - not implemented")
+        await wait(lambda: (self.m_sequence_state & state_mask) != 0,
+            self.m_state_event)
+
+    def m_set_sequence_state(self, state):
+        self.m_sequence_state = state
+        self.m_state_event.set()
 
     def get_tr_handle(self):
         """
@@ -343,7 +342,7 @@ class UVMSequenceBase(UVMSequenceItem):
 
         # Change the state to PRE_START, do this before the fork so that
         # the "if (!(m_sequence_state inside {...}" works
-        self.m_sequence_state = UVM_PRE_START
+        self.m_set_sequence_state(UVM_PRE_START)
 
         self.m_sequence_process = cocotb.start_soon(self.start_process(parent_sequence, call_pre_post))
         await self.m_sequence_process
@@ -385,7 +384,7 @@ class UVMSequenceBase(UVMSequenceItem):
         await self.pre_start()
 
         if call_pre_post == 1:
-            self.m_sequence_state = UVM_PRE_BODY
+            self.m_set_sequence_state(UVM_PRE_BODY)
             #0
             await uvm_zero_delay()
             await self.pre_body()
@@ -394,12 +393,12 @@ class UVMSequenceBase(UVMSequenceItem):
             parent_sequence.pre_do(0)    # task
             parent_sequence.mid_do(self)  # function
 
-        self.m_sequence_state = UVM_BODY
+        self.m_set_sequence_state(UVM_BODY)
         #0
         await uvm_zero_delay()
         await self.body()
 
-        self.m_sequence_state = UVM_ENDED
+        self.m_set_sequence_state(UVM_ENDED)
         #0
         await uvm_zero_delay()
 
@@ -407,12 +406,12 @@ class UVMSequenceBase(UVMSequenceItem):
             parent_sequence.post_do(self)
 
         if call_pre_post == 1:
-            self.m_sequence_state = UVM_POST_BODY
+            self.m_set_sequence_state(UVM_POST_BODY)
             #0
             await uvm_zero_delay()
             await self.post_body()
 
-        self.m_sequence_state = UVM_POST_START
+        self.m_set_sequence_state(UVM_POST_START)
         #0
         await uvm_zero_delay()
         await self.post_start()
@@ -421,8 +420,7 @@ class UVMSequenceBase(UVMSequenceItem):
         if self.get_automatic_phase_objection():
             self.m_safe_drop_starting_phase("automatic phase objection")
 
-        self.m_sequence_state = UVM_FINISHED
-        self.m_events[UVM_FINISHED].set()
+        self.m_set_sequence_state(UVM_FINISHED)
         #0
         await uvm_zero_delay()
         #join
@@ -898,28 +896,19 @@ class UVMSequenceBase(UVMSequenceItem):
     #  // with the other sequencer(s) using the sequencer unregister_sequence()
     #  // method.
     #
-    #  function void kill()
-    #    if (m_sequence_process is not None) begin
-    #      // If we are not connected to a sequencer, then issue
-    #      // kill locally.
-    #      if (self.m_sequencer == None) begin
-    #        m_kill()
-    #        // We need to drop the objection if we raised it...
-    #        if (get_automatic_phase_objection()) begin
-    #           m_safe_drop_starting_phase("automatic phase objection")
-    #        end
-    #        return
-    #      end
-    #      // If we are attached to a sequencer, then the sequencer
-    #      // will clear out queues, and then kill this sequence
-    #      self.m_sequencer.kill_sequence(this)
-    #      // We need to drop the objection if we raised it...
-    #      if (get_automatic_phase_objection()) begin
-    #         m_safe_drop_starting_phase("automatic phase objection")
-    #      end
-    #      return
-    #    end
-    #  endfunction
+    def kill(self):
+        if self.m_sequence_process is not None:
+            # If we are not connected to a sequencer, then issue
+            # kill locally.
+            if self.m_sequencer is None:
+                self.m_kill()
+            else:
+                # If we are attached to a sequencer, then the sequencer
+                # will clear out queues, and then kill this sequence
+                self.m_sequencer.kill_sequence(self)
+            # We need to drop the objection if we raised it...
+            if self.get_automatic_phase_objection():
+                self.m_safe_drop_starting_phase("automatic phase objection")
 
 
     def do_kill(self):
@@ -933,19 +922,17 @@ class UVMSequenceBase(UVMSequenceItem):
         return
 
 
-    #  function void m_kill()
-    #    do_kill()
-    #    foreach(children_array[i]) begin
-    #       i.kill()
-    #    end
-    #    if (m_sequence_process is not None) begin
-    #      m_sequence_process.kill
-    #      m_sequence_process = None
-    #    end
-    #    m_sequence_state = UVM_STOPPED
-    #    if ((self.m_parent_sequence is not None) && (self.m_parent_sequence.children_array.exists(this)))
-    #      self.m_parent_sequence.children_array.delete(this)
-    #  endfunction
+    def m_kill(self):
+        self.do_kill()
+        for child in list(self.children_array):
+            child.kill()
+        if self.m_sequence_process is not None:
+            self.m_sequence_process.kill()
+            self.m_sequence_process = None
+        self.m_set_sequence_state(UVM_STOPPED)
+        if (self.m_parent_sequence is not None and
+                self in self.m_parent_sequence.children_array):
+            del self.m_parent_sequence.children_array[self]
 
 
     """
@@ -1280,8 +1267,8 @@ class UVMSequenceBase(UVMSequenceItem):
                     self.m_resp_queue_event.set()
                     return
             #wait (self.response_queue.size() != queue_size)
-            await wait(lambda: self.response_queue.size() != queue_size,
-                       self.m_resp_queue_event)
+            await wait(lambda: any(item.get_transaction_id() == transaction_id
+                for item in self.response_queue.queue), self.m_resp_queue_event)
 
 
     def m_get_sqr_sequence_id(self, sequencer_id, update_sequence_id):
diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 536f184..7f007dc 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -24,14 +24,13 @@
 import cocotb
 from cocotb.triggers import Event
 
-from .uvm_sequence import UVMSequence
 from .uvm_sequence_base import UVMSequenceBase
 
 from ..base.sv import sv, process
 from ..base.uvm_component import UVMComponent
 # from ..base.uvm_event import UVMEvent
-from ..base.uvm_resource import UVMResourcePool, UVMResource
-from ..base.uvm_config_db import UVMConfigDb
+from ..base.uvm_resource import UVMResourcePool
+from ..base.uvm_factory import UVMObjectWrapper
 from ..macros.uvm_message_defines import (
     uvm_error, uvm_fatal, uvm_info, uvm_report_fatal, uvm_warning)
 from ..base.uvm_object_globals import (UVM_FINISHED, UVM_FULL, UVM_NONE,
@@ -285,41 +284,26 @@ class UVMSequencerBase(UVMComponent):
             if seq is not None:
                 break
             rsrc = rq[i]  # uvm_resource_base
-            sbr = []  # type: List[UVMResource]
-            owr = []  # type: List[UVMResource]
-
-            # uvm_config_db#(uvm_sequence_base)?
-            # Priority is given to uvm_sequence_base because it is a specific sequence instance
-            # and thus more specific than one that is dynamically created via the
-            # factory and the object wrapper.
-            if (sv.cast(sbr, rsrc, UVMConfigDb) and sbr[0] is not None):
-                seq = sbr[0].read(self)
-                if seq is None:
-                    uvm_info("UVM/SQR/PH/DEF/SB/None", "Default phase sequence for phase '"
-                            + phase.get_name() + "' explicitly disabled", UVM_FULL)
-                    await uvm_zero_delay()
-                    return
-
-            # uvm_config_db#(uvm_object_wrapper)?
-            elif (sv.cast(owr, rsrc, UVMConfigDb) and owr is not None):
-                wrapper = None  # uvm_object_wrapper
-                wrapper = owr[0].read(self)
-                if wrapper is None:
-                    uvm_info("UVM/SQR/PH/DEF/OW/None", "Default phase sequence for phase '"
-                            + phase.get_name() + "' explicitly disabled", UVM_FULL)
-                    await uvm_zero_delay()
-                    return
+            value = rsrc.read(self)
+            if value is None:
+                uvm_info("UVM/SQR/PH/DEF/SB/None", "Default phase sequence for phase '"
+                        + phase.get_name() + "' explicitly disabled", UVM_FULL)
+                await uvm_zero_delay()
+                return
 
-                new_obj = f.create_object_by_type(wrapper, self.get_full_name(),
-                        wrapper.get_type_name())
-                seq_arr = []
-                if not(sv.cast(seq_arr, new_obj, UVMSequence) or seq_arr[0] is None):
+            # A specific sequence instance, or an object wrapper the sequence
+            # is created from via the factory
+            if isinstance(value, UVMSequenceBase):
+                seq = value
+            elif isinstance(value, UVMObjectWrapper):
+                new_obj = f.create_object_by_type(value, self.get_full_name(),
+                        value.get_type_name())
+                if not isinstance(new_obj, UVMSequenceBase):
                     uvm_warning("PHASESEQ", "Default sequence for phase '" +
-                            phase.get_name() + "' %s is not a sequence type")
+                            phase.get_name() + "' is not a sequence type")
                     await uvm_zero_delay()
                     return
-                else:
-                    seq = seq_arr[0]
+                seq = new_obj
 
         if seq is None:
             uvm_info("PHASESEQ", "No default phase sequence for phase '"
@@ -335,7 +319,7 @@ class UVMSequencerBase(UVMComponent):
         seq.reseed()
         seq.set_starting_phase(phase)
 
-        if (seq.do_not_randomize is False and seq.randomize() is False):
+        if not seq.do_not_randomize and not seq.randomize():
             uvm_warning("STRDEFSEQ", "Randomization failed for default sequence '"
                     + seq.get_type_name() + "' for phase '" + phase.get_name() + "'")
             await uvm_zero_delay()
@@ -512,6 +496,14 @@ class UVMSequencerBase(UVMComponent):
     #  // operations on the sequencer
     #  //
     #  extern function bit has_lock(uvm_sequence_base sequence_ptr)
+    def has_lock(self, sequence_ptr):
+        if sequence_ptr is None:
+            uvm_report_fatal("uvm_sequence_controller",
+                "has_lock passed None sequence_ptr", UVM_NONE)
+        for i in range(len(self.lock_list)):
+            if self.lock_list.get(i).get_inst_id() == sequence_ptr.get_inst_id():
+                return 1
+        return 0
 
 
     #  // Task: lock
@@ -1063,7 +1055,7 @@ class UVMSequencerBase(UVMComponent):
         # when deleting all sequences
         if sequence_id == -1:
             if self.reg_sequences.has_first():
-                return self.reg_sequences.first()
+                return self.reg_sequences[self.reg_sequences.first()]
             return None
 
         if not self.reg_sequences.exists(sequence_id):
@@ -1149,21 +1141,22 @@ class UVMSequencerBase(UVMComponent):
     async def _fork_first_proc(self, is_relevant_entries):
         started_forks = []
         #fork
-        forked_proc1 = cocotb.start_soon(self._fork_first_proc_sub_fork1(is_relevant_entries))
+        relevant_forks = []
+        forked_proc1 = cocotb.start_soon(self._fork_first_proc_sub_fork1(is_relevant_entries,
+            relevant_forks))
         started_forks.append(forked_proc1)
         # The other path in the fork is for any queue entry to change
-        forked_proc2 = self.m_wait_arb_not_equal()
+        forked_proc2 = cocotb.start_soon(self.m_wait_arb_not_equal())
         started_forks.append(forked_proc2)
         ## await started_forks  # join_any
         await sv.fork_join_any(started_forks)
         # disable fork
-        for p in started_forks:
+        for p in started_forks + relevant_forks:
             p.kill()  # type: ignore
 
 
-    async def _fork_first_proc_sub_fork1(self, is_relevant_entries):
+    async def _fork_first_proc_sub_fork1(self, is_relevant_entries, fork_procs_join_none):
         # One path in fork is for any wait_for_relevant to return
-        fork_procs_join_none = []
         self.set_value('m_is_relevant_completed', False)
         for i in range(len(is_relevant_entries)):
             #fork
-- 
2.43.0


From 8af219d24dffdc57ddaf9f7dbb040b6b3c8fb1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 22/85] fix: uvm_do_on randomizes and runs an item on the given
 sequencer

---
 src/uvm/macros/uvm_sequence_defines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/macros/uvm_sequence_defines.py b/src/uvm/macros/uvm_sequence_defines.py
index 6d93093..6f08820 100644
--- a/src/uvm/macros/uvm_sequence_defines.py
+++ b/src/uvm/macros/uvm_sequence_defines.py
@@ -155,7 +155,7 @@ async def uvm_do_on(seq_obj, SEQ_OR_ITEM, SEQR):
     the sequence in which the macro is invoked, and it sets the sequencer to the
     specified ~SEQR~ argument.
     """
-    await uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, -1, {})
+    await uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, -1, lambda: True)
 
 
 #// MACRO: `uvm_do_on_pri
@@ -222,7 +222,7 @@ async def uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, PRIORITY, *CONSTRAINTS)
         await SEQ_OR_ITEM.start(SEQR, seq_obj, PRIORITY, 0)
     else:
         # TODO handle constraints
-        await seq_obj.start_item(SEQ_OR_ITEM, PRIORITY)
+        await seq_obj.start_item(SEQ_OR_ITEM, PRIORITY, SEQR)
         if SEQ_OR_ITEM.randomize_with(*CONSTRAINTS) is False:
             uvm_warning("RNDFLD", "Randomization failed in uvm_do_with action")
         await seq_obj.finish_item(SEQ_OR_ITEM, PRIORITY)
-- 
2.43.0


From c7ebe31d14483bf506e042f7b3dc06b92ebec5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:52 +0000
Subject: [PATCH 23/85] fix: granting queued locks dropped the last leading
 lock and the last request

---
 src/uvm/seq/uvm_sequencer_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 7f007dc..3af6bf1 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -706,7 +706,7 @@ class UVMSequencerBase(UVMComponent):
 
         if b != 0:  # at least one lock
             # set of locks; arb_sequence[b] is the first req!=SEQ_TYPE_LOCK
-            leading_lock_reqs = cast(SeqReqList, self.arb_sequence_q[0:b-1])
+            leading_lock_reqs = cast(SeqReqList, self.arb_sequence_q[0:b])
             # split into blocked/not-blocked requests
             for i in range(len(leading_lock_reqs)):
                 item: uvm_sequence_request = leading_lock_reqs[i]
@@ -718,7 +718,7 @@ class UVMSequencerBase(UVMComponent):
             if b > (self.arb_sequence_q.size()-1):
                 self.arb_sequence_q = blocked_seqs
             else:
-                bseqs = cast(SeqReqList, self.arb_sequence_q[b:self.arb_sequence_q.size()-1])
+                bseqs = cast(SeqReqList, self.arb_sequence_q[b:])
                 for seq in bseqs:
                     blocked_seqs.push_back(seq)
                 self.arb_sequence_q = blocked_seqs
-- 
2.43.0


From 2c2929f843723ffd26fddda1e8f877e9fbf524e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:41 +0000
Subject: [PATCH 24/85] fix: get() of the run-time phases returned None on
 every call but the first

---
 src/uvm/base/uvm_runtime_phases.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/uvm/base/uvm_runtime_phases.py b/src/uvm/base/uvm_runtime_phases.py
index 332dbc0..0c9f332 100644
--- a/src/uvm/base/uvm_runtime_phases.py
+++ b/src/uvm/base/uvm_runtime_phases.py
@@ -92,7 +92,7 @@ class UVMPreResetPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMPreResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_reset"):
         super().__init__(name)
@@ -144,7 +144,7 @@ class UVMResetPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="reset"):
         super().__init__(name)
@@ -189,7 +189,7 @@ class UVMPostResetPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_reset"):
         super().__init__(name)
@@ -236,7 +236,7 @@ class UVMPreConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_configure"):
         super().__init__(name)
@@ -282,7 +282,7 @@ class UVMConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="configure"):
         super().__init__(name)
@@ -329,7 +329,7 @@ class UVMPostConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_configure"):
         super().__init__(name)
@@ -373,7 +373,7 @@ class UVMPreMainPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreMainPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_main"):
         super().__init__(name)
@@ -465,7 +465,7 @@ class UVMPostMainPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostMainPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_main"):
         super().__init__(name)
@@ -508,7 +508,7 @@ class UVMPreShutdownPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_shutdown"):
         super().__init__(name)
@@ -554,7 +554,7 @@ class UVMShutdownPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="shutdown"):
         super().__init__(name)
@@ -601,7 +601,7 @@ class UVMPostShutdownPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMPostShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_shutdown"):
         super().__init__(name)
-- 
2.43.0


From 55a98d89640d3a9b37bbfb0a8f86ea835cc5aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 25/85] fix: phase graph edges shared between nodes, wrong edge
 deleted between two phases, search stopped at the first branch, last phase of
 a schedule not handled

---
 src/uvm/base/uvm_phase.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index a9440af..37f7387 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -523,8 +523,8 @@ class UVMPhase(UVMObject):
 
         # INSERT IN PARALLEL WITH 'WITH' PHASE
         if with_phase is not None:
-            begin_node.m_predecessors = with_phase.m_predecessors
-            end_node.m_successors = with_phase.m_successors
+            begin_node.m_predecessors = dict(with_phase.m_predecessors)
+            end_node.m_successors = dict(with_phase.m_successors)
             for pred in with_phase.m_predecessors:
                 pred.m_successors[begin_node] = 1
             for succ in with_phase.m_successors:
@@ -559,7 +559,7 @@ class UVMPhase(UVMObject):
             before_phase.m_predecessors[end_node] = 1
             if before_phase in after_phase.m_successors:
                 del after_phase.m_successors[before_phase]
-                del before_phase.m_successors[after_phase]
+                del before_phase.m_predecessors[after_phase]
 
         # Transition nodes to DORMANT state
         if new_node is None:
@@ -1021,7 +1021,8 @@ class UVMPhase(UVMObject):
                     (pred.get_schedule() == orig.get_schedule()) or
                     (pred.get_domain() == orig.get_domain())):
                 found = pred.m_find_predecessor(phase,stay_in_scope,orig)
-                return found
+                if found is not None:
+                    return found
         uvm_debug(self, 'm_find_pred', "Did not find precessors for " +
                 str(phase))
         return None
@@ -1050,7 +1051,8 @@ class UVMPhase(UVMObject):
                     (succ.get_schedule() == orig.get_schedule()) or
                     (succ.get_domain() == orig.get_domain())):
                 found = succ.m_find_successor(phase,stay_in_scope,orig)
-                return found
+                if found is not None:
+                    return found
         return None
 
 
@@ -1146,8 +1148,7 @@ class UVMPhase(UVMObject):
                     done = False
 
         # remove ourselves from the list
-        if self.get_name() != 'final':
-            del pred_of_succ[self]
+        pred_of_succ.pop(self, None)
 
 
     async def m_wait_for_pred(self):
-- 
2.43.0


From efce1e472b81a5467a2c48cee9759de785df5b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:15 +0000
Subject: [PATCH 26/85] fix: waiting for a phase state already reached hung
 until the next change; waiting for synced phases raised

---
 src/uvm/base/uvm_phase.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 37f7387..0c7b60d 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -919,11 +919,9 @@ class UVMPhase(UVMObject):
 
 
     async def _wait_state_change_func(self, func):
-        while True:
-            await self.m_phase_set_state_event.wait()
+        while not func():
             self.m_phase_set_state_event.clear()
-            if func():
-                break
+            await self.m_phase_set_state_event.wait()
 
     #
     #
@@ -1535,8 +1533,9 @@ class UVMPhase(UVMObject):
         events = []
         for phase in self.m_sync:
             if (phase.m_state < UVM_PHASE_SYNCING):
-                events.append(phase.get_phase_synced_event())
-        await Combine(*events)
+                events.append(phase.get_phase_synced_event().wait())
+        if len(events) > 0:
+            await Combine(*events)
 
     def has_predecessors(self):
         return len(self.m_predecessors) > 0
-- 
2.43.0


From 5297220fb0454e5131b66260f8a2e35948b5774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:15 +0000
Subject: [PATCH 27/85] fix: dropping an objection to the reset phase for no
 object raised

---
 src/uvm/base/uvm_phase.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 0c7b60d..0860fd8 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -798,12 +798,7 @@ class UVMPhase(UVMObject):
     #  // The drop is expected to be matched with an earlier raise.
     #  //
     def drop_objection(self, obj, description="", count=1):
-        if self.get_name() == 'reset':
-            print("EEE object dropping reset obj now " + obj.get_name())
         if self.phase_done is not None:
-            if self.get_name() == 'reset':
-                print("Dropping reset objection\n" +
-                        self.phase_done.convert2string())
             self.phase_done.drop_objection(obj,description,count)
         else:
             self.m_report_null_objection(obj, description, count, "drop")
-- 
2.43.0


From a4e96184cb4340a71c314caaec0652cd6c14d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 28/85] fix: the final phase traverses top-down, as documented

---
 src/uvm/base/uvm_common_phases.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_common_phases.py b/src/uvm/base/uvm_common_phases.py
index 2ae900a..7501144 100644
--- a/src/uvm/base/uvm_common_phases.py
+++ b/src/uvm/base/uvm_common_phases.py
@@ -459,7 +459,7 @@ class UVMReportPhase(UVMBottomupPhase):
         return UVMReportPhase.type_name
 
 
-class UVMFinalPhase(UVMBottomupPhase):
+class UVMFinalPhase(UVMTopdownPhase):
     """
     Tie up loose ends.
 
@@ -495,7 +495,7 @@ class UVMFinalPhase(UVMBottomupPhase):
         return UVMFinalPhase.m_inst
 
     def __init__(self, name="final"):
-        UVMBottomupPhase.__init__(self, name)
+        UVMTopdownPhase.__init__(self, name)
 
     def get_type_name(self):
         return UVMFinalPhase.type_name
-- 
2.43.0


From b89e3f31bddb7c977d9462d4616cdeea13037437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:01 +0000
Subject: [PATCH 29/85] fix: +UVM_PHASE_TRACE made the library fail while it
 was imported

---
 src/uvm/base/uvm_phase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 0860fd8..0fc0882 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -507,9 +507,9 @@ class UVMPhase(UVMObject):
 
         if UVMPhase.m_phase_trace:
             typ = phase.get_phase_type()
-            uvm_report_info("PH/TRC/ADD_PH", (self.get_name() + " (" + self.m_phase_type.name()
+            uvm_report_info("PH/TRC/ADD_PH", (self.get_name() + " (" + str(self.m_phase_type)
                 + ") ADD_PHASE: phase=" + phase.get_full_name() + " ("
-                + typ.name() + ", inst_id=" + "{}".format(phase.get_inst_id())
+                + str(typ) + ", inst_id=" + "{}".format(phase.get_inst_id())
                 + ")"), UVM_DEBUG)
             #" with_phase=",   (with_phase == null)   ? "null" : with_phase.get_name(),
             #" after_phase=",  (after_phase == null)  ? "null" : after_phase.get_name(),
@@ -1155,7 +1155,7 @@ class UVMPhase(UVMObject):
 
             if UVMPhase.m_phase_trace:
                 s = sv.sformatf("Waiting for phase '%s' (%0d) to be READY_TO_END. Current state is %s",
-                    sibling.get_name(),sibling.get_inst_id(),sibling.m_state.name())
+                    sibling.get_name(),sibling.get_inst_id(),ph2str(sibling.m_state))
                 UVM_PH_TRACE("PH/TRC/WAIT_PRED_OF_SUCC",s,self,UVM_HIGH)
 
             await sibling.wait_for_state(UVM_PHASE_READY_TO_END, UVM_GTE)
@@ -1287,7 +1287,7 @@ class UVMPhase(UVMObject):
             await self._wait_phases_synced()
 
         self.m_run_count += 1
-        if UVMPhase.m_phase_trace is True:
+        if UVMPhase.m_phase_trace:
             UVM_PH_TRACE("PH/TRC/STRT","Starting phase",self,UVM_LOW)
 
         # If we're a schedule or domain, then "fake" execution
-- 
2.43.0


From 50bef35f930546ceded78ff84360165102273165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 30/85] fix: a phase hook that iterates its parent's children
 cut the phase traversal short

---
 src/uvm/base/uvm_bottomup_phase.py | 8 +++-----
 src/uvm/base/uvm_topdown_phase.py  | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_bottomup_phase.py b/src/uvm/base/uvm_bottomup_phase.py
index 637bb38..322f2f4 100644
--- a/src/uvm/base/uvm_bottomup_phase.py
+++ b/src/uvm/base/uvm_bottomup_phase.py
@@ -67,11 +67,9 @@ class UVMBottomupPhase(UVMPhase):
         phase_domain = phase.get_domain()
         comp_domain = comp.get_domain()
 
-        if comp.has_first_child():
-            child = comp.get_first_child()
-            while child is not None:
-                self.traverse(child, phase, state)
-                child = comp.get_next_child()
+        # not get_next_child(): a phase hook may iterate the children as well
+        for child in comp.m_children_ordered:
+            self.traverse(child, phase, state)
 
         if UVMPhase.m_phase_trace:
             dom_name = "unknown"
diff --git a/src/uvm/base/uvm_topdown_phase.py b/src/uvm/base/uvm_topdown_phase.py
index 0b0e032..98c80c5 100644
--- a/src/uvm/base/uvm_topdown_phase.py
+++ b/src/uvm/base/uvm_topdown_phase.py
@@ -102,11 +102,9 @@ class UVMTopdownPhase(UVMPhase):
             else:
                 uvm_report_fatal("PH_BADEXEC","topdown phase traverse internal error")
 
-        if comp.has_first_child():
-            child = comp.get_first_child()
-            while child is not None:
-                self.traverse(child, phase, state)
-                child = comp.get_next_child()
+        # not get_next_child(): a phase hook may iterate the children as well
+        for child in comp.m_children_ordered:
+            self.traverse(child, phase, state)
 
     def execute(self, comp, phase):
         """
-- 
2.43.0


From 4d6d3dc886e0db1b341f806c73a5beb89a299e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 31/85] fix: the access-policy wrappers had no try_set, no
 try_get and silent copy and pack

---
 src/uvm/dap/uvm_get_to_lock_dap.py    | 43 ++++++++++++---------------
 src/uvm/dap/uvm_set_before_get_dap.py | 28 ++++++++---------
 src/uvm/dap/uvm_simple_lock_dap.py    | 43 ++++++++++++---------------
 3 files changed, 50 insertions(+), 64 deletions(-)

diff --git a/src/uvm/dap/uvm_get_to_lock_dap.py b/src/uvm/dap/uvm_get_to_lock_dap.py
index 98616d2..f7f8b73 100644
--- a/src/uvm/dap/uvm_get_to_lock_dap.py
+++ b/src/uvm/dap/uvm_get_to_lock_dap.py
@@ -26,6 +26,7 @@ from typing import Any
 
 from .uvm_set_get_dap_base import uvm_set_get_dap_base
 from ..base.sv import sv
+from ..base.uvm_globals import uvm_check_output_args
 from ..macros import uvm_error, uvm_object_utils
 
 ERR_MSG1 = ("Attempt to set new value on '%s', but the data access policy " +
@@ -77,14 +78,11 @@ class uvm_get_to_lock_dap(uvm_set_get_dap_base):
     #   // updated, or a 0 if the value can not be updated due
     #   // to ~get~ having been called.  No errors will be reported
     #   // if ~try_set~ fails.
-    #   virtual function bit try_set(T value);
-    #      if (m_locked)
-    #        return 0;
-    #      else begin
-    #         m_value = value;
-    #         return 1;
-    #      end
-    #   endfunction : try_set
+    def try_set(self, value):
+        if self.m_locked:
+            return 0
+        self.m_value = value
+        return 1
 
     #   // Function: get
     #   // Returns the current value stored within the DAP, and 'locks' the DAP.
@@ -99,10 +97,10 @@ class uvm_get_to_lock_dap(uvm_set_get_dap_base):
     #   // Retrieves the current value stored within the DAP, and 'locks' the DAP.
     #   //
     #   // ~try_get~ will always return 1.
-    #   virtual function bit try_get(output T value);
-    #      value = get();
-    #      return 1;
-    #   endfunction : try_get
+    def try_get(self, value):
+        uvm_check_output_args([value])
+        value.append(self.get())
+        return 1
     #
     #   // Group: Introspection
     #   //
@@ -113,20 +111,17 @@ class uvm_get_to_lock_dap(uvm_set_get_dap_base):
     #   //
     #   // A call to any of these methods will result in an error.
     #
-    #   virtual function void do_copy(uvm_object rhs);
-    #      `uvm_error("UVM/GET_TO_LOCK_DAP/CPY",
-    #                 "'copy()' is not supported for 'uvm_get_to_lock_dap#(T)'")
-    #   endfunction : do_copy
+    def do_copy(self, rhs):
+        uvm_error("UVM/GET_TO_LOCK_DAP/CPY",
+            "'copy()' is not supported for 'uvm_get_to_lock_dap#(T)'")
     #
-    #   virtual function void do_pack(uvm_packer packer);
-    #      `uvm_error("UVM/GET_TO_LOCK_DAP/PCK",
-    #                 "'pack()' is not supported for 'uvm_get_to_lock_dap#(T)'")
-    #   endfunction : do_pack
+    def do_pack(self, packer):
+        uvm_error("UVM/GET_TO_LOCK_DAP/PCK",
+            "'pack()' is not supported for 'uvm_get_to_lock_dap#(T)'")
     #
-    #   virtual function void do_unpack(uvm_packer packer);
-    #      `uvm_error("UVM/GET_TO_LOCK_DAP/UPK",
-    #                 "'unpack()' is not supported for 'uvm_get_to_lock_dap#(T)'")
-    #   endfunction : do_unpack
+    def do_unpack(self, packer):
+        uvm_error("UVM/GET_TO_LOCK_DAP/UPK",
+            "'unpack()' is not supported for 'uvm_get_to_lock_dap#(T)'")
     #
     #   // Group- Reporting
     #
diff --git a/src/uvm/dap/uvm_set_before_get_dap.py b/src/uvm/dap/uvm_set_before_get_dap.py
index 9e2b607..9759275 100644
--- a/src/uvm/dap/uvm_set_before_get_dap.py
+++ b/src/uvm/dap/uvm_set_before_get_dap.py
@@ -101,10 +101,9 @@ class uvm_set_before_get_dap(uvm_set_get_dap_base):
     #   // Attempts to update the value stored within the DAP.
     #   //
     #   // ~try_set~ will always return a 1.
-    #   virtual function bit try_set(T value);
-    #      set(value);
-    #      return 1;
-    #   endfunction : try_set
+    def try_set(self, value):
+        self.set(value)
+        return 1
     #
 
     #   // Function: get
@@ -142,20 +141,17 @@ class uvm_set_before_get_dap(uvm_set_get_dap_base):
     #   //
     #   // A call to any of these methods will result in an error.
     #
-    #   virtual function void do_copy(uvm_object rhs);
-    #      `uvm_error("UVM/SET_BEFORE_GET_DAP/CPY",
-    #                 "'copy()' is not supported for 'uvm_set_before_get_dap#(T)'")
-    #   endfunction : do_copy
+    def do_copy(self, rhs):
+        uvm_error("UVM/SET_BEFORE_GET_DAP/CPY",
+            "'copy()' is not supported for 'uvm_set_before_get_dap#(T)'")
     #
-    #   virtual function void do_pack(uvm_packer packer);
-    #      `uvm_error("UVM/SET_BEFORE_GET_DAP/PCK",
-    #                 "'pack()' is not supported for 'uvm_set_before_get_dap#(T)'")
-    #   endfunction : do_pack
+    def do_pack(self, packer):
+        uvm_error("UVM/SET_BEFORE_GET_DAP/PCK",
+            "'pack()' is not supported for 'uvm_set_before_get_dap#(T)'")
     #
-    #   virtual function void do_unpack(uvm_packer packer);
-    #      `uvm_error("UVM/SET_BEFORE_GET_DAP/UPK",
-    #                 "'unpack()' is not supported for 'uvm_set_before_get_dap#(T)'")
-    #   endfunction : do_unpack
+    def do_unpack(self, packer):
+        uvm_error("UVM/SET_BEFORE_GET_DAP/UPK",
+            "'unpack()' is not supported for 'uvm_set_before_get_dap#(T)'")
     #
     #   // Group- Reporting
     #
diff --git a/src/uvm/dap/uvm_simple_lock_dap.py b/src/uvm/dap/uvm_simple_lock_dap.py
index 36207a6..9d17400 100644
--- a/src/uvm/dap/uvm_simple_lock_dap.py
+++ b/src/uvm/dap/uvm_simple_lock_dap.py
@@ -25,6 +25,7 @@ from .uvm_set_get_dap_base import uvm_set_get_dap_base
 from ..macros.uvm_object_defines import uvm_object_utils
 from ..macros.uvm_message_defines import *
 from ..base.sv import sv
+from ..base.uvm_globals import uvm_check_output_args
 
 ERR_MSG1 = "Attempt to set new value on '%s', but the data access policy forbids setting while locked!"
 
@@ -72,14 +73,11 @@ class uvm_simple_lock_dap(uvm_set_get_dap_base):
     #   // updated, or a 0 if the value can not be updated due
     #   // to the DAP being locked.  No errors will be reported
     #   // if ~try_set~ fails.
-    #   virtual function bit try_set(T value);
-    #      if (m_locked)
-    #        return 0;
-    #      else begin
-    #         m_value = value;
-    #         return 1;
-    #      end
-    #   endfunction : try_set
+    def try_set(self, value):
+        if self.m_locked:
+            return 0
+        self.m_value = value
+        return 1
     #
 
     #   // Function: get
@@ -92,10 +90,10 @@ class uvm_simple_lock_dap(uvm_set_get_dap_base):
     #   // Retrieves the current value stored within the DAP
     #   //
     #   // ~try_get~ will always return 1.
-    #   virtual function bit try_get(output T value);
-    #      value = get();
-    #      return 1;
-    #   endfunction : try_get
+    def try_get(self, value):
+        uvm_check_output_args([value])
+        value.append(self.get())
+        return 1
     #
 
     #   // Group: Locking
@@ -132,22 +130,19 @@ class uvm_simple_lock_dap(uvm_set_get_dap_base):
     #   // violate the access policy.
     #   //
     #   // A call to any of these methods will result in an error.
-    #   virtual function void do_copy(uvm_object rhs);
-    #      `uvm_error("UVM/SIMPLE_LOCK_DAP/CPY",
-    #                 "'copy()' is not supported for 'uvm_simple_lock_dap#(T)'")
-    #   endfunction : do_copy
+    def do_copy(self, rhs):
+        uvm_error("UVM/SIMPLE_LOCK_DAP/CPY",
+            "'copy()' is not supported for 'uvm_simple_lock_dap#(T)'")
 
     #
-    #   virtual function void do_pack(uvm_packer packer);
-    #      `uvm_error("UVM/SIMPLE_LOCK_DAP/PCK",
-    #                 "'pack()' is not supported for 'uvm_simple_lock_dap#(T)'")
-    #   endfunction : do_pack
+    def do_pack(self, packer):
+        uvm_error("UVM/SIMPLE_LOCK_DAP/PCK",
+            "'pack()' is not supported for 'uvm_simple_lock_dap#(T)'")
 
     #
-    #   virtual function void do_unpack(uvm_packer packer);
-    #      `uvm_error("UVM/SIMPLE_LOCK_DAP/UPK",
-    #                 "'unpack()' is not supported for 'uvm_simple_lock_dap#(T)'")
-    #   endfunction : do_unpack
+    def do_unpack(self, packer):
+        uvm_error("UVM/SIMPLE_LOCK_DAP/UPK",
+            "'unpack()' is not supported for 'uvm_simple_lock_dap#(T)'")
 
     #
     #   // Group- Reporting
-- 
2.43.0


From 99101e8144a836c57a115940dedd2a3ccce28652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:22 +0000
Subject: [PATCH 32/85] fix: value pairs lost their second member and could not
 be compared or copied

---
 src/uvm/comps/uvm_pair.py | 41 +++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/uvm/comps/uvm_pair.py b/src/uvm/comps/uvm_pair.py
index 3f21905..fa8f588 100644
--- a/src/uvm/comps/uvm_pair.py
+++ b/src/uvm/comps/uvm_pair.py
@@ -29,7 +29,7 @@ This section defines container classes for handling value pairs.
 
 from uvm.base.sv import sv
 from uvm.base.uvm_object import UVMObject
-from uvm.macros import uvm_object_utils, uvm_error
+from uvm.macros import uvm_object_utils, uvm_error, uvm_fatal
 
 
 
@@ -86,14 +86,14 @@ class UVMClassPair(UVMObject):
         return s
 
 
-    #  def do_compare(self,uvm_object rhs, uvm_comparer comparer):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs)):
-    #      uvm_error("WRONG_TYPE", {"do_compare: rhs argument is not of type '",get_type_name(),"'"})
-    #      return 0
-    #    end
-    #    return first.compare(rhs_.first)  and  second.compare(rhs_.second)
-    #  endfunction
+    def do_compare(self, rhs, comparer):
+        rhs_ = []
+        if not sv.cast(rhs_, rhs, UVMClassPair):
+            uvm_error("WRONG_TYPE", "do_compare: rhs argument is not of type '"
+                + self.get_type_name() + "'")
+            return 0
+        rhs_ = rhs_[0]
+        return self.first.compare(rhs_.first) and self.second.compare(rhs_.second)
 
     #  def do_copy(self,uvm_object rhs):
     #    this_type rhs_
@@ -139,7 +139,7 @@ class UVMBuiltInPair(UVMObject):
     def __init__(self, name=""):
         super().__init__(name)
         self.first = 0
-        self.seconds = 0
+        self.second = 0
 
 
     def get_type_name(self):
@@ -153,18 +153,21 @@ class UVMBuiltInPair(UVMObject):
     def do_compare(self, rhs, comparer):
         rhs_ = []
         if not sv.cast(rhs_,rhs, UVMBuiltInPair):
-            uvm_error("WRONG_TYPE", {"do_compare: rhs argument is not of type '",
-                self.get_type_name(),"'"})
+            uvm_error("WRONG_TYPE", "do_compare: rhs argument is not of type '"
+                + self.get_type_name() + "'")
             return 0
-        rhs_ = rhs[0]
+        rhs_ = rhs_[0]
         return self.first == rhs_.first and self.second == rhs_.second
 
 
-    #  def do_copy(self,uvm_object rhs):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs))
-    #      uvm_fatal("WRONG_TYPE", {"do_copy: rhs argument is not of type '",get_type_name(),"'"})
-    #    first = rhs_.first
-    #    second = rhs_.second
+    def do_copy(self, rhs):
+        rhs_ = []
+        if not sv.cast(rhs_, rhs, UVMBuiltInPair):
+            uvm_fatal("WRONG_TYPE", "do_copy: rhs argument is not of type '"
+                + self.get_type_name() + "'")
+            return
+        rhs_ = rhs_[0]
+        self.first = rhs_.first
+        self.second = rhs_.second
 
 uvm_object_utils(UVMBuiltInPair)
-- 
2.43.0


From 994e9f200371b21a267be1561eba5718ace345d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:22 +0000
Subject: [PATCH 33/85] fix: a comparison policy that returns 0 was counted as
 a match

---
 src/uvm/comps/uvm_in_order_comparator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/comps/uvm_in_order_comparator.py b/src/uvm/comps/uvm_in_order_comparator.py
index 218a4bf..1dc97df 100644
--- a/src/uvm/comps/uvm_in_order_comparator.py
+++ b/src/uvm/comps/uvm_in_order_comparator.py
@@ -167,7 +167,7 @@ class UVMInOrderComparator(UVMComponent):
             a = arr_a[0]
 
             # pytype: disable=wrong-arg-types
-            if self.CompType.comp(b, a) is False:
+            if not self.CompType.comp(b, a):
                 s = sv.sformatf("%s differs from %s", self.Convert.convert2string(a),
                     self.Convert.convert2string(b))
                 uvm_error("Comparator Mismatch", s)
-- 
2.43.0


From 56bd529678f061d4d068bcf42067ef04d7b09e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:55 +0000
Subject: [PATCH 34/85] fix: memory regions had no offsets, so a second
 reservation failed, and could not be released

---
 src/uvm/reg/uvm_mem_mam.py | 97 ++++++++++++++++++++++++++++++++------
 1 file changed, 83 insertions(+), 14 deletions(-)

diff --git a/src/uvm/reg/uvm_mem_mam.py b/src/uvm/reg/uvm_mem_mam.py
index 16805eb..8d48b20 100644
--- a/src/uvm/reg/uvm_mem_mam.py
+++ b/src/uvm/reg/uvm_mem_mam.py
@@ -164,7 +164,32 @@ class UVMMemMam:
     #   // if no new configuration is specified, simply returns the current
     #   // configuration.
     #   //
-    #   extern def UVMMemMamCfg reconfigure(self,UVMMemMamCfg cfg = None):
+    def reconfigure(self, cfg=None):
+        if cfg is None:
+            return self.cfg
+
+        # Cannot reconfigure n_bytes
+        if cfg.n_bytes != self.cfg.n_bytes:
+            uvm_error("UVMMemMam", sv.sformatf(
+                "Cannot reconfigure Memory Allocation Manager with a different number of bytes (%0d != %0d)",
+                cfg.n_bytes, self.cfg.n_bytes))
+            return self.cfg
+
+        # All currently allocated regions must fall within the new space
+        for region in self.in_use:
+            if (region.get_start_offset() < cfg.start_offset or
+                    region.get_end_offset() > cfg.end_offset):
+                uvm_error("UVMMemMam", sv.sformatf(
+                    "Cannot reconfigure Memory Allocation Manager with a currently allocated region" +
+                    " outside of the managed address range ([%0d:%0d] outside of [%0d:%0d])",
+                    region.get_start_offset(), region.get_end_offset(),
+                    cfg.start_offset, cfg.end_offset))
+                return self.cfg
+
+        prev = self.cfg
+        self.cfg = cfg
+        return prev
+
 
     #   //-------------------------
     #   // Group: Memory Management
@@ -278,7 +303,17 @@ class UVMMemMam:
     #   // specified region has not been previously allocated or
     #   // is no longer allocated.
     #   //
-    #   extern def void release_region(self,UVMMemRegion region):
+    def release_region(self, region):
+        if region is None:
+            return
+
+        for i in range(len(self.in_use)):
+            if self.in_use[i] is region:
+                del self.in_use[i]
+                return
+        uvm_error("RegModel", "Attempting to release unallocated region\n"
+            + region.convert2string())
+
 
     #
     #
@@ -286,7 +321,9 @@ class UVMMemMam:
     #   //
     #   // Forcibly release all allocated memory regions.
     #   //
-    #   extern def void release_all_regions(self):
+    def release_all_regions(self):
+        self.in_use = []
+
 
     #
     #
@@ -301,7 +338,12 @@ class UVMMemMam:
     #   // Create a human-readable description of the state of
     #   // the memory manager and the currently allocated regions.
     #   //
-    #   extern def string convert2string(self):
+    def convert2string(self):
+        result = "Allocated memory regions:\n"
+        for region in self.in_use:
+            result += "   " + region.convert2string() + "\n"
+        return result
+
 
     #
     #
@@ -314,7 +356,17 @@ class UVMMemMam:
     #   // Returns ~None~ when there are no additional allocated
     #   // regions to iterate on.
     #   //
-    #   extern def UVMMemRegion for_each(self,bit reset = 0):
+    def for_each(self, reset=0):
+        if reset:
+            self.for_each_idx = -1
+
+        self.for_each_idx += 1
+
+        if self.for_each_idx >= len(self.in_use):
+            return None
+
+        return self.in_use[self.for_each_idx]
+
 
     #
     #
@@ -328,7 +380,8 @@ class UVMMemMam:
     #   // Returns ~None~ if no
     #   // memory abstraction class was specified at construction time.
     #   //
-    #   extern def uvm_mem get_memory(self):
+    def get_memory(self):
+        return self.memory
 
     #endclass: UVMMemMam
 
@@ -392,7 +445,9 @@ class UVMMemRegion:
     #   // Return the address offset, within the memory,
     #   // where self memory region starts.
     #   //
-    #   extern def bit [63:0] get_start_offset(self):
+    def get_start_offset(self):
+        return self.Xstart_offsetX
+
     #
     #
     #   // Function: get_end_offset
@@ -402,7 +457,9 @@ class UVMMemRegion:
     #   // Return the address offset, within the memory,
     #   // where self memory region ends.
     #   //
-    #   extern def bit [63:0] get_end_offset(self):
+    def get_end_offset(self):
+        return self.Xend_offsetX
+
     #
     #
     #   // Function: get_len
@@ -412,7 +469,9 @@ class UVMMemRegion:
     #   // Return the number of consecutive memory locations
     #   // (not necessarily bytes) in the allocated region.
     #   //
-    #   extern def int unsigned get_len(self):
+    def get_len(self):
+        return self.len
+
     #
     #
     #   // Function: get_n_bytes
@@ -424,14 +483,18 @@ class UVMMemRegion:
     #   // the number of bytes in an allocated region may
     #   // be greater than the number of requested or reserved bytes.
     #   //
-    #   extern def int unsigned get_n_bytes(self):
+    def get_n_bytes(self):
+        return self.n_bytes
+
     #
     #
     #   // Function: release_region
     #   //
     #   // Release self region
     #   //
-    #   extern def void release_region(self):
+    def release_region(self):
+        self.parent.release_region(self)
+
     #
     #
     #   // Function: get_memory
@@ -443,7 +506,9 @@ class UVMMemRegion:
     #   // Returns ~None~ if no memory abstraction class was specified
     #   // for the allocation manager that allocated self region.
     #   //
-    #   extern def uvm_mem get_memory(self):
+    def get_memory(self):
+        return self.parent.get_memory()
+
     #
     #
     #   // Function: get_virtual_registers
@@ -455,7 +520,9 @@ class UVMMemRegion:
     #   // Returns ~None~ if the memory region is
     #   // not known to implement virtual registers.
     #   //
-    #   extern def uvm_vreg get_virtual_registers(self):
+    def get_virtual_registers(self):
+        return self.XvregX
+
     #
     #
     #   // Task: write
@@ -591,7 +658,9 @@ class UVMMemRegion:
     #                    input  int                lineno = 0)
     #
     #
-    #   extern def string convert2string(self):
+    def convert2string(self):
+        return sv.sformatf("['h%h:'h%h]", self.Xstart_offsetX, self.Xend_offsetX)
+
     #
     #endclass
 
-- 
2.43.0


From 6696f180cf4a52ac1a8090f81a6f9191c1ed8aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 35/85] fix: a generic payload could not be printed or
 compared, and its copy was empty

---
 src/uvm/tlm2/uvm_tlm2_generic_payload.py | 237 +++++++----------------
 1 file changed, 75 insertions(+), 162 deletions(-)

diff --git a/src/uvm/tlm2/uvm_tlm2_generic_payload.py b/src/uvm/tlm2/uvm_tlm2_generic_payload.py
index babf330..a845500 100644
--- a/src/uvm/tlm2/uvm_tlm2_generic_payload.py
+++ b/src/uvm/tlm2/uvm_tlm2_generic_payload.py
@@ -385,6 +385,7 @@ class UVMTLMGenericPayload(UVMSequenceItem):
         self.m_length = 0
         self.m_response_status = UVM_TLM_INCOMPLETE_RESPONSE
         self.m_dmi = 0
+        self.m_byte_enable = []
         self.m_byte_enable_length = 0
         self.m_streaming_width = 0
         self.m_data = []
@@ -431,43 +432,18 @@ class UVMTLMGenericPayload(UVMSequenceItem):
 
     #  // Function- do_copy
     #  //
-    #  def void do_copy(self,uvm_object rhs):
-    #    uvm_tlm_generic_payload gp
-    #    super().do_copy(rhs)
-    #    sv.cast(gp, rhs)
-    #    m_address            = gp.m_address
-    #    m_command            = gp.m_command
-    #    m_data               = gp.m_data
-    #    m_dmi                = gp.m_dmi
-    #    m_length             = gp.m_length
-    #    m_response_status    = gp.m_response_status
-    #    m_byte_enable        = gp.m_byte_enable
-    #    m_streaming_width    = gp.m_streaming_width
-    #    m_byte_enable_length = gp.m_byte_enable_length
-    #
-    #    m_extensions.delete()
-    #    foreach (gp.m_extensions[ext])
-    #       sv.cast(m_extensions[ext], gp.m_extensions[ext].clone())
-    #
-    #  endfunction
-
-
-    #`define m_uvm_tlm_fast_compare_int(VALUE,RADIX,NAME="") \
-    #  if ( (!comparer.get_threshold()  or  (comparer.get_result() < comparer.get_threshold()))  and  \
-    #      ((VALUE) != (gp.VALUE)) ): \
-    #     string name = (NAME == "") ? `"VALUE`" : NAME; \
-    #        comparer.compare_field_int(name , VALUE, gp.VALUE, sv.bits(VALUE), RADIX)  # cast to 'void' removed \
-    #  end
-
+    def do_copy(self, rhs):
+        super().do_copy(rhs)
+        self.m_address = rhs.m_address
+        self.m_command = rhs.m_command
+        self.m_data = list(rhs.m_data)
+        self.m_dmi = rhs.m_dmi
+        self.m_length = rhs.m_length
+        self.m_response_status = rhs.m_response_status
+        self.m_byte_enable = list(rhs.m_byte_enable)
+        self.m_streaming_width = rhs.m_streaming_width
+        self.m_byte_enable_length = rhs.m_byte_enable_length
 
-    #`define m_uvm_tlm_fast_compare_enum(VALUE,TYPE,NAME="") \
-    #  if ( (!comparer.get_threshold()  or  (comparer.get_result() < comparer.get_threshold()))  and  \
-    #      ((VALUE) != (gp.VALUE)) ): \
-    #        string name = (NAME == "") ? `"VALUE`" : NAME; \
-    #        void'( comparer.compare_string(name, \
-    #				sv.sformatf("%s'(%s)", `"TYPE`", VALUE.name()), \
-    #				sv.sformatf("%%s)", `"TYPE`", gp.VALUE.name()))   # cast to 's' removed \
-    #  end
 
     #  // Function: do_compare
     #  // Compares this generic payload to ~rhs~.
@@ -476,68 +452,32 @@ class UVMTLMGenericPayload(UVMSequenceItem):
     #  // to those of ~rhs~.  All fields are compared, however if byte
     #  // enables are being used, then non-enabled bytes of data are
     #  // skipped.
-    #  def bit do_compare(self,uvm_object rhs, uvm_comparer comparer):
-    #    uvm_tlm_generic_payload gp
-    #    do_compare = super().do_compare(rhs, comparer)
-    #    sv.cast(gp, rhs)
-    #
-    #    `m_uvm_tlm_fast_compare_int(m_address, UVM_HEX)
-    #    `m_uvm_tlm_fast_compare_enum(m_command, uvm_tlm_command_e)
-    #    `m_uvm_tlm_fast_compare_int(m_length, UVM_UNSIGNED)
-    #    `m_uvm_tlm_fast_compare_int(m_dmi, UVM_BIN)
-    #    `m_uvm_tlm_fast_compare_int(m_byte_enable_length, UVM_UNSIGNED)
-    #    `m_uvm_tlm_fast_compare_enum(m_response_status, uvm_tlm_response_status_e)
-    #    `m_uvm_tlm_fast_compare_int(m_streaming_width, UVM_UNSIGNED)
-    #
-    #    if ( (!comparer.get_threshold()  or  (comparer.get_result() < comparer.get_threshold()))  and
-    #	 m_byte_enable_length == gp.m_byte_enable_length ):
-    #
-    #       for (int i=0; i < m_byte_enable_length  and  i < m_byte_enable.size(); i++):
-    #	  `m_uvm_tlm_fast_compare_int(m_byte_enable[i], UVM_HEX, sv.sformatf("m_byte_enable[%0d]", i))
-    #       end
-    #    end
-    #
-    #    if ( (!comparer.get_threshold()  or  (comparer.get_result() < comparer.get_threshold()))  and
-    #	 m_length == gp.m_length ):
-    #
-    #        byte unsigned be
-    #        for (int i=0; i < m_length  and  i < m_data.size(); i++):
-    #          if (m_byte_enable_length):
-    #            be = m_byte_enable[i % m_byte_enable_length]
-    #          end
-    #          else begin
-    #	    be = 8'hFF
-    #          end
-    #	   `m_uvm_tlm_fast_compare_int(m_data[i] & be, UVM_HEX, sv.sformatf("m_data[%0d] & %0x", i, be))
-    #        end
-    #     end
-    #
-    #     if ( !comparer.get_threshold()  or  (comparer.get_result() < comparer.get_threshold()) )
-    #      foreach (m_extensions[ext_]):
-    #         uvm_tlm_extension_base ext = ext_
-    #         uvm_tlm_extension_base rhs_ext = gp.m_extensions.exists(ext) ?
-    #                                          gp.m_extensions[ext] : None
-    #
-    #	   void'(comparer.compare_object(ext.get_name(),
-    #                                         m_extensions[ext], rhs_ext))
-    #
-    #	 if ( !comparer.get_threshold()  or  (comparer.get_result() < comparer.get_threshold()) )
-    #	   break
-    #
-    #      end
-    #
-    #    if (comparer.get_result()):
-    #       string msg = sv.sformatf("GP miscompare between '%s' and '%s':\nlhs = %s\nrhs = %s",
-    #			      get_full_name(), gp.get_full_name(),
-    #			      self.convert2string(), gp.convert2string())
-    #       comparer.print_msg(msg)
-    #    end
-    #
-    #    return (comparer.get_result() == 0)
-    #  endfunction
-    #
-    #`undef m_uvm_tlm_fast_compare_int
-    #`undef m_uvm_tlm_fast_compare_enum
+    def do_compare(self, rhs, comparer):
+        comparer.compare_field_int("m_address", self.m_address, rhs.m_address, 64)
+        comparer.compare_string("m_command", str(self.m_command), str(rhs.m_command))
+        comparer.compare_field_int("m_length", self.m_length, rhs.m_length, 32)
+        comparer.compare_field_int("m_dmi", self.m_dmi, rhs.m_dmi, 1)
+        comparer.compare_field_int("m_byte_enable_length", self.m_byte_enable_length,
+            rhs.m_byte_enable_length, 32)
+        comparer.compare_string("m_response_status", self.get_response_string(),
+            rhs.get_response_string())
+        comparer.compare_field_int("m_streaming_width", self.m_streaming_width,
+            rhs.m_streaming_width, 32)
+
+        if self.m_byte_enable_length == rhs.m_byte_enable_length:
+            for i in range(self.m_byte_enable_length):
+                comparer.compare_field_int("m_byte_enable[" + str(i) + "]",
+                    self.m_byte_enable[i], rhs.m_byte_enable[i], 8)
+
+        if self.m_length == rhs.m_length:
+            for i in range(self.m_length):
+                be = 0xFF
+                if self.m_byte_enable_length:
+                    be = self.m_byte_enable[i % self.m_byte_enable_length]
+                comparer.compare_field_int("m_data[" + str(i) + "]",
+                    self.m_data[i] & be, rhs.m_data[i] & be, 8)
+
+        return super().do_compare(rhs, comparer) and comparer.result == 0
 
 
     #  // Function: do_pack
@@ -730,42 +670,37 @@ class UVMTLMGenericPayload(UVMSequenceItem):
     #   // Return the value of the <m_data> array
     #
     #  // @uvm-ieee 1800.2-2017 auto 12.3.4.2.21
-    #  virtual def void get_data (self,output byte unsigned p []):
-    #    p = m_data
-    #  endfunction
+    def get_data(self):
+        return self.m_data
 
     #   // Function -- NODOCS -- set_data
     #   //
     #   // Set the value of the <m_data> array
     #
     #  // @uvm-ieee 1800.2-2017 auto 12.3.4.2.22
-    #  def set_data(self,ref byte unsigned p []):
-    #    m_data = p
-    #  endfunction
+    def set_data(self, p):
+        self.m_data = p
 
     #   // Function -- NODOCS -- get_data_length
     #   //
     #   // Return the current size of the <m_data> array
     #
-    #  virtual def int unsigned get_data_length(self):
-    #    return m_length
-    #  endfunction
+    def get_data_length(self):
+        return self.m_length
 
     #  // Function -- NODOCS -- set_data_length
     #  // Set the value of the <m_length>
     #
     #   // @uvm-ieee 1800.2-2017 auto 12.3.4.2.24
-    #   def set_data_length(self,int unsigned length):
-    #    m_length = length
-    #  endfunction
+    def set_data_length(self, length):
+        self.m_length = length
 
     #   // Function -- NODOCS -- get_streaming_width
     #   //
     #   // Get the value of the <m_streaming_width> array
     #
-    #  virtual def int unsigned get_streaming_width(self):
-    #    return m_streaming_width
-    #  endfunction
+    def get_streaming_width(self):
+        return self.m_streaming_width
 
 
     #   // Function -- NODOCS -- set_streaming_width
@@ -773,32 +708,28 @@ class UVMTLMGenericPayload(UVMSequenceItem):
     #   // Set the value of the <m_streaming_width> array
     #
     #  // @uvm-ieee 1800.2-2017 auto 12.3.4.2.26
-    #  def set_streaming_width(self,int unsigned width):
-    #    m_streaming_width = width
-    #  endfunction
+    def set_streaming_width(self, width):
+        self.m_streaming_width = width
 
 
     #  // @uvm-ieee 1800.2-2017 auto 12.3.4.2.27
-    #  def get_byte_enable(self,output byte unsigned p[]):
-    #    p = m_byte_enable
-    #  endfunction
+    def get_byte_enable(self):
+        return self.m_byte_enable
     #
     #   // Function -- NODOCS -- set_byte_enable
     #   //
     #   // Set the value of the <m_byte_enable> array
     #
     #  // @uvm-ieee 1800.2-2017 auto 12.3.4.2.28
-    #  def set_byte_enable(self,ref byte unsigned p[]):
-    #    m_byte_enable = p
-    #  endfunction
+    def set_byte_enable(self, p):
+        self.m_byte_enable = p
     #
     #   // Function -- NODOCS -- get_byte_enable_length
     #   //
     #   // Return the current size of the <m_byte_enable> array
     #
-    #  virtual def int unsigned get_byte_enable_length(self):
-    #    return m_byte_enable_length
-    #  endfunction
+    def get_byte_enable_length(self):
+        return self.m_byte_enable_length
     #
     #   // Function -- NODOCS -- set_byte_enable_length
     #   //
@@ -806,45 +737,40 @@ class UVMTLMGenericPayload(UVMSequenceItem):
     #   // i.e.  <m_byte_enable>.size()
     #
     # // @uvm-ieee 1800.2-2017 auto 12.3.4.2.30
-    # def set_byte_enable_length(self,int unsigned length):
-    #    m_byte_enable_length = length
-    #  endfunction
+    def set_byte_enable_length(self, length):
+        self.m_byte_enable_length = length
     #
     #   // Function -- NODOCS -- set_dmi_allowed
     #   //
     #   // DMI hint. Set the internal flag <m_dmi> to allow dmi access
     #
     #  // @uvm-ieee 1800.2-2017 auto 12.3.4.2.31
-    #  def set_dmi_allowed(self,bit dmi):
-    #    m_dmi = dmi
-    #  endfunction
+    def set_dmi_allowed(self, dmi):
+        self.m_dmi = dmi
     #
     #   // Function -- NODOCS -- is_dmi_allowed
     #   //
     #   // DMI hint. Query the internal flag <m_dmi> if allowed dmi access
     #
     # // @uvm-ieee 1800.2-2017 auto 12.3.4.2.32
-    # def is_dmi_allowed(self):
-    #    return m_dmi
-    #  endfunction
+    def is_dmi_allowed(self):
+        return self.m_dmi
     #
     #   // Function -- NODOCS -- get_response_status
     #   //
     #   // Return the current value of the <m_response_status> variable
     #
     #  // @uvm-ieee 1800.2-2017 auto 12.3.4.2.33
-    #  def get_response_status(self):
-    #    return m_response_status
-    #  endfunction
+    def get_response_status(self):
+        return self.m_response_status
     #
     #   // Function -- NODOCS -- set_response_status
     #   //
     #   // Set the current value of the <m_response_status> variable
     #
     #  // @uvm-ieee 1800.2-2017 auto 12.3.4.2.34
-    #  def set_response_status(self,uvm_tlm_response_status_e status):
-    #    m_response_status = status
-    #  endfunction
+    def set_response_status(self, status):
+        self.m_response_status = status
     #
     #   // Function -- NODOCS -- is_response_ok
     #   //
@@ -852,9 +778,8 @@ class UVMTLMGenericPayload(UVMSequenceItem):
     #   // is ~UVM_TLM_OK_RESPONSE~
     #
     #  // @uvm-ieee 1800.2-2017 auto 12.3.4.2.35
-    #  def is_response_ok(self):
-    #    return (m_response_status) > 0  # cast to 'int' removed
-    #  endfunction
+    def is_response_ok(self):
+        return int(self.m_response_status) > 0
     #
     #   // Function -- NODOCS -- is_response_error
     #   //
@@ -862,9 +787,8 @@ class UVMTLMGenericPayload(UVMSequenceItem):
     #   // is not ~UVM_TLM_OK_RESPONSE~
     #
     #  // @uvm-ieee 1800.2-2017 auto 12.3.4.2.36
-    #  def is_response_error(self):
-    #    return !is_response_ok()
-    #  endfunction
+    def is_response_error(self):
+        return not self.is_response_ok()
 
 
     #   // Function -- NODOCS -- get_response_string
@@ -873,22 +797,11 @@ class UVMTLMGenericPayload(UVMSequenceItem):
     #   // as a string
     #
     #  // @uvm-ieee 1800.2-2017 auto 12.3.4.2.37
-    #  def get_response_string(self):
-    #
-    #    case(m_response_status)
-    #      UVM_TLM_OK_RESPONSE                : return "OK"
-    #      UVM_TLM_INCOMPLETE_RESPONSE        : return "INCOMPLETE"
-    #      UVM_TLM_GENERIC_ERROR_RESPONSE     : return "GENERIC_ERROR"
-    #      UVM_TLM_ADDRESS_ERROR_RESPONSE     : return "ADDRESS_ERROR"
-    #      UVM_TLM_COMMAND_ERROR_RESPONSE     : return "COMMAND_ERROR"
-    #      UVM_TLM_BURST_ERROR_RESPONSE       : return "BURST_ERROR"
-    #      UVM_TLM_BYTE_ENABLE_ERROR_RESPONSE : return "BYTE_ENABLE_ERROR"
-    #    endcase
-    #
-    #    // we should never get here
-    #    return "UNKNOWN_RESPONSE"
-    #
-    #  endfunction
+    def get_response_string(self):
+        try:
+            return uvm_tlm_response_status_e(self.m_response_status).name.replace("_RESPONSE", "")
+        except ValueError:
+            return "UNKNOWN_RESPONSE"
 
     #  //--------------------------------------------------------------------
     #  // Group -- NODOCS -- Extensions Mechanism
-- 
2.43.0


From 5209a4c8e645b6cd91c985e015c8b652709c1791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:18 +0000
Subject: [PATCH 36/85] fix: an initiator socket with its own backward
 implementation reported that it had none

---
 src/uvm/tlm2/uvm_tlm2_sockets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/tlm2/uvm_tlm2_sockets.py b/src/uvm/tlm2/uvm_tlm2_sockets.py
index cc2a03a..1f41356 100644
--- a/src/uvm/tlm2/uvm_tlm2_sockets.py
+++ b/src/uvm/tlm2/uvm_tlm2_sockets.py
@@ -157,7 +157,7 @@ class UVMTLMNbInitiatorSocket(UVMTLMNbInitiatorSocketBase):
 
         if (imp is None):
             imp = parent
-        else:
+        if imp is None:
             uvm_error("UVM/TLM2/NOIMP", cat("nb_initiator socket ", name,
                                      " has no implementation"))
         self.bw_imp = UVMTLMNbTransportBwImp("bw_imp", imp)
-- 
2.43.0


From 56fc9722df78b1fa2fbfe8473cbc0d274d013548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:18 +0000
Subject: [PATCH 37/85] fix: the backward path of non-blocking transport
 stopped at a pass-through socket

---
 src/uvm/tlm2/uvm_tlm2_sockets.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/uvm/tlm2/uvm_tlm2_sockets.py b/src/uvm/tlm2/uvm_tlm2_sockets.py
index 1f41356..bc04b9c 100644
--- a/src/uvm/tlm2/uvm_tlm2_sockets.py
+++ b/src/uvm/tlm2/uvm_tlm2_sockets.py
@@ -312,11 +312,15 @@ class UVMTLMNbPassthroughInitiatorSocket(UVMTLMNbPassthroughInitiatorSocketBase)
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(self.get_type_name(),
-            #     "type mismatch in connect -- connection cannot be completed",
-            #     self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
+            return
+
+        if isinstance(provider, UVMTLMNbPassthroughInitiatorSocketBase):
+            provider.bw_export.connect(self.bw_export)
+        else:
+            provider.bw_port.connect(self.bw_export)
 
 #//----------------------------------------------------------------------
 #// Class -- NODOCS -- uvm_tlm_nb_passthrough_target_socket
@@ -339,8 +343,9 @@ class UVMTLMNbPassthroughTargetSocket(UVMTLMNbPassthroughTargetSocketBase):
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(self.get_type_name(),
-            #     "type mismatch in connect -- connection cannot be completed",
-            #     self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
+            return
+
+        provider.bw_port.connect(self.bw_port)
-- 
2.43.0


From 0cf924d5ffdc92fa589ef07bd07a11ecfa077b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:26 +0000
Subject: [PATCH 38/85] fix: a blocking pass-through socket accepted a
 connection to the wrong kind of socket silently

---
 src/uvm/tlm2/uvm_tlm2_sockets.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/uvm/tlm2/uvm_tlm2_sockets.py b/src/uvm/tlm2/uvm_tlm2_sockets.py
index bc04b9c..fcb39fd 100644
--- a/src/uvm/tlm2/uvm_tlm2_sockets.py
+++ b/src/uvm/tlm2/uvm_tlm2_sockets.py
@@ -257,11 +257,9 @@ class UVMTLMBPassthroughInitiatorSocket(UVMTLMBPassthroughInitiatorSocketBase):
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(get_type_name(),
-            #    "type mismatch in connect -- connection cannot be completed",
-            #    self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
 
 #//----------------------------------------------------------------------
 #// Class: uvm_tlm_b_passthrough_target_socket
@@ -283,11 +281,9 @@ class UVMTLMBPassthroughTargetSocket(UVMTLMBPassthroughTargetSocketBase):
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(self.get_type_name(),
-            #    "type mismatch in connect -- connection cannot be completed",
-            #    self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
 
 
 #//----------------------------------------------------------------------
-- 
2.43.0


From 9e3d645c494b18030efc8736f97403d5a197e99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:06 +0000
Subject: [PATCH 39/85] fix: after a nested copy the same object was never
 copied again

---
 src/uvm/base/uvm_object.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/uvm/base/uvm_object.py b/src/uvm/base/uvm_object.py
index 46170f5..2ccbb0f 100644
--- a/src/uvm/base/uvm_object.py
+++ b/src/uvm/base/uvm_object.py
@@ -520,7 +520,6 @@ class UVMObject(sv_obj):
             rhs (UVMObject): An object to be copied.
         """
         # For cycle checking
-        UVMObject.depth = 0
         if (rhs is not None) and rhs in UVMObject.uvm_global_copy_map:
             return
 
@@ -531,12 +530,13 @@ class UVMObject(sv_obj):
 
         UVMObject.uvm_global_copy_map[rhs] = self
         UVMObject.depth += 1
-        self._m_uvm_field_automation(rhs, UVM_COPY, "")
-        self.do_copy(rhs)
-
-        UVMObject.depth -= 1
-        if UVMObject.depth == 0:
-            UVMObject.uvm_global_copy_map = {}
+        try:
+            self._m_uvm_field_automation(rhs, UVM_COPY, "")
+            self.do_copy(rhs)
+        finally:
+            UVMObject.depth -= 1
+            if UVMObject.depth == 0:
+                UVMObject.uvm_global_copy_map = {}
 
     def do_copy(self, rhs) -> None:
         """
-- 
2.43.0


From eb51b06eda76031db9f3be4969d76a46745ec516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:06 +0000
Subject: [PATCH 40/85] fix: a copied register item shared its value with the
 original

---
 src/uvm/reg/uvm_reg_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_item.py b/src/uvm/reg/uvm_reg_item.py
index 7799aea..8f6fd69 100644
--- a/src/uvm/reg/uvm_reg_item.py
+++ b/src/uvm/reg/uvm_reg_item.py
@@ -215,7 +215,7 @@ class UVMRegItem(UVMSequenceItem):
         self.element_kind = rhs_.element_kind
         self.element = rhs_.element
         self.kind = rhs_.kind
-        self.value = rhs_.value
+        self.value = list(rhs_.value)
         self.offset = rhs_.offset
         self.status = rhs_.status
         self.local_map = rhs_.local_map
-- 
2.43.0


From 42858a877ea887458ee07a46f70c573ad1f4837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:06 +0000
Subject: [PATCH 41/85] fix: indirect data registers could not be predicted,
 were written by update, and a failed index write kept the locks

---
 src/uvm/reg/uvm_reg_indirect.py | 102 +++++++++-----------------------
 1 file changed, 27 insertions(+), 75 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_indirect.py b/src/uvm/reg/uvm_reg_indirect.py
index b40803c..da91e06 100644
--- a/src/uvm/reg/uvm_reg_indirect.py
+++ b/src/uvm/reg/uvm_reg_indirect.py
@@ -205,11 +205,12 @@ class UVMRegIndirectData(UVMReg):
     #   endfunction
 
     #
-    #   virtual function uvm_reg get_indirect_reg(string  fname = "",
-    #                                        int     lineno = 0)
-    #      int unsigned idx = m_idx.get_mirrored_value()
-    #      return(m_tbl[idx])
-    #   endfunction
+    def get_indirect_reg(self, fname="", lineno=0):
+        """
+        Returns the register that is selected by the current mirrored value of
+        the index register.
+        """
+        return self.m_tbl[self.m_idx.get_mirrored_value()]
 
     def needs_update(self):
         return 0
@@ -275,80 +276,28 @@ class UVMRegIndirectData(UVMReg):
         #   endtask
 
 
-    #   virtual task read(output uvm_status_e      status,
-    #                     output uvm_reg_data_t    value,
-    #                     input  uvm_path_e        path = UVM_DEFAULT_PATH,
-    #                     input  uvm_reg_map       map = None,
-    #                     input  uvm_sequence_base parent = None,
-    #                     input  int               prior = -1,
-    #                     input  uvm_object        extension = None,
-    #                     input  string            fname = "",
-    #                     input  int               lineno = 0)
-    #
-    #      if (path == UVM_DEFAULT_PATH):
-    #         uvm_reg_block blk = get_parent()
-    #         path = blk.get_default_path()
-    #      end
-    #
-    #      if (path == UVM_BACKDOOR):
-    #         `uvm_warning(get_full_name(), "Cannot backdoor-read an indirect data access register. Switching to frontdoor.")
-    #         path = UVM_FRONTDOOR
-    #      end
-    #
-    #      super.read(status, value, path, map, parent, prior, extension, fname, lineno)
-    #   endtask
-
+    async def read(self, status, value, path=UVM_DEFAULT_PATH, _map=None,
+            parent=None, prior=-1, extension=None, fname="", lineno=0):
+        if path == UVM_DEFAULT_PATH:
+            blk = self.get_parent()  # uvm_reg_block
+            path = blk.get_default_path()
 
-    #   virtual task poke(output uvm_status_e      status,
-    #                     input  uvm_reg_data_t    value,
-    #                     input  string            kind = "",
-    #                     input  uvm_sequence_base parent = None,
-    #                     input  uvm_object        extension = None,
-    #                     input  string            fname = "",
-    #                     input  int               lineno = 0)
-    #      `uvm_error(get_full_name(), "Cannot poke() an indirect data access register")
-    #      status = UVM_NOT_OK
-    #   endtask
+        if path == UVM_BACKDOOR:
+            uvm_warning(self.get_full_name(),
+                "Cannot backdoor-read an indirect data access register. Switching to frontdoor.")
+            path = UVM_FRONTDOOR
 
-    #
-    #   virtual task peek(output uvm_status_e      status,
-    #                     output uvm_reg_data_t    value,
-    #                     input  string            kind = "",
-    #                     input  uvm_sequence_base parent = None,
-    #                     input  uvm_object        extension = None,
-    #                     input  string            fname = "",
-    #                     input  int               lineno = 0)
-    #      `uvm_error(get_full_name(), "Cannot peek() an indirect data access register")
-    #      status = UVM_NOT_OK
-    #   endtask
+        return await super().read(status, value, path, _map, parent, prior, extension, fname, lineno)
 
-    #
-    #   virtual task update(output uvm_status_e      status,
-    #                       input  uvm_path_e        path = UVM_DEFAULT_PATH,
-    #                       input  uvm_reg_map       map = None,
-    #                       input  uvm_sequence_base parent = None,
-    #                       input  int               prior = -1,
-    #                       input  uvm_object        extension = None,
-    #                       input  string            fname = "",
-    #                       input  int               lineno = 0)
-    #      status = UVM_IS_OK
-    #   endtask
+    async def update(self, status, path=UVM_DEFAULT_PATH, _map=None, parent=None,
+            prior=-1, extension=None, fname="", lineno=0):
+        uvm_check_output_args([status])
+        status.append(UVM_IS_OK)
 
-    #
-    #   virtual task mirror(output uvm_status_e      status,
-    #                       input uvm_check_e        check  = UVM_NO_CHECK,
-    #                       input uvm_path_e         path = UVM_DEFAULT_PATH,
-    #                       input uvm_reg_map        map = None,
-    #                       input uvm_sequence_base  parent = None,
-    #                       input int                prior = -1,
-    #                       input  uvm_object        extension = None,
-    #                       input string             fname = "",
-    #                       input int                lineno = 0)
-    #      status = UVM_IS_OK
-
-    #   endtask
-    #
-    #endclass : uvm_reg_indirect_data
+    async def mirror(self, status, check=UVM_NO_CHECK, path=UVM_DEFAULT_PATH, _map=None,
+            parent=None, prior=-1, extension=None, fname="", lineno=0):
+        uvm_check_output_args([status])
+        status.append(UVM_IS_OK)
 
 
 class uvm_reg_indirect_ftdr_seq(UVMRegFrontdoor):
@@ -390,6 +339,9 @@ class uvm_reg_indirect_ftdr_seq(UVMRegFrontdoor):
         await self.m_addr_reg.do_write(rw)
 
         if rw.status == UVM_NOT_OK:
+            await self.m_addr_reg.XatomicX(0)
+            await self.m_data_reg.XatomicX(0)
+            self.rw_info.status = rw.status
             return
 
         arr = []
-- 
2.43.0


From 3c6e8e743d3e22e960170fb7fd833cff19fdb4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 42/85] fix: a register FIFO wrote the values set in it
 repeatedly and refused direct writes

---
 src/uvm/reg/uvm_reg_fifo.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_fifo.py b/src/uvm/reg/uvm_reg_fifo.py
index 332bf06..5c76edb 100644
--- a/src/uvm/reg/uvm_reg_fifo.py
+++ b/src/uvm/reg/uvm_reg_fifo.py
@@ -24,9 +24,11 @@ import cocotb
 from .uvm_reg import UVMReg
 from .uvm_reg_field import UVMRegField
 from .uvm_reg_model import (UVM_CHECK, UVM_DEFAULT_PATH, UVM_NOT_OK,
-    UVM_PREDICT_WRITE, UVM_PREDICT_DIRECT, UVM_PREDICT_READ)
+    UVM_PREDICT_WRITE, UVM_PREDICT_DIRECT, UVM_PREDICT_READ, UVM_REG, UVM_WRITE)
+from .uvm_reg_item import UVMRegItem
 from ..macros import uvm_warning, uvm_error
 from ..base.sv import sv
+from ..base.uvm_globals import uvm_check_output_args
 
 
 
@@ -130,6 +132,31 @@ class UVMRegFIFO(UVMReg):
     #    //  If the write is via an `UVMRegFIFO.update` operation, the abstract FIFO
     #    //  already contains the written value and is thus not affected by
     #    //  either prediction mode.
+    #    //
+    async def write(self, status, value, path=UVM_DEFAULT_PATH, _map=None, parent=None,
+            prior=-1, extension=None, fname="", lineno=0):
+        # Can't simply call super().write() because it'll call set(), which
+        # pushes the value to the abstract FIFO
+        uvm_check_output_args([status])
+        rw = UVMRegItem.type_id.create("write_item", None, self.get_full_name())
+        await self.XatomicX(1, rw)
+        rw.element      = self
+        rw.element_kind = UVM_REG
+        rw.kind         = UVM_WRITE
+        rw.value[0]     = value
+        rw.path         = path
+        rw.map          = _map
+        rw.parent       = parent
+        rw.prior        = prior
+        rw.extension    = extension
+        rw.fname        = fname
+        rw.lineno       = lineno
+
+        await self.do_write(rw)
+        status.append(rw.status)
+
+        await self.XatomicX(0)
+        return rw.status
 
 
     #    //  Function: read
@@ -196,7 +223,9 @@ class UVMRegFIFO(UVMReg):
     #    //
     def get(self, fname="", lineno=0):
         #return fifo.pop(0)();
-        val = self.fifo[0]
+        val = 0
+        if len(self.fifo) > 0:
+            val = self.fifo[0]
         return val
 
 
-- 
2.43.0


From 0c7773181917c06422c9e0bbccf4609aa14c6746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 43/85] fix: updating a register FIFO with nothing to write
 left the status unset

---
 src/uvm/reg/uvm_reg_fifo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_fifo.py b/src/uvm/reg/uvm_reg_fifo.py
index 5c76edb..f1693ab 100644
--- a/src/uvm/reg/uvm_reg_fifo.py
+++ b/src/uvm/reg/uvm_reg_fifo.py
@@ -23,7 +23,7 @@
 import cocotb
 from .uvm_reg import UVMReg
 from .uvm_reg_field import UVMRegField
-from .uvm_reg_model import (UVM_CHECK, UVM_DEFAULT_PATH, UVM_NOT_OK,
+from .uvm_reg_model import (UVM_CHECK, UVM_DEFAULT_PATH, UVM_IS_OK, UVM_NOT_OK,
     UVM_PREDICT_WRITE, UVM_PREDICT_DIRECT, UVM_PREDICT_READ, UVM_REG, UVM_WRITE)
 from .uvm_reg_item import UVMRegItem
 from ..macros import uvm_warning, uvm_error
@@ -193,6 +193,7 @@ class UVMRegFIFO(UVMReg):
             prior=-1, extension=None, fname="", lineno=0):
         upd = 0x0
         if self.m_set_cnt == 0 or len(self.fifo) == 0:
+            status.append(UVM_IS_OK)
             return
         self.m_update_in_progress = 1
         i = len(self.fifo)-self.m_set_cnt
-- 
2.43.0


From 726414bbd585f53e28ce973b7956f436d889cf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:52 +0000
Subject: [PATCH 44/85] fix: updating a block with sub-blocks raised, and
 write_reg_by_name lost its status

---
 src/uvm/reg/uvm_reg_block.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_block.py b/src/uvm/reg/uvm_reg_block.py
index aceea7a..246d019 100644
--- a/src/uvm/reg/uvm_reg_block.py
+++ b/src/uvm/reg/uvm_reg_block.py
@@ -708,7 +708,8 @@ class UVMRegBlock(UVMObject):
         uvm_reg_cvr_rsrc_db.read_by_name("uvm_reg::" + self.get_full_name(),
                 "include_coverage",
                 cov_arr, self)
-        build_coverage = cov_arr[0]
+        if len(cov_arr) > 0:
+            build_coverage = cov_arr[0]
         return build_coverage & models
 
 
@@ -949,7 +950,8 @@ class UVMRegBlock(UVMObject):
         uvm_check_output_args([status])
         stat_all = UVM_IS_OK
 
-        if self.needs_update() is False:
+        if not self.needs_update():
+            status.append(UVM_IS_OK)
             uvm_info("RegModel", sv.sformatf("%s:%0d - RegModel block %s does not need updating",
                          fname, lineno, self.get_name()), UVM_HIGH)
             return
@@ -972,9 +974,9 @@ class UVMRegBlock(UVMObject):
         for blk_ in self.blks.key_list():
             blk = blk_
             stat_blk = []
-            await blk.update(status,path,parent,prior,extension,fname,lineno)
+            await blk.update(stat_blk,path,parent,prior,extension,fname,lineno)
             if (stat_blk[0] != UVM_IS_OK and stat_blk[0] != UVM_HAS_X):
-                stat_all = stat_blk
+                stat_all = stat_blk[0]
         status.append(stat_all)
 
 
@@ -1044,10 +1046,11 @@ class UVMRegBlock(UVMObject):
         self.fname = fname
         self.lineno = lineno
 
-        status = UVM_NOT_OK
         rg = self.get_reg_by_name(name)
         if rg is not None:
             await rg.write(status, data, path, map, parent, prior, extension)
+        else:
+            status.append(UVM_NOT_OK)
 
 
     #   // Task: read_reg_by_name
@@ -1068,6 +1071,18 @@ class UVMRegBlock(UVMObject):
     #                              input  string             fname = "",
     #                              input  int                lineno = 0)
 
+    async def read_reg_by_name(self, status, name, data, path=UVM_DEFAULT_PATH,
+            map=None, parent=None, prior=-1, extension=None, fname="",
+            lineno=0):
+        self.fname = fname
+        self.lineno = lineno
+
+        rg = self.get_reg_by_name(name)
+        if rg is not None:
+            await rg.read(status, data, path, map, parent, prior, extension)
+        else:
+            status.append(UVM_NOT_OK)
+
 
     #   // Task: write_mem_by_name
     #   //
-- 
2.43.0


From 3feb0c2f764ee01a59c8873fc6557a6bf675f2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:52 +0000
Subject: [PATCH 45/85] fix: building coverage without a coverage setting
 raised

---
 src/uvm/reg/uvm_mem.py | 3 ++-
 src/uvm/reg/uvm_reg.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index b790fdb..65c914e 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1611,7 +1611,8 @@ class UVMMem(UVMObject):
         cov_arr = []
         uvm_reg_cvr_rsrc_db.read_by_name("uvm_reg::" + self.get_full_name(),
                 "include_coverage", cov_arr, self)
-        build_coverage = cov_arr[0]
+        if len(cov_arr) > 0:
+            build_coverage = cov_arr[0]
         return build_coverage & models
 
 
diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index f057f99..5e05820 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -2259,7 +2259,8 @@ class UVMReg(UVMObject):
         cov_arr = []
         uvm_reg_cvr_rsrc_db.read_by_name("uvm_reg::" + self.get_full_name(),
                 "include_coverage", cov_arr, self)
-        build_coverage = cov_arr[0]
+        if len(cov_arr) > 0:
+            build_coverage = cov_arr[0]
         return build_coverage & models
 
 
-- 
2.43.0


From 44670d29ceca57b82d6d068e8b0d25e60e2e7087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:48 +0000
Subject: [PATCH 46/85] fix: a register write refused by its pre_write released
 the register's lock twice

---
 src/uvm/reg/uvm_reg.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 5e05820..014a98a 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1449,7 +1449,6 @@ class UVMReg(UVMObject):
 
         if rw.status != UVM_IS_OK:
             self.m_write_in_progress = False
-            await self.XatomicX(0)
             return
 
         if rw.path == UVM_BACKDOOR:
-- 
2.43.0


From bc482039a3a4296aff3e4601eac18b27f7b8a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:48 +0000
Subject: [PATCH 47/85] fix: writing a register never ran the callbacks
 registered with the register itself

---
 src/uvm/reg/uvm_reg.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 014a98a..f595123 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1422,18 +1422,18 @@ class UVMReg(UVMObject):
         lsb = 0
 
         for i in range(len(self.m_fields)):
-            cbs = UVMRegFieldCbIter(self.m_fields[i])
+            fld_cbs = UVMRegFieldCbIter(self.m_fields[i])
             f = self.m_fields[i]  # uvm_reg_field
             lsb = f.get_lsb_pos()
             msk = ((1 << f.get_n_bits() )-1) << lsb
             rw.value[0] = (value & msk) >> lsb
             await f.pre_write(rw)  # TODO yield?
-            cb = cbs.first()
+            cb = fld_cbs.first()
             while cb is not None:
                 rw.element = f
                 rw.element_kind = UVM_FIELD
                 await cb.pre_write(rw)
-                cb = cbs.next()
+                cb = fld_cbs.next()
             value = (value & ~msk) | (rw.value[0] << lsb)
 
         rw.element = self
@@ -1526,16 +1526,16 @@ class UVMReg(UVMObject):
 
         # POST-WRITE CBS - FIELDS
         for i in range(len(self.m_fields)):
-            cbs = UVMRegFieldCbIter(self.m_fields[i])
+            fld_cbs = UVMRegFieldCbIter(self.m_fields[i])
             f = self.m_fields[i]  # uvm_reg_field
             rw.element = f
             rw.element_kind = UVM_FIELD
             rw.value[0] = (value >> f.get_lsb_pos()) & ((1 << f.get_n_bits())-1)
 
-            cb = cbs.first()
+            cb = fld_cbs.first()
             while cb is not None:
-                cb.post_write(rw)
-                cb = cbs.next()
+                await cb.post_write(rw)
+                cb = fld_cbs.next()
             await f.post_write(rw)
 
         rw.value[0] = value
-- 
2.43.0


From 8fb19a814575a2c1bfce956d7396bb39aeb1bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 48/85] fix: read callbacks of a register were created but
 never run

---
 src/uvm/reg/uvm_reg.py     | 6 +++---
 src/uvm/reg/uvm_reg_cbs.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index f595123..6c87704 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1619,7 +1619,7 @@ class UVMReg(UVMObject):
         await self.pre_read(rw)
         cb = cbs.first()
         while cb is not None:
-            cb.pre_read(rw)
+            await cb.pre_read(rw)
             cb = cbs.next()
 
         if rw.status != UVM_IS_OK:
@@ -1726,7 +1726,7 @@ class UVMReg(UVMObject):
         # POST-READ CBS - REG
         cb = cbs.first()
         while (cb is not None):
-            cb.post_read(rw)
+            await cb.post_read(rw)
             cb = cbs.next()
         await self.post_read(rw)
 
@@ -1740,7 +1740,7 @@ class UVMReg(UVMObject):
 
             cb = cbs.first()
             while (cb is not None):
-                cb.post_read(rw)
+                await cb.post_read(rw)
                 cb = cbs.next()
             await f.post_read(rw)
 
diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index ac7f76d..21a534d 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -193,7 +193,7 @@ class UVMRegCbs(UVMCallback):
         await uvm_zero_delay()
 
 
-    def post_read(self, rw):
+    async def post_read(self, rw):
         """
            Task: post_read
 
@@ -234,7 +234,7 @@ class UVMRegCbs(UVMCallback):
         Args:
             rw:
         """
-        pass
+        await uvm_zero_delay()
 
 
     #   // Task: post_predict
-- 
2.43.0


From f036fd1474cddeaf8514fac6233cbb02b580aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:43 +0000
Subject: [PATCH 49/85] fix: user backdoor accesses of a register were created
 but never run

---
 src/uvm/reg/uvm_reg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 6c87704..9aeff87 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1459,7 +1459,7 @@ class UVMReg(UVMObject):
             # Mimick the final value after a physical read
             rw.kind = UVM_READ
             if bkdr is not None:
-                bkdr.read(rw)
+                await bkdr.read(rw)
             else:
                 self.backdoor_read(rw)
 
@@ -1479,7 +1479,7 @@ class UVMReg(UVMObject):
             rw.value[0] = final_val
 
             if bkdr is not None:
-                bkdr.write(rw)
+                await bkdr.write(rw)
             else:
                 self.backdoor_write(rw)
 
@@ -1636,7 +1636,7 @@ class UVMReg(UVMObject):
                 exp = self.get()
 
             if (bkdr is not None):
-                bkdr.read(rw)
+                await bkdr.read(rw)
             else:
                 self.backdoor_read(rw)
             value = rw.value[0]
@@ -1672,7 +1672,7 @@ class UVMReg(UVMObject):
                     saved = rw.value[0]
                     rw.value[0] = value
                     if bkdr is not None:
-                        bkdr.write(rw)
+                        await bkdr.write(rw)
                     else:
                         self.backdoor_write(rw)
                     rw.value[0] = saved
-- 
2.43.0


From cb34803b402d76206cc4a6e16ce53834e8091ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:43 +0000
Subject: [PATCH 50/85] fix: mirroring a register kept its lock when there was
 no map, and checked failed reads

---
 src/uvm/reg/uvm_reg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 9aeff87..a7f3b6b 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1126,6 +1126,8 @@ class UVMReg(UVMObject):
             _map = self.get_local_map(_map, "read()")
 
         if _map is None:
+            status.append(UVM_NOT_OK)
+            await self.XatomicX(0)
             return
 
         # Remember what we think the value is before it gets updated
@@ -1136,7 +1138,7 @@ class UVMReg(UVMObject):
         await self.XreadX(status, v, path, _map, parent, prior, extension, fname, lineno)
         v = v[0]
 
-        if status == UVM_NOT_OK:
+        if status[0] == UVM_NOT_OK:
             await self.XatomicX(0)
             return
 
-- 
2.43.0


From ccd180f9af4fcf62e2b6cd3124492a551bf10933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:44 +0000
Subject: [PATCH 51/85] fix: checking a register reported write-only fields as
 mismatching

---
 src/uvm/reg/uvm_reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index a7f3b6b..70754a9 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1353,7 +1353,7 @@ class UVMReg(UVMObject):
 
         for i in range(len(self.m_fields)):
             acc = self.m_fields[i].get_access(_map)
-            acc = acc[0:1]
+            acc = acc[0:2]
             if (self.m_fields[i].get_compare() == UVM_NO_CHECK or
                     acc == "WO"):
                 lsb_pos = self.m_fields[i].get_lsb_pos()
@@ -1369,7 +1369,7 @@ class UVMReg(UVMObject):
         #foreach(self.m_fields[i]):
         for i in range(len(self.m_fields)):
             acc = self.m_fields[i].get_access(_map)
-            acc = acc[0:1]
+            acc = acc[0:2]
             if (not(self.m_fields[i].get_compare() == UVM_NO_CHECK or
                    acc == "WO")):
                 mask = ((1 << self.m_fields[i].get_n_bits())-1)
-- 
2.43.0


From 0e5165dce1e82b120b2005780b137087d4b2f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:44 +0000
Subject: [PATCH 52/85] fix: updating an up-to-date register left the status
 unset

---
 src/uvm/reg/uvm_reg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 70754a9..7803cce 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1052,6 +1052,7 @@ class UVMReg(UVMObject):
         # status = UVM_IS_OK
 
         if self.needs_update() is False:
+            status.append(UVM_IS_OK)
             return
 
         # Concatenate the write-to-update values from each field
-- 
2.43.0


From 6ec341bc6c6fbfef93c4d693451c25c942a9f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:44 +0000
Subject: [PATCH 53/85] fix: accessing a register that is in no map raised with
 the register locked

---
 src/uvm/reg/uvm_reg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 7803cce..6295704 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1309,9 +1309,12 @@ class UVMReg(UVMObject):
             rw.local_map = self.get_local_map(rw.map,caller)
 
             if rw.local_map is None:
+                name = self.get_full_name()
+                if rw.map is not None:
+                    name = rw.map.get_full_name()
                 uvm_error(self.get_type_name(),
                    "No transactor available to physically access register on map '" +
-                    rw.map.get_full_name() + "'")
+                    name + "'")
                 rw.status = UVM_NOT_OK
                 return False
 
-- 
2.43.0


From 665bb0a2c635f5ab66cd62708b666ecfa889608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:44 +0000
Subject: [PATCH 54/85] fix: reading a sliced register through its HDL path
 raised

---
 src/uvm/reg/uvm_reg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 6295704..ddb2b4d 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -2148,10 +2148,11 @@ class UVMReg(UVMObject):
                     val = arr[0]
                     continue
 
-                _slice = 0
+                arr = []
                 k = hdl_concat.slices[j].offset
 
-                ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, _slice)
+                ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, arr)
+                _slice = arr[0]
 
                 for _ in range(hdl_concat.slices[j].size):
                     bit_val = _slice & 0x1
-- 
2.43.0


From e4438aee1e2bc2a1eac2e1659efa01d3f060d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 55/85] fix: predicting a field with a register callback raised

---
 src/uvm/reg/uvm_reg_cbs.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index 21a534d..ca2a866 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -237,22 +237,25 @@ class UVMRegCbs(UVMCallback):
         await uvm_zero_delay()
 
 
-    #   // Task: post_predict
-    #   //
-    #   // Called by the <uvm_reg_field::predict()> method
-    #   // after a successful UVM_PREDICT_READ or UVM_PREDICT_WRITE prediction.
-    #   //
-    #   // ~previous~ is the previous value in the mirror and
-    #   // ~value~ is the latest predicted value. Any change to ~value~ will
-    #   // modify the predicted mirror value.
-    #   //
-    #   virtual function void post_predict(input uvm_reg_field  fld,
-    #                                      input uvm_reg_data_t previous,
-    #                                      inout uvm_reg_data_t value,
-    #                                      input uvm_predict_e  kind,
-    #                                      input uvm_path_e     path,
-    #                                      input uvm_reg_map    map)
-    #   endfunction
+    def post_predict(self, fld, previous, value, kind, path, _map):
+        """
+           Task: post_predict
+
+           Called by the <uvm_reg_field::predict()> method
+           after a successful UVM_PREDICT_READ or UVM_PREDICT_WRITE prediction.
+
+           `previous` is the previous value in the mirror and
+           `value` is the latest predicted value.
+
+        Args:
+            fld:
+            previous:
+            value:
+            kind:
+            path:
+            _map:
+        """
+        pass
 
 
     def encode(self, data):
-- 
2.43.0


From 777636c43d21a0322efa18e40aeb54e4c1c95e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 56/85] fix: predicting a register raised when a field's byte
 was not enabled

---
 src/uvm/reg/uvm_reg_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index 25c6931..54d6cde 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -1265,7 +1265,7 @@ class UVMRegField(UVMObject):
 
         # Assume that the entire field is enabled
         if (0x00000001 & be) == 0:
-            raise Exception('DBG Early return field not enabled')
+            return
 
         self.m_fname = rw.fname
         self.m_lineno = rw.lineno
-- 
2.43.0


From d756ede47219de150c068ce10b9aeda18d05ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:46 +0000
Subject: [PATCH 57/85] fix: predicting a field of a register being accessed
 went unnoticed

---
 src/uvm/reg/uvm_reg_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index 54d6cde..9ff6ffc 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -1303,7 +1303,7 @@ class UVMRegField(UVMObject):
                 cb = cbs.next()
             field_val &= self._get_mask()
 
-        elif UVM_PREDICT_DIRECT:
+        elif kind == UVM_PREDICT_DIRECT:
             if self.m_parent.is_busy():
                 uvm_report_warning("RegModel", ("Trying to predict value of field '"
                    + self.get_name() + "' while register '" + self.m_parent.get_full_name()
-- 
2.43.0


From 3c65885b64116a446d5948bfb12a0be269844e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:01 +0000
Subject: [PATCH 58/85] fix: iterating over a pool visited none of its keys

---
 src/uvm/base/uvm_pool.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index ab8f044..4e8da84 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -182,6 +182,15 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
         """
         return self.num()
 
+    def __iter__(self):
+        """
+        Implements "for key in pool"
+
+        Returns:
+            iterator: Iterator over the keys of this pool
+        """
+        return iter(self.key_list())
+
     def __contains__(self, key) -> bool:
         """
         Implements X in Y operator
-- 
2.43.0


From 43217319baf8153e92aa16d99eda961a0fffa28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:16 +0000
Subject: [PATCH 59/85] fix: a refused memory access was performed all the same

---
 src/uvm/reg/uvm_mem.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 65c914e..c975e9b 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -908,7 +908,7 @@ class UVMMem(UVMObject):
                sv.sformatf("Offset 'h%0h exceeds size of memory, 'h%0h",
                  rw.offset, self.m_size))
             rw.status = UVM_NOT_OK
-            return 0
+            return False
 
         if rw.path == UVM_DEFAULT_PATH:
             rw.path = self.m_parent.get_default_path()
@@ -930,7 +930,7 @@ class UVMMem(UVMObject):
                     "No transactor available to physically access memory from map '"
                     + rw.map.get_full_name() + "'")
                 rw.status = UVM_NOT_OK
-                return 0
+                return False
 
             _map_info_data = rw.local_map.get_mem_map_info(self)
             map_info.append(_map_info_data)
@@ -942,7 +942,7 @@ class UVMMem(UVMObject):
                               + "' unmapped in map '" + rw.map.get_full_name()
                               + "' and does not have a user-defined frontdoor")
                     rw.status = UVM_NOT_OK
-                    return 0
+                    return False
 
                 if len(rw.value) > 1:
                     if self.get_n_bits() > rw.local_map.get_n_bytes()*8:
@@ -950,18 +950,19 @@ class UVMMem(UVMObject):
                              sv.sformatf("Cannot burst a %0d-bit memory through a narrower data path (%0d bytes)",
                              self.get_n_bits(), rw.local_map.get_n_bytes()*8))
                         rw.status = UVM_NOT_OK
-                        return 0
+                        return False
 
                     if rw.offset + len(rw.value) > self.m_size:
                         uvm_error("RegModel",
                            sv.sformatf("Burst of size 'd%0d starting at offset 'd%0d exceeds size of memory, 'd%0d",
                                len(rw.value), rw.offset, self.m_size))
-                        return 0
+                        rw.status = UVM_NOT_OK
+                        return False
 
             if rw.map is None:
                 rw.map = rw.local_map
 
-        return 1
+        return True
 
 
     #   extern virtual task do_write (uvm_reg_item rw)
-- 
2.43.0


From 053d53a9f9a43c9ff2cb61e71c943c5151f34fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:16 +0000
Subject: [PATCH 60/85] fix: refusing an access to an unmapped memory raised

---
 src/uvm/reg/uvm_mem.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index c975e9b..ac53734 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -926,9 +926,12 @@ class UVMMem(UVMObject):
             rw.local_map = self.get_local_map(rw.map,caller)
 
             if rw.local_map is None:
+                name = self.get_full_name()
+                if rw.map is not None:
+                    name = rw.map.get_full_name()
                 uvm_error(self.get_type_name(),
                     "No transactor available to physically access memory from map '"
-                    + rw.map.get_full_name() + "'")
+                    + name + "'")
                 rw.status = UVM_NOT_OK
                 return False
 
@@ -938,8 +941,11 @@ class UVMMem(UVMObject):
             if _map_info_data.frontdoor is None:
 
                 if (_map_info_data.unmapped):
+                    name = rw.local_map.get_full_name()
+                    if rw.map is not None:
+                        name = rw.map.get_full_name()
                     uvm_error("RegModel", "Memory '" + self.get_full_name()
-                              + "' unmapped in map '" + rw.map.get_full_name()
+                              + "' unmapped in map '" + name
                               + "' and does not have a user-defined frontdoor")
                     rw.status = UVM_NOT_OK
                     return False
-- 
2.43.0


From 99ece5f886b8f1994551ef7f86403ee12904f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:16 +0000
Subject: [PATCH 61/85] fix: pre_read callbacks of a memory were created but
 never run

---
 src/uvm/reg/uvm_mem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index ac53734..9bd5272 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1093,7 +1093,7 @@ class UVMMem(UVMObject):
         await self.pre_read(rw)
         cb = cbs.first()
         while cb is not None:
-            cb.pre_read(rw)
+            await cb.pre_read(rw)
             cb = cbs.next()
 
         if rw.status != UVM_IS_OK:
-- 
2.43.0


From f53becd571cc87fb69a5d9af24d4d54cf68a8e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:16 +0000
Subject: [PATCH 62/85] fix: an access to a memory sampled coverage of one
 location too many

---
 src/uvm/reg/uvm_mem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 9bd5272..e82537c 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1017,7 +1017,7 @@ class UVMMem(UVMObject):
 
             if rw.status != UVM_NOT_OK:
                 _min = rw.offset
-                _max = rw.offset + len(rw.value) + 1
+                _max = rw.offset + len(rw.value)
                 for idx in range(_min, _max):
                     self.XsampleX(map_info.mem_range.stride * idx, 0, rw.map)
                     self.m_parent.XsampleX(map_info.offset +
@@ -1118,7 +1118,7 @@ class UVMMem(UVMObject):
 
             if rw.status != UVM_NOT_OK:
                 _min = rw.offset
-                _max = rw.offset + len(rw.value) + 1
+                _max = rw.offset + len(rw.value)
                 for idx in range(_min, _max):
                     self.XsampleX(map_info.mem_range.stride * idx, 1, rw.map)
                     self.m_parent.XsampleX(map_info.offset +
-- 
2.43.0


From e724ceb249102e9c2777496f5729fee318b79bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:33 +0000
Subject: [PATCH 63/85] fix: the access of a memory shared in a restricted map
 was None

---
 src/uvm/reg/uvm_mem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index e82537c..d7d102c 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -434,6 +434,8 @@ class UVMMem(UVMObject):
             uvm_error("RegModel", "Shared memory '" + self.get_full_name()
                 + "' is not shared in map '" + _map.get_full_name() + "'")
 
+        return get_access
+
     #   // Function: get_size
     #   //
     #   // Returns the number of unique memory locations in this memory.
-- 
2.43.0


From 12e7bdf3ffc99f308e0229b44df8a4871c7ed836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:54 +0000
Subject: [PATCH 64/85] fix: reading a sliced memory through its HDL path
 raised

---
 src/uvm/reg/uvm_mem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index d7d102c..d782215 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1495,9 +1495,10 @@ class UVMMem(UVMObject):
                         val = arr[0]
                         continue
 
-                    _slice = 0
+                    arr = []
                     k = hdl_concat.slices[j].offset
-                    ok &= uvm_hdl.uvm_hdl_read(hdl_path, _slice)
+                    ok &= uvm_hdl.uvm_hdl_read(hdl_path, arr)
+                    _slice = arr[0]
 
                     # TODO Loops all bits one by one
                     for n in range(hdl_concat.slices[j].size):
-- 
2.43.0


From 9dbb2af96798495a8eec8f967ceeddb1bed75d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:54 +0000
Subject: [PATCH 65/85] fix: the memory access sequence raised on read-only
 memories

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index 4dbaa0c..f082150 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -120,8 +120,10 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                     val = (val << 32) | sv.random()
                 if mode == "RO":
                     status = []
-                    await mem.peek(status, k, exp)
+                    exp = []
+                    mem.peek(status, k, exp)
                     status = status[0]
+                    exp = exp[0]
                     if status != UVM_IS_OK:
                        uvm_error("UVMMemAccessSeq", sv.sformatf(
                            "Status was %s when reading \"%s[%0d]\" through backdoor.",
-- 
2.43.0


From f654a94efd67e70785617c5e07be51faf7befa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:15 +0000
Subject: [PATCH 66/85] fix: register and memory sequences raised while
 reporting a failed access

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py | 6 +++---
 src/uvm/reg/sequences/uvm_mem_walk_seq.py   | 2 +-
 src/uvm/reg/sequences/uvm_reg_access_seq.py | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index f082150..70e4b98 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -127,7 +127,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                     if status != UVM_IS_OK:
                        uvm_error("UVMMemAccessSeq", sv.sformatf(
                            "Status was %s when reading \"%s[%0d]\" through backdoor.",
-                           status.name(), mem.get_full_name(), k))
+                           str(status), mem.get_full_name(), k))
                 else:
                     exp = val
 
@@ -137,7 +137,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when writing '%s[%0d]' through map '%s'.",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        str(status), mem.get_full_name(), k, maps[j].get_full_name()))
                 await Timer(1, "NS")
 
                 val = []
@@ -175,7 +175,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when reading \"%s[%0d]\" through map \"%s\".",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        str(status), mem.get_full_name(), k, maps[j].get_full_name()))
                 else:
                     if mode == "WO":
                         if val != 0:
diff --git a/src/uvm/reg/sequences/uvm_mem_walk_seq.py b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
index a4d6bc3..cae3f17 100644
--- a/src/uvm/reg/sequences/uvm_mem_walk_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
@@ -140,7 +140,7 @@ class UVMMemSingleWalkSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemWalkSeq", sv.sformatf(
                         "Status was %s when writing \"%s[%0d]\" through map \"%s\".",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        str(status), mem.get_full_name(), k, maps[j].get_full_name()))
 
                 if k > 0:
                     status = []
diff --git a/src/uvm/reg/sequences/uvm_reg_access_seq.py b/src/uvm/reg/sequences/uvm_reg_access_seq.py
index e85aa77..5984f4c 100644
--- a/src/uvm/reg/sequences/uvm_reg_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_access_seq.py
@@ -139,7 +139,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             status = status[0]
 
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + str(status)
                    + "' when writing '" + rg.get_full_name()
                    + "' through map '" + maps[j].get_full_name() + "'"))
             await Timer(1, "NS")  # tpoikela: Original UVM has #1
@@ -148,7 +148,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.mirror(status, UVM_CHECK, UVM_BACKDOOR, UVMRegMap.backdoor(), self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + str(status)
                                     + "' when reading reset value of register '"
                                     + rg.get_full_name() +  "' through backdoor"))
 
@@ -156,7 +156,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.write(status, v, UVM_BACKDOOR, maps[j], self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + str(status)
                    + "' when writing '" + rg.get_full_name()
                    + "' through backdoor"))
 
@@ -164,7 +164,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.mirror(status, UVM_CHECK, UVM_FRONTDOOR, maps[j], self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + str(status)
                    + "' when reading reset value of register '"
                    + rg.get_full_name() + "' through map '"
                    + maps[j].get_full_name() + "'"))
-- 
2.43.0


From cff62c7ca68357c4634abc4a9f3244b1d4ee9756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:10 +0000
Subject: [PATCH 67/85] fix: callbacks of a user backdoor were called with a
 wrong argument and never run

---
 src/uvm/reg/uvm_reg_backdoor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_backdoor.py b/src/uvm/reg/uvm_reg_backdoor.py
index 0b1545e..437f28d 100644
--- a/src/uvm/reg/uvm_reg_backdoor.py
+++ b/src/uvm/reg/uvm_reg_backdoor.py
@@ -25,7 +25,8 @@
 import cocotb
 from uvm.base.uvm_object import UVMObject
 from uvm.base.uvm_callback import UVMCallbackIter
-from uvm.macros import (uvm_object_utils, uvm_fatal, uvm_do_obj_callbacks)
+from uvm.macros import (uvm_object_utils, uvm_fatal)
+from uvm.macros.uvm_callback_defines import uvm_do_obj_callbacks_async
 from uvm.reg.uvm_reg_model import UVM_NOT_OK
 from uvm.base.uvm_globals import uvm_zero_delay
 from .uvm_reg_cbs import UVMRegCbs
@@ -73,7 +74,7 @@ class UVMRegBackdoor(UVMObject):
             rw: 
         """
         await self.pre_read(rw)
-        uvm_do_obj_callbacks(self, UVMRegCbs, 'pre_read', self, rw)
+        await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'pre_read', rw)
 
     async def do_post_read(self, rw):
         """         
@@ -95,7 +96,7 @@ class UVMRegBackdoor(UVMObject):
         while cb is not None:
             cb.decode(rw.value)
             cb = iter.next()
-        uvm_do_obj_callbacks(self, UVMRegCbs,'post_read',self,rw)
+        await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'post_read', rw)
         await self.post_read(rw)
 
 
@@ -114,7 +115,7 @@ class UVMRegBackdoor(UVMObject):
         #uvm_callback_iter#(UVMRegBackdoor, uvm_reg_cbs) iter = new(self)
         iter = UVMCallbackIter(self)
         await self.pre_write(rw)
-        uvm_do_obj_callbacks(self, UVMRegCbs,'pre_write',self,rw)
+        await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'pre_write', rw)
         #      for(uvm_reg_cbs cb = iter.first(); cb is not None; cb = iter.next())
         #         cb.encode(rw.value)
         cb = iter.first()
@@ -134,7 +135,7 @@ class UVMRegBackdoor(UVMObject):
         Args:
             rw: 
         """
-        uvm_do_obj_callbacks(self, UVMRegCbs, 'post_write', self, rw)
+        await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'post_write', rw)
         await self.post_write(rw)
 
 
-- 
2.43.0


From 1b93647dadd34a3aad937c794b1c5738afcb0baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:10 +0000
Subject: [PATCH 68/85] fix: a user backdoor decoded the data to write, and
 decoded read data in the wrong order

---
 src/uvm/reg/uvm_reg_backdoor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_backdoor.py b/src/uvm/reg/uvm_reg_backdoor.py
index 437f28d..c7e23c2 100644
--- a/src/uvm/reg/uvm_reg_backdoor.py
+++ b/src/uvm/reg/uvm_reg_backdoor.py
@@ -92,10 +92,10 @@ class UVMRegBackdoor(UVMObject):
         iter = UVMCallbackIter(self)
         # for(uvm_reg_cbs cb = iter.last(); cb is not None; cb=iter.prev())
         #     cb.decode(rw.value)
-        cb = iter.first()
+        cb = iter.last()
         while cb is not None:
             cb.decode(rw.value)
-            cb = iter.next()
+            cb = iter.prev()
         await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'post_read', rw)
         await self.post_read(rw)
 
@@ -120,7 +120,7 @@ class UVMRegBackdoor(UVMObject):
         #         cb.encode(rw.value)
         cb = iter.first()
         while cb is not None:
-            cb.decode(rw.value)
+            cb.encode(rw.value)
             cb = iter.next()
 
 
-- 
2.43.0


From 2c4b590c96d77fe457896f8d75f113bb8a2ccc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 69/85] fix: HDL path slices given as documented raised when
 the path was used

---
 src/uvm/reg/uvm_reg_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_model.py b/src/uvm/reg/uvm_reg_model.py
index 99b58d0..dd10368 100644
--- a/src/uvm/reg/uvm_reg_model.py
+++ b/src/uvm/reg/uvm_reg_model.py
@@ -343,7 +343,12 @@ class uvm_hdl_path_concat:
     # Function: set
     # Initialize the concatenation using an array literal
     def set(self, t):
-        self.slices = t
+        self.slices = []
+        for slice in t:
+            if isinstance(slice, uvm_hdl_path_slice):
+                self.add_slice(slice)
+            else:
+                self.add_path(*slice)
 
     # Function: add_slice
     # Append the specified ~slice~ literal to the path concatenation
-- 
2.43.0


From 118a85fca536f272034b54f8d6986c4726c6bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 70/85] fix: a burst read of a memory could not say how many
 locations to read

---
 src/uvm/reg/uvm_mem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index d782215..2260255 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -761,7 +761,8 @@ class UVMMem(UVMObject):
     async def burst_read(self, status, offset,
     value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname="",
             lineno=0):
-        uvm_check_output_args([status, value])
+        # As in SV, the number of elements in 'value' is the length of the burst
+        uvm_check_output_args([status])
         rw = UVMRegItem.type_id.create("mem_burst_read", None, self.get_full_name())
         rw.element      = self
         rw.element_kind = UVM_MEM
@@ -778,8 +779,7 @@ class UVMMem(UVMObject):
 
         await self.do_read(rw)
         status.append(rw.status)
-        for val in rw.value:
-            value.append(val)
+        value[:] = rw.value
 
 
     #   // Task: poke
-- 
2.43.0


From 87241cb531dd5120a9895f426b16c3dc0fb9fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:09 +0000
Subject: [PATCH 71/85] fix: poking a memory was presented to its backdoor as a
 read

---
 src/uvm/reg/uvm_mem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 2260255..ab0642a 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -820,7 +820,7 @@ class UVMMem(UVMObject):
         rw.element      = self
         rw.path         = UVM_BACKDOOR
         rw.element_kind = UVM_MEM
-        rw.kind         = UVM_READ
+        rw.kind         = UVM_WRITE
         rw.offset       = offset
         rw.value[0]     = value & ((1 << self.m_n_bits)-1)
         rw.bd_kind      = kind
-- 
2.43.0


From 02e10cf9cd6a2b3cb09c0f8b4489deaed0d0f570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 72/85] fix: no field was accessible through a write-only map

---
 src/uvm/reg/uvm_reg_field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index 9ff6ffc..35d5391 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -415,9 +415,10 @@ class UVMRegField(UVMObject):
                 field_access = "NOACCESS"
 
         elif rights == "WO":
-            field_access = "NOACCESS"
             if field_access == 'RW' or field_access == 'WO':
                 field_access = "WO"
+            else:
+                field_access = "NOACCESS"
         else:
             field_access = "NOACCESS"
             fname = ""
-- 
2.43.0


From 6c967a46001d80afa5718bf6cecb1722c7267eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:45 +0000
Subject: [PATCH 73/85] fix: a register seen through three or more maps had
 some of its addresses repeated

---
 src/uvm/reg/uvm_reg_map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 970ef19..f45b637 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1105,6 +1105,7 @@ class UVMRegMap(UVMObject):
             addr:
         Returns:
         """
+        addr.clear()
         bus_width = self.get_n_bytes(UVM_NO_HIER)
         up_map = None  # uvm_reg_map
         local_addr = []
-- 
2.43.0


From 6d83f76b79528e8ff596e59e0c1bf1b6b7cfb559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:45 +0000
Subject: [PATCH 74/85] fix: reporting overlapping addresses, a foreign submap
 or a map without endianness raised

---
 src/uvm/reg/uvm_reg_map.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index f45b637..5a3bf2f 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -152,7 +152,7 @@ class UVMRegMap(UVMObject):
                         if (addr >= rr.min and addr <= rr.max):
                             a = sv.sformatf("%0h",addr)
                             b = sv.sformatf("[%0h:%0h]", rr.min, rr.max)
-                            uvm_warning("RegModel", ("In map '",
+                            uvm_warning("RegModel", ("In map '" +
                                     self.get_full_name() + "' register '" +
                                 rg.get_full_name() + "' with address " + a +
                                 "maps to same address as memory '" +
@@ -204,7 +204,7 @@ class UVMRegMap(UVMObject):
                     if (min1 <= rr.max and max1 >= rr.max or
                             min1 <= rr.min and max1 >= rr.min or
                             min1 >= rr.min and max1 <= rr.max):
-                        a = sv.sformatf("[%0h:%0h]",min,max)
+                        a = sv.sformatf("[%0h:%0h]",min1,max1)
                         uvm_warning("RegModel", ("In map '" + self.get_full_name()
                             + "' memory '" + mem.get_full_name() + "' overlaps with address range of memory '"
                             + top_map.m_mems_by_offset[rr].get_full_name()
@@ -488,8 +488,8 @@ class UVMRegMap(UVMObject):
         if child_blk is None:
             uvm_error("RegModel", ("Submap '" + child_map.get_full_name()
                 + "' may not be added to this address map, '"
-                + self.get_full_name(),"', as the submap's parent block, '"
-                + child_blk.get_full_name()
+                + self.get_full_name() + "', as the submap's parent block, '"
+                + child_map.get_parent().get_full_name()
                 + "', is neither this map's parent block nor a descendent of this map's parent block, '"
                 + self.m_parent.get_full_name() + "'"))
             return
@@ -1143,7 +1143,7 @@ class UVMRegMap(UVMObject):
                     local_addr[i] = base_addr
             else:
                 uvm_error("RegModel",
-                        ("Map has no specified endianness. ",
+                        ("Map has no specified endianness. " +
                         sv.sformatf("Cannot access %0d bytes register via its %0d byte %s interface",
                         n_bytes, bus_width, self.get_full_name())))
 
-- 
2.43.0


From dd2cfb1f11e8782470994ccf71aad28882a728e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:45 +0000
Subject: [PATCH 75/85] fix: locking a model with a memory of one location
 raised

---
 src/uvm/reg/uvm_reg_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 5a3bf2f..7ff8832 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -189,7 +189,8 @@ class UVMRegMap(UVMObject):
                     max1 = addrs_max[len(addrs_max)-1]
                 max2 = addrs_max[0]
                 # address interval between consecutive mem offsets
-                stride = int((max2 - min2)/(mem.get_size() - 1))
+                if mem.get_size() > 1:
+                    stride = int((max2 - min2)/(mem.get_size() - 1))
 
                 for reg_addr in top_map.m_regs_by_offset:
                     if (reg_addr >= min1 and reg_addr <= max1):
-- 
2.43.0


From 6d588b891ecab6768cbd12b2145839548f1d3000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:45 +0000
Subject: [PATCH 76/85] fix: a register moved or unmapped after locking was
 still found at its old address

---
 src/uvm/reg/uvm_reg_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 7ff8832..395b95e 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -670,10 +670,10 @@ class UVMRegMap(UVMObject):
         if blk.is_locked():
 
             # remove any existing cached addresses
-            if info.unmapped is False:
+            if not info.unmapped:
                 for addr in info.addr:
                     if addr not in top_map.m_regs_by_offset_wo:
-                        del top_map.m_regs_by_offset[addr]
+                        top_map.m_regs_by_offset.pop(addr, None)
                     else:
                         if top_map.m_regs_by_offset[addr] == rg:
                             top_map.m_regs_by_offset[addr] = top_map.m_regs_by_offset_wo[addr]
@@ -731,7 +731,7 @@ class UVMRegMap(UVMObject):
 
                 info.addr = addrs # cache it
 
-        if unmapped is True:
+        if unmapped:
             info.offset   = -1
             info.unmapped = 1
         else:
-- 
2.43.0


From 369a021046a9d7ffb7d15279dac4f4e5fcbd767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:45 +0000
Subject: [PATCH 77/85] fix: an access through an adapter that provides
 responses raised

---
 src/uvm/reg/uvm_reg_map.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 395b95e..2f1fbda 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1431,12 +1431,12 @@ class UVMRegMap(UVMObject):
                 await bus_req.end_event.wait_on()
 
                 if adapter.provides_responses:
-                    bus_rsp = None  # uvm_sequence_item
+                    bus_rsp = []  # uvm_sequence_item
                     op = None  # uvm_access_e
                     # TODO: need to test for right trans type, if not put back in q
                     await rw.parent.get_base_response(bus_rsp)
                     #rw_access = adapter.bus2reg(bus_rsp, rw_access)
-                    adapter.bus2reg(bus_rsp, rw_access)
+                    adapter.bus2reg(bus_rsp[0], rw_access)
                 else:
                     #rw_access = adapter.bus2reg(bus_req, rw_access)
                     adapter.bus2reg(bus_req, rw_access)
@@ -1580,11 +1580,11 @@ class UVMRegMap(UVMObject):
                 await bus_req.end_event.wait_on()
 
                 if adapter.provides_responses:
-                    bus_rsp = None  # uvm_sequence_item
+                    bus_rsp = []  # uvm_sequence_item
                     op = 0  # uvm_access_e
                     # TODO: need to test for right trans type, if not put back in q
                     await rw.parent.get_base_response(bus_rsp)
-                    adapter.bus2reg(bus_rsp, rw_access)
+                    adapter.bus2reg(bus_rsp[0], rw_access)
                 else:
                     adapter.bus2reg(bus_req,rw_access)
 
-- 
2.43.0


From 7301b4974c151c135eb5e07029361759b0996946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:45 +0000
Subject: [PATCH 78/85] fix: the parent sequence created for a register write
 stayed registered with the sequencer

---
 src/uvm/reg/uvm_reg_map.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 2f1fbda..7e37f14 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1650,11 +1650,8 @@ class UVMRegMap(UVMObject):
             uvm_debug(self, 'do_write', 'do_bus_write because adapter exists')
             await self.do_bus_write(rw, sequencer, adapter)
 
-        # TODO
-        #  if (tmp_parent_seq is not None)
-        #    sequencer.m_sequence_exiting(tmp_parent_seq)
-        #
-        #endtask
+        if tmp_parent_seq is not None:
+            sequencer.m_sequence_exiting(tmp_parent_seq)
 
 
     async def do_read(self, rw: UVMRegItem) -> None:
-- 
2.43.0


From a588fcd20d9b065d6baff103780cd8cf57c500e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:29 +0000
Subject: [PATCH 79/85] fix: links between recorders or streams were refused or
 raised

---
 src/uvm/base/uvm_links.py       | 34 +++++++++------------------------
 src/uvm/base/uvm_tr_database.py | 17 +++++++++--------
 2 files changed, 18 insertions(+), 33 deletions(-)

diff --git a/src/uvm/base/uvm_links.py b/src/uvm/base/uvm_links.py
index 11eb197..f2c65b8 100644
--- a/src/uvm/base/uvm_links.py
+++ b/src/uvm/base/uvm_links.py
@@ -404,34 +404,18 @@ class UVMRelatedLink(UVMLinkBase):
 
 
     #   // Group: Implementation Callbacks
-    #
-    #   // Function: do_set_lhs
-    #   // Sets the left-hand-side
-    #   //
-    #   virtual def void do_set_lhs(self,UVMObject lhs):
-    #      m_lhs = lhs
-    #   endfunction : do_set_lhs
 
-    #   // Function: do_get_lhs
-    #   // Retrieves the left-hand-side
-    #   //
-    #   virtual def UVMObject do_get_lhs(self):
-    #      return m_lhs
-    #   endfunction : do_get_lhs
+    def do_set_lhs(self, lhs) -> None:
+        self.m_lhs = lhs
 
-    #   // Function: do_set_rhs
-    #   // Sets the right-hand-side
-    #   //
-    #   virtual def void do_set_rhs(self,UVMObject rhs):
-    #      m_rhs = rhs
-    #   endfunction : do_set_rhs
+    def do_get_lhs(self):
+        return self.m_lhs
 
-    #   // Function: do_get_rhs
-    #   // Retrieves the right-hand-side
-    #   //
-    #   virtual def UVMObject do_get_rhs(self):
-    #      return m_rhs
-    #   endfunction : do_get_rhs
+    def do_set_rhs(self, rhs) -> None:
+        self.m_rhs = rhs
+
+    def do_get_rhs(self):
+        return self.m_rhs
 
 
 uvm_object_utils(UVMRelatedLink)
diff --git a/src/uvm/base/uvm_tr_database.py b/src/uvm/base/uvm_tr_database.py
index 33c532d..accd87f 100644
--- a/src/uvm/base/uvm_tr_database.py
+++ b/src/uvm/base/uvm_tr_database.py
@@ -243,6 +243,7 @@ class UVMTrDatabase(UVMObject):
         if lhs is None:
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 "left hand side '<None>' is not supported in links for 'UVMTrDatabase'")
+            return
 
         if rhs is None:
             uvm_warning("UVM/TR_DB/BAD_LINK",
@@ -250,24 +251,24 @@ class UVMTrDatabase(UVMObject):
             return
 
 
-        if (not sv.cast(s_lhs, lhs, UVMTrStream)) or (not sv.cast(r_lhs, lhs,
+        if (not sv.cast(s_lhs, lhs, UVMTrStream)) and (not sv.cast(r_lhs, lhs,
             UVMRecorder)):
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 sv.sformatf("left hand side of type '%s' not supported in links for 'UVMTrDatabase'",
                 lhs.get_type_name()))
             return
         else:
-            s_lhs = s_lhs[0]
-            r_lhs = r_lhs[0]
+            s_lhs = s_lhs[0] if s_lhs else None
+            r_lhs = r_lhs[0] if r_lhs else None
 
-        if (not sv.cast(s_rhs, rhs, UVMTrStream)) or (not sv.cast(r_rhs, rhs, UVMRecorder)):
+        if (not sv.cast(s_rhs, rhs, UVMTrStream)) and (not sv.cast(r_rhs, rhs, UVMRecorder)):
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 sv.sformatf("right hand side of type '%s' not supported in links for 'uvm_record_datbasae'",
                 rhs.get_type_name()))
             return
         else:
-            s_rhs = s_rhs[0]
-            r_rhs = r_rhs[0]
+            s_rhs = s_rhs[0] if s_rhs else None
+            r_rhs = r_rhs[0] if r_rhs else None
 
         if r_lhs is not None:
             s_lhs = r_lhs.get_stream()
@@ -433,8 +434,8 @@ class UVMTextTrDatabase(UVMTrDatabase):
 
         sv.cast(cast_r_lhs, lhs, UVMRecorder)
         sv.cast(cast_r_rhs, rhs, UVMRecorder)
-        r_lhs = cast_r_lhs[0]
-        r_rhs = cast_r_rhs[0]
+        r_lhs = cast_r_lhs[0] if cast_r_lhs else None
+        r_rhs = cast_r_rhs[0] if cast_r_rhs else None
 
         if (r_lhs is None or r_rhs is None):
             return
-- 
2.43.0


From b48522ca536829c974a5e9d61eda6281618e682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:29 +0000
Subject: [PATCH 80/85] fix: a closed transaction database could not be opened
 again

---
 src/uvm/base/uvm_tr_database.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_tr_database.py b/src/uvm/base/uvm_tr_database.py
index accd87f..24e92a5 100644
--- a/src/uvm/base/uvm_tr_database.py
+++ b/src/uvm/base/uvm_tr_database.py
@@ -111,8 +111,8 @@ class UVMTrDatabase(UVMObject):
         """
         if self.m_is_opened:
             if self.do_close_db():
-                self.m_is_opened = 0
-        return self.m_is_opened == 0
+                self.m_is_opened = False
+        return self.m_is_opened is False
 
     def is_open(self):
         """
@@ -393,6 +393,7 @@ class UVMTextTrDatabase(UVMTrDatabase):
         if self.m_file != NO_FILE_OPEN:
             #fork // Needed because $fclose is a task
             sv.fclose(self.m_file)
+            self.m_file = NO_FILE_OPEN
             #join_none
             self.m_filename_dap.unlock()
         return 1
-- 
2.43.0


From 585c6161b30f91b8e5b07ed28f20e0c97a5aed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:29 +0000
Subject: [PATCH 81/85] fix: a child transaction was never linked to its parent

---
 src/uvm/base/uvm_transaction.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_transaction.py b/src/uvm/base/uvm_transaction.py
index 55d6c20..18f951c 100644
--- a/src/uvm/base/uvm_transaction.py
+++ b/src/uvm/base/uvm_transaction.py
@@ -25,6 +25,7 @@ from .sv import sv
 from .uvm_recorder import UVMRecorder
 from .uvm_object import UVMObject
 from .uvm_pool import UVMEventPool
+from .uvm_links import UVMParentChildLink
 
 
 class UVMTransaction(UVMObject):
@@ -559,10 +560,8 @@ class UVMTransaction(UVMObject):
                         "Begin_End, Link")
 
                 if (self.tr_recorder is not None):
-                    pass
-                    #link = uvm_parent_child_link::get_link(parent_recorder, self.tr_recorder)
-                    # TODO
-                    #db.establish_link(link)
+                    link = UVMParentChildLink.get_link(parent_recorder, self.tr_recorder)
+                    db.establish_link(link)
 
             if (self.tr_recorder is not None):
                 m_begin_tr = self.tr_recorder.get_handle()
-- 
2.43.0


From 8b40c14e5faf7c7734068849489b9aa00e25f526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:45 +0000
Subject: [PATCH 82/85] fix: asking a stream that was never opened for its
 state or a recorder raised

---
 src/uvm/base/uvm_tr_stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/base/uvm_tr_stream.py b/src/uvm/base/uvm_tr_stream.py
index 938f7f3..ac1ff07 100644
--- a/src/uvm/base/uvm_tr_stream.py
+++ b/src/uvm/base/uvm_tr_stream.py
@@ -105,6 +105,8 @@ class UVMTrStream(UVMObject):
         #   // Active records in the stream (active == open or closed)
         self.m_records = {}  # bit [uvm_recorder]
         self.m_warn_null_cfg = 0
+        self.m_is_opened = False
+        self.m_is_closed = False
 
 
     #   // Variable- m_ids_by_stream
-- 
2.43.0


From e5b764d0d208bf64963e7c50f1f6777ad2e9710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:45 +0000
Subject: [PATCH 83/85] fix: only the first transaction of a component was
 recorded on its main stream

---
 src/uvm/base/uvm_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 9cc6b40..62e25ee 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2289,7 +2289,7 @@ class UVMComponent(UVMReportObject):
             if (stream_name == "") or (stream_name == "main"):
                 if self.m_main_stream is None:
                     self.m_main_stream = db.open_stream("main", self.get_full_name(), "TVM")
-                    stream = self.m_main_stream
+                stream = self.m_main_stream
             else:
                 stream = self.get_tr_stream(stream_name)
 
-- 
2.43.0


From 95013a47fc74dc21a1b433b115393e31fd7558be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 84/85] fix: freeing a transaction stream of a component raised
 (streams could not be closed or freed)

---
 src/uvm/base/uvm_tr_stream.py | 276 ++++++++++++++--------------------
 1 file changed, 116 insertions(+), 160 deletions(-)

diff --git a/src/uvm/base/uvm_tr_stream.py b/src/uvm/base/uvm_tr_stream.py
index ac1ff07..d042678 100644
--- a/src/uvm/base/uvm_tr_stream.py
+++ b/src/uvm/base/uvm_tr_stream.py
@@ -144,42 +144,35 @@ class UVMTrStream(UVMObject):
         return m_cfg[0].db
 
 
-    #   // Function: get_scope
-    #   // Returns the ~scope~ supplied when opening this stream.
-    #   //
-    #   // A warning will be asserted if get_scope is called prior to
-    #   // the stream being initialized via <do_open>.
-    #   function string get_scope()
-    #      m_uvm_tr_stream_cfg m_cfg
-    #      if (!m_cfg_dap.try_get(m_cfg)) begin
-    #         if (m_warn_null_cfg == 1)
-    #           `uvm_warning("UVM/REC_STR/NO_CFG",
-    #                        $sformatf("attempt to retrieve scope from '%s' before it was set!",
-    #                                  get_name()))
-    #         m_warn_null_cfg = 0
-    #         return ""
-    #      end
-    #      return m_cfg.scope
-    #   endfunction : get_scope
+    def get_scope(self):
+        """
+           Function: get_scope
+           Returns the scope supplied when opening this stream.
+        Returns:
+        """
+        m_cfg = []
+        if not self.m_cfg_dap.try_get(m_cfg):
+            if self.m_warn_null_cfg == 1:
+                uvm_warning("UVM/REC_STR/NO_CFG", sv.sformatf(
+                    "attempt to retrieve scope from '%s' before it was set!", self.get_name()))
+            self.m_warn_null_cfg = 0
+            return ""
+        return m_cfg[0].scope
     #
-    #   // Function: get_stream_type_name
-    #   // Returns a reference to the database which contains this
-    #   // stream.
-    #   //
-    #   // A warning will be asserted if get_stream_type_name is called prior to
-    #   // the stream being initialized via <do_open>.
-    #   function string get_stream_type_name()
-    #      m_uvm_tr_stream_cfg m_cfg
-    #      if (!m_cfg_dap.try_get(m_cfg)) begin
-    #         if (m_warn_null_cfg == 1)
-    #           `uvm_warning("UVM/REC_STR/NO_CFG",
-    #                        $sformatf("attempt to retrieve STREAM_TYPE_NAME from '%s' before it was set!",
-    #                                  get_name()))
-    #         m_warn_null_cfg = 0
-    #         return ""
-    #      end
-    #      return m_cfg.stream_type_name
-    #   endfunction : get_stream_type_name
+    def get_stream_type_name(self):
+        """
+           Function: get_stream_type_name
+           Returns the type name supplied when opening this stream.
+        Returns:
+        """
+        m_cfg = []
+        if not self.m_cfg_dap.try_get(m_cfg):
+            if self.m_warn_null_cfg == 1:
+                uvm_warning("UVM/REC_STR/NO_CFG", sv.sformatf(
+                    "attempt to retrieve STREAM_TYPE_NAME from '%s' before it was set!", self.get_name()))
+            self.m_warn_null_cfg = 0
+            return ""
+        return m_cfg[0].stream_type_name
     #
     #   // Group: Stream API
     #   //
@@ -194,70 +187,55 @@ class UVMTrStream(UVMObject):
     #   //
     #
 
-    #   // Function: close
-    #   // Closes this stream.
-    #   //
-    #   // Closing a stream closes all open recorders in the stream.
-    #   //
-    #   // This method will trigger a <do_close> call, followed by
-    #   // <uvm_recorder::close> on all open recorders within the
-    #   // stream.
-    #   function void close()
-    #      if (!is_open())
-    #        return
-    #
-    #      do_close()
-    #
-    #      foreach (m_records[idx])
-    #        if (idx.is_open())
-    #          idx.close()
-    #
-    #      m_is_opened = 0
-    #      m_is_closed = 1
-    #   endfunction : close
+    def close(self):
+        """
+           Function: close
+           Closes this stream, and all open recorders in the stream.
+        """
+        if not self.is_open():
+            return
+        self.do_close()
+        for recorder in self.m_records:
+            if recorder.is_open():
+                recorder.close()
+        self.m_is_opened = False
+        self.m_is_closed = True
     #
 
-    #   // Function: free
-    #   // Frees this stream.
-    #   //
-    #   // Freeing a stream indicates that the database can free any
-    #   // references to the stream (including references to records
-    #   // within the stream).
-    #   //
-    #   // This method will trigger a <do_free> call, followed by
-    #   // <uvm_recorder::free> on all recorders within the stream.
-    #   function void free()
-    #	   process p
-    #	   string s
-    #      uvm_tr_database db
-    #      if (!is_open() && !is_closed())
-    #        return
-    #
-    #      if (is_open())
-    #        close()
-    #
-    #      do_free()
-    #
-    #      foreach (m_records[idx])
-    #        idx.free()
-    #
-    #      // Clear out internal state
-    #      db = get_db()
-    #      m_is_closed = 0
-    #      p = process::self()
-    #      if(p != None)
-    #      	s = p.get_randstate()
-    #      m_cfg_dap = new("cfg_dap")
-    #      if(p != None)
-    #      	p.set_randstate(s)
-    #      m_warn_null_cfg = 1
-    #      if (m_ids_by_stream.exists(this))
-    #        m_free_id(m_ids_by_stream[this])
-    #
-    #      // Clear out DB state
-    #      if (db != None)
-    #        db.m_free_stream(this)
-    #   endfunction : free
+    def free(self):
+        """
+           Function: free
+           Frees this stream and all recorders in the stream.
+        """
+        if not self.is_open() and not self.is_closed():
+            return
+        if self.is_open():
+            self.close()
+        self.do_free()
+        for recorder in list(self.m_records):
+            recorder.free()
+        db = self.get_db()
+        self.m_is_closed = False
+        self.m_cfg_dap = uvm_set_before_get_dap("cfg_dap")
+        self.m_warn_null_cfg = 1
+        if self in UVMTrStream.m_ids_by_stream:
+            UVMTrStream.m_free_id(UVMTrStream.m_ids_by_stream[self])
+        if db is not None:
+            db.m_free_stream(self)
+
+    def do_close(self):
+        """
+           Function: do_close
+           Callback triggered via `close`.
+        """
+        pass
+
+    def do_free(self):
+        """
+           Function: do_free
+           Callback triggered via `free`.
+        """
+        pass
 
     def m_do_open(self, db, scope="", stream_type_name=""):
         """
@@ -491,19 +469,20 @@ class UVMTrStream(UVMObject):
     #   endfunction : get_stream_from_handle
     #
 
-    #   // Function- m_free_id
-    #   // Frees the id/stream link (memory cleanup)
-    #   //
-    #   static function void m_free_id(integer id)
-    #      UVMTrStream stream
-    #      if (!$isunknown(id) && m_streams_by_id.exists(id))
-    #        stream = m_streams_by_id[id]
-    #
-    #      if (stream != None) begin
-    #         m_streams_by_id.delete(id)
-    #         m_ids_by_stream.delete(stream)
-    #      end
-    #   endfunction : m_free_id
+    @classmethod
+    def m_free_id(cls, id):
+        """
+           Function- m_free_id
+           Frees the id/stream link (memory cleanup)
+        Args:
+            id:
+        """
+        stream = None
+        if not sv.isunknown(id) and id in UVMTrStream.m_streams_by_id:
+            stream = UVMTrStream.m_streams_by_id[id]
+        if stream is not None:
+            del UVMTrStream.m_streams_by_id[id]
+            del UVMTrStream.m_ids_by_stream[stream]
     #
     #   // Group: Implementation Agnostic API
     #   //
@@ -525,27 +504,6 @@ class UVMTrStream(UVMObject):
     #                                           string stream_type_name)
     #   endfunction : do_open
 
-    #
-    #   // Function: do_close
-    #   // Callback triggered via <close>.
-    #   //
-    #   // The ~do_close~ callback can be used to set internal state
-    #   // within the stream, as well as providing a location to
-    #   // record any closing information.
-    #   protected virtual function void do_close()
-    #   endfunction : do_close
-    #
-
-    #   // Function: do_free
-    #   // Callback triggered via <free>.
-    #   //
-    #   // The ~do_free~ callback can be used to release the internal
-    #   // state within the stream, as well as providing a location
-    #   // to record any "freeing" information.
-    #   protected virtual function void do_free()
-    #   endfunction : do_free
-    #
-
     #   // Function: do_open_recorder
     #   // Marks the beginning of a new record in the stream.
     #   //
@@ -604,36 +562,34 @@ class UVMTextTrStream(UVMTrStream):
                       scope,
                       self.get_handle())
 
-    #   // Function: do_close
-    #   // Callback triggered via <UVMTrStream::close>.
-    #   protected virtual function void do_close()
-    #      if (m_text_db.open_db())
-    #        $fdisplay(m_text_db.m_file,
-    #                  "  CLOSE_STREAM @%0t {NAME:%s T:%s SCOPE:%s STREAM:%0d}",
-    #                  $time,
-    #                  this.get_name(),
-    #                  this.get_stream_type_name(),
-    #                  this.get_scope(),
-    #                  this.get_handle())
-    #   endfunction : do_close
-    #
+    def do_close(self):
+        """
+           Function: do_close
+           Callback triggered via <UVMTrStream::close>.
+        """
+        if self.m_text_db.open_db():
+            sv.fdisplay(self.m_text_db.m_file,
+                      "  CLOSE_STREAM @%0t [NAME:%s T:%s SCOPE:%s STREAM:%0d]",
+                      uvm_sim_time(),
+                      self.get_name(),
+                      self.get_stream_type_name(),
+                      self.get_scope(),
+                      self.get_handle())
 
-    #   // Function: do_free
-    #   // Callback triggered via <UVMTrStream::free>.
-    #   //
-    #   protected virtual function void do_free()
-    #      if (m_text_db.open_db())
-    #        $fdisplay(m_text_db.m_file,
-    #                  "  FREE_STREAM @%0t {NAME:%s T:%s SCOPE:%s STREAM:%0d}",
-    #                  $time,
-    #                  this.get_name(),
-    #                  this.get_stream_type_name(),
-    #                  this.get_scope(),
-    #                  this.get_handle())
-    #      m_text_db = None
-    #      return
-    #   endfunction : do_free
-    #
+    def do_free(self):
+        """
+           Function: do_free
+           Callback triggered via <UVMTrStream::free>.
+        """
+        if self.m_text_db.open_db():
+            sv.fdisplay(self.m_text_db.m_file,
+                      "  FREE_STREAM @%0t [NAME:%s T:%s SCOPE:%s STREAM:%0d]",
+                      uvm_sim_time(),
+                      self.get_name(),
+                      self.get_stream_type_name(),
+                      self.get_scope(),
+                      self.get_handle())
+        self.m_text_db = None
 
     def do_open_recorder(self, name, open_time, type_name):
         """
-- 
2.43.0


From e5502f26c218f5ddfc95c15631751c7bb02ef6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:20 +0000
Subject: [PATCH 85/85] fix: a closed recorder could be closed again and a
 freed one still gave out a handle

---
 src/uvm/base/uvm_recorder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_recorder.py b/src/uvm/base/uvm_recorder.py
index 5b25dee..9907c16 100644
--- a/src/uvm/base/uvm_recorder.py
+++ b/src/uvm/base/uvm_recorder.py
@@ -204,8 +204,8 @@ class UVMRecorder(UVMObject):
 
         self.do_close(close_time)
 
-        self.m_is_opened = 0
-        self.m_is_closed = 1
+        self.m_is_opened = False
+        self.m_is_closed = True
         self.m_close_time = close_time
 
 
@@ -242,7 +242,7 @@ class UVMRecorder(UVMObject):
         # Clear out internal state
         stream = self.get_stream()
 
-        self.m_is_closed = 0
+        self.m_is_closed = False
         if p is not None:
             s = p.get_randstate()
         self.m_stream_dap = uvm_set_before_get_dap("stream_dap")
@@ -332,7 +332,7 @@ class UVMRecorder(UVMObject):
 
         self.m_stream_dap.set(stream)
         self.m_open_time = open_time
-        self.m_is_opened = 1
+        self.m_is_opened = True
 
         self.do_open(stream, open_time, type_name)
 
-- 
2.43.0

