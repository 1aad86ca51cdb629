From a07643ca8deb213929e0fd61794ffc05b065c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:54 +0000
Subject: [PATCH 01/83] fix: Queue.append honors the priority parameter, as
 documented

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4641412..ffdae9a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4911,7 +4911,7 @@ class Queue:
 
         This method is equivalent to add()
         """
-        component.enter(self)
+        component.enter(self, priority)
         return self
 
     def add_at_head(self, component: "Component") -> "Queue":
-- 
2.43.0


From d76a74ef395d25e1d5a5c3860d22a1032ee61d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:54 +0000
Subject: [PATCH 02/83] fix: Store.rescan gives each waiting component at most
 one item

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ffdae9a..19b9ff4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5788,6 +5788,7 @@ class Store(Queue):
                     c._remove()
                     c.status._value = scheduled
                     c._reschedule(c.env._now, 0, False, f"from_store ({self.name()}) honor with {item.name()}", False, s0=c.env.last_s0, return_value=item)
+                    break
 
     def _rescan_to(self):
         """
-- 
2.43.0


From 3fc6e7ee69b6c4b8364a148871b6de573aa75782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:55 +0000
Subject: [PATCH 03/83] fix: from_store with key takes the item from the store
 it was found in

---
 salabim/salabim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 19b9ff4..2695508 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8231,16 +8231,19 @@ by adding:
                 if filter(c):
                     if key:
                         this_key = key(c)
-                        if found_key is None or this_key < found_key:
+                        if found_c is None or this_key < found_key:
                             found_c = c
                             found_key = this_key
+                            found_store = store
                     else:
                         found_c = c
+                        found_store = store
                         done = True
                         break
             if done:
                 break
-        if found_c:
+        if found_c is not None:
+            store = found_store
             found_c.leave(store)
             self._from_store_item = found_c
             self._from_store_store = store
-- 
2.43.0


From f232b0a8f736c12dca987504427340e255354655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:55 +0000
Subject: [PATCH 04/83] fix: dequeue a store requester before moving the item
 it is honored with

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2695508..4d6d89a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4247,10 +4247,10 @@ class Qmember:
             store = q
             for requester in store._from_store_requesters:
                 if requester._from_store_filter(c):
-                    c.leave(store)
                     for store0 in requester._from_stores:
                         requester.leave(store0._from_store_requesters)
                     requester._from_stores = []
+                    c.leave(store)
                     requester._from_store_item = c
                     requester._from_store_store = store
                     requester._remove()
@@ -9791,11 +9791,11 @@ by adding:
             if available_quantity > 0:
                 if len(store._to_store_requesters) > 0:
                     requester = store._to_store_requesters[0]
-                    with self.env.suppress_trace():
-                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
                     for store0 in requester._to_stores:
                         requester.leave(store0._to_store_requesters)
                     requester._to_stores = []
+                    with self.env.suppress_trace():
+                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
                     requester._remove()
                     requester.status._value = scheduled
                     requester._reschedule(requester.env._now, 0, False, f"to_store ({store.name()}) honor ", False, s0=requester.env.last_s0)
-- 
2.43.0


From 87bbd7e3bbd108a605dffbe73bd32dfb60a01075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:21 +0000
Subject: [PATCH 05/83] fix: wait for any with a $-expression tests the state's
 value, not its string

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4d6d89a..26a64f6 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9269,7 +9269,7 @@ by adding:
                             honored = True
                             break
                     elif valuetype == 1:
-                        if eval(value.replace("$", str(state._value))):
+                        if eval(value.replace("$", "state._value")):
                             honored = True
                             break
                     elif valuetype == 2:
-- 
2.43.0


From 5d73d0e3e53e688d5061851533ce2896c60882bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:21 +0000
Subject: [PATCH 06/83] fix: wait_for enters the waiters according to
 request_priority and accepts a repeated state

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 26a64f6..2ab7b72 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8992,10 +8992,12 @@ by adding:
         self._cond = cond  # add test ***
         for state in states:
             self._waits.append((state, None, None))
-            if priority is None:
+            if self in state._waiters:
+                continue
+            if request_priority is None:
                 self.enter(state._waiters)
             else:
-                self.enter_sorted(state._waiters, priority)
+                self.enter_sorted(state._waiters, request_priority)
 
         if not self._waits:
             raise TypeError("no states specified")
-- 
2.43.0


From a412b5005b6434c90f9564606ded86ffc7a73ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:21 +0000
Subject: [PATCH 07/83] fix: PeriodMonitor works in yieldless mode, in its own
 environment and next to other PeriodMonitors

---
 salabim/salabim.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2ab7b72..a05a90b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24490,13 +24490,21 @@ class _PeriodComponent(Component):
     def setup(self, pm):
         self.pm = pm
 
+    def start_period(self, iperiod):
+        self.pm.perperiod[self.pm.iperiod].monitor(False)
+        self.pm.iperiod = iperiod
+        if self.pm.m._level:
+            self.pm.perperiod[self.pm.iperiod].tally(self.pm.m())
+        self.pm.perperiod[self.pm.iperiod].monitor(True)
+
     def process(self):
         for iperiod, duration in itertools.cycle(enumerate(self.pm.periods)):
-            self.pm.perperiod[self.pm.iperiod].monitor(False)
-            self.pm.iperiod = iperiod
-            if self.pm.m._level:
-                self.pm.perperiod[self.pm.iperiod].tally(self.pm.m())
-            self.pm.perperiod[self.pm.iperiod].monitor(True)
+            self.start_period(iperiod)
+            self.hold(duration)
+
+    def process_yield(self):
+        for iperiod, duration in itertools.cycle(enumerate(self.pm.periods)):
+            self.start_period(iperiod)
             yield self.hold(duration)
 
 
@@ -24553,8 +24561,10 @@ class PeriodMonitor:
         self.m.period_monitors.remove(self)
 
     def __init__(self, parent_monitor: "Monitor", periods: Iterable = None, period_monitor_names: Iterable = None, env: "Environment" = None):
-        self.pc = _PeriodComponent(pm=self, skip_standby=True, suppress_trace=True)
         self.env = _set_env(env)
+        self.pc = _PeriodComponent(
+            pm=self, process="process" if self.env._yieldless else "process_yield", skip_standby=True, suppress_trace=True, env=self.env
+        )
 
         if periods is None:
             periods = 24 * [1]
@@ -24567,13 +24577,13 @@ class PeriodMonitor:
                 cum += duration
 
         self.m = parent_monitor
-        if not hasattr(self, "period_monitors"):
+        if not hasattr(self.m, "period_monitors"):
             self.m.period_monitors = []
             self.m.org_tally = self.m.tally
             self.m.tally = types.MethodType(self.new_tally, self.m)
             self.m.org_reset = self.m.reset
             self.m.reset = types.MethodType(self.new_reset, self.m)
-            self.m.period_monitors.append(self)
+        self.m.period_monitors.append(self)
 
         self.iperiod = 0
         if self.m._level:
-- 
2.43.0


From f52f06e6321bdcf886d8b08d95b9015c4c3e4123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:22 +0000
Subject: [PATCH 08/83] fix: occupancy of an anonymous resource starts at the
 initially claimed part

---
 salabim/salabim.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index a05a90b..ea3ab01 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24057,7 +24057,14 @@ class Resource:
             "Available quantity of " + self.name(), level=True, initial_tally=capacity - initial_claimed_quantity, monitor=monitor, type="float", env=self.env
         )
 
-        self.occupancy = _SystemMonitor("Occupancy of " + self.name(), level=True, initial_tally=0, monitor=monitor, type="float", env=self.env)
+        self.occupancy = _SystemMonitor(
+            "Occupancy of " + self.name(),
+            level=True,
+            initial_tally=0 if capacity <= 0 else initial_claimed_quantity / capacity,
+            monitor=monitor,
+            type="float",
+            env=self.env,
+        )
         if self.env._trace:
             self.env.print_trace("", "", self.name() + " create", "capacity=" + str(self._capacity) + (" anonymous" if self._anonymous else ""))
         self.setup(**kwargs)
-- 
2.43.0


From 1c776bb5ed978f0b3c4d33c2e9c82ccda9b43e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:22 +0000
Subject: [PATCH 09/83] fix: sum the quantities if a resource is specified more
 than once in a request

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ea3ab01..48430ce 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8635,7 +8635,8 @@ by adding:
             if self.oneof_request:
                 addstring += " (oneof)"
 
-            self.enter(r._requesters, priority)
+            if self not in r._requesters:
+                self.enter(r._requesters, priority)
             if self.env._trace:
                 self.env.print_trace("", "", self.name(), req_text + r.name() + addstring)
 
-- 
2.43.0


From d2fbd318db2d342b04ab85f0e9eec380e03fc051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:23 +0000
Subject: [PATCH 10/83] fix: standby components still to be activated are not
 lost after a skip_standby component

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 48430ce..40a2e50 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -11193,7 +11193,7 @@ class Environment:
                                 return
 
             if len(self.env._standbylist) > 0:
-                self._pendingstandbylist = list(self.env._standbylist)
+                self._pendingstandbylist.extend(self.env._standbylist)
                 self.env._standbylist = []
 
             if self._event_list:
-- 
2.43.0


From 617a1d8df8c98bde5a8fec1f5cda655c754a9ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:24 +0000
Subject: [PATCH 11/83] fix: no waiting request is skipped when a resource
 honors requests

With honor_only_first or honor_only_highest_priority, the next requester in
line is now considered when the first one has been honored, has failed or was
cancelled. A requester that is honored along the way by another resource, does
not break the scan anymore.
---
 salabim/salabim.py | 44 +++++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 40a2e50..e9cbd07 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7490,12 +7490,16 @@ by adding at the end:
         if self._requests:
             if self.env._trace:
                 self.env.print_trace("", "", self.name(), "request failed")
-            for r in list(self._requests):
+            failed_requests = list(self._requests)
+            for r in failed_requests:
                 self.leave(r._requesters)
                 if r._requesters._length == 0:
                     r._minq = inf
             self._requests = collections.OrderedDict()
             self._failed = True
+            for r in failed_requests:
+                if r._honor_only_first or r._honor_only_highest_priority:
+                    r._tryrequest()  # another component may be the first in line now
 
         if self._waits:
             if self.env._trace:
@@ -8761,10 +8765,10 @@ by adding:
             r_honor = self.honor_all()
 
         if r_honor:
-            anonymous_resources = []
+            retry_resources = []
             for r in list(self._requests):
-                if r._anonymous:
-                    anonymous_resources.append(r)
+                if r._anonymous or r._honor_only_first or r._honor_only_highest_priority:
+                    retry_resources.append(r)
                 if r in r_honor:
                     r._claimed_quantity += self._requests[r]
                     this_prio = self.priority(r._requesters)
@@ -8793,7 +8797,7 @@ by adding:
             honoredstr = r_honor[0].name() + (len(r_honor) > 1) * " ++"
             self.status._value = scheduled
             self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
-            for r in anonymous_resources:
+            for r in retry_resources:
                 r._tryrequest()
             return True
         else:
@@ -24333,37 +24337,23 @@ class Resource:
 
     def _tryrequest(self):
         # this is Resource._tryrequest
-        if self._anonymous:
-            if not self._trying:
-                self._trying = True
-                mx = mx_first = self._requesters._head.successor
-                mx_first_priority = mx_first.priority
-                while mx != self._requesters._tail:
-                    if self._honor_only_first and mx != mx_first:
-                        break
-                    if self._honor_only_highest_priority and mx.priority != mx_first_priority:
-                        break
-                    c = mx.component
-                    mx = mx.successor
-                    c._tryrequest()
-                    if c not in self._requesters:
-                        mx = self._requesters._head.successor  # start again
-
-                self._trying = False
-        else:
+        if not self._trying:
+            self._trying = True
             mx = mx_first = self._requesters._head.successor
-            mx_first_priority = mx_first.priority
-
             while mx != self._requesters._tail:
                 if self._honor_only_first and mx != mx_first:
                     break
-                if self._honor_only_highest_priority and mx.priority != mx_first_priority:
+                if self._honor_only_highest_priority and mx.priority != mx_first.priority:
                     break
-                if self._minq > (self._capacity - self._claimed_quantity + 1e-8):
+                if not self._anonymous and self._minq > (self._capacity - self._claimed_quantity + 1e-8):
                     break  # inpossible to honor any more requests
                 c = mx.component
                 mx = mx.successor
                 c._tryrequest()
+                if c not in self._requesters:
+                    mx = mx_first = self._requesters._head.successor  # start again
+
+            self._trying = False
 
     def release(self, quantity: float = None) -> None:
         """
-- 
2.43.0


From da67181b914e3a476f8370b22e522a8deadc3a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:24 +0000
Subject: [PATCH 12/83] fix: preemptive request only bumps if that makes the
 request possible, and offers what is left

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e9cbd07..c15c171 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8655,7 +8655,7 @@ by adding:
                         break
                     av += c.claimed_quantity(this_claimers)
                     bump_candidates.append(c)
-                if av >= 0:
+                if av >= q:
                     for c in bump_candidates:
                         c._release(r, bumped_by=self)
                         c.activate()
@@ -8767,7 +8767,7 @@ by adding:
         if r_honor:
             retry_resources = []
             for r in list(self._requests):
-                if r._anonymous or r._honor_only_first or r._honor_only_highest_priority:
+                if r._anonymous or r._preemptive or r._honor_only_first or r._honor_only_highest_priority:
                     retry_resources.append(r)
                 if r in r_honor:
                     r._claimed_quantity += self._requests[r]
-- 
2.43.0


From 2d435561488e86897d27dba65b8397eee4dc0d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:25 +0000
Subject: [PATCH 13/83] fix: yieldless request honors other requests before
 giving control to the simulation

In yieldless mode, a current component that got honored switched before the
requesters of the affected resources were tried, so these were honored too late,
or never if the component was cancelled in the meantime.
---
 salabim/salabim.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c15c171..65542d5 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7466,7 +7466,7 @@ by adding at the end:
                 seq = self.env._seq
             self._on_event_list = True
             heapq.heappush(self.env._event_list, (t, priority, seq, self, return_value))
-        if self.env._yieldless:
+        if switch and self.env._yieldless:
             if self is self.env._current_component:
                 self.env._glet.switch()
 
@@ -7526,7 +7526,7 @@ by adding at the end:
             self._to_stores = []
             self._failed = True
 
-    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None):
+    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None, switch=True):
         if scheduled_time < self.env._now:
             if cap_now is None:
                 cap_now = g._default_cap_now
@@ -7553,7 +7553,7 @@ by adding at the end:
                 merge_blanks(scheduled_time_str + _prioritytxt(priority) + _urgenttxt(urgent) + lineno, self._modetxt(), extra),
                 s0=s0,
             )
-        self._push(scheduled_time, priority, urgent, return_value)
+        self._push(scheduled_time, priority, urgent, return_value, switch)
 
     def activate(
         self,
@@ -8796,9 +8796,12 @@ by adding:
             self._remove()
             honoredstr = r_honor[0].name() + (len(r_honor) > 1) * " ++"
             self.status._value = scheduled
-            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
+            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0, switch=False)
             for r in retry_resources:
                 r._tryrequest()
+            if self.env._yieldless:
+                if self is self.env._current_component:
+                    self.env._glet.switch()
             return True
         else:
             return False
-- 
2.43.0


From 9b577bf506b5157b0eb920cdded90bc6fe89828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:58 +0000
Subject: [PATCH 14/83] fix: preemptive request takes the claimed quantities
 into account when bumping

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 65542d5..728a203 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8653,7 +8653,7 @@ by adding:
                         break
                     if priority >= c.priority(this_claimers):
                         break
-                    av += c.claimed_quantity(this_claimers)
+                    av += c.claimed_quantity(r)
                     bump_candidates.append(c)
                 if av >= q:
                     for c in bump_candidates:
-- 
2.43.0


From 8c5b494325b1497076f301273c2b3a6cd6577e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:59 +0000
Subject: [PATCH 15/83] fix: monitor slices cover exactly the given period(s)

- the start may be omitted, as documented
- start, stop and modulo are consistently related to now, also after reset_now
- the last value before the end of a period or before the monitor was turned
  off is not extended
- a period that already started before the first tally is not left out
- a period that continues after now ends at now
---
 salabim/salabim.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 728a203..939c816 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -826,7 +826,6 @@ class Monitor:
                 start_ = -inf
             else:
                 start_ = start + self.env._offset
-            start_ = max(start_, self.start)
             if stop is None:
                 stop = inf
                 stop_action = "z"  # inclusive
@@ -836,9 +835,12 @@ class Monitor:
             if self.env._animate:
                 stop = min(stop, self.env._t)
             else:
-                stop = min(stop, self.env._now - self.env._offset)  # not self.now() in order to support frozen monitors
-            actions.append((start, "a", 0, 0))
-            actions.append((stop, stop_action, 0, 0))
+                if stop > self.env._now:  # not self.now() in order to support frozen monitors
+                    stop = self.env._now
+                    stop_action = "z"
+            if start_ <= stop:
+                actions.append((start_, "a", 0, 0))
+                actions.append((stop, stop_action, 0, 0))
         else:
             if start is None:
                 raise TypeError("modulo specified, but no start specified. ")
@@ -848,13 +850,16 @@ class Monitor:
                 raise ValueError("stop must be > start")
             if stop - start >= modulo:
                 raise ValueError("stop must be < start + modulo")
-            start_ = start % modulo
-            stop = stop % modulo
-            start1 = self._t[0] - (self._t[0] % modulo) + start_
-            len1 = (stop - start_) % modulo
-            while start1 < self.env._now:
+            start_ = (start + self.env._offset) % modulo
+            len1 = stop - start
+            t0 = self._t[0] if self._t else self.env._now
+            start1 = t0 - (t0 % modulo) + start_ - modulo
+            while start1 <= self.env._now:
                 actions.append((start1, "a", 0, 0))
-                actions.append((start1 + len1, "b", 0, 0))  # non inclusive
+                if start1 + len1 <= self.env._now:
+                    actions.append((start1 + len1, "b", 0, 0))  # non inclusive
+                else:
+                    actions.append((self.env._now, "z", 0, 0))  # inclusive
                 start1 += modulo
 
         if new._level:
@@ -864,6 +869,7 @@ class Monitor:
                 new._x = []
             new._t = array.array("d")
             curx = new.off
+            new.start = self.start
             new._t.append(self.start)
             new._x.append(curx)
 
@@ -899,9 +905,7 @@ class Monitor:
                     if new._t[-1] == t:
                         new._x[-1] = curx
                     else:
-                        if new._x[-1] == curx:
-                            new._t[-1] = t
-                        else:
+                        if new._x[-1] != curx:
                             new._t.append(t)
                             new._x.append(curx)
                 elif type in ("b", "z"):
@@ -909,9 +913,7 @@ class Monitor:
                     if new._t[-1] == t:
                         new._x[-1] = self.off
                     else:
-                        if new._x[-1] == self.off:
-                            new._t[-1] = t
-                        else:
+                        if new._x[-1] != self.off:
                             new._t.append(t)
                             new._x.append(self.off)
                 else:
@@ -920,9 +922,7 @@ class Monitor:
                             if new._t[-1] == t:
                                 new._x[-1] = x
                             else:
-                                if x == new._x[-1]:
-                                    new._t[-1] = t
-                                else:
+                                if x != new._x[-1]:
                                     new._t.append(t)
                                     new._x.append(x)
                     curx = x
-- 
2.43.0


From 95a531bd20ef78bf25f18214b116b5a6d3c673c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:44 +0000
Subject: [PATCH 16/83] fix: multiplied and mapped monitors keep the weights

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 939c816..0104082 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -689,7 +689,7 @@ class Monitor:
             name = "mapped"
 
         if monitors is not None:
-            monitors = [self] + monitors
+            monitors = [self] + list(monitors)
         else:
             monitors = [self]
         if not all(m._level == self._level for m in monitors):
@@ -733,6 +733,7 @@ class Monitor:
                 else:
                     new._x.append(func(x))
                 new._t.append(t)
+            new._weight = self._weight[:] if self._weight else False
 
         for m in monitors:
             del m._x_any
@@ -1601,6 +1602,7 @@ class Monitor:
             new.isgenerated = True
             new._x = [x * scale for x in self._x]
             new._t = [t for t in self._t]
+            new._weight = self._weight[:] if self._weight else False
             return new
 
         else:
-- 
2.43.0


From 0b7ca062ad2515906d89b25b863559c49b0c5568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:44 +0000
Subject: [PATCH 17/83] fix: t_multiply does not overwrite the last value and
 ends at the multiplied now

---
 salabim/salabim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0104082..06e14d3 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -656,8 +656,9 @@ class Monitor:
             new._t.append(t * factor)
 
         new.start = self.start * factor
-        new.monitor(False)
-        new._t[-1] = new._t[-1] * factor
+        new._monitor = False
+        new._x.append(new.off)
+        new._t.append(self.env._now * factor)
         new.isgenerated = True
         return new
 
-- 
2.43.0


From 746b596d2051e33910018a5b84324f274b71169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:45 +0000
Subject: [PATCH 18/83] fix: merging level monitors of different types respects
 the periods a monitor was off

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 06e14d3..62ef0f2 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -594,7 +594,9 @@ class Monitor:
             curx = [new.off] * len(merge)
             new._t = array.array("d")
             for t, index, x in heapq.merge(*[zip(merge[index]._t, itertools.repeat(index), merge[index]._x) for index in range(len(merge))]):
-                if new.xtypecode:
+                if x == merge[index].off:
+                    curx[index] = new.off
+                elif new.xtypecode:
                     curx[index] = x
                 else:
                     try:
-- 
2.43.0


From ed05a78fd53b0437977b8de7d6cc9faf83b09b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:45 +0000
Subject: [PATCH 19/83] fix: duration, minimum and maximum of stats_only level
 monitors include the current value

---
 salabim/salabim.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 62ef0f2..0b6aa65 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1760,6 +1760,8 @@ class Monitor:
         """
         if self._stats_only:
             ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             if self.n[ex0]:
                 return self._minimum[ex0]
             else:
@@ -1786,6 +1788,9 @@ class Monitor:
         """
 
         if self._stats_only:
+            ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             if self.n[ex0]:
                 return self._maximum[ex0]
             else:
@@ -2229,6 +2234,8 @@ class Monitor:
     def sys_weight(self, ex0: bool = False):
         if self._stats_only:
             ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             return self.sumw[ex0]
         else:
             _, weight = self._xweight(ex0=ex0)
-- 
2.43.0


From 00c5baea0d99208c18d343ce54505a35ea7d4269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:46 +0000
Subject: [PATCH 20/83] fix: turning a level monitor off invalidates cached
 statistics

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0b6aa65..7ddd97f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1334,6 +1334,7 @@ class Monitor:
     def _tally_off(self):
         if self.isgenerated:
             raise TypeError("sliced, merged or frozen monitors cannot be reset")
+        self.cached_xweight.clear()  # invalidate cache
         t = self.env._now
         if self._t[-1] == t:
             self._x[-1] = self.off
-- 
2.43.0


From d77d17a7f8e0fe2310cc55d07644107039b2d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:46 +0000
Subject: [PATCH 21/83] fix: numeric strings that are not integer, are not
 tallied as zero

---
 salabim/salabim.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7ddd97f..ce475f9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1274,14 +1274,7 @@ class Monitor:
                 value_num = value
 
             if self._monitor and weight != 0:
-                if not isinstance(value_num, numbers.Number):
-                    try:
-                        if int(value_num) == float(value_num):
-                            value_num = int(value_num)
-                        else:
-                            value_num = float(value_num)
-                    except (ValueError, TypeError):
-                        value_num = 0
+                value_num = do_force_numeric([value_num])[0]
 
                 for ex0 in [False, True] if value_num else [False]:
                     self.n[ex0] += 1
@@ -25305,10 +25298,12 @@ def do_force_numeric(arg):
             result.append(v)
         else:
             try:
-                if int(v) == float(v):
-                    result.append(int(v))
-                else:
-                    result.append(float(v))
+                f = float(v)
+                try:
+                    i = int(v)
+                except (ValueError, TypeError, OverflowError):
+                    i = None
+                result.append(i if i == f else f)
             except (ValueError, TypeError):
                 result.append(0)
 
-- 
2.43.0


From c24cf0755a06f71c408d287bf821c4d33d5c4a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:46 +0000
Subject: [PATCH 22/83] fix: dataframes of monitors give the right datetimes
 after reset_now and NA if an extra monitor is off

---
 salabim/salabim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ce475f9..ea8407e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3213,7 +3213,7 @@ class Monitor:
         xs, ts = self.xt(ex0=ex0, exoff=exoff, force_numeric=force_numeric, add_now=add_now)
         if include_t:
             if use_datetime0:
-                df = pd.DataFrame({"t": [self.env.t_to_datetime(t) for t in ts]})
+                df = pd.DataFrame({"t": [self.env.t_to_datetime(t - self.env._offset) for t in ts]})
             else:
                 df = pd.DataFrame({"t": ts})
         else:
@@ -3308,11 +3308,11 @@ class Monitor:
                 max_t = self.env.datetime_to_t(max_t)
             max_t += self.env._offset
         if use_datetime0:
-            df = pd.DataFrame({"t": [self.env.t_to_datetime(t) for t in self.env.arange(min_t, max_t, delta_t)]})
+            df = pd.DataFrame({"t": [self.env.t_to_datetime(t - self.env._offset) for t in self.env.arange(min_t, max_t, delta_t)]})
         else:
             df = pd.DataFrame({"t": self.env.arange(min_t, max_t, delta_t)})
 
-        for mon in [self] + extra_monitors:
+        for mon in [self] + list(extra_monitors):
             if not mon._level:
                 raise ValueError("not all monitors are level")
             if mon._t[0] != self._t[0]:
@@ -3330,7 +3330,7 @@ class Monitor:
                         x_next, t_next = next(xt_iter)
                     except StopIteration:
                         t_next = inf
-                new_x.append(pd.NA if x_last == self.off else x_last)
+                new_x.append(pd.NA if x_last == mon.off else x_last)
             df[f"{mon.name()}.x"] = new_x
         return df
 
-- 
2.43.0


From f88802e660a00e0701480b7e7af4cb18826049db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:47 +0000
Subject: [PATCH 23/83] fix: time of the last tally is related to now after
 reset_now

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ea8407e..2921dcf 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1110,7 +1110,7 @@ class Monitor:
         t is available even if the monitor is turned off
         """
         if self._level:
-            return self._ttally
+            return self._ttally - self.env._offset
         raise TypeError("non level monitors are not supported")
 
     def reset_monitors(self, monitor: bool = None, stats_only: bool = None) -> None:
-- 
2.43.0


From 2a45ddb2d3a2d70efa388c0572253da3da32b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:47 +0000
Subject: [PATCH 24/83] fix: histograms with ex0=True do not count zeroes in
 the bins

---
 salabim/salabim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2921dcf..98f1f1f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2043,8 +2043,8 @@ class Monitor:
             raise TypeError("bin_duration not available for non level monitors")
         return self.sys_bin_weight(lowerbound, upperbound)
 
-    def sys_bin_weight(self, lowerbound, upperbound):
-        x, weight = self._xweight()
+    def sys_bin_weight(self, lowerbound, upperbound, ex0=False):
+        x, weight = self._xweight(ex0=ex0)
         return sum((vweight for vx, vweight in zip(x, weight) if (vx > lowerbound) and (vx <= upperbound)))
 
     def value_number_of_entries(self, value: Any) -> int:
@@ -2639,7 +2639,7 @@ class Monitor:
                 auto_scale = False
 
             if auto_scale:
-                bin_width, lowerbound, number_of_bins = self.histogram_autoscale()
+                bin_width, lowerbound, number_of_bins = self.histogram_autoscale(ex0=ex0)
             result.append(self.print_statistics(show_header=False, show_legend=True, do_indent=False, as_str=True))
             if not self._stats_only and number_of_bins >= 0:
                 result.append("")
@@ -2659,9 +2659,9 @@ class Monitor:
                     else:
                         ub = lowerbound + (i + 1) * bin_width
                     if self._weight:
-                        count = self.sys_bin_weight(lb, ub)
+                        count = self.sys_bin_weight(lb, ub, ex0=ex0)
                     else:
-                        count = self.bin_number_of_entries(lb, ub)
+                        count = self.bin_number_of_entries(lb, ub, ex0=ex0)
 
                     perc = count / (weight_total if weight_total else 1)
                     if weight_total == inf:
-- 
2.43.0


From 3d66cd676a8942d44d2f0ef75b740f1853083242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 25/83] fix: component generators use the right times after
 reset_now, with duration, and past till

- at, till and the arrival moments were shifted twice after reset_now
- random spread with duration instead of till put all components at the start
- with a disturbance, the generator raised an error if it passed till
---
 salabim/salabim.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 98f1f1f..a885055 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20498,7 +20498,7 @@ class ComponentGenerator(Component):
                 )
             if callable(moments):
                 moments = moments()
-            moments = sorted([env.spec_to_time(moment) for moment in moments])
+            moments = sorted([env.spec_to_time(moment) + env._offset for moment in moments])
 
         self.component_class = component_class
         self.iat = iat
@@ -20544,20 +20544,20 @@ class ComponentGenerator(Component):
         else:
             if (self.iat is None and not equidistant) or moments:
                 if not moments:
-                    if till == inf or self.number == inf:
+                    if self.till == inf or self.number == inf:
                         raise ValueError("iat not specified --> till and number need to be specified")
                     if disturbance is not None:
                         raise ValueError("iat not specified --> disturbance not allowed")
 
-                    moments = sorted([Uniform(at, till)() for _ in range(self.number)])
+                    moments = sorted([Uniform(at, self.till)() for _ in range(self.number)])
                     if force_at or force_till:
-                        if number == 1:
+                        if self.number == 1:
                             if force_at and force_till:
                                 raise ValueError("force_at and force_till does not allow number=1")
-                            moments = [at] if force_at else [till]
+                            moments = [at] if force_at else [self.till]
                         else:
                             v_at = at if force_at else moments[0]
-                            v_till = till if force_till else moments[-1]
+                            v_till = self.till if force_till else moments[-1]
                             min_moment = moments[0]
                             max_moment = moments[-1]
                             moments = [interpolate(moment, min_moment, max_moment, v_at, v_till) for moment in moments]
@@ -20599,6 +20599,8 @@ class ComponentGenerator(Component):
                     else:
                         process = "do_iat_yieldless" if env._yieldless else "do_iat"
         self.kwargs = kwargs
+        if at is not None:
+            at -= env._offset
 
         super().__init__(name=generator_name, env=env, process=process, at=at, suppress_trace=suppress_trace, suppress_pause_at_step=suppress_pause_at_step)
 
@@ -20636,9 +20638,9 @@ class ComponentGenerator(Component):
             else:
                 t = self.env._now + self.iat
             if t > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset)
 
-            yield self.hold(till=t)
+            yield self.hold(till=t - self.env._offset)
 
     def do_iat_disturbance(self):
         n = 0
@@ -20660,19 +20662,19 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+                yield self.activate(process="do_finalize", at=max(self.till, self.env._now) - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 return
             t = self.env._now + iat
 
-            yield self.hold(till=t)
+            yield self.hold(till=t - self.env._offset)
 
     def do_spread_yieldless(self):
         for interval in self.intervals:
@@ -20708,9 +20710,9 @@ class ComponentGenerator(Component):
             else:
                 t = self.env._now + self.iat
             if t > self.till:
-                self.activate(process="do_finalize", at=self.till)
+                self.activate(process="do_finalize", at=self.till - self.env._offset)
 
-            self.hold(till=t)
+            self.hold(till=t - self.env._offset)
 
     def do_iat_disturbance_yieldless(self):
         n = 0
@@ -20732,19 +20734,19 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                self.activate(process="do_finalize", at=self.till)
+                self.activate(process="do_finalize", at=max(self.till, self.env._now) - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 return
             t = self.env._now + iat
 
-            self.hold(till=t)
+            self.hold(till=t - self.env._offset)
 
     def do_finalize(self):
         self.env.print_trace("", "", "till reached")
-- 
2.43.0


From 78cdb46459d700a1e24ce00e046acc68ab9774db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 26/83] fix: disturbed component generators call at_end and
 generate in their own environment

---
 salabim/salabim.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index a885055..95be70f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20667,10 +20667,14 @@ class ComponentGenerator(Component):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
+            save_default_env = g.default_env
+            g.default_env = self.env
             component_class(at=at - self.env._offset, **self.kwargs)
+            g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
             t = self.env._now + iat
 
@@ -20739,10 +20743,14 @@ class ComponentGenerator(Component):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
+            save_default_env = g.default_env
+            g.default_env = self.env
             component_class(at=at - self.env._offset, **self.kwargs)
+            g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
             t = self.env._now + iat
 
-- 
2.43.0


From 9d17e798ceaabd0dcfb1c2035f26a6cc8a9b3080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:29 +0000
Subject: [PATCH 27/83] fix: component generator without any arrivals works in
 a model with yields

---
 salabim/salabim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 95be70f..bed0033 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20592,7 +20592,7 @@ class ComponentGenerator(Component):
                             at += self.iat
                 if at > self.till:
                     at = self.till
-                    process = "do_finalize"
+                    process = "do_finalize" if env._yieldless else "do_finalize_yield"
                 else:
                     if self.disturbance:
                         process = "do_iat_disturbance_yieldless" if env._yieldless else "do_iat_disturbance"
@@ -20760,6 +20760,11 @@ class ComponentGenerator(Component):
         self.env.print_trace("", "", "till reached")
         self.at_end()
 
+    def do_finalize_yield(self):
+        self.do_finalize()
+        return
+        yield  # just to make this a generator
+
     def print_info(self, as_str: bool = False, file: TextIO = None) -> str:
         """
         prints information about the component generator
-- 
2.43.0


From e565a840e4fd43fabd574498d49d9475e16d4b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 28/83] fix: component generator schedules relative to now, to
 avoid rounding after reset_now

---
 salabim/salabim.py | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index bed0033..7ac8ee2 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20600,7 +20600,7 @@ class ComponentGenerator(Component):
                         process = "do_iat_yieldless" if env._yieldless else "do_iat"
         self.kwargs = kwargs
         if at is not None:
-            at -= env._offset
+            at = None if at == env._now else at - env._offset
 
         super().__init__(name=generator_name, env=env, process=process, at=at, suppress_trace=suppress_trace, suppress_pause_at_step=suppress_pause_at_step)
 
@@ -20634,13 +20634,13 @@ class ComponentGenerator(Component):
                 self.at_end()
                 return
             if callable(self.iat):
-                t = self.env._now + self.iat()
+                iat = self.iat()
             else:
-                t = self.env._now + self.iat
-            if t > self.till:
-                yield self.activate(process="do_finalize", at=self.till - self.env._offset)
+                iat = self.iat
+            if self.env._now + iat > self.till:
+                yield self.activate(process="do_finalize", delay=self.till - self.env._now)
 
-            yield self.hold(till=t - self.env._offset)
+            yield self.hold(iat)
 
     def do_iat_disturbance(self):
         n = 0
@@ -20662,7 +20662,7 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                yield self.activate(process="do_finalize", at=max(self.till, self.env._now) - self.env._offset)
+                yield self.activate(process="do_finalize", delay=max(0, self.till - self.env._now))
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
@@ -20676,9 +20676,7 @@ class ComponentGenerator(Component):
                 self.env.print_trace("", "", str(n) + " components generated")
                 self.at_end()
                 return
-            t = self.env._now + iat
-
-            yield self.hold(till=t - self.env._offset)
+            yield self.hold(iat)
 
     def do_spread_yieldless(self):
         for interval in self.intervals:
@@ -20710,13 +20708,13 @@ class ComponentGenerator(Component):
                 self.at_end()
                 return
             if callable(self.iat):
-                t = self.env._now + self.iat()
+                iat = self.iat()
             else:
-                t = self.env._now + self.iat
-            if t > self.till:
-                self.activate(process="do_finalize", at=self.till - self.env._offset)
+                iat = self.iat
+            if self.env._now + iat > self.till:
+                self.activate(process="do_finalize", delay=self.till - self.env._now)
 
-            self.hold(till=t - self.env._offset)
+            self.hold(iat)
 
     def do_iat_disturbance_yieldless(self):
         n = 0
@@ -20738,7 +20736,7 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                self.activate(process="do_finalize", at=max(self.till, self.env._now) - self.env._offset)
+                self.activate(process="do_finalize", delay=max(0, self.till - self.env._now))
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
@@ -20752,9 +20750,7 @@ class ComponentGenerator(Component):
                 self.env.print_trace("", "", str(n) + " components generated")
                 self.at_end()
                 return
-            t = self.env._now + iat
-
-            self.hold(till=t - self.env._offset)
+            self.hold(iat)
 
     def do_finalize(self):
         self.env.print_trace("", "", "till reached")
-- 
2.43.0


From 1f303dd8a625b4e72e68a946c222f2248b1b7757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:54 +0000
Subject: [PATCH 29/83] fix: length of a trajectory is correct in all segments
 and may be called without t

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7ac8ee2..ae5a356 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6586,7 +6586,7 @@ class TrajectoryPolygon(_Trajectory):
         if length <= self.cum_length[0]:
             return length, 0, 0
         if length >= self.cum_length[-1]:
-            return 0, len(self.cum_length) - 1, len(self.cum_length) - 1
+            return self.cum_length[-1], len(self.cum_length) - 1, len(self.cum_length) - 1
 
         i = searchsorted(self.cum_length, length) - 1
         return length, i, i + 1
@@ -6701,7 +6701,7 @@ class TrajectoryPolygon(_Trajectory):
             total length if t omitted
         """
         length, i, j = self.indexes(t, _t0=_t0)
-        return self.cum_length[i] + length
+        return length
 
     def rendered_polygon(self, time_step: float = 1) -> List[Tuple[float, float]]:
         """
@@ -6947,6 +6947,8 @@ class TrajectoryCircle(_Trajectory):
 
             total length if t omitted
         """
+        if t is None:
+            return self._length
         t0 = self._t0 if _t0 is None else _t0
         t1 = t0 + self._duration
         if t < t0:
-- 
2.43.0


From 33fb695fa43c2ecb334dce61d8350ab702e3232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:03 +0000
Subject: [PATCH 30/83] fix: a merged trajectory may be part of another merged
 trajectory

---
 salabim/salabim.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ae5a356..bc84873 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6065,6 +6065,8 @@ class TrajectoryMerged(_Trajectory):
         -------
         evaluated x : float
         """
+        if _t0 is not None:
+            t = t - _t0 + self._t0  # nested in another TrajectoryMerged
         i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
@@ -6083,6 +6085,8 @@ class TrajectoryMerged(_Trajectory):
         -------
         evaluated y : float
         """
+        if _t0 is not None:
+            t = t - _t0 + self._t0  # nested in another TrajectoryMerged
         i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
@@ -6101,6 +6105,8 @@ class TrajectoryMerged(_Trajectory):
         -------
         evaluated angle (in degrees) : float
         """
+        if _t0 is not None:
+            t = t - _t0 + self._t0  # nested in another TrajectoryMerged
         i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
@@ -6168,9 +6174,10 @@ class TrajectoryMerged(_Trajectory):
             total length if t omitted
         """
         if t is None:
-            i = len(self._trajectories) - 1
-        else:
-            i = self.index(t)
+            return self._length
+        if _t0 is not None:
+            t = t - _t0 + self._t0  # nested in another TrajectoryMerged
+        i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
         return trajectory.length(t=t, _t0=t0) + self.cum_lengths[i]
-- 
2.43.0


From f8446e069a36af93aa08720fc7cb79c50227cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 31/83] fix: mean of Constant applies the time unit once

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index bc84873..b5980f8 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -21911,7 +21911,7 @@ class Constant(_Distribution):
         -------
         mean of the distribution (= the specified constant) : float
         """
-        return self._mean * self.time_unit_factor
+        return self._mean
 
 
 class Poisson(_Distribution):
-- 
2.43.0


From 85784729ac78dea41cada757b9e66861a5ca1da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 32/83] fix: time unit of Erlang is applied in the right
 direction

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b5980f8..f6b7b00 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22446,7 +22446,7 @@ class Erlang(_Distribution):
         -------
         Sample of the distribution : float
         """
-        return self.randomstream.gammavariate(self._shape, 1 / self._rate) / self.time_unit_factor
+        return self.randomstream.gammavariate(self._shape, 1 / self._rate) * self.time_unit_factor
 
     def mean(self) -> float:
         """
@@ -22454,7 +22454,7 @@ class Erlang(_Distribution):
         -------
         Mean of the distribution : float
         """
-        return self._mean / self.time_unit_factor
+        return self._mean * self.time_unit_factor
 
 
 class Cdf(_Distribution):
-- 
2.43.0


From 9a53aa1824340b464bb3a4864af7060f1410c6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 33/83] fix: mean of Distribution takes the time unit into
 account

---
 salabim/salabim.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f6b7b00..727cc9c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23479,10 +23479,7 @@ class Distribution(_Distribution):
             _checkrandomstream(randomstream)
             self.randomstream = randomstream
         self._distribution = d
-        try:
-            self._mean = d._mean
-        except AttributeError:
-            self._mean = nan
+        self._mean = d.mean()
 
     def __repr__(self):
         return self._distribution.__repr__()
-- 
2.43.0


From 5847fdc3b60758a6b56699969dd75367778c9513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 34/83] fix: means of Pdf and CumPdf with nested distributions

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 727cc9c..57d20b4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22696,7 +22696,7 @@ class Pdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
@@ -23038,7 +23038,7 @@ class CumPdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
-- 
2.43.0


From 0debfddcfd3043585ae5810a26a95f658874a642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 35/83] fix: sampling Pdf and CumPdf always gives a sample of
 one of the values

---
 salabim/salabim.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 57d20b4..977b827 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22761,7 +22761,8 @@ class Pdf(_Distribution):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                return x.sample() if isinstance(x, _Distribution) else x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
@@ -22771,8 +22772,8 @@ class Pdf(_Distribution):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -22903,7 +22904,8 @@ class Pmf(Pdf):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                return x.sample() if isinstance(x, _Distribution) else x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
@@ -22913,8 +22915,8 @@ class Pmf(Pdf):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -23087,8 +23089,8 @@ class CumPdf(_Distribution):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
@@ -23197,8 +23199,8 @@ class CumPmf(CumPdf):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
-- 
2.43.0


From 2a6f7472b500f5cd32eff7a0615e3a5bf11e7928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 36/83] fix: random_seed seeds the given randomstream

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 977b827..3320aba 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25481,7 +25481,7 @@ def random_seed(seed: Hashable = None, randomstream: Any = None, set_numpy_rando
             seed = 1234567
         elif seed == "*":
             seed = None
-        random.seed(seed)
+        randomstream.seed(seed)
         if set_numpy_random_seed and has_numpy():
             numpy.random.seed(seed)
 
-- 
2.43.0


From b8880bd2440f95e1619458c0042bd15ca3dddf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 37/83] fix: context managers restore the setting if an
 exception occurs

---
 salabim/salabim.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3320aba..b438a6c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13244,8 +13244,10 @@ class Environment:
         """
         save_trace = self._trace
         self._trace = False
-        yield
-        self._trace = save_trace
+        try:
+            yield
+        finally:
+            self._trace = save_trace
 
     def suppress_trace_linenumbers(self, value: bool = None) -> bool:
         """
@@ -27822,8 +27824,10 @@ def over3d(val: bool = True):
     """
     save_default_over3d = default_over3d()
     default_over3d(val)
-    yield
-    default_over3d(save_default_over3d)
+    try:
+        yield
+    finally:
+        default_over3d(save_default_over3d)
 
 
 _default_over3d = False
@@ -27869,8 +27873,10 @@ def cap_now(val: bool = True):
     """
     save_default_cap_now = default_cap_now()
     default_cap_now(val)
-    yield
-    default_cap_now(save_default_cap_now)
+    try:
+        yield
+    finally:
+        default_cap_now(save_default_cap_now)
 
 
 def default_cap_now(val: bool = None) -> bool:
-- 
2.43.0


From 626003887a595b42ac3859ba8f8194078df0aaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:35 +0000
Subject: [PATCH 38/83] fix: flushing captured stdout does not insert a line
 feed

---
 salabim/salabim.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b438a6c..1a6343f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -28085,7 +28085,6 @@ class capture_stdout:
     def flush(self):
         if self.include_print:
             self.stdout.flush()
-        g._captured_stdout.append("\n")
 
 
 class redirect_stdout:
-- 
2.43.0


From b1f23779395c580e8abf36ea4fc87e6e475002d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:59 +0000
Subject: [PATCH 39/83] fix: State.trigger with max=0 honors no components

---
 salabim/salabim.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1a6343f..888e73a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23837,13 +23837,11 @@ class State:
 
     def _trywait(self, max=inf):  # this _trywait of a state
         mx = self._waiters._head.successor
-        while mx != self._waiters._tail:
+        while mx != self._waiters._tail and max > 0:
             c = mx.component
             mx = mx.successor
             if c._trywait():
                 max -= 1
-                if max == 0:
-                    return
 
     def monitor(self, value: bool = None) -> None:
         """
-- 
2.43.0


From eec361a04aac8db72dc17e00640ac253cbe0c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:10 +0000
Subject: [PATCH 40/83] fix: preemptive request does not bump if it can't be
 honored because of honor_only_first or honor_only_highest_priority

---
 salabim/salabim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 888e73a..2833edd 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8670,6 +8670,10 @@ by adding:
                         break
                     av += c.claimed_quantity(r)
                     bump_candidates.append(c)
+                if r._honor_only_first and r._requesters[0] != self:
+                    bump_candidates = []
+                if r._honor_only_highest_priority and priority != r._requesters._head.successor.priority:
+                    bump_candidates = []
                 if av >= q:
                     for c in bump_candidates:
                         c._release(r, bumped_by=self)
-- 
2.43.0


From 490c50142082236cff380ff9b57f4db1f9b1abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:09 +0000
Subject: [PATCH 41/83] fix: a component inserted at the end of a queue gets
 the priority of the tail

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2833edd..6985eb9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4995,7 +4995,7 @@ class Queue:
                 break
             count = count + 1
             mx = mx.successor
-        priority = mx.priority
+        priority = mx.predecessor.priority if mx == self._tail else mx.priority
         Qmember().insert_in_front_of(mx, component, self, priority)
         return self
 
-- 
2.43.0


From 765188fef562d049e4c84fa30a9ab130802c3530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:10 +0000
Subject: [PATCH 42/83] fix: copying the capacity of a queue sets the available
 quantity of the copy

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6985eb9..8ddd5da 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5668,7 +5668,7 @@ class Queue:
                 name = "copy of " + self.name()
             q1 = type(self)(name=name, monitor=monitor, env=self.env)
             if copy_capacity:
-                q1.capacity._tally = self.capacity._tally
+                q1.set_capacity(self.capacity._tally)
             mx = self._head.successor
             while mx != self._tail:
                 Qmember().insert_in_front_of(q1._tail, mx.component, q1, mx.priority)
-- 
2.43.0


From 339bbeff68b5fad5400c1218c615eb2cd2289d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:57 +0000
Subject: [PATCH 43/83] fix: percentile that is exactly at a data point does
 not interpolate

---
 salabim/salabim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8ddd5da..bd9cb28 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1950,6 +1950,9 @@ class Monitor:
                 if weight_cum[k + 1] > q:
                     break
 
+            if weight_cum[k] == q:
+                return x_sorted[k]
+
             if interpolation == "linear":
                 return interpolate(q, weight_cum[k], weight_cum[k + 1], x_sorted[k], x_sorted[k + 1])
             if interpolation == "lower":
-- 
2.43.0


From d5a2b290aa0a6a3259d9e03ed4b5bf6c8d26c00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:29 +0000
Subject: [PATCH 44/83] fix: stats_only monitors count entries with weight 0,
 like full monitors

---
 salabim/salabim.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index bd9cb28..6ef41e5 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1273,16 +1273,17 @@ class Monitor:
             else:
                 value_num = value
 
-            if self._monitor and weight != 0:
+            if self._monitor and (weight != 0 or not self._level):
                 value_num = do_force_numeric([value_num])[0]
 
                 for ex0 in [False, True] if value_num else [False]:
                     self.n[ex0] += 1
-                    # algorithm based on https://fanf2.user.srcf.net/hermes/doc/antiforgery/stats.pdf
-                    self.sumw[ex0] += weight
-                    mun1 = self.mun[ex0]
-                    self.mun[ex0] = mun1 + (weight / self.sumw[ex0]) * (value_num - mun1)
-                    self.sn[ex0] = self.sn[ex0] + weight * (value_num - mun1) * (value_num - self.mun[ex0])
+                    if weight != 0:
+                        # algorithm based on https://fanf2.user.srcf.net/hermes/doc/antiforgery/stats.pdf
+                        self.sumw[ex0] += weight
+                        mun1 = self.mun[ex0]
+                        self.mun[ex0] = mun1 + (weight / self.sumw[ex0]) * (value_num - mun1)
+                        self.sn[ex0] = self.sn[ex0] + weight * (value_num - mun1) * (value_num - self.mun[ex0])
                     self._minimum[ex0] = min(self._minimum[ex0], value_num)
                     self._maximum[ex0] = max(self._maximum[ex0], value_num)
                 if weight != 1:
-- 
2.43.0


From 82e2dadffb2a2bf93ceb2d35959c836b6df8f913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:35 +0000
Subject: [PATCH 45/83] fix: values tallied before the first event of a
 PeriodMonitor are in its first period

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6ef41e5..7ff6844 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24624,6 +24624,7 @@ class PeriodMonitor:
             self.perperiod = [Monitor(name=period_monitor_name, level=True, monitor=False, env=self.env) for period_monitor_name in period_monitor_names]
         else:
             self.perperiod = [Monitor(name=period_monitor_name, monitor=False, env=self.env) for period_monitor_name in period_monitor_names]
+        self.pc.start_period(0)
 
 
 class AudioClip:
-- 
2.43.0


From b19ccf82e5eb1e44ba7dd842639a9f6af39b27a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:41 +0000
Subject: [PATCH 46/83] fix: x_map accepts a monitor more than once

---
 salabim/salabim.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7ff6844..0808e94 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -702,17 +702,14 @@ class Monitor:
 
         new = _SystemMonitor(name=name, type="any", level=self._level, env=self.env)
 
-        for m in monitors:
-            m._x_any = []
-            for x in m._x:
-                m._x_any.append(new.off if x == m.off else x)
+        xs_any = [[new.off if x == m.off else x for x in m._x] for m in monitors]
 
         if new._level:
             new._x = []
 
             curx = [new.off] * len(monitors)
             new._t = array.array("d")
-            for t, index, x in heapq.merge(*[zip(monitors[index]._t, itertools.repeat(index), monitors[index]._x_any) for index in range(len(monitors))]):
+            for t, index, x in heapq.merge(*[zip(monitors[index]._t, itertools.repeat(index), xs_any[index]) for index in range(len(monitors))]):
                 curx[index] = x
 
                 if any(val == new.off for val in curx):
@@ -730,7 +727,7 @@ class Monitor:
             new._x = []
             new._t = array.array("d")
 
-            for x, t in zip(monitors[0]._x_any, monitors[0]._t):
+            for x, t in zip(xs_any[0], monitors[0]._t):
                 if x == new.off:
                     new._x.append(new.off)
                 else:
@@ -738,9 +735,6 @@ class Monitor:
                 new._t.append(t)
             new._weight = self._weight[:] if self._weight else False
 
-        for m in monitors:
-            del m._x_any
-
         new.monitor(False)
         new.isgenerated = True
         return new
-- 
2.43.0


From f6facc309e77494b05abc9bef20d158755bd65e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:45 +0000
Subject: [PATCH 47/83] fix: histogram of values works without any entries

---
 salabim/salabim.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0808e94..86f114f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2539,12 +2539,6 @@ class Monitor:
         if graph_scale is None:
             graph_scale = 80
 
-        if self._stats_only:
-            weight_total = self.sumw[bool(ex0)]
-        else:
-            x, weight = self._xweight(ex0=ex0, force_numeric=not values)
-            weight_total = sum(weight)
-
         values_is_iterable = False
         if not isinstance(values, str):
             try:
@@ -2552,6 +2546,13 @@ class Monitor:
                 values_is_iterable = True
             except TypeError:
                 pass
+
+        if self._stats_only:
+            weight_total = self.sumw[bool(ex0)]
+        else:
+            x, weight = self._xweight(ex0=ex0, force_numeric=not (values or values_is_iterable))
+            weight_total = sum(weight)
+
         if values or values_is_iterable:
             nentries = len(x)
             if self._weight:
@@ -2617,7 +2618,7 @@ class Monitor:
                             + fn(count, 14, 3)
                             + fn(perc * 100, 6, 1)
                             + rpad(str(count_entries), 8)
-                            + fn(count_entries * 100 / nentries, 6, 1)
+                            + fn(count_entries * 100 / (nentries if nentries else 1), 6, 1)
                         )
                     else:
                         result.append(pad(str(value_label), 20) + rpad(str(count), 7) + fn(perc * 100, 6, 1) + " " + s)
-- 
2.43.0


From 66c463fb28de9652b639be51f7c0a5991ed42d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:45 +0000
Subject: [PATCH 48/83] fix: print_info of a component with a mode that is not
 a string

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 86f114f..b481599 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7437,7 +7437,7 @@ by adding at the end:
         result.append("  suppress_trace=" + str(self._suppress_trace))
         result.append("  suppress_pause_at_step=" + str(self._suppress_pause_at_step))
         result.append("  status=" + self.status())
-        result.append("  mode=" + self.mode())
+        result.append("  mode=" + str(self.mode()))
         result.append("  mode_time=" + self.env.time_to_str(self.mode_time()))
         result.append("  creation_time=" + self.env.time_to_str(self.creation_time()))
         result.append("  scheduled_time=" + self.env.time_to_str(self.scheduled_time()))
-- 
2.43.0


From 069a5df92fc954ffd64276a90a984d0537017372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:45 +0000
Subject: [PATCH 49/83] fix: print_info of a component that is waiting for a
 condition (wait_for)

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b481599..7f05f15 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7463,7 +7463,9 @@ by adding at the end:
             for r in sorted(list(self._claims), key=lambda obj: obj.name().lower()):
                 result.append("    " + pad(r.name(), 20) + " quantity=" + str(self._claims[r]))
         if len(self._waits) > 0:
-            if self._wait_all:
+            if self._cond:
+                result.append("  waiting for a condition on state(s):")
+            elif self._wait_all:
                 result.append("  waiting for all of state(s):")
             else:
                 result.append("  waiting for any of state(s):")
-- 
2.43.0


From cf1edd710447021ae42c327dcaf91963b72fa9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:13 +0000
Subject: [PATCH 50/83] fix: mean of an External scipy distribution takes
 positional arguments into account

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7f05f15..016be18 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23283,7 +23283,8 @@ class External(_Distribution):
         self.register_time_unit(time_unit, env)
         self.samples = []
         if self.dis_is_scipy:
-            self._mean = self.dis.mean(**{k: v for k, v in self.kwargs.items() if k not in ("size", "random_state")})
+            number_of_args = self.dis.numargs + (2 if isinstance(dis, scipy.stats.rv_continuous) else 1)  # shape parameters, loc and scale
+            self._mean = self.dis.mean(*self.args[:number_of_args], **{k: v for k, v in self.kwargs.items() if k not in ("size", "random_state")})
         else:
             self._mean = nan
 
-- 
2.43.0


From 8e7b00afb9a1416d28dbe7bddaab4f14fa2df3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:34 +0000
Subject: [PATCH 51/83] fix: trajectory without length and with
 acceleration/deceleration does not raise an error

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 016be18..d2077bf 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5939,7 +5939,7 @@ class _Movement:
         if self.l_v0_vmax < 0 or self.l_vmax_v1 < 0:
             raise ValueError("not feasible")
         self.t_v0_vmax = (vmax - v0) / acc
-        self.t_vmax = self.l_vmax / vmax
+        self.t_vmax = self.l_vmax / vmax if vmax else 0  # vmax is 0 if there's nothing to travel
         self.t_vmax_v1 = (vmax - v1) / dec
         self.t = self.t_v0_vmax + self.t_vmax + self.t_vmax_v1
         self.v0 = v0
-- 
2.43.0


From 01289444f169d5ce73c6e24449b18d1084a3d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:34 +0000
Subject: [PATCH 52/83] fix: renaming a queue or resource updates all derived
 names

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d2077bf..084f4aa 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4817,7 +4817,9 @@ class Queue:
         if value is not None:
             self._name = value
             self.length.name("Length of " + self.name())
-            self.length_of_stay.name("Length of stay of " + self.name())
+            self.length_of_stay.name("Length of stay in " + self.name())
+            self.capacity.name("Capacity of " + self.name())
+            self.available_quantity.name("Available quantity of " + self.name())
         return self._name
 
     def rename(self, value: str = None) -> "Queue":
@@ -24489,7 +24491,7 @@ class Resource:
             self._requesters.name("requesters of " + value)
             self._claimers.name("claimers of " + value)
             self.capacity.name("Capacity of " + value)
-            self.claimed_quantity.name("Clamed quantity of " + value)
+            self.claimed_quantity.name("Claimed quantity of " + value)
             self.available_quantity.name("Available quantity of " + value)
             self.occupancy.name("Occupancy of " + value)
 
-- 
2.43.0


From 063e6defcaa8d63294c7eee96f3b0ca92a861fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:34 +0000
Subject: [PATCH 53/83] fix: base_name is not affected if the name of an object
 is changed

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 084f4aa..8aaac68 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25187,6 +25187,7 @@ def _set_name(name, _nameserialize, object):
         object._sequence_number = sequence_number
     else:
         object._name = name
+        object._base_name = name  # not affected by a change of the name
 
 
 def _check_overlapping_parameters(obj, method_name0, method_name1, process=None):
-- 
2.43.0


From b284f8cb9b708ce9d259e2dd5758dfae06d9915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:34 +0000
Subject: [PATCH 54/83] fix: registries work with several queues with the same
 contents and with objects of different types

---
 salabim/salabim.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8aaac68..9294fa4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -973,7 +973,7 @@ class Monitor:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self in registry:
+        if any(self is o for o in registry):
             raise ValueError(self.name() + " already in registry")
         registry.append(self)
         return self
@@ -993,9 +993,9 @@ class Monitor:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self not in registry:
+        if not any(self is o for o in registry):
             raise ValueError(self.name() + " not in registry")
-        registry.remove(self)
+        registry[:] = [o for o in registry if o is not self]
         return self
 
     def __repr__(self):
@@ -4657,7 +4657,7 @@ class Queue:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self in registry:
+        if any(self is o for o in registry):
             raise ValueError(self.name() + " already in registry")
         registry.append(self)
         return self
@@ -4677,9 +4677,9 @@ class Queue:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self not in registry:
+        if not any(self is o for o in registry):
             raise ValueError(self.name() + " not in registry")
-        registry.remove(self)
+        registry[:] = [o for o in registry if o is not self]
         return self
 
     def __repr__(self):
@@ -7388,7 +7388,7 @@ by adding at the end:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self in registry:
+        if any(self is o for o in registry):
             raise ValueError(self.name() + " already in registry")
         registry.append(self)
         return self
@@ -7408,9 +7408,9 @@ by adding at the end:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self not in registry:
+        if not any(self is o for o in registry):
             raise ValueError(self.name() + " not in registry")
-        registry.remove(self)
+        registry[:] = [o for o in registry if o is not self]
         return self
 
     def print_info(self, as_str: "bool" = False, file: TextIO = None) -> str:
@@ -23632,7 +23632,7 @@ class State:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self in registry:
+        if any(self is o for o in registry):
             raise ValueError(self.name() + " already in registry")
         registry.append(self)
         return self
@@ -23652,9 +23652,9 @@ class State:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self not in registry:
+        if not any(self is o for o in registry):
             raise ValueError(self.name() + " not in registry")
-        registry.remove(self)
+        registry[:] = [o for o in registry if o is not self]
         return self
 
     def __repr__(self):
@@ -24297,7 +24297,7 @@ class Resource:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self in registry:
+        if any(self is o for o in registry):
             raise ValueError(self.name() + " already in registry")
         registry.append(self)
         return self
@@ -24317,9 +24317,9 @@ class Resource:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self not in registry:
+        if not any(self is o for o in registry):
             raise ValueError(self.name() + " not in registry")
-        registry.remove(self)
+        registry[:] = [o for o in registry if o is not self]
         return self
 
     def __repr__(self):
-- 
2.43.0


From 4027316244744103834e271d334503ca0289e33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:11 +0000
Subject: [PATCH 55/83] fix: Resource.release() took away the claims of
 requests that were honored by that very release

---
 salabim/salabim.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9294fa4..9a010fb 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24428,11 +24428,9 @@ class Resource:
             if quantity is not None:
                 raise ValueError("no quantity allowed for non-anonymous resource")
 
-            mx = self._claimers._head.successor
-            while mx != self._claimers._tail:
-                c = mx.component
-                mx = mx.successor
-                c.release(self)
+            for c in list(self._claimers):
+                if c in self._claimers:
+                    c.release(self)
 
     def requesters(self) -> Queue:
         """
-- 
2.43.0


From edc98c4d860dad86fdf566e9b5a75cbff50a06fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:47 +0000
Subject: [PATCH 56/83] fix: the first frame of an animated gif or webp image
 was shown as the last one

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9a010fb..00684e1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -27745,9 +27745,9 @@ class ImageContainer:
             self._duration = 0
 
         else:  # >1
-            im.convert("RGBA")  # without this .webp does not work!
+            first_image = im.convert("RGBA")  # without this .webp does not work!
             end_time = im.info["duration"] / 1000
-            self.images = [im]
+            self.images = [first_image]
             self.images[-1].end_time = end_time
 
             while True:
-- 
2.43.0


From 60a671717436bdc5f76d05d0b880d443fdaad5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:48 +0000
Subject: [PATCH 57/83] fix: the offset of an image in user coordinates was
 scaled twice

---
 salabim/salabim.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 00684e1..673902c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15776,8 +15776,6 @@ class Animate2dBase(DynamicClass):
                     else:
                         qx = (x - self.env._x0) * self.env._scale
                         qy = (y - self.env._y0) * self.env._scale
-                        offsetx = offsetx * self.env._scale
-                        offsety = offsety * self.env._scale
 
                     alpha = int(self.alpha(t))
                     image, id = image_container.get_image(
-- 
2.43.0


From 0924c8514c4705c311b7b2e8a973babcd6ce26c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:49 +0000
Subject: [PATCH 58/83] fix: the radius of a rounded rectangle in user
 coordinates was scaled twice

---
 salabim/salabim.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 673902c..2390eda 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15580,9 +15580,6 @@ class Animate2dBase(DynamicClass):
                             if r == 0:
                                 p = [px[0], py[0], px[1], py[0], px[1], py[1], px[0], py[1], px[0], py[0]]
                             else:
-                                if not self.screen_coordinates:
-                                    r *= self.env._scale
-
                                 r = min(r, abs(px[0] - px[1]) / 2, abs(py[0] - py[1]) / 2)  # make sure the arc fits
 
                                 if self.screen_coordinates:
-- 
2.43.0


From a24ceeaa0265e03795889c6010550e27ef4fc7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:49 +0000
Subject: [PATCH 59/83] fix: the text attached to a circle in user coordinates
 was positioned with an unscaled radius

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2390eda..848298a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15730,8 +15730,8 @@ class Animate2dBase(DynamicClass):
                     if self.type == "circle":
                         self.env._centerx = qx
                         self.env._centery = qy
-                        self.env._dimx = 2 * radius0
-                        self.env._dimy = 2 * radius1
+                        self.env._dimx = 2 * radius0 * (1 if self.screen_coordinates else self.env._scale)
+                        self.env._dimy = 2 * radius1 * (1 if self.screen_coordinates else self.env._scale)
                     else:
                         self.env._centerx = qx + (self.minrx + self.maxrx) / 2
                         self.env._centery = qy + (self.minry + self.maxry) / 2
-- 
2.43.0


From dfe710a7dd2cc0be9baead926412f16e0b225fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:50 +0000
Subject: [PATCH 60/83] fix: is_removed() of an over3d animation object raised
 an AttributeError

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 848298a..586e50a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15472,7 +15472,7 @@ class Animate2dBase(DynamicClass):
 
     def is_removed(self):
         if self.over3d:
-            return self not in self.env.an_over3d_objects
+            return self not in self.env.an_objects_over3d
         else:
             return self not in self.env.an_objects
 
-- 
2.43.0


From c26afa32750726dab1e1ff9a196f69953bed4f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:51 +0000
Subject: [PATCH 61/83] fix: a circle or rounded rectangle with a (nearly) zero
 radius raised a ZeroDivisionError

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 586e50a..1d3a61d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15586,7 +15586,7 @@ class Animate2dBase(DynamicClass):
                                     nsteps = int(math.sqrt(r) * 6)
                                 else:
                                     nsteps = int(math.sqrt(r * self.env._scale) * 6)
-                                tarc_angle = 360 / nsteps
+                                tarc_angle = 360 / max(nsteps, 1)
 
                                 p = []
 
@@ -15634,7 +15634,7 @@ class Animate2dBase(DynamicClass):
                                 nsteps = int(math.sqrt(max(radius0, radius1)) * 6)
                             else:
                                 nsteps = int(math.sqrt(max(radius0 * self.env._scale, radius1 * self.env._scale)) * 6)
-                            tarc_angle = 360 / nsteps
+                            tarc_angle = 360 / max(nsteps, 1)
                             p = [0, 0]
 
                             arc_angle = arc_angle0
-- 
2.43.0


From 01d0453800dea13b23eb3baab07bca3bf7c2fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:51 +0000
Subject: [PATCH 62/83] fix: xy_anchor for objects in user coordinates raised
 an AttributeError in a blind animation or snapshot

---
 salabim/salabim.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1d3a61d..972b4cc 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13975,19 +13975,19 @@ class Environment:
             if screen_coordinates:
                 return 0
             else:
-                return self._x0_org / scale
+                return getattr(self, "_x0_org", self._x0) / scale
 
         if xy_anchor in ("n", "c", "center", "s"):
             if screen_coordinates:
                 return (width / 2) / scale
             else:
-                return ((self._x0_org + self._x1_org) / 2) / scale
+                return ((getattr(self, "_x0_org", self._x0) + getattr(self, "_x1_org", self._x1)) / 2) / scale
 
         if xy_anchor in ("ne", "e", "se", ""):
             if screen_coordinates:
                 return width / scale
             else:
-                return self._x1_org / scale
+                return getattr(self, "_x1_org", self._x1) / scale
 
         raise ValueError("incorrect xy_anchor", xy_anchor)
 
@@ -14002,19 +14002,19 @@ class Environment:
             if screen_coordinates:
                 return height / scale
             else:
-                return self._y1_org / scale
+                return getattr(self, "_y1_org", self._y1) / scale
 
         if xy_anchor in ("w", "c", "center", "e"):
             if screen_coordinates:
                 return (height / 2) / scale
             else:
-                return ((self._y0_org + self._y1_org) / 2) / scale
+                return ((getattr(self, "_y0_org", self._y0) + getattr(self, "_y1_org", self._y1)) / 2) / scale
 
         if xy_anchor in ("sw", "s", "se", ""):
             if screen_coordinates:
                 return 0
             else:
-                return self._y0_org / scale
+                return getattr(self, "_y0_org", self._y0) / scale
 
         raise ValueError("incorrect xy_anchor", xy_anchor)
 
-- 
2.43.0


From e6ef5f95fa16f95041917b49c61e4d4f868da343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:46 +0000
Subject: [PATCH 63/83] fix: a text given as a list or tuple raised an
 AttributeError when animated

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 972b4cc..d7035b1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15489,7 +15489,9 @@ class Animate2dBase(DynamicClass):
             if visible:
                 if self.type == "text":  # checked so early as to avoid evaluation of x, y, angle, ...
                     text = self.text(t)
-                    if (text is None) or (text.strip() == ""):
+                    if isinstance(text, (list, tuple)):
+                        text = tuple(deep_flatten(text))
+                    if (text is None) or ("".join(text).strip() == ""):
                         self._image_visible = False
                         return
 
-- 
2.43.0


From 1f8bc7d28aadd0ec5bbff971fd62ca0e174928be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:15 +0000
Subject: [PATCH 64/83] fix: an animated image that was shown once did not
 always disappear at the end

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d7035b1..8410d53 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -27782,7 +27782,7 @@ class ImageContainer:
 
         if not repeat:
             if t > interval:
-                return g.dummy_image, 0
+                return g.dummy_image, -1
         t = t % interval
         if pingpong:
             if t <= interval / 2:
-- 
2.43.0


From f25a32b7dce82dcd71dd35f84f80467733eeebd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:56 +0000
Subject: [PATCH 65/83] fix: the frame durations of animated webp images were
 not read properly

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8410d53..574d68a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -27750,8 +27750,8 @@ class ImageContainer:
             while True:
                 try:
                     im.seek(im.tell() + 1)
+                    self.images.append(im.convert("RGBA"))  # for .webp, the duration is only available after loading
                     end_time += im.info["duration"] / 1000
-                    self.images.append(im.convert("RGBA"))
                     self.images[-1].end_time = end_time
                 except EOFError:
                     break
-- 
2.43.0


From 4f4505ae779e9e82811928211e0b1af5ab0bc0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:58 +0000
Subject: [PATCH 66/83] fix: AnimateMonitor.is_removed() returned the opposite

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 574d68a..7a0f8f7 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4057,7 +4057,7 @@ class AnimateMonitor(DynamicClass):
         self.env.sys_objects.discard(self)
 
     def is_removed(self) -> bool:
-        return self in self.env.sys_objects
+        return self not in self.env.sys_objects
 
 
 if Pythonista:
-- 
2.43.0


From 990c1b4c9a2c3b475d5662fba1ede8140e56ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:09 +0000
Subject: [PATCH 67/83] fix: is_removed() of 3d animation objects returned the
 opposite

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7a0f8f7..962cef6 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5909,7 +5909,7 @@ class Animate3dBase(DynamicClass):
         self.env.an_objects3d.discard(self)
 
     def is_removed(self) -> bool:
-        return self in self.env.an_objects3d
+        return self not in self.env.an_objects3d
 
 
 class _Movement:
-- 
2.43.0


From 15e8f9e685fa3804142225c83cf2acf9ade326e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:16 +0000
Subject: [PATCH 68/83] fix: animation objects got the wrong time in a video
 after reset_now()

---
 salabim/salabim.py | 55 +++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 962cef6..80f0e0d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3956,7 +3956,7 @@ class AnimateMonitor(DynamicClass):
         self.linewidth_t = self.linewidth(t)
         self.t_start = self._monitor.start
         self.width_div_horizontal_scale_t = self.width_t / self.horizontal_scale_t
-        self.displacement_t = self.width_div_horizontal_scale_t - (t - self.t_start)
+        self.displacement_t = self.width_div_horizontal_scale_t - (t + self._monitor.env._offset - self.t_start)
 
         labels = []
         label_ys = []
@@ -12105,10 +12105,11 @@ class Environment:
         elif video_mode == "screen":
             image = ImageGrab.grab()
         else:
-            an_objects = sorted(self.an_objects, key=lambda obj: (-obj.layer(self._t), obj.sequence))
+            t = self.t()
+            an_objects = sorted(self.an_objects, key=lambda obj: (-obj.layer(t), obj.sequence))
             image = Image.new("RGBA", (self._width, self._height), self.colorspec_to_tuple("bg"))
             for ao in an_objects:
-                ao.make_pil_image(self._t)
+                ao.make_pil_image(t)
                 if ao._image_visible and (include_topleft or not ao.getattr("in_topleft", False)):
                     image.paste(ao._image, (int(ao._image_x), int(self._height - ao._image_y - ao._image.size[1])), ao._image.convert("RGBA"))
         return image.convert(mode)
@@ -16614,7 +16615,7 @@ class Animate:
         self.alpha0 = alpha0
         self.fontsize0 = fontsize0
 
-        self.t0 = self.env._now if t0 is None else t0
+        self.t0 = self.env.now() if t0 is None else t0
 
         self.circle1 = self.circle0 if circle1 is None else circle1
         self.line1 = self.line0 if line1 is None else de_none(line1)
@@ -16652,7 +16653,7 @@ class Animate:
         self.flip_horizontal0 = flip_horizontal
         self.flip_vertical0 = flip_vertical
         if animation_start is None:
-            self.animation_start0 = self.env._now
+            self.animation_start0 = self.env.now()
         else:
             self.animation_start0 = animation_start
         self.animation_speed0 = animation_speed
@@ -16948,7 +16949,7 @@ class Animate:
         The default value of most of the parameters is the current value (at time now)
         """
 
-        t = self.env._now
+        t = self.env.now()
         type0 = self.settype(circle0, line0, polygon0, rectangle0, points0, image, text)
         if (type0 != "") and (type0 != self.type):
             raise TypeError("incorrect type " + type0 + " (should be " + self.type)
@@ -17002,7 +17003,7 @@ class Animate:
         self.angle0 = self.angle(t) if angle0 is None else angle0
         self.alpha0 = self.alpha(t) if alpha0 is None else alpha0
         self.fontsize0 = self.fontsize(t) if fontsize0 is None else fontsize0
-        self.t0 = self.env._now if t0 is None else t0
+        self.t0 = self.env.now() if t0 is None else t0
         self.xy_anchor0 = self.xy_anchor(t) if xy_anchor0 is None else xy_anchor0
 
         self.circle1 = self.circle0 if circle1 is None else circle1
@@ -17075,7 +17076,7 @@ class Animate:
         x : float
             default behaviour: linear interpolation between self.x0 and self.x1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.x0, self.x1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.x0, self.x1)
 
     def y(self, t=None):
         """
@@ -17091,7 +17092,7 @@ class Animate:
         y : float
             default behaviour: linear interpolation between self.y0 and self.y1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.y0, self.y1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.y0, self.y1)
 
     def offsetx(self, t=None):
         """
@@ -17107,7 +17108,7 @@ class Animate:
         offsetx : float
             default behaviour: linear interpolation between self.offsetx0 and self.offsetx1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.offsetx0, self.offsetx1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.offsetx0, self.offsetx1)
 
     def offsety(self, t=None):
         """
@@ -17123,7 +17124,7 @@ class Animate:
         offsety : float
             default behaviour: linear interpolation between self.offsety0 and self.offsety1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.offsety0, self.offsety1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.offsety0, self.offsety1)
 
     def angle(self, t=None):
         """
@@ -17139,7 +17140,7 @@ class Animate:
         angle : float
             default behaviour: linear interpolation between self.angle0 and self.angle1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.angle0, self.angle1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.angle0, self.angle1)
 
     def alpha(self, t=None):
         """
@@ -17155,7 +17156,7 @@ class Animate:
         alpha : float
             default behaviour: linear interpolation between self.alpha0 and self.alpha1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.alpha0, self.alpha1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.alpha0, self.alpha1)
 
     def linewidth(self, t=None):
         """
@@ -17171,7 +17172,7 @@ class Animate:
         linewidth : float
             default behaviour: linear interpolation between self.linewidth0 and self.linewidth1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.linewidth0, self.linewidth1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.linewidth0, self.linewidth1)
 
     def linecolor(self, t=None):
         """
@@ -17187,7 +17188,7 @@ class Animate:
         linecolor : colorspec
             default behaviour: linear interpolation between self.linecolor0 and self.linecolor1
         """
-        return self.env.colorinterpolate((self.env._now if t is None else t), self.t0, self.t1, self.linecolor0, self.linecolor1)
+        return self.env.colorinterpolate((self.env.now() if t is None else t), self.t0, self.t1, self.linecolor0, self.linecolor1)
 
     def fillcolor(self, t=None):
         """
@@ -17203,7 +17204,7 @@ class Animate:
         fillcolor : colorspec
             default behaviour: linear interpolation between self.fillcolor0 and self.fillcolor1
         """
-        return self.env.colorinterpolate((self.env._now if t is None else t), self.t0, self.t1, self.fillcolor0, self.fillcolor1)
+        return self.env.colorinterpolate((self.env.now() if t is None else t), self.t0, self.t1, self.fillcolor0, self.fillcolor1)
 
     def circle(self, t=None):
         """
@@ -17229,7 +17230,7 @@ class Animate:
 
             default behaviour: linear interpolation between self.circle0 and self.circle1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.circle0, self.circle1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.circle0, self.circle1)
 
     def textcolor(self, t=None):
         """
@@ -17245,7 +17246,7 @@ class Animate:
         textcolor : colorspec
             default behaviour: linear interpolation between self.textcolor0 and self.textcolor1
         """
-        return self.env.colorinterpolate((self.env._now if t is None else t), self.t0, self.t1, self.textcolor0, self.textcolor1)
+        return self.env.colorinterpolate((self.env.now() if t is None else t), self.t0, self.t1, self.textcolor0, self.textcolor1)
 
     def line(self, t=None):
         """
@@ -17263,7 +17264,7 @@ class Animate:
 
             default behaviour: linear interpolation between self.line0 and self.line1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.line0, self.line1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.line0, self.line1)
 
     def polygon(self, t=None):
         """
@@ -17281,7 +17282,7 @@ class Animate:
 
             default behaviour: linear interpolation between self.polygon0 and self.polygon1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.polygon0, self.polygon1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.polygon0, self.polygon1)
 
     def rectangle(self, t=None):
         """
@@ -17299,7 +17300,7 @@ class Animate:
 
             default behaviour: linear interpolation between self.rectangle0 and self.rectangle1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.rectangle0, self.rectangle1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.rectangle0, self.rectangle1)
 
     def points(self, t=None):
         """
@@ -17317,7 +17318,7 @@ class Animate:
 
             default behaviour: linear interpolation between self.points0 and self.points1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.points0, self.points1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.points0, self.points1)
 
     def width(self, t=None):
         """
@@ -17344,7 +17345,7 @@ class Animate:
         if width1 is None:
             width1 = ImageContainer(self.image1).images[0].size[0]
 
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, width0, width1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, width0, width1)
 
     def height(self, t=None):
         """
@@ -17371,7 +17372,7 @@ class Animate:
         if height1 is None:
             height1 = ImageContainer(self.image1).images[0].size[0]
 
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, height0, height1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, height0, height1)
 
     def fontsize(self, t=None):
         """
@@ -17387,7 +17388,7 @@ class Animate:
         fontsize : float
             default behaviour: linear interpolation between self.fontsize0 and self.fontsize1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.fontsize0, self.fontsize1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.fontsize0, self.fontsize1)
 
     def as_points(self, t=None):
         """
@@ -17542,7 +17543,7 @@ class Animate:
         return self.flip_vertical0
 
     def animation_start(self, t=None):
-        return self.env._now
+        return self.env.now()
 
     def animation_repeat(self, t=None):
         return False
@@ -20272,7 +20273,7 @@ class AnimateImage(Animate2dBase):
                 text_offsetx=0,
                 text_offsety=0,
                 anchor="sw",
-                animation_start=env._now,
+                animation_start=env.now(),
                 animation_repeat=False,
                 animation_pingpong=False,
                 animation_speed=1,
-- 
2.43.0


From 7a71561c28823df36a9bfd6066bb652e75996df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 69/83] fix: show() of an AnimateQueue that is already shown
 left components on the screen forever

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 80f0e0d..c259693 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -18452,7 +18452,6 @@ class AnimateQueue(DynamicClass):
         """
         self.ao_title.show()
         self.env.sys_objects.add(self)
-        self.current_aos = {}
 
     def remove(self):
         self.env.sys_objects.discard(self)
@@ -18460,6 +18459,7 @@ class AnimateQueue(DynamicClass):
         for animation_objects in self.current_aos.values():
             for ao in animation_objects[2:]:
                 ao.remove()
+        self.current_aos = {}
 
     def is_removed(self):
         return self not in self.env.sys_objects
-- 
2.43.0


From 4d6b0fa287e0ce15602570891edbcb5e1a40da89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:01 +0000
Subject: [PATCH 70/83] fix: the xy_anchor of an AnimateQueue with a trajectory
 was used as a distance along that trajectory

---
 salabim/salabim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c259693..fb33019 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -18363,8 +18363,14 @@ class AnimateQueue(DynamicClass):
         titleoffsetx = self.titleoffsetx(t)
         titleoffsety = self.titleoffsety(t)
 
-        x += self._queue.env.xy_anchor_to_x(xy_anchor, screen_coordinates=screen_coordinates, over3d=self.over3d)
-        y += self._queue.env.xy_anchor_to_y(xy_anchor, screen_coordinates=screen_coordinates, over3d=self.over3d)
+        anchor_x = self._queue.env.xy_anchor_to_x(xy_anchor, screen_coordinates=screen_coordinates, over3d=self.over3d)
+        anchor_y = self._queue.env.xy_anchor_to_y(xy_anchor, screen_coordinates=screen_coordinates, over3d=self.over3d)
+        if direction == "t":
+            xt += anchor_x
+            yt += anchor_y
+        else:
+            x += anchor_x
+            y += anchor_y
 
         if direction == "e":
             self.x_t = x + (-25 if titleoffsetx is None else titleoffsetx)
-- 
2.43.0


From 69f665b761174a8b44237e743178ace72cc13697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:10 +0000
Subject: [PATCH 71/83] fix: making a blind video activated the standby
 components at each frame and used the default environment

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index fb33019..1d2621a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -10653,7 +10653,7 @@ class Environment:
 
         if self._blind_animation:
             with self.suppress_trace():
-                self._blind_video_maker = _BlindVideoMaker(process="", suppress_trace=True)
+                self._blind_video_maker = _BlindVideoMaker(process="", suppress_trace=True, skip_standby=True, env=self)
 
         if Pythonista:
             self._width, self._height = ui.get_screen_size()
-- 
2.43.0


From 094a079b20b951f7744711f7037effac6c7a1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:10 +0000
Subject: [PATCH 72/83] fix: a snapshot showed outdated queues and monitors (or
 failed) and env.t() was wrong after it, when reset_now() was used

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1d2621a..a13e06f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13666,8 +13666,8 @@ class Environment:
             raise ValueError("extension " + extension + "  not supported")
         filename_path.parent.mkdir(parents=True, exist_ok=True)
         self._t = self._now
+        self.animation_pre_tick_sys(self.t())  # required to update sys objects, like AnimateQueue
         self._capture_image(mode, video_mode).save(str(filename))
-        self._t = self.t()
 
     def modelname_width(self):
         if Environment.cached_modelname_width[0] != self._modelname:
-- 
2.43.0


From c3a524bb831dd7dcc099450dc6a15db28a7b094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:29 +0000
Subject: [PATCH 73/83] fix: statistics in between the frames of a blind
 animation were based on the time of the last frame

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index a13e06f..a4ce0e1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -11238,6 +11238,8 @@ class Environment:
                     t = inf
             c._on_event_list = False
             self.env._now = t
+            if self._blind_animation:
+                self._t = t  # there's no separate animation time, so statistics, etc. are always up to now
 
             self._current_component = c
 
-- 
2.43.0


From 8209055f4b8f96b78df0a0a9def29db2cf9b1119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:57 +0000
Subject: [PATCH 74/83] fix: closing the video of a blind animation made the
 next frame raise a ValueError

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index a4ce0e1..72543ec 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20842,14 +20842,14 @@ class _BlindVideoMaker(Component):
         self.env._save_frame()
 
     def process_yielded(self):
-        while True:
+        while self.env._video:
             self.handle()
             if not self.env._event_list:
                 break  # we've finished
             yield self.hold(self.env._speed / self.env._fps)
 
     def process_yieldless(self):
-        while True:
+        while self.env._video:
             self.handle()
             if not self.env._event_list:
                 break  # we've finished
-- 
2.43.0


From ccd78428f57f3651f6b16d8b1c9c1e6c1a51abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:48 +0000
Subject: [PATCH 75/83] fix: env.peek() raised an AttributeError if there are
 no events left and run() was not called

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 72543ec..6a97080 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -10630,6 +10630,7 @@ class Environment:
         self._t = 0
         self.video_t = 0
         self.frame_number = 0
+        self.end_on_empty_eventlist = False
         self._exclude_from_animation = "only in video"
         self._audio = None
         self._audio_speed = 1.0
-- 
2.43.0


From 282c3f4c4c315afb931cd5a7b9b08756964484c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:18 +0000
Subject: [PATCH 76/83] fix: Poisson samples were wrong for means where
 exp(-mean) is subnormal (about 744 to 745)

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6a97080..bc1cfe7 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22016,6 +22016,8 @@ class Poisson(_Distribution):
             return numpy.random.poisson(lam=self._mean)
 
         t = math.exp(-self._mean)
+        if t < sys.float_info.min:  # not accurate enough
+            return self.sample_fallback()
         s = t
         k = 0
 
-- 
2.43.0


From cca2db3d41000bfa86dd5c42c4af292079864faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:47 +0000
Subject: [PATCH 77/83] fix: setting the remaining_duration of a data component
 put it on the event list

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index bc1cfe7..97ab6c4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -10023,6 +10023,8 @@ by adding:
                 raise ValueError("setting remaining_duration not allowed for current component (" + self.name() + ")")
             elif self.status.value == standby:
                 raise ValueError("setting remaining_duration not allowed for standby component (" + self.name() + ")")
+            elif self.status.value == data:
+                raise ValueError("setting remaining_duration not allowed for data component (" + self.name() + ")")
             else:
                 self._remove()
                 self._reschedule(value + self.env._now, priority, urgent, "set remaining_duration", False, extra="")
-- 
2.43.0


From f391624e8205590be31e1a8ed3fadd400f91b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:30 +0000
Subject: [PATCH 78/83] fix: activate with keep_request/keep_wait did not keep
 the status (as documented), and mixed up requests and waits

---
 salabim/salabim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 97ab6c4..f5603e8 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7724,11 +7724,11 @@ by adding:
             if self.env._yieldless:
                 self._glet = greenlet.greenlet(lambda: self._process(**kwargs), parent=self.env._glet)
 
+        new_status = scheduled
         if self.status.value != current:
             self._remove()
-            if p is None:
-                if not (keep_request or keep_wait):
-                    self._check_fail()
+            if p is None and ((keep_request and self.status.value == requesting) or (keep_wait and self.status.value == waiting)):
+                new_status = self.status.value
             else:
                 self._check_fail()
 
@@ -7742,7 +7742,7 @@ by adding:
             at = self.env.spec_to_time(at)
             scheduled_time = at + self.env._offset + delay
 
-        self.status._value = scheduled
+        self.status._value = new_status
         self._reschedule(scheduled_time, priority, urgent, "activate", cap_now, extra=extra)
 
     def hold(
-- 
2.43.0


From f70b6f5bbd3e15170b996b333390e2e0ad2e32d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:31 +0000
Subject: [PATCH 79/83] fix: refused calls (in the past, contradictory or
 incorrect parameters) had already removed the component from the event list
 and queues

---
 salabim/salabim.py | 128 +++++++++++++++++++++++++++------------------
 1 file changed, 77 insertions(+), 51 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f5603e8..2dc3f2b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7544,6 +7544,10 @@ by adding at the end:
             self._to_stores = []
             self._failed = True
 
+    def _check_not_past(self, scheduled_time, cap_now):
+        if scheduled_time < self.env._now and not (g._default_cap_now if cap_now is None else cap_now):
+            raise ValueError(f"scheduled time ({scheduled_time:0.3f}) before now ({self.env._now:0.3f})")
+
     def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None, switch=True):
         if scheduled_time < self.env._now:
             if cap_now is None:
@@ -7683,6 +7687,15 @@ by adding at the end:
             except AttributeError:
                 raise AttributeError("self." + process + " does not exist")
 
+        delay = self.env.spec_to_duration(delay)
+
+        if at is None:
+            scheduled_time = self.env._now + delay
+        else:
+            at = self.env.spec_to_time(at)
+            scheduled_time = at + self.env._offset + delay
+        self._check_not_past(scheduled_time, cap_now)
+
         if p is None:
             extra = ""
         else:
@@ -7734,14 +7747,6 @@ by adding:
 
         self.set_mode(mode)
 
-        delay = self.env.spec_to_duration(delay)
-
-        if at is None:
-            scheduled_time = self.env._now + delay
-        else:
-            at = self.env.spec_to_time(at)
-            scheduled_time = at + self.env._offset + delay
-
         self.status._value = new_status
         self._reschedule(scheduled_time, priority, urgent, "activate", cap_now, extra=extra)
 
@@ -7828,10 +7833,6 @@ by adding:
         if self.status.value != passive:
             if self.status.value != current:
                 self._checkisnotdata()
-                self._remove()
-                self._check_fail()
-
-        self.set_mode(mode)
 
         if till is None:
             if duration is None:
@@ -7853,6 +7854,13 @@ by adding:
             else:
                 raise ValueError(f"scheduled time ({scheduled_time:0.3f}) before now ({self.env._now:0.3f})")
 
+        if self.status.value != passive:
+            if self.status.value != current:
+                self._remove()
+                self._check_fail()
+
+        self.set_mode(mode)
+
         if interrupted:
             self._remaining_duration = scheduled_time - self.env._now
             self._interrupted_status = scheduled
@@ -8219,8 +8227,6 @@ by adding:
         if self.status.value != current:
             self._checkisnotdata()
             self._checkisnotmain()
-            self._remove()
-            self._check_fail()
 
         if fail_at is None:
             if fail_delay is None:
@@ -8238,6 +8244,10 @@ by adding:
             else:
                 raise ValueError("both fail_at and fail_delay specified")
 
+        if self.status.value != current:
+            self._remove()
+            self._check_fail()
+
         self.set_mode(mode)
 
         self._failed = False
@@ -8392,8 +8402,6 @@ by adding:
         if self.status.value != current:
             self._checkisnotdata()
             self._checkisnotmain()
-            self._remove()
-            self._check_fail()
 
         if fail_at is None:
             if fail_delay is None:
@@ -8411,6 +8419,10 @@ by adding:
             else:
                 raise ValueError("both fail_at and fail_delay specified")
 
+        if self.status.value != current:
+            self._remove()
+            self._check_fail()
+
         self.set_mode(mode)
 
         self._failed = False
@@ -8586,13 +8598,9 @@ by adding:
         --> requests 1 from r1, r2 or r3
 
         """
-        self.oneof_request = oneof
-
         if self.status.value != current:
             self._checkisnotdata()
             self._checkisnotmain()
-            self._remove()
-            self._check_fail()
         if fail_at is None:
             if fail_delay is None:
                 scheduled_time = inf
@@ -8609,6 +8617,27 @@ by adding:
             else:
                 raise ValueError("both fail_at and fail_delay specified")
         schedule_priority = priority
+
+        for arg in args:  # refuse incorrect calls before there is any effect
+            if isinstance(arg, Resource):
+                r, q = arg, 1
+            elif isinstance(arg, (tuple, list)):
+                r, q = arg[0], arg[1] if len(arg) >= 2 else 1
+            else:
+                raise TypeError("incorrect specifier", arg)
+            if r._preemptive and len(args) > 1:
+                raise ValueError("preemptive resources do not support multiple resource requests")
+            if called_from == "put":
+                q = -q
+            if q < 0 and not r._anonymous:
+                raise ValueError("quantity " + str(q) + " <0")
+
+        self.oneof_request = oneof
+
+        if self.status.value != current:
+            self._remove()
+            self._check_fail()
+
         self.set_mode(mode)
 
         self._failed = False
@@ -8628,18 +8657,10 @@ by adding:
                     q = arg[1]
                 if len(arg) >= 3:
                     priority = arg[2]
-            else:
-                raise TypeError("incorrect specifier", arg)
-
-            if r._preemptive:
-                if len(args) > 1:
-                    raise ValueError("preemptive resources do not support multiple resource requests")
 
             if called_from == "put":
                 q = -q
 
-            if q < 0 and not r._anonymous:
-                raise ValueError("quantity " + str(q) + " <0")
             if r in self._requests:
                 self._requests[r] += q  # is same resource is specified several times, just add them up
             else:
@@ -8995,10 +9016,6 @@ by adding:
         if self.status.value != current:
             self._checkisnotdata()
             self._checkisnotmain()
-            self._remove()
-            self._check_fail()
-
-        self._failed = False
 
         if fail_at is None:
             if fail_delay is None:
@@ -9016,6 +9033,16 @@ by adding:
             else:
                 raise ValueError("both fail_at and fail_delay specified")
 
+        states = list(states)
+        if not states:
+            raise TypeError("no states specified")
+
+        if self.status.value != current:
+            self._remove()
+            self._check_fail()
+
+        self._failed = False
+
         self.set_mode(mode)
         schedule_priority = priority
 
@@ -9029,9 +9056,6 @@ by adding:
             else:
                 self.enter_sorted(state._waiters, request_priority)
 
-        if not self._waits:
-            raise TypeError("no states specified")
-
         self._remaining_duration = scheduled_time - self.env._now
 
         self._trywait()
@@ -9196,16 +9220,9 @@ by adding:
         --> waits for s1.value()==True and s2.value==True
 
         """
-        self._cond = None
-
         if self.status.value != current:
             self._checkisnotdata()
             self._checkisnotmain()
-            self._remove()
-            self._check_fail()
-
-        self._wait_all = all
-        self._failed = False
 
         if fail_at is None:
             if fail_delay is None:
@@ -9222,6 +9239,23 @@ by adding:
                 scheduled_time = fail_at + self.env._offset
             else:
                 raise ValueError("both fail_at and fail_delay specified")
+
+        for arg in args:  # refuse incorrect calls before there is any effect
+            if isinstance(arg, (tuple, list)):
+                if len(arg) >= 4 or not isinstance(arg[0], State):
+                    raise TypeError("incorrect specifier", arg)
+            elif not isinstance(arg, State):
+                raise TypeError("incorrect specifier", arg)
+        if not args:
+            raise TypeError("no states specified")
+
+        self._cond = None
+        if self.status.value != current:
+            self._remove()
+            self._check_fail()
+
+        self._wait_all = all
+        self._failed = False
         schedule_priority = priority
         self.set_mode(mode)
 
@@ -9232,16 +9266,10 @@ by adding:
                 state = arg
             elif isinstance(arg, (tuple, list)):
                 state = arg[0]
-                if not isinstance(state, State):
-                    raise TypeError("incorrect specifier", arg)
                 if len(arg) >= 2:
                     value = arg[1]
                 if len(arg) >= 3:
                     priority = arg[2]
-                if len(arg) >= 4:
-                    raise TypeError("incorrect specifier", arg)
-            else:
-                raise TypeError("incorrect specifier", arg)
 
             for statex, _, _ in self._waits:
                 if statex == state:
@@ -9258,9 +9286,6 @@ by adding:
             else:
                 self._waits.append((state, value, 0))
 
-        if not self._waits:
-            raise TypeError("no states specified")
-
         self._remaining_duration = scheduled_time - self.env._now
 
         self._trywait()
@@ -13432,6 +13457,7 @@ class Environment:
                 scheduled_time = till + self.env._offset
             else:
                 raise ValueError("both duration and till specified")
+        self._main._check_not_past(scheduled_time, cap_now)
         if self._yieldless:
             self._main.status._value = scheduled
             self._main._reschedule(scheduled_time, priority, urgent, "run", cap_now, extra=extra)
-- 
2.43.0


From 8ba1729cf9ce45ea1399d8374ea0f0fabcf0778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 80/83] fix: Queue.extend refuses clear_source for a non queue
 before extending

---
 salabim/salabim.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2dc3f2b..a11d34b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5415,6 +5415,8 @@ class Queue:
         ----
         The components in source added to the queue will get the priority of the tail of self.
         """
+        if clear_source and not isinstance(source, Queue):
+            raise TypeError("clear_source cannot be applied to instances of type" + str(type(source)))
         count = 0
         with self.env.suppress_trace():
             self.env._trace = False
@@ -5434,10 +5436,7 @@ class Queue:
                 + " components)",
             )
         if clear_source:
-            if isinstance(source, Queue):
-                source.clear()
-            else:
-                raise TypeError("clear_source cannot be applied to instances of type" + str(type(source)))
+            source.clear()
 
     def as_set(self):
         return {c for c in self}
-- 
2.43.0


From bb230211cff187806c3a4ac573bc30a0bcb32407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:53 +0000
Subject: [PATCH 81/83] fix: print_histogram refuses sort_on_value with
 sort_on_duration

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index a11d34b..52de91d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2530,8 +2530,8 @@ class Monitor:
             raise ValueError("non level monitors can't be sorted on duration. Use sort_on_weight instead")
         if sort_on_value and sort_on_weight:
             raise ValueError("sort_on_value can't be combined with sorted_on_value")
-        if sort_on_value and sort_on_weight:
-            raise ValueError("sort_on_weight can't be combined with sorted_on_value")
+        if sort_on_value and sort_on_duration:
+            raise ValueError("sort_on_duration can't be combined with sorted_on_value")
 
         result = []
         result.append("Histogram of " + self.name() + ("[ex0]" if ex0 else ""))
-- 
2.43.0


From e688f57d068d8499b8701957f6c3b8bc68811750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:51 +0000
Subject: [PATCH 82/83] fix: slice of a weighted monitor in an animated
 environment, and of a tally at the current time

---
 salabim/salabim.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 52de91d..6f61c72 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -830,12 +830,10 @@ class Monitor:
             else:
                 stop += self.env._offset
                 stop_action = "b"  # non inclusive
-            if self.env._animate:
-                stop = min(stop, self.env._t)
-            else:
-                if stop > self.env._now:  # not self.now() in order to support frozen monitors
-                    stop = self.env._now
-                    stop_action = "z"
+            now = self.env._t if self.env._animate else self.env._now  # not self.now() in order to support frozen monitors
+            if stop > now:
+                stop = now
+                stop_action = "z"
             if start_ <= stop:
                 actions.append((start_, "a", 0, 0))
                 actions.append((stop, stop_action, 0, 0))
@@ -888,14 +886,6 @@ class Monitor:
             _t = self._t
             _weight = self._weight
 
-        if self.env._animate:
-            if self._x:
-                _x.append(_x[-1])
-                _t.append(self.env._t)
-            try:
-                _weight.append(self.weight[-1])
-            except AttributeError:
-                ...  # ignore if bool
         for t, type, x, weight in heapq.merge(actions, zip(self._t, itertools.repeat("c"), _x, _weight if (_weight and not self._level) else (1,) * len(_x))):
             if new._level:
                 if type == "a":
-- 
2.43.0


From f2b06a6712f85e2525a7bcca699c59b2602a591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:35 +0000
Subject: [PATCH 83/83] fix: Animate objects in an AnimateQueue

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6f61c72..cd18800 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -18437,7 +18437,7 @@ class AnimateQueue(DynamicClass):
             dimx = _call(animation_objects[0], t, c)
             dimy = _call(animation_objects[1], t, c)
             for ao in animation_objects[2:]:
-                if isinstance(ao, AnimateClassic):
+                if isinstance(ao, (Animate, AnimateClassic)):
                     if direction == "t":
                         ao.x0 = xt + trajectory.x(t=x * 1.00, _t0=0)
                         ao.y0 = yt + trajectory.y(t=x * 1.00, _t0=0)
-- 
2.43.0

