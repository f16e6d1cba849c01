From 3c77188b27d7f7d54a796bd3b2fec7565644062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 001/113] fix: Queue.append() honours its priority argument
 (documented as equivalent to add())

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4641412..ffdae9a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4911,7 +4911,7 @@ class Queue:
 
         This method is equivalent to add()
         """
-        component.enter(self)
+        component.enter(self, priority)
         return self
 
     def add_at_head(self, component: "Component") -> "Queue":
-- 
2.43.0


From f61ae3e7192b1fbc6e3d5c4abfd8edd1f7a369bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 002/113] fix: Queue.insert() at the end keeps the queue sorted
 on priority

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ffdae9a..6da60a4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4989,7 +4989,7 @@ class Queue:
                 break
             count = count + 1
             mx = mx.successor
-        priority = mx.priority
+        priority = (mx.predecessor if mx == self._tail else mx).priority  # at the end: priority of the last component
         Qmember().insert_in_front_of(mx, component, self, priority)
         return self
 
-- 
2.43.0


From a4216b0c943fe79f1afc73b358256d525a868ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:12 +0000
Subject: [PATCH 003/113] fix: Queue.copy(copy_capacity=True) keeps the
 available quantity in step with the copied capacity

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6da60a4..6126f5d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5661,12 +5661,12 @@ class Queue:
             if name is None:
                 name = "copy of " + self.name()
             q1 = type(self)(name=name, monitor=monitor, env=self.env)
-            if copy_capacity:
-                q1.capacity._tally = self.capacity._tally
             mx = self._head.successor
             while mx != self._tail:
                 Qmember().insert_in_front_of(q1._tail, mx.component, q1, mx.priority)
                 mx = mx.successor
+            if copy_capacity:
+                q1.set_capacity(self.capacity._tally)
         return q1
 
     def move(self, name: str = None, monitor: bool = False, copy_capacity=False):
-- 
2.43.0


From ce5ae214eb50c9a4325fd8e521662cf26033c137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:51 +0000
Subject: [PATCH 004/113] fix: passivate() of a passive, interrupted or standby
 component keeps the proper remaining_duration()

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6126f5d..7c4c622 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7882,9 +7882,10 @@ by adding:
             self._remaining_duration = 0.0
         else:
             self._checkisnotdata()
+            remaining_duration = self.remaining_duration()
             self._remove()
             self._check_fail()
-            self._remaining_duration = self._scheduled_time - self.env._now
+            self._remaining_duration = remaining_duration
         self._scheduled_time = inf
 
         self.set_mode(mode)
-- 
2.43.0


From 786735c0553c02d691bfa9ebf3aab9ca326716f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:51 +0000
Subject: [PATCH 005/113] fix: scheduled_time() of an interrupted component is
 inf

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7c4c622..0c337b3 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7929,6 +7929,7 @@ by adding:
             self._checkisnotdata()
             self._remove()
             self._remaining_duration = self._scheduled_time - self.env._now
+            self._scheduled_time = inf
             self._interrupted_status = self.status.value
             self._interrupt_level = 1
             self.status._value = interrupted
-- 
2.43.0


From 50cdf0c3dd233e0e360e67a74ad8c389be80a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:12 +0000
Subject: [PATCH 006/113] fix: activate() with keep_request/keep_wait keeps a
 component requesting/waiting, and affects only such components

---
 salabim/salabim.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0c337b3..7b8dd73 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7701,12 +7701,12 @@ by adding:
             if self.env._yieldless:
                 self._glet = greenlet.greenlet(lambda: self._process(**kwargs), parent=self.env._glet)
 
+        keep = False
         if self.status.value != current:
             self._remove()
             if p is None:
-                if not (keep_request or keep_wait):
-                    self._check_fail()
-            else:
+                keep = (keep_request and self.status.value == requesting) or (keep_wait and self.status.value == waiting)
+            if not keep:
                 self._check_fail()
 
         self.set_mode(mode)
@@ -7719,7 +7719,8 @@ by adding:
             at = self.env.spec_to_time(at)
             scheduled_time = at + self.env._offset + delay
 
-        self.status._value = scheduled
+        if not keep:
+            self.status._value = scheduled
         self._reschedule(scheduled_time, priority, urgent, "activate", cap_now, extra=extra)
 
     def hold(
-- 
2.43.0


From e2e8d22d3d99a1e86b29d19ba9a107d99455b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:20 +0000
Subject: [PATCH 007/113] fix: request()/wait() of an interrupted component
 that can be honored at once is honored

---
 salabim/salabim.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7b8dd73..7d94498 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8750,9 +8750,6 @@ by adding:
 
     def _tryrequest(self):
         # this is Component._tryrequest
-        if self.status.value == interrupted:
-            return False
-
         if self.oneof_request:
             r_honor = self.honor_any()
         else:
@@ -9239,8 +9236,6 @@ by adding:
             return
 
     def _trywait(self):
-        if self.status.value == interrupted:
-            return False
         if self._cond:
             honored = self._cond()
         else:
-- 
2.43.0


From 7d60957e758e88ebdeb1c4fffa313c9a69070d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:11 +0000
Subject: [PATCH 008/113] fix: scheduled_time() of a component put in hold(...,
 interrupted=...) is inf

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7d94498..e6502db 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7833,6 +7833,7 @@ by adding:
 
         if interrupted:
             self._remaining_duration = scheduled_time - self.env._now
+            self._scheduled_time = inf
             self._interrupted_status = scheduled
             self._interrupt_level = int(interrupted)
             self.status._value = "interrupted"
-- 
2.43.0


From 103b9cb078f73cb4bcedf266022139e6d2b2700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:11 +0000
Subject: [PATCH 009/113] fix: components still pending on standby are not lost
 when a skip_standby component was current

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e6502db..7358c9b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -11185,7 +11185,7 @@ class Environment:
                                 return
 
             if len(self.env._standbylist) > 0:
-                self._pendingstandbylist = list(self.env._standbylist)
+                self._pendingstandbylist = self.env._pendingstandbylist + self.env._standbylist
                 self.env._standbylist = []
 
             if self._event_list:
-- 
2.43.0


From ddf18e046fc7838dfc46d75bd5826eef940afb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:07 +0000
Subject: [PATCH 010/113] fix: request() of the same resource several times
 adds up the quantities instead of raising an error

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7358c9b..0af2a80 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8618,7 +8618,8 @@ by adding:
 
             if q < 0 and not r._anonymous:
                 raise ValueError("quantity " + str(q) + " <0")
-            if r in self._requests:
+            already_requested = r in self._requests
+            if already_requested:
                 self._requests[r] += q  # is same resource is specified several times, just add them up
             else:
                 self._requests[r] = q
@@ -8635,7 +8636,8 @@ by adding:
             if self.oneof_request:
                 addstring += " (oneof)"
 
-            self.enter(r._requesters, priority)
+            if not already_requested:
+                self.enter(r._requesters, priority)
             if self.env._trace:
                 self.env.print_trace("", "", self.name(), req_text + r.name() + addstring)
 
-- 
2.43.0


From 4d6ccf444055599fed5b983492b79bb528746ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:07 +0000
Subject: [PATCH 011/113] fix: a component is scheduled after request() without
 any resource

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0af2a80..81c4a08 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8593,6 +8593,7 @@ by adding:
 
         if not args:
             honoredstr = "-"
+            self.status._value = scheduled
             self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
             return
         for arg in args:
-- 
2.43.0


From a62f7e25612cebaffed8ebad84aa66a4840ab617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:07 +0000
Subject: [PATCH 012/113] fix: preemptive request bumps only if that makes the
 request possible

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 81c4a08..74fcd69 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8653,7 +8653,7 @@ by adding:
                         break
                     av += c.claimed_quantity(this_claimers)
                     bump_candidates.append(c)
-                if av >= 0:
+                if av >= q:
                     for c in bump_candidates:
                         c._release(r, bumped_by=self)
                         c.activate()
-- 
2.43.0


From b6c384b1b24f27cb8af23bce9197d2806224b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:54 +0000
Subject: [PATCH 013/113] fix: a preemptive request never bumps the requesting
 component itself

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 74fcd69..33180d8 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8647,6 +8647,8 @@ by adding:
                 this_claimers = r.claimers()
                 bump_candidates = []
                 for c in reversed(r.claimers()):
+                    if c is self:
+                        continue
                     if av >= q:
                         break
                     if priority >= c.priority(this_claimers):
-- 
2.43.0


From 3ab71d17ba48841b357b54421b65ad2df4305736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:54 +0000
Subject: [PATCH 014/113] fix: requests that become possible because the head
 of the queue left or by bumping are honored (honor_only_first,
 honor_only_highest_priority, preemptive)

---
 salabim/salabim.py | 49 ++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 33180d8..80fc413 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7486,9 +7486,11 @@ by adding at the end:
                 self.env._pendingstandbylist.remove(self)
 
     def _check_fail(self):
+        retry_resources = []
         if self._requests:
             if self.env._trace:
                 self.env.print_trace("", "", self.name(), "request failed")
+            retry_resources = [r for r in self._requests if r._honor_only_first or r._honor_only_highest_priority]
             for r in list(self._requests):
                 self.leave(r._requesters)
                 if r._requesters._length == 0:
@@ -7521,6 +7523,9 @@ by adding at the end:
             self._to_stores = []
             self._failed = True
 
+        for r in retry_resources:
+            r._tryrequest()
+
     def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None):
         if scheduled_time < self.env._now:
             if cap_now is None:
@@ -8596,6 +8601,7 @@ by adding:
             self.status._value = scheduled
             self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
             return
+        bumped_resources = []
         for arg in args:
             q = 1
             priority = request_priority
@@ -8646,6 +8652,8 @@ by adding:
                 av = r.available_quantity()
                 this_claimers = r.claimers()
                 bump_candidates = []
+                if r._is_blocked(self):
+                    av = -inf  # bumping will not help
                 for c in reversed(r.claimers()):
                     if c is self:
                         continue
@@ -8659,13 +8667,14 @@ by adding:
                     for c in bump_candidates:
                         c._release(r, bumped_by=self)
                         c.activate()
+                        bumped_resources = [r]
         for r, q in self._requests.items():
             if q < r._minq:
                 r._minq = q
 
         self._remaining_duration = scheduled_time - self.env._now
 
-        self._tryrequest()
+        self._tryrequest(bumped_resources)
 
         if self._requests:
             self.status._value = requesting
@@ -8754,7 +8763,7 @@ by adding:
                     return [r]
         return []
 
-    def _tryrequest(self):
+    def _tryrequest(self, bumped_resources=()):
         # this is Component._tryrequest
         if self.oneof_request:
             r_honor = self.honor_any()
@@ -8762,10 +8771,10 @@ by adding:
             r_honor = self.honor_all()
 
         if r_honor:
-            anonymous_resources = []
+            retry_resources = list(bumped_resources)
             for r in list(self._requests):
-                if r._anonymous:
-                    anonymous_resources.append(r)
+                if r._anonymous or r._honor_only_first or r._honor_only_highest_priority:
+                    retry_resources.append(r)
                 if r in r_honor:
                     r._claimed_quantity += self._requests[r]
                     this_prio = self.priority(r._requesters)
@@ -8794,7 +8803,7 @@ by adding:
             honoredstr = r_honor[0].name() + (len(r_honor) > 1) * " ++"
             self.status._value = scheduled
             self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
-            for r in anonymous_resources:
+            for r in retry_resources:
                 r._tryrequest()
             return True
         else:
@@ -24321,19 +24330,24 @@ class Resource:
                     result.append("    " + pad(c.name(), 20) + " quantity=" + str(c._claims[self]))
         return return_or_print(result, as_str, file)
 
+    def _is_blocked(self, component):
+        # checks whether honor_only_first or honor_only_highest_priority prohibits to honor the request of component
+        mx_first = self._requesters._head.successor
+        mx = component._member(self._requesters)
+        if self._honor_only_first and mx != mx_first:
+            return True
+        return self._honor_only_highest_priority and mx.priority != mx_first.priority
+
     def _tryrequest(self):
         # this is Resource._tryrequest
-        if self._anonymous:
+        if self._anonymous or self._honor_only_first or self._honor_only_highest_priority:
             if not self._trying:
                 self._trying = True
-                mx = mx_first = self._requesters._head.successor
-                mx_first_priority = mx_first.priority
+                mx = self._requesters._head.successor
                 while mx != self._requesters._tail:
-                    if self._honor_only_first and mx != mx_first:
-                        break
-                    if self._honor_only_highest_priority and mx.priority != mx_first_priority:
-                        break
                     c = mx.component
+                    if self._is_blocked(c):
+                        break
                     mx = mx.successor
                     c._tryrequest()
                     if c not in self._requesters:
@@ -24341,19 +24355,16 @@ class Resource:
 
                 self._trying = False
         else:
-            mx = mx_first = self._requesters._head.successor
-            mx_first_priority = mx_first.priority
+            mx = self._requesters._head.successor
 
             while mx != self._requesters._tail:
-                if self._honor_only_first and mx != mx_first:
-                    break
-                if self._honor_only_highest_priority and mx.priority != mx_first_priority:
-                    break
                 if self._minq > (self._capacity - self._claimed_quantity + 1e-8):
                     break  # inpossible to honor any more requests
                 c = mx.component
                 mx = mx.successor
                 c._tryrequest()
+                if mx.component is None and mx != self._requesters._tail:
+                    mx = self._requesters._head.successor  # next one left the queue as well, so start again
 
     def release(self, quantity: float = None) -> None:
         """
-- 
2.43.0


From b5e969893764d40734dbf59f2444074e870cd173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:55 +0000
Subject: [PATCH 015/113] fix: yieldless: requests that become possible by an
 honored get/put are honored at once, not only after the component continues

---
 salabim/salabim.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 80fc413..75d2ea0 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7465,7 +7465,7 @@ by adding at the end:
                 seq = self.env._seq
             self._on_event_list = True
             heapq.heappush(self.env._event_list, (t, priority, seq, self, return_value))
-        if self.env._yieldless:
+        if switch and self.env._yieldless:
             if self is self.env._current_component:
                 self.env._glet.switch()
 
@@ -7526,7 +7526,7 @@ by adding at the end:
         for r in retry_resources:
             r._tryrequest()
 
-    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None):
+    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None, switch=True):
         if scheduled_time < self.env._now:
             if cap_now is None:
                 cap_now = g._default_cap_now
@@ -7553,7 +7553,7 @@ by adding at the end:
                 merge_blanks(scheduled_time_str + _prioritytxt(priority) + _urgenttxt(urgent) + lineno, self._modetxt(), extra),
                 s0=s0,
             )
-        self._push(scheduled_time, priority, urgent, return_value)
+        self._push(scheduled_time, priority, urgent, return_value, switch)
 
     def activate(
         self,
@@ -8802,9 +8802,12 @@ by adding:
             self._remove()
             honoredstr = r_honor[0].name() + (len(r_honor) > 1) * " ++"
             self.status._value = scheduled
-            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
+            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0, switch=False)
             for r in retry_resources:
                 r._tryrequest()
+            if self.env._yieldless:
+                if self is self.env._current_component:
+                    self.env._glet.switch()
             return True
         else:
             return False
-- 
2.43.0


From cf77e894fa6dbf6d2d935b5cbfc4906a496139e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:21 +0000
Subject: [PATCH 016/113] fix: occupancy of a resource takes the
 initial_claimed_quantity into account

---
 salabim/salabim.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 75d2ea0..644d94b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24067,7 +24067,14 @@ class Resource:
             "Available quantity of " + self.name(), level=True, initial_tally=capacity - initial_claimed_quantity, monitor=monitor, type="float", env=self.env
         )
 
-        self.occupancy = _SystemMonitor("Occupancy of " + self.name(), level=True, initial_tally=0, monitor=monitor, type="float", env=self.env)
+        self.occupancy = _SystemMonitor(
+            "Occupancy of " + self.name(),
+            level=True,
+            initial_tally=0 if capacity <= 0 else initial_claimed_quantity / capacity,
+            monitor=monitor,
+            type="float",
+            env=self.env,
+        )
         if self.env._trace:
             self.env.print_trace("", "", self.name() + " create", "capacity=" + str(self._capacity) + (" anonymous" if self._anonymous else ""))
         self.setup(**kwargs)
-- 
2.43.0


From bce2b2a8b8891069ee3e286eb144a1fa7ab529a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:21 +0000
Subject: [PATCH 017/113] fix: a preemptive request bumps no more claimers than
 required

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 644d94b..70edc1e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8661,7 +8661,7 @@ by adding:
                         break
                     if priority >= c.priority(this_claimers):
                         break
-                    av += c.claimed_quantity(this_claimers)
+                    av += c.claimed_quantity(r)
                     bump_candidates.append(c)
                 if av >= q:
                     for c in bump_candidates:
-- 
2.43.0


From 45d5ca843257ccd55d5fdb2d8bed6834d22130fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:21 +0000
Subject: [PATCH 018/113] fix: Resource.release() does not take away the claims
 of components that are honored by the release itself

---
 salabim/salabim.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 70edc1e..ecc3697 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24413,10 +24413,7 @@ class Resource:
             if quantity is not None:
                 raise ValueError("no quantity allowed for non-anonymous resource")
 
-            mx = self._claimers._head.successor
-            while mx != self._claimers._tail:
-                c = mx.component
-                mx = mx.successor
+            for c in list(self._claimers):  # components that are honored by these releases should keep their claim
                 c.release(self)
 
     def requesters(self) -> Queue:
-- 
2.43.0


From 713a029b2946b147833225fa185800ee5248ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:16 +0000
Subject: [PATCH 019/113] fix: nobody else is honored half way bumping several
 claimers

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ecc3697..14ebe82 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8663,11 +8663,13 @@ by adding:
                         break
                     av += c.claimed_quantity(r)
                     bump_candidates.append(c)
-                if av >= q:
+                if av >= q and bump_candidates:
+                    r._trying = True  # no other requests should be honored in between
                     for c in bump_candidates:
                         c._release(r, bumped_by=self)
                         c.activate()
-                        bumped_resources = [r]
+                    r._trying = False
+                    bumped_resources = [r]
         for r, q in self._requests.items():
             if q < r._minq:
                 r._minq = q
-- 
2.43.0


From b10010d881952e427e107dca062c6f848bfae6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:35 +0000
Subject: [PATCH 020/113] fix: wait() with a $-expression works for any kind of
 value, also if any of several states is waited for

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 14ebe82..84ff8e5 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9283,7 +9283,7 @@ by adding:
                             honored = True
                             break
                     elif valuetype == 1:
-                        if eval(value.replace("$", str(state._value))):
+                        if eval(value.replace("$", "state._value")):
                             honored = True
                             break
                     elif valuetype == 2:
-- 
2.43.0


From 2ed41e6b70ac3edd0ecbf23146e15f8a97328969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:35 +0000
Subject: [PATCH 021/113] fix: wait_for() uses request_priority for the waiters
 queue, not the priority of the fail event

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 84ff8e5..f487f34 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9008,10 +9008,10 @@ by adding:
         self._cond = cond  # add test ***
         for state in states:
             self._waits.append((state, None, None))
-            if priority is None:
+            if request_priority is None:
                 self.enter(state._waiters)
             else:
-                self.enter_sorted(state._waiters, priority)
+                self.enter_sorted(state._waiters, request_priority)
 
         if not self._waits:
             raise TypeError("no states specified")
-- 
2.43.0


From 75a7775d17ebe46f1fcfbf20387b805c3e8a4bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:35 +0000
Subject: [PATCH 022/113] fix: State.trigger(max=0) honors no components

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f487f34..b662513 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23815,12 +23815,12 @@ class State:
     def _trywait(self, max=inf):  # this _trywait of a state
         mx = self._waiters._head.successor
         while mx != self._waiters._tail:
+            if max <= 0:
+                return
             c = mx.component
             mx = mx.successor
             if c._trywait():
                 max -= 1
-                if max == 0:
-                    return
 
     def monitor(self, value: bool = None) -> None:
         """
-- 
2.43.0


From dee707cf8d0980ddfcd32f96fe58350d44233986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:29 +0000
Subject: [PATCH 023/113] fix: Store.rescan() hands over just one item to a
 from_store requester

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b662513..2c5bd47 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5788,6 +5788,7 @@ class Store(Queue):
                     c._remove()
                     c.status._value = scheduled
                     c._reschedule(c.env._now, 0, False, f"from_store ({self.name()}) honor with {item.name()}", False, s0=c.env.last_s0, return_value=item)
+                    break
 
     def _rescan_to(self):
         """
-- 
2.43.0


From bd79370d0e03030e6ef516e7ee1bd6abe677ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:29 +0000
Subject: [PATCH 024/113] fix: from_store() of several stores with a key takes
 the item from the store it is in

---
 salabim/salabim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2c5bd47..f410d8f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8234,6 +8234,7 @@ by adding:
 
         found_c = None
         found_key = None
+        found_store = None
         done = False
         for store in from_stores:
             for c in store:
@@ -8243,13 +8244,16 @@ by adding:
                         if found_key is None or this_key < found_key:
                             found_c = c
                             found_key = this_key
+                            found_store = store
                     else:
                         found_c = c
+                        found_store = store
                         done = True
                         break
             if done:
                 break
         if found_c:
+            store = found_store
             found_c.leave(store)
             self._from_store_item = found_c
             self._from_store_store = store
-- 
2.43.0


From 3a92516018aaf0372d79bc636ac9ec1e14c29347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:29 +0000
Subject: [PATCH 025/113] fix: an item is never handed over twice if a to_store
 request enables a from_store request or vice versa

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f410d8f..1bd3bae 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4247,10 +4247,10 @@ class Qmember:
             store = q
             for requester in store._from_store_requesters:
                 if requester._from_store_filter(c):
-                    c.leave(store)
                     for store0 in requester._from_stores:
                         requester.leave(store0._from_store_requesters)
                     requester._from_stores = []
+                    c.leave(store)  # this might cause a to_store requester to be honored
                     requester._from_store_item = c
                     requester._from_store_store = store
                     requester._remove()
@@ -9810,11 +9810,11 @@ by adding:
             if available_quantity > 0:
                 if len(store._to_store_requesters) > 0:
                     requester = store._to_store_requesters[0]
-                    with self.env.suppress_trace():
-                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
                     for store0 in requester._to_stores:
                         requester.leave(store0._to_store_requesters)
                     requester._to_stores = []
+                    with self.env.suppress_trace():
+                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)  # this might cause a from_store requester to be honored
                     requester._remove()
                     requester.status._value = scheduled
                     requester._reschedule(requester.env._now, 0, False, f"to_store ({store.name()}) honor ", False, s0=requester.env.last_s0)
-- 
2.43.0


From 0871a3853cda3be71e07162fdb6c85d835b2307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:22 +0000
Subject: [PATCH 026/113] fix: a process with yields still gets the
 from_store() item if it is rescheduled or interrupted before it continues

---
 salabim/salabim.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1bd3bae..9089fe6 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7221,6 +7221,7 @@ by adding at the end:
         self.setup(**kwargs)
 
     overridden_lineno = None
+    _return_value = None  # from_store result that still has to be returned to the process
 
     def animation_objects(self, id: Any, screen_coordinates: bool = True) -> Tuple:
         """
@@ -7536,6 +7537,10 @@ by adding at the end:
             else:
                 raise ValueError(f"scheduled time ({scheduled_time:0.3f}) before now ({self.env._now:0.3f})")
         self._scheduled_time = scheduled_time
+        if return_value is None:
+            return_value = self._return_value
+        else:
+            self._return_value = return_value
         if self.env._trace:
             if extra == "*":
                 scheduled_time_str = "ends on no events left  "
@@ -7704,6 +7709,7 @@ by adding:
                 self._process_kwargs = kwargs
 
             extra = "process=" + process_name
+            self._return_value = None
             if self.env._yieldless:
                 self._glet = greenlet.greenlet(lambda: self._process(**kwargs), parent=self.env._glet)
 
@@ -8228,6 +8234,7 @@ by adding:
         self.set_mode(mode)
 
         self._failed = False
+        self._return_value = None
 
         if self.env._trace:
             self.env.print_trace("", "", self.name(), f"from_store ({', '.join(store._name for store in from_stores)})")
@@ -11198,7 +11205,9 @@ class Environment:
                             return
                         else:
                             try:
-                                next(c._process)
+                                return_value = c._return_value
+                                c._return_value = None
+                                c._process.send(return_value)
                                 return
                             except TypeError:
                                 c._process(**c._process_kwargs)
@@ -11253,6 +11262,7 @@ class Environment:
                 if c._process_isgenerator:
                     try:
                         try:
+                            c._return_value = None
                             c._process.send(return_value)
                         except TypeError as e:
                             if "just-started" in str(e):  # only do this for just started generators
-- 
2.43.0


From 4909bdbb6b7ec9feb02bd38251d37b3e220c4a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:32 +0000
Subject: [PATCH 027/113] fix: statistics read at the moment a level monitor is
 switched off are no longer taken from the cache

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9089fe6..040076e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1330,6 +1330,7 @@ class Monitor:
     def _tally_off(self):
         if self.isgenerated:
             raise TypeError("sliced, merged or frozen monitors cannot be reset")
+        self.cached_xweight.clear()  # invalidate cache
         t = self.env._now
         if self._t[-1] == t:
             self._x[-1] = self.off
-- 
2.43.0


From ce0510df5c4639f08570c984357b1c60a5049653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:52 +0000
Subject: [PATCH 028/113] fix: values without any weight or duration do not
 influence percentiles

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 040076e..142c7f3 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1917,7 +1917,7 @@ class Monitor:
         if not sum_weight:
             return nan
 
-        x_sorted, weight_sorted = zip(*sorted(zip(x, weight), key=lambda v: v[0]))
+        x_sorted, weight_sorted = zip(*sorted(((vx, vweight) for vx, vweight in zip(x, weight) if vweight), key=lambda v: v[0]))
         n = len(x_sorted)
 
         if self._weight:
-- 
2.43.0


From 635c7177d4923d7a8c2bbd2f46eece19d8b76520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:11 +0000
Subject: [PATCH 029/113] fix: duration, minimum and maximum of stats_only
 level monitors take the period up to now into account

---
 salabim/salabim.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 142c7f3..a719805 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1327,6 +1327,15 @@ class Monitor:
         self.tally(self._tally)
         self._ttally = save_ttally
 
+    def _stats_only_bounds(self, ex0):
+        # lowest and highest value, including the current value of a level monitor
+        result = []
+        if self.n[ex0]:
+            result += [self._minimum[ex0], self._maximum[ex0]]
+        if self._level and self._monitor:
+            result += [x for x in do_force_numeric([self._tally]) if x or not ex0]
+        return result
+
     def _tally_off(self):
         if self.isgenerated:
             raise TypeError("sliced, merged or frozen monitors cannot be reset")
@@ -1756,10 +1765,7 @@ class Monitor:
         """
         if self._stats_only:
             ex0 = bool(ex0)
-            if self.n[ex0]:
-                return self._minimum[ex0]
-            else:
-                return nan
+            return min(self._stats_only_bounds(ex0), default=nan)
         else:
             x = self._xweight(ex0=ex0)[0]
             if x:
@@ -1782,10 +1788,8 @@ class Monitor:
         """
 
         if self._stats_only:
-            if self.n[ex0]:
-                return self._maximum[ex0]
-            else:
-                return nan
+            ex0 = bool(ex0)
+            return max(self._stats_only_bounds(ex0), default=nan)
         else:
             x = self._xweight(ex0=ex0)[0]
             if x:
@@ -2225,6 +2229,8 @@ class Monitor:
     def sys_weight(self, ex0: bool = False):
         if self._stats_only:
             ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             return self.sumw[ex0]
         else:
             _, weight = self._xweight(ex0=ex0)
-- 
2.43.0


From b8a2989f7ebcc0febff7cb4eb43efd071fe0fab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:11 +0000
Subject: [PATCH 030/113] fix: a value tallied with weight 0 is counted as an
 entry by stats_only monitors as well

---
 salabim/salabim.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index a719805..782719c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1269,7 +1269,7 @@ class Monitor:
             else:
                 value_num = value
 
-            if self._monitor and weight != 0:
+            if self._monitor and (weight != 0 or not self._level):
                 if not isinstance(value_num, numbers.Number):
                     try:
                         if int(value_num) == float(value_num):
@@ -1282,10 +1282,11 @@ class Monitor:
                 for ex0 in [False, True] if value_num else [False]:
                     self.n[ex0] += 1
                     # algorithm based on https://fanf2.user.srcf.net/hermes/doc/antiforgery/stats.pdf
-                    self.sumw[ex0] += weight
-                    mun1 = self.mun[ex0]
-                    self.mun[ex0] = mun1 + (weight / self.sumw[ex0]) * (value_num - mun1)
-                    self.sn[ex0] = self.sn[ex0] + weight * (value_num - mun1) * (value_num - self.mun[ex0])
+                    if weight != 0:
+                        self.sumw[ex0] += weight
+                        mun1 = self.mun[ex0]
+                        self.mun[ex0] = mun1 + (weight / self.sumw[ex0]) * (value_num - mun1)
+                        self.sn[ex0] = self.sn[ex0] + weight * (value_num - mun1) * (value_num - self.mun[ex0])
                     self._minimum[ex0] = min(self._minimum[ex0], value_num)
                     self._maximum[ex0] = max(self._maximum[ex0], value_num)
                 if weight != 1:
-- 
2.43.0


From 49a35a0bf20b2c6317234059219a72f4cd0be2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:11 +0000
Subject: [PATCH 031/113] fix: x_map() and t_multiply() are refused for
 stats_only monitors

---
 salabim/salabim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 782719c..887ff48 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -641,6 +641,7 @@ class Monitor:
         if name is None:
             name = "mapped"
 
+        self._block_stats_only()
         if not self._level:
             raise TypeError("t_multiply can't be applied to non level monitors")
 
@@ -692,6 +693,8 @@ class Monitor:
             monitors = [self] + monitors
         else:
             monitors = [self]
+        for m in monitors:
+            m._block_stats_only()
         if not all(m._level == self._level for m in monitors):
             raise TypeError("not possible to mix level and non level monitors")
         if not all(m.env == self.env for m in monitors):
-- 
2.43.0


From ce4d75cd2eee21babac350f9114f51cce10e6d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:18 +0000
Subject: [PATCH 032/113] fix: percentile(interpolation='higher' or 'midpoint')
 exactly at a data point is that data point

---
 salabim/salabim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 887ff48..7b071e9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1955,6 +1955,9 @@ class Monitor:
                 if weight_cum[k + 1] > q:
                     break
 
+            if weight_cum[k] == q:  # exactly at a data point, so no interpolation at all
+                return x_sorted[k]
+
             if interpolation == "linear":
                 return interpolate(q, weight_cum[k], weight_cum[k + 1], x_sorted[k], x_sorted[k + 1])
             if interpolation == "lower":
-- 
2.43.0


From 566cb688d35e111f6191d2958801ce25763131e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:18 +0000
Subject: [PATCH 033/113] fix: print_histogram(ex0=True) does not count zeroes
 in the bins

---
 salabim/salabim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7b071e9..dff50bf 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2051,8 +2051,8 @@ class Monitor:
             raise TypeError("bin_duration not available for non level monitors")
         return self.sys_bin_weight(lowerbound, upperbound)
 
-    def sys_bin_weight(self, lowerbound, upperbound):
-        x, weight = self._xweight()
+    def sys_bin_weight(self, lowerbound, upperbound, ex0=False):
+        x, weight = self._xweight(ex0=ex0)
         return sum((vweight for vx, vweight in zip(x, weight) if (vx > lowerbound) and (vx <= upperbound)))
 
     def value_number_of_entries(self, value: Any) -> int:
@@ -2647,7 +2647,7 @@ class Monitor:
                 auto_scale = False
 
             if auto_scale:
-                bin_width, lowerbound, number_of_bins = self.histogram_autoscale()
+                bin_width, lowerbound, number_of_bins = self.histogram_autoscale(ex0=ex0)
             result.append(self.print_statistics(show_header=False, show_legend=True, do_indent=False, as_str=True))
             if not self._stats_only and number_of_bins >= 0:
                 result.append("")
@@ -2667,9 +2667,9 @@ class Monitor:
                     else:
                         ub = lowerbound + (i + 1) * bin_width
                     if self._weight:
-                        count = self.sys_bin_weight(lb, ub)
+                        count = self.sys_bin_weight(lb, ub, ex0=ex0)
                     else:
-                        count = self.bin_number_of_entries(lb, ub)
+                        count = self.bin_number_of_entries(lb, ub, ex0=ex0)
 
                     perc = count / (weight_total if weight_total else 1)
                     if weight_total == inf:
-- 
2.43.0


From 899c706d671635bb6c8af2e937beaa8c2307dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:52 +0000
Subject: [PATCH 034/113] fix: print_histogram(values=..., ex0=True) excludes
 zeroes that are explicitly given in values and copes with nothing but zeroes

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index dff50bf..caa5778 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2604,6 +2604,8 @@ class Monitor:
                 values_label.append("<rest>")
 
             for value_condition, value_label in zip(values_condition, values_label):
+                if ex0:
+                    value_condition = [v for v in value_condition if v != 0]
                 if self._level:
                     count = self.value_duration(value_condition)
                 else:
@@ -2627,7 +2629,7 @@ class Monitor:
                             + fn(count, 14, 3)
                             + fn(perc * 100, 6, 1)
                             + rpad(str(count_entries), 8)
-                            + fn(count_entries * 100 / nentries, 6, 1)
+                            + fn(count_entries * 100 / (nentries if nentries else 1), 6, 1)
                         )
                     else:
                         result.append(pad(str(value_label), 20) + rpad(str(count), 7) + fn(perc * 100, 6, 1) + " " + s)
-- 
2.43.0


From b3b647813fc1d1b825d9d7385ca76d5e23967325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:25 +0000
Subject: [PATCH 035/113] fix: Monitor.slice() without start, after reset_now
 and with a stop beyond now gives exactly the required period

---
 salabim/salabim.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index caa5778..901608c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -832,16 +832,15 @@ class Monitor:
             start_ = max(start_, self.start)
             if stop is None:
                 stop = inf
-                stop_action = "z"  # inclusive
             else:
                 stop += self.env._offset
-                stop_action = "b"  # non inclusive
-            if self.env._animate:
-                stop = min(stop, self.env._t)
-            else:
-                stop = min(stop, self.env._now - self.env._offset)  # not self.now() in order to support frozen monitors
-            actions.append((start, "a", 0, 0))
-            actions.append((stop, stop_action, 0, 0))
+            t_now = self.env._t if self.env._animate else self.env._now  # not self.now() in order to support frozen monitors
+            if start_ <= t_now:
+                actions.append((start_, "a", 0, 0))
+                if stop > t_now:
+                    actions.append((t_now, "z", 0, 0))  # inclusive
+                else:
+                    actions.append((max(start_, stop), "b", 0, 0))  # non inclusive
         else:
             if start is None:
                 raise TypeError("modulo specified, but no start specified. ")
-- 
2.43.0


From 09ce8c75a34161f99bfb6c7bae4d98918d56d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:25 +0000
Subject: [PATCH 036/113] fix: Monitor.slice() with modulo: first period, last
 period up to now, reset_now and empty monitors

---
 salabim/salabim.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 901608c..2812601 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -852,11 +852,15 @@ class Monitor:
                 raise ValueError("stop must be < start + modulo")
             start_ = start % modulo
             stop = stop % modulo
-            start1 = self._t[0] - (self._t[0] % modulo) + start_
+            t0 = self.start - self.env._offset
+            start1 = t0 - (t0 % modulo) + start_ + self.env._offset - modulo  # the period before might not have ended yet
             len1 = (stop - start_) % modulo
-            while start1 < self.env._now:
+            while start1 <= self.env._now:
                 actions.append((start1, "a", 0, 0))
-                actions.append((start1 + len1, "b", 0, 0))  # non inclusive
+                if start1 + len1 > self.env._now:
+                    actions.append((self.env._now, "z", 0, 0))  # inclusive
+                else:
+                    actions.append((start1 + len1, "b", 0, 0))  # non inclusive
                 start1 += modulo
 
         if new._level:
-- 
2.43.0


From 58f73213b49f526d1f5400dd3d5f7052a9cbec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:25 +0000
Subject: [PATCH 037/113] fix: Monitor.multiply() keeps the weights

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2812601..375d82a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1618,6 +1618,7 @@ class Monitor:
             new.isgenerated = True
             new._x = [x * scale for x in self._x]
             new._t = [t for t in self._t]
+            new._weight = self._weight[:] if self._weight else False
             return new
 
         else:
-- 
2.43.0


From 039b803cccb2d6a7cd25d7d337f26c96b5521963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:25 +0000
Subject: [PATCH 038/113] fix: Monitor.x_map() keeps the weights, maps every
 value of non level monitors and accepts a monitor more than once

---
 salabim/salabim.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 375d82a..49d161a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -702,17 +702,14 @@ class Monitor:
 
         new = _SystemMonitor(name=name, type="any", level=self._level, env=self.env)
 
-        for m in monitors:
-            m._x_any = []
-            for x in m._x:
-                m._x_any.append(new.off if x == m.off else x)
+        x_any = [[new.off if (m._level and x == m.off) else x for x in m._x] for m in monitors]
 
         if new._level:
             new._x = []
 
             curx = [new.off] * len(monitors)
             new._t = array.array("d")
-            for t, index, x in heapq.merge(*[zip(monitors[index]._t, itertools.repeat(index), monitors[index]._x_any) for index in range(len(monitors))]):
+            for t, index, x in heapq.merge(*[zip(monitors[index]._t, itertools.repeat(index), x_any[index]) for index in range(len(monitors))]):
                 curx[index] = x
 
                 if any(val == new.off for val in curx):
@@ -730,15 +727,10 @@ class Monitor:
             new._x = []
             new._t = array.array("d")
 
-            for x, t in zip(monitors[0]._x_any, monitors[0]._t):
-                if x == new.off:
-                    new._x.append(new.off)
-                else:
-                    new._x.append(func(x))
+            for x, t in zip(x_any[0], monitors[0]._t):
+                new._x.append(func(x))
                 new._t.append(t)
-
-        for m in monitors:
-            del m._x_any
+            new._weight = self._weight[:] if self._weight else False
 
         new.monitor(False)
         new.isgenerated = True
-- 
2.43.0


From cefee493de9fe1e8d6fb246014a6c096c3d56be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:25 +0000
Subject: [PATCH 039/113] fix: merging level monitors of different types does
 not count periods in which one of them is off

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 49d161a..883beb7 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -594,7 +594,9 @@ class Monitor:
             curx = [new.off] * len(merge)
             new._t = array.array("d")
             for t, index, x in heapq.merge(*[zip(merge[index]._t, itertools.repeat(index), merge[index]._x) for index in range(len(merge))]):
-                if new.xtypecode:
+                if x == merge[index].off:
+                    curx[index] = new.off
+                elif new.xtypecode:
                     curx[index] = x
                 else:
                     try:
-- 
2.43.0


From bb27e50c5a28b154314ba0e8f188eaa345e53427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:25 +0000
Subject: [PATCH 040/113] fix: Monitor.t_multiply() does not lose a value if a
 multiplied time happens to be now

---
 salabim/salabim.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 883beb7..94977bf 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -659,8 +659,12 @@ class Monitor:
             new._t.append(t * factor)
 
         new.start = self.start * factor
-        new.monitor(False)
-        new._t[-1] = new._t[-1] * factor
+        new._monitor = False
+        if new._t[-1] == self.env._now * factor:
+            new._x[-1] = new.off
+        else:
+            new._x.append(new.off)
+            new._t.append(self.env._now * factor)
         new.isgenerated = True
         return new
 
-- 
2.43.0


From 0ab1611a4653be4156b2113cac33bbbf57e9be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:25 +0000
Subject: [PATCH 041/113] fix: Monitor.freeze() of capacity, mode and state
 value monitors does not try to copy the complete model

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 94977bf..69a6c80 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -771,7 +771,8 @@ class Monitor:
         self._block_stats_only()
         self_env = self.env
         self.env = Environment(to_freeze=True, name=self.env.name() + ".copy.", time_unit=self.env.get_time_unit())
-        m = copy.deepcopy(self)
+        parent = getattr(self, "parent", None)
+        m = copy.deepcopy(self, {id(parent): None})
         self.env = self_env
         m.isgenerated = True
         m._name = self.name() + ".frozen" if name is None else name
-- 
2.43.0


From 38e14487cb9cdc0745d660b37e009695a6879dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:26 +0000
Subject: [PATCH 042/113] fix: as_resampled_dataframe() shows NA if an extra
 monitor of another type is off

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 69a6c80..dd04848 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3343,7 +3343,7 @@ class Monitor:
                         x_next, t_next = next(xt_iter)
                     except StopIteration:
                         t_next = inf
-                new_x.append(pd.NA if x_last == self.off else x_last)
+                new_x.append(pd.NA if x_last == mon.off else x_last)
             df[f"{mon.name()}.x"] = new_x
         return df
 
-- 
2.43.0


From 3629c1e6c4a38181045cbeb0897e4d228f9f2f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:26 +0000
Subject: [PATCH 043/113] fix: as_dataframe() with datetimes and
 as_resampled_dataframe() show the right times after reset_now

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index dd04848..0ee642d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3226,7 +3226,7 @@ class Monitor:
         xs, ts = self.xt(ex0=ex0, exoff=exoff, force_numeric=force_numeric, add_now=add_now)
         if include_t:
             if use_datetime0:
-                df = pd.DataFrame({"t": [self.env.t_to_datetime(t) for t in ts]})
+                df = pd.DataFrame({"t": [self.env.t_to_datetime(t - self.env._offset) for t in ts]})
             else:
                 df = pd.DataFrame({"t": ts})
         else:
@@ -3321,9 +3321,9 @@ class Monitor:
                 max_t = self.env.datetime_to_t(max_t)
             max_t += self.env._offset
         if use_datetime0:
-            df = pd.DataFrame({"t": [self.env.t_to_datetime(t) for t in self.env.arange(min_t, max_t, delta_t)]})
+            df = pd.DataFrame({"t": [self.env.t_to_datetime(t - self.env._offset) for t in self.env.arange(min_t, max_t, delta_t)]})
         else:
-            df = pd.DataFrame({"t": self.env.arange(min_t, max_t, delta_t)})
+            df = pd.DataFrame({"t": [t - self.env._offset for t in self.env.arange(min_t, max_t, delta_t)]})
 
         for mon in [self] + extra_monitors:
             if not mon._level:
-- 
2.43.0


From 9fe35017f6fb5fc9ea6caea3f4c1fe3e1a0d6783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:50 +0000
Subject: [PATCH 044/113] fix: the value of a frozen monitor of a state is that
 at the time of freezing

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0ee642d..4ff71e5 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3406,7 +3406,7 @@ class _StateMonitor(Monitor):
 
     @property
     def value(self) -> Any:
-        return self.parent.get()
+        return self._tally
 
     @value.setter
     def value(self, value: Any) -> None:
-- 
2.43.0


From 19b229c3aec56652c3b41de4b70f8e51b6499b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:21 +0000
Subject: [PATCH 045/113] fix: get() of merged, mapped and sliced level
 monitors gives the current value (or off) instead of 0

---
 salabim/salabim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4ff71e5..553c4a4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -617,6 +617,7 @@ class Monitor:
                     new._t.append(t)
                     new._x.append(sum)
             new.start = new._t[0]
+            new._tally = new._x[-1]
         else:
             for t, _, x, weight in heapq.merge(
                 *[
@@ -665,6 +666,7 @@ class Monitor:
         else:
             new._x.append(new.off)
             new._t.append(self.env._now * factor)
+        new._tally = new._x[bisect.bisect_right(new._t, self.env._now) - 1]
         new.isgenerated = True
         return new
 
@@ -729,6 +731,7 @@ class Monitor:
                     new._t.append(t)
                     new._x.append(result)
             new.start = new._t[0]
+            new._tally = new._x[-1]
         else:
             new._x = []
             new._t = array.array("d")
@@ -871,6 +874,7 @@ class Monitor:
             curx = new.off
             new._t.append(self.start)
             new._x.append(curx)
+            new._tally = new.off
 
         enabled = False
         if self.env._animate:
-- 
2.43.0


From b66aee8142fd8c91e19ab23008069148888dae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:07 +0000
Subject: [PATCH 046/113] fix: the value monitor of a state with initial value
 None starts with None instead of 0

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 553c4a4..63d63f3 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23606,6 +23606,8 @@ class State:
             self._waiters = Queue(name="waiters of " + self.name(), monitor=monitor, env=self.env)
             self._waiters._isinternal = True
         self.value = _StateMonitor(parent=self, name="Value of " + self.name(), level=True, initial_tally=value, monitor=monitor, type=type, env=self.env)
+        if value is None:
+            self.value.tally(value)  # an initial_tally of None would be interpreted as 0
         if self.env._trace:
             self.env.print_trace("", "", self.name() + " create", "value = " + repr(self._value))
         self.setup(**kwargs)
-- 
2.43.0


From 24d19f6e6d66fb37b728ce832c60bd94beaaab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:33 +0000
Subject: [PATCH 047/113] fix: derived monitors start when the monitor(s) they
 are derived from started

---
 salabim/salabim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 63d63f3..2335973 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -636,6 +636,7 @@ class Monitor:
                     new._weight.append(weight)
                 new._t.append(t)
                 new._x.append(x)
+            new.start = min(m.start for m in merge)
         new.monitor(False)
         new.isgenerated = True
         return new
@@ -740,6 +741,7 @@ class Monitor:
                 new._x.append(func(x))
                 new._t.append(t)
             new._weight = self._weight[:] if self._weight else False
+            new.start = self.start
 
         new.monitor(False)
         new.isgenerated = True
@@ -951,6 +953,7 @@ class Monitor:
                             new._weight.append(weight)
                         new._t.append(t)
                         new._x.append(x)
+        new.start = self.start
         new.monitor(False)
         new.isgenerated = True
         return new
@@ -1622,6 +1625,7 @@ class Monitor:
             new._x = [x * scale for x in self._x]
             new._t = [t for t in self._t]
             new._weight = self._weight[:] if self._weight else False
+            new.start = self.start
             return new
 
         else:
-- 
2.43.0


From 183a602c5f0618af9f85c5c6adf594b8c6fc701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:57 +0000
Subject: [PATCH 048/113] fix: a slice of a level monitor that starts or ends
 while the monitor is off does not extend the value before

---
 salabim/salabim.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2335973..1bee944 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -910,9 +910,7 @@ class Monitor:
                     if new._t[-1] == t:
                         new._x[-1] = curx
                     else:
-                        if new._x[-1] == curx:
-                            new._t[-1] = t
-                        else:
+                        if new._x[-1] != curx:
                             new._t.append(t)
                             new._x.append(curx)
                 elif type in ("b", "z"):
@@ -920,9 +918,7 @@ class Monitor:
                     if new._t[-1] == t:
                         new._x[-1] = self.off
                     else:
-                        if new._x[-1] == self.off:
-                            new._t[-1] = t
-                        else:
+                        if new._x[-1] != self.off:
                             new._t.append(t)
                             new._x.append(self.off)
                 else:
@@ -931,9 +927,7 @@ class Monitor:
                             if new._t[-1] == t:
                                 new._x[-1] = x
                             else:
-                                if x == new._x[-1]:
-                                    new._t[-1] = t
-                                else:
+                                if x != new._x[-1]:
                                     new._t.append(t)
                                     new._x.append(x)
                     curx = x
-- 
2.43.0


From 39cfec7039d3d12223abd88a61ae5af7afacbc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:21 +0000
Subject: [PATCH 049/113] fix: ComponentGenerator times are right after
 reset_now

---
 salabim/salabim.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1bee944..6c9ea80 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20532,7 +20532,7 @@ class ComponentGenerator(Component):
                 )
             if callable(moments):
                 moments = moments()
-            moments = sorted([env.spec_to_time(moment) for moment in moments])
+            moments = sorted([env.spec_to_time(moment) + env._offset for moment in moments])
 
         self.component_class = component_class
         self.iat = iat
@@ -20634,7 +20634,14 @@ class ComponentGenerator(Component):
                         process = "do_iat_yieldless" if env._yieldless else "do_iat"
         self.kwargs = kwargs
 
-        super().__init__(name=generator_name, env=env, process=process, at=at, suppress_trace=suppress_trace, suppress_pause_at_step=suppress_pause_at_step)
+        super().__init__(
+            name=generator_name,
+            env=env,
+            process=process,
+            at=None if at is None else at - env._offset,
+            suppress_trace=suppress_trace,
+            suppress_pause_at_step=suppress_pause_at_step,
+        )
 
     def do_spread(self):
         for interval in self.intervals:
@@ -20670,9 +20677,9 @@ class ComponentGenerator(Component):
             else:
                 t = self.env._now + self.iat
             if t > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset)
 
-            yield self.hold(till=t)
+            yield self.hold(till=t - self.env._offset)
 
     def do_iat_disturbance(self):
         n = 0
@@ -20694,19 +20701,19 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 return
             t = self.env._now + iat
 
-            yield self.hold(till=t)
+            yield self.hold(till=t - self.env._offset)
 
     def do_spread_yieldless(self):
         for interval in self.intervals:
@@ -20742,9 +20749,9 @@ class ComponentGenerator(Component):
             else:
                 t = self.env._now + self.iat
             if t > self.till:
-                self.activate(process="do_finalize", at=self.till)
+                self.activate(process="do_finalize", at=self.till - self.env._offset)
 
-            self.hold(till=t)
+            self.hold(till=t - self.env._offset)
 
     def do_iat_disturbance_yieldless(self):
         n = 0
@@ -20766,19 +20773,19 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                self.activate(process="do_finalize", at=self.till)
+                self.activate(process="do_finalize", at=self.till - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 return
             t = self.env._now + iat
 
-            self.hold(till=t)
+            self.hold(till=t - self.env._offset)
 
     def do_finalize(self):
         self.env.print_trace("", "", "till reached")
-- 
2.43.0


From 2d189008203e4364e77535213c5304859e0f73f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:21 +0000
Subject: [PATCH 050/113] fix: random spread ComponentGenerator with duration
 spreads over the duration

---
 salabim/salabim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6c9ea80..0b8baa9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20578,20 +20578,20 @@ class ComponentGenerator(Component):
         else:
             if (self.iat is None and not equidistant) or moments:
                 if not moments:
-                    if till == inf or self.number == inf:
+                    if self.till == inf or self.number == inf:
                         raise ValueError("iat not specified --> till and number need to be specified")
                     if disturbance is not None:
                         raise ValueError("iat not specified --> disturbance not allowed")
 
-                    moments = sorted([Uniform(at, till)() for _ in range(self.number)])
+                    moments = sorted([Uniform(at, self.till)() for _ in range(self.number)])
                     if force_at or force_till:
                         if number == 1:
                             if force_at and force_till:
                                 raise ValueError("force_at and force_till does not allow number=1")
-                            moments = [at] if force_at else [till]
+                            moments = [at] if force_at else [self.till]
                         else:
                             v_at = at if force_at else moments[0]
-                            v_till = till if force_till else moments[-1]
+                            v_till = self.till if force_till else moments[-1]
                             min_moment = moments[0]
                             max_moment = moments[-1]
                             moments = [interpolate(moment, min_moment, max_moment, v_at, v_till) for moment in moments]
-- 
2.43.0


From 8972530af456780d484675b5eb328971d8d9e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:21 +0000
Subject: [PATCH 051/113] fix: ComponentGenerator force_at/force_till with a
 sampled number of 1

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0b8baa9..9371141 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20585,7 +20585,7 @@ class ComponentGenerator(Component):
 
                     moments = sorted([Uniform(at, self.till)() for _ in range(self.number)])
                     if force_at or force_till:
-                        if number == 1:
+                        if self.number == 1:
                             if force_at and force_till:
                                 raise ValueError("force_at and force_till does not allow number=1")
                             moments = [at] if force_at else [self.till]
-- 
2.43.0


From 79b43e62b50acbbd82358f2b5ab3ce5d0c8fad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:21 +0000
Subject: [PATCH 052/113] fix: ComponentGenerator with disturbance calls at_end
 when number is reached

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9371141..0851ed3 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20710,6 +20710,7 @@ class ComponentGenerator(Component):
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
             t = self.env._now + iat
 
@@ -20782,6 +20783,7 @@ class ComponentGenerator(Component):
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
             t = self.env._now + iat
 
-- 
2.43.0


From 754e959eaab53a8e4a32634f9d0c86d9ba690639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:21 +0000
Subject: [PATCH 053/113] fix: equidistant ComponentGenerator with disturbance
 starts at the right moment

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0851ed3..5a615eb 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20603,6 +20603,7 @@ class ComponentGenerator(Component):
                 if equidistant:
                     force_till = False  # just to prevent errors further on
                     force_at = True  # just to prevent errors further on
+                    self.force_at = True  # used with disturbance
                     duration = self.till - at
                     if duration < 0:
                         raise ValueError("at > till not allowed for equidistant")
-- 
2.43.0


From d9d5367df90f681242076b48d55ea573e7773e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:21 +0000
Subject: [PATCH 054/113] fix: ComponentGenerator with negative disturbances
 might finalize in the past

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5a615eb..f01adc1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20702,7 +20702,7 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                yield self.activate(process="do_finalize", at=self.till - self.env._offset)
+                yield self.activate(process="do_finalize", at=max(self.till, self.env._now) - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
@@ -20775,7 +20775,7 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                self.activate(process="do_finalize", at=self.till - self.env._offset)
+                self.activate(process="do_finalize", at=max(self.till, self.env._now) - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
-- 
2.43.0


From 5b7b0704643ddc5d5f3f75e27f2fc02ce6e34c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:36 +0000
Subject: [PATCH 055/113] fix: ComponentGenerator without any arrivals in a
 yield model

---
 salabim/salabim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f01adc1..11a73b1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20627,7 +20627,7 @@ class ComponentGenerator(Component):
                             at += self.iat
                 if at > self.till:
                     at = self.till
-                    process = "do_finalize"
+                    process = "do_finalize" if env._yieldless else "do_finalize_yield"
                 else:
                     if self.disturbance:
                         process = "do_iat_disturbance_yieldless" if env._yieldless else "do_iat_disturbance"
@@ -20794,6 +20794,11 @@ class ComponentGenerator(Component):
         self.env.print_trace("", "", "till reached")
         self.at_end()
 
+    def do_finalize_yield(self):
+        self.do_finalize()
+        return
+        yield 1  # just to make it a generator
+
     def print_info(self, as_str: bool = False, file: TextIO = None) -> str:
         """
         prints information about the component generator
-- 
2.43.0


From 3982cd0a77c78ff1aeeded4f46f42e886cf4b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:28 +0000
Subject: [PATCH 056/113] fix: Constant.mean applied the time unit twice

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 11a73b1..4a19d7c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -21940,7 +21940,7 @@ class Constant(_Distribution):
         -------
         mean of the distribution (= the specified constant) : float
         """
-        return self._mean * self.time_unit_factor
+        return self._mean
 
 
 class Poisson(_Distribution):
-- 
2.43.0


From 7a1d5de95d0d99ae9d224b56f8732d41e20d6e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:28 +0000
Subject: [PATCH 057/113] fix: Erlang with a time unit

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4a19d7c..58e8624 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22475,7 +22475,7 @@ class Erlang(_Distribution):
         -------
         Sample of the distribution : float
         """
-        return self.randomstream.gammavariate(self._shape, 1 / self._rate) / self.time_unit_factor
+        return self.randomstream.gammavariate(self._shape, 1 / self._rate) * self.time_unit_factor
 
     def mean(self) -> float:
         """
@@ -22483,7 +22483,7 @@ class Erlang(_Distribution):
         -------
         Mean of the distribution : float
         """
-        return self._mean / self.time_unit_factor
+        return self._mean * self.time_unit_factor
 
 
 class Cdf(_Distribution):
-- 
2.43.0


From ce68d795f7a8da9e2940c421783ce81c0be145ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:28 +0000
Subject: [PATCH 058/113] fix: Pdf/CumPdf mean with distributions as x-values

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 58e8624..883e5aa 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22725,7 +22725,7 @@ class Pdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
@@ -23067,7 +23067,7 @@ class CumPdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
-- 
2.43.0


From 1f8c0031f4239ebc13282f6e54e94d745e913fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:28 +0000
Subject: [PATCH 059/113] fix: Pdf with equal probabilities samples a
 distribution used as x-value

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 883e5aa..e4461ee 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22790,7 +22790,8 @@ class Pdf(_Distribution):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                return x.sample() if isinstance(x, _Distribution) else x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
@@ -22932,7 +22933,8 @@ class Pmf(Pdf):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                return x.sample() if isinstance(x, _Distribution) else x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
-- 
2.43.0


From 639dba69f5f02c94e0518244bcd7178561614155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:29 +0000
Subject: [PATCH 060/113] fix: Pdf/CumPdf gave 0 (not an x-value) for a draw of
 exactly 0

---
 salabim/salabim.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e4461ee..3607f79 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22801,8 +22801,8 @@ class Pdf(_Distribution):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -22944,8 +22944,8 @@ class Pmf(Pdf):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -23118,8 +23118,8 @@ class CumPdf(_Distribution):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
@@ -23228,8 +23228,8 @@ class CumPmf(CumPdf):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
-- 
2.43.0


From 2b687e32664a1cb76fb31715ad0ad206c6ddc424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:29 +0000
Subject: [PATCH 061/113] fix: Distribution.mean did not take the time unit
 into account

---
 salabim/salabim.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3607f79..cce1096 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23510,10 +23510,7 @@ class Distribution(_Distribution):
             _checkrandomstream(randomstream)
             self.randomstream = randomstream
         self._distribution = d
-        try:
-            self._mean = d._mean
-        except AttributeError:
-            self._mean = nan
+        self._mean = d.mean()
 
     def __repr__(self):
         return self._distribution.__repr__()
-- 
2.43.0


From 73eccc6773abbc17326f14759b713f95f8771ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:29 +0000
Subject: [PATCH 062/113] fix: External.mean of a scipy distribution with
 positional arguments

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index cce1096..f3e84c5 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23305,7 +23305,7 @@ class External(_Distribution):
         self.register_time_unit(time_unit, env)
         self.samples = []
         if self.dis_is_scipy:
-            self._mean = self.dis.mean(**{k: v for k, v in self.kwargs.items() if k not in ("size", "random_state")})
+            self._mean = self.dis.mean(*self.args[: self.dis.numargs + 2], **{k: v for k, v in self.kwargs.items() if k not in ("size", "random_state")})
         else:
             self._mean = nan
 
-- 
2.43.0


From e55b6ebc710f3259902fc6572b2052a5c3045b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:57 +0000
Subject: [PATCH 063/113] fix: ComponentGenerator with disturbance creates the
 components in its own environment

---
 salabim/salabim.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f3e84c5..1687332 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20685,13 +20685,10 @@ class ComponentGenerator(Component):
     def do_iat_disturbance(self):
         n = 0
         while True:
-            save_default_env = g.default_env
-            g.default_env = self.env
             if callable(self.iat):
                 iat = self.iat()
             else:
                 iat = self.iat
-            g.default_env = save_default_env
 
             if callable(self.disturbance):
                 disturbance = self.disturbance()
@@ -20707,7 +20704,10 @@ class ComponentGenerator(Component):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
+            save_default_env = g.default_env
+            g.default_env = self.env
             component_class(at=at - self.env._offset, **self.kwargs)
+            g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
@@ -20758,13 +20758,10 @@ class ComponentGenerator(Component):
     def do_iat_disturbance_yieldless(self):
         n = 0
         while True:
-            save_default_env = g.default_env
-            g.default_env = self.env
             if callable(self.iat):
                 iat = self.iat()
             else:
                 iat = self.iat
-            g.default_env = save_default_env
 
             if callable(self.disturbance):
                 disturbance = self.disturbance()
@@ -20780,7 +20777,10 @@ class ComponentGenerator(Component):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
+            save_default_env = g.default_env
+            g.default_env = self.env
             component_class(at=at - self.env._offset, **self.kwargs)
+            g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
-- 
2.43.0


From 4cf82e16611b06a2b71017cb8372bd801788a8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:35 +0000
Subject: [PATCH 064/113] fix: Poisson with a large mean failed on a draw of
 exactly 0

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1687332..ecf0b5f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22013,7 +22013,8 @@ class Poisson(_Distribution):
         t = 0
         n = 0
         while True:
-            t += -math.log(self.randomstream.random()) / lam
+            u = self.randomstream.random()
+            t += inf if u == 0 else -math.log(u) / lam
             if t > 1:
                 break
             n += 1
-- 
2.43.0


From b90da3179361932e53f8e9f5a96aad9afc3ed138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:35 +0000
Subject: [PATCH 065/113] fix: random_seed reseeds the given randomstream

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ecf0b5f..6d6f122 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25514,7 +25514,7 @@ def random_seed(seed: Hashable = None, randomstream: Any = None, set_numpy_rando
             seed = 1234567
         elif seed == "*":
             seed = None
-        random.seed(seed)
+        randomstream.seed(seed)
         if set_numpy_random_seed and has_numpy():
             numpy.random.seed(seed)
 
-- 
2.43.0


From c5dac6431629dd30765c17b13dfcaf0e288a8a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:01 +0000
Subject: [PATCH 066/113] fix: duration_to_str might show a second less because
 of rounding errors

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6d6f122..5eaeb3b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -14835,7 +14835,7 @@ class Environment:
         if self._datetime0:
             if duration == inf:
                 return "inf"
-            duration = self.to_seconds(duration)
+            duration = round(self.to_seconds(duration), 6)  # like t_to_datetime, avoid rounding errors
             days, rem = divmod(duration, 86400)
             hours, rem = divmod(rem, 3600)
             minutes, seconds = divmod(rem, 60)
-- 
2.43.0


From 6f99c285b55ea7b4f846b9bacb1ad542cd4f9d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:56 +0000
Subject: [PATCH 067/113] fix: suppress_trace restores the trace setting if the
 block is left by an exception

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5eaeb3b..e6407e1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13269,8 +13269,10 @@ class Environment:
         """
         save_trace = self._trace
         self._trace = False
-        yield
-        self._trace = save_trace
+        try:
+            yield
+        finally:
+            self._trace = save_trace
 
     def suppress_trace_linenumbers(self, value: bool = None) -> bool:
         """
-- 
2.43.0


From cc0b57bf327534b09cfd80337ae0d4b3e9da7180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:56 +0000
Subject: [PATCH 068/113] fix: cap_now and over3d restore the setting if the
 block is left by an exception

---
 salabim/salabim.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e6407e1..66546eb 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -27857,8 +27857,10 @@ def over3d(val: bool = True):
     """
     save_default_over3d = default_over3d()
     default_over3d(val)
-    yield
-    default_over3d(save_default_over3d)
+    try:
+        yield
+    finally:
+        default_over3d(save_default_over3d)
 
 
 _default_over3d = False
@@ -27904,8 +27906,10 @@ def cap_now(val: bool = True):
     """
     save_default_cap_now = default_cap_now()
     default_cap_now(val)
-    yield
-    default_cap_now(save_default_cap_now)
+    try:
+        yield
+    finally:
+        default_cap_now(save_default_cap_now)
 
 
 def default_cap_now(val: bool = None) -> bool:
-- 
2.43.0


From 5f0b9ad9d1d3f2cc568cfdd20648b4b2e9cd22c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:18 +0000
Subject: [PATCH 069/113] fix: print_statistics of a stats_only level monitor
 failed at the start

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 66546eb..594ca05 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1176,7 +1176,7 @@ class Monitor:
             self._maximum = [-inf] * 2
             if self._level:
                 self._ttally_monitored = self.env._now
-            self._weight = False
+            self._weight = self._level
 
         else:
             if self.xtypecode:
-- 
2.43.0


From 3065762e11981576d07f71ae00ee2ec1f61174ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:38 +0000
Subject: [PATCH 070/113] fix: print_histogram is available for stats_only
 monitors

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 594ca05..385e4b1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2568,6 +2568,7 @@ class Monitor:
             except TypeError:
                 pass
         if values or values_is_iterable:
+            self._block_stats_only()
             nentries = len(x)
             if self._weight:
                 result.append(f"{pad(self.weight_legend, 13)}{fn(weight_total, 13, 3)}")
@@ -2653,7 +2654,7 @@ class Monitor:
             else:
                 auto_scale = False
 
-            if auto_scale:
+            if auto_scale and not self._stats_only:
                 bin_width, lowerbound, number_of_bins = self.histogram_autoscale(ex0=ex0)
             result.append(self.print_statistics(show_header=False, show_legend=True, do_indent=False, as_str=True))
             if not self._stats_only and number_of_bins >= 0:
-- 
2.43.0


From db27897584ebb467cf48bbab1f5f55520558d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:57 +0000
Subject: [PATCH 071/113] fix: autoscaled histogram of a monitor with infinite
 values (e.g. the capacity of a resource) failed

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 385e4b1..e8961b6 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2368,6 +2368,8 @@ class Monitor:
 
         xmax = self.maximum(ex0=ex0)
         xmin = self.minimum(ex0=ex0)
+        if math.isinf(xmin) or math.isinf(xmax):
+            return 1, 0, 30
 
         done = False
         for i in range(10):
-- 
2.43.0


From 01f085aa356e594f63a2772d6f45e79cfc094eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:22 +0000
Subject: [PATCH 072/113] fix: print_info of a component in wait_for failed

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e8961b6..2930b9d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9042,6 +9042,7 @@ by adding:
         schedule_priority = priority
 
         self._cond = cond  # add test ***
+        self._wait_all = False
         for state in states:
             self._waits.append((state, None, None))
             if request_priority is None:
-- 
2.43.0


From 90a4ef218d8b335c1c629ddfb834e25830bd707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:22 +0000
Subject: [PATCH 073/113] fix: print_info of a component with a mode that is
 not a str failed

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2930b9d..ddb4d82 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7448,7 +7448,7 @@ by adding at the end:
         result.append("  suppress_trace=" + str(self._suppress_trace))
         result.append("  suppress_pause_at_step=" + str(self._suppress_pause_at_step))
         result.append("  status=" + self.status())
-        result.append("  mode=" + self.mode())
+        result.append("  mode=" + str(self.mode()))
         result.append("  mode_time=" + self.env.time_to_str(self.mode_time()))
         result.append("  creation_time=" + self.env.time_to_str(self.creation_time()))
         result.append("  scheduled_time=" + self.env.time_to_str(self.scheduled_time()))
-- 
2.43.0


From 29cb1fda5ab621033d5761512fc132e83f67bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:20 +0000
Subject: [PATCH 074/113] fix: objects that salabim creates internally belong
 to the environment of their owner, not to the default environment

---
 salabim/salabim.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ddb4d82..203ae22 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3822,6 +3822,7 @@ class AnimateMonitor(DynamicClass):
             parent._animation_children.add(self)
         self.env = monitor.env
         self.ao_frame_fill = AnimateRectangle(
+            env=self.env,
             spec=lambda: (0, 0, self.width_t, self.height_t),
             x=lambda: self.x_t,
             y=lambda: self.y_t,
@@ -3837,6 +3838,7 @@ class AnimateMonitor(DynamicClass):
             visible=lambda: self.visible_t,
         )
         self.ao_frame_line = AnimateRectangle(
+            env=self.env,
             spec=lambda: (0, 0, self.width_t, self.height_t),
             x=lambda: self.x_t,
             y=lambda: self.y_t,
@@ -3852,6 +3854,7 @@ class AnimateMonitor(DynamicClass):
             visible=lambda: self.visible_t,
         )
         self.ao_text = AnimateText(
+            env=self.env,
             text=lambda t: self.title(t),
             textcolor=lambda t: self.titlecolor(t),
             x=lambda: self.x_t,
@@ -3869,6 +3872,7 @@ class AnimateMonitor(DynamicClass):
         )
 
         self.ao_line = AnimateLine(
+            env=self.env,
             spec=lambda t: self.line(t),
             x=lambda: self.x_t,
             y=lambda: self.y_t,
@@ -3885,6 +3889,7 @@ class AnimateMonitor(DynamicClass):
         )
 
         self.ao_now_line = AnimateLine(
+            env=self.env,
             spec=lambda t: self.now_line(t),
             x=lambda: self.x_t,
             y=lambda: self.y_t,
@@ -4004,8 +4009,8 @@ class AnimateMonitor(DynamicClass):
                 ao_label_line.remove()
             else:
                 if ao_label_text is None:
-                    ao_label_text = AnimateText(screen_coordinates=self.screen_coordinates)
-                    ao_label_line = AnimateLine(screen_coordinates=self.screen_coordinates)
+                    ao_label_text = AnimateText(screen_coordinates=self.screen_coordinates, env=self.env)
+                    ao_label_line = AnimateLine(screen_coordinates=self.screen_coordinates, env=self.env)
                     self.ao_label_texts.append(ao_label_text)
                     self.ao_label_lines.append(ao_label_line)
                 ao_label_text.text = str(label)
@@ -7278,7 +7283,7 @@ by adding at the end:
         size_x = 50
         size_y = 50
         ao0 = AnimateRectangle(
-            text=str(self.sequence_number()), textcolor="bg", spec=(-20, -20, 20, 20), linewidth=0, fillcolor="fg", screen_coordinates=screen_coordinates
+            text=str(self.sequence_number()), textcolor="bg", spec=(-20, -20, 20, 20), linewidth=0, fillcolor="fg", screen_coordinates=screen_coordinates, env=self.env
         )
         return (size_x, size_y, ao0)
 
@@ -7320,7 +7325,7 @@ by adding at the end:
         size_x = 10
         size_y = 10
         size_z = 10
-        ao0 = Animate3dBox(x_len=8, y_len=8, z_len=8, x_ref=0, y_ref=0, z_ref=1, color="white", shaded=True)
+        ao0 = Animate3dBox(x_len=8, y_len=8, z_len=8, x_ref=0, y_ref=0, z_ref=1, color="white", shaded=True, env=self.env)
         return (size_x, size_y, size_z, ao0)
 
     def _remove_from_aos(self, q):
@@ -10672,7 +10677,7 @@ class Environment:
 
         if self._blind_animation:
             with self.suppress_trace():
-                self._blind_video_maker = _BlindVideoMaker(process="", suppress_trace=True)
+                self._blind_video_maker = _BlindVideoMaker(process="", suppress_trace=True, env=self)
 
         if Pythonista:
             self._width, self._height = ui.get_screen_size()
@@ -13724,6 +13729,7 @@ class Environment:
             screen_coordinates=True,
             xy_anchor="nw",
             visible=lambda: self._modelname,
+            env=self,
         )
         AnimateText(
             text=" model",
@@ -13826,15 +13832,15 @@ class Environment:
         )
         uio.in_topleft = True
 
-        ao = AnimateText(x=x0 + 3 * dx, y=-35, text=self.syncedtext, text_anchor="N", fontsize=15, font="", screen_coordinates=True, xy_anchor="nw")
+        ao = AnimateText(x=x0 + 3 * dx, y=-35, text=self.syncedtext, text_anchor="N", fontsize=15, font="", screen_coordinates=True, xy_anchor="nw", env=self)
         ao.in_topleft = True
 
-        ao = AnimateText(x=x0 + 4 * dx, y=-35, text=self.tracetext, text_anchor="N", fontsize=15, font="", screen_coordinates=True, xy_anchor="nw")
+        ao = AnimateText(x=x0 + 4 * dx, y=-35, text=self.tracetext, text_anchor="N", fontsize=15, font="", screen_coordinates=True, xy_anchor="nw", env=self)
         ao.in_topleft = True
 
         if self._synced:
             ao = AnimateText(
-                x=x0 + 1.5 * dx, y=-35, text=self.speedtext, textcolor="fg", text_anchor="N", fontsize=15, font="", screen_coordinates=True, xy_anchor="nw"
+                x=x0 + 1.5 * dx, y=-35, text=self.speedtext, textcolor="fg", text_anchor="N", fontsize=15, font="", screen_coordinates=True, xy_anchor="nw", env=self
             )
             ao.in_topleft = True
 
@@ -15147,7 +15153,7 @@ class Environment:
         self.remove_topleft_buttons()
 
         self.animation_parameters(use_toplevel=True)
-        self.pauser = _Pauser(at=inf)
+        self.pauser = _Pauser(at=inf, env=self)
         self._ui = True
         if actions is None:
             actions = []
@@ -15381,7 +15387,7 @@ class Environment:
                     self.animate(True)
                     self.paused(True)
                 else:
-                    _AnimateOff(urgent=True)
+                    _AnimateOff(urgent=True, env=self)
 
         self.user_handle_event(env=self, window=self._ui_window, event=event, values=values)
 
@@ -18346,6 +18352,7 @@ class AnimateQueue(DynamicClass):
         )
 
         self.ao_title = AnimateText(
+            env=self.env,
             text=lambda t: self.title(t),
             textcolor=lambda t: self.titlecolor(t),
             x=lambda: self.x_t,
@@ -20589,7 +20596,7 @@ class ComponentGenerator(Component):
                     if disturbance is not None:
                         raise ValueError("iat not specified --> disturbance not allowed")
 
-                    moments = sorted([Uniform(at, self.till)() for _ in range(self.number)])
+                    moments = sorted([Uniform(at, self.till, env=self.env)() for _ in range(self.number)])
                     if force_at or force_till:
                         if self.number == 1:
                             if force_at and force_till:
-- 
2.43.0


From 7b7bcc1d20890ff7a7bc922bce02ef6d714c530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:20 +0000
Subject: [PATCH 075/113] fix: requesters queues of a store with an automatic
 name are named after the store

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 203ae22..5e7386e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5753,9 +5753,9 @@ class Store(Queue):
         super().__init__(name=name, monitor=monitor, fill=None, capacity=capacity, env=env, *args, **kwargs)
 
         with self.env.suppress_trace():
-            self._to_store_requesters = Queue(f"{name}.to_store_requesters", env=env)
+            self._to_store_requesters = Queue(f"{self.name()}.to_store_requesters", env=env)
             self._to_store_requesters._isinternal = True
-            self._from_store_requesters = Queue(f"{name}.from_store_requesters", env=env)
+            self._from_store_requesters = Queue(f"{self.name()}.from_store_requesters", env=env)
             self._from_store_requesters._isinternal = True
 
             if fill is not None:  # this cannot be done by Queue.__init__ as the requesters are not defined at that time
-- 
2.43.0


From 4fe719dd3eceaf5d3322457cc5e6bc70e58bc637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:20 +0000
Subject: [PATCH 076/113] fix: base_name is not affected if the name is changed

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5e7386e..925f871 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25226,6 +25226,7 @@ def _set_name(name, _nameserialize, object):
         object._sequence_number = sequence_number
     else:
         object._name = name
+        object._base_name = name
 
 
 def _check_overlapping_parameters(obj, method_name0, method_name1, process=None):
-- 
2.43.0


From 392c43c7e5e763ccf5b2f44bea871872b2732aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:20 +0000
Subject: [PATCH 077/113] fix: changing the name of a queue or resource updates
 all derived names

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 925f871..52ab55e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4841,7 +4841,9 @@ class Queue:
         if value is not None:
             self._name = value
             self.length.name("Length of " + self.name())
-            self.length_of_stay.name("Length of stay of " + self.name())
+            self.length_of_stay.name("Length of stay in " + self.name())
+            self.capacity.name("Capacity of " + self.name())
+            self.available_quantity.name("Available quantity of " + self.name())
         return self._name
 
     def rename(self, value: str = None) -> "Queue":
@@ -24541,7 +24543,7 @@ class Resource:
             self._requesters.name("requesters of " + value)
             self._claimers.name("claimers of " + value)
             self.capacity.name("Capacity of " + value)
-            self.claimed_quantity.name("Clamed quantity of " + value)
+            self.claimed_quantity.name("Claimed quantity of " + value)
             self.available_quantity.name("Available quantity of " + value)
             self.occupancy.name("Occupancy of " + value)
 
-- 
2.43.0


From 7b191ca41c87c5299129bc68a5790bcaf47323ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:42 +0000
Subject: [PATCH 078/113] fix: changing the name of a store updates all derived
 names

---
 salabim/salabim.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 52ab55e..b1f5fd0 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5765,6 +5765,29 @@ class Store(Queue):
                     for c in fill:
                         c.enter(self)
 
+    def name(self, value: str = None) -> str:
+        """
+        Parameters
+        ----------
+        value : str
+            new name of the store
+            if omitted, no change
+
+        Returns
+        -------
+        Name of the store : str
+
+        Note
+        ----
+        base_name and sequence_number are not affected if the name is changed
+
+        All derived named are updated as well.
+        """
+        if value is not None:
+            self._to_store_requesters.name(f"{value}.to_store_requesters")
+            self._from_store_requesters.name(f"{value}.from_store_requesters")
+        return super().name(value)
+
     def set_capacity(self, cap: float) -> None:
         """
         Parameters
-- 
2.43.0


From 123ec4a67dc629c036349ca3cfca1a6e9592c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:41 +0000
Subject: [PATCH 079/113] fix: PeriodMonitor can be used in yieldless mode and
 in any environment

---
 salabim/salabim.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b1f5fd0..d46d859 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24599,15 +24599,23 @@ class _PeriodComponent(Component):
     def setup(self, pm):
         self.pm = pm
 
-    def process(self):
+    def start_period(self, iperiod):
+        self.pm.perperiod[self.pm.iperiod].monitor(False)
+        self.pm.iperiod = iperiod
+        if self.pm.m._level:
+            self.pm.perperiod[self.pm.iperiod].tally(self.pm.m())
+        self.pm.perperiod[self.pm.iperiod].monitor(True)
+
+    def process_yielded(self):
         for iperiod, duration in itertools.cycle(enumerate(self.pm.periods)):
-            self.pm.perperiod[self.pm.iperiod].monitor(False)
-            self.pm.iperiod = iperiod
-            if self.pm.m._level:
-                self.pm.perperiod[self.pm.iperiod].tally(self.pm.m())
-            self.pm.perperiod[self.pm.iperiod].monitor(True)
+            self.start_period(iperiod)
             yield self.hold(duration)
 
+    def process_yieldless(self):
+        for iperiod, duration in itertools.cycle(enumerate(self.pm.periods)):
+            self.start_period(iperiod)
+            self.hold(duration)
+
 
 class PeriodMonitor:
     """
@@ -24662,8 +24670,14 @@ class PeriodMonitor:
         self.m.period_monitors.remove(self)
 
     def __init__(self, parent_monitor: "Monitor", periods: Iterable = None, period_monitor_names: Iterable = None, env: "Environment" = None):
-        self.pc = _PeriodComponent(pm=self, skip_standby=True, suppress_trace=True)
-        self.env = _set_env(env)
+        self.env = parent_monitor.env if env is None else env
+        self.pc = _PeriodComponent(
+            pm=self,
+            skip_standby=True,
+            suppress_trace=True,
+            process="process_yieldless" if self.env._yieldless else "process_yielded",
+            env=self.env,
+        )
 
         if periods is None:
             periods = 24 * [1]
-- 
2.43.0


From e1677fbd89725034245914a652016f5e68ddc5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:41 +0000
Subject: [PATCH 080/113] fix: several PeriodMonitors for the same monitor

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d46d859..b131cf9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24690,13 +24690,13 @@ class PeriodMonitor:
                 cum += duration
 
         self.m = parent_monitor
-        if not hasattr(self, "period_monitors"):
+        if not hasattr(self.m, "period_monitors"):
             self.m.period_monitors = []
             self.m.org_tally = self.m.tally
             self.m.tally = types.MethodType(self.new_tally, self.m)
             self.m.org_reset = self.m.reset
             self.m.reset = types.MethodType(self.new_reset, self.m)
-            self.m.period_monitors.append(self)
+        self.m.period_monitors.append(self)
 
         self.iperiod = 0
         if self.m._level:
-- 
2.43.0


From 32dc18d44119e9ae7690753d662eb1c30c7af6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:57 +0000
Subject: [PATCH 081/113] fix: period monitors stop recording when the
 PeriodMonitor is removed

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b131cf9..3014b95 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24666,6 +24666,7 @@ class PeriodMonitor:
         removes the period monitor
         """
         self.pc.cancel()
+        self.perperiod[self.iperiod].monitor(False)
         del self.periods
         self.m.period_monitors.remove(self)
 
-- 
2.43.0


From d1c54d0bb8dfed405d3126f873e50ac36aedb3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:10 +0000
Subject: [PATCH 082/113] fix: PeriodMonitor starts recording immediately

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3014b95..c44f04b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24704,6 +24704,7 @@ class PeriodMonitor:
             self.perperiod = [Monitor(name=period_monitor_name, level=True, monitor=False, env=self.env) for period_monitor_name in period_monitor_names]
         else:
             self.perperiod = [Monitor(name=period_monitor_name, monitor=False, env=self.env) for period_monitor_name in period_monitor_names]
+        self.pc.start_period(0)
 
 
 class AudioClip:
-- 
2.43.0


From 2c72e9a87cde799989c60729bf6ba74cdf00315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:37 +0000
Subject: [PATCH 083/113] fix: period monitors get the stats_only flag from the
 parent monitor

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c44f04b..f27be97 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24701,9 +24701,9 @@ class PeriodMonitor:
 
         self.iperiod = 0
         if self.m._level:
-            self.perperiod = [Monitor(name=period_monitor_name, level=True, monitor=False, env=self.env) for period_monitor_name in period_monitor_names]
+            self.perperiod = [Monitor(name=period_monitor_name, level=True, monitor=False, stats_only=self.m._stats_only, env=self.env) for period_monitor_name in period_monitor_names]
         else:
-            self.perperiod = [Monitor(name=period_monitor_name, monitor=False, env=self.env) for period_monitor_name in period_monitor_names]
+            self.perperiod = [Monitor(name=period_monitor_name, monitor=False, stats_only=self.m._stats_only, env=self.env) for period_monitor_name in period_monitor_names]
         self.pc.start_period(0)
 
 
-- 
2.43.0


From b681b840065721b0e8645fff348bbeeaf201361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:08 +0000
Subject: [PATCH 084/113] fix: Environment.peek before the first run

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f27be97..cf3e089 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -10655,6 +10655,7 @@ class Environment:
         self._nameserializeState = {}
         self._seq = 0
         self._event_list = []
+        self.end_on_empty_eventlist = False
         self._standbylist = []
         self._pendingstandbylist = []
 
-- 
2.43.0


From ef812088f2099f57f9829bc1bb62f76dff2ffb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:55 +0000
Subject: [PATCH 085/113] fix: trajectories made without an environment ignored
 the given t0

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index cf3e089..e2ed3ee 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6275,7 +6275,7 @@ class TrajectoryStandstill(_Trajectory):
 
     def __init__(self, xy: Iterable, duration: float, orientation: Union[Callable, float] = 0, t0: float = None, env: "Environment" = None):
         env = g.default_env if env is None else env
-        self._t0 = 0 if env is None else (env.now() if t0 is None else t0)
+        self._t0 = t0 if t0 is not None else (0 if env is None else env.now())
 
         self._x, self._y = xy
         self._duration = duration
@@ -6587,7 +6587,7 @@ class TrajectoryPolygon(_Trajectory):
                 raise ValueError(f"spline {spline} not recognized")
 
         env = g.default_env if env is None else env
-        self._t0 = 0 if env is None else (env.now() if t0 is None else t0)
+        self._t0 = t0 if t0 is not None else (0 if env is None else env.now())
 
         cum_length = 0.0
         self.cum_length = []
@@ -6859,7 +6859,7 @@ class TrajectoryCircle(_Trajectory):
         env: "Environment" = None,
     ):
         env = g.default_env if env is None else env
-        self._t0 = 0 if env is None else (env.now() if t0 is None else t0)
+        self._t0 = t0 if t0 is not None else (0 if env is None else env.now())
 
         self.radius = radius
         self.angle0 = angle0
-- 
2.43.0


From 095fdedaec27a0523c6cc0c62674f6979af54cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:55 +0000
Subject: [PATCH 086/113] fix: TrajectoryPolygon.length(t) counted the
 preceding segments twice

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e2ed3ee..da8a7f9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6749,7 +6749,7 @@ class TrajectoryPolygon(_Trajectory):
             total length if t omitted
         """
         length, i, j = self.indexes(t, _t0=_t0)
-        return self.cum_length[i] + length
+        return self.cum_length[i] if i == j else length
 
     def rendered_polygon(self, time_step: float = 1) -> List[Tuple[float, float]]:
         """
-- 
2.43.0


From 313ae9218c9e039d66ef560a45e23c17ba7cea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:56 +0000
Subject: [PATCH 087/113] fix: TrajectoryCircle.length() without argument
 raised a TypeError instead of giving the total length

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index da8a7f9..27748b9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6995,6 +6995,8 @@ class TrajectoryCircle(_Trajectory):
 
             total length if t omitted
         """
+        if t is None:
+            return self._length
         t0 = self._t0 if _t0 is None else _t0
         t1 = t0 + self._duration
         if t < t0:
-- 
2.43.0


From e5d71a986bedd143a513cf585bfd74afd9bc548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:56 +0000
Subject: [PATCH 088/113] fix: a merged trajectory within a merged trajectory
 was evaluated at the wrong times

---
 salabim/salabim.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 27748b9..0e2401f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6113,6 +6113,8 @@ class TrajectoryMerged(_Trajectory):
         -------
         evaluated x : float
         """
+        if _t0 is not None:
+            t += self._t0 - _t0
         i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
@@ -6131,6 +6133,8 @@ class TrajectoryMerged(_Trajectory):
         -------
         evaluated y : float
         """
+        if _t0 is not None:
+            t += self._t0 - _t0
         i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
@@ -6149,6 +6153,8 @@ class TrajectoryMerged(_Trajectory):
         -------
         evaluated angle (in degrees) : float
         """
+        if _t0 is not None:
+            t += self._t0 - _t0
         i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
@@ -6218,6 +6224,8 @@ class TrajectoryMerged(_Trajectory):
         if t is None:
             i = len(self._trajectories) - 1
         else:
+            if _t0 is not None:
+                t += self._t0 - _t0
             i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
-- 
2.43.0


From 483d28135d349b77e87d946ddca19279013de075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:48 +0000
Subject: [PATCH 089/113] fix: ZeroDivisionError for a trajectory of length
 zero that has to come to a stop

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0e2401f..457c937 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5988,7 +5988,7 @@ class _Movement:
         if self.l_v0_vmax < 0 or self.l_vmax_v1 < 0:
             raise ValueError("not feasible")
         self.t_v0_vmax = (vmax - v0) / acc
-        self.t_vmax = self.l_vmax / vmax
+        self.t_vmax = 0 if self.l_vmax == 0 else self.l_vmax / vmax
         self.t_vmax_v1 = (vmax - v1) / dec
         self.t = self.t_v0_vmax + self.t_vmax + self.t_vmax_v1
         self.v0 = v0
-- 
2.43.0


From 822e0666c35eb07dcea532f27a82627062c28c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:44 +0000
Subject: [PATCH 090/113] fix: a TypeError in the process of a standby
 component was masked by an AttributeError or a wrong call

---
 salabim/salabim.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 457c937..8eb13b1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -11269,19 +11269,24 @@ class Environment:
                             if c._glet.dead:
                                 self._terminate(c)
                             return
-                        else:
+                        elif c._process_isgenerator:
+                            return_value = c._return_value
+                            c._return_value = None
                             try:
-                                return_value = c._return_value
-                                c._return_value = None
-                                c._process.send(return_value)
-                                return
-                            except TypeError:
-                                c._process(**c._process_kwargs)
-                                self._terminate(c)
-                                return
+                                try:
+                                    c._process.send(return_value)
+                                except TypeError as e:
+                                    if "just-started" in str(e):  # only do this for just started generators
+                                        c._process.send(None)
+                                    else:
+                                        raise e
                             except StopIteration:
                                 self._terminate(c)
-                                return
+                            return
+                        else:
+                            c._process(**c._process_kwargs)
+                            self._terminate(c)
+                            return
 
             if len(self.env._standbylist) > 0:
                 self._pendingstandbylist = self.env._pendingstandbylist + self.env._standbylist
-- 
2.43.0


From 4ee6d2346a914537b77f3409e9b17f273549e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:38 +0000
Subject: [PATCH 091/113] fix: Environment.peek ignored reset_now

---
 salabim/salabim.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8eb13b1..83ed607 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4127,7 +4127,7 @@ if Pythonista:
                             env._t = env.animation_start_time
                         else:
                             env._t = env.animation_start_time + ((time.time() - env.animation_start_clocktime) * env._speed)
-                    while (env.peek() < env._t) and env.running and env._animate:
+                    while (env._peek() < env._t) and env.running and env._animate:
                         env.step()
 
                 else:
@@ -13205,6 +13205,10 @@ class Environment:
 
         Only for advance use with animation / GUI event loops
         """
+        return self._peek() - self._offset
+
+    def _peek(self):
+        # peek in internal time, i.e. not corrected for reset_now
         if len(self.env._pendingstandbylist) > 0:
             return self.env._now
         else:
@@ -13570,7 +13574,7 @@ class Environment:
                         self._t = self.animation_start_time
                     else:
                         self._t = self.animation_start_time + ((time.time() - self.animation_start_clocktime) * self._speed)
-                while self.peek() < self._t:
+                while self._peek() < self._t:
                     self.step()
                     if not (self.running and self._animate):
                         if self.root is not None:
-- 
2.43.0


From 3b925d473b48e27bc1daea1172c86d4b68ef0913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:39 +0000
Subject: [PATCH 092/113] fix: slicing a weighted monitor while animating
 raised a TypeError

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 83ed607..af52dcc 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -900,7 +900,7 @@ class Monitor:
                 _x.append(_x[-1])
                 _t.append(self.env._t)
             try:
-                _weight.append(self.weight[-1])
+                _weight.append(self._weight[-1])
             except AttributeError:
                 ...  # ignore if bool
         for t, type, x, weight in heapq.merge(actions, zip(self._t, itertools.repeat("c"), _x, _weight if (_weight and not self._level) else (1,) * len(_x))):
-- 
2.43.0


From 0155ea903affb9605ff804b5047575dce5455a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:39 +0000
Subject: [PATCH 093/113] fix: statistics of level monitors were wrong (even
 negative) when requested between two frames of a blind animation

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index af52dcc..380fe0e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -838,7 +838,7 @@ class Monitor:
                 stop = inf
             else:
                 stop += self.env._offset
-            t_now = self.env._t if self.env._animate else self.env._now  # not self.now() in order to support frozen monitors
+            t_now = max(self.env._t, self.env._now) if self.env._animate else self.env._now  # not self.now() in order to support frozen monitors
             if start_ <= t_now:
                 actions.append((start_, "a", 0, 0))
                 if stop > t_now:
@@ -3085,7 +3085,7 @@ class Monitor:
         t = array.array("d")
         if add_now:
             addx = [x[-1]]
-            t_extra = self.env._t if self.env._animate else self.env._now
+            t_extra = max(self.env._t, self.env._now) if self.env._animate else self.env._now
             addt = [t_extra]
         else:
             addx = []
@@ -3140,7 +3140,7 @@ class Monitor:
         return tuple(reversed(self.xt(ex0=ex0, exoff=exoff, force_numeric=force_numeric, add_now=add_now)))
 
     def _xweight(self, ex0=False, force_numeric=True):
-        t_extra = self.env._t if self.env._animate else self.env._now
+        t_extra = max(self.env._t, self.env._now) if self.env._animate else self.env._now
 
         if (ex0, force_numeric) in self.cached_xweight:
             if self.cached_xweight[(ex0, force_numeric)][0] == t_extra:
-- 
2.43.0


From e7937c5ee1746e5ae52dc54143f93fe03971a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:39 +0000
Subject: [PATCH 094/113] fix: continuing a blind animation after video_close
 raised a ValueError

---
 salabim/salabim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 380fe0e..c67cd91 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -12156,6 +12156,9 @@ class Environment:
 
             self._video_out = None
             self._video = ""
+            if self._blind_animation:
+                with self.suppress_trace():
+                    self._blind_video_maker.cancel()
 
     def _capture_image(self, mode="RGBA", video_mode="2d", include_topleft=True):
         if video_mode == "3d":
-- 
2.43.0


From cf3819a368bec0f1bbab625c087118097c8d7b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:39 +0000
Subject: [PATCH 095/113] fix: is_removed of an over3d animation object raised
 an AttributeError

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c67cd91..c6c33be 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15548,7 +15548,7 @@ class Animate2dBase(DynamicClass):
 
     def is_removed(self):
         if self.over3d:
-            return self not in self.env.an_over3d_objects
+            return self not in self.env.an_objects_over3d
         else:
             return self not in self.env.an_objects
 
-- 
2.43.0


From 94f0562aa511a4cbab5add1dbaa4499be2b85772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:54 +0000
Subject: [PATCH 096/113] fix: animate(False) did not stop a blind animation

---
 salabim/salabim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c6c33be..85f525f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -11912,6 +11912,9 @@ class Environment:
                 frame_changed = True
             else:
                 frame_changed = False  # no animation required, so leave running animation_env untouched
+                if self._blind_animation:
+                    with self.suppress_trace():
+                        self._blind_video_maker.cancel()
 
         if video_repeat is not None:
             if self._video:
-- 
2.43.0


From f78b6acc97eae9e6409b191606d0f774ec8a30f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:24 +0000
Subject: [PATCH 097/113] fix: AnimateQueue.show of an already shown queue left
 its members in the animation for ever

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 85f525f..8729a18 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -18534,7 +18534,6 @@ class AnimateQueue(DynamicClass):
         """
         self.ao_title.show()
         self.env.sys_objects.add(self)
-        self.current_aos = {}
 
     def remove(self):
         self.env.sys_objects.discard(self)
@@ -18542,6 +18541,7 @@ class AnimateQueue(DynamicClass):
         for animation_objects in self.current_aos.values():
             for ao in animation_objects[2:]:
                 ao.remove()
+        self.current_aos = {}
 
     def is_removed(self):
         return self not in self.env.sys_objects
-- 
2.43.0


From 9d5a803a20400598be0b5aea54c4daf15b887153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:24 +0000
Subject: [PATCH 098/113] fix: xy_anchor with user coordinates raised an
 AttributeError in blind animation

---
 salabim/salabim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8729a18..85a0e2a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20901,6 +20901,10 @@ class ComponentGenerator(Component):
 class _BlindVideoMaker(Component):
     def handle(self):
         self.env._t = self.env._now
+        self.env._x0_org = self.env._x0  # required for xy_anchor with user coordinates
+        self.env._x1_org = self.env._x1
+        self.env._y0_org = self.env._y0
+        self.env._y1_org = self.env._y1
         self.env.animation_pre_tick_sys(self.env.t())  # required to update sys objects, like AnimateQueue
         if self.env._animate3d:
             if not self.env._gl_initialized:
-- 
2.43.0


From a694c14668fe277c6f0bc7788c1b7e189defdad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:30 +0000
Subject: [PATCH 099/113] fix: show the first frame of an animated gif, not its
 last frame, as its first image

---
 salabim/salabim.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 85a0e2a..c22f50a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -27855,9 +27855,8 @@ class ImageContainer:
             self._duration = 0
 
         else:  # >1
-            im.convert("RGBA")  # without this .webp does not work!
             end_time = im.info["duration"] / 1000
-            self.images = [im]
+            self.images = [im.convert("RGBA")]
             self.images[-1].end_time = end_time
 
             while True:
-- 
2.43.0


From 6055777d0575c7427cdbb7d0d629b23fdedb7eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:30 +0000
Subject: [PATCH 100/113] fix: an animated gif that is shown once disappears at
 its end

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c22f50a..b38dac8 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -27893,8 +27893,8 @@ class ImageContainer:
             interval = t_to - t_from
 
         if not repeat:
-            if t > interval:
-                return g.dummy_image, 0
+            if t >= interval:
+                return g.dummy_image, -1
         t = t % interval
         if pingpong:
             if t <= interval / 2:
-- 
2.43.0


From 8c037e125a706478416e56603d871ff15ed24d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:30 +0000
Subject: [PATCH 101/113] fix: is_removed() of AnimateMonitor and 3d animation
 objects was inverted

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b38dac8..4b77c44 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4081,7 +4081,7 @@ class AnimateMonitor(DynamicClass):
         self.env.sys_objects.discard(self)
 
     def is_removed(self) -> bool:
-        return self in self.env.sys_objects
+        return self not in self.env.sys_objects
 
 
 if Pythonista:
@@ -5956,7 +5956,7 @@ class Animate3dBase(DynamicClass):
         self.env.an_objects3d.discard(self)
 
     def is_removed(self) -> bool:
-        return self in self.env.an_objects3d
+        return self not in self.env.an_objects3d
 
 
 class _Movement:
-- 
2.43.0


From 7011ff89685964d95dbd46202e891d66f66c7032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:30 +0000
Subject: [PATCH 102/113] fix: do not scale the offset of an image in user
 coordinates twice

---
 salabim/salabim.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4b77c44..a6b15a5 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15855,8 +15855,6 @@ class Animate2dBase(DynamicClass):
                     else:
                         qx = (x - self.env._x0) * self.env._scale
                         qy = (y - self.env._y0) * self.env._scale
-                        offsetx = offsetx * self.env._scale
-                        offsety = offsety * self.env._scale
 
                     alpha = int(self.alpha(t))
                     image, id = image_container.get_image(
-- 
2.43.0


From 4f5c3081dd8e4d3f653d9efafefa0ac973245257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:30 +0000
Subject: [PATCH 103/113] fix: AnimateGrid lines start at the lower left corner
 of the user coordinates

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index a6b15a5..989cd52 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20401,10 +20401,10 @@ def AnimateGrid(spacing: float = 100, env: "Environment" = None, **kwargs):
         env = g.default_env
 
     for y in arange(env.y0(), env.y1() + 1, spacing):
-        AnimateLine(spec=(0, 0, env.x1() - env.x0(), 0), x=0, y=y, text=str(y), text_anchor="sw", env=env, **kwargs)
+        AnimateLine(spec=(0, 0, env.x1() - env.x0(), 0), x=env.x0(), y=y, text=str(y), text_anchor="sw", env=env, **kwargs)
 
     for x in arange(env.x0(), env.x1() + 1, spacing):
-        AnimateLine(spec=(0, 0, 0, env.y1() - env.y0()), x=x, y=0, text=str(x), text_anchor="se", env=env, **kwargs)
+        AnimateLine(spec=(0, 0, 0, env.y1() - env.y0()), x=x, y=env.y0(), text=str(x), text_anchor="se", env=env, **kwargs)
 
 
 class ComponentGenerator(Component):
-- 
2.43.0


From c6f735e7f10b8f1174bf9c9713cd71f246a7d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:30 +0000
Subject: [PATCH 104/113] fix: a function with default object can be used for
 more than one animation object

---
 salabim/salabim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 989cd52..94f3811 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3478,8 +3478,11 @@ class DynamicClass:
             if inspect.isfunction(c):
                 nargs = c.__code__.co_argcount
                 if c.__defaults__ is not None:
-                    c.__defaults__ = tuple(self if x is object else x for x in c.__defaults__)  # indicate that object refers to animation object itself
                     nargs -= len(c.__defaults__)
+                    names = c.__code__.co_varnames[nargs:]
+                    self_args = {name: self for name, x in zip(names, c.__defaults__) if x is object}  # object refers to animation object itself
+                    if self_args:
+                        c = functools.partial(c, **self_args)
 
                 if nargs == 0:
                     return lambda t: c()
@@ -3507,8 +3510,11 @@ class DynamicClass:
             if inspect.isfunction(c):
                 nargs = c.__code__.co_argcount
                 if c.__defaults__ is not None:
-                    c.__defaults__ = tuple(self if x is object else x for x in c.__defaults__)  # indicate that object refers to animation object itself
                     nargs -= len(c.__defaults__)
+                    names = c.__code__.co_varnames[nargs:]
+                    self_args = {name: self for name, x in zip(names, c.__defaults__) if x is object}  # object refers to animation object itself
+                    if self_args:
+                        c = functools.partial(c, **self_args)
                 if nargs == 0:
                     return c()
                 if nargs == 1:
-- 
2.43.0


From 3de3c51c095777bb31cea5f12719749a6a6076e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:30 +0000
Subject: [PATCH 105/113] fix: allow a disturbance for a distribution of
 component classes

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 94f3811..091087b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20611,7 +20611,7 @@ class ComponentGenerator(Component):
         if disturbance:  # falsy values are interpreted as no disturbance
             if iat is None and not equidistant:
                 raise ValueError("disturbance can only be used with an iat")
-            if not issubclass(component_class, Component):
+            if not isinstance(component_class, _Distribution) and not (inspect.isclass(component_class) and issubclass(component_class, Component)):
                 raise ValueError("component_class has to be a Component subclass if disturbance is specified.")
         at = env.spec_to_time(at)
         delay = env.spec_to_duration(delay)
-- 
2.43.0


From 628b4a47fd50d6c899a6d90ee29cd90677f814f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:30 +0000
Subject: [PATCH 106/113] fix: Store.rescan honours the key of the waiting
 from_store

---
 salabim/salabim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 091087b..bfd3c94 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5836,7 +5836,10 @@ class Store(Queue):
         Rescan for any components to be allowed from.
         """
         for c in self._from_store_requesters:
-            for item in list(self):
+            items = list(self)
+            if c._from_store_key:
+                items = sorted((item for item in items if c._from_store_filter(item)), key=c._from_store_key)
+            for item in items:
                 if c._from_store_filter(item):
                     for store in c._from_stores:
                         c.leave(store._from_store_requesters)
@@ -8347,6 +8350,7 @@ by adding:
         self.status._value = requesting
         self._from_store_item = None
         self._from_store_filter = filter
+        self._from_store_key = key
 
         self._reschedule(scheduled_time, fail_priority, urgent, "request from_store", cap_now)
         if self.env._yieldless:
-- 
2.43.0


From 2549b7a30fede06e2c7480d08769b5c570e2b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:25 +0000
Subject: [PATCH 107/113] fix: Monitor.t() is corrected for the offset of
 reset_now, as all other times

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index bfd3c94..c4dae93 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1112,7 +1112,7 @@ class Monitor:
         t is available even if the monitor is turned off
         """
         if self._level:
-            return self._ttally
+            return self._ttally - self.env._offset
         raise TypeError("non level monitors are not supported")
 
     def reset_monitors(self, monitor: bool = None, stats_only: bool = None) -> None:
-- 
2.43.0


From 8175ddbd245fa11c3042ba6816180eb4f22e7b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:25 +0000
Subject: [PATCH 108/113] fix: switching a level monitor on does not change the
 time of its last tally (Monitor.t())

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c4dae93..ef9304b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1231,7 +1231,7 @@ class Monitor:
                 self._monitor = value
                 if self._level:
                     if self._monitor:
-                        self.tally(self._tally)
+                        self._tally_add_now()
                     else:
                         self._tally_off()  # can't use tally() here because self._tally should be untouched
         return self._monitor
@@ -1329,7 +1329,7 @@ class Monitor:
                     self._t.append(self.env._now)
 
     def _tally_add_now(self):
-        # used by stats_only level monitors
+        # records the current value at the current time, without changing the time of the last tally
         save_ttally = self._ttally
         self.tally(self._tally)
         self._ttally = save_ttally
-- 
2.43.0


From 44ff5996a60908a9344b816b03ea02c9cc202656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:25 +0000
Subject: [PATCH 109/113] fix: equidistant ComponentGenerator without a number
 is refused instead of looping forever

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ef9304b..a91c2b8 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20683,6 +20683,8 @@ class ComponentGenerator(Component):
                         raise ValueError("infinite duration not allowed for equidistant")
                     if self.number == 1:
                         raise ValueError("number=1 not allowed for equidistant")
+                    if self.number == inf:
+                        raise ValueError("number has to be specified for equidistant")
                     if self.iat is not None:
                         raise ValueError("iat not allowed for equidistant")
 
-- 
2.43.0


From 23b7c74bfde20da53fcf274ae9b7359a18f86d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:25 +0000
Subject: [PATCH 110/113] fix: text of an AnimateCircle in user coordinates is
 placed with the scale of the view

---
 salabim/salabim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index a91c2b8..1fd6143 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15822,8 +15822,9 @@ class Animate2dBase(DynamicClass):
                     if self.type == "circle":
                         self.env._centerx = qx
                         self.env._centery = qy
-                        self.env._dimx = 2 * radius0
-                        self.env._dimy = 2 * radius1
+                        scale = 1 if self.screen_coordinates else self.env._scale
+                        self.env._dimx = 2 * radius0 * scale
+                        self.env._dimy = 2 * radius1 * scale
                     else:
                         self.env._centerx = qx + (self.minrx + self.maxrx) / 2
                         self.env._centery = qy + (self.minry + self.maxry) / 2
-- 
2.43.0


From 6f16c6776e6a76a5c5b88a625f23212a2f8b55e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:25 +0000
Subject: [PATCH 111/113] fix: text of an AnimateImage with an offset is not
 moved twice

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1fd6143..41f1eb0 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15923,8 +15923,8 @@ class Animate2dBase(DynamicClass):
                     ey = dx * sina + dy * cosa
                     imrwidth, imrheight = self._image.size
 
-                    self.env._centerx = qx + ex
-                    self.env._centery = qy + ey
+                    self.env._centerx = qx + ex - (offsetx * cosa - offsety * sina)  # the offset will be added for the text
+                    self.env._centery = qy + ey - (offsetx * sina + offsety * cosa)
                     self.env._dimx = width
                     self.env._dimy = height
 
-- 
2.43.0


From 88b3aa3e1dc165199189308ff5e41870ee30648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:25 +0000
Subject: [PATCH 112/113] fix: radius of a rounded rectangle in user
 coordinates is scaled only once

---
 salabim/salabim.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 41f1eb0..39ceee1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15669,9 +15669,6 @@ class Animate2dBase(DynamicClass):
                             if r == 0:
                                 p = [px[0], py[0], px[1], py[0], px[1], py[1], px[0], py[1], px[0], py[0]]
                             else:
-                                if not self.screen_coordinates:
-                                    r *= self.env._scale
-
                                 r = min(r, abs(px[0] - px[1]) / 2, abs(py[0] - py[1]) / 2)  # make sure the arc fits
 
                                 if self.screen_coordinates:
-- 
2.43.0


From bf3508b83db6d676429083d1b7e7c9def2b5af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:25 +0000
Subject: [PATCH 113/113] fix: a circle with (nearly) no radius or a rounded
 rectangle without width does not crash the animation

---
 salabim/salabim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 39ceee1..2284139 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15672,9 +15672,9 @@ class Animate2dBase(DynamicClass):
                                 r = min(r, abs(px[0] - px[1]) / 2, abs(py[0] - py[1]) / 2)  # make sure the arc fits
 
                                 if self.screen_coordinates:
-                                    nsteps = int(math.sqrt(r) * 6)
+                                    nsteps = max(1, int(math.sqrt(r) * 6))
                                 else:
-                                    nsteps = int(math.sqrt(r * self.env._scale) * 6)
+                                    nsteps = max(1, int(math.sqrt(r * self.env._scale) * 6))
                                 tarc_angle = 360 / nsteps
 
                                 p = []
@@ -15720,9 +15720,9 @@ class Animate2dBase(DynamicClass):
                             arc_angle1 = min(arc_angle1, arc_angle0 + 360)
 
                             if self.screen_coordinates:
-                                nsteps = int(math.sqrt(max(radius0, radius1)) * 6)
+                                nsteps = max(1, int(math.sqrt(max(radius0, radius1)) * 6))
                             else:
-                                nsteps = int(math.sqrt(max(radius0 * self.env._scale, radius1 * self.env._scale)) * 6)
+                                nsteps = max(1, int(math.sqrt(max(radius0 * self.env._scale, radius1 * self.env._scale)) * 6))
                             tarc_angle = 360 / nsteps
                             p = [0, 0]
 
-- 
2.43.0

