From a1d7a93fdcd9745434c21b8862842f57e28a4df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 01/63] fix: relate past and future of a new event to each
 other

---
 causetevent.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causetevent.py b/causetevent.py
index efe1772..0cee35c 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -58,6 +58,11 @@ class CausetEvent(object):
         self._succ = set()
         for e in kwargs.get('future', []):
             self._succ.update(e.PresentOrFuture)
+        # Relate the past events to the future events (via this instance):
+        for e in self._prec:
+            e._succ.update(self._succ)
+        for e in self._succ:
+            e._prec.update(self._prec)
         self._coordinates = list(kwargs.get('coordinates', []))
         self._position = list(kwargs.get('position', []))
         # Add this instance to its causal relatives:
-- 
2.43.0


From ca3d781c542b6c324723627cf2767690390e1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 02/63] fix: unlinking an event without link memory raised
 AttributeError

---
 causetevent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 0cee35c..c203e49 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -219,8 +219,9 @@ class CausetEvent(object):
         '''
         Force the CausetEvent instance to reset its link memory.
         '''
-        delattr(self, '_lprec')
-        delattr(self, '_lsucc')
+        if self.hasBeenLinked():
+            delattr(self, '_lprec')
+            delattr(self, '_lsucc')
 
     @classmethod
     def isLink(cls, a: 'CausetEvent', b: 'CausetEvent') -> bool:
-- 
2.43.0


From fe9888f8bdb0e765bbd1dcc7cb7f09106cfccad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 03/63] fix: LinkConeCard combined the two cardinalities
 bitwise

---
 causetevent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index c203e49..09d9feb 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -422,10 +422,10 @@ class CausetEvent(object):
         cardinality).
         '''
         try:
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
         except AttributeError:
             self.link()
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
 
     def copy(self) -> 'CausetEvent':
         '''
-- 
2.43.0


From 013929bcde03f0d929bc9f01d18f0cb961f56aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 04/63] fix: isLink reported unrelated and identical events as
 linked

---
 causetevent.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 09d9feb..c2a2869 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -87,10 +87,10 @@ class CausetEvent(object):
         if other in self._prec:
             return False
         else:
+            self._prec.add(other)
             if self.hasBeenLinked() and CausetEvent.isLink(other, self):
                 self._lprec -= other._prec
                 self._lprec.add(other)
-            self._prec.add(other)
             return True
 
     def _addToFuture(self, other: 'CausetEvent') -> bool:
@@ -102,10 +102,10 @@ class CausetEvent(object):
         if other in self._succ:
             return False
         else:
+            self._succ.add(other)
             if self.hasBeenLinked() and CausetEvent.isLink(self, other):
                 self._lsucc -= other._succ
                 self._lsucc.add(other)
-            self._succ.add(other)
             return True
 
     def _discard(self, other: 'CausetEvent') -> bool:
@@ -233,7 +233,8 @@ class CausetEvent(object):
         method many times, faster access is achieved with the call of 
         a.isFutureLink(b).
         '''
-        return not (a._succ & b._prec)
+        return ((b in a._succ) or (a in b._prec)) and \
+            not (a._succ & b._prec)
 
     def isPastLink(self, other: 'CausetEvent') -> bool:
         '''
-- 
2.43.0


From 38c53550b10df80bb74b23eaa9de6176ceb168e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 05/63] fix: drop remembered links that a new event in between
 interrupts

---
 causetevent.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index c2a2869..27c1190 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -88,9 +88,10 @@ class CausetEvent(object):
             return False
         else:
             self._prec.add(other)
-            if self.hasBeenLinked() and CausetEvent.isLink(other, self):
+            if self.hasBeenLinked():
                 self._lprec -= other._prec
-                self._lprec.add(other)
+                if CausetEvent.isLink(other, self):
+                    self._lprec.add(other)
             return True
 
     def _addToFuture(self, other: 'CausetEvent') -> bool:
@@ -103,9 +104,10 @@ class CausetEvent(object):
             return False
         else:
             self._succ.add(other)
-            if self.hasBeenLinked() and CausetEvent.isLink(self, other):
+            if self.hasBeenLinked():
                 self._lsucc -= other._succ
-                self._lsucc.add(other)
+                if CausetEvent.isLink(self, other):
+                    self._lsucc.add(other)
             return True
 
     def _discard(self, other: 'CausetEvent') -> bool:
-- 
2.43.0


From f1146ea7c47534d9fb6c72743f5ebfc200bf7d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 06/63] fix: remember the links that arise when an event is
 disjoined

---
 causetevent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 27c1190..ffbfc31 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -116,18 +116,18 @@ class CausetEvent(object):
         It returns True if the event was in the past or future, otherwise False.
         '''
         if other in self._prec:
+            self._prec.discard(other)
             if self.hasBeenLinked() and (other in self._lprec):
                 self._lprec |= {
                     e for e in other._prec if CausetEvent.isLink(e, self)}
                 self._lprec.remove(other)
-            self._prec.discard(other)
             return True
         elif other in self._succ:
+            self._succ.discard(other)
             if self.hasBeenLinked() and (other in self._lsucc):
                 self._lsucc |= {
                     e for e in other._succ if CausetEvent.isLink(self, e)}
                 self._lsucc.remove(other)
-            self._succ.discard(other)
             return True
         else:
             return False
-- 
2.43.0


From b8d0a6ec47afddb333af9b4606fd15bb27c20b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 07/63] fix: merge left the relations non-transitive for sets
 that are not closed

---
 causet.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causet.py b/causet.py
index 5b5785f..1ba5326 100644
--- a/causet.py
+++ b/causet.py
@@ -230,8 +230,12 @@ class Causet(object):
         assigned to the the past of every event in `futureSet` and vice versa.
         '''
         if not disjoint:  # add pastSet as past of futureSet
-            for p in pastSet:
-                for f in futureSet:
+            pastEvents: Set[CausetEvent] = \
+                Causet.PastOf(set(pastSet), includePresent=True)
+            futureEvents: Set[CausetEvent] = \
+                Causet.FutureOf(set(futureSet), includePresent=True)
+            for p in pastEvents:
+                for f in futureEvents:
                     p._addToFuture(f)
                     f._addToPast(p)
         return Causet(set(pastSet) | set(futureSet))
-- 
2.43.0


From 20458a92f26e1b4a0707bc9f0e387663b9ce249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 08/63] fix: merge left stale links in the link memory of the
 merged events

---
 causet.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/causet.py b/causet.py
index 1ba5326..d7330ee 100644
--- a/causet.py
+++ b/causet.py
@@ -234,10 +234,17 @@ class Causet(object):
                 Causet.PastOf(set(pastSet), includePresent=True)
             futureEvents: Set[CausetEvent] = \
                 Causet.FutureOf(set(futureSet), includePresent=True)
+            # reset the link memory to be computed for the new relations:
+            linkedEvents: List[CausetEvent] = [
+                e for e in pastEvents | futureEvents if e.hasBeenLinked()]
+            for e in linkedEvents:
+                e.unlink()
             for p in pastEvents:
                 for f in futureEvents:
                     p._addToFuture(f)
                     f._addToPast(p)
+            for e in linkedEvents:
+                e.link()
         return Causet(set(pastSet) | set(futureSet))
 
     def add(self, eventSet: Iterable, unlink: bool = False) -> None:
-- 
2.43.0


From fa9057639a9e989a4ed62820711f51f07d648761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 09/63] fix: link failed or lost links if related events were
 discarded

---
 causet.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/causet.py b/causet.py
index d7330ee..78b65b0 100644
--- a/causet.py
+++ b/causet.py
@@ -289,14 +289,8 @@ class Causet(object):
         '''
         Computes the causal links between all events.
         '''
-        # clear links:
         for e in self._events:
-            e._lsucc = set()
-        # compute links:
-        for b in self._events:
-            b._lprec = {a for a in b._prec if CausetEvent.isLink(a, b)}
-            for a in b._lprec:
-                a._lsucc.add(b)
+            e.link()
 
     def unlink(self) -> None:
         '''
-- 
2.43.0


From 5c86c00e6f7453d36d52a1fc5384e81edf6e77cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 10/63] fix: FromPastMatrix missed relations of link matrices
 and longer causal loops

---
 causet.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/causet.py b/causet.py
index 78b65b0..3c002f4 100644
--- a/causet.py
+++ b/causet.py
@@ -181,20 +181,19 @@ class Causet(object):
                              'to a square matrix.')
         events: np.ndarray = np.array([CausetEvent(label=i)
                                        for i in range(1, colcount + 1)])
-        e: CausetEvent
-        for i in range(rowcount):
-            e = events[i]
-            past: Set[CausetEvent] = set(events[np.where(C[i, :])[0]])
-            future: Set[CausetEvent] = set(events[np.where(C[:, i])[0]])
-            if (past & future) or (e in past) or (e in future):
-                raise ValueError('The causet is not anti-symmetric.')
-            e._prec = past
-            e._succ = future
+        # extend to a square matrix
+        M: np.ndarray = np.zeros((colcount, colcount), dtype=bool)
+        M[:rowcount, :] = C
         # complete pasts and futures (if the input contains links only)
+        for i in range(colcount):
+            M |= np.outer(M[:, i], M[i, :])
+        if np.any(np.diagonal(M)):
+            raise ValueError('The causet is not anti-symmetric.')
+        e: CausetEvent
         for i in range(colcount):
             e = events[i]
-            e._prec = Causet.PastOf(e._prec, includePresent=True)
-            e._succ = Causet.FutureOf(e._succ, includePresent=True)
+            e._prec = set(events[np.where(M[i, :])[0]])
+            e._succ = set(events[np.where(M[:, i])[0]])
         return Causet(set(events))
 
     @staticmethod
-- 
2.43.0


From 798f8082c3a9ac91b5314bac014af3c58cd6823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 11/63] fix: LinkCount counted links to events that are not in
 the causet

---
 causet.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/causet.py b/causet.py
index 3c002f4..b5c0d1c 100644
--- a/causet.py
+++ b/causet.py
@@ -305,9 +305,8 @@ class Causet(object):
         this instance if `eventSet is None`).
         '''
         if eventSet is None:
-            return sum([e.LinkPastCard for e in self._events])
-        else:
-            return sum([len(e.LinkPast & eventSet) for e in eventSet])
+            eventSet = self._events
+        return sum([len(e.LinkPast & eventSet) for e in eventSet])
 
     def PastMatrix(self, labeledEvents: Optional[List[CausetEvent]] = None,
                    dtype: Any = bool) -> np.ndarray:
-- 
2.43.0


From 649ef0107ca2a7ee649dbccedce95ffb90260c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 12/63] fix: isChain and isAntichain considered events that are
 not in the causet

---
 causet.py | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/causet.py b/causet.py
index b5c0d1c..fc37e7f 100644
--- a/causet.py
+++ b/causet.py
@@ -432,18 +432,11 @@ class Causet(object):
         '''
         Tests if this instance or `CausetEvent` is a causal chain.
         '''
-        c: int
-        if events is None:
-            c = self.Card
-            for e in self._events:
-                if e.ConeCard != c:
-                    return False
-        else:
-            events = set(events)
-            c = len(events)
-            for e in events:
-                if len(e.Cone & events) != c:
-                    return False
+        events = self._events if events is None else set(events)
+        c: int = len(events)
+        for e in events:
+            if len(e.Cone & events) != c:
+                return False
         return True
 
     def isPath(self, events: Optional[Iterable[CausetEvent]] = None) -> bool:
@@ -475,15 +468,10 @@ class Causet(object):
         '''
         Tests if this instance of `CausetEvent` is a causal anti-chain.
         '''
-        if events is None:
-            for e in self._events:
-                if e.ConeCard != 1:
-                    return False
-        else:
-            events = set(events)
-            for e in events:
-                if len(e.Cone & events) != 1:
-                    return False
+        events = self._events if events is None else set(events)
+        for e in events:
+            if len(e.Cone & events) != 1:
+                return False
         return True
 
     @property
-- 
2.43.0


From 719dcb14e6e098430c6e032027e0309b586f28c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 13/63] fix: past and future infinity considered events that
 are not in the causet

---
 causet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/causet.py b/causet.py
index fc37e7f..afa3d6f 100644
--- a/causet.py
+++ b/causet.py
@@ -479,7 +479,7 @@ class Causet(object):
         '''
         Returns the set of events without any past event (past infinity).
         '''
-        return {e for e in self._events if e.PastCard == 0}
+        return Causet.PastInfOf(self._events)
 
     @property
     def FutureInf(self) -> Set[CausetEvent]:
@@ -487,21 +487,21 @@ class Causet(object):
         Returns the set of events without any future event (future 
         infinity).
         '''
-        return {e for e in self._events if e.FutureCard == 0}
+        return Causet.FutureInfOf(self._events)
 
     @property
     def PastInfCard(self) -> int:
         '''
         Returns the number of events without any past event (past infinity).
         '''
-        return sum(1 for e in self._events if e.PastCard == 0)
+        return Causet.PastInfCardOf(self._events)
 
     @property
     def FutureInfCard(self) -> int:
         '''
         Returns the number of event without any future event (future infinity).
         '''
-        return sum(1 for e in self._events if e.FutureCard == 0)
+        return Causet.FutureInfCardOf(self._events)
 
     @staticmethod
     def PastInfOf(eventSet: Set[CausetEvent]) -> Set[CausetEvent]:
-- 
2.43.0


From f22b8c2f9aa7c05a8dd1d52535f93850b4fcc507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 14/63] fix: isPath accepted zigzags of links that are not
 causal chains

---
 causet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index afa3d6f..e1071c6 100644
--- a/causet.py
+++ b/causet.py
@@ -447,11 +447,13 @@ class Causet(object):
             if self.Card == 0:
                 return False
             else:
-                return self.isChain()
+                return self.isPath(self._events)
         else:
             events = set(events)
             if len(events) <= 1:
                 return len(events) == 1
+            if not self.isChain(events):
+                return False
             extremal: int = 0
             for e in events:
                 e_linkcount: int = len(e.LinkCone & events)
-- 
2.43.0


From e73fe68a8421e956517212e8dc1582b0bd4a2f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 15/63] fix: reflected difference returned the difference of
 the wrong side

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index e1071c6..47334cb 100644
--- a/causet.py
+++ b/causet.py
@@ -395,7 +395,7 @@ class Causet(object):
         return self._events - set(other)
 
     def __rsub__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
-        return self._events - set(other)
+        return set(other) - self._events
 
     def __or__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
         return self._events | set(other)
-- 
2.43.0


From f6aad21229ed6c9832d192735452ed7a08a8b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 16/63] fix: PastOf, FutureOf and ConeOf were always empty with
 intersect

---
 causet.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/causet.py b/causet.py
index 47334cb..32fe3bc 100644
--- a/causet.py
+++ b/causet.py
@@ -545,11 +545,13 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.PresentOrPast
+            if eventSet:
+                newEventSet = set.intersection(
+                    *[e.PresentOrPast for e in eventSet])
         elif intersect:
-            for e in eventSet:
-                newEventSet &= e.Past
+            if eventSet:
+                newEventSet = set.intersection(
+                    *[e.Past for e in eventSet])
         else:
             for e in eventSet:
                 newEventSet |= e.Past
@@ -565,11 +567,13 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.PresentOrFuture
+            if eventSet:
+                newEventSet = set.intersection(
+                    *[e.PresentOrFuture for e in eventSet])
         elif intersect:
-            for e in eventSet:
-                newEventSet &= e.Future
+            if eventSet:
+                newEventSet = set.intersection(
+                    *[e.Future for e in eventSet])
         else:
             for e in eventSet:
                 newEventSet |= e.Future
@@ -585,11 +589,13 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.Cone
+            if eventSet:
+                newEventSet = set.intersection(
+                    *[e.Cone for e in eventSet])
         elif intersect:
-            for e in eventSet:
-                newEventSet &= (e.Past | e.Future)
+            if eventSet:
+                newEventSet = set.intersection(
+                    *[e.Past | e.Future for e in eventSet])
         else:
             for e in eventSet:
                 newEventSet |= e.Past | e.Future
-- 
2.43.0


From b088493dd7df34f1b55a8fcbd331f8bb9f074b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 17/63] fix: sorting and matrices raised TypeError for events
 without label

---
 causet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causet.py b/causet.py
index 32fe3bc..4b3bf3c 100644
--- a/causet.py
+++ b/causet.py
@@ -1134,11 +1134,13 @@ class Causet(object):
         '''
         if eventSet is None:
             eventSet = self._events
-        unsortedList: List[CausetEvent] = list(eventSet)
+        unsortedList: List[CausetEvent] = \
+            [e for e in eventSet if e.Label is not None]
         sortedIndex: np.ndarray = \
             np.argsort([e.Label for e in unsortedList])
         sortedList: List[CausetEvent] = \
-            [unsortedList[i] for i in sortedIndex]
+            [unsortedList[i] for i in sortedIndex] + \
+            [e for e in eventSet if e.Label is None]
         if reverse:
             sortedList.reverse()
         return sortedList
-- 
2.43.0


From 228172127f17c398766c032843fcf68e37ae698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 18/63] fix: FromTextFile failed for files with a single row

---
 causet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causet.py b/causet.py
index 4b3bf3c..f208ee6 100644
--- a/causet.py
+++ b/causet.py
@@ -211,6 +211,7 @@ class Causet(object):
         the `genfromtxt` function of `numpy`. The resulting logical matrix is 
         parsed with `FromPastMatrix` or `FromFutureMatrix`.
         '''
+        kwargs.setdefault('ndmin', 2)
         C: np.ndarray = np.genfromtxt(filename, dtype=int,
                                       delimiter=delimiter, **kwargs)
         C = C.astype(bool)
-- 
2.43.0


From 53d28e15d388793f4a06d7c9fa6537914435236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 19/63] fix: sprinkling into a bicone left the coordinates
 uninitialised

---
 sprinkledcauset.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 28dfc3c..7389675 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -82,19 +82,21 @@ class SprinkledCauset(EmbeddedCauset):
                 high = shape.Center + shape.Parameter('edge') / 2
             for i in range(count):
                 coords[i, :] = rng.uniform(low, high)
-        elif shape.Name in ('ball', 'cylinder', 'diamond'):
+        elif shape.Name in ('ball', 'cylinder', 'bicone'):
             # Create circle based sprinkle:
             isCylindrical: bool = 'cylinder' in shape.Name
-            isDiamond: bool = 'diamond' in shape.Name
+            isDiamond: bool = 'bicone' in shape.Name
             d: int = self.Dim
             b_r: float = shape.Parameter('radius')
-            if (d == 2) and isDiamond:
+            hollow: float = shape.Parameter('hollow')
+            if (d == 2) and isDiamond and (hollow == 0.0):
                 # pick `count` random coordinate tuples uniformly:
                 uv: np.ndarray = rng.uniform(low=-1.0, high=1.0,
                                              size=(count, 2))
                 coords[:, 0] = uv[:, 0] + uv[:, 1]
                 coords[:, 1] = uv[:, 0] - uv[:, 1]
                 coords *= b_r / 2
+                coords += shape.Center
             else:
                 b_dstart: int = 0 if shape.Name == 'ball' else 1
                 b_d: int = d - b_dstart
@@ -107,7 +109,7 @@ class SprinkledCauset(EmbeddedCauset):
                     coords[:, 0] = rng.uniform(time_low, time_high,
                                                size=(count,))
                 # pick `count` random coordinate tuples uniformly:
-                r_low: float = shape.Parameter('hollow')**b_d
+                r_low: float = 0.0 if isDiamond else hollow**b_d
                 for i in range(count):
                     # get coordinates on sphere using normal distribution:
                     coord: np.ndarray = rng.standard_normal(size=(b_d,))
@@ -119,9 +121,16 @@ class SprinkledCauset(EmbeddedCauset):
                         h_squeeze: float = rng.uniform()**(1.0 / d)
                         h_sign: float = np.sign(
                             rng.uniform(low=-1.0, high=1.0))
-                        coords[i, 0] = h_sign * (1 - h_squeeze) * b_r
-                        # adjust scaling:
+                        # move points out of the empty interior:
+                        t_scaling: float = 1 - h_squeeze
                         r_scaling *= h_squeeze
+                        size: float = t_scaling + r_scaling
+                        resize: float = (hollow**d + (1 - hollow**d) *
+                                         size**d)**(1.0 / d) / size
+                        coords[i, 0] = shape.Center[0] + \
+                            h_sign * t_scaling * resize * b_r
+                        # adjust scaling:
+                        r_scaling *= resize
                     coords[i, b_dstart:] = shape.Center[b_dstart:] + \
                         (r_scaling * b_r / r) * coord
         return coords
-- 
2.43.0


From 3ad310b412f6ee64756b0c77b3e818f1495f45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 20/63] fix: sprinkling into one-dimensional cylinders and
 bicones divided by zero

---
 sprinkledcauset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 7389675..f5a79da 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -115,7 +115,8 @@ class SprinkledCauset(EmbeddedCauset):
                     coord: np.ndarray = rng.standard_normal(size=(b_d,))
                     r: float = np.sqrt(sum(np.square(coord)))
                     r_scaling: float
-                    r_scaling = rng.uniform(low=r_low)**(1.0 / b_d)
+                    r_scaling = rng.uniform(low=r_low)**(1.0 / b_d) \
+                        if b_d > 0 else 0.0
                     if isDiamond:
                         # set time coordinate:
                         h_squeeze: float = rng.uniform()**(1.0 / d)
@@ -131,8 +132,9 @@ class SprinkledCauset(EmbeddedCauset):
                             h_sign * t_scaling * resize * b_r
                         # adjust scaling:
                         r_scaling *= resize
-                    coords[i, b_dstart:] = shape.Center[b_dstart:] + \
-                        (r_scaling * b_r / r) * coord
+                    if b_d > 0:
+                        coords[i, b_dstart:] = shape.Center[b_dstart:] + \
+                            (r_scaling * b_r / r) * coord
         return coords
 
     def sprinkle(self, count: int, rng=default_rng(),
-- 
2.43.0


From eba0483e46962714b49c6fa82afe55af8f5160c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 21/63] fix: events without coordinates or position counted as
 embedded and positioned

---
 causetevent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index ffbfc31..3e6fc64 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -63,8 +63,10 @@ class CausetEvent(object):
             e._succ.update(self._succ)
         for e in self._succ:
             e._prec.update(self._prec)
-        self._coordinates = list(kwargs.get('coordinates', []))
-        self._position = list(kwargs.get('position', []))
+        if 'coordinates' in kwargs:
+            self._coordinates = list(kwargs['coordinates'])
+        if 'position' in kwargs:
+            self._position = list(kwargs['position'])
         # Add this instance to its causal relatives:
         for e in self._prec:
             e._addToFuture(self)
-- 
2.43.0


From 25bfb4af3951239bb94c53342de3f1905ef2aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 22/63] fix: length scale of embedded causets was the inverse
 of the documented one

---
 embeddedcauset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index f8a7ca8..6477a06 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -184,7 +184,7 @@ class EmbeddedCauset(Causet):
         Returns the fundamental length scale as inverse d-root of 
         `self.Density` if `card > 0`, else 0.0. 
         '''
-        return 0.0 if self.Card == 0 else self.Density**(1.0 / self.Shape.Dim)
+        return 0.0 if self.Card == 0 else self.Density**(-1.0 / self.Shape.Dim)
 
     def create(self, coordinates: Union[List[List[float]],
                                         List[np.ndarray],
-- 
2.43.0


From 6501ab82d70e9d494470c9095d8fecb346df6170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 23/63] fix: embedded causets accepted coordinate lists of the
 wrong dimension

---
 embeddedcauset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index 6477a06..4bf8d82 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -111,9 +111,11 @@ class EmbeddedCauset(Causet):
         # create new events:
         if coordinates is not None:
             # add labelled events with coordinates:
-            if isinstance(coordinates, np.ndarray) and \
-                    ((coordinates.ndim != 2) or
-                     (coordinates.shape[1] != defaultShape.Dim)):
+            if isinstance(coordinates, np.ndarray):
+                if (coordinates.ndim != 2) or \
+                        (coordinates.shape[1] != defaultShape.Dim):
+                    self.__raiseDimValueError__('coordinates')
+            elif any(len(c) != defaultShape.Dim for c in coordinates):
                 self.__raiseDimValueError__('coordinates')
             self.create(coordinates)
 
-- 
2.43.0


From 122c1b15a51f42b60aea55196a515736cbca137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 24/63] fix: anti-de Sitter causality was periodic in time

---
 spacetimes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spacetimes.py b/spacetimes.py
index f41880b..3f77772 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -646,11 +646,12 @@ class AntideSitterSpacetime(_dSSpacetime):
             x1_x: float = amp_x * math.cos(x[0] / self._alpha)
             x0_y: float = amp_y * math.sin(y[0] / self._alpha)
             x1_y: float = amp_y * math.cos(y[0] / self._alpha)
-            x0_delta: float = x0_y - x0_x
-            isCausal: bool = x0_delta**2 + (x1_y - x1_x)**2 >= \
+            t_delta: float = y[0] - x[0]
+            isCausal: bool = abs(t_delta) >= math.pi * self._alpha or \
+                (x0_y - x0_x)**2 + (x1_y - x1_x)**2 >= \
                 sum(np.square(y[1:] - x[1:])) - causality_eps
-            return ((x0_delta >= 0.0) and isCausal,
-                    (x0_delta < 0.0) and isCausal)
+            return ((t_delta >= 0.0) and isCausal,
+                    (t_delta < 0.0) and isCausal)
         return isCausal_AdS
 
 
-- 
2.43.0


From c279414e24e81553dff772f0928af0a515bb6518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 25/63] fix: periodic causality failed for points more than a
 period apart

---
 spacetimes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spacetimes.py b/spacetimes.py
index 3f77772..e4be0a6 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -317,6 +317,7 @@ class FlatSpacetime(Spacetime):
                     t_delta: float = y[0] - x[0]
                     r_delta: float = abs(y[1] - x[1])
                     if _period[0] > 0.0:
+                        r_delta = r_delta % _period[0]
                         r_delta = min(r_delta, _period[0] - r_delta)
                     isCausal: bool = abs(t_delta) >= \
                         abs(r_delta) - causality_eps
@@ -331,6 +332,7 @@ class FlatSpacetime(Spacetime):
                     for i in range(1, self.Dim):
                         r_delta_i: float = abs(y[i] - x[i])
                         if _period[i - 1] > 0.0:
+                            r_delta_i = r_delta_i % _period[i - 1]
                             r_delta_i = min(r_delta_i,
                                             _period[i - 1] - r_delta_i)
                         r2_delta += r_delta_i**2
-- 
2.43.0


From 77068e2c5cf8d288f534be1a1dc259ec5a72eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 26/63] fix: text representation of spacetimes failed or could
 not be evaluated

---
 spacetimes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spacetimes.py b/spacetimes.py
index e4be0a6..3510e1a 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -278,7 +278,9 @@ class FlatSpacetime(Spacetime):
             self._params['period'] = _periods
 
     def __repr__(self):
-        _period: Tuple[float, ...] = self.Parameter('period')
+        if not self.Parameter('isPeriodic'):
+            return f'{self.__class__.__name__}({self._dim})'
+        _period: Tuple[float, ...] = tuple(self.Parameter('period'))
         return f'{self.__class__.__name__}({self._dim}, period={_period})'
 
     def DefaultShape(self) -> CoordinateShape:
@@ -691,7 +693,7 @@ class BlackHoleSpacetime(Spacetime):
 
     def __repr__(self):
         return f'{self.__class__.__name__}({self._dim}, ' + \
-            f'r_S={self._r_S}, metric={self._metricname})'
+            f'r_S={self._r_S}, metric=\'{self._metricname}\')'
 
     def _light_EF(self, t0: float, r0: float, ingoing: bool = False,
                   derivative: int = 0) -> Callable[[Any], Any]:
-- 
2.43.0


From dc41b246d4da65fe00b0ea2033782727ee8401ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 27/63] fix: text representation of coordinate shapes raised
 AttributeError

---
 shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index d118fb3..4eef303 100644
--- a/shapes.py
+++ b/shapes.py
@@ -143,7 +143,7 @@ class CoordinateShape(object):
             return f'{self._dim}-{self._name}'
 
     def __repr__(self):
-        return f'{self._class__._name__}(' + \
+        return f'{self.__class__.__name__}(' + \
             f'{self._dim}, {self._name}, center={self._center}, ' + \
             f'**{self._params})'
 
-- 
2.43.0


From cd8a9bed60c0f375ee668e274abb92cbe71bc61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 28/63] fix: harmonic numbers overflowed for large arguments

---
 calculations.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/calculations.py b/calculations.py
index 33ee0eb..8bbb4a1 100644
--- a/calculations.py
+++ b/calculations.py
@@ -42,11 +42,11 @@ def HarmonicNumbers(n: int, approximate: int = 100) -> np.ndarray:
         H[k] = total
         total += 1. / (k + 1)
     if n >= approximate:
-        n_range: np.ndarray = np.arange(approximate, n + 1)
-        H[n_range] = np.log(n_range) + np.euler_gamma
-        H[n_range] += 0.5 / n_range
-        H[n_range] -= 0.25 / 3 / np.square(n_range)
-        H[n_range] += 0.025 / 3 / np.square(np.square(n_range))
+        n_range: np.ndarray = np.arange(approximate, n + 1, dtype=float)
+        H[approximate:] = np.log(n_range) + np.euler_gamma
+        H[approximate:] += 0.5 / n_range
+        H[approximate:] -= 0.25 / 3 / np.square(n_range)
+        H[approximate:] += 0.025 / 3 / np.square(np.square(n_range))
     return H
 
 
-- 
2.43.0


From f39e60b34165d4e5d54b8077480dd0384e9d48d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 29/63] fix: colour lime of ImperialLondon was not a colour

---
 colorschemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/colorschemes.py b/colorschemes.py
index abc0813..72e2ec1 100644
--- a/colorschemes.py
+++ b/colorschemes.py
@@ -66,7 +66,7 @@ ColorSchemes: Dict[str, Dict[str, str]] = {
                               'cyan':        '#009CBC',
                               'green':       '#02893B',
                               'kermitgreen': '#66A40A',
-                              'lime':        '#BBCEOO',
+                              'lime':        '#BBCE00',
                               'yellow':      '#FFDD00',
                               'tangerine':   '#EC7300',
                               'orange':      '#D24000',
-- 
2.43.0


From 1815daf7be5d853de6844a91ba9988d0099aa4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 30/63] fix: plotting cones without fading raised
 UnboundLocalError

---
 causetplotting.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/causetplotting.py b/causetplotting.py
index ba0e559..b97afbe 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -394,29 +394,25 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
         plot_spacetime = spacetime
         coordattr = 'Coordinates'
     if isPlottingPastcones:
-        pcn_alpha_max: float
+        pcn_alpha: Optional[Callable[[float], float]] = None
         if plotting['conetimefade'] != '':
-            try:
-                pcn_alpha_max = plotting['pastcones']['alpha']
-            except KeyError:
-                pcn_alpha_max = 1.0
+            pcn_alpha = dynamic_parameter(
+                plotting['conetimefade'], dim,
+                abs(plotting['conetimedepth']),
+                plotting['pastcones'].get('alpha', 1.0))
         plotpcone: Any = plot_spacetime.ConePlotter(
             _xy_z, plotting['pastcones'], timesign=-1, axes=ax,
-            dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
-                                           abs(plotting['conetimedepth']),
-                                           pcn_alpha_max))
+            dynamicAlpha=pcn_alpha)
     if isPlottingFuturecones:
-        fcn_alpha_max: float
+        fcn_alpha: Optional[Callable[[float], float]] = None
         if plotting['conetimefade'] != '':
-            try:
-                fcn_alpha_max = plotting['futurecones']['alpha']
-            except KeyError:
-                fcn_alpha_max = 1.0
+            fcn_alpha = dynamic_parameter(
+                plotting['conetimefade'], dim,
+                abs(plotting['conetimedepth']),
+                plotting['futurecones'].get('alpha', 1.0))
         plotfcone: Any = plot_spacetime.ConePlotter(
             _xy_z, plotting['futurecones'], timesign=1, axes=ax,
-            dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
-                                           abs(plotting['conetimedepth']),
-                                           fcn_alpha_max))
+            dynamicAlpha=fcn_alpha)
     # ====================
     plotting_links: Dict[str, Any] = {}
     if 'links' in plotting:
-- 
2.43.0


From 5ee8ebcff130a5ef3fc9169b1bfbf0d259998e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 31/63] fix: dynamic plots without links raised KeyError

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index b97afbe..eca7918 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -429,7 +429,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             plotting_labels = plotting['labels']
         dyn_links = dynamic_parameter(plotting['timefade'],
                                       dim, t_depth,
-                                      plotting_links['linewidth'])
+                                      plotting_links.get('linewidth', 2.0))
         dyn_events = dynamic_parameter(plotting['timefade'],
                                        dim, t_depth,
                                        plotting_events.get('alpha', 1.0))
-- 
2.43.0


From 8f01733e6fa8740f6334159086febf8bf8e746b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 32/63] fix: axis limits of the shape of an embedded causet
 raised TypeError

---
 causetplotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causetplotting.py b/causetplotting.py
index eca7918..107dd9b 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -350,6 +350,8 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     '''
     # ====================
     # get defaults and user-specified parameters:
+    if isinstance(E, EmbeddedCauset) and kwargs.get('axislim') == 'shape':
+        kwargs.update({'shape': E.Shape})
     plotting: Dict[str, Any] = plot_parameters(**kwargs)
     _h = {}  # holds Dict of artists
     # ====================
-- 
2.43.0


From 40384b5ea2779ba0ac78c84ee7ecefbc67e1ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 33/63] fix: empty sprinkles divided by zero on discard and for
 the length scale

---
 sprinkledcauset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index f5a79da..7a75d1c 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -62,7 +62,8 @@ class SprinkledCauset(EmbeddedCauset):
 
     @property
     def LengthScale(self) -> float:  # overwrites superclass
-        return (self.Shape.Volume / self._intensity)**(1.0 / self.Dim)
+        return 0.0 if self._intensity == 0.0 else \
+            (self.Shape.Volume / self._intensity)**(1.0 / self.Dim)
 
     def _sprinkle_coords(self, count: int, shape: CoordinateShape, rng) -> \
             np.ndarray:
@@ -188,4 +189,5 @@ class SprinkledCauset(EmbeddedCauset):
     def discard(self, eventSet: Iterable, unlink: bool = False) -> None:
         card_old: float = float(self.Card)
         super().discard(eventSet, unlink)
-        self._intensity *= (float(self.Card) / card_old)
+        if card_old > 0.0:
+            self._intensity *= (float(self.Card) / card_old)
-- 
2.43.0


From da5c51ac318c5a552981026914c8f21a539a2552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 34/63] fix: surfaces of cylinders and cones were misplaced for
 rotated axes

---
 shapes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shapes.py b/shapes.py
index 4eef303..9e428ea 100644
--- a/shapes.py
+++ b/shapes.py
@@ -545,6 +545,7 @@ def CylinderSurface(center: np.ndarray, radius: float, height: float,
         samplingsize = default_samplingsize
     samplingsize = samplingsize + 1
     phi: np.ndarray = np.linspace(0.0, 2.0 * np.pi, samplingsize)
+    center = np.roll(center, 2 - zaxis)  # rotated back below
     radii: np.ndarray
     relZ: np.ndarray
     sampling: np.ndarray = np.ones(samplingsize)
@@ -578,6 +579,7 @@ def OpenConeSurface(tip: np.ndarray, radius: float, height: float,
         samplingsize = default_samplingsize
     samplingsize = samplingsize + 1
     phi: np.ndarray = np.linspace(0.0, 2.0 * np.pi, samplingsize)
+    tip = np.roll(tip, 2 - zaxis)  # rotated back below
     radii: np.ndarray = radius * np.array([0.0, 1.0])
     XYZ: Tuple[np.ndarray, np.ndarray, np.ndarray] = \
         (np.outer(radii, np.cos(phi)) + tip[0],
-- 
2.43.0


From 4210dde4da641606793651ebc12d5d2b53322d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 35/63] fix: outline of cylinders was misplaced for time on the
 first axis

---
 shapes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index 9e428ea..9edde64 100644
--- a/shapes.py
+++ b/shapes.py
@@ -347,8 +347,11 @@ class CoordinateShape(object):
                                    hollow),
                         **plotoptions)
             elif self.Name == 'cylinder':
+                cylcenter: np.ndarray = self.Center[dims]
+                if timeaxis == 0:
+                    cylcenter = np.flip(cylcenter)
                 cyl: np.ndarray = CylinderCutEdge(
-                    self.Center[dims], self._params['radius'],
+                    cylcenter, self._params['radius'],
                     self._params['duration'], hollow)
                 if timeaxis == 0:
                     cyl = cyl[:, [1, 0]]
-- 
2.43.0


From 5db783726f00f61101af7ee43a2197cbec689a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 36/63] fix: distances in an antichain without neighbours were
 0 instead of -1

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index f208ee6..6f23768 100644
--- a/causet.py
+++ b/causet.py
@@ -1017,7 +1017,7 @@ class Causet(object):
                              'supported.\n' +
                              'Use \'ziczac\' or \'intersection\'.')
         l: int = len(antichain)
-        D: np.ndarray = np.zeros((l, l), dtype=int)
+        D: np.ndarray = np.eye(l, dtype=int) - 1
         ac_set: Set[CausetEvent] = set(antichain)
         slice_set: Set[CausetEvent] = ac_set
         thickerslice_set = self.Layers(slice_set, -1, 1)
-- 
2.43.0


From 2a9e41e3109da9ad3c0bf3f58fc20a8812c5fc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 37/63] fix: outlines of hollow shapes had a stray line to the
 hollow part

---
 shapes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shapes.py b/shapes.py
index 9edde64..c7b3f18 100644
--- a/shapes.py
+++ b/shapes.py
@@ -345,7 +345,7 @@ class CoordinateShape(object):
                     p = patches.Polygon(
                         CircleEdge(self.Center[dims], self._params['radius'],
                                    hollow),
-                        **plotoptions)
+                        closed=False, **plotoptions)
             elif self.Name == 'cylinder':
                 cylcenter: np.ndarray = self.Center[dims]
                 if timeaxis == 0:
@@ -355,12 +355,12 @@ class CoordinateShape(object):
                     self._params['duration'], hollow)
                 if timeaxis == 0:
                     cyl = cyl[:, [1, 0]]
-                p = patches.Polygon(cyl, **plotoptions)
+                p = patches.Polygon(cyl, closed=hollow == 0.0, **plotoptions)
             elif self.Name == 'bicone':
                 p = patches.Polygon(
                     BiconeEdge(self.Center[dims], self._params['radius'],
                                hollow),
-                    **plotoptions)
+                    closed=hollow == 0.0, **plotoptions)
             else:  # cuboid
                 edges: np.ndarray = self._params['edges'][dims]
                 p = patches.Rectangle(
-- 
2.43.0


From 95d5309686449872a3734462e4b9d18c1102fdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 38/63] fix: cones on periodic space had a stray line between
 the origins

---
 spacetimes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spacetimes.py b/spacetimes.py
index 3510e1a..13a6e96 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -458,7 +458,8 @@ class FlatSpacetime(Spacetime):
                     XY = XYpart if i == 0 \
                         else np.concatenate(
                             (XY, np.array([[np.nan, np.nan]]), XYpart))
-                p: Patch = patches.Polygon(XY, **plotting_params)
+                p: Patch = patches.Polygon(
+                    XY, closed=len(shifts) == 1, **plotting_params)
                 _axes.add_patch(p)
                 return p
 
-- 
2.43.0


From d04c2ecbed970afbc868b8dc4303f68e4194dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 39/63] fix: cone across the horizon in Schwarzschild
 coordinates filled a wrong area

---
 spacetimes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/spacetimes.py b/spacetimes.py
index 13a6e96..5698cc4 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -233,7 +233,9 @@ class Spacetime(object):
                 # rotate:
                 if timeaxis == 0:
                     XY = np.fliplr(XY)
-                p: Patch = patches.Polygon(XY, **plotting_params)
+                # parts separated by nan are closed already:
+                p: Patch = patches.Polygon(
+                    XY, closed=not np.isnan(XY).any(), **plotting_params)
                 _axes.add_patch(p)
                 return p
 
@@ -853,12 +855,14 @@ class BlackHoleSpacetime(Spacetime):
                 if (t_sing < t) and (origin[0] < t):
                     r_in = Newton(f_in, fd_in, self._r_S / 2.0, t,
                                   xmin=0.0, xmax=self._r_S)
-                    XT_inner: np.ndarray = np.zeros((samplingsize + 1, 2))
+                    XT_inner: np.ndarray = np.zeros((samplingsize + 2, 2))
                     X = np.linspace(r_in, 0.0, samplingsize)
                     XT_inner[:samplingsize, 0] = np.copysign(X, origin[xdim])
                     XT_inner[:samplingsize, 1] = f_in(X)
-                    XT_inner[-1, :] = [0.0, t]
-                    XT = np.concatenate((XT, [[np.nan, np.nan]], XT_inner))
+                    XT_inner[-2, :] = [0.0, t]
+                    XT_inner[-1, :] = XT_inner[0, :]
+                    XT = np.concatenate((XT, XT[:1, :], [[np.nan, np.nan]],
+                                         XT_inner))
         else:  # Eddington-Finkelstein metric
             r_in = origin[0] - t + r_0
             n = 2 if r_in < 0.0 else 1
-- 
2.43.0


From 25edd8ac6db193109043412d774342c80bb3368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 40/63] fix: plot with a list of a single time raised
 ValueError

---
 causetplotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causetplotting.py b/causetplotting.py
index 107dd9b..40f84e3 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -692,10 +692,10 @@ def plot(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     '''
     time: np.ndarray = np.zeros(2)
     if 'time' in kwargs:
-        if np.shape(kwargs['time']) == (2,):
-            time = kwargs['time']
-        else:
+        if np.shape(kwargs['time']) == ():
             time = np.array([kwargs['time'], kwargs['time']])
+        else:
+            time = kwargs['time']
     return Plotter(E, plotAxes, spacetime, **kwargs)(time)
 
 
-- 
2.43.0


From 659b3954393aca6e3f0281faf3651443d42c64a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 41/63] fix: relating an embedded causet left one-sided
 relations to events outside

---
 embeddedcauset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index 4bf8d82..3e1c096 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -217,6 +217,11 @@ class EmbeddedCauset(Causet):
         '''
         _iscausal: Callable[[np.ndarray, np.ndarray],
                             Tuple[bool, bool]] = self._spacetime.Causality()
+        # separate the events from related events outside of this instance:
+        for e in self.ConeOf(self._events) - self._events:
+            e.unlink()
+            e._prec -= self._events
+            e._succ -= self._events
         for e in self._events:
             e._prec = set()
             e._succ = set()
-- 
2.43.0


From d65040aa8c75391e5b6b83cda1da1946a9c30212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 42/63] fix: plotting a hollow bicone in 3D shrank the radius
 of the shape

---
 shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index c7b3f18..5f115dc 100644
--- a/shapes.py
+++ b/shapes.py
@@ -315,7 +315,7 @@ class CoordinateShape(object):
                 S = OpenConeSurface(tip, r, r, timeaxis) + \
                     OpenConeSurface(top, r, -r, timeaxis)
                 if hollow > 0.0:
-                    r *= hollow
+                    r = hollow * r
                     tip[timeaxis] = conecenter[timeaxis] - r
                     top[timeaxis] = conecenter[timeaxis] + r
                     S = OpenConeSurface(tip, r, r, timeaxis) + \
-- 
2.43.0


From 2747c0c409acde111bd00debe46901057305e593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 43/63] fix: de Sitter causality at large times

The hyperbolic functions of the absolute time lose all digits beyond 16
horizon radii and overflow beyond 710, although causality only depends
on the time difference.
---
 spacetimes.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/spacetimes.py b/spacetimes.py
index 5698cc4..71ee493 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -558,16 +558,16 @@ class deSitterSpacetime(_dSSpacetime):
                 return (False, False)
             amp_x: float = math.sqrt(self._alpha_sq - r2_x)
             amp_y: float = math.sqrt(self._alpha_sq - r2_y)
-            x0_x: float = amp_x * math.sinh(x[0] / self._alpha)
-            x1_x: float = amp_x * math.cosh(x[0] / self._alpha)
-            x0_y: float = amp_y * math.sinh(y[0] / self._alpha)
-            x1_y: float = amp_y * math.cosh(y[0] / self._alpha)
-            x0_delta: float = x0_y - x0_x
-            isCausal: bool = x0_delta**2 >= \
-                sum(np.square(y[1:] - x[1:])) + (x1_y - x1_x)**2 - \
-                causality_eps
-            return ((x0_delta >= 0.0) and isCausal,
-                    (x0_delta < 0.0) and isCausal)
+            t_delta: float = y[0] - x[0]
+            # squared distance in the embedding space at equal times, and the
+            # travel time of light, which is invariant under time translation:
+            dist2: float = sum(np.square(y[1:] - x[1:])) + \
+                (amp_y - amp_x)**2 - causality_eps
+            t_light: float = 2.0 * self._alpha * math.asinh(
+                math.sqrt(max(dist2, 0.0) / (amp_x * amp_y)) / 2.0)
+            isCausal: bool = abs(t_delta) >= t_light
+            return ((t_delta >= 0.0) and isCausal,
+                    (t_delta < 0.0) and isCausal)
         return isCausal_dS
 
     def _XT_slice2(self, t: float, t0: float,
-- 
2.43.0


From 8cbe0e6da326e12c128698abeda6b49c8b72efc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 44/63] fix: black hole causality along the horizon

Two points on the horizon are on the same outgoing light ray, but were
compared with the undefined difference of its infinite coordinate.
---
 spacetimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spacetimes.py b/spacetimes.py
index 71ee493..4530241 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -786,7 +786,7 @@ class BlackHoleSpacetime(Spacetime):
                 t_out: float = _func(r_y) - _func(r_x)
                 t_in: float = -t_out if isSchwarzschildMetric \
                     else r_x - r_y
-                if r_y <= r_x <= self._r_S:  # x is inside, y < x
+                if r_y <= r_x < self._r_S:  # x is inside, y < x
                     isCausal = t_out >= t_delta >= t_in
                 elif self._r_S <= r_x >= r_y:  # x is outside, y < x
                     isCausal = t_delta >= t_in
-- 
2.43.0


From 3d0ec16a67fd24e9e8bd6e915181fb9d9c106cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 45/63] fix: black hole cones that approach the horizon end at
 the slice

The radius of the light ray at the slice is only known to the precision
of Newton's method, so that the drawn ray ended before slices more than
about 14 horizon radii away and the cone was cut off.
---
 spacetimes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spacetimes.py b/spacetimes.py
index 4530241..4c183cc 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -836,21 +836,25 @@ class BlackHoleSpacetime(Spacetime):
                     X = np.linspace(r_out, r_0, samplingsize)
                     XT[:samplingsize, 0] = np.copysign(X, origin[xdim])
                     XT[:samplingsize, 1] = f_in(X)
+                    XT[0, 1] = t
                     r_in = Newton(f_out, fd_out, r_0, t,
                                   xmin=0.0, xmax=self._r_S)
                     X = np.linspace(r_0, r_in, samplingsize)
                     XT[-samplingsize:, 0] = np.copysign(X, origin[xdim])
                     XT[-samplingsize:, 1] = f_out(X)
+                    XT[-1, 1] = t
             else:  # outside the horizon
                 XT = np.zeros((2 * samplingsize, 2))
                 r_out = Newton(f_out, fd_out, r_0, t, xmin=self._r_S)
                 X = np.linspace(r_0, r_out, samplingsize)
                 XT[:samplingsize, 0] = np.copysign(X, origin[xdim])
                 XT[:samplingsize, 1] = f_out(X)
+                XT[samplingsize - 1, 1] = t
                 r_in = Newton(f_in, fd_in, r_0, t, xmin=self._r_S)
                 X = np.linspace(r_in, r_0, samplingsize)
                 XT[-samplingsize:, 0] = np.copysign(X, origin[xdim])
                 XT[-samplingsize:, 1] = f_in(X)
+                XT[-samplingsize, 1] = t
                 t_sing: float = f_in(0.0)
                 if (t_sing < t) and (origin[0] < t):
                     r_in = Newton(f_in, fd_in, self._r_S / 2.0, t,
@@ -859,6 +863,7 @@ class BlackHoleSpacetime(Spacetime):
                     X = np.linspace(r_in, 0.0, samplingsize)
                     XT_inner[:samplingsize, 0] = np.copysign(X, origin[xdim])
                     XT_inner[:samplingsize, 1] = f_in(X)
+                    XT_inner[0, 1] = t
                     XT_inner[-2, :] = [0.0, t]
                     XT_inner[-1, :] = XT_inner[0, :]
                     XT = np.concatenate((XT, XT[:1, :], [[np.nan, np.nan]],
@@ -885,6 +890,7 @@ class BlackHoleSpacetime(Spacetime):
                 X = np.linspace(r_0, r_out, samplingsize)
                 XT[:-n, 0] = np.copysign(X, origin[xdim])
                 XT[:-n, 1] = f_out(X)
+                XT[-n - 1, 1] = t
             if r_in < 0.0:
                 XT[-2, :] = [0.0, t]
                 XT[-1, :] = [0.0, origin[0] + r_0]
-- 
2.43.0


From c9a84fc899ee3b469789b40efb367162c53ac476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 46/63] fix: sortedByLabels compared large integer labels as
 floats

Labels on both sides of 2^63 were converted to a common float type, which
does not distinguish integers beyond 2^53.
---
 causet.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causet.py b/causet.py
index 6f23768..b379be6 100644
--- a/causet.py
+++ b/causet.py
@@ -1137,10 +1137,11 @@ class Causet(object):
             eventSet = self._events
         unsortedList: List[CausetEvent] = \
             [e for e in eventSet if e.Label is not None]
-        sortedIndex: np.ndarray = \
-            np.argsort([e.Label for e in unsortedList])
-        sortedList: List[CausetEvent] = \
-            [unsortedList[i] for i in sortedIndex] + \
+        try:
+            unsortedList.sort(key=lambda e: e.Label)
+        except TypeError:  # labels of different types
+            unsortedList.sort(key=lambda e: str(e.Label))
+        sortedList: List[CausetEvent] = unsortedList + \
             [e for e in eventSet if e.Label is None]
         if reverse:
             sortedList.reverse()
-- 
2.43.0


From 9c9578f49d9a861ff4dff26a0df709bb15b01f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 47/63] fix: merge event sets that are iterators

---
 causet.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causet.py b/causet.py
index b379be6..d854c4b 100644
--- a/causet.py
+++ b/causet.py
@@ -229,11 +229,12 @@ class Causet(object):
         If not `disjoint` (default), then the event of `pastSet` are also 
         assigned to the the past of every event in `futureSet` and vice versa.
         '''
+        pastSet, futureSet = set(pastSet), set(futureSet)
         if not disjoint:  # add pastSet as past of futureSet
             pastEvents: Set[CausetEvent] = \
-                Causet.PastOf(set(pastSet), includePresent=True)
+                Causet.PastOf(pastSet, includePresent=True)
             futureEvents: Set[CausetEvent] = \
-                Causet.FutureOf(set(futureSet), includePresent=True)
+                Causet.FutureOf(futureSet, includePresent=True)
             # reset the link memory to be computed for the new relations:
             linkedEvents: List[CausetEvent] = [
                 e for e in pastEvents | futureEvents if e.hasBeenLinked()]
@@ -245,7 +246,7 @@ class Causet(object):
                     f._addToPast(p)
             for e in linkedEvents:
                 e.link()
-        return Causet(set(pastSet) | set(futureSet))
+        return Causet(pastSet | futureSet)
 
     def add(self, eventSet: Iterable, unlink: bool = False) -> None:
         '''
-- 
2.43.0


From e7a821e98aeb0bd2fb49d4f2828618d3601c0f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 48/63] fix: antipaths along an iterator

---
 causet.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causet.py b/causet.py
index d854c4b..7f8abaa 100644
--- a/causet.py
+++ b/causet.py
@@ -1064,11 +1064,12 @@ class Causet(object):
         As optional argument, the distances matrix can be specified if it has 
         already been computed.
         '''
-        if a is b and a in along:
+        antichainList: List[CausetEvent] = list(along)
+        if a is b and a in antichainList:
             yield [a]
-        if not (a.isSpacelikeTo(b) and a in along and b in along):
+        if not (a.isSpacelikeTo(b) and a in antichainList and
+                b in antichainList):
             return
-        antichainList: List[CausetEvent] = list(along)
         a_idx: int = antichainList.index(a)
         b_idx: int = antichainList.index(b)
         D: np.ndarray = distances if distances is not None \
-- 
2.43.0


From 6e81e3100f604ed205a94f17de8767fdde2875a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 49/63] fix: a failing event creation leaves the related events
 unchanged

---
 causetevent.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 3e6fc64..9a2dd08 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -58,15 +58,15 @@ class CausetEvent(object):
         self._succ = set()
         for e in kwargs.get('future', []):
             self._succ.update(e.PresentOrFuture)
+        if 'coordinates' in kwargs:
+            self._coordinates = list(kwargs['coordinates'])
+        if 'position' in kwargs:
+            self._position = list(kwargs['position'])
         # Relate the past events to the future events (via this instance):
         for e in self._prec:
             e._succ.update(self._succ)
         for e in self._succ:
             e._prec.update(self._prec)
-        if 'coordinates' in kwargs:
-            self._coordinates = list(kwargs['coordinates'])
-        if 'position' in kwargs:
-            self._position = list(kwargs['position'])
         # Add this instance to its causal relatives:
         for e in self._prec:
             e._addToFuture(self)
-- 
2.43.0


From 2cc7730a666bb1d6bf89d5c399faf2f6d3e83b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 50/63] fix: the position given to a new event has to be a pair

---
 causetevent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetevent.py b/causetevent.py
index 9a2dd08..1c4d6fd 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -61,7 +61,7 @@ class CausetEvent(object):
         if 'coordinates' in kwargs:
             self._coordinates = list(kwargs['coordinates'])
         if 'position' in kwargs:
-            self._position = list(kwargs['position'])
+            self.Position = kwargs['position']
         # Relate the past events to the future events (via this instance):
         for e in self._prec:
             e._succ.update(self._succ)
-- 
2.43.0


From eaaedd2fabfaf8ff0b0771f285e0ecac6d2e6c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 51/63] fix: reject sprinkling shapes of another dimension

---
 sprinkledcauset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 7a75d1c..459719a 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -70,6 +70,9 @@ class SprinkledCauset(EmbeddedCauset):
         if count < 0:
             raise ValueError(
                 'The sprinkle cardinality has to be a non-negative integer.')
+        if shape.Dim != self.Dim:
+            raise ValueError(
+                'The dimension of the sprinkle shape is not compatible.')
         coords: np.ndarray = np.empty((count, self.Dim), dtype=np.float32)
         if shape.Name in ('cube', 'cuboid'):
             # Create rectangle based sprinkle:
-- 
2.43.0


From 7a5a1d5b642ddd64f299a21a139f6989591605ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 52/63] fix: a rejected sprinkle leaves the intensity unchanged

---
 sprinkledcauset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 459719a..a6330af 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -150,10 +150,10 @@ class SprinkledCauset(EmbeddedCauset):
         if count < 0:
             raise ValueError(
                 'The sprinkle cardinality has to be a non-negative integer.')
-        self._intensity += float(count)
         if shape is None:
             shape = self.Shape
         coords: np.ndarray = self._sprinkle_coords(count, shape, rng)
+        self._intensity += float(count)
         return super().create(coords)
 
     def intensify(self, intensity: float, rng=default_rng(),
@@ -166,11 +166,11 @@ class SprinkledCauset(EmbeddedCauset):
         if intensity < 0.0:
             raise ValueError(
                 'The intensity parameter has to be a non-negative float.')
-        self._intensity += intensity
         count: int = int(rng.poisson(lam=intensity))
         if shape is None:
             shape = self.Shape
         coords: np.ndarray = self._sprinkle_coords(count, shape, rng)
+        self._intensity += intensity
         return super().create(coords)
 
     def create(self, coords: Union[Iterable[List[float]],
-- 
2.43.0


From 6494fe886503a75d2ba5ef8c1bf6108b5d05ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 53/63] fix: reject the creation of events in another dimension

---
 embeddedcauset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index 3e1c096..a30001d 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -205,6 +205,8 @@ class EmbeddedCauset(Causet):
             CausetEvent(label=(n + i) if labelFormat is None else
                         labelFormat.format(n + i), coordinates=c)
             for i, c in enumerate(coordinates)}
+        if any(e.CoordinatesDim != self.Dim for e in eventSet):
+            self.__raiseDimValueError__('coordinates')
         self._events.update(eventSet)
         if relate:
             self.relate()
-- 
2.43.0


From 23318e6f4abd1bf6f76a4b2cdeacd55372682292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 54/63] fix: relate keeps the relations if events are not
 embedded

---
 embeddedcauset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index a30001d..b0c30d1 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -219,6 +219,9 @@ class EmbeddedCauset(Causet):
         '''
         _iscausal: Callable[[np.ndarray, np.ndarray],
                             Tuple[bool, bool]] = self._spacetime.Causality()
+        eventList: List[CausetEvent] = list(self._events)
+        coords: List[np.ndarray] = [np.array(e.Coordinates)
+                                    for e in eventList]
         # separate the events from related events outside of this instance:
         for e in self.ConeOf(self._events) - self._events:
             e.unlink()
@@ -227,13 +230,11 @@ class EmbeddedCauset(Causet):
         for e in self._events:
             e._prec = set()
             e._succ = set()
-        eventList: List[CausetEvent] = list(self._events)
         eventList_len: int = len(eventList)
         for i, a in enumerate(eventList):
             for j in range(i + 1, eventList_len):
                 b = eventList[j]
-                isAB, isBA = _iscausal(np.array(a.Coordinates),
-                                       np.array(b.Coordinates))
+                isAB, isBA = _iscausal(coords[i], coords[j])
                 if isAB:  # A in the past of B:
                     a._succ.add(b)
                     b._prec.add(a)
-- 
2.43.0


From 5cd49c9bd1929947086cfd99b0973e689bd5b7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 55/63] fix: centers and edges of shapes may be any iterables

---
 shapes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shapes.py b/shapes.py
index 5f115dc..d751903 100644
--- a/shapes.py
+++ b/shapes.py
@@ -80,7 +80,7 @@ class CoordinateShape(object):
         self._name = name
         # set centre point:
         try:
-            self._center = np.array(kwargs['center'], dtype=np.float32)
+            self._center = np.array(list(kwargs['center']), dtype=np.float32)
             if self._center.shape != (dim,):
                 raise TypeError
         except KeyError:
@@ -126,8 +126,10 @@ class CoordinateShape(object):
                                             dtype=np.float32)
             param_rangecheck('edge')
         elif name == 'cuboid':
+            edges: Any = kwargs.get('edges', np.ones((dim,)))
             self._params['edges'] = np.array(
-                kwargs.get('edges', np.ones((dim,))), dtype=np.float32)
+                list(edges) if np.iterable(edges) else edges,
+                dtype=np.float32)
             if self._params['edges'].shape != (dim,):
                 raise ValueError('The value for the key "edges" has ' +
                                  f'to be an Iterable of {dim} float values.')
-- 
2.43.0


From 6c7818c41425414a3dfadce88c151f21e596da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 56/63] fix: reject shape parameters that are not a number

---
 shapes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shapes.py b/shapes.py
index d751903..80d4107 100644
--- a/shapes.py
+++ b/shapes.py
@@ -91,8 +91,8 @@ class CoordinateShape(object):
 
         def param_rangecheck(p: str, maxValue: float = math.nan,
                              canBeZero: bool = False):
-            isTooLow: bool = (canBeZero and (self._params[p] < 0.0)) or \
-                (not canBeZero and self._params[p] <= 0.0)
+            isTooLow: bool = not (self._params[p] >= 0.0) if canBeZero \
+                else not (self._params[p] > 0.0)
             errorStr: str = 'greater than or equal to 0' if canBeZero else \
                 'greater than 0'
             if math.isnan(maxValue):
@@ -133,7 +133,7 @@ class CoordinateShape(object):
             if self._params['edges'].shape != (dim,):
                 raise ValueError('The value for the key "edges" has ' +
                                  f'to be an Iterable of {dim} float values.')
-            if any(x <= 0.0 for x in self._params['edges']):
+            if any(not (x > 0.0) for x in self._params['edges']):
                 raise ValueError('At least one edge length is out of range.' +
                                  'Each must be a float greater than 0.')
 
-- 
2.43.0


From 518c7735a192bcb3f669576c70d4486ed507db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:21 +0000
Subject: [PATCH 57/63] fix: link gaps sorted by coordinates that differ by
 rounding errors

---
 causetplotting.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/causetplotting.py b/causetplotting.py
index 40f84e3..b11f7b6 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -599,7 +599,13 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
                                 Y.append(c_b[_y])
                                 Z.append(c_b[_z])
                                 if len(X) > 3:
-                                    I = np.lexsort((X, Y, Z))
+                                    # sort from a to b:
+                                    I = np.argsort(
+                                        np.dot(np.transpose([X, Y, Z]),
+                                               [c_b[_x] - c_a[_x],
+                                                c_b[_y] - c_a[_y],
+                                                c_b[_z] - c_a[_z]]),
+                                        kind='stable')
                                     X = [X[i] for i in I]
                                     Y = [Y[i] for i in I]
                                     Z = [Z[i] for i in I]
@@ -626,7 +632,12 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
                                 X.append(c_b[_x])
                                 Y.append(c_b[_y])
                                 if len(X) > 3:
-                                    I = np.lexsort((X, Y))
+                                    # sort from a to b:
+                                    I = np.argsort(
+                                        np.dot(np.transpose([X, Y]),
+                                               [c_b[_x] - c_a[_x],
+                                                c_b[_y] - c_a[_y]]),
+                                        kind='stable')
                                     X = [X[i] for i in I]
                                     Y = [Y[i] for i in I]
                                 plotting_links.update(
-- 
2.43.0


From a47f28e8cc27612c70d1eece0218f690977708a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:44 +0000
Subject: [PATCH 58/63] fix: link gaps in plots of a small length scale

---
 causetplotting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/causetplotting.py b/causetplotting.py
index b11f7b6..0571421 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -566,6 +566,9 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
                         X: List[float] = [c_a[_x]]
                         Y: List[float] = [c_a[_y]]
                         area: float
+                        # tolerance for the area is relative to the length:
+                        area_eps: float = eps * np.sum(
+                            np.square(c_b[list(_xy_z)] - c_a[list(_xy_z)]))
                         if is3d:
                             Z: List[float] = [c_a[_z]]
                             if 'linkgaps' in plotting:
@@ -591,7 +594,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
                                                         d_ae[0] * d_eb[2])**2 +
                                                        (d_ae[0] * d_eb[1] -
                                                         d_ae[1] * d_eb[0])**2)
-                                        if area < eps:
+                                        if area <= area_eps:
                                             X.append(c_e[_x])
                                             Y.append(c_e[_y])
                                             Z.append(c_e[_z])
@@ -626,7 +629,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
                                                       (c_b[_y] - c_e[_y]) -
                                                       (c_e[_y] - c_a[_y]) *
                                                       (c_b[_x] - c_e[_x]))
-                                        if area < eps:
+                                        if area <= area_eps:
                                             X.append(c_e[_x])
                                             Y.append(c_e[_y])
                                 X.append(c_b[_x])
-- 
2.43.0


From 5a80254d493da1db648b6a8e1d52b150a9f77d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:44 +0000
Subject: [PATCH 59/63] fix: cones of black holes of a small radius

---
 spacetimes.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/spacetimes.py b/spacetimes.py
index 4c183cc..efa571d 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -807,6 +807,7 @@ class BlackHoleSpacetime(Spacetime):
         XT: np.ndarray
         X: np.ndarray
         n: int
+        prec: float = 1.0e-6 * self._r_S
         f_out: Callable[[float], float]
         fd_out: Callable[[float], float]
         if self._metricname == 'Schwarzschild':
@@ -832,25 +833,29 @@ class BlackHoleSpacetime(Spacetime):
                     XT[-samplingsize:, 0] = np.copysign(X, origin[xdim])
                     XT[-samplingsize:, 1] = f_in(X)
                 else:  # pointing outside
-                    r_out = Newton(f_in, fd_in, r_0, t, xmin=self._r_S)
+                    r_out = Newton(f_in, fd_in, r_0, t, xmin=self._r_S,
+                                   precission=prec)
                     X = np.linspace(r_out, r_0, samplingsize)
                     XT[:samplingsize, 0] = np.copysign(X, origin[xdim])
                     XT[:samplingsize, 1] = f_in(X)
                     XT[0, 1] = t
                     r_in = Newton(f_out, fd_out, r_0, t,
-                                  xmin=0.0, xmax=self._r_S)
+                                  xmin=0.0, xmax=self._r_S,
+                                  precission=prec)
                     X = np.linspace(r_0, r_in, samplingsize)
                     XT[-samplingsize:, 0] = np.copysign(X, origin[xdim])
                     XT[-samplingsize:, 1] = f_out(X)
                     XT[-1, 1] = t
             else:  # outside the horizon
                 XT = np.zeros((2 * samplingsize, 2))
-                r_out = Newton(f_out, fd_out, r_0, t, xmin=self._r_S)
+                r_out = Newton(f_out, fd_out, r_0, t, xmin=self._r_S,
+                               precission=prec)
                 X = np.linspace(r_0, r_out, samplingsize)
                 XT[:samplingsize, 0] = np.copysign(X, origin[xdim])
                 XT[:samplingsize, 1] = f_out(X)
                 XT[samplingsize - 1, 1] = t
-                r_in = Newton(f_in, fd_in, r_0, t, xmin=self._r_S)
+                r_in = Newton(f_in, fd_in, r_0, t, xmin=self._r_S,
+                              precission=prec)
                 X = np.linspace(r_in, r_0, samplingsize)
                 XT[-samplingsize:, 0] = np.copysign(X, origin[xdim])
                 XT[-samplingsize:, 1] = f_in(X)
@@ -858,7 +863,8 @@ class BlackHoleSpacetime(Spacetime):
                 t_sing: float = f_in(0.0)
                 if (t_sing < t) and (origin[0] < t):
                     r_in = Newton(f_in, fd_in, self._r_S / 2.0, t,
-                                  xmin=0.0, xmax=self._r_S)
+                                  xmin=0.0, xmax=self._r_S,
+                                  precission=prec)
                     XT_inner: np.ndarray = np.zeros((samplingsize + 2, 2))
                     X = np.linspace(r_in, 0.0, samplingsize)
                     XT_inner[:samplingsize, 0] = np.copysign(X, origin[xdim])
@@ -883,10 +889,12 @@ class BlackHoleSpacetime(Spacetime):
                 XT = np.zeros((samplingsize + n, 2))
                 if r_0 < self._r_S:
                     r_out = Newton(f_out, fd_out, r_0, t,
-                                   xmin=0.0, xmax=self._r_S)
+                                   xmin=0.0, xmax=self._r_S,
+                                   precission=prec)
                 else:
                     r_out = Newton(f_out, fd_out, 1.5 * self._r_S, t,
-                                   xmin=self._r_S)
+                                   xmin=self._r_S,
+                                   precission=prec)
                 X = np.linspace(r_0, r_out, samplingsize)
                 XT[:-n, 0] = np.copysign(X, origin[xdim])
                 XT[:-n, 1] = f_out(X)
-- 
2.43.0


From 5cae5ec94d8b588d818aba43ce7fd7d57268dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:44 +0000
Subject: [PATCH 60/63] fix: volumes of very small and very large shapes

---
 shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shapes.py b/shapes.py
index 80d4107..5000196 100644
--- a/shapes.py
+++ b/shapes.py
@@ -185,7 +185,7 @@ class CoordinateShape(object):
         '''
         if not hasattr(self, '_volume'):
             V: float = 0.0
-            r: float = self._params.get('radius', 0.0)
+            r: float = np.float64(self._params.get('radius', 0.0))
             isHollow: bool = self._params.get('hollow', 0.0) > 0.0
             if self._name == 'ball':
                 V = r**self._dim
@@ -208,7 +208,7 @@ class CoordinateShape(object):
                     math.gamma(self._dim / 2.0 + 0.5)
                 V *= 2.0 / self._dim
             elif self._name == 'cube':
-                V = self._params['edge']**self._dim
+                V = np.float64(self._params['edge'])**self._dim
             elif self._name == 'cuboid':
                 V = math.prod(self._params['edges'])
             self._volume = V
-- 
2.43.0


From 1a269576e658377f49daa0e999133943b0063229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:44 +0000
Subject: [PATCH 61/63] fix: embedded causets from an empty list of coordinates

---
 embeddedcauset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index b0c30d1..c1609d5 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -71,7 +71,10 @@ class EmbeddedCauset(Causet):
                 dim = spacetime.Dim
             elif (shape is not None) and isinstance(shape, CoordinateShape):
                 dim = shape.Dim
-            elif coordinates is not None:
+            elif isinstance(coordinates, np.ndarray) and \
+                    (coordinates.ndim == 2):
+                dim = coordinates.shape[1]
+            elif (coordinates is not None) and (len(coordinates) > 0):
                 dim = len(coordinates[0])
             else:
                 dim = 2  # default
-- 
2.43.0


From 12a4f3af91f5c3d0fcfbe330c78d8577bbc5d899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:11 +0000
Subject: [PATCH 62/63] fix: harmonic numbers of numpy integers

---
 calculations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calculations.py b/calculations.py
index 8bbb4a1..31294c9 100644
--- a/calculations.py
+++ b/calculations.py
@@ -23,8 +23,8 @@ def HarmonicNumber(n: int, approximate: int = 100) -> float:
     else:
         h: float = log(n) + np.euler_gamma
         h += 0.5 / n
-        h -= 0.25 / 3 / n**2
-        h += 0.025 / 3 / n**4
+        h -= 0.25 / 3 / float(n)**2
+        h += 0.025 / 3 / float(n)**4
         return h
 
 
-- 
2.43.0


From e8fd19b6809c60840b2d2a20437d8a800332c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:11 +0000
Subject: [PATCH 63/63] fix: relations of embedded events with integer
 coordinates

---
 embeddedcauset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index c1609d5..fad10c4 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -223,7 +223,7 @@ class EmbeddedCauset(Causet):
         _iscausal: Callable[[np.ndarray, np.ndarray],
                             Tuple[bool, bool]] = self._spacetime.Causality()
         eventList: List[CausetEvent] = list(self._events)
-        coords: List[np.ndarray] = [np.array(e.Coordinates)
+        coords: List[np.ndarray] = [np.array(e.Coordinates, dtype=float)
                                     for e in eventList]
         # separate the events from related events outside of this instance:
         for e in self.ConeOf(self._events) - self._events:
-- 
2.43.0

