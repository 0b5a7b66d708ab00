From 76a24085ea86efeeff8ec9c72b7f639bbe9a3a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:33 +0000
Subject: [PATCH 01/48] fix: pdict.set looped forever on a new key whose hash
 collides

---
 pcollections/_dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 347cac2..c37baab 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -205,10 +205,13 @@ class pdict(PersistentMapping):
                     else:
                         new_els = self._els.assoc(ii, ((key,val), ii_next))
                         return self._new(new_els, self._idx, self._top)
+                ii_prev = ii
+                ii = ii_next
             # If we reach this point, we can add the object to the end of the
             # list.
             new_els = self._els.assoc(self._top, ((key,val), None))
-            new_els = new_els.assoc(ii, (kv, self._top))
+            new_els = new_els.assoc(ii_prev, (kv, self._top))
+            new_idx = self._idx
         return self._new(new_els, new_idx, self._top + 1)
     def drop(self, key):
         """Returns a copy of the pdict that does not include the given key.
-- 
2.43.0


From a1072096ab9bd4bda5869df2db070533212b881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:33 +0000
Subject: [PATCH 02/48] fix: pset.add raised UnboundLocalError on a new member
 whose hash collides

---
 pcollections/_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pcollections/_set.py b/pcollections/_set.py
index 0f27017..e225068 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -102,6 +102,7 @@ class pset(PersistentSet):
             # list.
             new_els = self._els.assoc(self._top, (obj, None))
             new_els = new_els.assoc(ii_prev, (x_prev, self._top))
+            new_idx = self._idx
         return self._new(new_els, new_idx, self._top + 1)
     def discard(self, obj):
         """Returns a copy of the pset that does not include the given object.
-- 
2.43.0


From 0485d05c2be0e2e7f9d346909c7f6cf27295a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:33 +0000
Subject: [PATCH 03/48] fix: list slices with a zero stop, a negative step or
 far bounds were wrong

---
 pcollections/_list.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index e77e348..6560978 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -166,13 +166,7 @@ class plist(PersistentSequence):
         phamt = self._phamt
         n = len(phamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
+            (start,stop,step) = k.indices(n)
             if st != 0:
                 start += st
                 stop += st
@@ -273,13 +267,7 @@ class tlist(TransientSequence):
         thamt = self._thamt
         n = len(thamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
+            (start,stop,step) = k.indices(n)
             if st != 0:
                 start += st
                 stop += st
-- 
2.43.0


From 7a039f570f784d014f23bd67c2ab2252659f875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:34 +0000
Subject: [PATCH 04/48] fix: llist.delete at the ends returned a plist of
 unevaluated lazy objects

---
 pcollections/_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index 6560978..fc2cf9d 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -92,11 +92,11 @@ class plist(PersistentSequence):
         # Some cases don't require a THAMT:
         if index == 0:
             if n == 1:
-                return plist.empty
+                return self.clear()
             else:
-                return plist._new(phamt.dissoc(st), st + 1)
+                return self._new(phamt.dissoc(st), st + 1)
         elif index == n - 1:
-            return plist._new(phamt.dissoc(st + index), st)
+            return self._new(phamt.dissoc(st + index), st)
         # Other cases require moving elements around a fair bit, so we use a
         # THAMT object.
         thamt = THAMT(phamt)
-- 
2.43.0


From c5fbce42857a68cd84ee051f03fa33e46176b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:34 +0000
Subject: [PATCH 05/48] fix: llist.count compared unevaluated lazy objects

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 51484fa..bfbf136 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -171,7 +171,7 @@ class PersistentSequence(Persistent, Sequence):
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-        for (k,obj) in self._phamt:
+        for obj in self:
             if obj == value: n += 1
         return n
     def extend(self, iterable):
-- 
2.43.0


From e6f3b48e65fa05706ecf8979bd0b75ade4785e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:34 +0000
Subject: [PATCH 06/48] fix: tlist.index, count and remove were broken by
 duplicate definitions

---
 pcollections/abc/_seq.py | 41 ++++++++++------------------------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index bfbf136..1627b0b 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -349,8 +349,17 @@ class TransientSequence(Transient, MutableSequence):
 
         Raises ValueError if value is not present.
         """
+        n = len(self)
+        if start < 0:
+            start += n
+        if stop is None:
+            stop = n
+        elif stop < 0:
+            stop += n
         for (ii,el) in enumerate(self):
-            if value == el:
+            if ii >= stop:
+                break
+            elif ii >= start and el == value:
                 return ii
         raise ValueError(f'{value} is not in {type(self)}')
     def reverse(self):
@@ -404,36 +413,6 @@ class TransientSequence(Transient, MutableSequence):
     def __reversed__(self):
         n = len(self)
         return map(self.__getitem__, range(n - 1, -1, -1))
-    def count(self, value):
-        """Returns the number of occurences of value."""
-        n = 0
-        for (k,obj) in self._phamt:
-            if obj == value: n += 1
-        return n
-    def extend(self, iterable):
-        """Return a new persistent sequence with the iterables appended."""
-        for el in iterable:
-            self.append(el)
-    def index(self, value, start=0, stop=None):
-        """Returns first index of value.
-
-        Raises ValueError if value is not present.
-        """
-        if start == 0:
-            for (ii,val) in enumerate(self):
-                if ii >= stop:
-                    break
-                elif val == value:
-                    return ii
-        else:
-            for (ii,val) in enumerate(self):
-                if ii >= stop:
-                    break
-                elif ii < start:
-                    pass
-                elif val == value:
-                    return ii
-        raise ValueError(f"{value} is not in {type(self)}")
     def __iadd__(self, obj):
         if not isinstance(obj, (list, PersistentSequence, TransientSequence)):
             msg = (f"unsuppoorted operand type for +=:"
-- 
2.43.0


From 71697703d4ff18442098909a7631de32703836f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:34 +0000
Subject: [PATCH 07/48] fix: plist.index ignored negative start and stop bounds

---
 pcollections/abc/_seq.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 1627b0b..f92b573 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -185,8 +185,13 @@ class PersistentSequence(Persistent, Sequence):
 
         Raises ValueError if value is not present.
         """
+        n = len(self)
+        if start < 0:
+            start = max(start + n, 0)
         if stop is None:
-            stop = len(self)
+            stop = n
+        elif stop < 0:
+            stop += n
         if start == 0:
             for (ii,val) in enumerate(self):
                 if ii >= stop:
-- 
2.43.0


From c58b7f8d3fb15224e528491b9d081c941e79d759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 08/48] fix: tlist.sort raised NameError

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index f92b573..8a17dce 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -338,7 +338,7 @@ class TransientSequence(Transient, MutableSequence):
         The reverse flag can be set to sort in descending order.
         """
         for (ii,el) in enumerate(sorted(self, key=key, reverse=reverse)):
-            t[ii] = el
+            self[ii] = el
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-- 
2.43.0


From 42a54fb8e42f78ffee01648ef27bb3b4c87c49bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 09/48] fix: tlist.reverse raised IndexError

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 8a17dce..0d7f5ab 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -371,7 +371,7 @@ class TransientSequence(Transient, MutableSequence):
         """Reverses *IN PLACE*."""
         n = len(self)
         for k in range(n//2):
-            kk = n - k
+            kk = n - k - 1
             tmp = self[k]
             self[k] = self[kk]
             self[kk] = tmp
-- 
2.43.0


From b7a7caafa35aa248bc53c005c9cb8262c5a00d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 10/48] fix: list + tlist raised NameError

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 0d7f5ab..3e32b54 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -447,7 +447,7 @@ class TransientSequence(Transient, MutableSequence):
             t = self.copy()
             for el in reversed(obj):
                 t.prepend(el)
-            return r
+            return t
     def __imul__(self, value):
         if not isinstance(value, Integral):
             msg = f"can't multiply sequence by non-int of type '{type(value)}'"
-- 
2.43.0


From 14d8c48af58590d5b2d72a3286723d3eeb3fb494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 11/48] fix: tlist * n and tlist *= n raised RuntimeError for n
 > 1

---
 pcollections/abc/_seq.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 3e32b54..8eaf116 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -458,13 +458,9 @@ class TransientSequence(Transient, MutableSequence):
         if reps == 0:
             self.clear()
         elif reps > 1:
-            n = len(self)
+            els = self.persistent()
             for r in range(reps - 1):
-                for (ii,el) in enumerate(self):
-                    if ii > n:
-                        break
-                    else:
-                        self.append(el)
+                self.extend(els)
         return self
     def __mul__(self, value):
         t = self.copy()
-- 
2.43.0


From 730a5206b179c34f5706d4bf70fba3f8228f1b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:36 +0000
Subject: [PATCH 12/48] fix: tlist.extend raised RuntimeError when given the
 list itself

---
 pcollections/abc/_seq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 8eaf116..3e4556b 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -347,6 +347,8 @@ class TransientSequence(Transient, MutableSequence):
         return n
     def extend(self, iterable):
         """Extends tlist by appending elements from the iterable."""
+        if iterable is self:
+            iterable = self.persistent()
         for val in iterable:
             self.append(val)
     def index(self, value, start=0, stop=None):
-- 
2.43.0


From 7ef768f74728780ac083fba2619d50417aced4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:03 +0000
Subject: [PATCH 13/48] fix: list equality and order were wrong for elements
 that are not totally ordered

---
 pcollections/abc/_seq.py   | 22 ++++++++++++----------
 pcollections/util/_core.py | 11 ++++++++---
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 3e4556b..14a4233 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -136,28 +136,30 @@ class PersistentSequence(Persistent, Sequence):
             return True
         elif not isinstance(other, PersistentSequence._eq_types):
             return False
+        elif len(self) != len(other):
+            return False
         else:
-            return seqcmp(self, other) == 0
+            return all(a is b or a == b for (a,b) in zip(self, other))
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) < 0
+        return seqcmp(self, other) == -1
     def __le__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) <= 0
+        return seqcmp(self, other) in (-1, 0)
     def __gt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) > 0
+        return seqcmp(self, other) == 1
     def __ge__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) >= 0
+        return seqcmp(self, other) in (0, 1)
     def __hash__(self):
         return hash(tuple(self)) + 1
     def __contains__(self, value):
@@ -391,27 +393,27 @@ class TransientSequence(Transient, MutableSequence):
         elif len(self) != len(other):
             return False
         else:
-            return seqcmp(self, other) == 0
+            return all(a is b or a == b for (a,b) in zip(self, other))
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) < 0
+        return seqcmp(self, other) == -1
     def __le__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) <= 0
+        return seqcmp(self, other) in (-1, 0)
     def __gt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) > 0
+        return seqcmp(self, other) == 1
     def __ge__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) >= 0
+        return seqcmp(self, other) in (0, 1)
     def __contains__(self, value):
         for el in self:
             if el == value:
diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index e4255c4..7b6c4f1 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -52,19 +52,24 @@ def seqcmp(seq1, seq2):
     """Compares one sequence to another.
 
     `seqcmp(a, b)` returns -1 if `a` sorts before `b`, 0 if `a` is equal to
-    `b`, and 1 if `a` sorts after `b`.
+    `b`, and 1 if `a` sorts after `b`. If the first pair of elements that differ
+    are not ordered relative to each other, then `None` is returned.
     """
     if not isinstance(seq1, Sequence):
-        msg = f"unsupported operand type for compare: {type(setq)}"
+        msg = f"unsupported operand type for compare: {type(seq1)}"
         raise TypeError(msg)
     if not isinstance(seq2, Sequence):
         msg = f"unsupported operand type for compare: {type(seq2)}"
         raise TypeError(msg)
     for (a,b) in zip(seq1, seq2):
-        if a < b:
+        if a is b or a == b:
+            continue
+        elif a < b:
             return -1
         elif b < a:
             return 1
+        else:
+            return None
     n1 = len(seq1)
     n2 = len(seq2)
     if n1 < n2:
-- 
2.43.0


From abdd58f39509c38788c2b3c0319f3d959a4a1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 14/48] fix: hash of an ldict used its unevaluated lazy values

---
 pcollections/abc/_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index c957b6f..78dd81f 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -85,7 +85,7 @@ class PersistentMapping(Mapping, Persistent):
     def __repr__(self):
         return f"{{|{seqstr(self)}|}}"
     def __hash__(self):
-        return hash(frozenset(map(lambda u: u[1][0], self._els))) + 2
+        return hash(frozenset(self.items())) + 2
     def __contains__(self, k):
         try:
             self[k]
-- 
2.43.0


From cc69fdb9a6abda970420910caac53f680062401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 15/48] fix: pdict.dropall raised AttributeError

---
 pcollections/abc/_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 78dd81f..c0b71d2 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -122,7 +122,7 @@ class PersistentMapping(Mapping, Persistent):
         """
         t = self.transient()
         for k in keys:
-            t.drop(k)
+            t.pop(k, None)
         return type(self)(t)
     def deleteall(self, keys):
         """Returns a copy of the persistent mapping that excludes all the keys
-- 
2.43.0


From d600537c218b8ef28d87ba4658fff3cff2105163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 16/48] fix: ldict.pop returned unevaluated lazy objects

---
 pcollections/_lazy.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index b3a5171..10720b2 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -342,6 +342,15 @@ class ldict(pdict):
         if isinstance(v, lazy):
             v = v()
         return v
+    def pop(self, key, *args):
+        """Returns a tuple of the value mapped to the given key and a copy of
+        the ldict with that key removed.
+
+        If the key is not found, the second argument is returned, if given,
+        otherwise, a `KeyError` is raised.
+        """
+        (v, d) = pdict.pop(self, key, *args)
+        return (unlazy(v), d)
     def items(self):
         return ldict_items(self)
     def values(self):
-- 
2.43.0


From 20ed1f350434e6accb5417a6dd116089c39356da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 17/48] fix: tldict.pop recursed without end

---
 pcollections/_lazy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 10720b2..856ee19 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -509,8 +509,10 @@ class tldict(tdict):
         return unlazy(tdict.__getitem__(self, k))
     def get(self, k, default=None):
         return unlazy(tdict.get(self, k, default))
-    def pop(self, *args):
-        return unlazy(self.pop(*args))
+    def pop(self, key, *args):
+        # Reify the value before the key is removed, in case this fails.
+        unlazy(tdict.get(self, key))
+        return unlazy(tdict.pop(self, key, *args))
     def items(self):
         return tldict_items(self)
     def values(self):
-- 
2.43.0


From cb5561450fa1d14e43506767811949b8163dc427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:05 +0000
Subject: [PATCH 18/48] fix: membership in tdict.values() and tldict.values()
 raised AttributeError

---
 pcollections/_dict.py | 2 +-
 pcollections/_lazy.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index c37baab..bf6ea7e 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -353,7 +353,7 @@ class tdict_values(ValuesView, tdict_view):
     def _from_kv(self, arg):
         return arg[1]
     def __contains__(self, v):
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if kv[1] == v:
                 return True
         return False
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 856ee19..69a8c00 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -424,11 +424,11 @@ class tldict_values(tdict_values):
     def _from_kv(self, arg):
         return unlazy(arg[1])
     def __contains__(self, v):
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if not isinstance(kv[1], lazy):
                 if kv[1] == v:
                     return True
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if isinstance(kv[1], lazy):
                 if kv[1]() == v:
                     return True
-- 
2.43.0


From 8190d1b9320ed67e804ae06cf0b282202f2cbaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:05 +0000
Subject: [PATCH 19/48] fix: tldict.as_tdict shared its storage with the tldict

---
 pcollections/_lazy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 69a8c00..204b440 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -493,7 +493,9 @@ class tldict(tdict):
         mapped to their associated `lazy` objects. This is essentially a way to
         expose the raw values of a lazy dictionary.
         """
-        return tdict._new(self._els, self._idx, self._top)
+        return tdict._new(THAMT(self._els.persistent()),
+                          THAMT(self._idx.persistent()),
+                          self._top)
     def __holdlazy__(self):
         return self.as_tdict()
     def getlazy(self, k, default=None):
-- 
2.43.0


From 6cd82d3a751a973b05f4ed3e2908b9cf82900d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:05 +0000
Subject: [PATCH 20/48] fix: llist.ready_all evaluated nothing

---
 pcollections/_lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 204b440..c648f2c 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -230,7 +230,7 @@ class llist(plist):
             return True
     def ready_all(self):
         "Caches all lazy items then returns the list."
-        for el in self._phamt:
+        for (_,el) in self._phamt:
             if isinstance(el, lazy):
                 el()
         return self
-- 
2.43.0


From 80fbe80ec210581a029a77f3aab775748e9294b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:29 +0000
Subject: [PATCH 21/48] fix: converting a lazy list to plist or tlist exposed
 its unevaluated lazy objects

---
 pcollections/_lazy.py | 18 ++++++++++++++++++
 pcollections/_list.py | 12 +++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index c648f2c..fd8a81a 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -196,6 +196,15 @@ class llist(plist):
     """
     empty = None
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # Conversion from a transient lazy list keeps the lazy values.
+        if len(args) == 1 and len(kw) == 0 and isinstance(args[0], tllist):
+            arg = args[0]
+            if len(arg) == 0:
+                return cls.empty
+            else:
+                return cls._new(arg._thamt.persistent(), arg._start)
+        return plist.__new__(cls, *args, **kw)
     def __iter__(self):
         it = plist.__iter__(self)
         return map(lambda u: u() if isinstance(u, lazy) else u, it)
@@ -271,6 +280,15 @@ class tllist(tlist):
     elements instead of the `lazy` objects themselves.
     """
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # Conversion from a lazy list keeps the lazy values.
+        if len(args) == 1 and len(kw) == 0:
+            arg = args[0]
+            if isinstance(arg, tllist):
+                return cls._new(THAMT(arg._thamt.persistent()), arg._start)
+            elif isinstance(arg, llist):
+                return cls._new(THAMT(arg._phamt), arg._start)
+        return tlist.__new__(cls, *args, **kw)
     def __iter__(self):
         return map(unlazy, tlist.__iter__(self))
     def persistent(self):
diff --git a/pcollections/_list.py b/pcollections/_list.py
index fc2cf9d..feb8657 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -33,15 +33,17 @@ class plist(PersistentSequence):
             msg = f"{cls.__name__} expects at most 1 argument, got {n}"
             raise TypeError(msg)
         arg = args[0]
-        # If arg is a tlist, this is a special case.
-        if isinstance(arg, tlist):
+        # If arg is a tlist, this is a special case. (Lazy lists are not: unless
+        # cls is itself lazy, in which case it handles them, their values must
+        # be reified by iterating over them.)
+        if type(arg) is tlist:
             if len(arg) == 0:
                 return cls.empty
             else:
                 return cls._new(arg._thamt.persistent(), arg._start)
-        elif isinstance(arg, cls):
+        elif type(arg) is cls:
             return arg
-        elif isinstance(arg, plist):
+        elif type(arg) is plist:
             if len(arg) == 0:
                 return cls.empty
             else:
@@ -222,7 +224,7 @@ class tlist(TransientSequence):
         else: raise TypeError(f"tlist expects at most 1 argument, got {n}")
         arg = args[0]
         # If this is a plist, we know what to do with it.
-        if isinstance(arg, plist):
+        if type(arg) is plist:
             return cls._new(THAMT(arg._phamt), arg._start)
         # We just want to build a THAMT out of this arg of iterables.
         thamt = THAMT(PHAMT.empty)
-- 
2.43.0


From bac1b3aef7c720aa2e90607bf5f837443a0bdb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:29 +0000
Subject: [PATCH 22/48] fix: converting a tldict to pdict exposed its
 unevaluated lazy objects

---
 pcollections/_dict.py |  2 +-
 pcollections/_lazy.py | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index bf6ea7e..e6ef48f 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -126,7 +126,7 @@ class pdict(PersistentMapping):
             # is a special case.
             if isinstance(arg, Sized) and len(arg) == 0:
                 return cls.empty
-            elif isinstance(arg, tdict):
+            elif type(arg) is tdict:
                 return cls._new(
                     arg._els.persistent(),
                     arg._idx.persistent(),
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index fd8a81a..595e782 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -345,6 +345,17 @@ class ldict(pdict):
     """
     empty = None
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # Conversion from a transient lazy dict keeps the lazy values.
+        if len(args) == 1 and len(kw) == 0 and isinstance(args[0], tldict):
+            arg = args[0]
+            if len(arg) == 0:
+                return cls.empty
+            else:
+                return cls._new(arg._els.persistent(),
+                                arg._idx.persistent(),
+                                arg._top)
+        return pdict.__new__(cls, *args, **kw)
     def __getitem__(self, key):
         v = pdict.__getitem__(self, key)
         if isinstance(v, lazy):
@@ -459,6 +470,17 @@ class tldict(tdict):
     keys instead of the `lazy` objects themselves.
     """
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # Conversion from a lazy dict keeps the lazy values.
+        if len(args) == 1 and len(kw) == 0:
+            arg = args[0]
+            if isinstance(arg, tldict):
+                return cls._new(THAMT(arg._els.persistent()),
+                                THAMT(arg._idx.persistent()),
+                                arg._top)
+            elif isinstance(arg, ldict):
+                return cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top)
+        return tdict.__new__(cls, *args, **kw)
     def __str__(self):
         # We have a max length of 60 characters, not counting the delimiters.
         return f"{{|{seqstr(self.as_tdict(), maxlen=60, tostr=reprlazy)}|}}"
-- 
2.43.0


From fa05dd80991a6693de39ff1847cbb35ee8326f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 23/48] fix: ldict(lazydict, key=value) evaluated the lazy
 values

---
 pcollections/_lazy.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 595e782..ff601db 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -346,9 +346,12 @@ class ldict(pdict):
     empty = None
     __slots__ = ()
     def __new__(cls, *args, **kw):
-        # Conversion from a transient lazy dict keeps the lazy values.
-        if len(args) == 1 and len(kw) == 0 and isinstance(args[0], tldict):
+        # Conversion from a lazy dict keeps the lazy values.
+        if len(args) == 1 and isinstance(args[0], (ldict, tldict)):
             arg = args[0]
+            if len(kw) == 0 and type(arg) is cls:
+                return arg
+            arg = tldict(arg, **kw)
             if len(arg) == 0:
                 return cls.empty
             else:
@@ -472,14 +475,16 @@ class tldict(tdict):
     __slots__ = ()
     def __new__(cls, *args, **kw):
         # Conversion from a lazy dict keeps the lazy values.
-        if len(args) == 1 and len(kw) == 0:
+        if len(args) == 1 and isinstance(args[0], (ldict, tldict)):
             arg = args[0]
             if isinstance(arg, tldict):
-                return cls._new(THAMT(arg._els.persistent()),
-                                THAMT(arg._idx.persistent()),
-                                arg._top)
-            elif isinstance(arg, ldict):
-                return cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top)
+                (els, idx) = (arg._els.persistent(), arg._idx.persistent())
+            else:
+                (els, idx) = (arg._els, arg._idx)
+            obj = cls._new(THAMT(els), THAMT(idx), arg._top)
+            for (k,v) in kw.items():
+                obj[k] = v
+            return obj
         return tdict.__new__(cls, *args, **kw)
     def __str__(self):
         # We have a max length of 60 characters, not counting the delimiters.
-- 
2.43.0


From 3d9d8075d1e5c9485192e6598f1f859771af2ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 24/48] fix: isdisjoint was False for empty sets and
 tset.isdisjoint rejected iterables

---
 pcollections/abc/_set.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 8fac331..66481df 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -165,9 +165,7 @@ class PersistentSet(Set, Persistent):
         return type(self)(t)
     def isdisjoint(self, other):
         """Returns `True` if two sets have a null intersection."""
-        if not isinstance(other, Set):
-            other = set(other)
-        return setcmp(self, other) is None
+        return not any(map(self.__contains__, other))
     def issubset(self, other):
         """Report whether another set contains this set."""
         if not isinstance(other, (set, frozenset)):
@@ -376,7 +374,7 @@ class TransientSet(MutableSet, Transient):
         return c == 1 or c == 0
     def isdisjoint(self, other):
         """Returns `True` if two sets have a null intersection."""
-        return setcmp(self, other) is None
+        return not any(map(self.__contains__, other))
     def issubset(self, other):
         """Report whether another set contains this set."""
         if not isinstance(other, (set, frozenset)):
-- 
2.43.0


From 6ae3576d881c048016dd77ec4857ff84c42a7f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 25/48] fix: comparing a tset to a non-set with == or != raised
 TypeError

---
 pcollections/abc/_set.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 66481df..92b4145 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -357,9 +357,15 @@ class TransientSet(MutableSet, Transient):
         #return f"{{<{s[1:-1]}>}}"
         return f"{{<{seqstr(self)}>}}"
     def __eq__(self, other):
-        return setcmp(self, other) == 0
+        if isinstance(other, Set):
+            return setcmp(self, other) == 0
+        else:
+            return False
     def __ne__(self, other):
-        return setcmp(self, other) != 0
+        if isinstance(other, Set):
+            return setcmp(self, other) != 0
+        else:
+            return True
     def __hash__(self):
         return hash(frozenset(self)) + 1
     def __lt__(self, other):
-- 
2.43.0


From f963475c44259617ef3d5e218784dcdddd5e9a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 26/48] fix: pset.symmetric_difference returned the set itself
 when the sizes agreed

---
 pcollections/abc/_set.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 92b4145..5965715 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -206,9 +206,7 @@ class PersistentSet(Set, Persistent):
         """
         t = self.transient()
         for arg in args:
-            t ^= arg
-        if len(t) == len(self):
-            return self
+            t ^= (arg if isinstance(arg, Set) else set(arg))
         return type(self)(t)
     def union(self, *args):
         """Returns the union of the persistent set and all arguments."""
-- 
2.43.0


From 1bb0a95e00efda5d6d5bec1815407f6a2eb40e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 27/48] fix: tset.symmetric_difference and
 symmetric_difference_update raised NameError

---
 pcollections/abc/_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 5965715..93e7e72 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -416,7 +416,7 @@ class TransientSet(MutableSet, Transient):
         return t
     def symmetric_difference_update(self, other):
         """Update a set with the symmetric difference of itself and another."""
-        self ^= arg
+        self ^= (other if isinstance(other, Set) else set(other))
     def symmetric_difference(self, other):
         """Return the symmetric difference of two sets as a new set.
 
-- 
2.43.0


From dc7a541d07b232736f147e1b0158b9ca27b5f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 28/48] fix: set intersection methods rejected iterables that
 are not sets

---
 pcollections/abc/_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 93e7e72..624177a 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -195,7 +195,7 @@ class PersistentSet(Set, Persistent):
         """
         t = self.transient()
         for arg in args:
-            t &= arg
+            t &= (arg if isinstance(arg, Set) else set(arg))
         if len(t) == len(self):
             return self
         return type(self)(t)
@@ -405,7 +405,7 @@ class TransientSet(MutableSet, Transient):
     def intersection_update(self, *args):
         """Update a set with the intersection of itself and another."""
         for arg in args:
-            self &= arg
+            self &= (arg if isinstance(arg, Set) else set(arg))
     def intersection(self, *args):
         """Return the intersection of two sets as a new transient set.
 
-- 
2.43.0


From e8ea02a9ea38dfe6e06c67898eb4e25ed206cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 29/48] fix: removing a tset from itself raised RuntimeError

---
 pcollections/abc/_set.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 624177a..6fe1561 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -393,7 +393,10 @@ class TransientSet(MutableSet, Transient):
     def difference_update(self, *args):
         """Remove all elements of another set from this set."""
         for arg in args:
-            self.discardall(arg)
+            if arg is self:
+                self.clear()
+            else:
+                self.discardall(arg)
     def difference(self, *args):
         """Returns the difference of two or more sets as a new transient set.
 
@@ -494,12 +497,18 @@ class TransientSet(MutableSet, Transient):
         if not isinstance(other, Set):
             raise TypeError(f"unsupported operand type for -=:"
                             f" '{type(self)}' and '{type(other)}'")
-        self.discardall(other)
+        if other is self:
+            self.clear()
+        else:
+            self.discardall(other)
         return self
     def __ixor__(self, other):
         if not isinstance(other, Set):
             raise TypeError(f"unsupported operand type for ^=:"
                             f" '{type(self)}' and '{type(other)}'")
+        if other is self:
+            self.clear()
+            return self
         rm = []
         for el in self:
             if el in other:
-- 
2.43.0


From 80fc865e13d61125fde098dd5500762edd3a7df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 30/48] fix: tdict.clear during iteration went undetected

---
 pcollections/_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index e6ef48f..1c450d8 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -526,7 +526,8 @@ class tdict(TransientMapping):
         object.__setattr__(self, '_els', THAMT(PHAMT.empty))
         object.__setattr__(self, '_idx', THAMT(PHAMT.empty))
         object.__setattr__(self, '_top', 0)
-        object.__setattr__(self, '_version', 0)
+        object.__setattr__(self, '_version', self._version + 1)
+        object.__setattr__(self, '_orig', None)
         return None
     def pop(self, key, *args):
         """Removes the given key from the tdict and returns the previously
-- 
2.43.0


From 88240ce3ba8166befef5d6546ef2b9a6c8cf1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 31/48] fix: tset.discardall and removeall raised RuntimeError
 when given the set itself

---
 pcollections/abc/_set.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 6fe1561..9e77609 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -393,10 +393,7 @@ class TransientSet(MutableSet, Transient):
     def difference_update(self, *args):
         """Remove all elements of another set from this set."""
         for arg in args:
-            if arg is self:
-                self.clear()
-            else:
-                self.discardall(arg)
+            self.discardall(arg)
     def difference(self, *args):
         """Returns the difference of two or more sets as a new transient set.
 
@@ -497,10 +494,7 @@ class TransientSet(MutableSet, Transient):
         if not isinstance(other, Set):
             raise TypeError(f"unsupported operand type for -=:"
                             f" '{type(self)}' and '{type(other)}'")
-        if other is self:
-            self.clear()
-        else:
-            self.discardall(other)
+        self.discardall(other)
         return self
     def __ixor__(self, other):
         if not isinstance(other, Set):
@@ -552,6 +546,8 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then it is ignored.
         """
+        if iterable is self:
+            return self.clear()
         for el in iterable:
             self.discard(el)
     def removeall(self, iterable):
@@ -560,6 +556,8 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then a `KeyError` is raised.
         """
+        if iterable is self:
+            return self.clear()
         for el in iterable:
             self.remove(el)
     def copy(self):
-- 
2.43.0


From 213532b6efab1fc341a71f485e65298f012d5d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 32/48] fix: dict constructors and update rejected the keywords
 cls and self

---
 pcollections/_dict.py    | 4 ++--
 pcollections/_lazy.py    | 4 ++--
 pcollections/abc/_map.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 1c450d8..3aac47b 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -107,7 +107,7 @@ class pdict(PersistentMapping):
         object.__setattr__(new_pdict, '_hashcode', None)
         return new_pdict
     __slots__ = ("_els", "_idx", "_top", "_hashcode")
-    def __new__(cls, *args, **kw):
+    def __new__(cls, /, *args, **kw):
         n = len(args)
         if n == 1:
             arg = args[0]
@@ -388,7 +388,7 @@ class tdict(TransientMapping):
         """Returns an empty tdict."""
         return cls._new(THAMT(PHAMT.empty), THAMT(PHAMT.empty), 0)
     __slots__ = ("_els", "_idx", "_top","_version")
-    def __new__(cls, *args, **kw):
+    def __new__(cls, /, *args, **kw):
         n = len(args)
         if n == 1:
             arg = args[0]
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index ff601db..34c879e 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -345,7 +345,7 @@ class ldict(pdict):
     """
     empty = None
     __slots__ = ()
-    def __new__(cls, *args, **kw):
+    def __new__(cls, /, *args, **kw):
         # Conversion from a lazy dict keeps the lazy values.
         if len(args) == 1 and isinstance(args[0], (ldict, tldict)):
             arg = args[0]
@@ -473,7 +473,7 @@ class tldict(tdict):
     keys instead of the `lazy` objects themselves.
     """
     __slots__ = ()
-    def __new__(cls, *args, **kw):
+    def __new__(cls, /, *args, **kw):
         # Conversion from a lazy dict keeps the lazy values.
         if len(args) == 1 and isinstance(args[0], (ldict, tldict)):
             arg = args[0]
diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index c0b71d2..4128d57 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -169,7 +169,7 @@ class PersistentMapping(Mapping, Persistent):
                 raise
             else:
                 return (args[0], self)
-    def update(self, *args, **kw):
+    def update(self, /, *args, **kw):
         """Returns a copy of the persistent mapping with the key-value pairs in
         the iterable/mapping `arg` and the keyword arguments included.
 
@@ -296,7 +296,7 @@ class TransientMapping(MutableMapping, Transient):
                 raise
             else:
                 return args[0]
-    def update(self, *args, **kw):
+    def update(self, /, *args, **kw):
         """Updates the transient mapping with items from the arguments and
         options.
 
-- 
2.43.0


From 06d9bc50b0e276f2b5b4ffe961b54f61545a3203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 33/48] fix: lazy rejected the keywords cls and fn for the
 function

---
 pcollections/_lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 34c879e..03fc90c 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -63,7 +63,7 @@ class lazy:
     forgotten.
     """
     __slots__ = ('partial', 'value')
-    def __new__(cls, fn, *args, **kw):
+    def __new__(cls, fn, /, *args, **kw):
         # Make sure the function is callable.
         if not callable(fn):
             raise TypeError(f"lazy({fn}) must be given a callable function")
-- 
2.43.0


From 074f3477b4edb668a4cad35b205c2eb84d9234ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 34/48] fix: pset hashes differed from those of equal
 frozensets

---
 pcollections/abc/_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 9e77609..4bb52ff 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -95,7 +95,7 @@ class PersistentSet(Set, Persistent):
         else:
             return True
     def __hash__(self):
-        return hash(frozenset(self)) + 1
+        return hash(frozenset(self))
     def __lt__(self, other):
         return setcmp(self, other) == -1
     def __le__(self, other):
@@ -365,7 +365,7 @@ class TransientSet(MutableSet, Transient):
         else:
             return True
     def __hash__(self):
-        return hash(frozenset(self)) + 1
+        return hash(frozenset(self))
     def __lt__(self, other):
         return setcmp(self, other) == -1
     def __le__(self, other):
-- 
2.43.0


From ae49e8387010944515fe0558fd74fe4450c19f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 35/48] fix: attributes of persistent objects could be deleted

---
 pcollections/abc/_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_core.py b/pcollections/abc/_core.py
index ae2a404..1bf2d8a 100644
--- a/pcollections/abc/_core.py
+++ b/pcollections/abc/_core.py
@@ -16,7 +16,9 @@ class Persistent(Hashable):
         raise TypeError(f"{type(self)} is immutable")
     def __setitem__(self, k, v):
         raise TypeError(f"{type(self)} is immutable")
-    def __delitem__(self, k, v):
+    def __delitem__(self, k):
+        raise TypeError(f"{type(self)} is immutable")
+    def __delattr__(self, k):
         raise TypeError(f"{type(self)} is immutable")
     # Implementation methods that are probably fine in all children.
     def copy(self):
-- 
2.43.0


From efd1d5afbd7a423fce5ffa6ad9c001858b8f6c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 36/48] fix: elements that do not equal themselves (NaN) could
 not be found again

---
 pcollections/_dict.py    | 33 +++++++++++++++++----------------
 pcollections/_lazy.py    |  4 ++--
 pcollections/_set.py     | 12 ++++++------
 pcollections/abc/_seq.py | 14 +++++++-------
 4 files changed, 32 insertions(+), 31 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 3aac47b..59d25ca 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -75,7 +75,7 @@ class pdict_items(ItemsView, PDictView):
         d = Ellipsis if v0 is None else None
         v = self._mapping.get(k0, d)
         (k,v) = self._from_kv((k0,v))
-        return v0 == v
+        return v0 is v or v0 == v
 class pdict_values(ValuesView, PDictView):
     __slots__ = ()
     def _from_kv(self, kv):
@@ -83,7 +83,7 @@ class pdict_values(ValuesView, PDictView):
     def __contains__(self, v):
         for ent in self._mapping._els:
             v0 = self._from_kv(ent[1][0])
-            if v0 == v:
+            if v0 is v or v0 == v:
                 return True
         return False
 class pdict(PersistentMapping):
@@ -155,7 +155,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             ((kk,vv),ii) = self._els[ii]
-            if k == kk:
+            if k is kk or k == kk:
                 return True
         return False
     def __iter__(self):
@@ -167,7 +167,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         raise KeyError(key)
     def get(self, key, default=None):
@@ -175,7 +175,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         return default
     def transient(self):
@@ -197,7 +197,7 @@ class pdict(PersistentMapping):
             while ii is not None:
                 (kv,ii_next) = self._els[ii]
                 (k,v) = kv
-                if key == k:
+                if key is k or key == k:
                     # It is in the dict; either it's exactly in the dict or we
                     # replace it.
                     if val is v:
@@ -227,7 +227,7 @@ class pdict(PersistentMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -270,7 +270,7 @@ class pdict(PersistentMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -347,14 +347,15 @@ class tdict_items(ItemsView, tdict_view):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
         d = Ellipsis if kv[1] is None else None
-        return self._tdict.get(kv[0], d) == kv[1]
+        v = self._tdict.get(kv[0], d)
+        return v is kv[1] or v == kv[1]
 class tdict_values(ValuesView, tdict_view):
     __slots__ = ('_tdict', '_version')
     def _from_kv(self, arg):
         return arg[1]
     def __contains__(self, v):
         for (_,(kv,_)) in self._tdict._els:
-            if kv[1] == v:
+            if kv[1] is v or kv[1] == v:
                 return True
         return False
 class tdict(TransientMapping):
@@ -429,7 +430,7 @@ class tdict(TransientMapping):
         ii_prev = None
         while ii is not None:
             (kv, ii_next) = self._els[ii]
-            if kv[0] == k:
+            if kv[0] is k or kv[0] == k:
                 if kv[1] is not v:
                     self._els[ii] = ((k,v), ii_next)
                     # The object has changed, so make sure we aren't tracking
@@ -461,7 +462,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             ((kk,vv),ii) = self._els[ii]
-            if k == kk:
+            if k is kk or k == kk:
                 return True
         return False
     def __reversed__(self):
@@ -471,7 +472,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         raise KeyError(key)
     def get(self, key, default=None):
@@ -479,7 +480,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         return default
     def __iter__(self):
@@ -500,7 +501,7 @@ class tdict(TransientMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -546,7 +547,7 @@ class tdict(TransientMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 03fc90c..39359b5 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -458,11 +458,11 @@ class tldict_values(tdict_values):
     def __contains__(self, v):
         for (_,(kv,_)) in self._tdict._els:
             if not isinstance(kv[1], lazy):
-                if kv[1] == v:
+                if kv[1] is v or kv[1] == v:
                     return True
         for (_,(kv,_)) in self._tdict._els:
             if isinstance(kv[1], lazy):
-                if kv[1]() == v:
+                if kv[1]() is v or kv[1]() == v:
                     return True
         return False
 class tldict(tdict):
diff --git a/pcollections/_set.py b/pcollections/_set.py
index e225068..449ad1b 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -65,7 +65,7 @@ class pset(PersistentSet):
         ii = self._idx.get(h, None)
         while ii is not None:
             (x,ii) = self._els[ii]
-            if el == x:
+            if el is x or el == x:
                 return True
         return False
     def __iter__(self):
@@ -93,7 +93,7 @@ class pset(PersistentSet):
             ii_prev = None
             while ii is not None:
                 (x,ii_next) = self._els[ii]
-                if obj == x:
+                if obj is x or obj == x:
                     return self
                 ii_prev = ii
                 x_prev = x
@@ -117,7 +117,7 @@ class pset(PersistentSet):
         x_prev = None
         while ii is not None:
             (x,ii_next) = self._els[ii]
-            if obj == x:
+            if obj is x or obj == x:
                 # We remove this object!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -200,7 +200,7 @@ class tset(TransientSet):
         ii = self._idx.get(h, None)
         while ii is not None:
             (x,ii) = self._els[ii]
-            if el == x:
+            if el is x or el == x:
                 return True
         return False
     def __iter__(self):
@@ -221,7 +221,7 @@ class tset(TransientSet):
             ii_prev = None
             while ii is not None:
                 (x,ii_next) = self._els[ii]
-                if obj == x:
+                if obj is x or obj == x:
                     return None
                 ii_prev = ii
                 x_prev = x
@@ -245,7 +245,7 @@ class tset(TransientSet):
         x_prev = None
         while ii is not None:
             (x,ii_next) = self._els[ii]
-            if obj == x:
+            if obj is x or obj == x:
                 # We remove this object!
                 if ii_prev is None:
                     # We're removing from the front of the list.
diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 14a4233..9eca006 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -164,7 +164,7 @@ class PersistentSequence(Persistent, Sequence):
         return hash(tuple(self)) + 1
     def __contains__(self, value):
         for el in self:
-            if el == value:
+            if el is value or el == value:
                 return True
         return False
     def __reversed__(self):
@@ -174,7 +174,7 @@ class PersistentSequence(Persistent, Sequence):
         """Returns the number of occurences of value."""
         n = 0
         for obj in self:
-            if obj == value: n += 1
+            if obj is value or obj == value: n += 1
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
@@ -198,7 +198,7 @@ class PersistentSequence(Persistent, Sequence):
             for (ii,val) in enumerate(self):
                 if ii >= stop:
                     break
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         else:
             for (ii,val) in enumerate(self):
@@ -206,7 +206,7 @@ class PersistentSequence(Persistent, Sequence):
                     break
                 elif ii < start:
                     pass
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         raise ValueError(f"{value} is not in {type(self)}")
     # We include a hash function; though this should be overwritten to cache the
@@ -345,7 +345,7 @@ class TransientSequence(Transient, MutableSequence):
         """Returns the number of occurences of value."""
         n = 0
         for obj in self:
-            if obj == value: n += 1
+            if obj is value or obj == value: n += 1
         return n
     def extend(self, iterable):
         """Extends tlist by appending elements from the iterable."""
@@ -368,7 +368,7 @@ class TransientSequence(Transient, MutableSequence):
         for (ii,el) in enumerate(self):
             if ii >= stop:
                 break
-            elif ii >= start and el == value:
+            elif ii >= start and (el is value or el == value):
                 return ii
         raise ValueError(f'{value} is not in {type(self)}')
     def reverse(self):
@@ -416,7 +416,7 @@ class TransientSequence(Transient, MutableSequence):
         return seqcmp(self, other) in (0, 1)
     def __contains__(self, value):
         for el in self:
-            if el == value:
+            if el is value or el == value:
                 return True
         return False
     def __reversed__(self):
-- 
2.43.0


From 0a0e11bc723e513ccd4d647db9e35afe5ee339cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 37/48] fix: changing the value of a key while iterating over a
 tdict raised RuntimeError

---
 pcollections/_dict.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 59d25ca..34655ae 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -484,13 +484,16 @@ class tdict(TransientMapping):
                 return kv[1]
         return default
     def __iter__(self):
-        v0 = self._version
-        def _iter_key(arg):
+        # Iterating over a persistent version of the elements ensures that the
+        # values of existing keys may be changed during iteration.
+        def _iter_keys(els, v0):
+            for (_,(kv,_)) in els:
+                if v0 < self._version:
+                    break
+                yield kv[0]
             if v0 < self._version:
                 raise RuntimeError(f"{type(self)} changed during iteration")
-            else:
-                return arg[1][0][0]
-        return map(_iter_key, self._els)
+        return _iter_keys(self._els.persistent(), self._version)
     def __delitem__(self, key):
         # Get the hash and initial index (if there is one).
         h = hash(key)
-- 
2.43.0


From 384be48305422d364783913d09be7614f553157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:35 +0000
Subject: [PATCH 38/48] fix: adding a list of another type to an empty list
 returned that other type

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 9eca006..4e564c2 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -218,7 +218,7 @@ class PersistentSequence(Persistent, Sequence):
             raise TypeError(msg)
         elif len(obj) == 0:
             return self
-        elif len(self) == 0 and isinstance(obj, PersistentSequence):
+        elif len(self) == 0 and type(obj) is type(self):
             return obj
         else:
             return self.extend(obj)
-- 
2.43.0


From 931a2e7ce38edd668515dd632fa9de869467b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:01 +0000
Subject: [PATCH 39/48] fix: the persistent value of a tldict made from a pdict
 was that pdict

---
 pcollections/_lazy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 39359b5..82f6d79 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -474,10 +474,11 @@ class tldict(tdict):
     """
     __slots__ = ()
     def __new__(cls, /, *args, **kw):
-        # Conversion from a lazy dict keeps the lazy values.
-        if len(args) == 1 and isinstance(args[0], (ldict, tldict)):
+        # Conversion from a lazy dict keeps the lazy values. (A persistent dict
+        # of another type must not be remembered as the original.)
+        if len(args) == 1 and isinstance(args[0], (pdict, tdict)):
             arg = args[0]
-            if isinstance(arg, tldict):
+            if isinstance(arg, tdict):
                 (els, idx) = (arg._els.persistent(), arg._idx.persistent())
             else:
                 (els, idx) = (arg._els, arg._idx)
-- 
2.43.0


From 799be7a473d4d2f8e6bf5b62766391f231344009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 40/48] fix: ldict.dropall evaluated the lazy values it dropped

---
 pcollections/abc/_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 4128d57..e90004a 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -122,7 +122,8 @@ class PersistentMapping(Mapping, Persistent):
         """
         t = self.transient()
         for k in keys:
-            t.pop(k, None)
+            if k in t:
+                del t[k]
         return type(self)(t)
     def deleteall(self, keys):
         """Returns a copy of the persistent mapping that excludes all the keys
-- 
2.43.0


From e506d1492d818a6c0cdc54ed51f1444d0ec29778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 41/48] fix: printing a tllist evaluated its lazy values

---
 pcollections/_lazy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 82f6d79..7e51463 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -291,6 +291,12 @@ class tllist(tlist):
         return tlist.__new__(cls, *args, **kw)
     def __iter__(self):
         return map(unlazy, tlist.__iter__(self))
+    def __str__(self):
+        # We have a max length of 60 characters, not counting the delimiters.
+        els = tlist.__iter__(self)
+        return f"[<{seqstr(els, maxlen=60, tostr=reprlazy)}>]"
+    def __repr__(self):
+        return f"[<{seqstr(tlist.__iter__(self))}>]"
     def persistent(self):
         """Efficiently copies the tllist into an llist and returns the llist."""
         if len(self._thamt) == 0:
-- 
2.43.0


From ec658dd9120acef02a5b3c8de51103f718460fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 42/48] fix: a pdict made from an empty iterator was not
 pdict.empty

---
 pcollections/_dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 34655ae..b9825d1 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -139,6 +139,8 @@ class pdict(PersistentMapping):
                 return cls._new(arg._els, arg._idx, arg._top)
         # For anything else, however, we just route this through tdict.
         t = tdict(arg, **kw)
+        if len(t) == 0:
+            return cls.empty
         return cls._new(
             t._els.persistent(),
             t._idx.persistent(),
-- 
2.43.0


From 72615bcfceff05a35a2bd3793ab426ed5b24ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 43/48] fix: seqstr exceeded maxlen when the first elements
 were empty strings

---
 pcollections/util/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index 7b6c4f1..b120c91 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -104,7 +104,7 @@ def seqstr(seq, maxlen=None, sep=", ", tostr=repr):
         s = tostr(el)
         parts.append(s)
         n = len(s)
-        N = n if N == 0 else N + seplen + n
+        N = n if len(parts) == 1 else N + seplen + n
         if N > maxlen:
             # We've overshot; remove the final element if need-be.
             while len(parts) > 0 and N + elllen > maxlen:
-- 
2.43.0


From a3dbafba9cac3e547e7b9ea12c9aa2fd15d0dab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 44/48] fix: setdefault of transient mappings must not lose a
 KeyError raised by a key's hash or equality and overwrite the existing value

---
 pcollections/abc/_map.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index e90004a..e136adb 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -262,10 +262,8 @@ class TransientMapping(MutableMapping, Transient):
 
         Return the value for the key if key is in the dictionary, else default.
         """
-        try:
+        if key in self:
             return self[key]
-        except KeyError:
-            pass
         self[key] = default
         return default
     def popitem(self):
-- 
2.43.0


From 9a075fa8683d91ea7ee22db34c15250d33917522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 45/48] fix: reversed iteration of a tdict and of its views
 missed changes of the dict

---
 pcollections/_dict.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index b9825d1..b13780e 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -326,7 +326,14 @@ class tdict_view(Set):
     def __iter__(self):
         return map(self._iter, self._tdict._els)
     def __reversed__(self):
-        return reversed(list(self.__iter__()))
+        d = self._tdict
+        v0 = d._version
+        for ii in reversed([ent[0] for ent in d._els]):
+            if v0 < d._version:
+                break
+            yield self._from_kv(d._els[ii][0])
+        if v0 < d._version:
+            raise RuntimeError(f"{type(self)} changed during iteration")
     def __len__(self):
         return len(self._tdict)
     # These are the abstract methods that need to be implemented in the actual
-- 
2.43.0


From 33d2713bad8044eeb9a237161f19a08525066b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 46/48] fix: a failing lazy value raised one error object again
 and again, changing earlier errors' contexts

---
 pcollections/_lazy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 7e51463..32a6468 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -104,8 +104,11 @@ class lazy:
                 return val
             except Exception as partial_eror:
                 # If an exception occurs, we want to raise an error that traces
-                # back to the initialization of this object.
-                raise init_error
+                # back to the initialization of this object. (A new error is
+                # raised every time: the errors that were raised earlier must
+                # keep their own contexts.)
+                error = LazyError(init_error.partial)
+                raise error.with_traceback(init_error.__traceback__)
             finally:
                 rlock.release()
     def __repr__(self):
-- 
2.43.0


From 2ca0c9ad286273c1554fbe8e23a260ade6e0f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:11 +0000
Subject: [PATCH 47/48] fix: items views of dicts reported a key that is absent
 for a value equal to None

---
 pcollections/_dict.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index b13780e..6770a73 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -26,6 +26,10 @@ from .abc import (
 )
 
 
+# The default used to find out that a key is absent from a dict.
+_missing = object()
+
+
 #===============================================================================
 # pdict
 # The persistent dict type.
@@ -72,8 +76,9 @@ class pdict_items(ItemsView, PDictView):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
         (k0,v0) = self._from_kv(kv)
-        d = Ellipsis if v0 is None else None
-        v = self._mapping.get(k0, d)
+        v = self._mapping.get(k0, _missing)
+        if v is _missing:
+            return False
         (k,v) = self._from_kv((k0,v))
         return v0 is v or v0 == v
 class pdict_values(ValuesView, PDictView):
@@ -355,8 +360,9 @@ class tdict_items(ItemsView, tdict_view):
     def __contains__(self, kv):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
-        d = Ellipsis if kv[1] is None else None
-        v = self._tdict.get(kv[0], d)
+        v = self._tdict.get(kv[0], _missing)
+        if v is _missing:
+            return False
         return v is kv[1] or v == kv[1]
 class tdict_values(ValuesView, tdict_view):
     __slots__ = ('_tdict', '_version')
-- 
2.43.0


From 51ac8f83ec6f6fa1c8c18d7f58ffac47face56a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:18 +0000
Subject: [PATCH 48/48] fix: holdlazy hid an AttributeError raised by an
 object's own __holdlazy__

---
 pcollections/_lazy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 32a6468..84ac6f9 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -167,13 +167,14 @@ def holdlazy(obj, require_lazy=False):
     `__holdlazy__` is not defined.
     """
     try:
-        return obj.__holdlazy__()
+        hold = obj.__holdlazy__
     except AttributeError:
         if require_lazy:
             raise TypeError(
                 f"__holdlazy__ method not found for type {type(obj)}")
         else:
             return obj
+    return hold()
     
 
 #===============================================================================
-- 
2.43.0

