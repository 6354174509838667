From 399625f16076586eba2b97c976ec202e58794f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 01/10] fix: leave the list unchanged when update raises

The large path of SortedList.update and SortedKeyList.update modified the
sublists before sorting (and before computing keys), so a comparison or key
function that raised left the list corrupt.
---
 src/sortedcontainers/sortedlist.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index aecf787..736c8d7 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -277,8 +277,8 @@ class SortedList(MutableSequence):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
+                # Sort a copy: when a comparison raises, the list is unchanged.
+                values = reduce(iadd, _lists, []) + values
                 values.sort()
                 self._clear()
             else:
@@ -1777,10 +1777,10 @@ class SortedKeyList(SortedList):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
+                # Sort a copy: when a comparison or the key function raises,
+                # the list is unchanged.
+                values = reduce(iadd, _lists, []) + values
                 values.sort(key=self._key)
-                self._clear()
             else:
                 _add = self.add
                 for val in values:
@@ -1788,10 +1788,13 @@ class SortedKeyList(SortedList):
                 return
 
         _load = self._load
-        _lists.extend(
+        lists = [
             values[pos : (pos + _load)] for pos in range(0, len(values), _load)
-        )
-        _keys.extend(list(map(self._key, _list)) for _list in _lists)
+        ]
+        keys = [list(map(self._key, _list)) for _list in lists]
+        self._clear()
+        _lists.extend(lists)
+        _keys.extend(keys)
         _maxes.extend(sublist[-1] for sublist in _keys)
         self._len = len(values)
         del self._index[:]
-- 
2.43.0


From da86526a14cb1ea6ef9393473f8eb78eb1e87cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 02/10] fix: leave the list unchanged when slice deletion, *=
 or _reset raises

These cleared the list and then inserted the remaining values, so a
comparison or key function that raised lost every value.
---
 src/sortedcontainers/sortedlist.py | 43 +++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index 736c8d7..86d8643 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -172,9 +172,7 @@ class SortedList(MutableSequence):
 
         """
         values = reduce(iadd, self._lists, [])
-        self._clear()
-        self._load = load
-        self._update(values)
+        self._replace(values, load)
 
     def clear(self):
         """Remove all values from sorted list.
@@ -297,6 +295,22 @@ class SortedList(MutableSequence):
 
     _update = update
 
+    def _replace(self, iterable, load=None):
+        """Replace all values by those of `iterable`, or raise unchanged.
+
+        Iteration and comparisons, which may raise or look at the list, all
+        happen before the list is modified.
+
+        """
+        fresh = SortedList()
+        fresh._load = self._load if load is None else load
+        fresh._update(iterable)
+        self._clear()
+        self._load = fresh._load
+        self._lists.extend(fresh._lists)
+        self._maxes.extend(fresh._maxes)
+        self._len = fresh._len
+
     def __contains__(self, value):
         """Return true if `value` is an element of the sorted list.
 
@@ -722,8 +736,7 @@ class SortedList(MutableSequence):
                     values = self._getitem(slice(None, start))
                     if stop < self._len:
                         values += self._getitem(slice(stop, None))
-                    self._clear()
-                    return self._update(values)
+                    return self._replace(values)
 
             indices = range(start, stop, step)
 
@@ -1445,8 +1458,7 @@ class SortedList(MutableSequence):
 
         """
         values = reduce(iadd, self._lists, []) * num
-        self._clear()
-        self._update(values)
+        self._replace(values)
         return self
 
     def __make_cmp(seq_op, symbol, doc):
@@ -1801,6 +1813,23 @@ class SortedKeyList(SortedList):
 
     _update = update
 
+    def _replace(self, iterable, load=None):
+        """Replace all values by those of `iterable`, or raise unchanged.
+
+        Iteration, comparisons, and key function calls, which may raise or look
+        at the list, all happen before the list is modified.
+
+        """
+        fresh = SortedKeyList(key=self._key)
+        fresh._load = self._load if load is None else load
+        fresh._update(iterable)
+        self._clear()
+        self._load = fresh._load
+        self._lists.extend(fresh._lists)
+        self._keys.extend(fresh._keys)
+        self._maxes.extend(fresh._maxes)
+        self._len = fresh._len
+
     def __contains__(self, value):
         """Return true if `value` is an element of the sorted-key list.
 
-- 
2.43.0


From f577776857dde067992076f0a4e556481c1521eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 03/10] fix: publish the positional index in one step

_build_index filled the index row by row and set the offset last. A second
reader thread, or any reader after an interrupt or a failed allocation in the
middle, used the incomplete index and got wrong answers from then on.
---
 src/sortedcontainers/sortedlist.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index 86d8643..7f69817 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -676,8 +676,8 @@ class SortedList(MutableSequence):
         row0 = list(map(len, self._lists))
 
         if len(row0) == 1:
-            self._index[:] = row0
             self._offset = 0
+            self._index[:] = row0
             return
 
         head = iter(row0)
@@ -688,8 +688,8 @@ class SortedList(MutableSequence):
             row1.append(row0[-1])
 
         if len(row1) == 1:
-            self._index[:] = row1 + row0
             self._offset = 1
+            self._index[:] = row1 + row0
             return
 
         size = 2 ** (int(log(len(row1) - 1, 2)) + 1)
@@ -702,8 +702,10 @@ class SortedList(MutableSequence):
             row = list(starmap(add, zip(head, tail)))
             tree.append(row)
 
-        reduce(iadd, reversed(tree), self._index)
+        # Readers take a non-empty index to be complete, so set the offset first
+        # and the whole index in one step.
         self._offset = size * 2 - 1
+        self._index[:] = reduce(iadd, reversed(tree), [])
 
     def __delitem__(self, index):
         """Remove value at `index` from sorted list.
-- 
2.43.0


From 47d124a15a146b1018ea2a7e65331cf476d57d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 04/10] fix: keep the halves of a sorted set together when an
 operation raises

Modify the sorted list, whose comparisons and key function may raise, before
the set, so that a failure leaves both unchanged.
---
 src/sortedcontainers/sortedset.py | 34 +++++++++++++++++--------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index f2416bf..d60c866 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -243,11 +243,12 @@ class SortedSet(MutableSet, Sequence):
         _list = self._list
         if isinstance(index, slice):
             values = _list[index]
+            del _list[index]
             _set.difference_update(values)
         else:
             value = _list[index]
+            del _list[index]
             _set.remove(value)
-        del _list[index]
 
     def __make_cmp(set_op, symbol, doc):
         "Make comparator method."
@@ -334,8 +335,9 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         if value not in _set:
-            _set.add(value)
+            values = {value}  # Hash before the list changes, not after.
             self._list.add(value)
+            _set.update(values)
 
     _add = add
 
@@ -393,8 +395,8 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         if value in _set:
-            _set.remove(value)
             self._list.remove(value)
+            _set.remove(value)
 
     _discard = discard
 
@@ -446,8 +448,11 @@ class SortedSet(MutableSet, Sequence):
         :raises KeyError: if `value` is not in sorted set
 
         """
-        self._set.remove(value)
+        _set = self._set
+        if value not in _set:
+            raise KeyError(value)
         self._list.remove(value)
+        _set.remove(value)
 
     def difference(self, *iterables):
         """Return the difference of two or more sets as a new sorted set.
@@ -492,9 +497,8 @@ class SortedSet(MutableSet, Sequence):
         _list = self._list
         values = set(chain(*iterables))
         if (4 * len(values)) > len(_set):
+            _list._replace(_set.difference(values))
             _set.difference_update(values)
-            _list.clear()
-            _list.update(_set)
         else:
             _discard = self._discard
             for value in values:
@@ -547,9 +551,10 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         _list = self._list
-        _set.intersection_update(*iterables)
-        _list.clear()
-        _list.update(_set)
+        values = _set.intersection(*iterables)
+        _list._replace(values)
+        _set.clear()
+        _set.update(values)
         return self
 
     __iand__ = intersection_update
@@ -599,9 +604,10 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         _list = self._list
-        _set.symmetric_difference_update(other)
-        _list.clear()
-        _list.update(_set)
+        values = _set.symmetric_difference(other)
+        _list._replace(values)
+        _set.clear()
+        _set.update(values)
         return self
 
     __ixor__ = symmetric_difference_update
@@ -646,10 +652,8 @@ class SortedSet(MutableSet, Sequence):
         _list = self._list
         values = set(chain(*iterables))
         if (4 * len(values)) > len(_set):
-            _list = self._list
+            _list._replace(_set.union(values))
             _set.update(values)
-            _list.clear()
-            _list.update(_set)
         else:
             _add = self._add
             for value in values:
-- 
2.43.0


From d44a13ce8ad807b5701ac99711d2108ad4e2929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 05/10] fix: keep the halves of a sorted dict together when an
 operation raises

Modify the sorted list of keys, whose comparisons and key function may raise,
before the dict, so that a failure leaves both unchanged.
---
 src/sortedcontainers/sorteddict.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 273c9ce..e585e10 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -227,8 +227,10 @@ class SortedDict(dict):
         :raises KeyError: if key not found
 
         """
-        dict.__delitem__(self, key)
+        if key not in self:
+            raise KeyError(key)
         self._list_remove(key)
+        dict.__delitem__(self, key)
 
     def __iter__(self):
         """Return an iterator over the keys of the sorted dict.
@@ -480,8 +482,8 @@ class SortedDict(dict):
         """
         if key in self:
             return self[key]
-        dict.__setitem__(self, key, default)
         self._list_add(key)
+        dict.__setitem__(self, key, default)
         return default
 
     def update(self, *args, **kwargs):
@@ -498,8 +500,9 @@ class SortedDict(dict):
 
         """
         if not self:
-            dict.update(self, *args, **kwargs)
-            self._list_update(dict.__iter__(self))
+            pairs = dict(*args, **kwargs)
+            self._list_update(pairs)
+            dict.update(self, pairs)
             return
 
         if not kwargs and len(args) == 1 and isinstance(args[0], dict):
@@ -508,9 +511,9 @@ class SortedDict(dict):
             pairs = dict(*args, **kwargs)
 
         if (10 * len(pairs)) > len(self):
+            new_keys = [key for key in pairs if key not in self]
+            self._list._replace(chain(self, new_keys))
             dict.update(self, pairs)
-            self._list_clear()
-            self._list_update(dict.__iter__(self))
         else:
             for key in pairs:
                 self._setitem(key, pairs[key])
-- 
2.43.0


From a8ef3b73e187815b6514ce9d2a2ba5eeb337efc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:03 +0000
Subject: [PATCH 06/10] fix: keep the key function in num * SortedKeyList

__rmul__ was inherited from SortedList, which builds the result without the
key function.
---
 src/sortedcontainers/sortedlist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index 7f69817..c9f7cc7 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -2461,6 +2461,8 @@ class SortedKeyList(SortedList):
         values = reduce(iadd, self._lists, []) * num
         return self.__class__(values, key=self._key)
 
+    __rmul__ = __mul__
+
     def __reduce__(self):
         values = reduce(iadd, self._lists, [])
         return (type(self), (values, self.key))
-- 
2.43.0


From 2a99c268885d7a7c985b7f6351402098346964f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:03 +0000
Subject: [PATCH 07/10] fix: keep the key function in set - SortedSet

__rsub__ was inherited from collections.abc.Set, which builds the result
without the key function.
---
 src/sortedcontainers/sortedset.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index d60c866..1f24b45 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -13,7 +13,7 @@ Sorted set implementations:
 
 """
 
-from collections.abc import MutableSet, Sequence, Set
+from collections.abc import Iterable, MutableSet, Sequence, Set
 from itertools import chain
 from operator import eq, ge, gt, le, lt, ne
 from textwrap import dedent
@@ -477,6 +477,12 @@ class SortedSet(MutableSet, Sequence):
 
     __sub__ = difference
 
+    def __rsub__(self, other):
+        if not isinstance(other, Iterable):
+            return NotImplemented
+        diff = set(other).difference(self._set)
+        return self._fromset(diff, key=self._key)
+
     def difference_update(self, *iterables):
         """Remove all values of `iterables` from this sorted set.
 
-- 
2.43.0


From c9eac0ffc4229b13d24e19a24643503810e89a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 08/10] fix: SortedSet.update adds none of a few values when
 one is unorderable

A small update added the values in the order of their hashes, so which of them
were members after it had been rejected depended on the hash seed.
---
 src/sortedcontainers/sortedset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 1f24b45..fe51049 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -662,7 +662,9 @@ class SortedSet(MutableSet, Sequence):
             _set.update(values)
         else:
             _add = self._add
-            for value in values:
+            # Sort first: with an unorderable value none is added, rather than
+            # those which happen to come before it in the order of the hashes.
+            for value in sorted(values, key=self._key):
                 _add(value)
         return self
 
-- 
2.43.0


From 84cbe4cf8c727aaad449cc47fa5afca4ce1f752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:04 +0000
Subject: [PATCH 09/10] fix: snapshots of containers whose elements refer back
 to them

Pickling or deep-copying a container with an element or value that refers
back to it (a parent pointer, or a dict stored in itself) lost all members
of a sorted set, raised AttributeError or RecursionError, or gave elements
referring to a different copy: the contents were an argument of the
constructor and so were restored before the container.  Pass them as state.
---
 src/sortedcontainers/sorteddict.py | 7 ++++++-
 src/sortedcontainers/sortedlist.py | 9 +++++++--
 src/sortedcontainers/sortedset.py  | 7 ++++++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index e585e10..b9c8591 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -527,8 +527,13 @@ class SortedDict(dict):
         :func:`SortedDict.__init__` confuse pickle so customize the reducer.
 
         """
+        # The items are the state, not an argument, so that values may refer
+        # back to the sorted dict.
         items = dict.copy(self)
-        return (type(self), (self._key, items))
+        return (type(self), (self._key, {}), items)
+
+    def __setstate__(self, items):
+        self._update(items)
 
     @recursive_repr()
     def __repr__(self):
diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index c9f7cc7..691f039 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -1512,8 +1512,13 @@ class SortedList(MutableSequence):
     __make_cmp = staticmethod(__make_cmp)
 
     def __reduce__(self):
+        # The values are the state, not an argument, so that they may refer
+        # back to the sorted list.
         values = reduce(iadd, self._lists, [])
-        return (type(self), (values,))
+        return (type(self), ((),), values)
+
+    def __setstate__(self, values):
+        self._update(values)
 
     @recursive_repr()
     def __repr__(self):
@@ -2465,7 +2470,7 @@ class SortedKeyList(SortedList):
 
     def __reduce__(self):
         values = reduce(iadd, self._lists, [])
-        return (type(self), (values, self.key))
+        return (type(self), ((), self.key), values)
 
     @recursive_repr()
     def __repr__(self):
diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index fe51049..c926508 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -678,7 +678,12 @@ class SortedSet(MutableSet, Sequence):
         confuse pickle so customize the reducer.
 
         """
-        return (type(self), (self._set, self._key))
+        # The members are the state, not an argument, so that they may refer
+        # back to the sorted set.
+        return (type(self), ((), self._key), self._set)
+
+    def __setstate__(self, values):
+        self._update(values)
 
     @recursive_repr()
     def __repr__(self):
-- 
2.43.0


From adf9211f58e9163472a9bb64df645307cac2d2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:48 +0000
Subject: [PATCH 10/10] fix: keep removed values until the container is whole
 again

Freeing a value may run a finalizer or a weak reference callback, which found
the container half changed: lengths and positions that disagree, IndexError,
an empty container in the middle of an update.
---
 src/sortedcontainers/sorteddict.py | 11 ++++++++---
 src/sortedcontainers/sortedlist.py | 18 +++++++++++++++---
 src/sortedcontainers/sortedset.py  |  7 +++++++
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index b9c8591..f6029bd 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -204,8 +204,9 @@ class SortedDict(dict):
         Runtime complexity: `O(n)`
 
         """
-        dict.clear(self)
+        # The keys and values are freed last, when both are empty.
         self._list_clear()
+        dict.clear(self)
 
     def __delitem__(self, key):
         """Remove item from sorted dict identified by `key`.
@@ -512,6 +513,9 @@ class SortedDict(dict):
 
         if (10 * len(pairs)) > len(self):
             new_keys = [key for key in pairs if key not in self]
+            # Freeing a value may run code which looks at the dict: keep the
+            # values until all are replaced.
+            _replaced = list(dict.values(self))
             self._list._replace(chain(self, new_keys))
             dict.update(self, pairs)
         else:
@@ -594,8 +598,9 @@ def _view_delitem(self, index):
     if isinstance(index, slice):
         keys = _list[index]
         del _list[index]
-        for key in keys:
-            dict_delitem(_mapping, key)
+        # Freeing a value may run code which looks at the dict: keep the values
+        # until all are removed.
+        _values = [dict.pop(_mapping, key) for key in keys]
     else:
         key = _list.pop(index)
         dict_delitem(_mapping, key)
diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index 691f039..eb937f8 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -180,6 +180,9 @@ class SortedList(MutableSequence):
         Runtime complexity: `O(n)`
 
         """
+        # Freeing a value may run code which looks at the list: keep the values
+        # until the list is empty as a whole.
+        _removed = self._lists[:]
         self._len = 0
         del self._lists[:]
         del self._maxes[:]
@@ -305,6 +308,9 @@ class SortedList(MutableSequence):
         fresh = SortedList()
         fresh._load = self._load if load is None else load
         fresh._update(iterable)
+        # Freeing a value may run code which looks at the list: keep the values
+        # until all are replaced.
+        _replaced = self._lists[:]
         self._clear()
         self._load = fresh._load
         self._lists.extend(fresh._lists)
@@ -431,7 +437,9 @@ class SortedList(MutableSequence):
 
         _lists_pos = _lists[pos]
 
-        del _lists_pos[idx]
+        # Freeing the value may run code which looks at the list: keep the value
+        # until the list is done with.
+        _removed = _lists_pos.pop(idx)
         self._len -= 1
 
         len_lists_pos = len(_lists_pos)
@@ -1686,6 +1694,8 @@ class SortedKeyList(SortedList):
         Runtime complexity: `O(n)`
 
         """
+        # As in SortedList.clear, free the values last.
+        _removed = self._lists[:], self._keys[:]
         self._len = 0
         del self._lists[:]
         del self._keys[:]
@@ -1830,6 +1840,8 @@ class SortedKeyList(SortedList):
         fresh = SortedKeyList(key=self._key)
         fresh._load = self._load if load is None else load
         fresh._update(iterable)
+        # As in SortedList._replace, free the values last.
+        _replaced = self._lists[:], self._keys[:]
         self._clear()
         self._load = fresh._load
         self._lists.extend(fresh._lists)
@@ -2006,8 +2018,8 @@ class SortedKeyList(SortedList):
         keys_pos = _keys[pos]
         lists_pos = _lists[pos]
 
-        del keys_pos[idx]
-        del lists_pos[idx]
+        # As in SortedList._delete, free the value last.
+        _removed = keys_pos.pop(idx), lists_pos.pop(idx)
         self._len -= 1
 
         len_keys_pos = len(keys_pos)
diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index c926508..c335a2b 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -503,6 +503,9 @@ class SortedSet(MutableSet, Sequence):
         _list = self._list
         values = set(chain(*iterables))
         if (4 * len(values)) > len(_set):
+            # Freeing a value may run code which looks at the set: keep the
+            # values until all are removed.
+            _before = _set.copy()
             _list._replace(_set.difference(values))
             _set.difference_update(values)
         else:
@@ -558,6 +561,8 @@ class SortedSet(MutableSet, Sequence):
         _set = self._set
         _list = self._list
         values = _set.intersection(*iterables)
+        # As in difference_update, free the values last.
+        _before = _set.copy()
         _list._replace(values)
         _set.clear()
         _set.update(values)
@@ -611,6 +616,8 @@ class SortedSet(MutableSet, Sequence):
         _set = self._set
         _list = self._list
         values = _set.symmetric_difference(other)
+        # As in difference_update, free the values last.
+        _before = _set.copy()
         _list._replace(values)
         _set.clear()
         _set.update(values)
-- 
2.43.0

