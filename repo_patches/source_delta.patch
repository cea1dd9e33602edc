From b6432581a5dd3c29130b785a33d52ede6a673035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:29 +0000
Subject: [PATCH 01/53] fix: keep SequenceList sorted when appending to a list
 with a start time of 0

---
 src/aligned_textgrid/sequence_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 5cf3b9e..949c567 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -201,7 +201,8 @@ class SequenceList(Sequence):
         elif hasattr(value, "time"):
             this_time = value.time
         
-        if len(self.starts) > 0 and all(self.starts):
+        untimed = [t is None for t in self.starts] + [this_time is None]
+        if not any(untimed):
             insert_idx = self.starts.searchsorted(this_time)
             self._values.insert(insert_idx, value)
             return
-- 
2.43.0


From 846c9b90976d7c026940d93d14a435a3699d3b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:29 +0000
Subject: [PATCH 02/53] fix: SequenceList.concat() leaves a plain list of
 values, so the list stays mutable

---
 src/aligned_textgrid/sequence_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 949c567..bacc2ed 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -230,7 +230,7 @@ class SequenceList(Sequence):
         intervals._shift(increment)          
         
         new_values = self + intervals
-        self._values = new_values
+        self._values = list(new_values)
 
        
     def remove(self:Sequence[SeqVar], x:SeqVar)->None:
-- 
2.43.0


From 01ef64f561f06b990f6145c598c882c7eeda49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:35 +0000
Subject: [PATCH 03/53] fix: fusing relinks the neighbour beyond the fused
 interval

---
 src/aligned_textgrid/sequences/sequences.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 5bde7fe..a3ec3a2 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -596,6 +596,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
 
             fuser.end = fusee.end
             fuser.fol = fusee.fol
+            fuser.fol.set_prev(fuser)
             fuser.label = label_fun(fuser.label, fusee.label)
 
             new_list = fuser._subset_list + fusee.subset_list
@@ -627,6 +628,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
 
             fuser.start = fusee.start
             fuser.prev = fusee.prev
+            fuser.prev.set_fol(fuser)
             fuser.label = label_fun(fusee.label, fuser.label)
 
             new_list = fusee.subset_list + fuser._subset_list
-- 
2.43.0


From 446b005d8bd18ebbe3ca72829dbc0cb354cb0859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:21 +0000
Subject: [PATCH 04/53] fix: tier updates keep fol/prev within the superset
 instance, and pop() relinks every tier

---
 src/aligned_textgrid/sequences/tiers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index f68a872..57bab9c 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -136,13 +136,15 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
 
 
     def __set_precedence(self)->None:
+        # Intervals only precede one another within the same superset instance
+        supers = [seq.super_instance for seq in self._sequence_list]
         for idx,seq in enumerate(self._sequence_list):
             self.__set_intier(seq)
-            if idx == 0:
+            if idx == 0 or not supers[idx-1] is supers[idx]:
                 seq.set_initial()
             else:
                 seq.set_prev(self._sequence_list[idx-1])
-            if idx == len(self._sequence_list)-1:
+            if idx == len(self._sequence_list)-1 or not supers[idx+1] is supers[idx]:
                 seq.set_final()
             else:
                 seq.set_fol(self._sequence_list[idx+1])
@@ -171,8 +173,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         if entry in self.sequence_list:
             self.sequence_list.remove(entry)
-            if self.superset_class is Top:
-                self.__set_precedence()
+            self.__set_precedence()
         else:
             raise Exception("Entry not in tier")                    
 
-- 
2.43.0


From ed4971d4c0d42e7884087e470ef85399a2075d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:26 +0000
Subject: [PATCH 05/53] fix: tiers are within their TierGroup even when the
 group lacks the bottom of the hierarchy

---
 src/aligned_textgrid/mixins/tiermixins.py   | 6 ++++--
 src/aligned_textgrid/sequences/sequences.py | 5 +++--
 src/aligned_textgrid/sequences/tiers.py     | 3 ++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index a2d4abf..943fc1a 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -110,14 +110,16 @@ class TierMixins:
         self.sequence_list += [new]
         if hasattr(new, "subset_list") \
            and len(new) > 0 \
-           and self.within:
+           and self.within \
+           and self.within_index + 1 < len(self.within):
             down_tier = self.within_index+1
             for interval in new.subset_list:
                 self.within[down_tier].append(interval, re_relate = False)
         
         if hasattr(new, "super_instance")\
            and new.super_instance \
-           and self.within:
+           and self.within \
+           and self.within_index > 0:
             uptier  = self.within_index-1
             self.within[uptier].append(new.super_instance, re_relate = False)
             
diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index a3ec3a2..d3faa61 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -110,8 +110,9 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         if issubclass(self.subset_class, other.entry_class):
             self.subset_list += [other]
             if self.intier and self.intier.within:
-                self_tier_idx = self.intier.within_index
-                self.intier.within[self_tier_idx+1].append(other, re_relate = False)
+                down_tier_idx = self.intier.within_index + 1
+                if down_tier_idx < len(self.intier.within):
+                    self.intier.within[down_tier_idx].append(other, re_relate = False)
             return
         raise ValueError("Appended SequenceInterval must be the subset class of the original.")
 
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 57bab9c..6f79c7d 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -569,7 +569,8 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 try:
                     next_idx = [x.entry_class for x in tiers].index(curr.subset_class)
                 except ValueError:
-                    return top_to_bottom
+                    done = True
+                    break
                 
                 top_to_bottom.append(tiers[next_idx])
         self.contains = top_to_bottom
-- 
2.43.0


From 119cb1514b030ab2cb4b1234cfc02b1531bcfcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:44 +0000
Subject: [PATCH 06/53] fix: TierGroup no longer attaches (and inverts)
 intervals that lie outside every superset interval

---
 src/aligned_textgrid/sequences/tiers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 6f79c7d..0549938 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -419,6 +419,14 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 # get the index of the upper interval
                 # it has the most overlap with.
                 upper_container = overlaps.argmax(axis = 1)
+                # Lower intervals that are outside of every
+                # upper interval have no container.
+                uncontained = np.where(
+                    lower_durations > 0,
+                    max_overlaps <= 0,
+                    max_overlaps < 0
+                )
+                upper_container[uncontained] = -1
                 lower_idx = np.arange(len(lower_tier))
 
                 _starts = np.array([
@@ -438,7 +446,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 starts = np.ma.masked_array(_starts, _starts < 0)
                 ends = np.ma.masked_array(_ends, _ends < 0)
                 
-                mismatches = lower_durations - max_overlaps
+                mismatches = (lower_durations - max_overlaps)[~uncontained]
                 any_mismatch = bool(np.any(mismatches > 0))
 
                 # any_mismatch = bool(np.any(start_match > 0))
-- 
2.43.0


From 77ca6223d32f5294afa9282bc3ee0f4273d12d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:49 +0000
Subject: [PATCH 07/53] fix: intervals closing gaps inside a superset interval
 are also added to their tier

---
 src/aligned_textgrid/sequences/tiers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 0549938..4352705 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -471,15 +471,18 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                         )
 
                 # Close internal gaps
+                gap_fillers = []
                 for lowers in lower_sequences:
                     if not np.allclose(lowers.starts[1:], lowers.ends[:1]):
                         boundaries = np.unique(np.concat([lowers.starts, lowers.ends]))
                         new_starts = boundaries[:-1][~np.isin(boundaries[:-1], lowers.starts)]
                         new_ends = boundaries[1:][~np.isin(boundaries[1:], lowers.ends)]
                         for s, e in zip(new_starts, new_ends):
-                            lowers.append(
-                                lowers[0].entry_class((s, e, ""))
-                            )
+                            new = lowers[0].entry_class((s, e, ""))
+                            lowers.append(new)
+                            gap_fillers.append(new)
+                if len(gap_fillers) > 0:
+                    lower_tier.sequence_list += gap_fillers
 
                 u_durs = np.array([
                     u.end - u.start
-- 
2.43.0


From 8d5f9c2ef45c60777173e498b70a0aca5c604794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:55 +0000
Subject: [PATCH 08/53] fix: relating tiers resets the precedence of every tier
 in the group

---
 src/aligned_textgrid/sequences/tiers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 4352705..b42ec60 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -515,7 +515,11 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     
                     if squish and not delay_cleanup:
                         u.cleanup()
-    
+
+        ## triggers precedence resetting
+        for tier in self.tier_list:
+            tier.sequence_list = tier.sequence_list
+
     def __getitem__(
             self,
             idx: int|list
-- 
2.43.0


From 4dcb29dc9cb01f3b3f17a02af5cc0ff8cde2f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:39 +0000
Subject: [PATCH 09/53] fix: xmin/xmax of groups and TextGrids skip empty
 tiers, and PointsGroup.xmax is the latest time

---
 src/aligned_textgrid/aligned_textgrid.py |  6 ++++--
 src/aligned_textgrid/points/tiers.py     | 12 ++++--------
 src/aligned_textgrid/sequences/tiers.py  |  6 ++++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 44706f1..4045039 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -395,13 +395,15 @@ class AlignedTextGrid(Sequence, WithinMixins):
     def xmin(self)->np.array:
         if len(self) == 0:
             raise ValueError('No minimum time for empty TextGrid.')
-        return np.array([tgroup.xmin for tgroup in self.tier_groups]).min()
+        times = [tgroup.xmin for tgroup in self.tier_groups if tgroup.xmin is not None]
+        return np.array(times).min() if len(times) > 0 else None
 
     @property
     def xmax(self)->np.array:
         if len(self) == 0:
             raise ValueError('No maximum time for empty TextGrid.')
-        return np.array([tgroup.xmax for tgroup in self.tier_groups]).max()
+        times = [tgroup.xmax for tgroup in self.tier_groups if tgroup.xmax is not None]
+        return np.array(times).max() if len(times) > 0 else None
     
     def append(self, tier_group:TierGroup):
         """Append a new TierGroup to an existing 
diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index cdbf1f3..bcda2da 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -310,17 +310,13 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     
     @property
     def xmin(self):
-        times = np.array(
-            [t.xmin for t in self.tier_list]
-        )
-        return times.min()
+        times = [t.xmin for t in self.tier_list if len(t) > 0]
+        return np.array(times).min() if len(times) > 0 else None
 
     @property    
     def xmax(self):
-        times = np.array(
-            [t.xmin for t in self.tier_list]
-        )
-        return times.max()
+        times = [t.xmax for t in self.tier_list if len(t) > 0]
+        return np.array(times).max() if len(times) > 0 else None
     
     def __repr__(self):
         n_tiers = len(self.tier_list)
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index b42ec60..77c0dbd 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -601,11 +601,13 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
     
     @property
     def xmin(self)->float:
-        return np.array([tier.xmin for tier in self.tier_list]).min()
+        times = [tier.xmin for tier in self.tier_list if len(tier) > 0]
+        return np.array(times).min() if len(times) > 0 else None
     
     @property
     def xmax(self)->float:
-        return np.array([tier.xmax for tier in self.tier_list]).max()
+        times = [tier.xmax for tier in self.tier_list if len(tier) > 0]
+        return np.array(times).max() if len(times) > 0 else None
     
     def _project_up(self, interval:SequenceInterval)->None:
         """
-- 
2.43.0


From eac81228f46f76a383f7cad14a1c19e22c7b8353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:44 +0000
Subject: [PATCH 10/53] fix: cleanup links the intervals it adds and never
 moves existing boundaries

---
 src/aligned_textgrid/sequences/tiers.py | 56 +++++++++++++------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 77c0dbd..d6dabcd 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -249,14 +249,12 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
             new = self.entry_class((s, e, ""))
             self.sequence_list.append(new)
 
-        if issubclass(self.subset_class, Bottom):
-            if self.within:
-                self.within.re_relate()
-                return
-        
+        ## triggers precedence resetting
+        self.sequence_list = self.sequence_list
+
+        ## fills in the subsets of the new intervals
         if self.within:
-            next_tier = self.within[self.within_index+1]
-            next_tier.cleanup()
+            self.within.re_relate()
 
         # existing_intervals = self.sequence_list
 
@@ -644,27 +642,31 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
             ):
                 not_tight = True
 
-            if issubclass(tier.entry_class, Top):
-                continue
-
-            any_orphans = any([
-                not i.within
-                for i in tier
-            ])
-
-            if any_orphans:
-                for i in tier:
-                    if not i.within:
-                        self._project_up(i)
-                self.re_relate()        
+            # a non-empty tier that doesn't reach the edges of the group
+            if len(tier) > 0 and not np.allclose(
+                [tier.xmin, tier.xmax], [self.xmin, self.xmax]
+            ):
+                not_tight = True
 
-        if not not_tight:
-            return
-        
-        for tier in self:
-            tier.cleanup()
-        
-        self.re_relate()
+        # Bottom up, since a newly projected interval
+        # might need projecting up itself.
+        for tier in self.tier_list[:0:-1]:
+            orphans = [i for i in tier if not i.within]
+
+            if len(orphans) > 0:
+                for i in orphans:
+                    self._project_up(i)
+                self.re_relate()
+
+        if not_tight:
+            # Gaps within superset intervals are closed by relating,
+            # so only gaps in the top tier are left.
+            self.re_relate()
+            self.tier_list[0].cleanup()
+
+        for tier in self.tier_list[:-1]:
+            for interval in tier:
+                interval.cleanup(internal = False)
 
 
     def shift(
-- 
2.43.0


From 1fb50356f388a758e8ebd76813dc960c89bc215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:15 +0000
Subject: [PATCH 11/53] fix: AlignedTextGrid.cleanup() pads only the groups
 that are short, relates the padding, and copes with points

---
 src/aligned_textgrid/aligned_textgrid.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 4045039..7e31415 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -474,7 +474,14 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 if isinstance(tg, TierGroup):
                     tg.cleanup()
             
-            interval_tgs = [tg for tg in self if isinstance(tg, TierGroup)]
+            interval_tgs = [
+                tg 
+                for tg in self 
+                if isinstance(tg, TierGroup) and tg.xmin is not None
+            ]
+            if len(interval_tgs) < 1:
+                return
+
             tg_starts = np.array([tg.xmin for tg in interval_tgs])
             tg_ends = np.array([tg.xmax for tg in interval_tgs])
 
@@ -482,7 +489,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
             np.allclose(tg_ends.min(), tg_ends.max()):
                 return
             
-            for tg in self.tier_groups:
+            for tg in interval_tgs:
                 if np.allclose(tg.xmin, tg_starts.min()):
                     continue
 
@@ -496,8 +503,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     tier.append(interval, re_relate = False)
 
                 
-            for tg in self.tier_groups:
-                if np.allclose(tg.xmax, tg_starts.max()):
+            for tg in interval_tgs:
+                if np.allclose(tg.xmax, tg_ends.max()):
                     continue
 
                 start = tg.xmax
@@ -509,8 +516,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 for tier, interval in zip(tg, empty_intervals):
                     tier.append(interval, re_relate = False)
             
-            # for tg in self.tier_groups:
-            #     tg.re_relate()
+            for tg in interval_tgs:
+                tg.re_relate()
                 
     def shift(
             self,
-- 
2.43.0


From d9c1af1b2df99249d542e326a8f38ca660c41e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:59 +0000
Subject: [PATCH 12/53] fix: points appended or concatenated to a
 SequencePointTier are linked to the tier and their neighbours

---
 src/aligned_textgrid/points/tiers.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index bcda2da..8aef452 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -100,11 +100,11 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         self.name = name
         entry_order = np.argsort([x.time for x in self.entry_list])
         self.entry_list = [self.entry_list[idx] for idx in entry_order]
-        self.sequence_list = SequenceList()
+        self._sequence_list = SequenceList()
        
         for entry in self.entry_list:
             this_point = self.entry_class._cast(entry)
-            self.sequence_list.append(this_point)
+            self._sequence_list.append(this_point)
         self.__set_precedence()
     
     def __getitem__(self, idx):
@@ -136,6 +136,15 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
     def __repr__(self):
         return f"Sequence Point tier of {self.entry_class.__name__};"
 
+    @property
+    def sequence_list(self)->SequenceList:
+        return self._sequence_list
+    
+    @sequence_list.setter
+    def sequence_list(self, new:Sequence):
+        self._sequence_list = SequenceList(*new)
+        self.__set_precedence()
+
     @property
     def times(self):
         return self.sequence_list.starts
-- 
2.43.0


From b4eb54500c0823e200c160ae31d87e70ec9336bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:05 +0000
Subject: [PATCH 13/53] fix: building a SequencePointTier from another keeps
 the points added since it was made

---
 src/aligned_textgrid/points/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 8aef452..ab543a4 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -91,7 +91,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             name = tier.name
 
         if isinstance(tier, SequencePointTier):
-            entries = tier.entry_list
+            entries = tier.sequence_list
             if tier.name != tier.entry_class.__name__:
                 name = tier.name
         
-- 
2.43.0


From 534abe4bb4f5cd70adf458d1f88609c8ba08b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:11 +0000
Subject: [PATCH 14/53] fix: a PointsGroup keeps its name when it is rebuilt

---
 src/aligned_textgrid/points/tiers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index ab543a4..dbdca27 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -253,12 +253,16 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
             self,
             tiers: list[SequencePointTier]|Self = [SequencePointTier()]
     ):
+        name = None
+        if hasattr(tiers, "name"):
+            name = tiers.name
+
         if isinstance(tiers, PointsGroup):
             tiers = [tier for tier in tiers]
         self.tier_list = tiers
         self.contains = self.tier_list
         self._set_tier_names()
-        self._name = self.make_name()
+        self._name = name if name else self.make_name()
 
     def __getitem__(
             self,
-- 
2.43.0


From d8a08feee29a01412b295ed449be4038bf3abef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:17 +0000
Subject: [PATCH 15/53] fix: concat() works for PointsGroups and onto an empty
 group

---
 src/aligned_textgrid/mixins/tiermixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 943fc1a..6776bb0 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -296,10 +296,10 @@ class TierGroupMixins:
                 A TierGroup or PointsGroup to append.
         """
         self._class_check(new)
-        increment = self.xmax
+        increment = self.xmax if self.xmax is not None else 0
         for t1, t2 in zip(self, new):
             for interval in t2:
-                if interval.super_instance is not None:
+                if getattr(interval, "super_instance", None) is not None:
                     continue
                 if interval in t1:
                     continue
-- 
2.43.0


From 5d06b58e10af059179e8fff91c11d03bcf8ff7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 16/53] fix: custom_classes() returns classes in the named
 return_order

---
 src/aligned_textgrid/custom_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index 1669264..48af75d 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -146,7 +146,7 @@ def custom_classes(
         if type(return_order[0]) is int:
             return_list = [class_out_list[idx] for idx in return_order]
         elif type(return_order[0]) is str:
-            return_idx = [return_order.index(x) for x in class_list]
+            return_idx = [class_list.index(x) for x in return_order]
             return_list = [class_out_list[idx] for idx in return_idx] 
         return return_list
 
-- 
2.43.0


From 4188f555ca2fd3bf62c23298c438e7a938d1f44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:23 +0000
Subject: [PATCH 17/53] fix: AlignedTextGrid.append() keeps the names of the
 appended tiers

---
 src/aligned_textgrid/aligned_textgrid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 7e31415..5c148d9 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -449,8 +449,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self._reclone_classes(tier_group.entry_classes)
         new_classes = self._swap_classes(tier_group.entry_classes, self._cloned_classes)
         for cl, tier in zip(new_classes, tier_group):
-            entries = [cl._cast(i) for i in tier]
-            tier.__init__(entries, entry_class = cl)
+            tier.__init__(tier, entry_class = cl)
         
         tier_group.__init__(tier_group)
      
-- 
2.43.0


From 96c0b38fb749f5a076e06de173709372d96974a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:29 +0000
Subject: [PATCH 18/53] fix: fol_distance and prev_distance are defined for a
 neighbour at time 0

---
 src/aligned_textgrid/points/points.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 83e6f96..6a81b46 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -139,10 +139,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
 
     @property
     def fol_distance(self):
-        if self.fol and self.fol.time:
+        if self.fol and self.fol.time is not None:
             return self.fol.time - self.time
         
-        if self.fol and not self.fol.time:
+        if self.fol and self.fol.time is None:
             warnings.warn("Final point")
             return None
 
@@ -152,10 +152,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
         
     @property
     def prev_distance(self):
-        if self.prev and self.prev.time:
+        if self.prev and self.prev.time is not None:
             return self.prev.time - self.time
         
-        if self.prev and not self.prev.time:
+        if self.prev and self.prev.time is None:
             warnings.warn("initial point")
             return None
 
-- 
2.43.0


From 360cd6939dfafaacd5b9981d48c192274e8b8fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:35 +0000
Subject: [PATCH 19/53] fix: get_interval_at_point() returns None when no
 interval contains the point

---
 src/aligned_textgrid/points/points.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 6a81b46..278e8b7 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -222,7 +222,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
                 The SequenceInterval within which the current point falls
         """
         if tier and isinstance(tier, SequenceTier):
-            return tier[self.get_interval_index_at_time(tier)]
+            int_idx = self.get_interval_index_at_time(tier)
+            if int_idx is None:
+                return None
+            return tier[int_idx]
 
     
 SequencePoint._set_seq_type(SequencePoint)
\ No newline at end of file
-- 
2.43.0


From adf2dfbe146562aab0cc2295a6762907e9ac3666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:41 +0000
Subject: [PATCH 20/53] fix: return_textgrid() never reuses a tier name

---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 5c148d9..2c06388 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -807,8 +807,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for group in self.tier_groups:
             for tier in group:
                 name = tier.name
-                if name in tier_names:
-                    name = f"{name}_{dup_idx}"
+                while name in tier_names:
+                    name = f"{tier.name}_{dup_idx}"
                     dup_idx += 1 
                 tier_names += [name]
                 out_tg.addTier(tier = tier.return_tier(name))
-- 
2.43.0


From 8fdd56b26ecd344d96c414a1ec3264d816f23a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:46 +0000
Subject: [PATCH 21/53] fix: adding a subset interval with + keeps the existing
 subset intervals

---
 src/aligned_textgrid/sequences/sequences.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index d3faa61..8130427 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -96,6 +96,8 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
     def __add__(self, other:'SequenceInterval')->'SequenceInterval':
         self_copy:SequenceInterval = self.entry_class(self)
         self_copy.__dict__ = self.__dict__
+        for sub in self_copy.subset_list:
+            sub.super_instance = self_copy
 
         if issubclass(self.entry_class, other.superset_class):
             self_copy.subset_list += [other]
-- 
2.43.0


From ce103db6bff4003a59181f42b9255397b5316a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:50 +0000
Subject: [PATCH 22/53] fix: a detached interval no longer points at its former
 neighbours

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 8130427..bb05e34 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -204,6 +204,8 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         self._subset_list.remove(subset_instance)
         subset_instance.super_instance = None
         subset_instance.within = None
+        subset_instance.set_initial()
+        subset_instance.set_final()
         self._set_subset_precedence()
         #self.validate()
     
@@ -218,6 +220,8 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         
         self.super_instance = None
         self.within = None
+        self.set_initial()
+        self.set_final()
 
 
 
-- 
2.43.0


From 3315293a00171117f975705123972f9cf573a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:22 +0000
Subject: [PATCH 23/53] fix: interleave_class() rejects a missing timing tier
 before changing any class

---
 src/aligned_textgrid/aligned_textgrid.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 2c06388..8b61e13 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -619,6 +619,14 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 "Must be either 'above' or 'below'."
             )
 
+        for tg in self.tier_groups:
+            if specified_class in tg.entry_classes and \
+               not copy_class in tg.entry_classes:
+                raise ValueError(
+                    f"TierGroup {tg.name} has no tier {timing_from} the new "
+                    f"{name} tier to draw timing from."
+                )
+
         new_class.set_superset_class(up_class)
         new_class.set_subset_class(down_class)
         
-- 
2.43.0


From 4daf79ce809e7f2e40a4e79de0fe889c7093ec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:27 +0000
Subject: [PATCH 24/53] fix: named group accessors follow interleave_class()
 and pop_class()

---
 src/aligned_textgrid/aligned_textgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 8b61e13..2869502 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -664,6 +664,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for tgr in self.tier_groups:
             tgr.within = self
         self.contains = self.tier_groups
+        self._set_group_names()
 
     def pop_class(
             self, 
@@ -747,6 +748,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for tgr in self.tier_groups:
             tgr.within = self
         self.contains = self.tier_groups            
+        self._set_group_names()
             
     def get_class_by_name(
             self, 
-- 
2.43.0


From 0a89d5b3586ce6d4929e69e5bcb3cb13c7051898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:33 +0000
Subject: [PATCH 25/53] fix: popping the only class removes the last TierGroup

---
 src/aligned_textgrid/aligned_textgrid.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 2869502..4d0da14 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -375,9 +375,6 @@ class AlignedTextGrid(Sequence, WithinMixins):
         if not(isinstance(new, Sequence) and all([isinstance(v, TierGroupMixins) for v in new])):
             raise ValueError("Ony a list of TierGroups can be set as tier groups.")
         
-        if len(new) < 1:
-            return
-        
         self._tier_groups = new
         self.contains = self.tier_groups
 
-- 
2.43.0


From 44ca5dd1b7475b3ebd6262d99685d37720cd4ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 26/53] fix: interleaving and popping update the classes of
 tiers in every group

---
 src/aligned_textgrid/aligned_textgrid.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 4d0da14..5ac4082 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -631,6 +631,10 @@ class AlignedTextGrid(Sequence, WithinMixins):
 
         for tg in self.tier_groups:
             if not specified_class in tg.entry_classes:
+                for tier in tg:
+                    if isinstance(tier, SequenceTier):
+                        tier.superset_class = tier.entry_class.superset_class
+                        tier.subset_class = tier.entry_class.subset_class
                 new_tiergoups.append(tg)
             else:
                 copy_tier = [tier for tier in tg if tier.entry_class is copy_class][0]
@@ -744,6 +748,10 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self.tier_groups = new_tier_groups
         for tgr in self.tier_groups:
             tgr.within = self
+            for tier in tgr:
+                if isinstance(tier, SequenceTier):
+                    tier.superset_class = tier.entry_class.superset_class
+                    tier.subset_class = tier.entry_class.subset_class
         self.contains = self.tier_groups            
         self._set_group_names()
             
-- 
2.43.0


From b73a9086993f5c6f308a98b3676db1f97c5700b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:45 +0000
Subject: [PATCH 27/53] fix: a TextGrid with an empty tier can be returned and
 saved

---
 src/aligned_textgrid/points/tiers.py    | 9 ++++++++-
 src/aligned_textgrid/sequences/tiers.py | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index dbdca27..d8ec971 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -220,7 +220,14 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         if name is None:
             name = self.name
         all_points = [entry.return_point() for entry in self.sequence_list]
-        point_tier = PointTier(name = name, entries=all_points)
+        min_time, max_time = None, None
+        if len(self) < 1 and self.within and self.within.within:
+            # an empty tier has the time span of its TextGrid
+            min_time = self.within.within.xmin
+            max_time = self.within.within.xmax
+        point_tier = PointTier(
+            name = name, entries=all_points, minT = min_time, maxT = max_time
+        )
         return(point_tier)
     
     def save_as_tg(
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index d6dabcd..887d9b1 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -318,7 +318,14 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         if name is None:
             name = self.name
         all_intervals = [entry.return_interval() for entry in self.sequence_list]
-        interval_tier = IntervalTier(name = name, entries = all_intervals)
+        min_time, max_time = None, None
+        if len(self) < 1 and self.within and self.within.within:
+            # an empty tier has the time span of its TextGrid
+            min_time = self.within.within.xmin
+            max_time = self.within.within.xmax
+        interval_tier = IntervalTier(
+            name = name, entries = all_intervals, minT = min_time, maxT = max_time
+        )
         return interval_tier
 
     
-- 
2.43.0


From 256ff0319713bcfdc7f79c40c53af48cd39e0046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:39 +0000
Subject: [PATCH 28/53] fix: entry_classes may be given as tuples

---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 5ac4082..7f4ae53 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -187,7 +187,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         
         flat_classes = entry_classes
 
-        if type(entry_classes[0]) is list:
+        if type(entry_classes[0]) in [list, tuple]:
             flat_classes = [c for tg in entry_classes for c in tg]
         
         unique_classes = list(set(flat_classes))
@@ -324,7 +324,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self._reclone_classes(entry_classes)
         # This check seems overly cautious, since 
         # _nestify_tiers should always return a list of lists.
-        if type(entry_classes[0]) is list:
+        if type(entry_classes[0]) in [list, tuple]:
             entry_classes = [self._swap_classes(ecs, self._cloned_classes) for ecs in entry_classes]
         else:
             entry_classes = self._swap_classes(entry_classes, self._cloned_classes)
-- 
2.43.0


From 89a8e2e2030b77e6de311680efdd1494934b6d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:44 +0000
Subject: [PATCH 29/53] fix: a repeated class in a flat entry_classes list no
 longer reuses another group's tier

---
 src/aligned_textgrid/aligned_textgrid.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 7f4ae53..fec8368 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -278,6 +278,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         
         ## Nestifying hierarchywise
         entry_list = []
+        used_idxes = []
         for top_idx in top_idxes:
             this_tierlist = []
             this_entrylist = []
@@ -292,12 +293,18 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     done = True
                     break
 
-                try:
-                    next_idx = entry_classes.index(curr.subset_class)
-                except ValueError:
+                # Each tier belongs to just one group
+                next_idxes = [
+                    i 
+                    for i,c in enumerate(entry_classes) 
+                    if c is curr.subset_class and not i in used_idxes
+                ]
+                if len(next_idxes) < 1:
                     done = True
                     break
 
+                next_idx = next_idxes[0]
+                used_idxes.append(next_idx)
                 this_tierlist.append(textgrid.tiers[next_idx])
                 this_entrylist.append(entry_classes[next_idx])
 
-- 
2.43.0


From 6db32a0fb3c219b240966ebd16d33ec5c81436cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:04 +0000
Subject: [PATCH 30/53] fix: intervals and points added to an empty tier take
 the tier's entry class

---
 src/aligned_textgrid/points/tiers.py    | 4 +++-
 src/aligned_textgrid/sequences/tiers.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index d8ec971..b0ac33c 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -142,7 +142,9 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
     
     @sequence_list.setter
     def sequence_list(self, new:Sequence):
-        self._sequence_list = SequenceList(*new)
+        self._sequence_list = SequenceList(*[
+            self.entry_class._cast(entry) for entry in new
+        ])
         self.__set_precedence()
 
     @property
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 887d9b1..63c1d42 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -186,7 +186,9 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
     
     @sequence_list.setter
     def sequence_list(self, new:Sequence):
-        self._sequence_list = SequenceList(*new)
+        self._sequence_list = SequenceList(*[
+            self.entry_class._cast(entry) for entry in new
+        ])
         self.__set_precedence()        
 
     @property
-- 
2.43.0


From 77b257cf656364fefe6338fa3271e2f7ff4aac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:09 +0000
Subject: [PATCH 31/53] fix: intervals of a TextGrid accept a first subset
 interval of the original class

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index bb05e34..e4d8b8e 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -110,6 +110,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
 
     def append(self, other:'SequenceInterval')->None:
         if issubclass(self.subset_class, other.entry_class):
+            other = self.subset_class._cast(other)
             self.subset_list += [other]
             if self.intier and self.intier.within:
                 down_tier_idx = self.intier.within_index + 1
-- 
2.43.0


From ab7e7d37717701382ab85ab457a5e099d4d4a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:27 +0000
Subject: [PATCH 32/53] fix: set_super_instance() removes the interval from its
 previous superset

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index e4d8b8e..ecec213 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -131,6 +131,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         if super_instance is None:
             warnings.warn("No superset instance provided")   
         elif isinstance(super_instance, self.superset_class) and not super_instance is self.super_instance:
+            self.remove_superset()
             self.super_instance = super_instance
             self.super_instance.append_subset_list(self)
         else:
-- 
2.43.0


From d4753571eca17d7d467078cbfebdb6e98839a353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:32 +0000
Subject: [PATCH 33/53] fix: an interval appended to a subset list is within
 its superset

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index ecec213..ec2a775 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -183,6 +183,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             if subset_instance.super_instance:
                 subset_instance.remove_superset()
             self._subset_list.append(subset_instance)
+            self._set_within()
             self._set_subset_precedence()
             # avoid recursion
             if not self is subset_instance.super_instance:
-- 
2.43.0


From cc4d1e6039c6d3ee4587326fb4077e2dcd8df70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:39 +0000
Subject: [PATCH 34/53] fix: get_tierwise() no longer wraps around from the
 start of a tier

---
 src/aligned_textgrid/mixins/mixins.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/mixins/mixins.py b/src/aligned_textgrid/mixins/mixins.py
index 8e03039..7db4739 100644
--- a/src/aligned_textgrid/mixins/mixins.py
+++ b/src/aligned_textgrid/mixins/mixins.py
@@ -178,7 +178,10 @@ class InTierMixins:
             (SequenceInterval|SequencePoint): The entry at the relative index
         """
         if not self.intier is None:
-            return self.intier[self.tier_index + idx]
+            rel_idx = self.tier_index + idx
+            if rel_idx < 0:
+                raise IndexError("relative index is before the start of the tier")
+            return self.intier[rel_idx]
         else:
             return None
         
-- 
2.43.0


From 953583b36b169984016b244b3d4e0f2038f96dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:36 +0000
Subject: [PATCH 35/53] fix: adding tiers keeps the entry class of empty tiers
 and the name of the original tier

---
 src/aligned_textgrid/mixins/tiermixins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 6776bb0..464292d 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -48,7 +48,8 @@ class TierMixins:
             raise ValueError("Added tiers must have the same entry class")
         
         entries = self.sequence_list + new.sequence_list
-        new_tier = self.__class__(entries)
+        new_tier = self.__class__(entries, entry_class = self.entry_class)
+        new_tier.name = self.name
         return new_tier
 
     def append(self, new:'SequenceInterval|SequencePoint', re_relate = True):
-- 
2.43.0


From d6e3165437e5999428e341a71362e16fbbee733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:16 +0000
Subject: [PATCH 36/53] fix: set_subset_list() releases the intervals it
 replaces

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index ec2a775..792d756 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -154,11 +154,15 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             return
 
         if all([isinstance(subint, self.subset_class) for subint in subset_list]):
+            orig_values = self._subset_list
             self._subset_list = SequenceList(*subset_list)
             for element in subset_list:
                 if not self is element.super_instance:
                     element.remove_superset()
                     element.super_instance = self
+            for orig in orig_values:
+                if not orig in self._subset_list:
+                    orig.remove_superset()
 
             #self._set_within()
             self.contains = self._subset_list
-- 
2.43.0


From c3b426e1edca7d96380ab825e6d34f46b2183313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:00 +0000
Subject: [PATCH 37/53] fix: save_as_tg() of a tier passes the blank-space
 setting praatio requires

---
 src/aligned_textgrid/points/tiers.py    | 2 +-
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index b0ac33c..c474f81 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -243,7 +243,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         point_tier = self.return_tier()
         out_tg = Textgrid()
         out_tg.addTier(tier = point_tier)
-        out_tg.save(save_path, "long_textgrid")
+        out_tg.save(save_path, "long_textgrid", includeBlankSpaces = True)
 
 class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     """A collection of point tiers
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 63c1d42..e05f145 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -345,7 +345,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         interval_tier = self.return_tier()
         out_tg = Textgrid()
         out_tg.addTier(tier = interval_tier)
-        out_tg.save(save_path, "long_textgrid")
+        out_tg.save(save_path, "long_textgrid", includeBlankSpaces = True)
 
 
 class TierGroup(Sequence,TierGroupMixins, WithinMixins):
-- 
2.43.0


From d578187d4692d51c25d367256d0d6a841f60c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:39 +0000
Subject: [PATCH 38/53] fix: subset intervals of an interval made with + are
 within it

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 792d756..c00bf9a 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -98,6 +98,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         self_copy.__dict__ = self.__dict__
         for sub in self_copy.subset_list:
             sub.super_instance = self_copy
+            sub.within = self_copy
 
         if issubclass(self.entry_class, other.superset_class):
             self_copy.subset_list += [other]
-- 
2.43.0


From c48fb2d72eeafb74d7c80b1bc3161da0b4749aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:14 +0000
Subject: [PATCH 39/53] fix: an interval that leaves a subset list is let go
 even when an equal one takes its place

---
 src/aligned_textgrid/sequences/sequences.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index c00bf9a..617bba4 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -162,8 +162,11 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
                     element.remove_superset()
                     element.super_instance = self
             for orig in orig_values:
-                if not orig in self._subset_list:
-                    orig.remove_superset()
+                if not any(orig is sub for sub in self._subset_list):
+                    orig.super_instance = None
+                    orig.within = None
+                    orig.set_initial()
+                    orig.set_final()
 
             #self._set_within()
             self.contains = self._subset_list
-- 
2.43.0


From 0cafab1cf6d60da13956225c6a31fe66e65ab582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:08 +0000
Subject: [PATCH 40/53] fix: to_df() takes times that mix integers and
 decimals, and subsets that are in no tier

---
 src/aligned_textgrid/outputs/to_dataframe.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/aligned_textgrid/outputs/to_dataframe.py b/src/aligned_textgrid/outputs/to_dataframe.py
index a678a94..4f99312 100644
--- a/src/aligned_textgrid/outputs/to_dataframe.py
+++ b/src/aligned_textgrid/outputs/to_dataframe.py
@@ -39,7 +39,7 @@ def sequence_to_df(
     sub_df_rows = None
     if len(obj.contains) > 0 and with_subset:
         sub_df_list = [sequence_to_df(x) for x in obj.contains]
-        sub_df = pl.concat(sub_df_list, how="diagonal")
+        sub_df = pl.concat(sub_df_list, how="diagonal_relaxed")
         sub_df_rows = sub_df.shape[0]
 
     out_dict = {
@@ -49,11 +49,7 @@ def sequence_to_df(
 
     df = pl.DataFrame(out_dict, schema=col_names)
     if sub_df_rows:
-        df = df.with_columns(
-            n=pl.lit(sub_df_rows)
-        ).select(
-            pl.exclude("n").repeat_by("n").explode()
-        )
+        df = pl.concat([df] * sub_df_rows)
         df = pl.concat([df, sub_df], how="horizontal")
 
     if isinstance(obj, SequencePoint) or not with_subset:
@@ -73,7 +69,7 @@ def tier_to_df(
         sequence_to_df(x, with_subset) for x in obj
     ]
 
-    out_df = pl.concat(all_interval_dfs, how="diagonal")
+    out_df = pl.concat(all_interval_dfs, how="diagonal_relaxed")
     return out_df
 
 
@@ -88,7 +84,7 @@ def tiergroup_to_df(
         all_df = [
             tier_to_df(x, with_subset) for x in obj
         ]
-        out_df = pl.concat(all_df, how = "diagonal")
+        out_df = pl.concat(all_df, how = "diagonal_relaxed")
 
     if hasattr(obj, "name"):
        out_df = out_df.with_columns(
@@ -107,7 +103,7 @@ def textgrid_to_df(
         tiergroup_to_df(x, with_subset) for x in obj
     ]
 
-    out_df = pl.concat(all_df, how="diagonal")
+    out_df = pl.concat(all_df, how="diagonal_relaxed")
 
     return out_df
 
-- 
2.43.0


From da9d97617043b0d66ed1bb49ec07562268df4563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:21 +0000
Subject: [PATCH 41/53] fix: interleave_class() keeps the classes of groups
 whose tiers are empty

---
 src/aligned_textgrid/aligned_textgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index fec8368..e36fda7 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -646,7 +646,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
             else:
                 copy_tier = [tier for tier in tg if tier.entry_class is copy_class][0]
                 new_tier = SequenceTier(
-                    [new_class(seq) for seq in copy_tier]
+                    [new_class(seq) for seq in copy_tier],
+                    entry_class = new_class
                 )
                 if not copy_labels:
                     for seq in new_tier:
-- 
2.43.0


From 0be2665232eefcfac7732eacd948c692bf295666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:27 +0000
Subject: [PATCH 42/53] fix: subset intervals outside of tiers follow when
 their superset interval changes its class

---
 src/aligned_textgrid/mixins/mixins.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aligned_textgrid/mixins/mixins.py b/src/aligned_textgrid/mixins/mixins.py
index 7db4739..0d4b48e 100644
--- a/src/aligned_textgrid/mixins/mixins.py
+++ b/src/aligned_textgrid/mixins/mixins.py
@@ -27,6 +27,13 @@ class SequenceBaseClass:
         
         obj.__class__ = cls
 
+        # subset intervals of the same name follow
+        subset_list = getattr(obj, "subset_list", [])
+        for sub in subset_list:
+            if type(sub).__name__ == cls.subset_class.__name__:
+                cls.subset_class._cast(sub)
+                subset_list.entry_class = cls.subset_class
+
         if re_init:
             obj.__init__(obj)
         
-- 
2.43.0


From 5e3ccf1e7d4b0d350227a1f69bef7995843e5ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:08 +0000
Subject: [PATCH 43/53] fix: a + that is refused leaves the interval's subset
 as it was

---
 src/aligned_textgrid/sequences/sequences.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 617bba4..ecbb96b 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -96,14 +96,18 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
     def __add__(self, other:'SequenceInterval')->'SequenceInterval':
         self_copy:SequenceInterval = self.entry_class(self)
         self_copy.__dict__ = self.__dict__
-        for sub in self_copy.subset_list:
-            sub.super_instance = self_copy
-            sub.within = self_copy
+        is_subset = issubclass(self.entry_class, other.superset_class)
+        is_superset = issubclass(self.entry_class, other.subset_class)
 
-        if issubclass(self.entry_class, other.superset_class):
+        if is_subset or is_superset:
+            for sub in self_copy.subset_list:
+                sub.super_instance = self_copy
+                sub.within = self_copy
+
+        if is_subset:
             self_copy.subset_list += [other]
             return self_copy
-        if issubclass(self.entry_class, other.subset_class):
+        if is_superset:
             other.subset_list += [self_copy]
             return self_copy
         
-- 
2.43.0


From d9cee54e5ed2adc0fa19d100aac04bcb99340b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:14 +0000
Subject: [PATCH 44/53] fix: pop_class() takes the removed intervals out of
 subset lists when the tier below is empty

---
 src/aligned_textgrid/aligned_textgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index e36fda7..436d772 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -746,6 +746,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
             for tier in keep_tiers:
                 tier.superset_class = tier.entry_class.superset_class
                 tier.subset_class = tier.entry_class.subset_class
+            for seq in pop_tier:
+                seq.remove_superset()
             new_tg = TierGroup(keep_tiers)
             for seq in new_tg[-1]:
                 seq.subset_list = []
-- 
2.43.0


From 541ebda76d1ce6f4fdac220eeb5469ca076b0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:21 +0000
Subject: [PATCH 45/53] fix: subset intervals precede one another also when
 another superset's intervals lie between them

---
 src/aligned_textgrid/sequences/tiers.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index e05f145..c4b260f 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -137,17 +137,23 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
 
     def __set_precedence(self)->None:
         # Intervals only precede one another within the same superset instance
-        supers = [seq.super_instance for seq in self._sequence_list]
+        prev, fol, last_in = {}, {}, {}
+        for idx,seq in enumerate(self._sequence_list):
+            sup = seq.super_instance
+            last = last_in.get(id(sup))
+            if not last is None and not (sup is None and last < idx-1):
+                prev[idx], fol[last] = last, idx
+            last_in[id(sup)] = idx
         for idx,seq in enumerate(self._sequence_list):
             self.__set_intier(seq)
-            if idx == 0 or not supers[idx-1] is supers[idx]:
+            if idx in prev:
+                seq.set_prev(self._sequence_list[prev[idx]])
+            else:
                 seq.set_initial()
+            if idx in fol:
+                seq.set_fol(self._sequence_list[fol[idx]])
             else:
-                seq.set_prev(self._sequence_list[idx-1])
-            if idx == len(self._sequence_list)-1 or not supers[idx+1] is supers[idx]:
                 seq.set_final()
-            else:
-                seq.set_fol(self._sequence_list[idx+1])
         if issubclass(self.superset_class, Top):
             self.contains = self._sequence_list
 
-- 
2.43.0


From 78e60979a2e4cb2188ef21d1877a27b5dac47ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:35 +0000
Subject: [PATCH 46/53] fix: concatenating groups relates the tiers once all
 intervals are in them

---
 src/aligned_textgrid/mixins/tiermixins.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 464292d..9eafbf5 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -305,7 +305,10 @@ class TierGroupMixins:
                 if interval in t1:
                     continue
                 interval._shift(increment)
-                t1.append(interval)
+                t1.append(interval, re_relate = False)
+        # relating already while the lower tiers are incomplete
+        # would put empty intervals where their intervals go
+        self.re_relate()
 
 
 
-- 
2.43.0


From d9b7c89ace0d6253ea016f6159abd98475e98986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:30 +0000
Subject: [PATCH 47/53] fix: concatenating a list of another class is refused
 before its times are shifted

---
 src/aligned_textgrid/sequence_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index bacc2ed..fd127bd 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -222,6 +222,8 @@ class SequenceList(Sequence):
                 SequenceIntervals or SequencePoints
         """
         intervals = SequenceList(*intervals)
+        if len(intervals) > 0:
+            self._entry_class_checker(intervals[0])
 
         increment = 0
         if len(self.ends) > 0:
-- 
2.43.0


From 82ca16d969874ce055da6da097de0a5b89e665e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:34 +0000
Subject: [PATCH 48/53] fix: adding to an empty SequenceList leaves it as it
 was

---
 src/aligned_textgrid/sequence_list.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index fd127bd..5bb1de0 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -88,11 +88,10 @@ class SequenceList(Sequence):
         if self.entry_class and not (issubclass(incoming_class, self.entry_class) or (issubclass(self.entry_class, incoming_class))):
             raise ValueError("All values in added list must have the same class as original list.")
         
-        if not self.entry_class:
-            self.entry_class = next(iter(unique_other_classes))
+        entry_class = self.entry_class or incoming_class
 
         new_list = self._values + [x for x in other]
-        new_intervals = [self.entry_class._cast(x) if not x.entry_class is self.entry_class else x for x in new_list]
+        new_intervals = [entry_class._cast(x) if not x.entry_class is entry_class else x for x in new_list]
         output =  SequenceList(*new_intervals)
         output._sort()
         output._check_no_overlaps()
-- 
2.43.0


From 4b581b2d44c116831fdbf5a6da57479b8ed77787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:50 +0000
Subject: [PATCH 49/53] fix: get_class_hierarchy() no longer returns the
 classes of earlier calls

---
 src/aligned_textgrid/custom_classes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index 48af75d..f45fc50 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -207,7 +207,7 @@ def clone_class(
 
 def get_class_hierarchy(
         entry_class:SequenceInterval, 
-        out_list = []
+        out_list = None
     )->list[SequenceInterval]:
     """Given a SequenceInterval, this will return
     the entire class hierarchy
@@ -217,12 +217,15 @@ def get_class_hierarchy(
             Entry class to search the hierarchy for
         out_list (list, optional): 
             Used internally for recursive search.
-            Defaults to [].
+            Defaults to None.
 
     Returns:
         (list[SequenceInterval]):
             The class hierarchy
     """
+    if out_list is None:
+        out_list = []
+
     if (not issubclass(entry_class.superset_class, Top)) \
        and entry_class.superset_class not in out_list:
         out_list = get_class_hierarchy(entry_class.superset_class, out_list)
-- 
2.43.0


From 42d2c28c988f42f1ddb7d8ef8c1071d18aa1dda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:56 +0000
Subject: [PATCH 50/53] fix: custom_classes() of an empty list is an empty list

---
 src/aligned_textgrid/custom_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index f45fc50..dc2646a 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -143,6 +143,9 @@ def custom_classes(
             else:
                 entry.set_subset_class(interval_classes[idx+1])
 
+        if len(return_order) < 1:
+            return []
+        
         if type(return_order[0]) is int:
             return_list = [class_out_list[idx] for idx in return_order]
         elif type(return_order[0]) is str:
-- 
2.43.0


From 459ea41da80f7da439c18735f188b7b41cff161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:48 +0000
Subject: [PATCH 51/53] fix: Levels can be related to an empty TurningPoints
 tier

---
 src/aligned_textgrid/polar/polar_classes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aligned_textgrid/polar/polar_classes.py b/src/aligned_textgrid/polar/polar_classes.py
index dcbdad3..a236677 100644
--- a/src/aligned_textgrid/polar/polar_classes.py
+++ b/src/aligned_textgrid/polar/polar_classes.py
@@ -67,6 +67,9 @@ class TurningPoints(SequencePoint):
         self.level = None
 
     def set_level(self, tier):
+        if len(tier) < 1:
+            return
+        
         instance = tier.get_nearest_point(self.time)
         #instance = tier[idx]
         
@@ -165,6 +168,9 @@ class Levels(SequencePoint):
             self.range_interval = self.get_interval_at_point(self.ranges_tier)
     
     def set_turning_point(self, tier):
+        if len(tier) < 1:
+            return
+        
         instance = tier.get_nearest_point(self.time)
         #instance = tier[idx]
 
-- 
2.43.0


From eb49ee4938d60c4345ea1bf4da9dc01944e74077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:57 +0000
Subject: [PATCH 52/53] fix: PointsGroup has tier_names, so that TextGrids with
 points have them

---
 src/aligned_textgrid/points/tiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index c474f81..9c76d17 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -330,6 +330,10 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     def entry_classes(self):
         return [x.entry_class for x in self.tier_list]
     
+    @property
+    def tier_names(self)->list[str]:
+        return [x.name for x in self.tier_list]
+    
     @property
     def xmin(self):
         times = [t.xmin for t in self.tier_list if len(t) > 0]
-- 
2.43.0


From dc2bf4b24abe8ca270a63e8c5a951d3bb3c5100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:57 +0000
Subject: [PATCH 53/53] fix: groups made without tiers do not share their tier

---
 src/aligned_textgrid/points/tiers.py    | 4 +++-
 src/aligned_textgrid/sequences/tiers.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 9c76d17..6ca1d92 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -260,8 +260,10 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     """    
     def __init__(
             self,
-            tiers: list[SequencePointTier]|Self = [SequencePointTier()]
+            tiers: list[SequencePointTier]|Self = None
     ):
+        if tiers is None:
+            tiers = [SequencePointTier()]
         name = None
         if hasattr(tiers, "name"):
             name = tiers.name
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index c4b260f..04a4ce8 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -380,9 +380,11 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
     """
     def __init__(
         self,
-        tiers: list[SequenceTier]|Self = [SequenceTier()],
+        tiers: list[SequenceTier]|Self = None,
         delay_cleanup = False
     ):
+        if tiers is None:
+            tiers = [SequenceTier()]
         name = None        
         if hasattr(tiers, "name"):
             name = tiers.name
-- 
2.43.0

