From a560bd43960cdc488479b10bfaa4d476e6e0de91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 01/78] fix: create events under Python 3.10 and later
 (collections.Hashable is gone)

---
 gsapi/gspattern.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 92962a9..2974aeb 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -8,11 +8,15 @@ and Pattern, which are the main holders of musical symbolic information.
 
 from __future__ import absolute_import, division, print_function
 
-import collections
 import copy
 import logging
 import math
 
+try:
+    from collections.abc import Hashable
+except ImportError:  # Python 2
+    from collections import Hashable
+
 from . import gsdefs, gsutil
 
 # logger for pattern related operations
@@ -58,7 +62,7 @@ class Event(object):
         if isinstance(tag, list):
             gspatternLog.error("'tag' can't be a list, converting to tuple.")
             self.tag = tuple(tag)
-        elif not isinstance(tag, collections.Hashable):
+        elif not isinstance(tag, Hashable):
             gspatternLog.error("'tag' has to be hashable, trying conversion to tuple.")
             self.tag = (tag,)
         else:
-- 
2.43.0


From d134c88b1436068a6571a07eec34da4c21b6c0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 02/78] fix: allTagsAreEqualWith and getIdenticalEvents return
 their result

---
 gsapi/gspattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 2974aeb..c221985 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -148,7 +148,7 @@ class Event(object):
             bool: True if tags are equal.
 
         """
-        self.isTag(myEvent.tag)
+        return self.isTag(myEvent.tag)
 
     def endTime(self):
         """Get the time at which the Event ends.
@@ -663,6 +663,7 @@ class Pattern(object):
                     e) if allTagsMustBeEquals else event.hasCommonTagWith(e)
             if equals:
                 res += [e]
+        return res
 
     def getFilledWithSilences(self, maxSilenceTime=0, perTag=False, silenceTag='silence'):
         pattern = self.copy()
-- 
2.43.0


From b0936954f084bfc1965ffd3c2dac7979e3f5ea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 03/78] fix: compare tags as a whole, not by the letters of
 their text

---
 gsapi/gspattern.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index c221985..c57c2ae 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -24,6 +24,15 @@ gspatternLog = logging.getLogger("gsapi.gspattern")
 gspatternLog.setLevel(level=logging.WARNING)
 
 
+def tagContains(eventTag, tag):
+    """
+    True if `tag` is the tag of an event, or one of its tags when it has many.
+    A part of the text of a tag is not a tag.
+
+    """
+    return eventTag == tag or (isinstance(eventTag, (tuple, frozenset)) and tag in eventTag)
+
+
 class Event(object):
     """
     Represents an event in a Pattern. Its attributes are startTime, duration,
@@ -99,7 +108,8 @@ class Event(object):
         """
         # if type(self.tag)!=type(event.tag):
         #     return False
-        return self.hasOneOfTags(event.tag)
+        tags = event.tag if isinstance(event.tag, (tuple, frozenset)) else (event.tag,)
+        return self.hasOneOfTags(tags)
 
     def hasOneOfTags(self, tags):
         """
@@ -115,7 +125,7 @@ class Event(object):
             bool: True if at least one tag is equal.
         """
         for t in tags:
-            if (t == self.tag) or (t in self.tag):
+            if tagContains(self.tag, t):
                 return True
         return False
 
-- 
2.43.0


From 81bc01a9edb13a7048310486587805169434a4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 04/78] fix: select by tag on tags of any hashable type,
 without matching parts of their text

---
 gsapi/gspattern.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index c57c2ae..662a306 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -785,8 +785,7 @@ class Pattern(object):
             if exactSearch:
                 gspatternLog.error(
                     "cannot search exactly with a list of elements")
-            boolFunction = lambda inTags: len(
-                inTags) > 0 and inTags in tagToLookFor
+            boolFunction = lambda inTags: inTags in tagToLookFor
         elif callable(tagToLookFor):
             boolFunction = tagToLookFor
         else:
@@ -794,8 +793,7 @@ class Pattern(object):
             if exactSearch:
                 boolFunction = lambda inTags: inTags == tagToLookFor
             else:
-                boolFunction = lambda inTags: (inTags == tagToLookFor) or (
-                len(inTags) > 0 and tagToLookFor in inTags)
+                boolFunction = lambda inTags: tagContains(inTags, tagToLookFor)
 
         res = self.copyWithoutEvents()
         for e in self.events:
@@ -847,8 +845,7 @@ class Pattern(object):
             if exactSearch:
                 gspatternLog.error(
                     "cannot search exactly with a list of elements")
-            boolFunction = lambda inTags: len(
-                inTags) > 0 and inTags in tagToLookFor
+            boolFunction = lambda inTags: inTags in tagToLookFor
         elif callable(tagToLookFor):
             boolFunction = tagToLookFor
         else:
@@ -856,8 +853,7 @@ class Pattern(object):
             if exactSearch:
                 boolFunction = lambda inTags: inTags == tagToLookFor
             else:
-                boolFunction = lambda inTags: (inTags == tagToLookFor) or (
-                len(inTags) > 0 and tagToLookFor in inTags)
+                boolFunction = lambda inTags: tagContains(inTags, tagToLookFor)
 
         res = self.copyWithoutEvents()
         for e in self.events:
-- 
2.43.0


From 71d142654679865fb7e348e924039406d92e3f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 05/78] fix: alignOnGrid cuts the events whose tag is
 repeatable in steps

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 662a306..7d4823a 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -358,7 +358,7 @@ class Pattern(object):
         """
         newEvents = []
         for e in self.events:
-            if e.isTag(repeatibleTags):
+            if e.tag in repeatibleTags:
                 evToAdd = e.cutInSteps(stepSize)
             else:
                 evToAdd = [e]
-- 
2.43.0


From c102473c59b1238ad0ed02b93b6cb2a8423d0089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 06/78] fix: applyLegato stretches the events of the pattern,
 per pitch or per tag as asked

---
 gsapi/gspattern.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 7d4823a..bfb13fb 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -399,11 +399,12 @@ class Pattern(object):
                 myPattern[-1].duration += diff
         if usePitchValues:
             for p in self.getAllPitches():
-                voice = self.getPatternWithPitch(p)
+                voice = self.getPatternWithPitch(p, makeCopy=False)
+                _perVoiceLegato(voice)
+        else:
+            for t in self.getAllTags():
+                voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=True, makeCopy=False)
                 _perVoiceLegato(voice)
-        for t in self.getAllTags():
-            voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=False, makeCopy=False)
-            _perVoiceLegato(voice)
 
     def copy(self):
         """
-- 
2.43.0


From 93a243af935be6083ec26c58e9fe36e35935f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 07/78] fix: copyWithoutEvents keeps the key, start time and
 resolution

---
 gsapi/gspattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index bfb13fb..eac76cf 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -429,6 +429,9 @@ class Pattern(object):
         p.timeSignature = self.timeSignature
         p.originFilePath = self.originFilePath
         p.name = self.name
+        p.key = self.key
+        p.startTime = self.startTime
+        p.resolution = self.resolution
         return p
 
     def fillWithPreviousEvent(self):
-- 
2.43.0


From 5c135656acbfe0ee1d8143def39d18c368ec322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 08/78] fix: fillWithPreviousEvent does not depend on the order
 of the events

---
 gsapi/gspattern.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index eac76cf..b4b20f9 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -440,10 +440,7 @@ class Pattern(object):
         the duration of the previous event.
         """
 
-        onsets = []
-        for e in self.events:
-            if e.startTime not in onsets:
-                onsets.append(e.startTime)
+        onsets = sorted(set(e.startTime for e in self.events))
         onsets.append(self.duration)
 
         for e in self.events:
-- 
2.43.0


From 39ad1236d81cb1907414c223ffba004aa1a80b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 09/78] fix: fillWithSilences per tag keeps each event once

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index b4b20f9..bb460b7 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -503,7 +503,7 @@ class Pattern(object):
             for t in self.getAllTags():
                 allEvents += _fillListWithSilence(
                     self.getPatternWithTags(tagToLookFor=t,
-                                            exactSearch=False,
+                                            exactSearch=True,
                                             makeCopy=False),
                     silenceTag, silencePitch)
             self.events = allEvents
-- 
2.43.0


From 0b8e06e9411c8be599830d6556351e0f6c26e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 10/78] fix: lastNoteOff is the end of the event that ends
 last, not that starts last

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index bb460b7..fd992f3 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -694,7 +694,7 @@ class Pattern(object):
         """
         if len(self.events):
             self.reorderEvents()
-            return self.events[-1].duration + self.events[-1].startTime
+            return max(e.endTime() for e in self.events)
         else:
             return None
 
-- 
2.43.0


From 773538bf65791a9c12f6c6ac25268a100b0d1526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 11/78] fix: removeByTags removes every event with one of the
 tags

---
 gsapi/gspattern.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index fd992f3..5a74e51 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -922,9 +922,8 @@ class Pattern(object):
         Args:
             tags: list of tag(s)
         """
-        for e in self.events:
-            if e.hasOneOfTags(tuple(tags)):
-                self.removeEvent(e)
+        tags = tuple(tags)
+        self.events = [e for e in self.events if not e.hasOneOfTags(tags)]
 
     def removeEvent(self, event):
         """remove given event
-- 
2.43.0


From 5a32306d25152b129ba3570515029490de66ac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 12/78] fix: removeEvent removes the equal events and no others

---
 gsapi/gspattern.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 5a74e51..ffd522f 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -930,15 +930,7 @@ class Pattern(object):
         Args:
             event: the Event to be added
         """
-        idxToRemove = []
-        idx = 0
-        for e in self.events:
-            if event == e:
-                idxToRemove += [idx]
-            idx += 1
-
-        for i in idxToRemove:
-            del self.events[i]
+        self.events = [e for e in self.events if not event == e]
 
     def removeOverlapped(self, usePitchValues=False):
         """
-- 
2.43.0


From fdb15001b8d7366f358c67a66db6fcd0080bd235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 13/78] fix: split patterns that have no name

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index ffd522f..757cb89 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1078,7 +1078,7 @@ class Pattern(object):
                 patterns[numPattern].startTime = p * desiredLength
                 patterns[numPattern].duration = desiredLength
                 patterns[
-                    numPattern].name = patternToSlice.name + "_" + numPattern
+                    numPattern].name = (patternToSlice.name or "") + "_" + numPattern
             newEv = e if not makeCopy else e.copy()
 
             if newEv.startTime + newEv.duration > (p + 1) * desiredLength:
-- 
2.43.0


From e3dfb5f1655f175057c12f43ae2f112c44728556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 14/78] fix: transpose leaves a hashable tag, as Event asks for

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 757cb89..a10efd8 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1178,7 +1178,7 @@ class Pattern(object):
         """
         for e in self.events:
             e.pitch += interval
-            e.tag = [gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)]
+            e.tag = gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)
 
 
 def patternToList(myPattern):
-- 
2.43.0


From 5be1506b3520d298024a257bd265a38fefc375ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 15/78] fix: removeOverlapped leaves one event of those that
 start together

---
 gsapi/gspattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index a10efd8..fc17d83 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -964,6 +964,7 @@ class Pattern(object):
                             overLappedEv += [ee]
                         else:
                             gspatternLog.info("strict overlapping of start times %s with %s" % (e, ee))
+                            break  # the event is left out, however the next ones overlap
 
                 if ee.startTime > (e.startTime + e.duration):
                     break
-- 
2.43.0


From 4b3b71b2dc728623b75391d0cbd17158dd79ab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 16/78] fix: patterns are saved and loaded with indexed tags

---
 gsapi/gspattern.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index fc17d83..bd1808f 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -545,8 +545,7 @@ class Pattern(object):
                                       duration=e['duration'],
                                       pitch=e['pitch'],
                                       velocity=e['velocity'],
-                                      tag=tuple(
-                                              [tags[f] for f in e['tagsIdx']])
+                                      tag=tags[e['tagsIdx']]
                                       )]
         else:
             for e in json['eventList']:
@@ -1005,19 +1004,15 @@ class Pattern(object):
         res['viewpoints'] = {k: v.toJSONDict(useTagIndexing) for k, v in
                              self.viewpoints.items()}
         if useTagIndexing:
-            allTags = self.getAllTags()
+            allTags = list(self.getAllTags())
             res['eventTags'] = allTags
 
-            def findIdxforTags(tags, allTags):
-                return [allTags.index(x) for x in tags]
-
             for e in self.events:
                 res['eventList'] += [{'on':       e.startTime,
                                       'duration': e.duration,
                                       'pitch':    e.pitch,
                                       'velocity': e.velocity,
-                                      'tagIdx':   findIdxforTags(e.tag,
-                                                                 allTags)
+                                      'tagsIdx':  allTags.index(e.tag)
                                       }]
         else:
             for e in self.events:
-- 
2.43.0


From 67f28e3bd1482e13953b0b283b90221f2ec99e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 17/78] fix: the JSON format keeps the key and the start time
 of patterns

---
 gsapi/gspattern.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index bd1808f..5edd267 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -519,6 +519,8 @@ class Pattern(object):
 
         """
         self.name = json['name']
+        self.key = json.get('key')
+        self.startTime = json.get('startTime', 0)
         self.duration = json['timeInfo']['duration']
         self.bpm = json['timeInfo']['bpm']
         self.timeSignature = tuple(json['timeInfo']['timeSignature'])
@@ -997,6 +999,8 @@ class Pattern(object):
         res = {}
         self.durationToLastEvent()
         res['name'] = self.name
+        res['key'] = self.key
+        res['startTime'] = self.startTime
         if self.originPattern: res['originPattern'] = self.originPattern.name
         res['timeInfo'] = {'duration':      self.duration, 'bpm': self.bpm,
                            'timeSignature': self.timeSignature}
-- 
2.43.0


From ea40fedd5891eef18110f8030b652b83ed0e3b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 18/78] fix: Markov generation finds the pattern module

---
 gsapi/gsstyles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index e9b32d2..322bd62 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -4,6 +4,7 @@ import copy
 import logging
 import random
 
+from . import gspattern
 from .gspattern import Pattern
 
 markovLog = logging.getLogger('gsapi.styles.markov_style')
-- 
2.43.0


From fbfef24a97cd3534f9824d61a474ba39aa3ea459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 19/78] fix: Markov generation picks each event with its own
 probability

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 322bd62..7dbcc06 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -423,7 +423,7 @@ class PatternMarkov(object):
                 r = random.random()
                 for i in range(1, len(bins)):
                     if bins[i - 1] <= r and bins[i] > r:
-                        chosenIdx = i - 1
+                        chosenIdx = i
                         break
 
             return list(d.keys())[chosenIdx]
-- 
2.43.0


From 53d864b743861c0931e50f1d5381b8664f2a3e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 20/78] fix: Markov generation begins as a learnt pattern
 instead of giving up after 30 guesses

---
 gsapi/gsstyles.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 7dbcc06..7478e1a 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -389,15 +389,6 @@ class PatternMarkov(object):
         random.seed(seed)
         potentialStartEvent = []
 
-        def _getAvailableAtStep(step):
-            res = []
-            if step < 0:
-                step += len(self.transitionTable)
-            for n in self.transitionTable[step]:
-                for t in self.transitionTable[step][n]:
-                    res += [t]
-            return res
-
         def _isValidState(step, previousTags):
             d = self.transitionTable[step]
             # print(d)
@@ -430,14 +421,9 @@ class PatternMarkov(object):
 
         cIdx = self.order
         startHypothesis = tuple()
-        maxNumtries = 30
-        while not _isValidState(cIdx, startHypothesis):
-            startHypothesis = tuple()
-            for n in range(self.order):
-                startHypothesis += (random.choice(_getAvailableAtStep(n)),)
-            maxNumtries -= 1
-            if maxNumtries == 0:
-                raise Exception("Can't find start hypothesis in markov")
+        if not _isValidState(cIdx, startHypothesis):
+            # only beginnings that were learnt can be continued
+            startHypothesis = random.choice(list(self.transitionTable[cIdx].keys()))
 
         events = list(startHypothesis)
         i = self.order
-- 
2.43.0


From 7ae720c029648ba908aea1dc1ece6fc28ee85a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 21/78] fix: Markov states do not depend on the order of
 simultaneous events

---
 gsapi/gsstyles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 7478e1a..a144cf9 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -485,8 +485,8 @@ class PatternMarkov(object):
             for e in evAtStep:
                 curL += [e.tag]
 
-            # set allow for having consistent ordering, and remove step-wise overlapping events
-            res += (tuple(set(curL)),)
+            # set removes step-wise overlapping events, sorting gives a consistent ordering
+            res += (tuple(sorted(set(curL), key=repr)),)
         return res
 
     def formatPattern(self, p):
-- 
2.43.0


From e0f2929f6d2d4496802eea4e7ff962f33f30083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 22/78] fix: DatabaseStyle.isBuilt returns its answer

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index a144cf9..651f821 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -170,7 +170,7 @@ class DatabaseStyle(BaseStyle):
             self.patternList += [p]
 
     def isBuilt(self):
-        self.patternList != []
+        return self.patternList != []
 
 
 class MarkovStyle(BaseStyle):
-- 
2.43.0


From 8b502a7896e7d05320985a6dbe3e1cd5de5302f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 23/78] fix: styles are saved to and loaded from pickle files

---
 gsapi/gsstyles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 651f821..b463df7 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -106,7 +106,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        pickle.dump(self, filePath)
+        with open(filePath, 'wb') as f:
+            pickle.dump(self, f)
 
     def loadFromPickle(self, filePath):
         import sys
@@ -114,7 +115,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        self = pickle.load(filePath)
+        with open(filePath, 'rb') as f:
+            self.__dict__.update(pickle.load(f).__dict__)
 
 
 class DatabaseStyle(BaseStyle):
-- 
2.43.0


From 8ed07a7e8109adf7f1c4eb92b43f6548f68ee650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 24/78] fix: Markov styles are saved to and loaded from JSON
 files

---
 gsapi/gsstyles.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index b463df7..29be1fb 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -512,7 +512,9 @@ class PatternMarkov(object):
     def getInternalState(self):
         """utility function to save current state
         """
-        res = {"transitionTable": self.transitionTable, "order": self.order,
+        # json has no tuples as keys
+        table = [[[past, list(d.items())] for past, d in t.items()] for t in self.transitionTable]
+        res = {"transitionTable": table, "order": self.order,
                "numSteps":        self.numSteps,
                "loopDuration":    self.loopDuration}
         return res
@@ -521,7 +523,11 @@ class PatternMarkov(object):
         """
         Utility function to load the current state.
         """
-        self.transitionTable = state["transitionTable"]
+        def _toTuple(tags):
+            return tuple(_toTuple(t) for t in tags) if isinstance(tags, (list, tuple)) else tags
+
+        self.transitionTable = [{_toTuple(past): {_toTuple(event): p for event, p in d} for past, d in t}
+                                for t in state["transitionTable"]]
         self.order = state["order"]
         self.numSteps = state["numSteps"]
         self.loopDuration = state["loopDuration"]
-- 
2.43.0


From f9c62c654fc49a0c742b0850963a18b2dfd81a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 25/78] fix: print Markov tables without changing a dict while
 reading it

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 29be1fb..05ed866 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -346,7 +346,7 @@ class PatternMarkov(object):
 
         def _tupleToString(d):
             if isinstance(d, dict):
-                for k, v in d.items():
+                for k, v in list(d.items()):
                     if isinstance(k, tuple):
                         d[str(_tupleToString(k))] = d.pop(k)
                     _tupleToString(v)
-- 
2.43.0


From 19044f132f1602a271f6653ba491dae14feb8e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 26/78] fix: the chord descriptor finds the best chord when all
 scores are negative

---
 gsapi/gsdescriptors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsdescriptors.py b/gsapi/gsdescriptors.py
index 02d28fc..c25fbf4 100644
--- a/gsapi/gsdescriptors.py
+++ b/gsapi/gsdescriptors.py
@@ -18,7 +18,7 @@ def intervalListToProfile(intervalList, length=12):
 
 
 def findBestScoreForProfiles(chromas, pitchProfileDict, penalityWeight, allowDuplicates=False):
-    maxScore = 0
+    maxScore = float('-inf')
     if allowDuplicates:
         bestProfile = []
         bestRoot = []
@@ -76,7 +76,7 @@ def convolveWithPitchProfile(chromas, pitchProfile, penalityWeight):
 
 
 def findMaxAndIdx(convolution):
-    M = 0
+    M = float('-inf')
     Mi = -1
     i = 0
     for chroma in convolution:
-- 
2.43.0


From cd0baac9372dcfbfdffe590859d8b26be352d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 27/78] fix: Chordify gathers the tags of the notes of each
 chord

---
 gsapi/gstransformers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 484e9df..bae8e39 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -300,8 +300,7 @@ class Chordify(BaseTransformer):
                 new_chord = EventChord(startTime=e.startTime, duration=e.duration, components=[], tag=())
                 for ee in self.inputPattern.activeEventsAtTime(e.startTime):
                     new_chord.components.append([ee.pitch, ee.velocity])
-                    for tag in ee.tag:
-                        new_chord.tag.append(tag)
+                    new_chord.tag += ee.tag if isinstance(ee.tag, tuple) else (ee.tag,)
                 self.outputPattern.addEvent(new_chord)
             p = e.startTime
         return self.outputPattern
-- 
2.43.0


From e093a7c5088989a185ccbac908a0661942733b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 28/78] fix: AgnosticDensity keeps count of the events it adds
 and removes

---
 gsapi/gstransformers.py | 99 +++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 63 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index bae8e39..71ae26f 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import, division, print_function
 
+import math
 import random
 from .gsdescriptors import Density
 from .gspattern import Event
@@ -83,6 +84,7 @@ class AgnosticDensity(BaseTransformer):
         self.densityDescriptor = Density()
         self.currentDistribution = {}
         self.currentState = {}
+        self.originNumbers = {}
         self.originDistribution = {}
 
     def configure(self, paramDict):
@@ -103,102 +105,73 @@ class AgnosticDensity(BaseTransformer):
     def updateNormalizedDensities(self, normalizedDict):
         for key, value in normalizedDict.items():
             if key in self.normalizedDensities:
-                originDensity = self.normalizedDensities[key]
-                # if we cross density one, reset to one then do the subsequent calculations
-                if (value < 1 < originDensity) or (value > 1 > originDensity):
-                    # print "reset densities"
-                    self.resetDensities()
-
-                diffNormalized = value - self.normalizedDensities[key]
-                if diffNormalized == 0:
-                    continue
-
-                # here we are sure to not need to crossdensity one (and have to do both increment styles)
-                if originDensity >= 1 and value >= 1:
-                    step = 1.0 / (self.numSteps - self.originDensities[key])
-                    number = originDensity
-                    value = max(1, min(value, 2)) - step
-                    if diffNormalized > step:
-
-                        while number < value:
-                            self.addEventForTag(key, number)
-                            number += step
-                    if diffNormalized < -step:
-                        while number > value:
-                            self.removeEventForTag(key, number)
-                            number -= step
-                    self.normalizedDensities[key] = 1.0 + int((value - 1.0) / step) * 1.0 * step
-
-                if originDensity <= 1 and value < 1:
-                    step = 1.0 / (self.originDensities[key])
-                    number = originDensity
-                    value = max(0, min(value, 1)) + step
-                    if diffNormalized > step:
-                        while number < value:
-                            self.addEventForTag(key, number)
-                            number += step
-                    if diffNormalized < -step:
-                        while number > value:
-                            self.removeEventForTag(key, number)
-                            number -= step
-                    self.normalizedDensities[key] = int(value / step) * 1.0 * step
+                value = max(0, min(value, 2))
+                self.normalizedDensities[key] = value
+                # 0 is no event, 1 the origin pattern and 2 an event at each step
+                originNumber = self.originNumbers[key]
+                if value <= 1:
+                    number = int(math.ceil(value * originNumber))
+                else:
+                    number = originNumber + int((value - 1.0) * (self.numSteps - originNumber))
+                while len(self.currentState[key]['notes']) < number:
+                    self.addEventForTag(key)
+                while len(self.currentState[key]['notes']) > number:
+                    self.removeEventForTag(key)
         self.currentPattern.reorderEvents()
 
-    def addEventForTag(self, tag, targetDensity):
+    def addEventForTag(self, tag):
+        state = self.currentState[tag]
 
-        availableIdx = self.currentState[tag]['silences']
         # we need to go toward origin pattern if adding while having lower density
-        if targetDensity < 1:
-            availableIdx = self.currentState[tag]['removedNotes']
+        isRemoved = len(state['removedNotes']) > 0
+        availableIdx = state['removedNotes'] if isRemoved else state['silences']
 
         idx = 0
         if self.mode == 'hysteresis':
             idx = random.randint(0, len(availableIdx) - 1)
 
         idxToAdd = availableIdx[idx]
+        del availableIdx[idx]
+        if not isRemoved:
+            state['addedNotes'] += [idxToAdd]
+        state['notes'] += [idxToAdd]
 
-        orIdx = self.currentState[tag]['silences'].index(idxToAdd)
-        del self.currentState[tag]['silences'][orIdx]
-        if targetDensity < 1:
-            del self.currentState[tag]['removedNotes'][idx]
-
-        self.currentState[tag]['addedNotes'] += [idxToAdd]
-        tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
-        newEv = tPattern.events[0].copy()
+        voice = self.originPattern.getPatternWithTags(tag, makeCopy=False)
+        newEv = (voice.getStartingEventsAtTime(idxToAdd) or voice.events)[0].copy()
         newEv.startTime = idxToAdd
         newEv.duration = 1
         self.currentPattern.events += [newEv]
 
-    def removeEventForTag(self, tag, targetDensity):
-
-        availableIdx = self.currentState[tag]['notes']
+    def removeEventForTag(self, tag):
+        state = self.currentState[tag]
 
         # we need to go toward origin pattern if removing while having higher density
-        if targetDensity > 1:
-            availableIdx = self.currentState[tag]['addedNotes']
+        isAdded = len(state['addedNotes']) > 0
+        availableIdx = state['addedNotes'] if isAdded else state['notes']
 
         idx = 0
         if self.mode == 'hysteresis':
             idx = random.randint(0, len(availableIdx) - 1)
 
         idxToRemove = availableIdx[idx]
+        state['notes'].remove(idxToRemove)
+        if isAdded:
+            state['addedNotes'].remove(idxToRemove)
+            state['silences'] += [idxToRemove]
+        else:
+            state['removedNotes'] += [idxToRemove]
 
-        orIdx = self.currentState[tag]['notes'].index(idxToRemove)
-        del self.currentState[tag]['notes'][orIdx]
-        if targetDensity > 1:
-            del self.currentState[tag]['addedNotes'][idx]
-
-        self.currentState[tag]['removedNotes'] += [idxToRemove]
         tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
-
         eventToRemove = tPattern.getStartingEventsAtTime(idxToRemove)[0]
         self.currentPattern.removeEvent(eventToRemove)
 
     def createCurrentState(self):
         self.currentState = {}
+        self.originNumbers = {}
         for tag in self.originPattern.getAllTags():
             dist = self.__initStateFromVoice(self.originPattern.getPatternWithTags(tag))
             self.currentState[tag] = dist
+            self.originNumbers[tag] = len(dist['notes'])
 
     def __shuffleList(self, l):
         for iteration in range(len(l)):
-- 
2.43.0


From 0d06821193d781fd818badc2ec63c713dc345089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 29/78] fix: AgnosticDensity keeps its state while it
 transforms the same pattern

---
 gsapi/gstransformers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 71ae26f..350b904 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -76,6 +76,7 @@ class AgnosticDensity(BaseTransformer):
         self.normalizedDensities = {}
         self.targetDensities = {}
         self.mode = mode
+        self.inputPattern = None
         self.originPattern = None
         self.currentPattern = None
         self.originDuration = 0
@@ -92,7 +93,7 @@ class AgnosticDensity(BaseTransformer):
             self.buildDensityMap(paramDict['inputPattern'])  # TODO: Faltaba el self.
 
     def transformPattern(self, pattern, paramDict):
-        if pattern is not None and pattern != self.originPattern:
+        if pattern is not None and pattern != self.inputPattern:
             self.buildDensityMap(pattern)
         if self.originPattern is None:
             return
@@ -209,6 +210,7 @@ class AgnosticDensity(BaseTransformer):
             self.normalizedDensities[t] = 1
 
     def buildDensityMap(self, pattern):
+        self.inputPattern = pattern.copy()
         self.originPattern = pattern.copy()
         self.originDuration = pattern.duration
         self.originPattern.timeStretch(self.numSteps * 1.0 / self.originPattern.duration)
-- 
2.43.0


From c3d9b2de59f391c3561de55e9deced5335955939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 30/78] fix: the eleventh of min(add11) chords is 17 semitones

---
 gsapi/gsdefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index 3c626bd..1a603b6 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -73,7 +73,7 @@ chordTypes = {"0":          [0],
               "min(add9)":  [0, 3, 7, 14],
               "7sus4":      [0, 5, 7, 10],
               "add11":      [0, 4, 7, 17],
-              "min(add11)": [0, 3, 7, 16],
+              "min(add11)": [0, 3, 7, 17],
               "9":          [0, 4, 7, 10, 14],
               "b9":         [0, 4, 7, 10, 13],
               "maj9":       [0, 4, 7, 11, 14],
-- 
2.43.0


From 62e979527d7db7a4596c4b59626a71f2d79eb652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 31/78] fix: compare the accidental by value, not by identity

---
 gsapi/gsutil.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index 25990e3..fa171d0 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -228,9 +228,9 @@ def makeChord(root, chord_structure):
 
 
 def pc2note(pitch_class, alt="#"):
-    if alt is "#":
+    if alt == "#":
         base40 = [2, 3, 8, 9, 14, 19, 20, 25, 26, 31, 32, 37]
-    elif alt is "b":
+    elif alt == "b":
         base40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]
     else:
         raise Exception("alt should be either '#' or 'b'")
@@ -238,9 +238,9 @@ def pc2note(pitch_class, alt="#"):
 
 
 def pc2base40(pitch_class, alt="#"):
-    if alt is "#":
+    if alt == "#":
         base40 = [2, 3, 8, 9, 14, 19, 20, 25, 26, 31, 32, 37]
-    elif alt is "b":
+    elif alt == "b":
         base40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]
     else:
         raise Exception("alt should be either '#' or 'b'")
-- 
2.43.0


From 90b68c4536922aa3c9efa759dd309ff75ed3ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 32/78] fix: close the MIDI files opened by path, so that they
 are written whole

---
 gsapi/midiio.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index db00dad..49f0ada 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -18,15 +18,17 @@ DEFAULT_MIDI_HEADER_SIZE = 14
 if sys.version_info < (3,):
 
     def write_midifile(midifile, pattern):
-        if type(midifile) in (str, unicode):
-            midifile = open(midifile, 'wb')
         writer = FileWriter()
+        if type(midifile) in (str, unicode):
+            with open(midifile, 'wb') as f:
+                return writer.write(f, pattern)
         return writer.write(midifile, pattern)
 
     def read_midifile(midifile):
-        if type(midifile) in (str, unicode):
-            midifile = open(midifile, 'rb')
         reader = FileReader()
+        if type(midifile) in (str, unicode):
+            with open(midifile, 'rb') as f:
+                return reader.read(f)
         return reader.read(midifile)
 
 else:
@@ -36,15 +38,17 @@ else:
         return codecs.latin_1_encode(x)[0]
 
     def write_midifile(midifile, pattern):
-        if type(midifile) is str:
-            midifile = open(midifile, 'wb')
         writer = FileWriter()
+        if type(midifile) is str:
+            with open(midifile, 'wb') as f:
+                return writer.write(f, pattern)
         return writer.write(midifile, pattern)
 
     def read_midifile(midifile):
-        if type(midifile) is str:
-            midifile = open(midifile, 'rb')
         reader = FileReader()
+        if type(midifile) is str:
+            with open(midifile, 'rb') as f:
+                return reader.read(f)
         return reader.read(midifile)
 
 
-- 
2.43.0


From c1124b91e3fe074be7e92ab2313181fc3d0c8260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 33/78] fix: skip the padding of MIDI headers and raise the
 errors of the reader

---
 gsapi/midiio.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 49f0ada..cfc20a7 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -13,7 +13,7 @@ from struct import pack, unpack
 midiioLog = logging.getLogger("gsapi.midiio")
 midiioLog.setLevel(level=logging.WARNING)
 
-DEFAULT_MIDI_HEADER_SIZE = 14
+DEFAULT_MIDI_HEADER_SIZE = 6
 
 if sys.version_info < (3,):
 
@@ -63,7 +63,7 @@ class FileReader(object):
         # First four bytes are MIDI header
         magic = midifile.read(4)
         if magic != 'MThd':
-            raise(TypeError, "Bad header in MIDI file.")
+            raise TypeError("Bad header in MIDI file.")
         # next four bytes are header size
         # next two bytes specify the format version
         # next two bytes specify the number of tracks
@@ -84,7 +84,7 @@ class FileReader(object):
         # First four bytes are Track header
         magic = midifile.read(4)
         if magic != 'MTrk':
-            raise(TypeError, "Bad track header in MIDI file: " + magic)
+            raise TypeError("Bad track header in MIDI file: " + repr(magic))
         # next four bytes are track size
         trksz = unpack(">L", midifile.read(4))[0]
         return trksz
@@ -109,7 +109,7 @@ class FileReader(object):
         if MetaEvent.is_event(stsmsg):
             cmd = ord(trackdata.next())
             if cmd not in EventRegistry.MetaEvents:
-                midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd), Warning)
+                midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd))
                 cls = UnknownMetaEvent
             else:
                 cls = EventRegistry.MetaEvents[cmd]
@@ -193,7 +193,7 @@ class FileWriter(object):
                 ret += chr(event.statusmsg | event.channel)
             ret += str.join('', map(chr, event.data))
         else:
-            raise(ValueError, "Unknown MIDI Event: " + str(event))
+            raise ValueError("Unknown MIDI Event: " + str(event))
         return ret
 
 
@@ -296,7 +296,7 @@ class EventRegistry(object):
                     "Event %s already registered" % event.name
                 cls.MetaEvents[event.metacommand] = event
         else:
-            raise(ValueError, "Unknown bases class in event type: " + event.name)
+            raise ValueError("Unknown bases class in event type: " + event.name)
 
     register_event = classmethod(register_event)
 
-- 
2.43.0


From d5c0d5a445f0e35ca368c3b9d22b3350fd8c4fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 34/78] fix: write the text of MIDI text events, such as track
 names

---
 gsapi/midiio.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index cfc20a7..bef3f08 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -545,6 +545,14 @@ class MetaEventWithText(MetaEvent):
         super(MetaEventWithText, self).__init__(**kw)
         if 'text' not in kw:
             self.text = ''.join(chr(datum) for datum in self.data)
+        else:
+            text = self.text or ''
+            if not isinstance(text, bytes):
+                try:
+                    text = text.encode('latin-1')
+                except UnicodeEncodeError:
+                    text = text.encode('utf-8')
+            self.data = list(bytearray(text))
 
     def __repr__(self):
         return self.__baserepr__(['text'])
-- 
2.43.0


From 2a77542878f204ca0d3e5e4f4d9a70524658b148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 35/78] fix: channel after touch events have one byte of data

---
 gsapi/midiio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index bef3f08..4b3d8f1 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -498,10 +498,10 @@ class ChannelAfterTouchEvent(Event):
     name = 'Channel After Touch'
 
     def set_value(self, val):
-        self.data[1] = val
+        self.data[0] = val
 
     def get_value(self):
-        return self.data[1]
+        return self.data[0]
 
     value = property(get_value, set_value)
 
-- 
2.43.0


From 0fb08d3068f7ec46675d73ece049a20a39937339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 36/78] fix: copies of MIDI events do not share their data

---
 gsapi/midiio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 4b3d8f1..75da13d 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -355,7 +355,7 @@ class Event(AbstractEvent):
         super(Event, self).__init__(**kw)
 
     def copy(self, **kw):
-        _kw = {'channel': self.channel, 'tick': self.tick, 'data': self.data}
+        _kw = {'channel': self.channel, 'tick': self.tick, 'data': list(self.data)}
         _kw.update(kw)
         return self.__class__(**_kw)
 
-- 
2.43.0


From bba31cd8ee16af7de35c67186aead9766483d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 37/78] fix: tempi do not drift each time they are written

---
 gsapi/midiio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 75da13d..16ae5be 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -649,7 +649,7 @@ class SetTempoEvent(MetaEvent):
     length = 3
 
     def set_bpm(self, bpm):
-        self.mpqn = int(float(6e7) / bpm)
+        self.mpqn = int(round(float(6e7) / bpm))
 
     def get_bpm(self):
         return float(6e7) / self.mpqn
-- 
2.43.0


From 79452699bba27879e5c2696c9d637666578664fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 38/78] fix: read and write MIDI files under Python 3

---
 gsapi/midiio.py | 55 ++++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 16ae5be..faac69b 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -24,6 +24,9 @@ if sys.version_info < (3,):
                 return writer.write(f, pattern)
         return writer.write(midifile, pattern)
 
+    def b(x):
+        return x
+
     def read_midifile(midifile):
         reader = FileReader()
         if type(midifile) in (str, unicode):
@@ -62,7 +65,7 @@ class FileReader(object):
     def parse_file_header(self, midifile):
         # First four bytes are MIDI header
         magic = midifile.read(4)
-        if magic != 'MThd':
+        if magic != b'MThd':
             raise TypeError("Bad header in MIDI file.")
         # next four bytes are header size
         # next two bytes specify the format version
@@ -83,7 +86,7 @@ class FileReader(object):
     def parse_track_header(self, midifile):
         # First four bytes are Track header
         magic = midifile.read(4)
-        if magic != 'MTrk':
+        if magic != b'MTrk':
             raise TypeError("Bad track header in MIDI file: " + repr(magic))
         # next four bytes are track size
         trksz = unpack(">L", midifile.read(4))[0]
@@ -92,7 +95,7 @@ class FileReader(object):
     def parse_track(self, midifile, track):
         self.RunningStatus = None
         trksz = self.parse_track_header(midifile)
-        trackdata = iter(midifile.read(trksz))
+        trackdata = iter(bytearray(midifile.read(trksz)))
         while True:
             try:
                 event = self.parse_midi_event(trackdata)
@@ -104,23 +107,23 @@ class FileReader(object):
         # first datum is varlen representing delta-time
         tick = read_varlen(trackdata)
         # next byte is status message
-        stsmsg = ord(trackdata.next())
+        stsmsg = next(trackdata)
         # is the event a MetaEvent?
         if MetaEvent.is_event(stsmsg):
-            cmd = ord(trackdata.next())
+            cmd = next(trackdata)
             if cmd not in EventRegistry.MetaEvents:
                 midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd))
                 cls = UnknownMetaEvent
             else:
                 cls = EventRegistry.MetaEvents[cmd]
             datalen = read_varlen(trackdata)
-            data = [ord(trackdata.next()) for x in range(datalen)]
+            data = [next(trackdata) for x in range(datalen)]
             return cls(tick=tick, data=data, metacommand=cmd)
         # is this event a Sysex Event?
         elif SysexEvent.is_event(stsmsg):
             data = []
             while True:
-                datum = ord(trackdata.next())
+                datum = next(trackdata)
                 if datum == 0xF7:
                     break
                 data.append(datum)
@@ -135,13 +138,13 @@ class FileReader(object):
                 cls = EventRegistry.Events[key]
                 channel = self.RunningStatus & 0x0F
                 data.append(stsmsg)
-                data += [ord(trackdata.next()) for x in range(cls.length - 1)]
+                data += [next(trackdata) for x in range(cls.length - 1)]
                 return cls(tick=tick, channel=channel, data=data)
             else:
                 self.RunningStatus = stsmsg
                 cls = EventRegistry.Events[key]
                 channel = self.RunningStatus & 0x0F
-                data = [ord(trackdata.next()) for x in range(cls.length)]
+                data = [next(trackdata) for x in range(cls.length)]
                 return cls(tick=tick, channel=channel, data=data)
         # raise(Warning, "Unknown MIDI Event: " + repr(stsmsg))
 
@@ -158,18 +161,17 @@ class FileWriter(object):
                         pattern.frmt,
                         len(pattern),
                         pattern.resolution)
-        midifile.write('MThd%s' % packdata)
+        midifile.write(b'MThd' + packdata)
 
     def write_track(self, midifile, track):
         buf = ''
         self.RunningStatus = None
         for event in track:
             buf += self.encode_midi_event(event)
-        buf = self.encode_track_header(len(buf)) + buf
-        midifile.write(buf)
+        midifile.write(self.encode_track_header(len(buf)) + b(buf))
 
     def encode_track_header(self, trklen):
-        return 'MTrk%s' % pack(">L", trklen)
+        return b'MTrk' + pack(">L", trklen)
 
     def encode_midi_event(self, event):
         ret = ''
@@ -228,7 +230,7 @@ class Pattern(list):
             indices = item.indices(len(self))
             return Pattern(resolution=self.resolution, frmt=self.frmt,
                            tracks=(super(Pattern, self).__getitem__(i) for i in
-                                   xrange(*indices)))
+                                   range(*indices)))
         else:
             return super(Pattern, self).__getitem__(item)
 
@@ -263,7 +265,7 @@ class Track(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Track((super(Track, self).__getitem__(i) for i in
-                          xrange(*indices)))
+                          range(*indices)))
         else:
             return super(Track, self).__getitem__(item)
 
@@ -301,18 +303,23 @@ class EventRegistry(object):
     register_event = classmethod(register_event)
 
 
-class AbstractEvent(object):
+class EventType(type):
+    def __init__(cls, name, bases, dict):
+        if name not in ['EventBase', 'AbstractEvent', 'Event', 'MetaEvent', 'NoteEvent',
+                        'MetaEventWithText']:
+            EventRegistry.register_event(cls, bases)
+
+
+# Python 2 and 3 do not have the same syntax for metaclasses
+EventBase = EventType('EventBase', (object,), {})
+
+
+class AbstractEvent(EventBase):
     # __slots__ = ['tick', 'data']
     name = "Generic MIDI Event"
     length = 0
     statusmsg = 0x0
 
-    class __metaclass__(type):
-        def __init__(cls, name, bases, dict):
-            if name not in ['AbstractEvent', 'Event', 'MetaEvent', 'NoteEvent',
-                            'MetaEventWithText']:
-                EventRegistry.register_event(cls, bases)
-
     def __init__(self, **kw):
         if type(self.length) == int:
             defdata = [0] * self.length
@@ -746,7 +753,9 @@ def read_varlen(data):
     NEXTBYTE = 1
     value = 0
     while NEXTBYTE:
-        char = ord(data.next())
+        char = next(data)
+        if not isinstance(char, int):
+            char = ord(char)
         # is the hi-bit set?
         if not (char & 0x80):
             # no next BYTE
-- 
2.43.0


From 906d7c754cf8abad88bd530e48a5258bd171996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 39/78] fix: values given to copy of MIDI events are set after
 the copied data

---
 gsapi/midiio.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index faac69b..259cae8 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -362,9 +362,10 @@ class Event(AbstractEvent):
         super(Event, self).__init__(**kw)
 
     def copy(self, **kw):
-        _kw = {'channel': self.channel, 'tick': self.tick, 'data': list(self.data)}
-        _kw.update(kw)
-        return self.__class__(**_kw)
+        event = self.__class__(channel=self.channel, tick=self.tick, data=list(self.data))
+        for key in kw:
+            setattr(event, key, kw[key])
+        return event
 
     def __cmp__(self, other):
         if self.tick < other.tick:
-- 
2.43.0


From 0f578a3ab77bfcdba3503c79794b5cacb8b66e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 40/78] fix: export patterns that have a key under Python 3

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index c59698e..14f942e 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -33,7 +33,7 @@ def __keyToMidiFormat(keyString):
     if 'm' in keyString:
         keyString = keyString[:-1]
         mode = 1
-    tonic = gsdefs.midiKey.keys()[gsdefs.midiKey.values().index(keyString)]
+    tonic = list(gsdefs.midiKey.keys())[list(gsdefs.midiKey.values()).index(keyString)]
     return tonic, mode
 
 
-- 
2.43.0


From ffe3da06692e1137a31a3694db40b7287590614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 41/78] fix: minor key signatures name their own tonic (no
 accidental is A minor)

---
 gsapi/gsdefs.py | 17 +++++++++++++++++
 gsapi/gsio.py   |  9 ++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index 1a603b6..2e1fca9 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -173,6 +173,23 @@ midiKey = {-7: 'Cb',
            6: 'F#',
            7: 'C#'}
 
+# minor keys have the same number of flats or sharps as a major key a minor third higher
+midiMinorKey = {-7: 'Ab',
+                -6: 'Eb',
+                -5: 'Bb',
+                -4: 'F',
+                -3: 'C',
+                -2: 'G',
+                -1: 'D',
+                0: 'A',
+                1: 'E',
+                2: 'B',
+                3: 'F#',
+                4: 'C#',
+                5: 'G#',
+                6: 'D#',
+                7: 'A#'}
+
 noteMap= {"c-1":   0,
           "c#-1":  1,
           "d-1":   2,
diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 14f942e..e5b708b 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -30,10 +30,12 @@ gsioLog.setLevel(level=logging.WARNING)
 
 def __keyToMidiFormat(keyString):
     mode = 0
+    keys = gsdefs.midiKey
     if 'm' in keyString:
         keyString = keyString[:-1]
+        keys = gsdefs.midiMinorKey
         mode = 1
-    tonic = list(gsdefs.midiKey.keys())[list(gsdefs.midiKey.values()).index(keyString)]
+    tonic = list(keys.keys())[list(keys.values()).index(keyString)]
     return tonic, mode
 
 
@@ -63,9 +65,10 @@ def __metaEventsFromMidiFile(myPattern, midiFile):
                     if foundKey:
                         gsioLog.error(myPattern.name + ": found multiple keys! Not supported.")
                     foundKey = True
-                    keyName = gsdefs.midiKey[e.alternatives]
                     if e.minor == 1:
-                        keyName += "m"
+                        keyName = gsdefs.midiMinorKey[e.alternatives] + "m"
+                    else:
+                        keyName = gsdefs.midiKey[e.alternatives]
                     myPattern.key = keyName
 
                     # if foundTimeSignatureEvent:
-- 
2.43.0


From 82708a7801aea98251d62ced4ac4b8ac7e11f748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 42/78] fix: importing does not change the map of the caller

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index e5b708b..d504f1a 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -82,7 +82,7 @@ def __metaEventsFromMidiFile(myPattern, midiFile):
 
 
 def __tagFromMidiNote(_noteToTag):
-    noteToTag = copy.copy(_noteToTag)
+    noteToTag = copy.deepcopy(_noteToTag)
     if noteToTag == "pitchName":
         noteToTag = {"pitchName": ""}
     for n in noteToTag:
-- 
2.43.0


From 175ac8e254823d95992bd9baff09342663b661d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 43/78] fix: take the tags from the names of the tracks

---
 gsapi/gsio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index d504f1a..b4fa8c5 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -116,7 +116,9 @@ def __tagFromTrackName(name, noteMapping):
     res = tuple()
     for l in noteMapping:
         if l in name:
-            res += [l]
+            res += (l,)
+    if len(res) == 1:
+        return res[0]
     return res
 
 
@@ -147,6 +149,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     trackDuration = None
     for tracks in globalMidi:
         shouldSkipTrack = False
+        noteTag = ()
         for e in tracks:
             if shouldSkipTrack:
                 continue
-- 
2.43.0


From 76bfce7cff822448147b478149dfe392be7cc4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 44/78] fix: leave out the tracks that have no name and were
 not asked for

---
 gsapi/gsio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index b4fa8c5..213bfe7 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -148,7 +148,9 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     trackIdx = 0
     trackDuration = None
     for tracks in globalMidi:
-        shouldSkipTrack = False
+        trackNames = [e.text for e in tracks if isinstance(e, midiio.TrackNameEvent)]
+        # tracks may have no name
+        shouldSkipTrack = bool(tracksToGet) and trackIdx not in tracksToGet and not trackNames
         noteTag = ()
         for e in tracks:
             if shouldSkipTrack:
-- 
2.43.0


From e2434b4bd8b66f9f41c59346b7a59c6be024408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 45/78] fix: import files that begin with a note off

---
 gsapi/gsio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 213bfe7..23e4f26 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -216,8 +216,8 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                             gsioLog.info("set duration %f at start %f " % (i.duration, i.startTime))
                             break
                     if not foundNoteOn:
-                        gsioLog.warning(myPattern.name + ": not found note on\n %s\n%s\n%s , %s " %
-                                        (e, myPattern.events[-1], noteTag, curBeat))
+                        gsioLog.warning(myPattern.name + ": not found note on\n %s\n%s , %s " %
+                                        (e, noteTag, curBeat))
         trackIdx += 1
     elementSize = 4.0 / myPattern.timeSignature[1]
     barSize = myPattern.timeSignature[0] * elementSize
-- 
2.43.0


From f6c1836f18c2348e4372dd101d508028b6c5d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 46/78] fix: fromMidiCollection works with its default map and
 gets only the tracks asked for

---
 gsapi/gsio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 23e4f26..6efd88c 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -273,7 +273,7 @@ def fromMidiFile(midiFile, noteToTagMap="pitchName", tracksToGet=None, tagFromTr
                             checkForOverlapped=checkForOverlapped)
 
 
-def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, tracksToGet=None,
+def fromMidiCollection(midiGlobPath, noteToTagMap="pitchName", tracksToGet=None,
                        tagFromTrackName=False, filterOutNotMapped=True, desiredLength=0):
     """
     Loads a collection of MIDI Files
@@ -304,7 +304,7 @@ def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, trac
     for f in glob.glob(midiGlobPath):
         name = os.path.splitext(os.path.basename(f))[0]
         gsioLog.info("getting " + name)
-        p = fromMidiFile(f, _noteToTagMap, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
+        p = fromMidiFile(f, _noteToTagMap, tracksToGet=tracksToGet, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
         if desiredLength > 0:
             res += p.splitInEqualLengthPatterns(desiredLength, makeCopy=False)
         else:
-- 
2.43.0


From 2ffecabd2f45f694a62eb7f73408434483ffb66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 47/78] fix: export with the pitches of the given map

---
 gsapi/gsio.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 6efd88c..e4b3002 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -8,7 +8,6 @@ various standards formats (MIDI, JSON and Python's pickle).
 from __future__ import absolute_import, division, print_function
 
 import copy
-import collections
 import glob
 import json
 import logging
@@ -355,8 +354,11 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
         channel = 1
         if isinstance(midiMap, tuple):
             pitch = midiMap[e.tag[0]]
-        elif isinstance(midiMap, collections.Hashable):
-            pitch = midiMap[e.tag]
+        elif isinstance(midiMap, dict):
+            # a tag may be mapped to many notes, that may have a channel
+            pitch = midiMap.get(e.tag, e.pitch)
+            while isinstance(pitch, (list, tuple)):
+                pitch = pitch[0]
         else:
             pitch = e.pitch
         track.append(midiio.NoteOnEvent(tick=startTick, velocity=e.velocity, pitch=pitch, channel=channel))
-- 
2.43.0


From c7cf8f22bb5b9194638231527fef20a6bf329b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 48/78] fix: export times to the nearest tick, so that they do
 not drift

---
 gsapi/gsio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index e4b3002..69864eb 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -348,8 +348,8 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     pattern.append(track)
     beatToTick = pattern.resolution
     for e in myPattern.events:
-        startTick = int(beatToTick * e.startTime)
-        endTick = int(beatToTick * e.endTime())
+        startTick = int(round(beatToTick * e.startTime))
+        endTick = int(round(beatToTick * e.endTime()))
         # pitch = e.pitch
         channel = 1
         if isinstance(midiMap, tuple):
@@ -365,7 +365,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
         track.append(midiio.NoteOffEvent(tick=endTick, velocity=e.velocity, pitch=pitch, channel=channel))
 
     # and the "End of Track" Event
-    track.append(midiio.EndOfTrackEvent(tick=int(myPattern.duration * beatToTick)))
+    track.append(midiio.EndOfTrackEvent(tick=int(round(myPattern.duration * beatToTick))))
 
     # make tick relatives
     track.sort(key=lambda e: e.tick)
-- 
2.43.0


From 508b994776212d01993458269349f44595cde038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 49/78] fix: the order of the events does not change the
 exported notes

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 69864eb..665b3b7 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -347,7 +347,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     # Append the track to the pattern
     pattern.append(track)
     beatToTick = pattern.resolution
-    for e in myPattern.events:
+    for e in sorted(myPattern.events, key=lambda x: x.startTime):
         startTick = int(round(beatToTick * e.startTime))
         endTick = int(round(beatToTick * e.endTime()))
         # pitch = e.pitch
-- 
2.43.0


From 1afc7164941ea284d46adb12201ef6c2d0f8433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 50/78] fix: normalizing a model keeps its counts

---
 gsapi/bassmine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index ccd7c0a..c1a3b69 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -22,6 +22,7 @@ def normalize(a):
     Returns:
         a: normalized matrix
     """
+    a = np.array(a)
     c = 0
     for row in a:
         factor = sum(row)
-- 
2.43.0


From 8e3ef9acfb56c65789d76d25995bea24a8f868ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 51/78] fix: pdf_sampling picks the last value with its own
 probability

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index c1a3b69..cde067d 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -52,7 +52,7 @@ def pdf_sampling(n):  # variable argument list
 
     x = random.random()
     f = 0
-    for i in range(1, len(n)):
+    for i in range(1, len(n) + 1):
         if x < sum(n[0:i]):
             f = i - 1
             break
-- 
2.43.0


From dbce2f4dc751b6ef0e41a610cb8606968947ee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 52/78] fix: the temporal model learns the transition to the
 last beat

---
 gsapi/bassmine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index cde067d..470ddc1 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -126,10 +126,10 @@ class MarkovModel:
         for p in pattern:
             if count == 0:
                 self.update_initial(p)
-            elif 0 < count < len(pattern) - 1:
+            else:
                 self.update_temporal(pattern[count - 1], p)
-            elif count == len(pattern) - 1:
-                self.update_temporal(pattern[count], pattern[0])
+                if count == len(pattern) - 1:
+                    self.update_temporal(pattern[count], pattern[0])
             count += 1
 
     def add_interlocking(self, patt_kick, patt_bass):
-- 
2.43.0


From 028d697f89bd237acdf9e431bb40a601285de5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 53/78] fix: binarize rhythms of any resolution and duration

---
 gsapi/bassmine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 470ddc1..3f957ff 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -924,15 +924,15 @@ def binaryBeatPattern(aPattern, noBeats_bass, resolution=4):
     # noBeats_bass = uf.numberOfBeats(aPattern)  # Bass files length set the global length of analysis
     print('\n# of beats: ', noBeats_bass)
     # beat_subdiv = np.arange(start=0, step=0.25, stop=(noBeats_bass * RES) - 1)
-    subdiv_aux = np.array([0., 0.25, 0.5, 0.75])
+    subdiv_aux = np.arange(resolution) / resolution
     # Matrix to store the binary representation of the midi files
     # Basslines -> 1 matrix
-    rhythm = np.zeros((noBeats_bass, resolution), dtype=int)
+    rhythm = np.zeros((int(np.ceil(noBeats_bass)), resolution), dtype=int)
 
     for o in aPattern:
         # quantize to the closest subdivision
         i, d = divmod(o, 1)  # i = row(beat number) , d = column (beat subdivision)
         d_ = (abs(subdiv_aux - d)).argmin()
-        if i < noBeats_bass:
+        if i < len(rhythm):
             rhythm[int(i), d_] = 1
     return rhythm
-- 
2.43.0


From f4fdda12cb61d7fc251784af9505aec011ecd3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 54/78] fix: generate from constrained models under Python 3

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 3f957ff..4ec35fd 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -398,7 +398,7 @@ def constrainMM(markov_model, target, _path="output/"):
         init.append(b0[key])
     init_dict['initial'] = dict()
     init_dict['initial']['prob'] = list(init / sum(init))
-    init_dict['initial']['pattern'] = V[0].keys()
+    init_dict['initial']['pattern'] = list(V[0].keys())
     # print( init_dict)
     for i in range(len(V)):
         out_Model[i] = {}
-- 
2.43.0


From 18569a6bfb8f5119a87588385f6bde946fa0a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 55/78] fix: constrained models have no dead ends

---
 gsapi/bassmine.py | 47 ++++++++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 4ec35fd..934c87a 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -281,6 +281,23 @@ class MarkovModel:
         return pitch_dict
 
 
+def removeDeadEnds(V):
+    """
+    Delete the values that have no continuation from the domains of each step,
+    from the last to the first, so that the model is backtrack free.
+
+    Args:
+        V: list of dictionaries {value: set of the continuations in the next step}
+    """
+    for step in reversed(range(len(V))):
+        if step < len(V) - 1:
+            next_key = set([str(x) for x in V[step + 1].keys()])
+            for key in V[step]:
+                V[step][key] = V[step][key].intersection(next_key)
+        for key in [k for k, v in V[step].items() if len(v) == 0]:
+            del V[step][key]
+
+
 def constrainMM(markov_model, target, _path="output/"):
     """
 
@@ -340,7 +357,7 @@ def constrainMM(markov_model, target, _path="output/"):
         #	print( "Kick constrain", target_setlist[1])
         #	print( "Intersection", Dom_B[int(f)].intersection(target_setlist[1]))
 
-        if len(Dom_B[int(f)].intersection(target_setlist[1])) > 0:
+        if len(Dom_B.get(int(f), set()).intersection(target_setlist[1])) > 0:
             V[0][int(f)] = Dom_B[int(f)].intersection(target_setlist[1])
             tmp.append(f)
     # print( "\n\n")
@@ -358,37 +375,13 @@ def constrainMM(markov_model, target, _path="output/"):
         # print( "Kick constr", list(target_setlist[step]))
         # for each value in V[step] keep continuations that match interlocking with step+1
         for t in target_setlist[step]:
-            if len(Dom_B[int(t)].intersection(target_setlist[step + 1])):
+            if len(Dom_B.get(int(t), set()).intersection(target_setlist[step + 1])):
                 V[step][int(t)] = Dom_B[int(t)].intersection(target_setlist[step + 1])
                 # print( "check\n")
                 # print( "V", step, V[step].keys())
 
     ## Delete values from each key in V[i] that are not in V[i+1]
-    val_del = dict()
-    ## Font-propagation
-    for step in range(1, len(target) - 1):
-        val_del_temp = []
-        next_key = set([str(x) for x in V[step].keys()])
-        # print( next_key)
-        for key, value in V[step - 1].items():
-            # print( key, value)
-            tmp_int = value.intersection(next_key)
-            # if len(tmp_int) > 0:
-            V[step - 1][key] = tmp_int
-            if len(tmp_int) == 0:
-                val_del_temp.append(key)
-        val_del[step] = val_del_temp
-    #  print( val_del)
-    #  Back-propagation
-    for step, value in val_del.items():
-        if len(value) > 0:
-            for v in value:
-                ## Delete key
-                V[step - 1].pop(v, None)
-            #  Delete in previous continuations
-            # print( V[step-2])
-            for idx in V[step - 2].keys():
-                V[step - 2][idx] = set([str(x) for x in V[step - 1].keys()]).intersection(V[step - 2][idx])
+    removeDeadEnds(V)
     # BUILD FINAL DICTIONARY
     # print( "\nFinal Model:")
     out_Model = {}
-- 
2.43.0


From 085b5635e56b912887e2d8a0bb9326190ad03923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 56/78] fix: variation models keep the beats asked for and have
 no dead ends

---
 gsapi/bassmine.py | 75 ++++++-----------------------------------------
 1 file changed, 9 insertions(+), 66 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 934c87a..b828834 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -459,78 +459,21 @@ def variationMM(markov_model, target, _path="output/"):
     # target
     # target = [8,8,4,14,4,10,8,2,8]
 
-    V.append(dict())
-
-    if target[1] >= 0:
-        V[0][target[0]] = {str(target[1])}
-    else:
-        V[0][target[0]] = Dom_B[target[0]]
-
-    for i in range(1, len(target) - 1):
+    candidates = {target[0]}
+    for i in range(len(target) - 1):
 
         V.append(dict())
 
-        if target[i] >= 0:  # Current beat don't vary
-
-            for key, value in V[i - 1].items():
-
-                # store keys that match target[i]
-                tmp_key = value.intersection({str(target[i])})
-                if len(tmp_key) > 0:
-                    V[i][int(list(tmp_key)[0])] = Dom_B[int(list(tmp_key)[0])]
-                    # V[i][target[i-1]] = set([str(target[i])])
-
-        else:  # Current beat varies
-
-            # Check possible continuations from V[i-1] as Key candidates in V[i]
-            for key, value in V[i - 1].items():
-
-                for v in value:
-                    V[i][int(v)] = Dom_B[int(v)]
-
-                    # print( "h")
-
-    # V.append(dict())
-
-    # V[len(target)-1][target[len(target)-1]] = set([str(target[len(target)-1])])
-
-    # print( V)
+        for c in candidates:
+            V[i][c] = Dom_B.get(c, set())
+            if target[i + 1] >= 0:  # Next beat don't vary
+                V[i][c] = V[i][c].intersection({str(target[i + 1])})
 
+        # Possible continuations are the candidates of the next step
+        candidates = set([int(v) for value in V[i].values() for v in value])
 
     ## Delete values from each key in V[i] that are not in V[i+1]
-    val_del = dict()
-    ## Font-propagation
-    for step in range(1, len(target) - 1):
-        val_del_temp = []
-        next_key = set([str(x) for x in V[step].keys()])
-        # print( next_key)
-        for key, value in V[step - 1].items():
-            # print( key, value)
-            tmp_int = value.intersection(next_key)
-            # if len(tmp_int) > 0:
-            V[step - 1][key] = tmp_int
-            if len(tmp_int) == 0:
-                val_del_temp.append(key)
-        val_del[step] = val_del_temp
-    # print( val_del)
-    ## Back-propagation
-    for step, value in val_del.items():
-        if len(value) > 0:
-            for v in value:
-                ## Delete key
-                V[step - 1].pop(v, None)
-            ## Delete in previous continuations
-            # print( V[step-2])
-            for idx in V[step - 2].keys():
-                V[step - 2][idx] = set([str(x) for x in V[step - 1].keys()]).intersection(V[step - 2][idx])
-    # BUILD FINAL DICTIONARY
-    # print( "\nFinal Model:")
-
-    for key, val in V[len(V) - 1].items():
-        tmp_val = val.intersection({str(target[len(target) - 1])})
-        # print( tmp_val)
-        if len(tmp_val) > 0:
-            V[len(V) - 1][key] = tmp_val
+    removeDeadEnds(V)
 
     # for value in V:
     #	print( value)
-- 
2.43.0


From 946ddd4d969f16828e08ed0c82f61be79b53126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 57/78] fix: vary empty beats and the last beat when the mask
 asks for it

---
 gsapi/bassmine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index b828834..c73971a 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -713,7 +713,8 @@ def generateBassRhythmVariation(markov_model, target_pattern, variation_mask):
         target_rhythm = binaryBeatPattern(onset_target, target_pattern.duration)
         target_id = translate_rhythm(target_rhythm)
         # Mask formatted pattern
-        masked_target = [target_id[i] * variation_mask[i] for i in range(len(variation_mask) - 1)]
+        # (the first beat is kept, and the id of an empty beat is 0, that has no sign)
+        masked_target = [target_id[i] if i == 0 or variation_mask[i] > 0 else -1 for i in range(len(target_id))]
 
         # Build variation model
         NHMM = variationMM(markov_model, masked_target)
-- 
2.43.0


From f5d33eb6645db65e75966b71de3dfadaa90940aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 58/78] fix: constrained rhythms are as long as the beats of
 the target, not as its events

---
 gsapi/bassmine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index c73971a..c38f48d 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -624,10 +624,10 @@ def generateBassRhythm(markov_model, beat_length=8, target=[]):
 
     else:  # use constrained model
 
-        if len(target) < beat_length:
-            beat_length = len(target)
-
         NHMM = constrainMM(markov_model, target)
+        # one step of the model for each transition between the beats of the target
+        beat_length = min(beat_length, len(NHMM[1]) + 1)
+
         pattern_idx.append(np.random.choice(NHMM[0]['initial']['pattern'], p=NHMM[0]['initial']['prob']))
 
         for beat in range(beat_length - 1):
-- 
2.43.0


From c3d770be029a901427b69bb71833d482cdccc305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 59/78] fix: cut patterns in lengths that are not exact in
 binary, such as 1/3 or 0.7

---
 gsapi/gspattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 5edd267..a308142 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1072,6 +1072,9 @@ class Pattern(object):
 
         def _handleEvent(e, patterns, makeCopy):
             p = int(math.floor(e.startTime * 1.0 / desiredLength))
+            # the division may round down the start of a slice
+            if e.startTime >= (p + 1) * desiredLength:
+                p += 1
             numPattern = str(p)
             if numPattern not in patterns:
                 patterns[numPattern] = patternToSlice.copyWithoutEvents()
-- 
2.43.0


From 36eba6a228c7989f965e21d74fc86e06305200c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 60/78] fix: cut events that last for more than a thousand
 slices

---
 gsapi/gspattern.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index a308142..daf86c9 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1083,24 +1083,27 @@ class Pattern(object):
                 patterns[
                     numPattern].name = (patternToSlice.name or "") + "_" + numPattern
             newEv = e if not makeCopy else e.copy()
+            remainingEvent = None
 
             if newEv.startTime + newEv.duration > (p + 1) * desiredLength:
                 remainingEvent = e.copy()
                 newOnset = (p + 1) * desiredLength
                 remainingEvent.duration = remainingEvent.endTime() - newOnset
                 remainingEvent.startTime = newOnset
-                _handleEvent(remainingEvent, patterns, makeCopy)
                 newEv.duration = (p + 1) * desiredLength - e.startTime
 
             newEv.startTime -= p * desiredLength
             patterns[numPattern].events += [newEv]
+            return remainingEvent
 
         patterns = {}
 
         patternToSlice = self.viewpoints[
             viewpointName] if viewpointName else self
         for e in patternToSlice.events:
-            _handleEvent(e, patterns, makeCopy)
+            remainingEvent = e
+            while remainingEvent is not None:
+                remainingEvent = _handleEvent(remainingEvent, patterns, makeCopy)
         res = []
         maxListLen = int(
             math.ceil(patternToSlice.duration * 1.0 / desiredLength))
-- 
2.43.0


From 3c4ca48e29d22ccdc52aa2c0e8efef3cfa567fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 61/78] fix: write the status of the event that follows a meta
 or sysex event

---
 gsapi/midiio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 259cae8..35914c0 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -178,11 +178,13 @@ class FileWriter(object):
         ret += write_varlen(event.tick)
         # is the event a MetaEvent?
         if isinstance(event, MetaEvent):
+            self.RunningStatus = None  # cancelled by meta and sysex events
             ret += chr(event.statusmsg) + chr(event.metacommand)
             ret += write_varlen(len(event.data))
             ret += str.join('', map(chr, event.data))
         # is this event a Sysex Event?
         elif isinstance(event, SysexEvent):
+            self.RunningStatus = None
             ret += chr(0xF0)
             ret += str.join('', map(chr, event.data))
             ret += chr(0xF7)
-- 
2.43.0


From 1562fc93da21d4b98274fae5d72fae712875912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 62/78] fix: conserve the tuples inside of tuples in JSON files

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 665b3b7..eaa2d52 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -438,7 +438,7 @@ def toJSONFile(myPattern, folderPath, useTagIndexing=True, nameSuffix=None, cons
 
         """
         def checkTuple(self, item):
-            if isinstance(item, tuple): return {'__tuple__': True, 'items': item}
+            if isinstance(item, tuple): return {'__tuple__': True, 'items': [self.checkTuple(e) for e in item]}
             if isinstance(item, list): return [self.checkTuple(e) for e in item]
             if isinstance(item, dict):
                 return {k: self.checkTuple(e) for k, e in item.items()}
-- 
2.43.0


From 554bfd03b612c2bc5b86b52113cb3e35925f2033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 63/78] fix: slices of MIDI tracks keep their kind of ticks

---
 gsapi/midiio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 35914c0..41adedb 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -231,6 +231,7 @@ class Pattern(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Pattern(resolution=self.resolution, frmt=self.frmt,
+                           tick_relative=self.tick_relative,
                            tracks=(super(Pattern, self).__getitem__(i) for i in
                                    range(*indices)))
         else:
@@ -267,7 +268,7 @@ class Track(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Track((super(Track, self).__getitem__(i) for i in
-                          range(*indices)))
+                          range(*indices)), tick_relative=self.tick_relative)
         else:
             return super(Track, self).__getitem__(item)
 
-- 
2.43.0


From c8dfb45ea84c1bea7a6571fd8a4e13c9f03e865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 64/78] fix: a Markov style loaded from one that was not built
 is not built

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 05ed866..4b585ec 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -533,7 +533,7 @@ class PatternMarkov(object):
         self.loopDuration = state["loopDuration"]
 
     def isBuilt(self):
-        return self.transitionTable != {}
+        return bool(self.transitionTable)
 
     def getAllPossibleStates(self):
         possibleStates = []
-- 
2.43.0


From f287f2f6f793bcf8b2bfe89f6f2180bccf87fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:12 +0000
Subject: [PATCH 65/78] fix: normalize works on matrices of integers

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index c38f48d..6611665 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -22,7 +22,7 @@ def normalize(a):
     Returns:
         a: normalized matrix
     """
-    a = np.array(a)
+    a = np.array(a, dtype=float)
     c = 0
     for row in a:
         factor = sum(row)
-- 
2.43.0


From fa31b61bf57c876c3023648f2bb5806bbf13ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:12 +0000
Subject: [PATCH 66/78] fix: corpus_analysis takes folders that end with a
 slash

---
 gsapi/bassmine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 6611665..aab0dfc 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -768,12 +768,12 @@ def corpus_analysis(bass_path, drum_path):
 
     print("Bass Files")
     for bf in bass_files:
-        bass_names.append(bf[len(bass_path) + 1:-len('.mid')])
+        bass_names.append(os.path.basename(bf)[:-len('.mid')])
     print("\nNumber of files: ", len(bass_files))
 
     print("\nDrums Files")
     for df in drum_files:
-        drum_names.append(df[len(drum_path) + 1:-len('.mid')])
+        drum_names.append(os.path.basename(df)[:-len('.mid')])
     print("\nNumber of files: ", len(drum_files))
 
     # File counter
-- 
2.43.0


From 13d02c2901334394a7a8b6ba595e053d882dc726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:24 +0000
Subject: [PATCH 67/78] fix: search_files and match_files find names with
 brackets and wildcards

---
 gsapi/gsutil.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index fa171d0..e6a92cc 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -34,6 +34,16 @@ def parallelCCompile(self, sources, output_dir=None, macros=None,
     return objects
 
 
+def escape_glob(text):
+    """
+    Escapes the characters that have a meaning in glob expressions.
+
+    """
+    import re
+
+    return re.sub(r'([*?[])', r'[\1]', text)
+
+
 def strip_suffix(filename, suffix=None):
     """
     Strip off the suffix of the given filename or string.
@@ -87,9 +97,9 @@ def match_files(filename, match_list, suffix=None, match_suffix=None):
     matches = []
     # look for files with the same base name in the files_list
     if match_suffix is not None:
-        pattern = "*%s*%s" % (basename, match_suffix)
+        pattern = "*%s*%s" % (escape_glob(basename), escape_glob(match_suffix))
     else:
-        pattern = "*%s" % basename
+        pattern = "*%s" % escape_glob(basename)
     for match in fnmatch.filter(match_list, pattern):
         # base names must match exactly
         if basename == os.path.basename(strip_suffix(match, match_suffix)):
@@ -129,13 +139,13 @@ def search_files(path, suffix=None):
     elif os.path.isdir(path):
         # use all files in the given path
         if suffix is None:
-            file_list = glob.glob("%s/*" % path)
+            file_list = glob.glob("%s/*" % escape_glob(path))
         elif isinstance(suffix, list):
             file_list = []
             for s in suffix:
-                file_list.extend(glob.glob("%s/*%s" % (path, s)))
+                file_list.extend(glob.glob("%s/*%s" % (escape_glob(path), escape_glob(s))))
         else:
-            file_list = glob.glob("%s/*%s" % (path, suffix))
+            file_list = glob.glob("%s/*%s" % (escape_glob(path), escape_glob(suffix)))
     elif os.path.isfile(path):
         file_list = []
         # no matching needed
-- 
2.43.0


From ab977c9eba4ae6cc89cd7d1d5301c017bc176a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:35 +0000
Subject: [PATCH 68/78] fix: stripping an empty suffix leaves the filename

---
 gsapi/gsutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index e6a92cc..948d1b6 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -62,7 +62,7 @@ def strip_suffix(filename, suffix=None):
         Filename or string without suffix.
 
     """
-    if suffix is not None and filename.endswith(suffix):
+    if suffix and filename.endswith(suffix):
         return filename[:-len(suffix)]
     return filename
 
-- 
2.43.0


From 4e0620834bc84163eafaf6705682def814db8ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:19 +0000
Subject: [PATCH 69/78] fix: the ids of beats are numbers that can be stored as
 JSON, so that basslines can be varied

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index aab0dfc..b0a0feb 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -838,7 +838,7 @@ def translate_rhythm(rhythm):
     iddic = []
 
     for beat in rhythm:
-        iddic.append((beat[0] * 8) + (beat[1] * 4) + (beat[2] * 2) + beat[3])
+        iddic.append(int((beat[0] * 8) + (beat[1] * 4) + (beat[2] * 2) + beat[3]))
     return iddic
 
 
-- 
2.43.0


From 8461f3ddd56329a60618b089f38d32f982580067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:19 +0000
Subject: [PATCH 70/78] fix: the seventh of maj#11 chords is major

---
 gsapi/gsdefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index 2e1fca9..5317d93 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -47,7 +47,7 @@ chordIntervals = {"0":           [],
                   "maj11":       [12, 11, 12, 11, 11],
                   "min11":       [11, 12, 11, 12, 11],
                   "#11":         [12, 11, 11, 12, 12],
-                  "maj#11":      [12, 11, 11, 12, 12],
+                  "maj#11":      [12, 11, 12, 11, 12],
                   "min#11":      [11, 12, 11, 12, 12]}
 
 chordTypes = {"0":          [0],
-- 
2.43.0


From 0a307046f2de637551f50da5e6e5c8a3e107a3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:34 +0000
Subject: [PATCH 71/78] fix: the ninth of min9 chords is major

---
 gsapi/gsdefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index 5317d93..1704a2c 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -42,7 +42,7 @@ chordIntervals = {"0":           [],
                   "min(add#11)": [11, 12, 35],
                   "9":           [12, 11, 11, 12],
                   "maj9":        [12, 11, 12, 11],
-                  "min9":        [11, 12, 11, 11],
+                  "min9":        [11, 12, 11, 12],
                   "11":          [12, 11, 11, 12, 11],
                   "maj11":       [12, 11, 12, 11, 11],
                   "min11":       [11, 12, 11, 12, 11],
-- 
2.43.0


From 0cbc0eac1b207fad394f8ad2a15ecdccf5b24c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:20 +0000
Subject: [PATCH 72/78] fix: Chordify makes one chord per onset when events are
 not in time order

---
 gsapi/gstransformers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 350b904..832233b 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -269,8 +269,8 @@ class Chordify(BaseTransformer):
     def transformPattern(self):
         """Return a transformed Pattern"""
         self.outputPattern = self.inputPattern.copyWithoutEvents()
-        p = -1
-        for e in self.inputPattern:
+        p = None
+        for e in sorted(self.inputPattern.events, key=lambda e: e.startTime):
             if e.startTime != p:
                 new_chord = EventChord(startTime=e.startTime, duration=e.duration, components=[], tag=())
                 for ee in self.inputPattern.activeEventsAtTime(e.startTime):
-- 
2.43.0


From f2a16bc455cbaec9bd3add8d521ce00bf38a78ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 73/78] fix: give a note that a tag maps more than once that
 tag only once

---
 gsapi/gsio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index eaa2d52..579074a 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -106,6 +106,8 @@ def __tagsFromMidiNoteAndChannel(pitch, channel, noteMapping):
         for le in noteMapping[l]:
             if (le[0] in {"*", pitch}) and (le[1] in {"*", channel}):
                 res += (l,)
+                # a tag may map the note more than once
+                break
     if len(res) == 1:
         return res[0]
     return res
-- 
2.43.0


From 0c8bdb709f867a599f26cf84bcd30b23b9dbb238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 74/78] fix: a printed grid shows the onset of an event in the
 first block

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index daf86c9..352e3b5 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1133,7 +1133,7 @@ class Pattern(object):
             silenceASCII = '-'
             out = "["
             p = self.getPatternWithTags(t, makeCopy=True)
-            isSilence = __areSilenceEvts(p.activeEventsAtTime(0))
+            isSilence = True  # a first block with sound starts it
             # inited = False
             lastActiveEvent = p.events[0]
             numSteps = int(self.duration * 1.0 / blockSize)
-- 
2.43.0


From 939cb3fdf646e0d691138b5706d06fb60897a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 75/78] fix: grids of patterns with tuples as tags can be
 printed

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 352e3b5..d91990f 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1158,7 +1158,7 @@ class Pattern(object):
 
                 isSilence = newSilenceState
                 # inited = True
-            out += "]: " + t
+            out += "]: " + (t if hasattr(t, "join") else str(t))
             print(out)
 
     def timeStretch(self, ratio):
-- 
2.43.0


From 72d5fa0e3d568f76b33997bdbfff0f4daf5a460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 76/78] fix: coloured output leaves the level name of log
 records as it is

---
 gsapi/gslog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsapi/gslog.py b/gsapi/gslog.py
index 9785827..1c49543 100644
--- a/gsapi/gslog.py
+++ b/gsapi/gslog.py
@@ -20,7 +20,9 @@ class ColoredFormatter(logging.Formatter):
             record.boldSeq = ""
             record.resetSeq = ""
 
-        return logging.Formatter.format(self, record)
+        text = logging.Formatter.format(self, record)
+        record.levelname = levelname  # other handlers get the same record
+        return text
 
 
 class ColoredLogger(logging.Logger):
-- 
2.43.0


From 382ac139409a53c837b78c98a64d257af4bf3edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:49 +0000
Subject: [PATCH 77/78] fix: read and write the escapes (F7) of standard MIDI
 files

---
 gsapi/midiio.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 41adedb..8011bb9 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -128,6 +128,11 @@ class FileReader(object):
                     break
                 data.append(datum)
             return SysexEvent(tick=tick, data=data)
+        # is this an escape (bytes to send as they are)?
+        elif EscapeEvent.is_event(stsmsg):
+            datalen = read_varlen(trackdata)
+            data = [next(trackdata) for x in range(datalen)]
+            return EscapeEvent(tick=tick, data=data)
         # not a Meta MIDI event or a Sysex event, must be a general message
         else:
             key = stsmsg & 0xF0
@@ -188,6 +193,11 @@ class FileWriter(object):
             ret += chr(0xF0)
             ret += str.join('', map(chr, event.data))
             ret += chr(0xF7)
+        elif isinstance(event, EscapeEvent):
+            self.RunningStatus = None
+            ret += chr(0xF7)
+            ret += write_varlen(len(event.data))
+            ret += str.join('', map(chr, event.data))
         # not a Meta MIDI event or a Sysex event, must be a general message
         elif isinstance(event, Event):
             if not self.RunningStatus or \
@@ -545,6 +555,17 @@ class SysexEvent(Event):
     is_event = classmethod(is_event)
 
 
+class EscapeEvent(Event):
+    statusmsg = 0xF7
+    name = 'Escape'
+    length = 'varlen'
+
+    def is_event(cls, statusmsg):
+        return cls.statusmsg == statusmsg
+
+    is_event = classmethod(is_event)
+
+
 class SequenceNumberMetaEvent(MetaEvent):
     name = 'Sequence Number'
     metacommand = 0x00
-- 
2.43.0


From 87817c652e85f0cb30e5b9fb33092ad88ed9ece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:00 +0000
Subject: [PATCH 78/78] fix: copy meta events of unknown kinds

There is no copy() in their base classes to call.
---
 gsapi/midiio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 8011bb9..b6b7233 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -649,8 +649,10 @@ class UnknownMetaEvent(MetaEvent):
         self.metacommand = kw['metacommand']
 
     def copy(self, **kw):
-        kw['metacommand'] = self.metacommand
-        return super(UnknownMetaEvent, self).copy(kw)
+        event = self.__class__(metacommand=self.metacommand, tick=self.tick, data=list(self.data))
+        for key in kw:
+            setattr(event, key, kw[key])
+        return event
 
 
 class ChannelPrefixEvent(MetaEvent):
-- 
2.43.0

