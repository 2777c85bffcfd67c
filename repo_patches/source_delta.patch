From 96b0c17e5cff6c101e5d266544b46e4590ba134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:26 +0000
Subject: [PATCH 001/103] fix: lexer skipped a character when two different
 default targets followed each other

The detection of circular default targets only compared the depth and the
number of pushed lexicons, so entering a different lexicon at the same position
was mistaken for entering the same lexicon again.
---
 parce/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lexer.py b/parce/lexer.py
index 162eb6a..ed5a918 100644
--- a/parce/lexer.py
+++ b/parce/lexer.py
@@ -156,7 +156,7 @@ class Lexer:
                     else:
                         if target.pop:
                             del lexicons[target.pop:]
-                        state = (pos, len(lexicons), len(target.push))
+                        state = (pos, tuple(lexicons), target.push)
                         if state in circular:
                             if target.push and pos < len(text):
                                 pos += 1
-- 
2.43.0


From 00e9aa0f1572025de5565afd643698f9d56508d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:26 +0000
Subject: [PATCH 002/103] fix: lexer looped forever on a target that can't
 leave the root lexicon

A default target (or a zero-width match) popping the root lexicon, and circular
zero-width targets at the end of the text made Lexer.events() hang.
---
 parce/lexer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parce/lexer.py b/parce/lexer.py
index ed5a918..4bc03e7 100644
--- a/parce/lexer.py
+++ b/parce/lexer.py
@@ -156,9 +156,14 @@ class Lexer:
                     else:
                         if target.pop:
                             del lexicons[target.pop:]
+                        # the same lexicons entered again in the same context at
+                        # the same position (a null target that wanted to leave
+                        # the root lexicon also returns to the same state)
                         state = (pos, tuple(lexicons), target.push)
                         if state in circular:
-                            if target.push and pos < len(text):
+                            if target.push or not target.pop:
+                                if pos >= len(text):
+                                    return  # no text left to advance to
                                 pos += 1
                             circular.clear()
                         else:
-- 
2.43.0


From 52e388fc4edc71810beb36db7c51c959b908b461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:50 +0000
Subject: [PATCH 003/103] fix: dynamic action in bygroup() crashed on a
 subgroup that did not participate

---
 parce/lexer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/lexer.py b/parce/lexer.py
index 4bc03e7..c5fb9a7 100644
--- a/parce/lexer.py
+++ b/parce/lexer.py
@@ -178,11 +178,13 @@ class Lexer:
 
     def filter_actions(self, action, pos, text, match):
         """Handle filtering via DynamicAction instances."""
+        if not text:
+            return  # e.g. a subgroup that did not contribute to the match
         if isinstance(action, Item):
             if isinstance(action, ActionItem):
                 yield from action.replace(self, pos, text, match)
             else:
                 for action in unroll(action.evaluate({'text': text, 'match': match})):
                     yield from self.filter_actions(action, pos, text, match)
-        elif text:
+        else:
             yield pos, text, action
-- 
2.43.0


From 3b60423677cb271bd01494087e5f145e7a4055cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:20 +0000
Subject: [PATCH 004/103] fix: lexicon with re.VERBOSE flag and a single plain
 pattern matched literal whitespace

---
 parce/lexicon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lexicon.py b/parce/lexicon.py
index 3ea5dac..c0445b3 100644
--- a/parce/lexicon.py
+++ b/parce/lexicon.py
@@ -312,7 +312,7 @@ class Lexicon:
 
         # if there is only one pattern, and no dynamic action or target,
         # see if the pattern is simple enough to just use str.find
-        if len(patterns) == 1 and not self.re_flags & re.IGNORECASE and \
+        if len(patterns) == 1 and not self.re_flags & (re.IGNORECASE | re.VERBOSE) and \
                 not needs_evaluation(rules[0]):
             needle = parce.regex.to_string(patterns[0])
             if needle:
-- 
2.43.0


From f48168c30042d6e97d5d468bf904f65ef0348d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:55 +0000
Subject: [PATCH 005/103] fix: merging queued changes lost the start of an
 earlier change

Changes.add() overwrote the start of the new change before the new start and
the removed range were computed, so a change before an already queued change
was ignored and the tree was not updated at that place.
---
 parce/treebuilderutil.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parce/treebuilderutil.py b/parce/treebuilderutil.py
index f688bfc..db09ab5 100644
--- a/parce/treebuilderutil.py
+++ b/parce/treebuilderutil.py
@@ -95,9 +95,8 @@ class Changes:
         else:
             offset = 0
         # determine which part of removed falls inside existing changes
-        start = max(start, self.start)
-        end = min(start + removed, self.start + self.added)
-        offset -= max(0, end - start)
+        overlap = min(start + removed, self.start + self.added) - max(start, self.start)
+        offset -= max(0, overlap)
         # set the new values
         self.start = min(self.start, start)
         self.removed += removed + offset
-- 
2.43.0


From d608c5e8240d8b7aa46e06320a7b0dddc8e540cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:23 +0000
Subject: [PATCH 006/103] fix: restarting a build with new changes lost a token

When changes arrive while a new tree is being built, the lexer continues after
the last token(group) that remained the same, but that token was deleted from
the new tree, so it was missing in the result.
---
 parce/treebuilder.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index e7a8c05..138aa67 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -278,11 +278,10 @@ class TreeBuilder(util.Observable):
                 result = get_prepared_lexer(tree, text, start, True)
                 if result:
                     lexer, events, tokens = result
-                    t = tokens[0]
+                    t = tokens[-1]
                     context = t.parent
                     for p, i in ancestors_with_index(t):
                         del p[i+1:]
-                    del context[-1]
                 else:
                     tree = None
             # find insertion spot in old tree
-- 
2.43.0


From a526125fb5c83fd43ba440f19092b19a8ed0ecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 007/103] fix: updated range could be wrong when changes
 arrived while building

The end of the range of an earlier build was only adjusted for the changes the
build started with, not for changes that were picked up while building, and a
change of root lexicon moved it past the end of the text.
---
 parce/treebuilder.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index 138aa67..1325365 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -164,6 +164,7 @@ class TreeBuilder(util.Observable):
         self.root = Context(root_lexicon, None)
         self.busy = False
         self.changes = []
+        self._text_length = 0
 
     def tree(self, text):
         """Convenience method to build a tree and return the root node."""
@@ -524,6 +525,8 @@ class TreeBuilder(util.Observable):
         c = Changes()
         while self.changes:
             c.add(*self.changes.pop(0))
+        if c.has_changes():
+            self._text_length = len(c.text)
         return c
 
     def start_processing(self):
@@ -556,7 +559,7 @@ class TreeBuilder(util.Observable):
 
         """
         self.process_started()
-        start = end = -1
+        start = end = tail = -1     # tail is the length of the text after end
         lexicons = False    # no change
         self._lock.acquire()
         c = self.get_changes()
@@ -568,7 +571,11 @@ class TreeBuilder(util.Observable):
             self.emit("replace")
             r = self.replace_tree(result)
             start = r.start if start == -1 else min (start, r.start)
-            end = r.end if end == -1 else max(c.new_position(end), r.end)
+            # more changes can have been handled while building, so use the
+            # length of the text that is now in the tree
+            length = self._text_length
+            tail = length - r.end if tail == -1 else min(tail, length - r.end)
+            end = length - tail
             if r.lexicons is not None:
                 lexicons = r.lexicons
             self._lock.acquire()
-- 
2.43.0


From a0f614f06a749081ac464a6a70b42ec86fc5daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:46 +0000
Subject: [PATCH 008/103] fix: setting a differently derived root lexicon kept
 the old root lexicon

Lexicons derived from the same lexicon compare equal; compare on identity to
determine whether the root lexicon of the tree needs to be replaced.
---
 parce/treebuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index 1325365..1cb884b 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -387,7 +387,7 @@ class TreeBuilder(util.Observable):
         """
         tree, start, end, offset, lexicons = result
 
-        if not tree.lexicon or tree.lexicon != self.root.lexicon:
+        if not tree.lexicon or tree.lexicon is not self.root.lexicon:
             # whole tree update
             root = self.root
             for n in tree:
-- 
2.43.0


From 04ad5c57bfb11be722bfa31ade06f77fb1b019c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:28 +0000
Subject: [PATCH 009/103] fix: edits after an exception in a nested edit
 context were applied immediately

An exception leaving an inner context reset the nesting count, so the outer
context was not in effect any more for edits that followed.
---
 parce/mutablestring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/mutablestring.py b/parce/mutablestring.py
index 7e15b6e..31d07c1 100644
--- a/parce/mutablestring.py
+++ b/parce/mutablestring.py
@@ -96,7 +96,7 @@ class AbstractMutableString:
         """Exit the context for modifying."""
         if exc_type is not None:
             # cancel all edits when an exception occurred
-            self._edit_context = 0
+            self._edit_context -= 1
             self._changes.clear()
         elif self._edit_context > 1:
             self._edit_context -= 1
-- 
2.43.0


From 6e707479d6c6a6ee9569b0995c2d75f930a3a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:26 +0000
Subject: [PATCH 010/103] fix: overlapping edits made a document unusable

When overlapping edits in a context were refused, they were kept, so every
following edit was refused as well or applied together with the old ones.
---
 parce/mutablestring.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parce/mutablestring.py b/parce/mutablestring.py
index 31d07c1..cfb2b85 100644
--- a/parce/mutablestring.py
+++ b/parce/mutablestring.py
@@ -166,14 +166,16 @@ class AbstractMutableString:
     def _apply_changes(self):
         """(Internal.) Check, sort and apply the changes."""
         if self._changes:
-            changes = list(self._get_changes())
+            try:
+                changes = list(self._get_changes())
+            finally:
+                self._changes.clear()
             head = old = changes[0][0]
             added = 0
             for start, end, text in changes:
                 added += start - old + len(text)
                 old = end
             self._update_text(changes)
-            self._changes.clear()
             self.text_changed(head, end - head, added)
 
     def _get_changes(self):
-- 
2.43.0


From 8af542575ee463ca755a4d13af9e050870a33ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:48 +0000
Subject: [PATCH 011/103] fix: undo_available and redo_available were not
 emitted for the last step

Undoing (redoing) the only step on the stack removed it before the state was
recorded, so the change was not noticed.
---
 parce/document.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/document.py b/parce/document.py
index cbd36b1..100e178 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -374,7 +374,8 @@ class Document(AbstractDocument, mutablestring.MutableString, util.Observable):
         if self._edit_context > 0:
             raise RuntimeError("can't undo or redo while in edit context")
         if stack:
-            changes, modified = stack.pop()
+            with self._check_undo_state():
+                changes, modified = stack.pop()
             with switch, self:
                 for start, end, text in changes:
                     self[start:end] = text
-- 
2.43.0


From 7e8917cc8c1a7f027a190568217d86bb698b0a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:10 +0000
Subject: [PATCH 012/103] fix: undo or redo of a step that leaves the text the
 same lost the step

A step of which the changes together restore the same text was not stored on
the opposite stack when it was undone or redone.
---
 parce/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/document.py b/parce/document.py
index 100e178..c4f0d1f 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -378,7 +378,7 @@ class Document(AbstractDocument, mutablestring.MutableString, util.Observable):
                 changes, modified = stack.pop()
             with switch, self:
                 for start, end, text in changes:
-                    self[start:end] = text
+                    self._changes[start].append((end, text))
             self.modified = modified
 
     @contextlib.contextmanager
-- 
2.43.0


From 8a0507363e87868e02596ced78cd35bcfa5dd008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:39 +0000
Subject: [PATCH 013/103] fix: cursors got wrong positions when several changes
 were applied together

The changes all refer to the original text, but the positions of the cursors
were already adjusted for the earlier changes; and some cursors were skipped.
---
 parce/document.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/parce/document.py b/parce/document.py
index c4f0d1f..1daf3ac 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -81,23 +81,24 @@ class AbstractDocument(mutablestring.AbstractMutableString):
 
     def _update_cursors(self, changes):
         """Update the positions of the cursors."""
-        i = 0
-        cursors = sorted(self._cursors, key = lambda c: c.pos)
+        offset = 0      # the changes refer to the original text
+        cursors = list(self._cursors)
         for start, end, text in changes:
-            for c in cursors[i:]:
-                ahead = c.pos > start
-                if ahead:
+            start += offset
+            end += offset
+            diff = start + len(text) - end
+            for c in cursors:
+                if c.pos > start:
                     if end >= c.pos:
                         c.pos = start
                     else:
-                        c.pos += start + len(text) - end
+                        c.pos += diff
                 if c.end is not None and c.end >= start:
                     if end >= c.end:
                         c.end = start + len(text)
                     else:
-                        c.end += start + len(text) - end
-                elif not ahead:
-                    i += 1  # don't consider this cursor any more
+                        c.end += diff
+            offset += diff
 
     def _update_text(self, changes):
         """Apply the changes to the text, reimplemented here to also update the Cursor positions."""
-- 
2.43.0


From 49540ea1292ffb021fb044787ba04bb3cf360e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:43 +0000
Subject: [PATCH 014/103] fix: Document.replace() with an empty search string
 never ended

Like str.replace(), it now inserts the new text at every position.
---
 parce/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/document.py b/parce/document.py
index 1daf3ac..2ba410c 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -223,7 +223,7 @@ class AbstractDocument(mutablestring.AbstractMutableString):
             pos = text.find(old)
             while pos >= 0:
                 self[start+pos:start+pos+length] = new
-                pos = text.find(old, pos + length)
+                pos = text.find(old, pos + (length or 1))
                 count -= 1
                 if count == 0:
                     break
-- 
2.43.0


From d770ea57c01d28f3968f266bbaf49d4d49e030de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:20 +0000
Subject: [PATCH 015/103] fix: updating a transformed tree crashed on contexts
 without transform method

invalidate_node() expected a result in the cache for every context, but there
is none when a context has no transform method or was not transformed yet.
---
 parce/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/transform.py b/parce/transform.py
index 1f4ba34..be9d4de 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -397,7 +397,7 @@ class Transformer(util.Observable):
 
         """
         while node.parent:
-            del self._cache[node]
+            self._cache.pop(node, None)
             node = node.parent
 
     def connect_treebuilder(self, builder):
-- 
2.43.0


From f88a9cfc428ab0dee1673ea70e042ca3c1370952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:05 +0000
Subject: [PATCH 016/103] fix: transform_text() was wrong for untransformed
 contexts

The first token(s) of an untransformed context got lost, leaving it also left
its parent context, and a text ending in such a context raised an IndexError.
---
 parce/transform.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parce/transform.py b/parce/transform.py
index be9d4de..c236bdb 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -214,22 +214,23 @@ class Transformer(util.Observable):
             if pop or push:
                 return Target(pop, push)
 
-        def build_tree(lexicons, events):
+        def build_tree(lexicons, lexemes, events):
             """Build a tree in case missing lexicons need to be handled.
 
-            Returns the tree and the next event (if any), with adapted pop
-            value.
+            The lexemes belong to the last of the lexicons. Returns the tree
+            and the next event (if any), with adapted pop value.
 
             """
             tree = context = Context(lexicons[0], None)
             for lexicon in lexicons[1:]:
                 context = Context(lexicon, context)
                 context.parent.append(context)
+            context.extend(make_tokens(lexemes, context))
             for target, lexemes in events:
                 if target:
                     for pop in range(target.pop, 0):
                         if context is tree:
-                            return tree, Event(make_target(pop, target.push), lexemes)
+                            return tree, Event(make_target(pop + 1, target.push), lexemes)
                         context = context.parent
                     for lexicon in target.push:
                         context = Context(lexicon, context)
@@ -280,7 +281,7 @@ class Transformer(util.Observable):
                             lexicon = l
                         else:
                             if add_untransformed:
-                                context, event = build_tree(target.push[i:], events)
+                                context, event = build_tree(target.push[i:], lexemes, events)
                                 items.append(Item("<untransformed>", context))
                             else:
                                 event = consume_events(target.push[i:], events)
@@ -288,7 +289,8 @@ class Transformer(util.Observable):
                             break
                     else:
                         break
-                items.extend(make_tokens(lexemes))
+                if lexemes:
+                    items.extend(make_tokens(lexemes))
 
             # unwind
             while stack:
-- 
2.43.0


From 2436a21c326fed38980624ca1e505565c245e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:09 +0000
Subject: [PATCH 017/103] fix: callbacks connecting, disconnecting or emitting
 again during an event were handled wrongly

---
 parce/util.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 3c26eca..a949c8e 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -330,8 +330,6 @@ class Observable:
             slots.remove(observer)
         except ValueError:
             return
-        if not slots:
-            del self._callbacks[event]
 
     def disconnect_all(self, event=None):
         """Disconnect all functions (from the event).
@@ -340,10 +338,11 @@ class Observable:
 
         """
         if event is None:
-            self._callbacks.clear()
+            for slots in self._callbacks.values():
+                slots.clear()
         else:
             try:
-                del self._callbacks[event]
+                self._callbacks[event].clear()
             except KeyError:
                 pass
 
@@ -354,7 +353,7 @@ class Observable:
         be optimized because we know nobody needs the events.
 
         """
-        return event in self._callbacks
+        return bool(self._callbacks.get(event))
 
     def is_connected(self, event, func):
         """Return True if func is connected to event."""
@@ -378,20 +377,18 @@ class Observable:
             slots = self._callbacks[event]
         except KeyError:
             return s
-        disconnect = []
-        for i, observer in enumerate(slots):
-            result = observer.call(self, *args, **kwargs)
-            try:
-                s.enter_context(result)
-            except Exception:
-                pass
-            if observer.once:
-                disconnect.append(i)
-        if disconnect:
-            for i in reversed(disconnect):
-                del slots[i]
-            if not slots:
-                del self._callbacks[event]
+        # callbacks may connect or disconnect, and may emit the event again
+        for observer in slots[:]:
+            if observer in slots:
+                if observer.once:
+                    slots.remove(observer)
+                result = observer.call(self, *args, **kwargs)
+                try:
+                    s.enter_context(result)
+                except Exception:
+                    pass
+                if observer.once and observer in slots:
+                    slots.remove(observer)  # method does not exist anymore
         return s
 
 
-- 
2.43.0


From 478924f2903d54f46f1cd8efea41960b4e1e17a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:00 +0000
Subject: [PATCH 018/103] fix: updates during the transform stage could give
 outdated trees and results

A second process could run next to the transform stage of the first one,
which then marked the outdated tree and result as up to date, or failed.
Now a running process also handles changes and a transformer switch that come
in later. Results cached by an earlier used transformer are also invalidated.
---
 parce/work.py | 159 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 108 insertions(+), 51 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index cb2be97..13a8605 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -96,7 +96,9 @@ class Worker(util.Observable):
         self._transformer = transformer
 
         self._condition = threading.Condition()
-        self._transform_lock = threading.Lock() # prevent setting Transformer without noticing
+        self._running = 0           # number of (nested) processes running
+        self._event_thread = None   # thread that is emitting finished events
+        self._transformers = weakref.WeakSet()
         self._tree_state = IDLE
         self._transform_state = IDLE
 
@@ -118,10 +120,12 @@ class Worker(util.Observable):
 
         """
         if transformer is not self._transformer:
-            with self._transform_lock:
+            with self._condition:
                 self._transformer = transformer
-                with self._condition:
-                    start = self._transform_state & REPLACE == 0
+                if transformer:
+                    self._transform_state = BUILD
+                # a running process notices the new transformer
+                start = not self._running or self._in_event()
             if start:
                 self.start()
 
@@ -139,22 +143,39 @@ class Worker(util.Observable):
 
         """
         self._builder.add_changes(text, root_lexicon, start, removed, added)
-        if not self._builder.busy:
-            self._builder.busy = True
-            self.start()
+        self.start()
 
     def start(self):
         """Start the update process.
 
-        Sets the initial state and then calls :meth:`run_process`. This method
-        should always be called from the main thread.
+        Sets the initial state and then calls :meth:`run_process`. If a process
+        is already running, that process will also handle the new changes. This
+        method should always be called from the main thread.
 
         """
         with self._condition:
             self._tree_state = BUILD
-            if self._transformer and self._transform_state == IDLE:
+            if self._transformer:
                 self._transform_state = BUILD
-        self.run_process()
+            nested = self._in_event()
+            if self._running and not nested:
+                if self._transformer:
+                    self._transformer.interrupt(self._builder.root)
+                return
+            self._running += 1
+        if nested:
+            Worker.run_process(self)
+        else:
+            self.run_process()
+
+    def _in_event(self):
+        """Return True if called by a handler of an event emitted when finished.
+
+        The process that emits the event can't continue then, so the work needs
+        to be done here and now.
+
+        """
+        return self._event_thread == threading.get_ident()
 
     def run_process(self):
         """Exhaust the :meth:`process` generator.
@@ -172,46 +193,72 @@ class Worker(util.Observable):
     def process(self):
         """Generator performing the actual process, exhausted by :meth:`run_process`."""
         c = self._condition
+        outer, self._event_thread = self._event_thread, None
 
         try:
-            ## run the treebuilder
-            self.start_build()
-            for stage in self._builder.process():
-                yield "tree_" + stage
-                state = _STATES.get(stage)
-                if state:
+            while True:
+                ## run the treebuilder
+                if self._tree_state & REPLACE or self._builder.changes:
+                    self._builder.busy = True
+                    self.start_build()
+                    for stage in self._builder.process():
+                        yield "tree_" + stage
+                        state = _STATES.get(stage)
+                        if state:
+                            with c:
+                                if state == DONE:
+                                    self._event_thread = threading.get_ident()
+                                    if self._builder.changes:
+                                        state = BUILD   # changes came in lately
+                                self._tree_state = state
+                    self.finish_build()
                     with c:
-                        self._tree_state = state
-            self.finish_build()
-            with c:
-                self._tree_state = IDLE
-                c.notify_all()
-
-            ## run the transformer
-            self._transform_lock.acquire()
-            t, old = self._transformer, None
-            if t:
-                while t and t is not old:
-                    self._transform_lock.release()
+                        self._event_thread = None
+                        if self._tree_state == DONE:
+                            self._tree_state = IDLE
+                            c.notify_all()
+
+                ## run the transformer
+                t = self._transformer
+                if t and self._transform_state & REPLACE and not self._builder.changes:
+                    with c:
+                        self._transformers.add(t)
                     for stage in t.process(self._builder.root):
                         yield "transform_" + stage
                         state = _STATES.get(stage)
                         if state is not None:
                             with c:
+                                if state == DONE:
+                                    self._event_thread = threading.get_ident()
+                                    if self._tree_state & REPLACE or t is not self._transformer:
+                                        state = BUILD   # transform again
                                 self._transform_state = state
-                    self._transform_lock.acquire()
-                    # if the transformer was replaced while running, start again
-                    t, old = self._transformer, t
-                self._transform_lock.release()
-                self.finish_transform()
-            else:
-                self._transform_lock.release()
-
-        finally:
+                    if self._transform_state == DONE:
+                        self.finish_transform()
+                    with c:
+                        self._event_thread = None
+                        if self._transform_state == DONE:
+                            self._transform_state = IDLE
+
+                ## run again if there were changes in the meantime
+                with c:
+                    if not self._transformer:
+                        self._transform_state = IDLE
+                    if not (self._tree_state | self._transform_state) & REPLACE:
+                        self._running -= 1
+                        self._event_thread = outer
+                        c.notify_all()
+                        return
+
+        except BaseException:
             with c:
+                self._running -= 1
+                self._builder.busy = False
+                self._event_thread = outer
                 self._tree_state = IDLE
                 self._transform_state = IDLE
                 c.notify_all()
+            raise
 
     def wait_build(self):
         """Wait for the build job to be completed.
@@ -221,7 +268,7 @@ class Worker(util.Observable):
         """
         with self._condition:
             while self._tree_state & REPLACE:
-                self._condition.wait()
+                self._wait()
 
     def wait_transform(self):
         """Wait for the transform job to be completed.
@@ -231,7 +278,15 @@ class Worker(util.Observable):
         """
         with self._condition:
             while self._transform_state & REPLACE:
-                self._condition.wait()
+                self._wait()
+
+    def _wait(self):
+        """Wait for a state change, called with the condition acquired."""
+        if self._in_event():
+            self._running += 1
+            Worker.run_process(self)
+        else:
+            self._condition.wait()
 
     def get_root(self, wait=False, callback=None):
         """Return the root element of the completed tree.
@@ -276,24 +331,26 @@ class Worker(util.Observable):
         If no Transformer was set, None is returned always.
 
         """
-        if self._transformer:
-            with self._condition:
-                if self._transform_state & REPLACE:
-                    if callback:
-                        self.connect("transform_finished", callback, True, True)
-                    if not wait:
-                        return
-                    self.wait_transform()
+        with self._condition:
+            if self._transformer and self._transform_state & REPLACE:
+                if callback:
+                    self.connect("transform_finished", callback, True, True)
+                if not wait:
+                    return
+                self.wait_transform()
+            if self._transformer:
                 return self._transformer.result(self._builder.root)
 
     def slot_invalidate(self, context):
         """Called when TreeBuilder emits ``("invalidate", context)``.
 
-        Clears the node and its parents from the transform cache.
+        Clears the node and its parents from the transform cache, also of
+        other transformers that were used before.
 
         """
-        if self._transformer:
-            self._transformer.invalidate_node(context)
+        with self._condition:
+            for transformer in self._transformers:
+                transformer.invalidate_node(context)
 
     def slot_replace(self):
         """Called when TreeBuilder emits ``"replace"``.
-- 
2.43.0


From 2bb41700cc54ecf6456624dca68223a22ae72da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:02 +0000
Subject: [PATCH 019/103] fix: Document with own Worker but without root
 lexicon ignored text and transformer

---
 parce/work.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index 13a8605..3251a2a 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -418,14 +418,15 @@ class WorkerDocumentMixin:
         if worker is None:
             from .treebuilder import TreeBuilder
             worker = BackgroundWorker(TreeBuilder(root_lexicon), transformer)
-        elif root_lexicon:
+        else:
             root = worker.builder().root
             root.clear()
-            root.lexicon = root_lexicon
+            if root_lexicon:
+                root.lexicon = root_lexicon
             if transformer:
                 worker.set_transformer(transformer)
         self._worker = worker
-        if text and root_lexicon:
+        if text and self.root_lexicon():
             worker.update(text)
 
     def worker(self):
-- 
2.43.0


From 6e2fdf5f98daed40b9f8f494b9fb14de7812c0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:04 +0000
Subject: [PATCH 020/103] fix: Document.token() did not return the last token
 at the end of the text

---
 parce/work.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index 3251a2a..7deecc7 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -532,17 +532,17 @@ class WorkerDocumentMixin:
         different block. Returns None if there are no tokens in the block.
 
         """
-        token = self.get_root(True).find_token(pos)
-        if token:
-            if token.pos <= pos:
-                return token
-            # token is to the right, see if left token touches pos
-            left_token = token.previous_token()
-            if left_token and left_token.end == pos:
-                return left_token
-            # see if token (to the right) is on the same line
-            if self.block_separator not in self[pos:token.pos]:
-                return token
+        root = self.get_root(True)
+        token = root.find_token(pos)
+        if token and token.pos <= pos:
+            return token
+        # token is to the right (if any), see if left token touches pos
+        left_token = token.previous_token() if token else root.last_token()
+        if left_token and left_token.end == pos:
+            return left_token
+        # see if token (to the right) is on the same line
+        if token and self.block_separator not in self[pos:token.pos]:
+            return token
 
     def _callback_to_self(self, callback):
         """Return a callable that calls callback with self as first argument.
-- 
2.43.0


From e51e2a94822060ad86a63ebec9073f661c9572f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:02 +0000
Subject: [PATCH 021/103] fix: a callback connecting itself again for one more
 time was disconnected

---
 parce/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index a949c8e..cff716e 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -387,8 +387,9 @@ class Observable:
                     s.enter_context(result)
                 except Exception:
                     pass
-                if observer.once and observer in slots:
-                    slots.remove(observer)  # method does not exist anymore
+                if observer.once:
+                    # if still there, the method does not exist anymore
+                    slots[:] = [o for o in slots if o is not observer]
         return s
 
 
-- 
2.43.0


From b59b1864f76053fc92f7cb28dab90adfda7242ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:05 +0000
Subject: [PATCH 022/103] fix: get_root and get_transform callbacks were not
 called when the document is empty

---
 parce/work.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/work.py b/parce/work.py
index 7deecc7..6cb126a 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -554,7 +554,7 @@ class WorkerDocumentMixin:
         selfref = weakref.ref(self)
         def cb(worker):
             self = selfref()
-            if self:
+            if self is not None:
                 callback(self)
         return cb
 
-- 
2.43.0


From 77bb4b57345519fe5c5d73ac71608dbeb7ca4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:38 +0000
Subject: [PATCH 023/103] fix: Node.delete() removed the wrong ancestor when
 contexts became empty

---
 parce/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/tree.py b/parce/tree.py
index 528e344..2c3b776 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -312,7 +312,8 @@ class Node:
         Returns the first non-empty ancestor.
 
         """
-        for parent, index in self.ancestors_with_index():
+        # compute all indices beforehand, an emptied context looses its position
+        for parent, index in tuple(self.ancestors_with_index()):
             del parent[index]
             if len(parent):
                 return parent
-- 
2.43.0


From 460bef51886e27fe60a999918ee65efde490ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:12 +0000
Subject: [PATCH 024/103] fix: Range.from_tree() yielded tokens outside a range
 without tokens

---
 parce/tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/tree.py b/parce/tree.py
index 2c3b776..2dd5130 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -986,7 +986,8 @@ class Range:
         tree). If start is 0 and end is None, the range encompasses the full
         tree.
 
-        Returns None if the tree is empty.
+        Returns None if the tree is empty, or if there are no tokens in the
+        range from start to end.
 
         """
         if not tree:
@@ -1005,6 +1006,8 @@ class Range:
             if not start_trail:
                 return
             if end_trail:
+                if start_trail > end_trail:
+                    return # there are no tokens between start and end
                 # find the youngest common ancestor
                 for n, (i, j) in enumerate(zip(start_trail, end_trail)):
                     if i != j or context[i].is_token:
-- 
2.43.0


From bdca5750a833537df4e1aebf1063da3f1beeeaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 025/103] fix: format_ranges() repeated or missed tokens when
 following the language in a part of a tree

---
 parce/formatter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parce/formatter.py b/parce/formatter.py
index ddbb4a4..ce073dc 100644
--- a/parce/formatter.py
+++ b/parce/formatter.py
@@ -209,7 +209,7 @@ class AbstractFormatter:
                         for i in range(i, len(n)):
                             m = n[i]
                             if m.is_context:
-                                stack.append(i)
+                                stack.append((n, i))
                                 i = 0
                                 n = m
                                 check_lang(n.lexicon.language)
@@ -217,9 +217,9 @@ class AbstractFormatter:
                             yield m
                         else:
                             if stack:
-                                n = n.parent
-                                check_lang(n.lexicon.language)
-                                i = stack.pop() + 1
+                                check_lang(n.parent.lexicon.language)
+                                n, i = stack.pop() # n may be the slice we started with
+                                i += 1
                             else:
                                 break
 
-- 
2.43.0


From 76b04978f6664fa9664069d475d16cce38abe7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 026/103] fix: quoted strings in a style sheet raised an error

---
 parce/css.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 3d1a061..faa606e 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1198,11 +1198,12 @@ class CssTransform(Transform):
         Called by :meth:`sqstring` and :meth:`dqstring`.
 
         """
-        for i in items.tokens():
-            if i.action is String:
-                yield i.text
-            elif i.action is a.String.Escape:
-                yield self.get_escape(i.text)
+        for i in items:
+            if i.is_token:
+                if i.action is a.String:
+                    yield i.text
+                elif i.action is a.String.Escape:
+                    yield self.get_escape(i.text)
 
     def get_ident_token(self, items):
         """Return a two-tuple(name, action).
-- 
2.43.0


From bd77327d8f571234aba55535272ed8aa9185dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 027/103] fix: CSS escapes that do not denote a valid character
 raised an error or gave a wrong character

---
 parce/css.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index faa606e..18f68ab 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1186,10 +1186,11 @@ class CssTransform(Transform):
         value = text[1:]
         if value == '\n':
             return ''
-        try:
-            codepoint = int(value, 16)
-        except ValueError:
+        if not re.match(r'[0-9A-Fa-f]', value):
             return value
+        codepoint = int(value, 16)
+        if codepoint == 0 or codepoint > 0x10FFFF or 0xD800 <= codepoint <= 0xDFFF:
+            return '\uFFFD'
         return chr(codepoint)
 
     def get_string(self, items):
-- 
2.43.0


From 068a2852d44f8eefb6f501134492c89e67e89b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 028/103] fix: CSS rgb() and rgba() ignored zeros and did not
 yield integers with percentages

---
 parce/css.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 18f68ab..1e78265 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1280,13 +1280,13 @@ class CssTransform(Transform):
 
     def get_rgba_color(self, func_args):
         """Convert the arguments to a rgba(1 2 3 4) call to a Color."""
-        values = (v for v in func_args if isinstance(v, Value) and v.number)
+        values = (v for v in func_args if isinstance(v, Value) and v.number is not None)
         r = next(values, -1)
-        if r != -1: r = self.get_number_value(r, 255)
+        if r != -1: r = round(self.get_number_value(r, 255))
         g = next(values, -1)
-        if g != -1: g = self.get_number_value(g, 255)
+        if g != -1: g = round(self.get_number_value(g, 255))
         b = next(values, -1)
-        if b != -1: b = self.get_number_value(b, 255)
+        if b != -1: b = round(self.get_number_value(b, 255))
         a = next(values, 1.0)
         if a != 1.0: a = self.get_number_value(a, 1.0)
         return Color(r, g, b, a)
@@ -1301,7 +1301,7 @@ class CssTransform(Transform):
         """
         n = value.number
         if value.unit == "%":
-            n = n * maximum // 100
+            n = n * maximum / 100
         if n < 0: n = 0
         if n > maximum: n = maximum
         return n
-- 
2.43.0


From a84477409bfcefda29ae9f06ab63f057c75f3834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 029/103] fix: the CSS color transparent was not recognized as
 a color

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 1e78265..edb82c4 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1081,7 +1081,7 @@ class CssTransform(Transform):
             funcargs = items[-1].obj
             return self.get_css_function_call(text, funcargs)
         from .lang.css_words import CSS3_NAMED_COLORS
-        if action is a.Literal.Color or text in CSS3_NAMED_COLORS:
+        if text == "transparent" or text in CSS3_NAMED_COLORS:
             color = self.get_named_color(text)
             return Value(color=color, text=text)
         return Value(text=text)
-- 
2.43.0


From 27f67c85b95d19ced3f89328a95f06e002ab17c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 030/103] fix: whitespace in an unquoted CSS url() was included
 in the url

---
 parce/css.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index edb82c4..b599d2b 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1095,16 +1095,17 @@ class CssTransform(Transform):
 
     def url_function(self, items):
         """Return a Value with the url."""
-        def gen():
-            for i in items:
-                if i.is_token:
-                    if i.action is a.Escape:
-                        yield self.get_escape(i.text)
-                    elif i.action is a.Literal.Url:
-                        yield i.text
-                elif i.name in ('dqstring', 'sqstring'):
-                    yield i.obj
-        return Value(url=''.join(gen()))
+        url = []
+        for i in items:
+            if i.is_token:
+                if i.action is a.Escape:
+                    url.append(self.get_escape(i.text))
+                elif i.action is a.Literal.Url:
+                    # unescaped whitespace is not part of the url
+                    url.append(''.join(i.text.split()))
+            elif i.name in ('dqstring', 'sqstring'):
+                url.append(i.obj)
+        return Value(url=''.join(url))
 
     def dqstring(self, items):
         """Return the contents of a double-quoted string."""
-- 
2.43.0


From 6b837dac1ee6c20ebbb08c538f02b7fc38611eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 031/103] fix: a CSS rule following a @media, @supports or
 @document rule was lost

---
 parce/lang/css.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index 66708ff..d700620 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -211,6 +211,7 @@ class Css(Language):
     def atrule_nested(cls):
         """An atrule that has nested toplevel contents (@media, etc.)"""
         yield r"\{", Bracket, cls.atrule_nested_block
+        yield r";", Delimiter, -2  # also leave the atrule context
         yield from cls.atrule_common()
 
     @lexicon
@@ -228,7 +229,7 @@ class Css(Language):
     @lexicon
     def atrule_nested_block(cls):
         """A ``{`` ``}`` block from @media, @document or @supports."""
-        yield r"\}", Bracket, -2  # immediately leave the atrule_nested context
+        yield r"\}", Bracket, -3  # immediately leave the atrule_nested and atrule context
         yield from cls.toplevel()
 
     @classmethod
-- 
2.43.0


From fad7a8c2ef88b7b80fbd6ca678abcd672b232d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 032/103] fix: a CSS number with an exponent without sign was
 not recognized

---
 parce/lang/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index d700620..3613097 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -46,7 +46,7 @@ RE_CSS_ESCAPE = r"\\(?:[0-9A-Fa-f]{1,6} ?|.)"
 RE_CSS_NUMBER = (
     r"[+-]?"               # sign
     r"(?:\d*\.)?\d+"       # mantisse
-    r"(?:[Ee][+-]\d+)?")   # exponent
+    r"(?:[Ee][+-]?\d+)?")  # exponent
 # match either 8, 6, 4 or 3 hex digits
 RE_HEX_COLOR = r"#[0-9a-fA-F]{3}(?:[0-9a-fA-F]{5}|[0-9a-fA-F]{3}|[0-9a-fA-F]?)"
 
-- 
2.43.0


From 25ca7faf4802dc669b800b9757f888753c11d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 033/103] fix: CSS selectors with multiple combinators did not
 match when the nearest candidate did not match further

---
 parce/css.py | 61 ++++++++++++++++++++--------------------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index b599d2b..6cfcc85 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -562,46 +562,31 @@ class AbstractElement:
 
     def match_selectors(self, selectors):
         """Match with a list of selectors with operators in between."""
-        selectors = iter(reversed(selectors))
-        sel = next(selectors, None)
-        if not sel or not self.match_selector(sel):
+        if not selectors or not self.match_selector(selectors[-1]):
             return False
-        element = self
-        operator = next(selectors, None)
-        sel = next(selectors, None)
-        while operator and sel:
-            if operator == ">":
-                # parent should match
+        if len(selectors) < 3:
+            return True
+        operator = selectors[-2]
+        selectors = selectors[:-2]
+        if operator == ">":
+            # parent should match
+            element = self.get_parent()
+            return element is not None and element.match_selectors(selectors)
+        elif operator == " ":
+            # an ancestor should match
+            element = self.get_parent()
+            while element is not None:
+                if element.match_selectors(selectors):
+                    return True
                 element = element.get_parent()
-                if element is None or not element.match_selector(sel):
-                    return False
-            elif operator == " ":
-                # an ancestor should match
-                element = element.get_parent()
-                while element is not None:
-                    if element.match_selector(sel):
-                        break
-                    element = element.get_parent()
-                else:
-                    return False
-            elif operator == "+":
-                # immediate sibling should match
-                for element in element.previous_siblings():
-                    if element.match_selector(sel):
-                        break
-                    return False
-                else:
-                    return False
-            else: # operator == "~":
-                # a sibling should match
-                for element in element.previous_siblings():
-                    if element.match_selector(sel):
-                        break
-                else:
-                    return False
-            operator = next(selectors, None)
-            sel = next(selectors, None)
-        return True
+            return False
+        elif operator == "+":
+            # immediate sibling should match
+            element = self.previous_sibling()
+            return element is not None and element.match_selectors(selectors)
+        else: # operator == "~":
+            # a sibling should match
+            return any(e.match_selectors(selectors) for e in self.previous_siblings())
 
     def match_selector(self, selector):
         """Match with a single CSS selector dictionary.
-- 
2.43.0


From 73303ded0f498a13378b83640589251d0d712d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 034/103] fix: CSS attribute selectors with an empty value
 matched any value

---
 parce/css.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 6cfcc85..935c4b6 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -611,7 +611,7 @@ class AbstractElement:
                 value = attributes[attrname]
             except KeyError:
                 return False
-            if operator and text:
+            if operator and text is not None:
                 if flag in ('i', 'I'):
                     text = text.lower()
                     value = value.lower()
@@ -625,13 +625,13 @@ class AbstractElement:
                     if text != value and not value.startswith(text + "-"):
                         return False
                 elif operator == "^=":
-                    if not value.startswith(text):
+                    if not text or not value.startswith(text):
                         return False
                 elif operator == "$=":
-                    if not value.endswith(text):
+                    if not text or not value.endswith(text):
                         return False
                 elif operator == "*=":
-                    if text not in value:
+                    if not text or text not in value:
                         return False
 
         # pseudo_class?
@@ -978,7 +978,7 @@ class CssTransform(Transform):
             elif i.name == 'attribute':
                 attr = i.obj
             elif i.name == 'ident_token':
-                if val:
+                if val is not None:
                     flag = i.obj
                 else:
                     val = i.obj
-- 
2.43.0


From b54b7182a56ca8a7ad3cf7610bf55ec870ddafe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 035/103] fix: CSS attribute selectors with whitespace before
 the attribute name were misread

---
 parce/css.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 935c4b6..ab225da 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -978,7 +978,9 @@ class CssTransform(Transform):
             elif i.name == 'attribute':
                 attr = i.obj
             elif i.name == 'ident_token':
-                if val is not None:
+                if attr is None:
+                    attr = i.obj
+                elif val is not None:
                     flag = i.obj
                 else:
                     val = i.obj
-- 
2.43.0


From 2d64fed04a6e9956627b4ca71db95c5c84092ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 036/103] fix: the important flag of CSS properties was ignored
 in the most specific rule or an earlier declaration

---
 parce/css.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index ab225da..3fdd9aa 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -403,11 +403,10 @@ class Style:
                 if value[-1] == '!important':
                     value = value[:-1]
                     important = True
-                if key not in result:
+                if key not in result or (important and key not in important_properties):
                     result[key] = value
-                elif important and key not in important_properties:
-                    result[key] = value
-                    important_properties.add(key)
+                    if important:
+                        important_properties.add(key)
         return result
 
 
@@ -919,7 +918,8 @@ class CssTransform(Transform):
         for name, obj in items.items():
             if obj and name == "declaration":
                 prop, values = obj
-                d[prop] = values
+                if '!important' in values[-1:] or '!important' not in d.get(prop, ())[-1:]:
+                    d[prop] = values
         return d
 
     def declaration(self, items):
-- 
2.43.0


From 9b0520a26348048e475343bccac6cc81f526ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 037/103] fix: empty CSS declarations, and commas in them,
 raised an error

---
 parce/css.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 3fdd9aa..06a1a7e 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -399,10 +399,10 @@ class Style:
         important_properties = set()
         for rule in self.rules:
             for key, value in rule.properties.items():
-                important = False
-                if value[-1] == '!important':
-                    value = value[:-1]
-                    important = True
+                important = value[-1:] == ['!important']
+                value = [v for v in value if isinstance(v, Value)]
+                if not value:
+                    continue
                 if key not in result or (important and key not in important_properties):
                     result[key] = value
                     if important:
-- 
2.43.0


From a6c1a97c15342bc09d81b342b243794e8fa496dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 038/103] fix: calculate_specificity() raised an error for a
 CSS rule without selectors

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 06a1a7e..e9a6278 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1370,7 +1370,7 @@ def calculate_specificity(prelude):
                 clss += total('attribute_selector', 'class_selector', 'pseudo_class')
                 elts += total('element_selector', 'pseudo_element')
         specificities.append((ids, clss, elts))
-    return max(specificities)
+    return max(specificities, default=(0, 0, 0))
 
 
 def color2hex(color):
-- 
2.43.0


From e3d9385e6ce8bce82f0588dc68e554bbd313493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:25 +0000
Subject: [PATCH 039/103] fix: a CSS @import rule raised an error, and nested
 imports were not found

---
 parce/css.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index e9a6278..97f7e82 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -222,9 +222,7 @@ class StyleSheet:
         ``allow_import`` is False, the @import atrule is ignored.
 
         """
-        filenames = {filename}
-
-        def get_import_rules(values):
+        def get_import_rules(values, filename, filenames, imported):
             """Yield rules from an @import at-rule.
 
             If the @import rule has a media query after the filename/url,
@@ -232,9 +230,9 @@ class StyleSheet:
 
             """
             for n, v in enumerate(values):
-                if isinstance(v, Value) and v.text or v.url:
+                if isinstance(v, Value) and (v.text or v.url):
                     fname = v.text or v.url
-                    fname = os.path.join(os.path.dirname(filename), fname)
+                    fname = os.path.normpath(os.path.join(os.path.dirname(filename), fname))
                     # avoid circular @import references
                     if fname not in filenames:
                         filenames.add(fname)
@@ -242,14 +240,14 @@ class StyleSheet:
                         values = values[n+1:]
                         if values:
                             # there is probably a media query after the filename
-                            s = cls.from_css(icss, fname, path, allow_import)
+                            s = get_stylesheet(icss, fname, filenames.copy())
                             yield Condition("import", values, s)
                         else:
-                            self._imported_filenames.append(fname)
-                            yield from get_rules(icss)
+                            imported.append(fname)
+                            yield from get_rules(icss, fname, filenames, imported)
                     return
 
-        def get_rules(css):
+        def get_rules(css, filename, filenames, imported):
             """Get all CSS rules from the CSS structure, either as Rule or
             as Condition.
 
@@ -264,15 +262,23 @@ class StyleSheet:
                     # @-rule
                     if rule.keyword == "import":
                         if allow_import:
-                            rules.extend(get_import_rules(rule.contents))
+                            rules.extend(get_import_rules(rule.contents, filename, filenames, imported))
                         continue
                     elif isinstance(rule.block, list):
                         # nested @-rule
-                        rule = Condition(rule.keyword, rule.contents, cls.from_css(rule.block))
+                        s = get_stylesheet(rule.block, filename, filenames)
+                        rule = Condition(rule.keyword, rule.contents, s)
                 rules.append(rule)
             return rules
 
-        return cls(get_rules(css), filename)
+        def get_stylesheet(css, filename, filenames):
+            """Return a StyleSheet, with the names of files it imported."""
+            imported = []
+            sheet = cls(get_rules(css, filename, filenames, imported), filename)
+            sheet._imported_filenames.extend(imported)
+            return sheet
+
+        return get_stylesheet(css, filename, {os.path.normpath(filename)})
 
     def __add__(self, other):
         """Create a new StyleSheet by appending the other's rules."""
-- 
2.43.0


From c7608653a5766e8d0b10d3bb5d4d0cd39686201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:25 +0000
Subject: [PATCH 040/103] fix: StyleSheet.filter_conditions() forgot the
 filenames

---
 parce/css.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 97f7e82..cb772a7 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -286,7 +286,6 @@ class StyleSheet:
         new._imported_filenames = list(set(self.filenames() + other.filenames()))
         return new
 
-    @style_query
     def filter_conditions(self, keyword, predicate):
         """Return a new StyleSheet object where conditions are filtered out.
 
@@ -308,12 +307,10 @@ class StyleSheet:
         Of course, a better parser for @media expressions could be written :-)
 
         """
-        for r in self.rules:
-            if isinstance(r, Condition) and r.keyword == keyword:
-                if predicate(r):
-                    yield r
-            else:
-                yield r
+        new = type(self)([r for r in self.rules
+            if not isinstance(r, Condition) or r.keyword != keyword or predicate(r)], self.filename)
+        new._imported_filenames = list(self._imported_filenames)
+        return new
 
     def filenames(self):
         """Return a list of filenames the currently selected rules depend on.
-- 
2.43.0


From d9f994b136d4635266adf35e6d14027bdb52ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:25 +0000
Subject: [PATCH 041/103] fix: the order of the filenames of combined style
 sheets was lost

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index cb772a7..fbeef38 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -283,7 +283,7 @@ class StyleSheet:
     def __add__(self, other):
         """Create a new StyleSheet by appending the other's rules."""
         new = type(self)(self.rules + other.rules)
-        new._imported_filenames = list(set(self.filenames() + other.filenames()))
+        new._imported_filenames = list(dict.fromkeys(self.filenames() + other.filenames()))
         return new
 
     def filter_conditions(self, keyword, predicate):
-- 
2.43.0


From 181764dd9989a116d7dbe17b2d378cdc1c230aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:25 +0000
Subject: [PATCH 042/103] fix: selecting CSS rules for a lxml element raised an
 error

---
 parce/css.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index fbeef38..d5dc49c 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -386,7 +386,6 @@ class Style:
             if element.match(rule.prelude):
                 yield rule
 
-    @style_query
     def select_lxml_element(self, element):
         """Select the rules that match with lxml.etree.Element."""
         return self.select_element(LxmlElement(element))
@@ -487,7 +486,7 @@ class AbstractElement:
         """Implement to yield our children."""
         yield from ()
 
-    def get_child_count():
+    def get_child_count(self):
         """Implement to return the number of children."""
         return 0
 
@@ -733,7 +732,9 @@ class LxmlElement(AbstractElement):
 
     def get_parent(self):
         """Return the parent Element or None."""
-        return type(self)(self.e.getparent())
+        parent = self.e.getparent()
+        if parent is not None:
+            return type(self)(parent)
 
     def get_attributes(self):
         """Return a dictionary of attributes, keys and values are str."""
-- 
2.43.0


From 24f1698de2e23cecd335b7f2f9e080c5a9e2cc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:25 +0000
Subject: [PATCH 043/103] fix: a style sheet with a malformed @charset raised
 an error

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index d5dc49c..2bd127d 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -164,7 +164,7 @@ class StyleSheet:
             encoding = m.group(1).decode('latin1') if m else "utf-8"
         try:
             text = data.decode(encoding)
-        except (LookupError, UnicodeError):
+        except (LookupError, ValueError):
             text = data.decode('utf-8', 'replace')
         return cls.load_from_text(text)
 
-- 
2.43.0


From fec52e5b249ad9d81485c4e865727461d883ec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:43 +0000
Subject: [PATCH 044/103] fix: combined style sheets listed the filenames of
 conditional imports twice

---
 parce/css.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 2bd127d..d72a696 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -283,7 +283,8 @@ class StyleSheet:
     def __add__(self, other):
         """Create a new StyleSheet by appending the other's rules."""
         new = type(self)(self.rules + other.rules)
-        new._imported_filenames = list(dict.fromkeys(self.filenames() + other.filenames()))
+        new._imported_filenames = list(dict.fromkeys(f for s in (self, other)
+            for f in (s.filename, *s._imported_filenames) if f))
         return new
 
     def filter_conditions(self, keyword, predicate):
-- 
2.43.0


From 962222ded43953f023ac9c47e83a4313305f6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:59 +0000
Subject: [PATCH 045/103] fix: color2hex() could write an alpha value that is
 one too low

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index d72a696..4a47c5f 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1383,7 +1383,7 @@ def color2hex(color):
     r, g, b, a = color
     x = "#{:06x}".format(r*65536 + g*256 + b)
     if a < 1:
-        x += format(int(a * 255), '02x')
+        x += format(round(a * 255), '02x')
     return x
 
 
-- 
2.43.0


From c48fb109eed9dda6bd238733df8d99ed106d8615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:59 +0000
Subject: [PATCH 046/103] fix: quote_if_needed() did not escape control
 characters

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 4a47c5f..92e5c5c 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1390,7 +1390,7 @@ def color2hex(color):
 def quote_if_needed(s):
     """Double-quote the string for CSS if it is not a valid ident-token."""
     if not re.fullmatch(r'[\w-]+', s):
-        s = re.sub(r'[\\"]', lambda m: escape(m.group()), s)
+        s = re.sub(r'[\\"\x00-\x1f\x7f]', lambda m: escape(m.group()), s)
         return '"' + s + '"'
     return s
 
-- 
2.43.0


From 94782d34cfc519caea1e16f48ac0cf4c90d0752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:59 +0000
Subject: [PATCH 047/103] fix: a shorthand CSS property overrode a more
 specific or later longhand in a theme

---
 parce/css.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 92e5c5c..654133c 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -395,21 +395,20 @@ class Style:
         """Return the combined properties of the current set of rules. (Endpoint.)
 
         Returns a dictionary with the properties. The value of each property
-        is a list of Value instances.
+        is a list of Value instances. The properties are ordered by
+        precedence, the property with the highest precedence comes last.
 
         """
-        result = {}
-        important_properties = set()
-        for rule in self.rules:
+        normal, important = {}, {}
+        for rule in reversed(self.rules):
             for key, value in rule.properties.items():
-                important = value[-1:] == ['!important']
+                d = important if value[-1:] == ['!important'] else normal
                 value = [v for v in value if isinstance(v, Value)]
-                if not value:
-                    continue
-                if key not in result or (important and key not in important_properties):
-                    result[key] = value
-                    if important:
-                        important_properties.add(key)
+                if value:
+                    d.pop(key, None)
+                    d[key] = value
+        result = {key: value for key, value in normal.items() if key not in important}
+        result.update(important)
         return result
 
 
@@ -924,6 +923,7 @@ class CssTransform(Transform):
             if obj and name == "declaration":
                 prop, values = obj
                 if '!important' in values[-1:] or '!important' not in d.get(prop, ())[-1:]:
+                    d.pop(prop, None)   # keep the order of the declarations
                     d[prop] = values
         return d
 
-- 
2.43.0


From 329218241b683f0a99e0c729bc6bc2d68f6943cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:59 +0000
Subject: [PATCH 048/103] fix: TextFormat could combine a font size keyword
 with a unit, or keep a slant that was overridden

---
 parce/theme.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/parce/theme.py b/parce/theme.py
index 443a077..210474e 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -293,6 +293,10 @@ class TextFormat:
         """Return a new TextFormat adding the other's properties."""
         new = type(self)({})
         new.__dict__.update(self.__dict__)
+        if 'font_size' in other.__dict__:
+            new._clear_font_size()
+        if 'font_style' in other.__dict__:
+            new._clear_font_style()
         new.__dict__.update(other.__dict__)
         return new
 
@@ -304,6 +308,16 @@ class TextFormat:
         """Return True if other has different properties."""
         return self.__dict__ != other.__dict__
 
+    def _clear_font_size(self):
+        """Remove the font size and the unit."""
+        for prop in ('font_size', 'font_size_unit'):
+            self.__dict__.pop(prop, None)
+
+    def _clear_font_style(self):
+        """Remove the font style and the slant."""
+        for prop in ('font_style', 'font_style_angle', 'font_style_angle_unit'):
+            self.__dict__.pop(prop, None)
+
     def css_properties(self):
         """Return a dict usable to write out a CSS rule with our properties."""
         return dict(itertools.chain(
@@ -442,6 +456,7 @@ class TextFormat:
             if v.text in ("xx-small", "x-small", "small", "medium",
                           "large", "x-large", "xx-large", "xxx-large",
                           "larger", "smaller"):
+                self._clear_font_size()
                 self.font_size = v.text
                 return
             elif v.number is not None:
@@ -464,9 +479,11 @@ class TextFormat:
         v = values[0]
         for n in values[1:] + [None]:
             if v.text in ("normal", "italic"):
+                self._clear_font_style()
                 self.font_style = v.text
                 return
             elif v.text == "oblique":
+                self._clear_font_style()
                 self.font_style = v.text
                 if n and n.number is not None:
                     self.font_style_angle = n.number
-- 
2.43.0


From 004e72dd1cb2a91734eec0c52c455cd77cc99f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:59 +0000
Subject: [PATCH 049/103] fix: a font-stretch percentage in a theme was written
 without percent sign

---
 parce/theme.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parce/theme.py b/parce/theme.py
index 210474e..3295d6e 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -359,8 +359,10 @@ class TextFormat:
             yield "font-style", "oblique {}{}".format(slant, unit)
         elif self.font_style:
             yield "font-style", self.font_style
-        if self.font_stretch:
-            yield "font-stretch", format(self.font_stretch)
+        if isinstance(self.font_stretch, str):
+            yield "font-stretch", self.font_stretch
+        elif self.font_stretch is not None:
+            yield "font-stretch", "{:g}%".format(self.font_stretch * 100)
         if self.font_kerning:
             yield "font-kerning", self.font_kerning
         if self.font_variant_caps:
@@ -472,7 +474,7 @@ class TextFormat:
                           "extra-expanded", "ultra-expanded"):
                 self.font_stretch = v.text
             elif v.number is not None and v.unit == "%":
-                self.font_stretch = v.number
+                self.font_stretch = v.number / 100
 
     @_dispatch("font-style")
     def read_font_style(self, values):
-- 
2.43.0


From e7badeaf3b5e3aaf40f40514ebf7227284c5ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:59 +0000
Subject: [PATCH 050/103] fix: a font size or slant of zero in a theme was not
 written

---
 parce/theme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/theme.py b/parce/theme.py
index 3295d6e..54bf02c 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -350,10 +350,10 @@ class TextFormat:
         """Yield all font-xxxx properties, if set."""
         if self.font_family:
             yield "font-family", ", ".join(map(css.quote_if_needed, self.font_family))
-        if self.font_size:
+        if self.font_size is not None:
             yield "font-size", "{}{}".format(
                 self.font_size, self.font_size_unit or "")
-        if self.font_style == "oblique" and self.font_style_angle:
+        if self.font_style == "oblique" and self.font_style_angle is not None:
             slant = self.font_style_angle
             unit = self.font_style_angle_unit or ""
             yield "font-style", "oblique {}{}".format(slant, unit)
-- 
2.43.0


From 96b3aa39665acf6f734e76246ea0f07065e8ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:59 +0000
Subject: [PATCH 051/103] fix: the font shorthand property in a theme misread a
 slant or line height

---
 parce/theme.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parce/theme.py b/parce/theme.py
index 54bf02c..70b7842 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -536,15 +536,15 @@ class TextFormat:
             elif v.text in ("bold", "lighter", "bolder"):
                 self.font_weight = v.text
             elif v.number is not None:
-                numvalues.append((v.number, v.unit))
+                if v.unit not in ("deg", "grad", "rad", "turn"):
+                    numvalues.append((v.number, v.unit))
         self.read_font_family(values)
-        # if more than one size was given, weight is the first
-        if len(numvalues) == 1:
+        # if more than one size was given, weight is the first if it has no
+        # unit; after the size the line height may follow
+        if len(numvalues) > 1 and numvalues[0][0] and not numvalues[0][1]:
+            self.font_weight = numvalues.pop(0)[0]
+        if numvalues:
             self.font_size, self.font_size_unit = numvalues[0]
-        elif len(numvalues) > 1:
-            if self.font_weight is None:
-                self.font_weight = numvalues[0][0]
-            self.font_size, self.font_size_unit = numvalues[1]
 
 
 def css_class(action):
-- 
2.43.0


From 529849db99f35034aa4042e94471caa212aadbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:26 +0000
Subject: [PATCH 052/103] fix: quote_if_needed() did not quote strings starting
 with a digit

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 654133c..1f8f276 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1389,7 +1389,7 @@ def color2hex(color):
 
 def quote_if_needed(s):
     """Double-quote the string for CSS if it is not a valid ident-token."""
-    if not re.fullmatch(r'[\w-]+', s):
+    if not re.fullmatch(r'-?[^\W\d][\w-]*|--[\w-]*', s):
         s = re.sub(r'[\\"\x00-\x1f\x7f]', lambda m: escape(m.group()), s)
         return '"' + s + '"'
     return s
-- 
2.43.0


From 4ea9bec155ff9f163c68085e0a7356bf1dbeba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:49 +0000
Subject: [PATCH 053/103] fix: full_html() did not escape the style of the pre
 tag

---
 parce/out/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/out/html.py b/parce/out/html.py
index 8cf5993..ae183e1 100644
--- a/parce/out/html.py
+++ b/parce/out/html.py
@@ -82,7 +82,7 @@ class HtmlMixin:
         """
         return FULL_HTML_TEMPLATE.format(
             charset = charset,
-            baseformat = self.baseformat() or "",
+            baseformat = attrescape(self.baseformat() or ""),
             html = self.html(cursor))
 
 
-- 
2.43.0


From 741780743172ab67aa5b1d624c7485710ccad9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:09 +0000
Subject: [PATCH 054/103] fix: a slash in a CSS property value, like in font:
 12pt/1.5 serif, ended the declaration

---
 parce/lang/css.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index 3613097..ed6fd92 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -121,6 +121,7 @@ class Css(Language):
         yield r";", Delimiter, -1
         yield r"!important\b", Keyword, -1
         yield from cls.common()
+        yield r"/", Operator
         yield r"\s+", skip  # stay here on whitespace only
         yield default_target, -1
 
-- 
2.43.0


From 0a952fea6d9312f021baae96622fa6872aa9c548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:25 +0000
Subject: [PATCH 055/103] fix: the font shorthand property in a theme read the
 font size as slant

---
 parce/theme.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parce/theme.py b/parce/theme.py
index 70b7842..127d35c 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -93,6 +93,10 @@ from . import css
 from . import util
 
 
+#: units of an angle in CSS
+ANGLE_UNITS = ("deg", "grad", "rad", "turn")
+
+
 class AbstractTheme:
     """Defines the interface of a Theme as used by a formatter."""
 
@@ -487,7 +491,7 @@ class TextFormat:
             elif v.text == "oblique":
                 self._clear_font_style()
                 self.font_style = v.text
-                if n and n.number is not None:
+                if n and n.number is not None and n.unit in ANGLE_UNITS:
                     self.font_style_angle = n.number
                     self.font_style_angle_unit = n.unit
                     return
@@ -536,7 +540,7 @@ class TextFormat:
             elif v.text in ("bold", "lighter", "bolder"):
                 self.font_weight = v.text
             elif v.number is not None:
-                if v.unit not in ("deg", "grad", "rad", "turn"):
+                if v.unit not in ANGLE_UNITS:
                     numvalues.append((v.number, v.unit))
         self.read_font_family(values)
         # if more than one size was given, weight is the first if it has no
-- 
2.43.0


From 91e730a8187cb61943be1ccac4bf3e715e2d24bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:50 +0000
Subject: [PATCH 056/103] fix: JsonTransform: do not lose the precision of
 large integers

---
 parce/lang/json.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parce/lang/json.py b/parce/lang/json.py
index f916310..d9b2cd3 100644
--- a/parce/lang/json.py
+++ b/parce/lang/json.py
@@ -110,9 +110,12 @@ class JsonTransform(Transform):
         for i in items:
             if i.is_token:
                 if i.action is Number:
-                    n = float(i.text)
-                    if n.is_integer():
-                        n = int(n)
+                    try:
+                        n = int(i.text)
+                    except ValueError:
+                        n = float(i.text)
+                        if n.is_integer():
+                            n = int(n)
                     yield n
                 elif i.action is Name.Constant:
                     yield JSON_CONSTANTS[i.text]
-- 
2.43.0


From c24f78312bcb9304da8c867d2620d3c039f294ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:50 +0000
Subject: [PATCH 057/103] fix: JsonTransform: combine escaped surrogate pairs
 to one character

---
 parce/lang/json.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parce/lang/json.py b/parce/lang/json.py
index d9b2cd3..2bca506 100644
--- a/parce/lang/json.py
+++ b/parce/lang/json.py
@@ -56,6 +56,9 @@ JSON_ESCAPE_CHARS = {
     '\\': '\\', # 0x5c Backslash character
 }
 
+_surrogate_pair_re = re.compile('[\ud800-\udbff][\udc00-\udfff]')
+
+
 class Json(Language):
     @lexicon
     def root(cls):
@@ -149,4 +152,5 @@ class JsonTransform(Transform):
                         yield JSON_ESCAPE_CHARS[t.text[1]]
                 else:
                     yield t.text
-        return ''.join(gen())
+        return _surrogate_pair_re.sub(
+            lambda m: m.group().encode('utf-16', 'surrogatepass').decode('utf-16'), ''.join(gen()))
-- 
2.43.0


From 4cc23720de9a221463f6fe2bdccadea4ff53b987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:50 +0000
Subject: [PATCH 058/103] fix: CsvTransform: do not fail on an empty string
 without closing quote

---
 parce/lang/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/csv.py b/parce/lang/csv.py
index 002ccae..3e2fbd9 100644
--- a/parce/lang/csv.py
+++ b/parce/lang/csv.py
@@ -93,7 +93,7 @@ class CsvTransform(Transform):
 
         """
         start, end = 0, len(items) - 1
-        while items[start].action in (a.Invalid, a.String.Start):
+        while start <= end and items[start].action in (a.Invalid, a.String.Start):
             start += 1
         while end >= start and items[end].action in (a.String.End, a.Invalid):
             end -= 1
-- 
2.43.0


From e628930fe4425ad60d0feef9d092a981fe48c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:50 +0000
Subject: [PATCH 059/103] fix: IniTransform: handle escapes of control
 characters; only Escape tokens are escapes

---
 parce/lang/ini.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/parce/lang/ini.py b/parce/lang/ini.py
index 392b73c..e621d22 100644
--- a/parce/lang/ini.py
+++ b/parce/lang/ini.py
@@ -35,6 +35,16 @@ from parce.action import (
 from parce.transform import Transform
 
 
+INI_ESCAPE_CHARS = {
+    '0': '\0',  # 0x00 Null
+    'a': '\a',  # 0x07 Bell
+    'b': '\b',  # 0x08 Backspace
+    't': '\t',  # 0x09 Tab
+    'r': '\r',  # 0x0d Carriage return
+    'n': '\n',  # 0x0a New line
+}
+
+
 class Ini(Language):
     @lexicon
     def root(cls):
@@ -124,18 +134,20 @@ class IniTransform(Transform):
         """Return a string, handling escaped characters, stripping spaces."""
         result = []
         if items:
-            # de-tokenize
-            items = [t.text for t in items]
-            # strip whitespace, but not from escapes
-            if not items[0].startswith('\\'):
-                items[0] = items[0].lstrip(' \t')
-            if not items[-1].startswith('\\'):
-                items[-1] = items[-1].rstrip(' \t')
             # unescape
             for t in items:
-                if t.startswith('\\'):
-                    t = chr(int(t[2:], 16)) if t[1] in ('x', 'X') else t[1]
-                result.append(t)
+                if t.action is not Escape:
+                    text = t.text
+                elif t.text[1] in ('x', 'X'):
+                    text = chr(int(t.text[2:], 16))
+                else:
+                    text = INI_ESCAPE_CHARS.get(t.text[1], t.text[1])
+                result.append(text)
+            # strip whitespace, but not from escapes
+            if items[0].action is not Escape:
+                result[0] = result[0].lstrip(' \t')
+            if items[-1].action is not Escape:
+                result[-1] = result[-1].rstrip(' \t')
         return ''.join(result)
 
     comment = None
-- 
2.43.0


From c72510374b911bace0a61191531c2ab81b190291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:32 +0000
Subject: [PATCH 060/103] fix: object_locker: keep the lock as long as other
 threads are waiting for it

---
 parce/util.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index cff716e..d8f8fc0 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -493,20 +493,22 @@ def object_locker():
     locker = {}
     locker_lock = threading.Lock()
 
+    @contextlib.contextmanager
     def lock_object(obj):
         with locker_lock:
             try:
-                return locker[obj]
+                entry = locker[obj]
             except KeyError:
-                lock = locker[obj] = threading.Lock()
-                @contextlib.contextmanager
-                def cleanup():
-                    try:
-                        with lock:
-                            yield
-                    finally:
-                        del locker[obj]
-                return cleanup()
+                entry = locker[obj] = [threading.Lock(), 0]
+            entry[1] += 1   # number of users of this lock
+        try:
+            with entry[0]:
+                yield
+        finally:
+            with locker_lock:
+                entry[1] -= 1
+                if not entry[1]:
+                    del locker[obj]
     return lock_object
 
 
-- 
2.43.0


From 419f6fac23d32f1560608ebb66292506e1e5c0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:32 +0000
Subject: [PATCH 061/103] fix: merge_adjacent: let the default factory work

---
 parce/util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index d8f8fc0..bdfe6da 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -671,17 +671,20 @@ def fix_boundaries(stream, start, end):
             yield i
 
 
-def merge_adjacent(stream, factory=tuple):
+def merge_adjacent(stream, factory=None):
     """Yield items from a stream of tuples.
 
     The first two items of each tuple are regarded as pos and end.
     If they are adjacent, and the rest of the tuples compares the same,
     the items are merged.
 
-    Instead of the default factory `tuple`, you can give a named tuple
-    or any other type to wrap the streams items in.
+    By default, tuples are yielded. You can give a ``factory``, e.g. a named
+    tuple or any other callable, to wrap the items in. It is called with pos,
+    end and the rest of the tuple as arguments.
 
     """
+    if factory is None:
+        factory = lambda *args: args
     stream = iter(stream)
     for pos, end, *rest in stream:
         for npos, nend, *nrest in stream:
-- 
2.43.0


From 4fdc2ffdba014720e62f7069bf7e005030776363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:32 +0000
Subject: [PATCH 062/103] fix: Switch: accessing it via the class reset the
 state for all instances

---
 parce/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/util.py b/parce/util.py
index bdfe6da..2a0e4b2 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -447,6 +447,8 @@ class Switch:
         return bool(self._value)
 
     def __get__(self, instance, owner):
+        if instance is None:
+            return self
         try:
             return self._value[instance]
         except TypeError:
-- 
2.43.0


From 801237c3fc5be2fc09dd97301ecfec35d3bc04a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:56 +0000
Subject: [PATCH 063/103] fix: get_bom_encoding: recognize UTF-32-LE, whose
 byte order mark starts with that of UTF-16-LE

---
 parce/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 2a0e4b2..4bd6e32 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -729,10 +729,10 @@ def get_bom_encoding(data):
     """
     for bom, encoding in (
         (codecs.BOM_UTF8, 'utf-8'),
+        (codecs.BOM_UTF32_LE, 'utf_32_le'), # starts with BOM_UTF16_LE, so try it first
+        (codecs.BOM_UTF32_BE, 'utf_32_be'),
         (codecs.BOM_UTF16_LE, 'utf_16_le'),
         (codecs.BOM_UTF16_BE, 'utf_16_be'),
-        (codecs.BOM_UTF32_LE, 'utf_32_le'),
-        (codecs.BOM_UTF32_BE, 'utf_32_be'),
             ):
         if data.startswith(bom):
             return encoding, data[len(bom):]
-- 
2.43.0


From 82c2b9728370bbaee5545c35e961fac74a978a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:56 +0000
Subject: [PATCH 064/103] fix: IO.find_encoding: recognize 'coding:' besides
 'encoding:', as documented

---
 parce/docio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/docio.py b/parce/docio.py
index ef74c6e..f8ccb7d 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -199,7 +199,7 @@ class IO:
         (en)coding: xxxx variants. Returns None if no encoding is found.
 
         """
-        m = re.search(r'\b(?:en)coding[\t ]*?(?::[ \t]*?|=[\t ]*?")([\w_-]+)', text)
+        m = re.search(r'\b(?:en)?coding[\t ]*?(?::[ \t]*?|=[\t ]*?")([\w_-]+)', text)
         if m:
             return m.group(1)
 
-- 
2.43.0


From e40f090d588e3004b31b1fbf170988e92324b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:56 +0000
Subject: [PATCH 065/103] fix: docio: ignore an encoding in a document that is
 not usable for text

---
 parce/docio.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parce/docio.py b/parce/docio.py
index f8ccb7d..4e84340 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -39,7 +39,6 @@ see if an encoding is defined there, and use that for I/O operations.
 
 """
 
-import codecs
 import collections
 import io
 import os
@@ -335,8 +334,8 @@ def _validate_encoding(encoding):
     """
     if encoding:
         try:
-            codecs.lookup(encoding)
+            ''.encode(encoding) # also fails on codecs that do not encode text
             return encoding
-        except LookupError:
+        except (LookupError, ValueError):
             pass
 
-- 
2.43.0


From 51cb6cdaaf0b2ca10b8e09876b9667c5b992d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:56 +0000
Subject: [PATCH 066/103] fix: encode_text: use the language's default encoding
 if the document specifies an unusable one, like decode_data does

---
 parce/docio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/docio.py b/parce/docio.py
index 4e84340..a4bd20d 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -317,8 +317,8 @@ def encode_text(text, root_lexicon=None, encoding=None, newline=None):
     """
     if not encoding:
         h = IO.get(root_lexicon)
-        encoding = _validate_encoding(h.find_encoding(text[:TEMP_TEXT_MAXSIZE])
-                    or h.default_encoding()) or DEFAULT_ENCODING
+        encoding = (_validate_encoding(h.find_encoding(text[:TEMP_TEXT_MAXSIZE]))
+                    or _validate_encoding(h.default_encoding()) or DEFAULT_ENCODING)
     b = io.BytesIO()
     with io.TextIOWrapper(b, encoding=encoding, newline=newline) as f:
         f.write(text)
-- 
2.43.0


From bb474a4e5e978c8f6f87dbd575e4a9191b5fc333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:18 +0000
Subject: [PATCH 067/103] fix: XmlIO, XHtmlIO: find the encoding also in
 single-quoted attribute values

---
 parce/lang/html.py | 2 +-
 parce/lang/xml.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/html.py b/parce/lang/html.py
index 7e1e94c..ff9ed69 100644
--- a/parce/lang/html.py
+++ b/parce/lang/html.py
@@ -113,7 +113,7 @@ class XHtmlIO(XmlIO):
             for attr in attrs.query.children.action(Name.Attribute):
                 a = attr.text.lower()
                 v = ""
-                for value in attr.query.right_siblings(XHtml.dqstring)[0]:
+                for value in attr.query.right_siblings(XHtml.dqstring, XHtml.sqstring)[0]:
                     v = value.text
                     break
                 if a == "charset" and v:
diff --git a/parce/lang/xml.py b/parce/lang/xml.py
index 8aaac73..e95a9a2 100644
--- a/parce/lang/xml.py
+++ b/parce/lang/xml.py
@@ -235,6 +235,6 @@ class XmlIO(docio.IO):
         tree = root(Xml.root, text)
         for enc in tree.query.children(Xml.processing_instruction) \
             .children.action(Name.Attribute)('encoding') \
-            .right_siblings(Xml.dqstring)[0]:
+            .right_siblings(Xml.dqstring, Xml.sqstring)[0]:
             return enc.text
 
-- 
2.43.0


From 0596023b1549bea3f80834050bff1f6964aed729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:01 +0000
Subject: [PATCH 068/103] fix: Registry.find: consult the fallback also when a
 registry is empty

---
 parce/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/registry.py b/parce/registry.py
index bfb7a75..1af689a 100644
--- a/parce/registry.py
+++ b/parce/registry.py
@@ -301,7 +301,7 @@ class Registry(dict):
             def lexicons(reg):
                 for qualname in reg.suggest(filename, mimetype, contents):
                     yield reg.lexicon(qualname)
-        while self:
+        while self is not None:
             for lexicon in lexicons(self):
                 return lexicon
             self = self.fallback
-- 
2.43.0


From cfc96326b9cc8f8620ff00fcad10aa3e6c269387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:29 +0000
Subject: [PATCH 069/103] =?UTF-8?q?fix:=20Fran=C3=A7ais:=20read=2070-79=20?=
 =?UTF-8?q?and=2090-99=20as=20one=20number?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 parce/lang/numbers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index 2ff9653..6e6975e 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -419,8 +419,8 @@ class Français(Numbers):
         """Numerical value below 100."""
         yield _SKIP
         tens = (cls._TENS[4], cls._TENS[6]) # soixante, quatre-vingt + 10-19
-        yield r'({})[\s-]*({})'.format(
-            words(tens), words(cls._TO19[1:10])), bygroup(Number, Number), -1
+        yield r'({})[\s-]*(?:et)?[\s-]*({})'.format(
+            words(tens), words(cls._TO19[10:])), bygroup(Number, Number), -1
         # vingt, treize, quatorze, cinquante, soixante, quatre-vingt (+ 0-9)
         tens = cls._TENS[:5] + cls._TENS[6:7]
         yield r'({})(?:[\s-]*(?:et)?[\s-]*({}))?'.format(
-- 
2.43.0


From 471083dc781e9d186a20b993f3b7d641d0bea980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:29 +0000
Subject: [PATCH 070/103] =?UTF-8?q?fix:=20Fran=C3=A7ais:=20accept=20'quatr?=
 =?UTF-8?q?e-vingts'=20before=20a=20hundred,=20thousand=20or=20million?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 parce/lang/numbers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index 6e6975e..0e6a580 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -421,12 +421,13 @@ class Français(Numbers):
         tens = (cls._TENS[4], cls._TENS[6]) # soixante, quatre-vingt + 10-19
         yield r'({})[\s-]*(?:et)?[\s-]*({})'.format(
             words(tens), words(cls._TO19[10:])), bygroup(Number, Number), -1
+        yield r'quatre-vingts\b', Number, -1
         # vingt, treize, quatorze, cinquante, soixante, quatre-vingt (+ 0-9)
         tens = cls._TENS[:5] + cls._TENS[6:7]
         yield r'({})(?:[\s-]*(?:et)?[\s-]*({}))?'.format(
             words(tens), words(cls._TO19[1:10])), bygroup(Number, Number), -1
         yield words(cls._TO19), Number, -1
-        yield words(('quatre-vingts', 'zero')), Number, -1
+        yield 'zero', Number, -1
         yield default_target, -1
 
 
-- 
2.43.0


From 08cd524a2d8b4faf9df80cb160f071e4abc85ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:29 +0000
Subject: [PATCH 071/103] fix: scheme_number: every '#' digit stands for a
 digit

---
 parce/lang/scheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/scheme.py b/parce/lang/scheme.py
index 4325e19..0a6c04f 100644
--- a/parce/lang/scheme.py
+++ b/parce/lang/scheme.py
@@ -224,7 +224,7 @@ def scheme_number(tokens):
             if t.action is mantisse_action:
                 v = int(t.text, radix)
             elif t.action is Number.Special.UnknownDigit:
-                v *= radix * len(t.text)
+                v *= radix ** len(t.text)
                 return float(v) if not exact else v
             else:
                 raise ValueError("unknown token in radix {}: {}".format(radix, repr(t.text)))
-- 
2.43.0


From 7e2d7252b9f1ff132b854a0ff08d17e98e855506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:29 +0000
Subject: [PATCH 072/103] fix: scheme_number: let the #i prefix yield an
 inexact number in any radix

---
 parce/lang/scheme.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/lang/scheme.py b/parce/lang/scheme.py
index 0a6c04f..cad58c2 100644
--- a/parce/lang/scheme.py
+++ b/parce/lang/scheme.py
@@ -301,6 +301,8 @@ def scheme_number(tokens):
             v = get_decimal10(tokens)
         else:
             v = get_uint(tokens)
+            if exact is False:
+                v = float(v)
         return sign * v
 
     def get_complex(tokens):
-- 
2.43.0


From 320cb92c89c1afe82aa6e8c5abdb2784f2e7f4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:59 +0000
Subject: [PATCH 073/103] fix: Nederlands, Deutsch: read tens like 'vijftig'
 and 'neunzig', that start with a numeral, correctly

---
 parce/lang/numbers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index 0e6a580..ad38fd5 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -307,11 +307,10 @@ class Nederlands(Numbers):
     def n99(cls):
         """Numerical value below 100."""
         yield _SKIP
-        yield words(cls._TO19[10:]), Number, -1
+        yield words(cls._TO19[10:] + cls._TENS), Number, -1
         yield r'({})(?:\s*[eë]n\s*({}))?'.format(
             words(cls._TO19[1:10]),
             words(cls._TENS)), bygroup(Number, Number), -1
-        yield words(cls._TENS), Number, -1
         yield cls._TO19[0], Number, -1
         yield default_target, -1
 
@@ -360,11 +359,11 @@ class Deutsch(Numbers):
         """Numerical value below 100."""
         yield _SKIP
         TENS = cls._TENS + ('dreissig',)
-        yield words(cls._TO19[10:]), Number, -1
+        yield words(cls._TO19[10:] + TENS), Number, -1
         yield r'({})(?:\s*und\s*({}))?'.format(
             words(cls._TO19[1:10]),
             words(TENS)), bygroup(Number, Number), -1
-        yield words(TENS + cls._TO19[:1] + ('eins',)), Number, -1
+        yield words(cls._TO19[:1] + ('eins',)), Number, -1
         yield default_target, -1
 
 
-- 
2.43.0


From 2190a8a3f94a28cc3d900b22735507dd882e7b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:53 +0000
Subject: [PATCH 074/103] fix: indent_info: the indent of a line with only
 whitespace is that whitespace

---
 parce/indent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/indent.py b/parce/indent.py
index c10dbe5..69e06f9 100644
--- a/parce/indent.py
+++ b/parce/indent.py
@@ -302,9 +302,9 @@ class AbstractIndenter:
         if info.indent is None:
             if info.allow_indent:
                 text = block.text()
-                info.indent = text[:-len(text.lstrip())]
+                info.indent = text[:len(text) - len(text.lstrip())]
             else:
-                info.indent == ""
+                info.indent = ""
         return info
 
     def indent_events(self, block, prev_indents=()):
-- 
2.43.0


From 3b38c398b8c56f82819359ffdfeb54877968ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:53 +0000
Subject: [PATCH 075/103] fix: indent: recognize blank lines, and do not let
 them change the current indent

---
 parce/indent.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parce/indent.py b/parce/indent.py
index 69e06f9..9186e5d 100644
--- a/parce/indent.py
+++ b/parce/indent.py
@@ -179,7 +179,7 @@ class AbstractIndenter:
                     if block.pos < cursor.pos:
                         # we're outside the cursor's range
                         # obey the existing indent if not a special case
-                        if info.prefer_indent is None:
+                        if info.prefer_indent is None and not info.is_blank:
                             indents[-1] = info.indent
                     else:
                         # we're inside the cursor's range; may replace the indent
@@ -213,7 +213,7 @@ class AbstractIndenter:
                 while not b.is_first():
                     b = b.previous_block()
                     info = self.indent_info(b)
-                    if info.allow_indent:
+                    if info.allow_indent and not info.is_blank:
                         if 0 <= depth < len(info.indents):
                             # we found the indent to use
                             index = len(info.indents) - depth - 1
@@ -298,10 +298,13 @@ class AbstractIndenter:
             else: # event in (BLANK, NO_INDENT, NO_STRIP):
                 info._state |= event
 
+        text = block.text()
+        if not text or text.isspace():
+            info._state |= BLANK
+
         # if no CURRENT_INDENT was yielded, just pick the first whitespace if allowed
         if info.indent is None:
             if info.allow_indent:
-                text = block.text()
                 info.indent = text[:len(text) - len(text.lstrip())]
             else:
                 info.indent = ""
-- 
2.43.0


From f8828688b251e34d250e8070ee0a7e43eb267d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:53 +0000
Subject: [PATCH 076/103] fix: auto_indent: use all indents if a line opens
 more than one level, like indent()

---
 parce/indent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/indent.py b/parce/indent.py
index 9186e5d..329b270 100644
--- a/parce/indent.py
+++ b/parce/indent.py
@@ -217,7 +217,8 @@ class AbstractIndenter:
                         if 0 <= depth < len(info.indents):
                             # we found the indent to use
                             index = len(info.indents) - depth - 1
-                            new_indent = info.indent + (info.indents[index] or self.indent_string)
+                            new_indent = info.indent + ''.join(
+                                indent or self.indent_string for indent in info.indents[:index+1])
                             break
                         depth -= len(info.indents)
                         depth += info.dedents_end
-- 
2.43.0


From 87e246bb1ef195bb9d4b00c0a2cb766054f5bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:34 +0000
Subject: [PATCH 077/103] fix: variations(): keep a rule item without
 variations, so a rule with skip is not ignored when validating

---
 parce/ruleitem.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parce/ruleitem.py b/parce/ruleitem.py
index c295554..0fe8c8d 100644
--- a/parce/ruleitem.py
+++ b/parce/ruleitem.py
@@ -570,12 +570,14 @@ def variations(rule):
     items = tuple(rule)
     for i, item in enumerate(items):
         if isinstance(item, Item):
-            prefix = items[:i]
-            for suffix in variations(items[i+1:]):
-                for v in item.variations():
-                    for l in variations(util.unroll(v)):
-                        yield prefix + l + suffix
-            break
+            choices = list(item.variations())
+            if choices:
+                prefix = items[:i]
+                for suffix in variations(items[i+1:]):
+                    for v in choices:
+                        for l in variations(util.unroll(v)):
+                            yield prefix + l + suffix
+                break
     else:
         yield items
 
-- 
2.43.0


From 88af7860decb49c0057d04157296517bd9ab9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:55 +0000
Subject: [PATCH 078/103] fix: css: a selector list has the specificity of the
 selector that matches

---
 parce/css.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 1f8f276..df78e90 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -342,7 +342,18 @@ class StyleSheet:
                 if isinstance(r, Condition):
                     yield from get_rules(r.style.rules)
                 elif isinstance(r, Rule):
-                    yield r
+                    yield from split_rule(r)
+        def split_rule(rule):
+            # "a, #b {}" is the same as "a {} #b {}", every selector has its
+            # own specificity
+            preludes = collections.defaultdict(list)
+            for selectors in rule.prelude:
+                preludes[calculate_specificity([selectors])].append(selectors)
+            if len(preludes) < 2:
+                yield rule
+            else:
+                for prelude in preludes.values():
+                    yield Rule(prelude, rule.properties)
         rules = sorted(get_rules(self.rules),
             key=lambda rule: calculate_specificity(rule.prelude))
         rules.reverse()
-- 
2.43.0


From d151b33aad4c2448d55f4fbf622940a86d0a265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:55 +0000
Subject: [PATCH 079/103] fix: css: filter_conditions() also filters nested
 conditions

---
 parce/css.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index df78e90..b119884 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -308,8 +308,14 @@ class StyleSheet:
         Of course, a better parser for @media expressions could be written :-)
 
         """
-        new = type(self)([r for r in self.rules
-            if not isinstance(r, Condition) or r.keyword != keyword or predicate(r)], self.filename)
+        rules = []
+        for r in self.rules:
+            if isinstance(r, Condition):
+                if r.keyword == keyword and not predicate(r):
+                    continue
+                r = r._replace(style=r.style.filter_conditions(keyword, predicate))
+            rules.append(r)
+        new = type(self)(rules, self.filename)
         new._imported_filenames = list(self._imported_filenames)
         return new
 
-- 
2.43.0


From 5f33679d20bd77b94f40a26d48b8aa2163019bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:31 +0000
Subject: [PATCH 080/103] fix: unroll lists in a rule when determining its
 variations

---
 parce/ruleitem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/ruleitem.py b/parce/ruleitem.py
index 0fe8c8d..f490a7c 100644
--- a/parce/ruleitem.py
+++ b/parce/ruleitem.py
@@ -554,7 +554,7 @@ def variations_tree(rule):
     zero or more tuples.
 
     """
-    items = tuple(rule)
+    items = tuple(util.unroll(tuple(rule)))
     for i, item in enumerate(items):
         if isinstance(item, Item):
             branch = [variations_tree(util.unroll(v)) for v in item.variations()]
@@ -567,7 +567,7 @@ def variations_tree(rule):
 
 def variations(rule):
     """Yield all possible variations of the rule."""
-    items = tuple(rule)
+    items = tuple(util.unroll(tuple(rule)))
     for i, item in enumerate(items):
         if isinstance(item, Item):
             choices = list(item.variations())
-- 
2.43.0


From ae1e046ab71fbfee14e54ebf0dffd6962b70ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:49 +0000
Subject: [PATCH 081/103] fix: do not take == for assignments in Python

---
 parce/lang/python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/python.py b/parce/lang/python.py
index 8c7afae..421ff63 100644
--- a/parce/lang/python.py
+++ b/parce/lang/python.py
@@ -56,7 +56,7 @@ class Python(Language):
         yield fr'(def\b){_S_}*({_I_})', bygroup(Keyword,
             ifmember(MATCH[2], python_words.keywords, Invalid, Name.Function.Definition)), cls.funcdef
         yield fr':(?={_S_}*(?:$|#))', Delimiter.Indent
-        yield fr'({_I_})\s*(=)', bygroup(
+        yield fr'({_I_})\s*(=)(?!=)', bygroup(
             select(call(str.isupper, TEXT),
                    select(call(isclassname, TEXT), Name.Variable, Name.Class),
                    Name.Constant),
@@ -114,7 +114,7 @@ class Python(Language):
 
         ## delimiters, operators
         yield r'\.\.\.', Delimiter.Special.Ellipsis
-        yield r'(?:\*\*|//|<<|>>|[-+*/%@&|^:])?=', Operator.Assignment
+        yield r'(?:\*\*|//|<<|>>|[-+*/%@&|^:])?=(?!=)', Operator.Assignment
         yield r'\*\*|//|<<|>>|[<>=!]=|[-+*/%@&|^~<>]', Operator
         yield r'[.;,:]', Delimiter
 
-- 
2.43.0


From 86da5be39393ce6d6b9461d42499b32555982354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:49 +0000
Subject: [PATCH 082/103] fix: take @ for a Python decorator only at the start
 of a line

---
 parce/lang/python.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/lang/python.py b/parce/lang/python.py
index 421ff63..aa7f084 100644
--- a/parce/lang/python.py
+++ b/parce/lang/python.py
@@ -49,8 +49,8 @@ Bytes = Data.Bytes
 class Python(Language):
     @lexicon(re_flags=re.MULTILINE)
     def root(cls):
+        yield fr'^({_S_}*)(@)', bygroup(Whitespace.Indent, Name.Decorator), cls.decorator
         yield fr'^{_S_}+($|(?=#))?', ifgroup(1, Whitespace, Whitespace.Indent)
-        yield r'@', Name.Decorator, cls.decorator
         yield fr'(class\b){_S_}*({_I_})', bygroup(Keyword,
             ifmember(MATCH[2], python_words.keywords, Invalid, Name.Class.Definition)), cls.classdef
         yield fr'(def\b){_S_}*({_I_})', bygroup(Keyword,
@@ -426,6 +426,8 @@ class PythonConsole(Python):
     def root(cls):
         yield r'(?=^Traceback \(most recent call last\):)', Literal.Error, cls.traceback
         yield RE_PYTHON_NO_PROMPT, Literal.Output
+        yield fr'(^(?:>>>|\.\.\.) )({_S_}*)(@)', \
+            bygroup(Literal.Prompt, Whitespace.Indent, Name.Decorator), cls.decorator
         yield from super().root
 
     @classmethod
-- 
2.43.0


From 010c300db847d6ebe9f86babe7400a0258b7d754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:49 +0000
Subject: [PATCH 083/103] fix: accept a dot after a quoted key and \U escapes
 in Toml

---
 parce/lang/toml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parce/lang/toml.py b/parce/lang/toml.py
index 7852009..e758291 100644
--- a/parce/lang/toml.py
+++ b/parce/lang/toml.py
@@ -142,14 +142,14 @@ class Toml(Language):
     def string_multiline_basic(cls):
         yield r'(""")([^\s,}#\]]*)', bygroup(String, Invalid), -1
         yield r'\\\s+', Whitespace
-        yield r'\\(?:["\\bfnrt]|u[0-9a-fA-F]{4})', String.Escape
+        yield r'\\(?:["\\bfnrt]|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})', String.Escape
         yield r'\\.', String.Invalid
         yield default_action, String
 
     @lexicon(re_flags=re.MULTILINE)
     def string_basic(cls):
-        yield r'(")([^\s,}#\]=]*)', bygroup(String, Invalid), -1
-        yield r'\\(?:["\\bfnrt]|u[0-9a-fA-F]{4})', String.Escape
+        yield r'(")([^\s,}#\]=.]*)', bygroup(String, Invalid), -1
+        yield r'\\(?:["\\bfnrt]|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})', String.Escape
         yield r'\\.', String.Invalid
         yield r'[^"]*?$', String.Invalid, -1
         yield default_action, String
@@ -161,7 +161,7 @@ class Toml(Language):
 
     @lexicon(re_flags=re.MULTILINE)
     def string_literal(cls):
-        yield r"(')([^\s,}#\]=]*)", bygroup(String, Invalid), -1
+        yield r"(')([^\s,}#\]=.]*)", bygroup(String, Invalid), -1
         yield r"[^']*?$", String.Invalid, -1
         yield default_action, String
 
-- 
2.43.0


From 9e0b211f443773f4d032574441ede190fa3e661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:49 +0000
Subject: [PATCH 084/103] fix: only do substitution in a quoted Tcl string

---
 parce/lang/tcl.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/parce/lang/tcl.py b/parce/lang/tcl.py
index b3fd3b1..67c6996 100644
--- a/parce/lang/tcl.py
+++ b/parce/lang/tcl.py
@@ -47,18 +47,23 @@ class Tcl(Language):
 
     @classmethod
     def values(cls):
-        yield r'\[', Delimiter, cls.command
         yield r'"', String, cls.quoted
         yield r'\{', Delimiter.Bracket, cls.braced
-        yield r'(\$(?:[0-9a-zA-Z_]|::+)+)(\()?', \
-            bygroup(Name.Variable, Delimiter), ifgroup(2, cls.index)
-        yield r'\${.*?\}', Name.Variable
-        yield r'\\(?:[0-7]{1,3}|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|\n|.)', Escape
+        yield from cls.substitution()
         yield r'^\s*(#)', bygroup(Comment), cls.comment
         yield RE_TCL_NUMBER, gselect(Number.Octal, Number.Binary, Number.Hexadecimal, Number.Decimal)
         yield r'(;)(?:[ \t]*(#))?', bygroup(Delimiter.Separator, Comment), \
             ifgroup(2, cls.comment)
 
+    @classmethod
+    def substitution(cls):
+        """Command, variable and backslash substitution."""
+        yield r'\[', Delimiter, cls.command
+        yield r'(\$(?:[0-9a-zA-Z_]|::+)+)(\()?', \
+            bygroup(Name.Variable, Delimiter), ifgroup(2, cls.index)
+        yield r'\${.*?\}', Name.Variable
+        yield r'\\(?:[0-7]{1,3}|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|\n|.)', Escape
+
     @lexicon(re_flags=re.MULTILINE)
     def root(cls):
         yield r'\A#!.*?$', Comment.Special
@@ -78,8 +83,7 @@ class Tcl(Language):
     @lexicon
     def quoted(cls):
         yield r'"', String, -1
-        yield r'\[', Delimiter, cls.command
-        yield from cls.values()
+        yield from cls.substitution()
         yield default_action, String
 
     @lexicon(re_flags=re.MULTILINE)
-- 
2.43.0


From 580f13664b791b33d019b9ef883ddd1463e31396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:49 +0000
Subject: [PATCH 085/103] fix: let a comment end directly after a URL in Xml

---
 parce/language.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/language.py b/parce/language.py
index f66fa9e..5d015a3 100644
--- a/parce/language.py
+++ b/parce/language.py
@@ -53,7 +53,7 @@ class Language(metaclass=_LanguageType):
 
         """
         yield r'\b\w+(?:[._%+-]\w+)*@\w+(?:[._-]\w+)*\b', a.Comment.Email
-        yield r'(?:(?:https?|ftp):/|\bwww\.)(?:[\w_~:/#-]+([.?=][\w_~:/#-]+)*|\([\w._~:?/#-]*\))+', a.Comment.Url
+        yield r'(?:(?:https?|ftp):/|\bwww\.)(?:(?:(?!-->)[\w_~:/#-])+([.?=](?:(?!-->)[\w_~:/#-])+)*|\([\w._~:?/#-]*\))+', a.Comment.Url
         yield r"\b(ALERT|BUG|FIXME|TEMP|TODO|XXX+)\b", a.Comment.Alert
         yield parce.default_action, a.Comment
 
-- 
2.43.0


From 425ac5c1c00c034ed6e08347c5ee784145644a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:27 +0000
Subject: [PATCH 086/103] fix: do not take a Html tag starting with the name of
 a void element for that element

---
 parce/lang/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/html.py b/parce/lang/html.py
index ff9ed69..795bb43 100644
--- a/parce/lang/html.py
+++ b/parce/lang/html.py
@@ -92,7 +92,7 @@ class Html(XHtml):
         tag_action = cls.tag_action()
         yield words(HTML_VOID_ELEMENTS, prefix=r'(<\s*?/)\s*((?:\w+:)?', suffix=r')\s*(>)'), \
             bygroup(Delimiter, tag_action, Delimiter) # don't leave no-closing tags
-        yield words(HTML_VOID_ELEMENTS, prefix=r'(<)\s*(', suffix=r')(?:\s*((?:/\s*)?>))?'), \
+        yield words(HTML_VOID_ELEMENTS, prefix=r'(<)\s*(', suffix=r')(?![\w:.-])(?:\s*((?:/\s*)?>))?'), \
             bygroup(Delimiter, tag_action, Delimiter), dselect(MATCH[3], {
                 None: cls.attrs("noclose"), # no ">" or "/>": go to attrs/noclose
             })                          # by default ("/>"): stay in context
-- 
2.43.0


From cd5286345085ef6d63bda235dec7e75f27610fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:27 +0000
Subject: [PATCH 087/103] fix: ignore case inside Html elements and in style
 and script tags

---
 parce/lang/html.py | 8 ++++----
 parce/lang/xml.py  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/parce/lang/html.py b/parce/lang/html.py
index 795bb43..5080348 100644
--- a/parce/lang/html.py
+++ b/parce/lang/html.py
@@ -30,7 +30,7 @@ import re
 
 from parce import Language, lexicon, default_target, root
 from parce.action import Delimiter, Name, Operator, String
-from parce.rule import ARG, MATCH, TEXT, bygroup, dselect, using, words
+from parce.rule import ARG, MATCH, TEXT, bygroup, call, dselect, using, words
 
 from parce.lang.xml import Xml, XmlIO
 from parce.lang.css import Css
@@ -49,7 +49,7 @@ class XHtml(Xml):
     @lexicon(re_flags=re.IGNORECASE)
     def root(cls):
         yield r'(<)(style|script)\b(>|/\s*>)?', bygroup(Delimiter, cls.tag_action(), Delimiter), \
-            dselect(MATCH[2], {
+            dselect(call(str.lower, MATCH[2]), {
                 "style": dselect(MATCH[3], {'>': cls.css_style_tag, None: cls.attrs("css")}),
                 "script": dselect(MATCH[3], {'>': cls.script_tag, None: cls.attrs("js")}),
             })  # by default a close tag, stay in the context.
@@ -69,13 +69,13 @@ class XHtml(Xml):
     @lexicon
     def script_tag(cls):
         """Stuff between <script> and </script>."""
-        yield r'(<\s*/)\s*(script)\s*(>)', bygroup(Delimiter, cls.tag_action(), Delimiter), -1
+        yield r'(<\s*/)\s*((?i:script))\s*(>)', bygroup(Delimiter, cls.tag_action(), Delimiter), -1
         yield from JavaScript.root
 
     @lexicon
     def css_style_tag(cls):
         """Stuff between <style> and </style>."""
-        yield r'(<\s*/)\s*(style)\s*(>)', bygroup(Delimiter, cls.tag_action(), Delimiter), -1
+        yield r'(<\s*/)\s*((?i:style))\s*(>)', bygroup(Delimiter, cls.tag_action(), Delimiter), -1
         yield from Css.root
 
     @lexicon
diff --git a/parce/lang/xml.py b/parce/lang/xml.py
index e95a9a2..18bd80c 100644
--- a/parce/lang/xml.py
+++ b/parce/lang/xml.py
@@ -102,7 +102,7 @@ class Xml(_XmlBase):
         yield r'&\S*?;', Escape
         yield default_action, select(call(str.isspace, TEXT), Text, Whitespace)
 
-    @lexicon
+    @lexicon(re_flags=re.IGNORECASE)
     def tag(cls):
         yield from cls.root()
 
-- 
2.43.0


From ba501421128af67f0ad35195163df390ad8d16f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:27 +0000
Subject: [PATCH 088/103] fix: find the closing brace of a Bash group command
 after white space

---
 parce/lang/bash.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parce/lang/bash.py b/parce/lang/bash.py
index 9eab492..a4d7cd9 100644
--- a/parce/lang/bash.py
+++ b/parce/lang/bash.py
@@ -276,6 +276,7 @@ class Bash(Language):
     def group_command(cls):
         """A group command ``{ ...; }``."""
         yield r'\}', Bracket.End, -1
+        yield r'[ \t]+', skip
         yield from cls.root
 
     # expressions
-- 
2.43.0


From 31b3fa127049414af18de3d86f1006b2a10dcccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:27 +0000
Subject: [PATCH 089/103] fix: recognize the escaped underscore in Latex

---
 parce/lang/tex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/tex.py b/parce/lang/tex.py
index 33fdfc3..3f48985 100644
--- a/parce/lang/tex.py
+++ b/parce/lang/tex.py
@@ -46,7 +46,7 @@ class Latex(Language):
         yield r'(\\begin)(?:\s*(?:(\{)(.*?)(\})|(\[))|(?=[\W\d]))', \
             bygroup(Name.Builtin, Delimiter, Name.Tag, Delimiter, Delimiter.Bracket), \
             ifgroup(5, cls.environment_option, cls.get_environment_target(MATCH[3]))
-        yield r'(\\[^\W\d]+)(?:\s*(\[))?', bygroup(Name.Command, Delimiter.Bracket), \
+        yield r'(\\[^\W\d_]+)(?:\s*(\[))?', bygroup(Name.Command, Delimiter.Bracket), \
             ifgroup(2, cls.option)
         yield r'\{\\(oe|OE|ae|AE|aa|AA|o|O|l|L|ss|SS)\}', Escape
         yield r"[!?]'", Escape
-- 
2.43.0


From 997377f2de33a3abded85ef7d1394455e2a2963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:28 +0000
Subject: [PATCH 090/103] fix: recognize numbers with an unsigned exponent in
 Python and JavaScript

---
 parce/lang/javascript.py | 2 +-
 parce/lang/python.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/javascript.py b/parce/lang/javascript.py
index 11bec91..604a795 100644
--- a/parce/lang/javascript.py
+++ b/parce/lang/javascript.py
@@ -42,7 +42,7 @@ RE_JS_ESCAPE_CHAR = r'\\u[0-9a-fA-F]{4}'
 RE_JS_IDENT_TOKEN = _I_ = fr'(?:[{RE_JS_IDENT_STARTCHAR}]|{RE_JS_ESCAPE_CHAR})' \
                 fr'(?:[{RE_JS_IDENT_CHAR}]+|{RE_JS_ESCAPE_CHAR})*'
 
-RE_JS_DECIMAL_NUMBER = r'\d+(?:_\d+)*n|(?:\.\d+(?:_\d+)*|\d+(?:_\d+)*(?:\.(?:\d+(?:_\d+)*)?)?)(?:[eE][-+]\d+(?:_\d+)*)?'
+RE_JS_DECIMAL_NUMBER = r'\d+(?:_\d+)*n|(?:\.\d+(?:_\d+)*|\d+(?:_\d+)*(?:\.(?:\d+(?:_\d+)*)?)?)(?:[eE][-+]?\d+(?:_\d+)*)?'
 RE_JS_REGEXP = r'/(?:\\.|[^\\\n/\[]|\[(?:\\.|[^\\\n\]])*\])+/[gimsuy]?'
 
 class JavaScript(Language):
diff --git a/parce/lang/python.py b/parce/lang/python.py
index aa7f084..5e3b4f6 100644
--- a/parce/lang/python.py
+++ b/parce/lang/python.py
@@ -79,7 +79,7 @@ class Python(Language):
         yield '0[oO](?:_?[0-7])+', Number.Octal
         yield '0[bB](?:_?[01])+', Number.Binary
         yield '0[xX](?:_?[0-9a-fA-F])+', Number.Hexadecimal
-        yield r'(?:\.\d(?:_?\d)*|\d(?:_?\d)*(?:\.(?:\d(?:_?\d)*)?)?)(?:[eE][-+]\d(?:_?\d)*)?[jJ]?', Number
+        yield r'(?:\.\d(?:_?\d)*|\d(?:_?\d)*(?:\.(?:\d(?:_?\d)*)?)?)(?:[eE][-+]?\d(?:_?\d)*)?[jJ]?', Number
 
         ## keywords, variables, functions
         yield words(python_words.keywords, prefix=r'\b', suffix=r'\b'), Keyword
-- 
2.43.0


From e3eea962480a7fc13b50c4b36bdce4c45f4c797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:28 +0000
Subject: [PATCH 091/103] fix: allow more than one flag after a JavaScript
 regular expression

---
 parce/lang/javascript.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/javascript.py b/parce/lang/javascript.py
index 604a795..a2c97ee 100644
--- a/parce/lang/javascript.py
+++ b/parce/lang/javascript.py
@@ -43,7 +43,7 @@ RE_JS_IDENT_TOKEN = _I_ = fr'(?:[{RE_JS_IDENT_STARTCHAR}]|{RE_JS_ESCAPE_CHAR})'
                 fr'(?:[{RE_JS_IDENT_CHAR}]+|{RE_JS_ESCAPE_CHAR})*'
 
 RE_JS_DECIMAL_NUMBER = r'\d+(?:_\d+)*n|(?:\.\d+(?:_\d+)*|\d+(?:_\d+)*(?:\.(?:\d+(?:_\d+)*)?)?)(?:[eE][-+]?\d+(?:_\d+)*)?'
-RE_JS_REGEXP = r'/(?:\\.|[^\\\n/\[]|\[(?:\\.|[^\\\n\]])*\])+/[gimsuy]?'
+RE_JS_REGEXP = r'/(?:\\.|[^\\\n/\[]|\[(?:\\.|[^\\\n\]])*\])+/[dgimsuvy]*'
 
 class JavaScript(Language):
     @lexicon
-- 
2.43.0


From b654f6e1b8e00d0a7026f1fdc33c7ef66ea502b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:28 +0000
Subject: [PATCH 092/103] fix: recognize octal, hexadecimal and single quote
 escapes in C strings

---
 parce/lang/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/c.py b/parce/lang/c.py
index 2050461..98ecfb5 100644
--- a/parce/lang/c.py
+++ b/parce/lang/c.py
@@ -97,7 +97,7 @@ class C(Language):
     def string(cls):
         """A double-quoted string."""
         yield r'"', String.End, -1
-        yield r'\\["\\nrbtfav?]', String.Escape
+        yield r'''\\(?:["'\\nrbtfav?]|[0-7]{1,3}|x[0-9a-fA-F]+)''', String.Escape
         yield RE_C_IDENT_ESCAPE, String.Escape
         yield r'\\.', String.Invalid
         yield r'[^"]*?$', String.Invalid, -1
-- 
2.43.0


From 5b4925b09df3f8bae5ad60d584913cc10ae0cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:28 +0000
Subject: [PATCH 093/103] fix: recognize == after a name in Bash expressions

---
 parce/lang/bash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/bash.py b/parce/lang/bash.py
index a4d7cd9..2c6f436 100644
--- a/parce/lang/bash.py
+++ b/parce/lang/bash.py
@@ -141,7 +141,7 @@ class Bash(Language):
     def expression_common(cls):
         """Common things in expressions."""
         yield from cls.numeric_common()
-        yield r'(\w+)[ \t]*(=)', bygroup(Name.Variable.Definition, Operator.Assignment)
+        yield r'(\w+)[ \t]*(=)(?!=)', bygroup(Name.Variable.Definition, Operator.Assignment)
         yield r'\w+', Name.Variable
         yield r',', Delimiter.Separator
         yield r'(?:[*/%+&\-|]|<<|>>)=', Operator.Assignment
-- 
2.43.0


From 82ec73e570731f73038c25c59a7143a1874eba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:26 +0000
Subject: [PATCH 094/103] fix: parentheses inside a CSS function do not end the
 function

---
 parce/lang/css.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index ed6fd92..136700d 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -259,7 +259,18 @@ class Css(Language):
     def function(cls):
         """Contents between identifier( ... )."""
         yield r"\)", Delimiter, -2  # go straight out of the identifier context
-        yield r"\(", Delimiter, 1
+        yield from cls.function_contents()
+
+    @lexicon
+    def function_parens(cls):
+        """Contents between nested ( ... ) in a function."""
+        yield r"\)", Delimiter, -1
+        yield from cls.function_contents()
+
+    @classmethod
+    def function_contents(cls):
+        """Find stuff inside a function."""
+        yield r"\(", Delimiter, cls.function_parens
         yield from cls.common()
         yield r"[*/+-]", Operator
 
-- 
2.43.0


From a50346a1b7ee10e15274bbd6137aeb6963baf54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:26 +0000
Subject: [PATCH 095/103] fix: recognize the math environment eqnarray* in
 Latex

---
 parce/lang/tex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/tex.py b/parce/lang/tex.py
index 3f48985..34e5341 100644
--- a/parce/lang/tex.py
+++ b/parce/lang/tex.py
@@ -32,7 +32,7 @@ from parce.rule import arg, MATCH, bygroup, ifgroup, ifmember
 
 
 MATH_ENVIRONMENTS = (
-    "math", "displaymath", "equation", "eqnarray", "aqnarray*")
+    "math", "displaymath", "equation", "eqnarray", "eqnarray*")
 
 
 class Latex(Language):
-- 
2.43.0


From 6bc5241696d2cab3e2e4e5331280fe082f0dbf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:38 +0000
Subject: [PATCH 096/103] fix: recognize Latex accents that are letters, like
 \c{c}

---
 parce/lang/tex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/tex.py b/parce/lang/tex.py
index 34e5341..a55fb9f 100644
--- a/parce/lang/tex.py
+++ b/parce/lang/tex.py
@@ -46,12 +46,12 @@ class Latex(Language):
         yield r'(\\begin)(?:\s*(?:(\{)(.*?)(\})|(\[))|(?=[\W\d]))', \
             bygroup(Name.Builtin, Delimiter, Name.Tag, Delimiter, Delimiter.Bracket), \
             ifgroup(5, cls.environment_option, cls.get_environment_target(MATCH[3]))
+        yield r"""\\[`'^"~=.uvHtcdbr]\{([a-zA-Z]{1,2}|\\[ij])\}""", Escape
         yield r'(\\[^\W\d_]+)(?:\s*(\[))?', bygroup(Name.Command, Delimiter.Bracket), \
             ifgroup(2, cls.option)
         yield r'\{\\(oe|OE|ae|AE|aa|AA|o|O|l|L|ss|SS)\}', Escape
         yield r"[!?]'", Escape
         yield r"""\\[`'^"~=.]([a-zA-Z]{1,2}|\\[ij])(?=[\W\d])""", Escape
-        yield r"""\\[`'^"~=.uvHtcdbr]\{([a-zA-Z]{1,2}|\\[ij])\}""", Escape
         yield r'\{', Delimiter.Brace, cls.brace
         yield r'\\\[', Delimiter, cls.math(r'\]')
         yield r'\$\$', Delimiter, cls.math(r'$$')
-- 
2.43.0


From 3eb94c63c921d9e799b1b1cfb275d5a1818eae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:38 +0000
Subject: [PATCH 097/103] fix: recognize the minus operator in CSS functions

---
 parce/lang/css.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index 136700d..b7356db 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -271,6 +271,7 @@ class Css(Language):
     def function_contents(cls):
         """Find stuff inside a function."""
         yield r"\(", Delimiter, cls.function_parens
+        yield r"-(?=\s)", Operator
         yield from cls.common()
         yield r"[*/+-]", Operator
 
-- 
2.43.0


From 101e11f3fdacd67a7aad4105ddb4287faab77f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:10 +0000
Subject: [PATCH 098/103] fix: do not take a Html tag like <style-guide> for a
 style or script tag

---
 parce/lang/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/html.py b/parce/lang/html.py
index 5080348..09d5711 100644
--- a/parce/lang/html.py
+++ b/parce/lang/html.py
@@ -48,7 +48,7 @@ class XHtml(Xml):
     """XHtml, is also valid Xml."""
     @lexicon(re_flags=re.IGNORECASE)
     def root(cls):
-        yield r'(<)(style|script)\b(>|/\s*>)?', bygroup(Delimiter, cls.tag_action(), Delimiter), \
+        yield r'(<)(style|script)(?![\w:.-])(>|/\s*>)?', bygroup(Delimiter, cls.tag_action(), Delimiter), \
             dselect(call(str.lower, MATCH[2]), {
                 "style": dselect(MATCH[3], {'>': cls.css_style_tag, None: cls.attrs("css")}),
                 "script": dselect(MATCH[3], {'>': cls.script_tag, None: cls.attrs("js")}),
-- 
2.43.0


From 158c398da4f8e58835901cf18c6cf7586fbbd81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:11 +0000
Subject: [PATCH 099/103] fix: do not split a LilyPond number that is part of a
 fraction or real number

---
 parce/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/lilypond.py b/parce/lang/lilypond.py
index 13c6114..2dc6bf7 100644
--- a/parce/lang/lilypond.py
+++ b/parce/lang/lilypond.py
@@ -498,7 +498,7 @@ class LilyPond(Language):
 
         """
         yield SKIP_WHITESPACE
-        yield r'([.,])\s*(\d+)(?!(?:/|\.\d+))' + RE_LILYPOND_ID_RIGHT_BOUND, bygroup(Separator, Number)
+        yield r'([.,])\s*(\d+)(?!(?:\d|/|\.\d+))' + RE_LILYPOND_ID_RIGHT_BOUND, bygroup(Separator, Number)
         yield r'([.,])\s*(' + RE_LILYPOND_ID + r')' + RE_LILYPOND_ID_RIGHT_BOUND, \
             bygroup(Separator, cls.get_symbol_action(MATCH[2], Name.Variable))
         yield r'([.,])\s*(?=[#$"])', bygroup(Separator), cls._continue_list
-- 
2.43.0


From 0811e6cc0d72e418e8d93f13e1a3f442df04a20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:24 +0000
Subject: [PATCH 100/103] fix: keep a newline at the start of the text in
 full_html(); a Html parser ignores the first newline in <pre>

---
 parce/out/html.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/out/html.py b/parce/out/html.py
index ae183e1..94fde8c 100644
--- a/parce/out/html.py
+++ b/parce/out/html.py
@@ -80,10 +80,13 @@ class HtmlMixin:
         when writing the HTML to an output device.
 
         """
+        html = self.html(cursor)
+        if html.startswith('\n'):
+            html = '\n' + html  # a newline directly after <pre> is ignored
         return FULL_HTML_TEMPLATE.format(
             charset = charset,
             baseformat = attrescape(self.baseformat() or ""),
-            html = self.html(cursor))
+            html = html)
 
 
 class HtmlFormatter(HtmlMixin, parce.formatter.Formatter):
-- 
2.43.0


From 5ecccf132a6418ceb587797c8c4066ad100e3d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:46 +0000
Subject: [PATCH 101/103] fix: evaluate the lexicon in a using() action inside
 bygroup() or in a default action

A lexicon that depends on TEXT or MATCH, like using(derive(cls.lexicon, TEXT)),
was not evaluated there, and lexing ended with an AttributeError.
---
 parce/lexer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parce/lexer.py b/parce/lexer.py
index c5fb9a7..4558ebd 100644
--- a/parce/lexer.py
+++ b/parce/lexer.py
@@ -181,10 +181,11 @@ class Lexer:
         if not text:
             return  # e.g. a subgroup that did not contribute to the match
         if isinstance(action, Item):
+            ns = {'text': text, 'match': match}
             if isinstance(action, ActionItem):
-                yield from action.replace(self, pos, text, match)
+                yield from action.evaluate(ns).replace(self, pos, text, match)
             else:
-                for action in unroll(action.evaluate({'text': text, 'match': match})):
+                for action in unroll(action.evaluate(ns)):
                     yield from self.filter_actions(action, pos, text, match)
         else:
             yield pos, text, action
-- 
2.43.0


From 5f0eaf915e9ad863947edea54813cac2be8d5eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:38 +0000
Subject: [PATCH 102/103] fix: recognize the || combinator in a CSS selector
 without whitespace before it

---
 parce/lang/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index b7356db..fcaf32e 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -87,7 +87,7 @@ class Css(Language):
     def selector(cls):
         """All types of CSS selectors"""
         yield r"\*", Keyword    # "any" element
-        yield r"\|", Keyword    # css selector namespace prefix separator
+        yield r"\|(?!\|)", Keyword    # css selector namespace prefix separator
         yield r"#", Name.Identifier.Definition, cls.id_selector
         yield r"\.(?!\d)", Keyword, cls.class_selector
         yield r"::", Keyword, cls.pseudo_element
-- 
2.43.0


From b5ecca6f9f986a05ab28031b16f47ea65ccef4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 103/103] fix: do not split a JavaScript name that ends with a
 dollar sign or other non-word character

---
 parce/lang/javascript.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parce/lang/javascript.py b/parce/lang/javascript.py
index a2c97ee..dc2665b 100644
--- a/parce/lang/javascript.py
+++ b/parce/lang/javascript.py
@@ -53,16 +53,16 @@ class JavaScript(Language):
         yield r'`', String.Start, cls.template_literal
         yield '//', Comment, cls.singleline_comment
         yield r'/\*', Comment.Start, cls.multiline_comment
-        yield fr'(const|let|var)\s+({_I_})\b', bygroup(Keyword, Name.Variable.Definition)
-        yield fr'(function)\s+({_I_})\b', bygroup(Keyword, Name.Function.Definition)
-        yield fr'(new)\s+({_I_})\b', bygroup(Keyword, Name.Class.Definition)
+        yield fr'(const|let|var)\s+({_I_})', bygroup(Keyword, Name.Variable.Definition)
+        yield fr'(function)\s+({_I_})', bygroup(Keyword, Name.Function.Definition)
+        yield fr'(new)\s+({_I_})', bygroup(Keyword, Name.Class.Definition)
         yield words(js.JAVASCRIPT_KEYWORDS, prefix=r'\b', suffix=r'\b'), Keyword
         yield words(js.JAVASCRIPT_DECLARATORS, prefix=r'\b', suffix=r'\b'), Keyword
         yield words(js.JAVASCRIPT_RESERVED_KEYWORDS, prefix=r'\b', suffix=r'\b'), Keyword.Reserved
         yield words(js.JAVASCRIPT_CONSTANTS, prefix=r'\b', suffix=r'\b'), Name.Constant
         yield words(js.JAVASCRIPT_BUILTINS, prefix=r'\b', suffix=r'\b'), Name.Builtin
         yield words(js.JAVASCRIPT_PROTOTYPES, prefix=r'\b', suffix=r'\b'), Name.Builtin
-        yield fr'(\.)\s*({_I_})\b(?:\s*([\(\[]))?', bygroup(Delimiter,
+        yield fr'(\.)\s*({_I_})(?:\s*([\(\[]))?', bygroup(Delimiter,
                 dselect(MATCH[3], {'(': Name.Method}, Name.Attribute), Delimiter), \
             dselect(MATCH[3], {'(': cls.call, '[': cls.index})
         yield fr'({_I_})(?:\s*([\(\[]))?', bygroup(
-- 
2.43.0

