From 944aae8e88c02b946bffcf27ef7beb7d9f17c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:54 +0000
Subject: [PATCH 001/125] fix: refused move to another tree must not detach the
 node from its parent

---
 udapi/core/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 3897c3a..a2ea392 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -331,13 +331,13 @@ class Node(object):
         if self._children and new_parent.is_descendant_of(self):
             raise CycleError('Setting the parent of %s to %s would lead to a cycle.', self, new_parent)
 
-        # Remove the current Node from the children of the old parent.
         # Forbid moving nodes from one tree to another using parent setter.
+        # Remove the current Node from the children of the old parent.
         if self._parent:
-            self._parent._children.remove(self)
             if self._parent._root is not new_parent._root:
                 raise ValueError('Cannot move nodes between trees with parent setter, '
                                  'use new_root.steal_nodes(nodes_to_be_moved) instead')
+            self._parent._children.remove(self)
         # Set the new parent.
         self._parent = new_parent
 
-- 
2.43.0


From 9c75c5d7b78e9048b76fd2a86feee89c3079f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:54 +0000
Subject: [PATCH 002/125] fix: raw_deps must not be stale after deps were
 emptied, deps must not be left incomplete after an error

---
 udapi/core/node.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index a2ea392..a9a395d 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -251,8 +251,8 @@ class Node(object):
         # Afterwards, we can use the following optimization
         #if self._raw_deps is not None:
         #    return self._raw_deps
-        if self._deps:
-            self._raw_deps = '|'.join(f"{dep['parent']._ord}:{dep['deprel']}" for dep in self._deps)
+        if self._deps is not None:
+            self._raw_deps = '|'.join(f"{dep['parent']._ord}:{dep['deprel']}" for dep in self._deps) or '_'
         return self._raw_deps
 
     @raw_deps.setter
@@ -274,9 +274,11 @@ class Node(object):
         """
         if self._deps is None:
             # Create a list of secondary dependencies.
-            self._deps = list()
+            # Store it in self._deps only once it is complete, so a failure is not hidden from the next access.
+            deps = list()
 
             if self._raw_deps == '_':
+                self._deps = deps
                 return self._deps
 
             # Obtain a list of all nodes in the dependency tree.
@@ -293,7 +295,8 @@ class Node(object):
                         raise ValueError(f'Empty node with ord={head} not found')
                 else:
                     parent = nodes[int(head)]
-                self._deps.append({'parent': parent, 'deprel': deprel})
+                deps.append({'parent': parent, 'deprel': deprel})
+            self._deps = deps
 
         return self._deps
 
-- 
2.43.0


From 4d3d8698bb0e1752aefe376af1c8cf3a3ebfad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:52 +0000
Subject: [PATCH 003/125] fix: ords of empty nodes: ten and more in one
 position, no renumbering of other positions on removal

---
 udapi/core/node.py | 87 +++++++++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 39 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index a9a395d..fd65cdf 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -4,6 +4,7 @@ In addition to class `Node`, this module contains also helper classes
 `CycleError`, `EmptyNode`, `OrdTuple` and `ListOfNodes`
 and function `find_minimal_common_treelet`.
 """
+import re
 import logging
 import functools
 
@@ -459,18 +460,11 @@ class Node(object):
         # self.enh_children.append(new_node) TODO
         # new_node.enh_parents.append(self) TODO
         base_ord = self._ord if after else self._ord - 1
-        new_ord = base_ord + 0.1
+        decimal = 1
         for empty in self._root.empty_nodes:
-            if empty._ord > new_ord:
-                break
-            if empty._ord == new_ord:
-                if isinstance(new_ord, OrdTuple):
-                    new_ord.increase()
-                elif new_ord == base_ord + 0.9:
-                    new_ord = OrdTuple(base_ord, 10)
-                else:
-                    new_ord = round(new_ord+0.1, 1)
-        new_node._ord = new_ord
+            if _split_ord(empty._ord) == (base_ord, decimal):
+                decimal += 1
+        new_node._ord = _join_ord(base_ord, decimal)
         if not self._root.empty_nodes or new_node > self._root.empty_nodes[-1]:
             self._root.empty_nodes.append(new_node)
         else:
@@ -547,10 +541,7 @@ class Node(object):
                 last_ord = 0
                 for empty in self._root.empty_nodes:
                     if empty._ord > self._ord:
-                        new_ord = round(empty._ord - 1, 1)
-                        if new_ord <= last_ord:
-                            new_ord = round(last_ord + 0.1, 1)
-                        empty.ord = new_ord
+                        empty.ord = _next_ord(_split_ord(empty._ord)[0] - 1, empty._ord, last_ord)
                     last_ord = empty._ord
         else:
             # Remember the position of empty nodes, so we can reorder them as well.
@@ -576,11 +567,8 @@ class Node(object):
             if empty_follows:
                 last_ord = 0
                 for empty in self._root.empty_nodes:
-                    prev_nonempty = empty_follows[empty]
-                    new_ord = round(prev_nonempty._ord + (empty._ord % 1), 1)
-                    while new_ord <= last_ord:
-                        new_ord = round(new_ord + 0.1, 1)
-                    last_ord, empty.ord = new_ord, new_ord
+                    empty.ord = _next_ord(empty_follows[empty]._ord, empty._ord, last_ord)
+                    last_ord = empty._ord
 
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order."""
@@ -1053,10 +1041,11 @@ class EmptyNode(Node):
 
     @ord.setter
     def ord(self, new_ord):
-        """Empty node's ord setter accepts float and str."""
+        """Empty node's ord setter accepts float, str and OrdTuple."""
         if isinstance(new_ord, str):
-            self._ord = float(new_ord)
-        elif isinstance(new_ord, float):
+            # E.g. 1.10 (the tenth empty node after the first word) cannot be stored as a float.
+            self._ord = OrdTuple(new_ord) if re.match(r'\d+\.[1-9]\d+$', new_ord) else float(new_ord)
+        elif isinstance(new_ord, (float, OrdTuple)):
             self._ord = new_ord
         else:
             raise ValueError('Only str and float are allowed for EmptyNode ord setter,'
@@ -1068,13 +1057,15 @@ class EmptyNode(Node):
 
     def remove(self):
         """Delete this empty node."""
-        to_reorder = [e for e in self._root.empty_nodes if e._ord > self._ord and e._ord < self.ord+1]
-        for empty in to_reorder:
-            empty._ord = round(empty._ord - 0.1, 1)
         try:
             self._root.empty_nodes.remove(self)
         except ValueError:
             return # self may be an already deleted node e.g. if n.remove() called twice
+        major = _split_ord(self._ord)[0]
+        for empty in self._root.empty_nodes:
+            empty_major, empty_minor = _split_ord(empty._ord)
+            if empty_major == major and empty._ord > self._ord:
+                empty._ord = _join_ord(major, empty_minor - 1)
         for n in self._root.empty_nodes + self._root._descendants:
             if n._deps:
                 n._deps = {(deprel, parent) for deprel, parent in n._deps if parent != self}
@@ -1104,28 +1095,46 @@ class OrdTuple:
         return f"{self._key[0]}.{self._key[1]}"
 
     def __eq__(self, other):
-        if isinstance(other, int):
-            return False
-        elif isinstance(other, float):
-            return self._key == (int(other), int(10*other - 10*int(other)))
-        elif isinstance(other, OrdTuple):
-            return self._key == other._key
+        if isinstance(other, (int, float, OrdTuple)):
+            return self._key == _split_ord(other)
         else:
             raise ValueError(f"OrdTuple cannot be compared with {type(other)}")
 
     def __lt__(self, other):
-        if isinstance(other, int):
-            return self._key < (other, 0)
-        elif isinstance(other, float):
-            return self._key < (int(other), int(10*other - 10*int(other)))
-        elif isinstance(other, OrdTuple):
-            return self._key < other._key
+        if isinstance(other, (int, float, OrdTuple)):
+            return self._key < _split_ord(other)
         else:
             raise ValueError(f"OrdTuple cannot be compared with {type(other)}")
 
     def increase(self):
         """Increment the decimal part of this ord."""
-        self._key = (self.key[0], self._key[1]+1)
+        self._key = (self._key[0], self._key[1]+1)
+
+
+def _split_ord(node_ord):
+    """Return the integer and decimal part of an ord, e.g. (3, 0) for 3, (3, 1) for 3.1 and (3, 10) for OrdTuple('3.10')."""
+    if isinstance(node_ord, OrdTuple):
+        return node_ord._key
+    major = int(node_ord)
+    return (major, round(10 * (node_ord - major)))
+
+
+def _next_ord(major, old_ord, last_ord):
+    """Return the new ord of an empty node following the word with ord=`major` and the empty node with ord=`last_ord`.
+
+    The decimal part of `old_ord` is kept if possible.
+    """
+    minor = _split_ord(old_ord)[1]
+    last_major, last_minor = _split_ord(last_ord)
+    if last_major == major and minor <= last_minor:
+        minor = last_minor + 1
+    return _join_ord(major, minor)
+
+
+def _join_ord(major, minor):
+    """Return the ord of an empty node, the inverse of _split_ord."""
+    ord_string = f"{major}.{minor}"
+    return float(ord_string) if minor < 10 else OrdTuple(ord_string)
 
 
 # Implementation note on ListOfNodes
-- 
2.43.0


From bcf128764a29cbe1b2090b094c348913a77adcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:57 +0000
Subject: [PATCH 004/125] fix: shift_* must keep empty nodes uniquely numbered
 and in place

---
 udapi/core/node.py | 45 +++++++++++++++++++--------------------------
 udapi/core/root.py | 22 +++++++++++++++++++++-
 2 files changed, 40 insertions(+), 27 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index fd65cdf..2e4bf60 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -541,20 +541,13 @@ class Node(object):
                 last_ord = 0
                 for empty in self._root.empty_nodes:
                     if empty._ord > self._ord:
-                        empty.ord = _next_ord(_split_ord(empty._ord)[0] - 1, empty._ord, last_ord)
+                        empty.ord = next_empty_ord(_split_ord(empty._ord)[0] - 1, empty._ord, last_ord)
                     last_ord = empty._ord
         else:
             # Remember the position of empty nodes, so we can reorder them as well.
             empty_follows = None
             if self._root.empty_nodes:
-                will_be_removed = self if children and children.startswith('rehang') else self.descendants(add_self=1)
-                prev_nonempty = self._root
-                empty_follows = {}
-                for node in self._root.descendants_and_empty:
-                    if node.is_empty():
-                        empty_follows[node] = prev_nonempty
-                    elif node not in will_be_removed:
-                        prev_nonempty = node
+                empty_follows = self._root._words_before_empty_nodes(self.descendants(add_self=1))
 
             # TODO nodes_to_remove = self.unordered_descendants()
             # and mark all nodes as deleted, remove them from MWT and coref mentions
@@ -565,15 +558,25 @@ class Node(object):
             # Make sure that e.g. after deleting node with ord=2
             # ords "1 1.1 1.2 2 2.1" will become "1 1.1 1.2 1.3".
             if empty_follows:
-                last_ord = 0
-                for empty in self._root.empty_nodes:
-                    empty.ord = _next_ord(empty_follows[empty]._ord, empty._ord, last_ord)
-                    last_ord = empty._ord
+                self._root._update_ords_of_empty_nodes(empty_follows)
 
     def _shift_before_ord(self, reference_ord, without_children=False):
-        """Internal method for changing word order."""
+        """Internal method for changing word order (of words and if needed, also of empty nodes)."""
+        if not self._root.empty_nodes:
+            self._shift_words_before_ord(reference_ord, without_children)
+            return
+
+        # Empty nodes are not moved together with the words, so note the words (not to be moved) they follow.
+        nodes_to_move = [self] if without_children else self.descendants(add_self=True)
+        old_ords = [n._ord for n in nodes_to_move]
+        empty_follows = self._root._words_before_empty_nodes(nodes_to_move)
+        self._shift_words_before_ord(reference_ord, without_children)
+        if [n._ord for n in nodes_to_move] != old_ords:
+            self._root._update_ords_of_empty_nodes(empty_follows)
+
+    def _shift_words_before_ord(self, reference_ord, without_children=False):
+        """Internal method for changing word order of (non-empty) words."""
         all_nodes = self._root._descendants
-        empty_nodes = self._root.empty_nodes
 
         # Moving a single node can be faster than nodes_to_move = [self]
         if without_children or not self._children:
@@ -584,25 +587,15 @@ class Node(object):
                     all_nodes[i_ord - 1]._ord = i_ord
                 all_nodes[reference_ord - 2] = self
                 self._ord = reference_ord - 1
-                for en in empty_nodes:
-                    if en._ord > my_ord and en._ord < reference_ord:
-                        en._ord -= 1
             elif reference_ord < my_ord:
                 for i_ord in range(my_ord, reference_ord, -1):
                     all_nodes[i_ord - 1] = all_nodes[i_ord - 2]
                     all_nodes[i_ord - 1]._ord = i_ord
                 all_nodes[reference_ord - 1] = self
                 self._ord = reference_ord
-                for en in empty_nodes:
-                    # Empty nodes before the first overt token (ID=0.X) will be never moved this way.
-                    # We cannot know whether the caller wanted to place the shifted node before or after them.
-                    if en._ord < my_ord and en._ord > reference_ord:
-                        en._ord += 1
             self._parent._children.sort()
             return
 
-        #TODO: Updating ords of empty nodes is implemented only for the simple case above,
-        # but it has to be implemented also for the complex case below!
         nodes_to_move = self.descendants(add_self=True)
         first_ord, last_ord = nodes_to_move[0]._ord, nodes_to_move[-1]._ord
 
@@ -1119,7 +1112,7 @@ def _split_ord(node_ord):
     return (major, round(10 * (node_ord - major)))
 
 
-def _next_ord(major, old_ord, last_ord):
+def next_empty_ord(major, old_ord, last_ord):
     """Return the new ord of an empty node following the word with ord=`major` and the empty node with ord=`last_ord`.
 
     The decimal part of `old_ord` is kept if possible.
diff --git a/udapi/core/root.py b/udapi/core/root.py
index abf36a7..4291d93 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -1,7 +1,7 @@
 """Root class represents the technical root node in each tree."""
 import logging
 
-from udapi.core.node import Node, EmptyNode, ListOfNodes
+from udapi.core.node import Node, EmptyNode, ListOfNodes, next_empty_ord
 from udapi.core.mwt import MWT
 
 # 7 instance attributes is too low (CoNLL-U has 10 columns)
@@ -263,6 +263,26 @@ class Root(Node):
     def descendants_and_empty(self):
         return sorted(self._descendants + self.empty_nodes)
 
+    def _words_before_empty_nodes(self, ignored_nodes):
+        """Return a dict mapping each empty node to the last preceding word (or root) not contained in `ignored_nodes`."""
+        ignored_nodes = set(ignored_nodes)
+        prev_word = self
+        result = {}
+        for node in self.descendants_and_empty:
+            if node.is_empty():
+                result[node] = prev_word
+            elif node not in ignored_nodes:
+                prev_word = node
+        return result
+
+    def _update_ords_of_empty_nodes(self, empty_follows):
+        """Update ords of all empty nodes to follow the words given in the dict, keeping their order."""
+        last_ord = 0
+        for empty in self.empty_nodes:
+            # pylint: disable=protected-access
+            empty.ord = next_empty_ord(empty_follows[empty]._ord, empty._ord, last_ord)
+            last_ord = empty._ord
+
     def steal_nodes(self, nodes):
         """Move nodes from another tree to this tree (append)."""
         old_root = nodes[0].root
-- 
2.43.0


From 7d939fc4f7baf99a31f175d012581f5f8bdef87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:28 +0000
Subject: [PATCH 005/125] fix: removed nodes must not stay in MWTs and enhanced
 deps, not yet parsed enhanced deps must follow the words when these are
 renumbered

---
 udapi/core/node.py | 15 +++++++++------
 udapi/core/root.py | 24 ++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 2e4bf60..d258c00 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -512,6 +512,7 @@ class Node(object):
             `warn` means to issue a warning if any children are present and delete them.
             `rehang_warn` means to rehang and warn:-).
         """
+        self._root._bind_enhanced_deps()
         self._parent._children.remove(self)
 
         # If there are any children, do the action specified in the "children" parameter.
@@ -536,6 +537,7 @@ class Node(object):
             except ValueError:
                 pass # self may be an already deleted node e.g. if n.remove() called twice
             else:
+                self._root._forget_nodes([self])
                 for (new_ord, node) in enumerate(self._root._descendants[self._ord - 1:], self._ord):
                     node.ord = new_ord
                 last_ord = 0
@@ -546,11 +548,12 @@ class Node(object):
         else:
             # Remember the position of empty nodes, so we can reorder them as well.
             empty_follows = None
+            nodes_to_remove = self.descendants(add_self=1)
             if self._root.empty_nodes:
-                empty_follows = self._root._words_before_empty_nodes(self.descendants(add_self=1))
+                empty_follows = self._root._words_before_empty_nodes(nodes_to_remove)
 
-            # TODO nodes_to_remove = self.unordered_descendants()
-            # and mark all nodes as deleted, remove them from MWT and coref mentions
+            # TODO mark all nodes as deleted, remove them from coref mentions
+            self._root._forget_nodes(nodes_to_remove)
             self._root._descendants = sorted(self._root.unordered_descendants())
             for (new_ord, node) in enumerate(self._root._descendants, 1):
                 node.ord = new_ord
@@ -562,6 +565,7 @@ class Node(object):
 
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order (of words and if needed, also of empty nodes)."""
+        self._root._bind_enhanced_deps()
         if not self._root.empty_nodes:
             self._shift_words_before_ord(reference_ord, without_children)
             return
@@ -1050,6 +1054,7 @@ class EmptyNode(Node):
 
     def remove(self):
         """Delete this empty node."""
+        self._root._bind_enhanced_deps()
         try:
             self._root.empty_nodes.remove(self)
         except ValueError:
@@ -1059,9 +1064,7 @@ class EmptyNode(Node):
             empty_major, empty_minor = _split_ord(empty._ord)
             if empty_major == major and empty._ord > self._ord:
                 empty._ord = _join_ord(major, empty_minor - 1)
-        for n in self._root.empty_nodes + self._root._descendants:
-            if n._deps:
-                n._deps = {(deprel, parent) for deprel, parent in n._deps if parent != self}
+        self._root._forget_nodes([self])
 
 @functools.total_ordering
 class OrdTuple:
diff --git a/udapi/core/root.py b/udapi/core/root.py
index 4291d93..6fca936 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -283,6 +283,30 @@ class Root(Node):
             empty.ord = next_empty_ord(empty_follows[empty]._ord, empty._ord, last_ord)
             last_ord = empty._ord
 
+    def _bind_enhanced_deps(self):
+        """Make sure enhanced deps refer to nodes, not to ords, which are about to be changed."""
+        # pylint: disable=protected-access
+        for node in self._descendants + self.empty_nodes:
+            if node._deps is None and node._raw_deps != '_':
+                try:
+                    node.deps
+                except (ValueError, IndexError, AttributeError):
+                    logging.debug('Invalid enhanced deps %s in %s', node._raw_deps, node)
+
+    def _forget_nodes(self, nodes):
+        """Delete references to (just being removed) `nodes` from MWTs and from enhanced deps of other nodes."""
+        # pylint: disable=protected-access
+        nodes = set(nodes)
+        for node in nodes:
+            if node._mwt:
+                node._mwt.words = [w for w in node._mwt.words if w is not node]
+                if not node._mwt.words:
+                    self._mwts.remove(node._mwt)
+                node._mwt = None
+        for node in self._descendants + self.empty_nodes:
+            if node._deps and any(dep['parent'] in nodes for dep in node._deps):
+                node._deps = [dep for dep in node._deps if dep['parent'] not in nodes]
+
     def steal_nodes(self, nodes):
         """Move nodes from another tree to this tree (append)."""
         old_root = nodes[0].root
-- 
2.43.0


From 8956e7ff5b31e467864b6ace733265981e955377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 006/125] fix: MWT.address() raised TypeError

---
 udapi/core/mwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/mwt.py b/udapi/core/mwt.py
index 3cc95ca..95dc093 100644
--- a/udapi/core/mwt.py
+++ b/udapi/core/mwt.py
@@ -45,7 +45,7 @@ class MWT(object):
 
     def address(self):
         """Full (document-wide) id of the multi-word token."""
-        return self.root.address + '#' + self.ord_range
+        return self.root.address() + '#' + self.ord_range
 
     @staticmethod
     def is_mwt():
-- 
2.43.0


From 925212af5835046ea0c9c903cbf3e1d4852615e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 007/125] fix: computing tokens and text must not repeat a MWT
 whose words were reordered

---
 udapi/core/node.py | 2 +-
 udapi/core/root.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index d258c00..1ad8ab2 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -849,7 +849,7 @@ class Node(object):
             mwt = node.multiword_token
             if use_mwt and mwt:
                 if node._ord > last_mwt_id:
-                    last_mwt_id = mwt.words[-1]._ord
+                    last_mwt_id = max(w._ord for w in mwt.words)
                     string += mwt.form
                     if mwt.misc['SpaceAfter'] != 'No':
                         string += ' '
diff --git a/udapi/core/root.py b/udapi/core/root.py
index 6fca936..53f6900 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -253,7 +253,7 @@ class Root(Node):
             mwt = node.multiword_token
             if mwt:
                 if node.ord > last_mwt_id:
-                    last_mwt_id = mwt.words[-1].ord
+                    last_mwt_id = max(w.ord for w in mwt.words)
                     result.append(mwt)
             else:
                 result.append(node)
-- 
2.43.0


From 99cceba399aa8028492c25b2f3aa5e17ad102363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 008/125] fix: Root.flatten must reset deprels as documented

---
 udapi/core/root.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 53f6900..eb6ecd0 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -351,10 +351,11 @@ class Root(Node):
         This is equivalent to
           for node in root.descendants:
               node.parent = root
-              node.deprel = 'root'
+              node.deprel = deprel
         but it is faster.
         """
         self._children = self._descendants[:]
         for node in self._children:
             node._parent = self
             node._children.clear()
+            node.deprel = deprel
-- 
2.43.0


From e89880d6fab1abfca77bf63fe1acb44d292f59d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 009/125] fix: steal_nodes must renumber the remaining words
 and take along MWTs, empty nodes and enhanced deps

---
 udapi/core/root.py | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index eb6ecd0..b1d8531 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -315,8 +315,11 @@ class Root(Node):
                 raise ValueError("steal_nodes(nodes) was called with nodes from several trees")
         nodes = sorted(nodes)
         whole_tree = nodes == old_root.descendants
-        new_ord = len(self._descendants)
+        last_ord = new_ord = len(self._descendants)
         # pylint: disable=protected-access
+        self._bind_enhanced_deps()
+        old_root._bind_enhanced_deps()
+        empty_follows = old_root._words_before_empty_nodes([] if whole_tree else nodes)
         for node in nodes:
             new_ord += 1
             node.ord = new_ord
@@ -332,17 +335,45 @@ class Root(Node):
                 self._children.append(node)
         if whole_tree:
             old_root._descendants = []
+            for mwt in old_root.multiword_tokens:
+                mwt.root = self
             self._mwts += old_root.multiword_tokens
             old_root.multiword_tokens = []
+            # Move also empty nodes (0.X from the old tree may need to follow some empty nodes in this tree).
+            moved = nodes + old_root.empty_nodes
+            if self.empty_nodes and self.empty_nodes[-1]._ord > last_ord:
+                last_ord = self.empty_nodes[-1]._ord
+            for empty in old_root.empty_nodes:
+                word = empty_follows[empty]
+                last_ord = next_empty_ord(len(self._descendants) if word is old_root else word._ord, empty._ord, last_ord)
+                empty.ord = last_ord
+                empty._root = self
+            self.empty_nodes += old_root.empty_nodes
+            old_root.empty_nodes = []
         else:
+            moved = nodes
             old_root._descendants = [n for n in old_root._descendants if n not in nodes]
-            mwt = node.multiword_token
+            for new_ord, node in enumerate(old_root._descendants, 1):
+                node.ord = new_ord
+            old_root._update_ords_of_empty_nodes(empty_follows)
             for node in nodes:
-                if mwt:
+                mwt = node.multiword_token
+                if mwt and mwt.root is old_root:
                     words = [w for w in mwt.words if w in nodes]
                     mwt.remove()
                     self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc)
         self._descendants += nodes
+        # Enhanced deps cannot lead from one tree to another.
+        moved = set(moved)
+        for node in moved:
+            for dep in node._deps or []:
+                if dep['parent'] is old_root:
+                    dep['parent'] = self
+            if node._deps:
+                node._deps = [dep for dep in node._deps if dep['parent'] is self or dep['parent'] in moved]
+        for node in old_root._descendants + old_root.empty_nodes:
+            if node._deps:
+                node._deps = [dep for dep in node._deps if dep['parent'] not in moved]
         # pylint: enable=protected-access
 
     def flatten(self, deprel='root'):
-- 
2.43.0


From 6cea489e7316f52d9a78ea4f3538338442e91420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:46 +0000
Subject: [PATCH 010/125] fix: reading coreference must not change the document
 (global.Entity, bridging links)

---
 udapi/block/write/oldcorefud.py |  2 +-
 udapi/core/coref.py             | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/udapi/block/write/oldcorefud.py b/udapi/block/write/oldcorefud.py
index 49f9beb..6b1a154 100644
--- a/udapi/block/write/oldcorefud.py
+++ b/udapi/block/write/oldcorefud.py
@@ -15,7 +15,7 @@ class OldCorefUD(udapi.block.write.conllu.Conllu):
             for key in list(node.misc):
                 if any(re.match(attr + r'(\[\d+\])?$', key) for attr in attrs):
                     del node.misc[key]
-        del doc.meta['global.Entity']
+        doc.meta.pop('global.Entity', None)
 
         # doc._eid_to_entity is a dict, which is insertion ordered in Python 3.7+.
         # The insertion order is sorted according to CorefEntity.__lt__ (see few lines above).
diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index aa27e6a..32f2f3a 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -213,7 +213,7 @@ class CorefMention(object):
 
     @property
     def bridging(self):
-        if not self._bridging:
+        if self._bridging is None:
             self._bridging = BridgingLinks(self)
         return self._bridging
 
@@ -340,7 +340,7 @@ class CorefEntity(object):
     def eid_or_grp(self):
         root = self._mentions[0].head.root
         meta = root.document.meta
-        if 'GRP' in meta['global.Entity'] and meta['_tree2docid']:
+        if 'GRP' in (meta.get('global.Entity') or '') and meta.get('_tree2docid'):
             docid = meta['_tree2docid'][root]
             if self._eid.startswith(docid):
                 return self._eid.replace(docid, '', 1)
@@ -517,7 +517,10 @@ class BridgingLinks(collections.abc.MutableSequence):
         """
         if relations_re is None:
             return self
-        return BridgingLinks(self.src_mention, [l for l in self._data if re.match(relations_re, l.relation)])
+        # Don't use BridgingLinks(), which would substitute all the links of src_mention with the subset.
+        subset = copy.copy(self)
+        subset._data = [l for l in self._data if re.match(relations_re, l.relation)]
+        return subset
 
     @property
     def targets(self):
@@ -555,7 +558,6 @@ def load_coref_from_misc(doc, strict=True):
     if not global_entity:
         was_global_entity = False
         global_entity = 'eid-etype-head-other'
-        doc.meta['global.Entity'] = global_entity
     tree2docid = None
     if 'GRP' in global_entity:
         tree2docid, docid = {}, ""
-- 
2.43.0


From dd97fa4cb62b30d7b789cae148920b1962b814e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:49 +0000
Subject: [PATCH 011/125] fix: refused creating or moving of a mention must not
 leave a half-made mention behind

---
 udapi/core/coref.py | 8 ++++++--
 udapi/core/node.py  | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 32f2f3a..7b6d4f9 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -203,6 +203,8 @@ class CorefMention(object):
 
     @entity.setter
     def entity(self, new_entity):
+        if new_entity is None:
+            raise ValueError(f"Cannot set None as entity of {self}, use mention.remove()")
         if self._entity is not None:
             original_entity = self._entity
             original_entity._mentions.remove(self)
@@ -379,12 +381,14 @@ class CorefEntity(object):
             raise ValueError("Either head or words must be specified")
         if head is None:
             head = words[0]
+        if span:
+            words = span_to_nodes(head.root, span)
+            if head not in words:
+                raise ValueError(f"Head {head} is not in the specified span {span}")
 
         mention = CorefMention(words=[head], head=head, entity=self)
         if words:
             mention.words = words
-        if span:
-            mention.span = span
         self._mentions.sort()
         return mention
 
diff --git a/udapi/core/node.py b/udapi/core/node.py
index 1ad8ab2..e4e96ac 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -989,7 +989,11 @@ class Node(object):
     def create_coref_entity(self, eid=None, etype=None, **kwargs):
         doc = self._root.bundle.document
         entity = doc.create_coref_entity(eid, etype)
-        entity.create_mention(head=self, **kwargs)
+        try:
+            entity.create_mention(head=self, **kwargs)
+        except Exception:
+            del doc._eid_to_entity[entity.eid]
+            raise
         return entity
 
     @staticmethod
-- 
2.43.0


From 4940fbd732c36fd27992a75761a976e08ee3a1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:52 +0000
Subject: [PATCH 012/125] fix: renamed entity must be found under its new eid,
 which must be unique

---
 udapi/block/corefud/indexclusters.py |  1 +
 udapi/core/coref.py                  | 10 +++++++++-
 udapi/core/document.py               |  3 ++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/indexclusters.py b/udapi/block/corefud/indexclusters.py
index 3f5d74d..24924c9 100644
--- a/udapi/block/corefud/indexclusters.py
+++ b/udapi/block/corefud/indexclusters.py
@@ -27,6 +27,7 @@ class IndexClusters(Block):
         if not entities:
             return
         new_eid_to_entity = {}
+        doc._eid_to_entity = {} # the new eids may be the same as some of the old ones
         for idx, entity in enumerate(entities, self.start):
             new_eid = self.prefix + str(idx)
             entity.eid = new_eid
diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 7b6d4f9..1a27de1 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -301,10 +301,11 @@ CHARS_FORBIDDEN_IN_ID = "-=| \t()"
 @functools.total_ordering
 class CorefEntity(object):
     """Class for representing all mentions of a given entity."""
-    __slots__ = ['_eid', '_mentions', 'etype', 'split_ante']
+    __slots__ = ['_eid', '_mentions', 'etype', 'split_ante', '_document']
 
     def __init__(self, eid, etype=None):
         self._eid = None # prepare the _eid slot
+        self._document = None
         self.eid = eid # call the setter and check the ID is valid
         self._mentions = []
         self.etype = etype
@@ -336,6 +337,12 @@ class CorefEntity(object):
     def eid(self, new_eid):
         if any(x in new_eid for x in CHARS_FORBIDDEN_IN_ID):
             raise ValueError(f"{new_eid} contains forbidden characters [{CHARS_FORBIDDEN_IN_ID}]")
+        # Make sure the entity can be found in document.eid_to_entity under its new eid.
+        eid_to_entity = self._document._eid_to_entity if self._document else None
+        if eid_to_entity and new_eid != self._eid and eid_to_entity.get(self._eid) is self:
+            if new_eid in eid_to_entity:
+                raise ValueError(f"Entity with eid={new_eid} already exists")
+            self._document._eid_to_entity = {new_eid if e is self else k: e for k, e in eid_to_entity.items()}
         self._eid = new_eid
 
     @property
@@ -767,6 +774,7 @@ def load_coref_from_misc(doc, strict=True):
     for entity in entities.values():
         if not entity._mentions:
             _error(f"Entity {entity.eid} referenced in SplitAnte or Bridge, but not defined with Entity", strict)
+        entity._document = doc
         entity._mentions.sort()
         for mention in entity._mentions:
             for node in mention._words:
diff --git a/udapi/core/document.py b/udapi/core/document.py
index 5f2bdf0..cdc8a9c 100644
--- a/udapi/core/document.py
+++ b/udapi/core/document.py
@@ -163,7 +163,8 @@ class Document(object):
                 counter += 1
             eid = f'e{counter}'
         elif self._eid_to_entity.get(eid):
-            raise ValueError("Entity with eid=%s already exists", eid)
+            raise ValueError(f"Entity with eid={eid} already exists")
         entity = udapi.core.coref.CorefEntity(eid, etype)
+        entity._document = self
         self._eid_to_entity[eid] = entity
         return entity
-- 
2.43.0


From db4bd1281d74111571dbfa21307fe14b58197db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 013/125] fix: mentions must stay sorted after changing their
 words

---
 udapi/core/coref.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 1a27de1..d12c28b 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -245,11 +245,13 @@ class CorefMention(object):
         self._words = new_words
         for new_word in new_words:
             if new_word not in kept_words:
-                if not new_word._mentions or self > new_word._mentions[-1]:
-                    new_word._mentions.append(self)
-                else:
-                    new_word._mentions.append(self)
-                    new_word._mentions.sort()
+                new_word._mentions.append(self)
+        # The position of this mention could have changed also relative to other mentions of the kept words.
+        for new_word in new_words:
+            if len(new_word._mentions) > 1:
+                new_word._mentions.sort()
+        if self._entity is not None:
+            self._entity._mentions.sort()
 
     @property
     def span(self):
-- 
2.43.0


From 0bf2a7c8931fd299493a3f677c04a773ab6ac8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:57 +0000
Subject: [PATCH 014/125] fix: storing coreference must not change it in memory
 nor skip links to entities without mentions

---
 udapi/core/coref.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index d12c28b..fa8dc10 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -540,12 +540,14 @@ class BridgingLinks(collections.abc.MutableSequence):
         """Return a list of the target entities (without relations)."""
         return [link.target for link in self._data]
 
-    def _delete_targets_without_mentions(self, warn=True):
-        for link in self._data:
-            if not link.target.mentions:
-                if warn:
+    def _without_empty_targets(self, warn=True):
+        subset = copy.copy(self)
+        subset._data = [link for link in self._data if link.target.mentions]
+        if warn:
+            for link in self._data:
+                if not link.target.mentions:
                     logging.warning(f"Entity {link.target.eid} has no mentions, but is referred to in bridging of {self.src_mention.entity.eid}")
-                self._data.remove(link)
+        return subset
 
 
 def _error(msg, strict):
@@ -679,7 +681,7 @@ def load_coref_from_misc(doc, strict=True):
                     elif name == 'other':
                         if other:
                             new_other = OtherDualDict(value)
-                            for k,v in other.values():
+                            for k, v in other.items():
                                 new_other[k] = v
                             other = new_other
                         else:
@@ -800,7 +802,7 @@ def store_coref_to_misc(doc):
 
     fields = global_entity.split('-')
     # GRP and entity are legacy names for eid and etype, respectively.
-    other_fields = [f for f in fields if f not in ('eid etype head other GRP entity'.split(), )]
+    other_fields = [f for f in fields if f not in 'eid etype head other GRP entity'.split()]
 
     attrs = "Entity SplitAnte Bridge".split()
     for node in doc.nodes_and_empty:
@@ -842,7 +844,7 @@ def store_coref_to_misc(doc):
                 if field == 'GRP':
                     eid = re.sub(r'^d\d+\.', '', eid)
                 if any(x in eid for x in CHARS_FORBIDDEN_IN_ID):
-                    _error(f"{eid} contains forbidden characters [{CHARS_FORBIDDEN_IN_ID}]", strict)
+                    _error(f"{eid} contains forbidden characters [{CHARS_FORBIDDEN_IN_ID}]", strict=False)
                     for c in CHARS_FORBIDDEN_IN_ID:
                         eid = eid.replace(c, '')
                 values.append(eid)
@@ -908,27 +910,29 @@ def store_coref_to_misc(doc):
 
         # Bridge=e1<e5:subset,e2<e6:subset|Entity=(e5(e6
         if mention._bridging:
-            mention._bridging._delete_targets_without_mentions()
-            str_bridge = str(mention._bridging)
-            if firstword.misc['Bridge']:
+            str_bridge = str(mention._bridging._without_empty_targets())
+            if str_bridge and firstword.misc['Bridge']:
                 str_bridge = firstword.misc['Bridge'] + ',' + str_bridge
-            firstword.misc['Bridge'] = str_bridge
+            if str_bridge:
+                firstword.misc['Bridge'] = str_bridge
 
     # SplitAnte=e5<e61,e10<e61
     for entity in doc.coref_entities:
-        if entity.split_ante:
+        if entity.split_ante and entity.mentions:
+            split_ante = []
             for ante_entity in entity.split_ante:
-                if not ante_entity.mentions:
+                if ante_entity.mentions:
+                    split_ante.append(ante_entity)
+                else:
                     logging.warning(f"Entity {ante_entity.eid} has no mentions, but is referred to in SplitAnte of {entity.eid}")
-                    entity.split_ante.remove(ante_entity)
-            if not entity.split_ante or len(entity.split_ante) < 2:
+            if len(split_ante) < 2:
                 logging.warning(f"SplitAnte of {entity.eid} has less than two antecedents, omitting")
                 continue
             first_word = entity.mentions[0].words[0]
             if tree2docid:
-                strs = ','.join(f'{sa.eid_or_grp}<{entity.eid_or_grp}' for sa in entity.split_ante)
+                strs = ','.join(f'{sa.eid_or_grp}<{entity.eid_or_grp}' for sa in split_ante)
             else:
-                strs = ','.join(f'{sa.eid}<{entity.eid}' for sa in entity.split_ante)
+                strs = ','.join(f'{sa.eid}<{entity.eid}' for sa in split_ante)
             if first_word.misc['SplitAnte']:
                 strs = first_word.misc['SplitAnte'] + ',' + strs
             first_word.misc['SplitAnte'] = strs
-- 
2.43.0


From 888e59ff1799127dc29a1a3a91a7137c7fcf5f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:45 +0000
Subject: [PATCH 015/125] fix: attribute maps: assigning nothing to a missing
 name must not reorder the string, node.misc = node.misc must not delete it

---
 udapi/core/coref.py    | 15 ++++++++++-----
 udapi/core/dualdict.py | 10 +++++++---
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index fa8dc10..893dbac 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1018,10 +1018,12 @@ class OtherDualDict(collections.abc.MutableMapping):
     def __init__(self, value=None, **kwargs):
         if value is not None and kwargs:
             raise ValueError('If value is specified, no other kwarg is allowed ' + str(kwargs))
-        self._dict = dict(**kwargs)
+        self._dict = {}
         self._string = None
         if value is not None:
             self.set_mapping(value)
+        elif kwargs:
+            self.set_mapping(kwargs)
 
     def __str__(self):
         if self._string is None:
@@ -1050,11 +1052,12 @@ class OtherDualDict(collections.abc.MutableMapping):
 
     def __setitem__(self, key, value):
         self._deserialize_if_empty()
-        self._string = None
         if value is None or value == '':
             self.__delitem__(key)
         else:
-            value = value.replace(',', '%2C') # TODO report a warning? Escape also '|' and '-'?
+            if value is not True:
+                value = value.replace(',', '%2C') # TODO report a warning? Escape also '|' and '-'?
+            self._string = None
             self._dict[key] = value
 
     def __delitem__(self, key):
@@ -1078,7 +1081,7 @@ class OtherDualDict(collections.abc.MutableMapping):
         return self._dict.__contains__(key)
 
     def clear(self):
-        self._string = '_'
+        self._string = ''
         self._dict.clear()
 
     def copy(self):
@@ -1100,7 +1103,9 @@ class OtherDualDict(collections.abc.MutableMapping):
             self._dict.clear()
             self._string = value
         elif isinstance(value, collections.abc.Mapping):
+            # Don't change self before the value is read (it may be self).
+            new_dict = {k: v for k, v in value.items() if v is not None and v != ''}
+            self._dict = new_dict
             self._string = None
-            self._dict = dict(value)
         else:
             raise ValueError("Unsupported value type " + str(value))
diff --git a/udapi/core/dualdict.py b/udapi/core/dualdict.py
index ba0129e..088836f 100644
--- a/udapi/core/dualdict.py
+++ b/udapi/core/dualdict.py
@@ -33,10 +33,12 @@ class DualDict(collections.abc.MutableMapping):
     def __init__(self, value=None, **kwargs):
         if value is not None and kwargs:
             raise ValueError('If value is specified, no other kwarg is allowed ' + str(kwargs))
-        self._dict = dict(**kwargs)
+        self._dict = {}
         self._string = None
         if value is not None:
             self.set_mapping(value)
+        elif kwargs:
+            self.set_mapping(kwargs)
 
     def __str__(self):
         if self._string is None:
@@ -65,8 +67,8 @@ class DualDict(collections.abc.MutableMapping):
 
     def __setitem__(self, key, value):
         self._deserialize_if_empty()
-        self._string = None
         if value is not None and value != '':
+            self._string = None
             self._dict[key] = value
         else:
             self.__delitem__(key)
@@ -115,7 +117,9 @@ class DualDict(collections.abc.MutableMapping):
             self._dict.clear()
             self._string = value if value != '' else '_'
         elif isinstance(value, collections.abc.Mapping):
+            # Don't change self before the value is read (it may be self).
+            new_dict = {k: v for k, v in value.items() if v is not None and v != ''}
+            self._dict = new_dict
             self._string = None
-            self._dict = dict(value)
         else:
             raise ValueError("Unsupported value type " + str(value))
-- 
2.43.0


From cbb0843eca9247edceff9f79455381fd0cadf2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:47 +0000
Subject: [PATCH 016/125] fix: refused zone must not change ids, ids of
 zoneless trees in multi-zone bundles, bundles are numbered from 1 after
 removal

---
 udapi/core/bundle.py | 7 ++++---
 udapi/core/root.py   | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 0a637f0..38a798b 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -36,7 +36,8 @@ class Bundle(object):
             self.trees[0]._sent_id = bundle_id
         else:
             for tree in self.trees:
-                tree._sent_id = bundle_id + '/' + tree.zone  # pylint: disable=protected-access
+                # pylint: disable=protected-access
+                tree._sent_id = bundle_id + '/' + tree.zone if tree.zone else bundle_id
 
     def __str__(self):
         if self._bundle_id is None:
@@ -88,9 +89,9 @@ class Bundle(object):
 
     def add_tree(self, root):
         """Add an existing tree to the bundle."""
+        self.check_zone('' if root.zone is None else root.zone)
         if root.zone is None:
             root._zone = ''
-        self.check_zone(root.zone)
         if self._bundle_id:
             root._sent_id = self._bundle_id
             if root.zone:
@@ -106,7 +107,7 @@ class Bundle(object):
     def remove(self):
         """Remove a bundle from the document."""
         self._document.bundles = [bundle for bundle in self._document.bundles if bundle != self]
-        for i, bundle in enumerate(self._document.bundles):
+        for i, bundle in enumerate(self._document.bundles, 1):
             bundle.number = i
 
     def address(self):
diff --git a/udapi/core/root.py b/udapi/core/root.py
index b1d8531..57e2999 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -55,9 +55,9 @@ class Root(Node):
     def sent_id(self, sent_id):
         if self._bundle is not None:
             parts = sent_id.split('/', 1)
-            self._bundle.bundle_id = parts[0]
             if len(parts) == 2:
                 self.zone = parts[1]
+            self._bundle.bundle_id = parts[0]
         self._sent_id = sent_id
 
     def address(self):
@@ -92,7 +92,7 @@ class Root(Node):
     @zone.setter
     def zone(self, zone):
         """Specify which zone the root belongs to."""
-        if self._bundle:
+        if self._bundle and zone != self._zone:
             self._bundle.check_zone(zone)
         self._zone = zone
         slashzone = '/' + zone if zone else ''
-- 
2.43.0


From 39664f92c79312c29ccb818eaf1a72d9daab030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 017/125] fix: refused shifts relative to empty nodes and
 refused MWTs must not leave the tree half-changed

---
 udapi/core/node.py | 6 +++++-
 udapi/core/root.py | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index e4e96ac..e5dcfad 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -565,6 +565,10 @@ class Node(object):
 
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order (of words and if needed, also of empty nodes)."""
+        if self.is_empty():
+            raise NotImplementedError('Empty nodes cannot be re-ordered using shift* methods yet.')
+        if not isinstance(reference_ord, int):
+            raise NotImplementedError(f'{self} cannot be shifted before or after an empty node yet.')
         self._root._bind_enhanced_deps()
         if not self._root.empty_nodes:
             self._shift_words_before_ord(reference_ord, without_children)
@@ -1054,7 +1058,7 @@ class EmptyNode(Node):
 
     def shift(self, reference_node, after=0, move_subtree=0, reference_subtree=0):
         """Attempts at changing the word order of EmptyNode result in NotImplemented exception."""
-        raise NotImplemented('Empty nodes cannot be re-order using shift* methods yet.')
+        raise NotImplementedError('Empty nodes cannot be re-ordered using shift* methods yet.')
 
     def remove(self):
         """Delete this empty node."""
diff --git a/udapi/core/root.py b/udapi/core/root.py
index 57e2999..3bd8a69 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -176,6 +176,8 @@ class Root(Node):
         form: string representing the surface form of the new MWT
         misc: misc attribute of the new MWT
         """
+        misc = MWT(misc=misc).misc  # check misc before changing anything
+        last_no_space = words[-1].misc["SpaceAfter"] == "No"
         # Nested or overlapping MWTs are not allowed in CoNLL-U,
         # so first remove all previous MWTs containing any of words.
         for w in words:
@@ -184,7 +186,7 @@ class Root(Node):
         # Now, create the new MWT.
         mwt = MWT(words, form, misc, root=self)
         self._mwts.append(mwt)
-        if words[-1].misc["SpaceAfter"] == "No":
+        if last_no_space:
             mwt.misc["SpaceAfter"] = "No"
         for word in words:
             word.misc["SpaceAfter"] = ""
-- 
2.43.0


From 35a15ff6c6309299f6ba39fa810117acf52a02bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 018/125] fix: nodes with OrdTuple ords could not be drawn
 (unhashable)

---
 udapi/core/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index e5dcfad..a2103d1 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1104,6 +1104,9 @@ class OrdTuple:
         else:
             raise ValueError(f"OrdTuple cannot be compared with {type(other)}")
 
+    def __hash__(self):
+        return hash(self._key)
+
     def __lt__(self, other):
         if isinstance(other, (int, float, OrdTuple)):
             return self._key < _split_ord(other)
-- 
2.43.0


From 2e906741b257cf4c083505dafefc663ade215510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 019/125] fix: commas must be escaped also in mention
 attributes assigned as a dict

---
 udapi/core/coref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 893dbac..82a4f6b 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1104,7 +1104,8 @@ class OtherDualDict(collections.abc.MutableMapping):
             self._string = value
         elif isinstance(value, collections.abc.Mapping):
             # Don't change self before the value is read (it may be self).
-            new_dict = {k: v for k, v in value.items() if v is not None and v != ''}
+            new_dict = {k: v.replace(',', '%2C') if isinstance(v, str) else v
+                        for k, v in value.items() if v is not None and v != ''}
             self._dict = new_dict
             self._string = None
         else:
-- 
2.43.0


From d469845d3239dd3563a64854c26f0e8904830a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 020/125] fix: node.feats and node.misc can be compared with a
 string as documented

---
 udapi/core/dualdict.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/udapi/core/dualdict.py b/udapi/core/dualdict.py
index 088836f..e2167c6 100644
--- a/udapi/core/dualdict.py
+++ b/udapi/core/dualdict.py
@@ -85,6 +85,14 @@ class DualDict(collections.abc.MutableMapping):
         self._deserialize_if_empty()
         return self._dict.__iter__()
 
+    def __eq__(self, other):
+        # As documented in Node: `if node.feats == 'Case=Nom|Person=1'`.
+        if isinstance(other, str):
+            return str(self) == other
+        return super().__eq__(other)
+
+    __hash__ = None
+
     def __len__(self):
         self._deserialize_if_empty()
         return len(self._dict)
-- 
2.43.0


From f27418eaae755dab5bb3b7e925a73021a7aa19ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 021/125] fix: children(add_self=True) must not change the list
 it is called on

---
 udapi/core/node.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index a2103d1..4aec890 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1185,14 +1185,17 @@ class ListOfNodes(list):
 
     def __call__(self, add_self=False, following_only=False, preceding_only=False):
         """Returns a subset of nodes contained in this list as specified by the args."""
+        nodes = self
         if add_self:
-            self.append(self.origin)
-            self.sort()
+            # Don't change this list, it may be used again.
+            nodes = ListOfNodes(self, origin=self.origin)
+            nodes.append(self.origin)
+            nodes.sort()
         if preceding_only:
-            return [x for x in self if x._ord <= self.origin._ord]
+            return [x for x in nodes if x._ord <= self.origin._ord]
         if following_only:
-            return [x for x in self if x._ord >= self.origin._ord]
-        return self
+            return [x for x in nodes if x._ord >= self.origin._ord]
+        return nodes
 
 
 def find_minimal_common_treelet(*args):
-- 
2.43.0


From 2874c42924ce2c201ebea6af98a0049d9650fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 022/125] fix: corefud.PrintMentions must not reset the global
 random generator

---
 udapi/block/corefud/printmentions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/corefud/printmentions.py b/udapi/block/corefud/printmentions.py
index d011f68..eeccf3d 100644
--- a/udapi/block/corefud/printmentions.py
+++ b/udapi/block/corefud/printmentions.py
@@ -29,8 +29,8 @@ class PrintMentions(Block):
         self.max_trees = max_trees
         self.html = html
         self.shuffle = shuffle
-        if shuffle:
-            random.seed(42)
+        # Don't seed (nor depend on) the global random generator.
+        self._random = random.Random(42)
         self.print_other_forms = print_other_forms
         self.print_total = print_total,
         self.print_should = print_should,
@@ -123,7 +123,7 @@ class PrintMentions(Block):
             if self._ok(len(entity.mentions) == 1, self.singleton):
                 mentions.extend(entity.mentions)
         if self.shuffle:
-            random.shuffle(mentions)
+            self._random.shuffle(mentions)
         else:
             mentions.sort()
 
-- 
2.43.0


From d70de5fadc5911cd45b11d958313df12dbb2cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 023/125] fix: corefud.PrintMentions max_trees must not leave
 words of not printed mentions marked

---
 udapi/block/corefud/printmentions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/udapi/block/corefud/printmentions.py b/udapi/block/corefud/printmentions.py
index eeccf3d..97ebd6b 100644
--- a/udapi/block/corefud/printmentions.py
+++ b/udapi/block/corefud/printmentions.py
@@ -153,9 +153,6 @@ class PrintMentions(Block):
             if self.almost_forest != 'include' and not self._ok(self._is_forest(mention, mwords, True), self.almost_forest):
                 continue
 
-            for w in mention.words:
-                w.misc['Mark'] = 1
-
             seen_trees += 1
             if self.max_trees and seen_trees > self.max_trees:
                 if not self.print_total:
@@ -175,6 +172,8 @@ class PrintMentions(Block):
                         for form, count in counter.most_common(self.print_other_forms):
                             print(f' "{form}"({count})', end='')
                         print()
+                for w in mention.words:
+                    w.misc['Mark'] = 1
                 self.print_block.process_tree(mention.head.root)
                 for w in mention.words:
                     del w.misc['Mark']
-- 
2.43.0


From 82d8dc85124e657a23a1b89540afc99dcba44f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 024/125] fix: printing bridging links to an entity without
 mentions raised IndexError

---
 udapi/core/coref.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 82a4f6b..b6432c8 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -349,6 +349,8 @@ class CorefEntity(object):
 
     @property
     def eid_or_grp(self):
+        if not self._mentions:
+            return self._eid
         root = self._mentions[0].head.root
         meta = root.document.meta
         if 'GRP' in (meta.get('global.Entity') or '') and meta.get('_tree2docid'):
-- 
2.43.0


From 406310042b6fa3a25f6a4fadd73215207910d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 025/125] fix: words of a MWT must be in word order after
 shifts, not only after reading mwt.ord_range

---
 udapi/core/mwt.py  | 1 -
 udapi/core/node.py | 2 ++
 udapi/core/root.py | 5 +++++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/udapi/core/mwt.py b/udapi/core/mwt.py
index 95dc093..729e9f8 100644
--- a/udapi/core/mwt.py
+++ b/udapi/core/mwt.py
@@ -67,5 +67,4 @@ class MWT(object):
 # TODO: What to do when mwt.words = []? (It is allowed after mwt=MWT().)
 # TODO: words.setter and node.shift* should check if the MWT does not contain gaps
 #       and is still multi-word
-# TODO: Make sure mwt.words are always sorted (even after node.shift*).
 # TODO: Check if one word is not included in multiple multi-word tokens.
diff --git a/udapi/core/node.py b/udapi/core/node.py
index 4aec890..d758d7c 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -572,6 +572,7 @@ class Node(object):
         self._root._bind_enhanced_deps()
         if not self._root.empty_nodes:
             self._shift_words_before_ord(reference_ord, without_children)
+            self._root._sort_words_of_mwts()
             return
 
         # Empty nodes are not moved together with the words, so note the words (not to be moved) they follow.
@@ -581,6 +582,7 @@ class Node(object):
         self._shift_words_before_ord(reference_ord, without_children)
         if [n._ord for n in nodes_to_move] != old_ords:
             self._root._update_ords_of_empty_nodes(empty_follows)
+        self._root._sort_words_of_mwts()
 
     def _shift_words_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order of (non-empty) words."""
diff --git a/udapi/core/root.py b/udapi/core/root.py
index 3bd8a69..2de7367 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -285,6 +285,11 @@ class Root(Node):
             empty.ord = next_empty_ord(empty_follows[empty]._ord, empty._ord, last_ord)
             last_ord = empty._ord
 
+    def _sort_words_of_mwts(self):
+        """Make sure the words of each multi-word token are in the word order."""
+        for mwt in self.multiword_tokens:
+            mwt.words.sort()
+
     def _bind_enhanced_deps(self):
         """Make sure enhanced deps refer to nodes, not to ords, which are about to be changed."""
         # pylint: disable=protected-access
-- 
2.43.0


From b7c52ad8e61de10df92942dd60f2ac2371ee878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:09 +0000
Subject: [PATCH 026/125] fix: zone names must not end with a newline

---
 udapi/core/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 38a798b..970207d 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -79,7 +79,7 @@ class Bundle(object):
 
     def check_zone(self, new_zone):
         """Raise an exception if the zone is invalid or already exists."""
-        if not VALID_ZONE_REGEX.match(new_zone):
+        if not VALID_ZONE_REGEX.fullmatch(new_zone):
             raise ValueError("'{}' is not a valid zone name ({})".format(
                 new_zone, VALID_ZONE_REGEX.pattern))
         if new_zone == 'all':
-- 
2.43.0


From 19e30322484dd77d9dbc98d4f7dce40dc4b8a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 027/125] fix: sent_id assigned without a zone must stay
 consistent with the zone of the tree

---
 udapi/core/root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 2de7367..535d24a 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -58,6 +58,7 @@ class Root(Node):
             if len(parts) == 2:
                 self.zone = parts[1]
             self._bundle.bundle_id = parts[0]
+            sent_id = parts[0] + ('/' + self.zone if self.zone else '')
         self._sent_id = sent_id
 
     def address(self):
-- 
2.43.0


From ad0ef6914395ef9b4a9fd1d3fc8e5b3466a7da23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:41 +0000
Subject: [PATCH 028/125] fix: util.SplitSentence must keep bundle numbers
 unique

---
 udapi/block/util/splitsentence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index b6ca57d..81f0124 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -85,7 +85,7 @@ class SplitSentence(Block):
                     self.make_zeros_roots(root)
                     root.text = root.compute_text()
                     # Update the bundle numbers of the new bundles and all bundles after them.
-                    updated_no = bundle_no + 1
+                    updated_no = bundle_no + 2 # numbers start from 1
                     for b in document.bundles[(bundle_no+1):]:
                         b.number = updated_no
                         updated_no += 1
@@ -101,7 +101,7 @@ class SplitSentence(Block):
                 new_bundle_no = bundle_no + 1
                 document.bundles.pop()
                 document.bundles.insert(new_bundle_no, new_bundle)
-                updated_no = new_bundle_no
+                updated_no = new_bundle_no + 1 # numbers start from 1
                 for b in document.bundles[new_bundle_no:]:
                     b.number = updated_no
                     updated_no += 1
-- 
2.43.0


From 53096cc6dd28f95dc61c50d4390d2c70a69ef363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:44 +0000
Subject: [PATCH 029/125] fix: util.Split, segment.Simple and segment.Merge
 must renumber bundles

---
 udapi/block/segment/merge.py  | 4 +++-
 udapi/block/segment/simple.py | 2 ++
 udapi/block/util/split.py     | 3 +++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/udapi/block/segment/merge.py b/udapi/block/segment/merge.py
index 9ada45f..769596b 100644
--- a/udapi/block/segment/merge.py
+++ b/udapi/block/segment/merge.py
@@ -43,4 +43,6 @@ class Merge(Block):
             else:
                 new_bundles.append(bundle)
                 prev_bundle = bundle
-        doc.bundles = new_bundles
\ No newline at end of file
+        doc.bundles = new_bundles
+        for i, bundle in enumerate(doc.bundles, 1):
+            bundle.number = i
diff --git a/udapi/block/segment/simple.py b/udapi/block/segment/simple.py
index 58be9b6..01d2faf 100644
--- a/udapi/block/segment/simple.py
+++ b/udapi/block/segment/simple.py
@@ -89,3 +89,5 @@ class Simple(Block):
                             new_bundle.create_tree(tree.zone).text = sentence
                             new_bundles.append(new_bundle)
         doc.bundles = new_bundles
+        for i, bundle in enumerate(doc.bundles, 1):
+            bundle.number = i
diff --git a/udapi/block/util/split.py b/udapi/block/util/split.py
index 6eb2f65..e30d93b 100644
--- a/udapi/block/util/split.py
+++ b/udapi/block/util/split.py
@@ -36,4 +36,7 @@ class Split(BaseReader):
         self.buffer.extend(document.bundles)
         document.bundles = self.buffer[:self.bundles_per_doc]
         self.buffer = self.buffer[self.bundles_per_doc:]
+        for i, bundle in enumerate(document.bundles, 1):
+            bundle.number = i
+            bundle._document = document
         self.finished = not self.buffer
-- 
2.43.0


From 55e8f813e8dbf9961079e054d684598f3e05ac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 030/125] fix: ids of new bundles must not collide with numeric
 ids of loaded bundles

---
 udapi/block/util/split.py | 3 +++
 udapi/core/bundle.py      | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/udapi/block/util/split.py b/udapi/block/util/split.py
index e30d93b..37a29db 100644
--- a/udapi/block/util/split.py
+++ b/udapi/block/util/split.py
@@ -22,6 +22,7 @@ class Split(BaseReader):
         self.parts = parts
         self.bundles_per_doc = bundles_per_doc
         self.buffer = None
+        self._highest_bundle_id = 0
 
     @staticmethod
     def is_multizone_reader():
@@ -39,4 +40,6 @@ class Split(BaseReader):
         for i, bundle in enumerate(document.bundles, 1):
             bundle.number = i
             bundle._document = document
+        self._highest_bundle_id = max(self._highest_bundle_id, document._highest_bundle_id)
+        document._highest_bundle_id = self._highest_bundle_id
         self.finished = not self.buffer
diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 970207d..83a9c96 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -32,6 +32,10 @@ class Bundle(object):
     @bundle_id.setter
     def bundle_id(self, bundle_id):
         self._bundle_id = bundle_id
+        # Make sure document.create_bundle() will not use this id again.
+        if str(bundle_id).isdecimal() and self._document is not None:
+            # pylint: disable=protected-access
+            self._document._highest_bundle_id = max(self._document._highest_bundle_id, int(bundle_id))
         if len(self.trees) == 1 and self.trees[0].zone == '':
             self.trees[0]._sent_id = bundle_id
         else:
-- 
2.43.0


From 7f3a4288b785cc2a69556ac68b605154220dda74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:08 +0000
Subject: [PATCH 031/125] fix: spans of mentions with ten and more empty nodes
 in one position (3.10 was read as 3.1)

---
 udapi/core/coref.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index b6432c8..d23bcd2 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -944,9 +944,9 @@ def span_to_nodes(root, span):
     for span_str in span.split(','):
         try:
             if '-' not in span_str:
-                lo = hi = float(span_str)
+                lo = hi = _parse_ord(span_str)
             else:
-                lo, hi = (float(x) for x in span_str.split('-'))
+                lo, hi = (_parse_ord(x) for x in span_str.split('-'))
         except ValueError as e:
             raise ValueError(f"Cannot parse '{span}': {e}")
         ranges.append((lo, hi))
@@ -960,7 +960,13 @@ def span_to_nodes(root, span):
                 return True
         return False
 
-    return [w for w in root.descendants_and_empty if _num_in_ranges(w.ord)]
+    return [w for w in root.descendants_and_empty if _num_in_ranges(_parse_ord(str(w.ord)))]
+
+
+def _parse_ord(ord_string):
+    """Convert an ord in a span (e.g. 3, 3.1 or 3.10) to a pair, which can be compared (3.10 follows 3.9)."""
+    major, _, minor = ord_string.partition('.')
+    return int(major), int(minor or 0)
 
 
 def nodes_to_span(nodes):
-- 
2.43.0


From 6c788d28bddedcdc71ad94e36cd7e162a466968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 032/125] fix: a reader of an open filehandle must not deliver
 an extra empty document at the end

---
 udapi/core/basereader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index c3bcf91..da7f075 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -60,7 +60,8 @@ class BaseReader(Block):
     @property
     def filename(self):
         """Property with the current filename."""
-        return self.files.filename
+        filename = self.files.filename
+        return None if filename == '<filehandle_input>' else filename
 
     @property
     def file_number(self):
@@ -71,6 +72,10 @@ class BaseReader(Block):
         """Go to the next file and retrun its filehandle."""
         return self.files.next_filehandle()
 
+    def _no_file_started(self):
+        # The filehandle specified by the user is open from the beginning.
+        return self.filehandle is None or (self.file_number == 0 and self.files.filenames == ['<filehandle_input>'])
+
     def read_tree(self):
         """Load one (more) tree from self.filehandle and return its root.
 
@@ -116,7 +121,7 @@ class BaseReader(Block):
         """Try to use self.read_trees() if possible and return True, otherwise False."""
         if document.bundles or self.bundles_per_doc or self.sent_id_filter or self.split_docs:
             return False
-        if self.filehandle is None:
+        if self._no_file_started():
             filehandle = self.next_filehandle()
             if filehandle is None:
                 self.finished = True
@@ -205,7 +210,7 @@ class BaseReader(Block):
                 document.meta['loaded_from'] = self.filename
 
             filehandle = self.filehandle
-            if filehandle is None:
+            if self._no_file_started():
                 filehandle = self.next_filehandle()
                 if filehandle is None:
                     self.finished = True
-- 
2.43.0


From 288e26895cc60a677f61d042f7859c45d450aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 033/125] fix: read.Conllu: superfluous or missing empty lines
 must not lose sentences, also with max_docs

---
 udapi/block/read/conllu.py | 42 ++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index b485c17..0371d61 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -87,26 +87,23 @@ class Conllu(BaseReader):
             # It is obvious how to parse such files and re.split(r'\n\n+', s) is only twice as slow
             # as s.split('\n\n') and this time is negligble
             # relative to the main CoNLL-U parsing in read_tree_from_lines().
-            return [self.read_tree_from_lines(s.split('\n')) for s in
-                    re.split(r'\n\n+', self.filehandle.read()) if s]
+            # The input may also start with an empty line or end without any.
+            trees = [self.read_tree_from_lines(s.split('\n')) for s in
+                     re.split(r'\n\n+', self.filehandle.read().strip('\n')) if s]
+            return [tree for tree in trees if tree is not None]
         # udapi.core.basereader takes care about the max_docs parameter.
         # However, we can make the loading much faster by not reading
         # the whole file if the user wants just first N documents.
-        trees, lines, loaded_docs = [], [], 0
-        for line in self.filehandle:
-            line = line.rstrip()
-            if line == '':
-                tree = self.read_tree_from_lines(lines)
-                lines = []
-                if tree.newdoc:
-                    if loaded_docs == self.max_docs:
-                        return trees
-                    loaded_docs += 1
-                if tree:
-                    trees.append(tree)
-            else:
-                lines.append(line)
-        return trees
+        trees, loaded_docs = [], 0
+        while True:
+            tree = self.read_tree()
+            if tree is None:
+                return trees
+            if tree.newdoc:
+                if loaded_docs == self.max_docs:
+                    return trees
+                loaded_docs += 1
+            trees.append(tree)
 
     def read_tree(self):
         if self.filehandle is None:
@@ -114,9 +111,14 @@ class Conllu(BaseReader):
         lines = []
         for line in self.filehandle:
             line = line.rstrip()
-            if line == '':
-                break
-            lines.append(line)
+            if line != '':
+                lines.append(line)
+            elif lines:
+                tree = self.read_tree_from_lines(lines)
+                # Skip superfluous empty lines and comments without any nodes, so that None means the end of file.
+                if tree is not None:
+                    return tree
+                lines = []
         return self.read_tree_from_lines(lines)
 
     # pylint: disable=too-many-locals,too-many-branches,too-many-statements
-- 
2.43.0


From 343f4427eb4bbf155b990d518784349fef4b33ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 034/125] fix: read.Conllu: trailing spaces were lost when
 reading sentences one by one

---
 udapi/block/read/conllu.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 0371d61..cf325c4 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -110,9 +110,8 @@ class Conllu(BaseReader):
             return None
         lines = []
         for line in self.filehandle:
-            line = line.rstrip()
-            if line != '':
-                lines.append(line)
+            if not line.isspace():
+                lines.append(line.rstrip('\r\n'))
             elif lines:
                 tree = self.read_tree_from_lines(lines)
                 # Skip superfluous empty lines and comments without any nodes, so that None means the end of file.
-- 
2.43.0


From dfc70b9acbc4416f3098c41f921ee5a06661bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 035/125] fix: sentences without sent_id must not get the id of
 the previous sentence

---
 udapi/core/basereader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index da7f075..df3be3f 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -159,6 +159,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
                 if self.zone != 'keep':
                     root.zone = self.zone
 
@@ -253,6 +255,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
 
                 if self.zone != 'keep':
                     root.zone = self.zone
-- 
2.43.0


From a70e9f7089c782c58a8b4ac92a4eb83dfea2ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 036/125] fix: documents starting with a buffered tree: trees
 of its other zones, next files

---
 udapi/core/basereader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index df3be3f..f726fdc 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -194,7 +194,8 @@ class BaseReader(Block):
             bundle, last_bundle_id = None, ''
 
             # There may be a tree left in the buffer when reading the last doc.
-            if self._buffer:
+            from_buffer = self._buffer is not None
+            if from_buffer:
                 root = self._buffer
                 self._buffer = None
                 if orig_bundles:
@@ -203,6 +204,9 @@ class BaseReader(Block):
                     bundle = document.create_bundle()
                     if root._sent_id is not None:
                         bundle.bundle_id = root._sent_id.split('/', 1)[0]
+                # The next tree may belong to the same bundle (in another zone).
+                if root._sent_id is not None:
+                    last_bundle_id = root._sent_id.split('/', 1)[0]
                 bundle.add_tree(root)
                 if root.newdoc:
                     self._docs_loaded += 1
@@ -219,7 +223,8 @@ class BaseReader(Block):
                     return
                 logging.info(f"Reading {self.files.filename}")
 
-            trees_loaded = 0
+            # A tree taken from the buffer is the first tree of this document (and of its file).
+            trees_loaded = 1 if from_buffer else 0
             while True:
                 root = self.filtered_read_tree()
                 if root is None:
-- 
2.43.0


From 7aabccee7e24fd8fab5267e0d933f95772e8dc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 037/125] fix: max_docs was not respected with bundles_per_doc,
 with files without newdoc and at the end of a file

---
 udapi/core/basereader.py | 48 ++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index f726fdc..79b99ed 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -117,6 +117,9 @@ class BaseReader(Block):
                 skipped_newdoc = tree.newdoc
             tree = self.read_tree()
 
+    def _max_docs_loaded(self):
+        return self.max_docs and self._docs_loaded >= self.max_docs
+
     def try_fast_load(self, document):
         """Try to use self.read_trees() if possible and return True, otherwise False."""
         if document.bundles or self.bundles_per_doc or self.sent_id_filter or self.split_docs:
@@ -143,8 +146,9 @@ class BaseReader(Block):
             for root in trees:
                 if root is None:
                     continue
-                if root.newdoc:
-                    if self.max_docs and self._docs_loaded >= self.max_docs:
+                # See process_document for what is counted as a document.
+                if root.newdoc or not document.bundles:
+                    if self._max_docs_loaded():
                         self.finished = True
                         return True
                     self._docs_loaded += 1
@@ -177,6 +181,7 @@ class BaseReader(Block):
                 self.finished = True
                 return True
             if not self.merge:
+                self.finished = bool(self._max_docs_loaded())
                 return True
         return True
 
@@ -208,10 +213,9 @@ class BaseReader(Block):
                 if root._sent_id is not None:
                     last_bundle_id = root._sent_id.split('/', 1)[0]
                 bundle.add_tree(root)
-                if root.newdoc:
-                    self._docs_loaded += 1
-                    if root.newdoc is not True:
-                        document.meta["docname"] = root.newdoc
+                self._docs_loaded += 1
+                if root.newdoc and root.newdoc is not True:
+                    document.meta["docname"] = root.newdoc
                 document.meta['global.Entity'] = self._global_entity
                 document.meta['loaded_from'] = self.filename
 
@@ -232,21 +236,20 @@ class BaseReader(Block):
                         filehandle = self.next_filehandle()
                         logging.info(f"Reading {self.files.filename}")
                         continue
-                    self.finished = not self.files.has_next_file()
+                    # The first tree of the next file would start a new document.
+                    self.finished = not self.files.has_next_file() or bool(self._max_docs_loaded())
                     break
                 if trees_loaded == 0:
                     document.meta['loaded_from'] = self.filename
                     document.meta['global.Entity'] = self._global_entity
-                    # Parameter max_docs is primarily aimed for counting UD docs, ie. trees with newdoc.
-                    # However, it could be useful even when working with files without the newdoc annotations,
-                    # e.g. when using files='!*.conllu' or bundles_per_doc, in which case we count the Udapi documents
-                    # so even if the first tree in udapi.Document does not have newdoc, we count it as a new document.
-                    # The cases where newdoc is used are checked further below.
-                    if not root.newdoc:
-                        if self.max_docs and self._docs_loaded >= self.max_docs:
-                            self.finished = True
-                            return
-                        self._docs_loaded += 1
+                # Parameter max_docs is primarily aimed for counting UD docs, ie. trees with newdoc.
+                # However, it could be useful even when working with files without the newdoc annotations,
+                # e.g. when using files='!*.conllu' or bundles_per_doc, in which case we count the Udapi documents
+                # so even if the first tree in udapi.Document does not have newdoc, we count it as a new document.
+                starts_doc = root.newdoc or trees_loaded == 0
+                if starts_doc and self._max_docs_loaded():
+                    self.finished = True
+                    return
 
                 add_to_the_last_bundle = False
                 trees_loaded += 1
@@ -268,9 +271,6 @@ class BaseReader(Block):
 
                 # The `# newdoc` comment in CoNLL-U marks a start of a new document.
                 if root.newdoc:
-                    if self.max_docs and self._docs_loaded >= self.max_docs:
-                        self.finished = True
-                        return
                     if not bundle and root.newdoc is not True:
                         document.meta["docname"] = root.newdoc
                     if bundle and self.split_docs:
@@ -280,11 +280,14 @@ class BaseReader(Block):
                                             len(orig_bundles))
                         self.finished = False
                         return
-                    self._docs_loaded += 1
 
                 # assign new/next bundle to `bundle` if needed
                 if not bundle or not add_to_the_last_bundle:
                     if self.bundles_per_doc and bundle and self.bundles_per_doc == bundle.number:
+                        # This tree would start a new document.
+                        if self._max_docs_loaded():
+                            self.finished = True
+                            return
                         self._buffer = root
                         if orig_bundles:
                             logging.warning("bundles_per_doc=%d but the doc had contained %d bundles",
@@ -302,6 +305,8 @@ class BaseReader(Block):
                             bundle.bundle_id = last_bundle_id
 
                 bundle.add_tree(root)
+                if starts_doc:
+                    self._docs_loaded += 1
 
                 # If bundles_per_doc is set and we have read the specified number of bundles,
                 # we should end the current document and return.
@@ -311,6 +316,7 @@ class BaseReader(Block):
                 # and store it in the buffer (and include it into the next document).
                 if self.bundles_per_doc and self.bundles_per_doc == bundle.number \
                    and not self.is_multizone_reader():
+                    self.finished = bool(self._max_docs_loaded())
                     return
 
         # Running garbage collector now takes about 0.36s for a 720k-words (68MiB) conllu file
-- 
2.43.0


From 9b91f073eeb7ae7e7b08c4c0486fecfc60522fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:57 +0000
Subject: [PATCH 038/125] fix: merge=1 must not join sentences of different
 files, global.Entity does not apply to the next file, documents are named
 after the first file

---
 udapi/core/basereader.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 79b99ed..69b7e1b 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -70,6 +70,9 @@ class BaseReader(Block):
 
     def next_filehandle(self):
         """Go to the next file and retrun its filehandle."""
+        # The header of the previous file does not apply to the documents in the next file.
+        if not self.merge:
+            self._global_entity = None
         return self.files.next_filehandle()
 
     def _no_file_started(self):
@@ -137,10 +140,12 @@ class BaseReader(Block):
             except NotImplementedError:
                 return False
 
-            document.meta['loaded_from'] = self.filename
+            # With merge=1, the document is named according to the first file (as in process_document).
+            if not document.bundles:
+                document.meta['loaded_from'] = self.filename
+                if trees and trees[0].newdoc and trees[0].newdoc is not True:
+                    document.meta["docname"] = trees[0].newdoc
             document.meta['global.Entity'] = self._global_entity
-            if trees and trees[0].newdoc and trees[0].newdoc is not True:
-                document.meta["docname"] = trees[0].newdoc
 
             bundle, last_bundle_id = None, ''
             for root in trees:
@@ -235,6 +240,8 @@ class BaseReader(Block):
                     if (trees_loaded == 0 or self.merge) and self.files.has_next_file():
                         filehandle = self.next_filehandle()
                         logging.info(f"Reading {self.files.filename}")
+                        # A sentence never continues (in another zone) in the next file.
+                        last_bundle_id = ''
                         continue
                     # The first tree of the next file would start a new document.
                     self.finished = not self.files.has_next_file() or bool(self._max_docs_loaded())
-- 
2.43.0


From 498755c750e026c154f6f134e21aaecf54262390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 039/125] fix: read.AddText failed with IndexError at the end
 of the text

---
 udapi/block/read/addtext.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/addtext.py b/udapi/block/read/addtext.py
index 040174b..da2e5e2 100644
--- a/udapi/block/read/addtext.py
+++ b/udapi/block/read/addtext.py
@@ -33,7 +33,7 @@ class AddText(BaseReader):
             return
         text = ''.join(self.filehandle.readlines())
         i, end, was_newpar = 0, len(text), True
-        while i <= end and text[i].isspace():
+        while i < end and text[i].isspace():
             i += 1
 
         for bundle in document.bundles:
@@ -44,10 +44,10 @@ class AddText(BaseReader):
             for node in root.token_descendants:
                 if text[i:i+len(node.form)] == node.form:
                     i += len(node.form)
-                    if i > end or text[i].isspace():
+                    if i == end or text[i].isspace():
                         del node.misc['SpaceAfter']
                         was_newpar = i+1 < end and text[i+1] == '\n' and text[i] == '\n'
-                        while i <= end and text[i].isspace():
+                        while i < end and text[i].isspace():
                             i += 1
                     else:
                         node.misc['SpaceAfter'] = 'No'
-- 
2.43.0


From 5d6cb380bee02a1f28ad0e33d0c1c1fb747ab0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 040/125] fix: read.AddSentences never went to the second file
 and never finished if there was one

---
 udapi/block/read/addsentences.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/read/addsentences.py b/udapi/block/read/addsentences.py
index f676fbe..1a773f9 100644
--- a/udapi/block/read/addsentences.py
+++ b/udapi/block/read/addsentences.py
@@ -35,8 +35,10 @@ class AddSentences(BaseReader):
         return False
 
     def process_document(self, document):
+        # One file may contain the sentences of several documents,
+        # but if more files are given, each document has its own file.
         filehandle = self.filehandle
-        if filehandle is None:
+        if filehandle is None or self.files.number_of_files > 1:
             filehandle = self.next_filehandle()
             if filehandle is None:
                 self.finished = True
-- 
2.43.0


From 47bc6c18658b52ee7bf6d797f2998d3d24ee87f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 041/125] fix: read.Ccv failed at the end of the file when
 reading sentences one by one

---
 udapi/block/read/ccv.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/udapi/block/read/ccv.py b/udapi/block/read/ccv.py
index eb44936..6e61682 100644
--- a/udapi/block/read/ccv.py
+++ b/udapi/block/read/ccv.py
@@ -17,7 +17,8 @@ class Ccv(BaseReader):
     """
     def __init__(self, tokenize=True, **kwargs):
         self.tokenize = tokenize
-        self._cache = None
+        self._cache = []
+        self._cached_filehandle = None
         super().__init__(**kwargs)
 
     @staticmethod
@@ -29,14 +30,11 @@ class Ccv(BaseReader):
         return False
 
     def read_tree(self):
-        if self._cache:
-            return self._cache.pop()
-        else:
-            trees = self.read_trees()
-            if not trees:
-                return None
-            self._cache = list(reversed(trees[1:]))
-            return trees[0]
+        # The whole file must be loaded at once (and just once).
+        if self._cached_filehandle is not self.filehandle:
+            self._cache = list(reversed(self.read_trees()))
+            self._cached_filehandle = self.filehandle
+        return self._cache.pop() if self._cache else None
 
     def read_trees(self):
         if self.filehandle is None:
-- 
2.43.0


From 71b0b0748ef27852ee5ded86f29535eff4335e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 042/125] fix: read.Sentences newdoc_if_empty_line=1 failed on
 an empty input

---
 udapi/block/read/sentences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/sentences.py b/udapi/block/read/sentences.py
index 7487d58..2d25cf5 100644
--- a/udapi/block/read/sentences.py
+++ b/udapi/block/read/sentences.py
@@ -59,5 +59,5 @@ class Sentences(BaseReader):
 
     # The first line in a file also marks a start of new document
     def after_process_document(self, document):
-        if self.newdoc_if_empty_line:
+        if self.newdoc_if_empty_line and document.bundles:
             document.bundles[0].trees[0].newdoc = True
-- 
2.43.0


From d08b8aeb3b0e06161cd25b638b49c4a585d20a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:09 +0000
Subject: [PATCH 043/125] fix: read.Conll2012 failed on files starting with an
 empty line or a superfluous comment

---
 udapi/block/read/conll2012.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/block/read/conll2012.py b/udapi/block/read/conll2012.py
index f4b73dc..9b38451 100644
--- a/udapi/block/read/conll2012.py
+++ b/udapi/block/read/conll2012.py
@@ -136,8 +136,9 @@ class Conll2012(udapi.block.read.conllu.Conllu):
             raise NotImplementedError("TODO implement max_docs in read.Conll2012")
         # Corref-PT does not put an empty line before #end document,
         # so we need to split both on #end document and empty lines.
-        return [self.read_tree_from_lines(s.split('\n')) for s in
-                re.split(r'\n\n+|\n#end document\n', self.filehandle.read()) if s]
+        trees = [self.read_tree_from_lines(s.split('\n')) for s in
+                 re.split(r'\n\n+|\n#end document\n', self.filehandle.read()) if s]
+        return [tree for tree in trees if tree is not None]
 
     def read_tree(self):
         raise NotImplementedError("TODO implement read_tree in read.Conll2012")
-- 
2.43.0


From b69c3bc40d6f512d591c1f81544c996d039881af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:56 +0000
Subject: [PATCH 044/125] fix: read.Vislcg: superfluous empty lines must not
 lose sentences, MWT at the end of a sentence was not created

---
 udapi/block/read/vislcg.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index 4c5a87a..d7b94f6 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -19,7 +19,9 @@ class Vislcg(BaseReader):
         for line in self.filehandle:
             line = line.rstrip()
             if line == '':
-                break
+                if len(parents) > 1:
+                    break
+                continue  # skip superfluous empty lines, so that None means the end of file
             if line[0] == '#':
                 root.comment += line[1:] + "\n"
                 continue
@@ -30,24 +32,11 @@ class Vislcg(BaseReader):
                 parents.append(parent_ord)
                 continue
 
-            if words:
-                words[0].form = form
-                if len(words) > 1:
-                    split_forms = form.split()
-                    if len(words) == len(split_forms):
-                        for word, split_form in zip(words, split_forms):
-                            word.form = split_form
-                    else:
-                        for word in words[1:]:
-                            word.form = '_'
-                    root.create_multiword_token(words, form=form)
-                words = []
+            self._fill_forms(words, form, root)
+            words = []
             form = line[2:-2]
 
-        if words:
-            words[0].form = form
-            for word in words[1:]:
-                word.form = '_'
+        self._fill_forms(words, form, root)
 
         nodes = root.descendants(add_self=True)
         if len(nodes) == 1:
@@ -60,6 +49,20 @@ class Vislcg(BaseReader):
 
         return root
 
+    @staticmethod
+    def _fill_forms(words, form, root):
+        if words:
+            words[0].form = form
+            if len(words) > 1:
+                split_forms = form.split()
+                if len(words) == len(split_forms):
+                    for word, split_form in zip(words, split_forms):
+                        word.form = split_form
+                else:
+                    for word in words[1:]:
+                        word.form = '_'
+                root.create_multiword_token(words, form=form)
+
     @staticmethod
     def _node(line, root):
         # line contains "lemma" xpos feat1 feat2 .. featN @deprel #ord->parent.ord
-- 
2.43.0


From b22c165f35daec22b5faa0d43bfbb10c42a7b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:58 +0000
Subject: [PATCH 045/125] fix: read.Conllu fix_cycles=1 must attach a
 self-attached node to the root only

---
 udapi/block/read/conllu.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index cf325c4..8efa398 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -198,8 +198,7 @@ class Conllu(BaseReader):
             if node is parent:
                 if self.fix_cycles:
                     logging.warning("Ignoring a cycle (attaching to the root instead):\n%s", node)
-                    node._parent = root
-                    root._children.append(node)
+                    parent = root
                 else:
                     raise ValueError(f"Detected a cycle: {node} attached to itself")
             elif node._children:
-- 
2.43.0


From cd69baf494cc5ef136f6f7b73436f53609822c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:01 +0000
Subject: [PATCH 046/125] fix: readers must refuse negative HEAD

---
 udapi/block/read/conll.py  | 2 ++
 udapi/block/read/conllu.py | 2 ++
 udapi/block/read/vislcg.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index d0aef1e..745878e 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -128,6 +128,8 @@ class Conll(udapi.block.read.conllu.Conllu):
             root._descendants = []
 
         # Set dependency parents (now, all nodes of the tree are created).
+        if min(parents) < 0:
+            raise ValueError("Negative HEAD (%d) in %r" % (min(parents), lines))
         for node_ord, node in enumerate(nodes[1:], 1):
             try:
                 parent = nodes[parents[node_ord]]
diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 8efa398..e162d01 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -190,6 +190,8 @@ class Conllu(BaseReader):
             root._descendants = []
 
         # Set dependency parents (now, all nodes of the tree are created).
+        if min(parents) < 0:
+            raise ValueError("Negative HEAD (%d) in %r" % (min(parents), lines))
         for node_ord, node in enumerate(nodes[1:], 1):
             try:
                 parent = nodes[parents[node_ord]]
diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index d7b94f6..7699dd6 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -41,6 +41,8 @@ class Vislcg(BaseReader):
         nodes = root.descendants(add_self=True)
         if len(nodes) == 1:
             return None
+        if min(parents) < 0:
+            raise ValueError("Negative HEAD (%d)" % min(parents))
         for node_ord, node in enumerate(nodes[1:], 1):
             try:
                 node.parent = nodes[parents[node_ord]]
-- 
2.43.0


From 08c604654360ccaea530f577726b4967d58d1946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:04 +0000
Subject: [PATCH 047/125] fix: sentences with empty nodes only must not be lost
 when loading CoNLL-U

---
 udapi/block/read/conll.py  | 2 +-
 udapi/block/read/conllu.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index 745878e..b789921 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -114,7 +114,7 @@ class Conll(udapi.block.read.conllu.Conllu):
 
         # If no nodes were read from the filehandle (so only root remained in nodes),
         # we return None as a sign of failure (end of file or more than one empty line).
-        if len(nodes) == 1:
+        if len(nodes) == 1 and not root.empty_nodes:
             return None
 
         # Empty sentences are not allowed in CoNLL-U,
diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index e162d01..fe11cc8 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -176,7 +176,7 @@ class Conllu(BaseReader):
 
         # If no nodes were read from the filehandle (so only root remained in nodes),
         # we return None as a sign of failure (end of file or more than one empty line).
-        if len(nodes) == 1:
+        if len(nodes) == 1 and not root.empty_nodes:
             return None
 
         # Empty sentences are not allowed in CoNLL-U,
-- 
2.43.0


From a13dbf974857da519e5266584262c448bcbc505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:27 +0000
Subject: [PATCH 048/125] fix: files=@filelist: absolute paths were prefixed
 with the directory of the list (instead of the relative ones), empty lines
 and @- failed

---
 udapi/core/files.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/udapi/core/files.py b/udapi/core/files.py
index be59b2c..234d282 100644
--- a/udapi/core/files.py
+++ b/udapi/core/files.py
@@ -69,12 +69,15 @@ class Files(object):
             if not filenames:
                 raise RuntimeError('No filenames matched "%s" pattern' % pattern)
         elif token[0] == '@':
-            filelist_name = sys.stdin if token == '@-' else token[1:]
-            with open(filelist_name) as filelist:
-                filenames = [line.rstrip('\n') for line in filelist]
+            if token == '@-':
+                lines = sys.stdin.readlines()
+            else:
+                with open(token[1:]) as filelist:
+                    lines = filelist.readlines()
+            # Relative paths are relative to the directory of the filelist.
             directory = os.path.dirname(token[1:])
-            if directory != '.':
-                filenames = [f if f[0] != '/' else directory + '/' + f for f in filenames]
+            filenames = [line.rstrip('\n') for line in lines]
+            filenames = [f if f == '-' else os.path.join(directory, f) for f in filenames if f]
         else:
             filenames = [token]
         return filenames
-- 
2.43.0


From 5d0665e814533a5168fab49a43b958f2988d35c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:07 +0000
Subject: [PATCH 049/125] fix: write.Conllu must not split comments on U+2028
 and other characters which are no newlines in CoNLL-U

---
 udapi/block/write/conllu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 2573b5a..84c3ec3 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -1,5 +1,6 @@
 """Conllu class is a a writer of files in the CoNLL-U format."""
 import json
+import re
 from udapi.core.basewriter import BaseWriter
 
 class Conllu(BaseWriter):
@@ -25,7 +26,8 @@ class Conllu(BaseWriter):
 
         # If tree.comment contains placeholders $NEWDOC,...$TEXT, replace them with the actual
         # value of the attribute and make note on which line (i_*) they were present.
-        comment_lines = tree.comment.splitlines()
+        # Only newlines separate the lines (str.splitlines() would split also on e.g. U+2028).
+        comment_lines = re.split(r'\r\n?|\n', tree.comment)
         i_newdoc, i_newpar, i_sent_id, i_text, i_global_entity = -1, -1, -1, -1, -1
         for i, c_line in enumerate(comment_lines):
             if c_line == '$SENT_ID':
-- 
2.43.0


From c48764154038fed535adcb8ed701737fee877d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 050/125] fix: read.Conllup must not apply the global.columns
 header of the first file to the next files

---
 udapi/block/read/conllup.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/block/read/conllup.py b/udapi/block/read/conllup.py
index 16d83d0..605e6ce 100644
--- a/udapi/block/read/conllup.py
+++ b/udapi/block/read/conllup.py
@@ -37,13 +37,14 @@ class Conllup(udapi.block.read.conll.Conll):
         """
         super().__init__(**kwargs)
         self.save_global_columns = save_global_columns
-        if attributes == 'autodetect':
+        self.autodetect = attributes == 'autodetect'
+        if self.autodetect:
             self.node_attributes = None
         else:
             self.node_attributes = attributes.split(',')
 
     def parse_comment_line(self, line, root):
-        if self.node_attributes is None:
+        if self.autodetect:
             global_columns_match = RE_GLOBAL_COLUMNS.match(line)
             if global_columns_match is None:
                 return super().parse_comment_line(line, root)
-- 
2.43.0


From ad5cbff4979af5b6a11d42c01cb0f1fd781e942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:23 +0000
Subject: [PATCH 051/125] fix: read.AddSentences of an open filehandle never
 finished

---
 udapi/block/read/addsentences.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/udapi/block/read/addsentences.py b/udapi/block/read/addsentences.py
index 1a773f9..a710a0c 100644
--- a/udapi/block/read/addsentences.py
+++ b/udapi/block/read/addsentences.py
@@ -37,8 +37,7 @@ class AddSentences(BaseReader):
     def process_document(self, document):
         # One file may contain the sentences of several documents,
         # but if more files are given, each document has its own file.
-        filehandle = self.filehandle
-        if filehandle is None or self.files.number_of_files > 1:
+        if self._no_file_started() or self.files.number_of_files > 1:
             filehandle = self.next_filehandle()
             if filehandle is None:
                 self.finished = True
-- 
2.43.0


From f5774010cc1820cac53021efe2e37d927c0e6d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 052/125] fix: global.Entity was lost when reading sentences
 one by one and the first sentence did not have it

---
 udapi/core/basereader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 69b7e1b..008240f 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -248,7 +248,6 @@ class BaseReader(Block):
                     break
                 if trees_loaded == 0:
                     document.meta['loaded_from'] = self.filename
-                    document.meta['global.Entity'] = self._global_entity
                 # Parameter max_docs is primarily aimed for counting UD docs, ie. trees with newdoc.
                 # However, it could be useful even when working with files without the newdoc annotations,
                 # e.g. when using files='!*.conllu' or bundles_per_doc, in which case we count the Udapi documents
@@ -312,6 +311,7 @@ class BaseReader(Block):
                             bundle.bundle_id = last_bundle_id
 
                 bundle.add_tree(root)
+                document.meta['global.Entity'] = self._global_entity
                 if starts_doc:
                     self._docs_loaded += 1
 
-- 
2.43.0


From 32147e8c7960695afdb4074ead4e14a21ed84ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 053/125] fix: comments such as sent_id_old must not be taken
 for sent_id

---
 udapi/block/read/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index fe11cc8..6a6f1d5 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -10,7 +10,7 @@ from udapi.core.node import Node
 # Compile a set of regular expressions that will be searched over the lines.
 # The equal sign after sent_id was added to the specification in UD v2.0.
 # This reader accepts also older-style sent_id (until UD v2.0 treebanks are released).
-RE_SENT_ID = re.compile(r'^# sent_id\s*=?\s*(\S+)')
+RE_SENT_ID = re.compile(r'^# sent_id(?:\s*=\s*|\s+)(\S+)')
 RE_TEXT = re.compile(r'^# text\s*=\s*(.*)')
 RE_NEWPARDOC = re.compile(r'^# (newpar|newdoc)(?:\s+id\s*=\s*(.+))?$')
 RE_JSON = re.compile(r'^# (doc_)?json_([^ =]+)\s*=\s*(.+)')
-- 
2.43.0


From 55c42040a15c7467a20a0bf4beb39031453495fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 054/125] fix: a reader which has finished must not read again
 (read.Ccv failed) if the scenario goes on because of another reader

---
 udapi/core/basereader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 008240f..e81c6bd 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -194,6 +194,9 @@ class BaseReader(Block):
     # Maybe the code could be refactored, but it is speed-critical,
     # so benchmarking is needed because calling extra methods may result in slowdown.
     def process_document(self, document):
+        # Other readers in the scenario may need more rounds.
+        if self.finished:
+            return
         # Temporarily disabling garbage collection makes the loading much faster.
         gc_was_enabled = gc.isenabled()
         gc.disable()
-- 
2.43.0


From a1cd451880e5237e404caac9e335fb50398cae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:01 +0000
Subject: [PATCH 055/125] fix: bundles_per_doc with zone: bundles without
 sent_id got the id ?

---
 udapi/core/root.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 535d24a..ece4bd6 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -101,8 +101,6 @@ class Root(Node):
             self._sent_id = self._bundle.address() + slashzone
         elif self._sent_id:
             self._sent_id = self._sent_id.split('/', 1)[0] + slashzone
-        else:
-            self._sent_id = '?' + slashzone
 
     @property
     def parent(self):
-- 
2.43.0


From e6fa490f968dea0b97bc32aaae9eb4ba4d11b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 056/125] fix: max_docs with merge=1 must not continue with the
 next file

---
 udapi/block/read/conllu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 6a6f1d5..a2d40e4 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -99,11 +99,12 @@ class Conllu(BaseReader):
             tree = self.read_tree()
             if tree is None:
                 return trees
+            # The tree which exceeds max_docs is included, so that udapi.core.basereader knows it should stop.
+            trees.append(tree)
             if tree.newdoc:
                 if loaded_docs == self.max_docs:
                     return trees
                 loaded_docs += 1
-            trees.append(tree)
 
     def read_tree(self):
         if self.filehandle is None:
-- 
2.43.0


From a20e51d120c200ebaf8fc52c55fa928e69a634ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 057/125] fix: writers must give sys.stdout back as they found
 it, also after a failure, and must not close the sys.stdout of the program

---
 udapi/core/basewriter.py | 41 +++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/udapi/core/basewriter.py b/udapi/core/basewriter.py
index 071ec12..d85e12b 100644
--- a/udapi/core/basewriter.py
+++ b/udapi/core/basewriter.py
@@ -17,6 +17,7 @@ class BaseWriter(Block):
         super().__init__(**kwargs)
         self.orig_files = files
         self.orig_stdout = sys.stdout
+        self._redirected = None
         if filehandle is not None:
             files = None
             self.orig_files = '<filehandle>'
@@ -53,17 +54,19 @@ class BaseWriter(Block):
     def before_process_document(self, document):
         if document:
             udapi.core.coref.store_coref_to_misc(document)
+        # The output which will be restored in after_process_document.
+        # It may differ from the sys.stdout at the time when this block was created.
+        self.orig_stdout = sys.stdout
         if self.orig_files == '<filehandle>':
             logging.info('Writing to filehandle.')
-            sys.stdout = self.files.filehandle
+            self._redirect_stdout(self.files.filehandle)
             return
-        old_filehandle = sys.stdout
         if self.orig_files == '-':
             if self.docname_as_file:
                 docname = document.meta.get('docname', None)
                 if docname is not None:
                     logging.info('Writing to file %s.', docname)
-                    sys.stdout = self._open(docname)
+                    self._redirect_stdout(self._open(docname))
                 else:
                     logging.warning('docname_as_file=1 but the document contains no docname')
             elif self.overwrite or self.path:
@@ -82,11 +85,9 @@ class BaseWriter(Block):
                             new_ext = old_ext
                         docname = os.path.join(new_dir, new_file + new_ext)
                     logging.info('Writing to file %s.', docname)
-                    sys.stdout = self._open(docname)
+                    self._redirect_stdout(self._open(docname))
                 else:
                     logging.warning('using overwrite or path but document.meta["loaded_from"] is None')
-            else:
-                sys.stdout = self.orig_stdout
         else:
             filename = self.next_filename()
             if filename is None:
@@ -94,19 +95,33 @@ class BaseWriter(Block):
                                 % self.orig_files)
             elif filename == '-':
                 logging.info('Writing to stdout.')
-                sys.stdout = self.orig_stdout
             else:
                 logging.info('Writing to file %s.', filename)
-                sys.stdout = self._open(filename)
-        if old_filehandle not in (sys.stdout, self.orig_stdout):
-            old_filehandle.close()
+                self._redirect_stdout(self._open(filename))
 
     def _open(self, filename):
         Path(filename).parent.mkdir(parents=True, exist_ok=True)
         return open(filename, 'wt', encoding=self.encoding, newline=self.newline)
 
+    def _redirect_stdout(self, filehandle):
+        self._redirected = filehandle
+        sys.stdout = filehandle
+
+    def _restore_stdout(self):
+        """Restore sys.stdout (if redirected) and close the file opened by this block."""
+        if self._redirected is not None:
+            filehandle, self._redirected = self._redirected, None
+            sys.stdout = self.orig_stdout
+            if filehandle is not self.orig_stdout:
+                filehandle.close()
+
+    def apply_on_document(self, document):
+        try:
+            super().apply_on_document(document)
+        finally:
+            # If an exception was raised, after_process_document has not been (completely) executed.
+            self._restore_stdout()
+
     def after_process_document(self, document):
         sys.stdout.flush()
-        if sys.stdout != self.orig_stdout:
-            sys.stdout.close()
-            sys.stdout = self.orig_stdout
+        self._restore_stdout()
-- 
2.43.0


From da952635ff5e8659654d68437ba9ee337cd70069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:05 +0000
Subject: [PATCH 058/125] fix: writers must not close the filehandle of the
 user after the first document

---
 udapi/core/basewriter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/basewriter.py b/udapi/core/basewriter.py
index d85e12b..cd200a1 100644
--- a/udapi/core/basewriter.py
+++ b/udapi/core/basewriter.py
@@ -112,7 +112,8 @@ class BaseWriter(Block):
         if self._redirected is not None:
             filehandle, self._redirected = self._redirected, None
             sys.stdout = self.orig_stdout
-            if filehandle is not self.orig_stdout:
+            # The filehandle specified by the user may be needed for the next document.
+            if filehandle is not self.files.filehandle:
                 filehandle.close()
 
     def apply_on_document(self, document):
-- 
2.43.0


From d346dd73bb508d940a5463b0fef8364fb8af87c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:26 +0000
Subject: [PATCH 059/125] fix: eval.* with files=out.txt failed (there are more
 documents than filenames) and did not restore sys.stdout

---
 udapi/block/eval/conll17.py | 12 ++++++++++++
 udapi/block/eval/conll18.py | 12 ++++++++++++
 udapi/block/eval/f1.py      |  9 +++++++++
 udapi/block/eval/parsing.py | 10 ++++++++++
 udapi/core/basewriter.py    |  6 ++++--
 5 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/udapi/block/eval/conll17.py b/udapi/block/eval/conll17.py
index 61e8638..40a4fcc 100644
--- a/udapi/block/eval/conll17.py
+++ b/udapi/block/eval/conll17.py
@@ -157,13 +157,25 @@ class Conll17(BaseWriter):
             scores = [str(count[s]) for s in ('pred', 'gold', 'Words', 'LAS')]
             print(' '.join(scores))
 
+    def apply_on_document(self, document):
+        if self.print_raw:
+            super().apply_on_document(document)
+        else:
+            # The results are printed in process_end, there is no output for each document.
+            self.process_document(document)
+
     def process_end(self):
         if not self.print_results:
             return
 
         # Redirect the default filehandle to the file specified by self.files
         self.before_process_document(None)
+        try:
+            self._print_results()
+        finally:
+            self.after_process_document(None)
 
+    def _print_results(self):
         metrics = ('Words', 'UPOS', 'XPOS', 'Feats', 'Lemma', 'UAS', 'LAS', 'CLAS')
         print("Metric     | Precision |    Recall |  F1 Score | AligndAcc")
         print("-----------+-----------+-----------+-----------+-----------")
diff --git a/udapi/block/eval/conll18.py b/udapi/block/eval/conll18.py
index 22f42a4..785034f 100644
--- a/udapi/block/eval/conll18.py
+++ b/udapi/block/eval/conll18.py
@@ -199,13 +199,25 @@ class Conll18(BaseWriter):
                 return False
         return True
 
+    def apply_on_document(self, document):
+        if self.print_raw:
+            super().apply_on_document(document)
+        else:
+            # The results are printed in process_end, there is no output for each document.
+            self.process_document(document)
+
     def process_end(self):
         if not self.print_results:
             return
 
         # Redirect the default filehandle to the file specified by self.files
         self.before_process_document(None)
+        try:
+            self._print_results()
+        finally:
+            self.after_process_document(None)
 
+    def _print_results(self):
         metrics = ('Words', 'UPOS', 'XPOS', 'UFeats', 'AllTags',
                    'Lemmas', 'UAS', 'LAS', 'CLAS', 'MLAS', 'BLEX')
         if self.print_counts:
diff --git a/udapi/block/eval/f1.py b/udapi/block/eval/f1.py
index e488977..8a39435 100644
--- a/udapi/block/eval/f1.py
+++ b/udapi/block/eval/f1.py
@@ -163,10 +163,19 @@ class F1(BaseWriter):
         recall = self.correct / gold
         return 2 * precision * recall / ((precision + recall) or 1)
 
+    def apply_on_document(self, document):
+        # The results are printed in process_end, there is no output for each document.
+        self.process_document(document)
+
     def process_end(self):
         # Redirect the default filehandle to the file specified by self.files
         self.before_process_document(None)
+        try:
+            self._print_results()
+        finally:
+            self.after_process_document(None)
 
+    def _print_results(self):
         if not self.visited_zones:
             logging.warning('Block eval.F1 was not applied to any zone. '
                             'Check the parameter zones=%s', self.zones)
diff --git a/udapi/block/eval/parsing.py b/udapi/block/eval/parsing.py
index 6923c1f..c638885 100644
--- a/udapi/block/eval/parsing.py
+++ b/udapi/block/eval/parsing.py
@@ -31,9 +31,19 @@ class Parsing(BaseWriter):
                     self.correct_ulas += 1
 
 
+    def apply_on_document(self, document):
+        # The results are printed in process_end, there is no output for each document.
+        self.process_document(document)
+
     def process_end(self):
         # Redirect the default filehandle to the file specified by self.files
         self.before_process_document(None)
+        try:
+            self._print_results()
+        finally:
+            self.after_process_document(None)
+
+    def _print_results(self):
         print('nodes = %d' % self.total)
         print('UAS           = %6.2f' % (100 * self.correct_uas / self.total))
         print('LAS (deprel)  = %6.2f' % (100 * self.correct_las / self.total))
diff --git a/udapi/core/basewriter.py b/udapi/core/basewriter.py
index cd200a1..3bc850d 100644
--- a/udapi/core/basewriter.py
+++ b/udapi/core/basewriter.py
@@ -124,5 +124,7 @@ class BaseWriter(Block):
             self._restore_stdout()
 
     def after_process_document(self, document):
-        sys.stdout.flush()
-        self._restore_stdout()
+        try:
+            sys.stdout.flush()
+        finally:
+            self._restore_stdout()
-- 
2.43.0


From 08113af0c2f4ed02ebdd575873443afded40c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:29 +0000
Subject: [PATCH 060/125] fix: corefud.PrintMentions must restore sys.stdout
 also after a failure

---
 udapi/block/corefud/printmentions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/udapi/block/corefud/printmentions.py b/udapi/block/corefud/printmentions.py
index 97ebd6b..86751bb 100644
--- a/udapi/block/corefud/printmentions.py
+++ b/udapi/block/corefud/printmentions.py
@@ -50,6 +50,12 @@ class PrintMentions(Block):
             return 'exclude'
         raise ValueError('unknown value ' + value)
 
+    def apply_on_document(self, document):
+        try:
+            super().apply_on_document(document)
+        finally:
+            self.print_block._restore_stdout()
+
     def before_process_document(self, document):
         self.print_block.before_process_document(document)
 
-- 
2.43.0


From 9e735316c6e26db0dc43ffc4bca7c6e27bb8f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:49 +0000
Subject: [PATCH 061/125] fix: write.TextModeTrees must not change the
 environment (FORCE_COLOR) and color=auto must be decided for each output

---
 udapi/block/write/textmodetrees.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 885f797..2a4b594 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -187,6 +187,7 @@ class TextModeTrees(BaseWriter):
         self.indent = indent
         self.minimize_cross = minimize_cross
         self.color = color
+        self._to_restore = None
         self.print_undef_as = print_undef_as
         self.print_doc_meta = print_doc_meta
         self.print_comments = print_comments
@@ -344,6 +345,7 @@ class TextModeTrees(BaseWriter):
         (terminal, not redirected to a file).
         """
         super().before_process_document(document)
+        self._to_restore = (self.color, os.environ.get("FORCE_COLOR"))
         if self.color == 'auto':
             self.color = sys.stdout.isatty()
         if self.color:
@@ -357,6 +359,17 @@ class TextModeTrees(BaseWriter):
                 if key[0] != '_':
                     print('%s = %s' % (key, value))
 
+    def _restore_stdout(self):
+        # The next document may be printed to another output and
+        # the environment should not be changed for the rest of the program.
+        if self._to_restore:
+            (self.color, force_color), self._to_restore = self._to_restore, None
+            if force_color is not None:
+                os.environ["FORCE_COLOR"] = force_color
+            else:
+                os.environ.pop("FORCE_COLOR", None)
+        super()._restore_stdout()
+
     def _add(self, idx, text):
         self.lines[idx] += text
         self.lengths[idx] += len(text)
-- 
2.43.0


From 611cd37ebab993576850aa2fb2a5b7aaa404f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 062/125] fix: node.draw(files=...) printed to stdout instead
 of the file

---
 udapi/core/node.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index d758d7c..42861fb 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -868,7 +868,7 @@ class Node(object):
     def print_subtree(self, **kwargs):
         """deprecated name for draw()"""
         logging.warning("node.print_subtree() is deprecated, use node.draw() instead.")
-        TextModeTrees(**kwargs).process_tree(self)
+        self.draw(**kwargs)
 
     def draw(self, **kwargs):
         """Print ASCII visualization of the dependency structure of this subtree.
@@ -882,7 +882,13 @@ class Node(object):
         attributes: to override the default list 'form,upos,deprel'
         See TextModeTrees for details and other parameters.
         """
-        TextModeTrees(**kwargs).process_tree(self)
+        block = TextModeTrees(**kwargs)
+        # Redirect stdout if needed, but there is no document whose meta could be printed.
+        super(TextModeTrees, block).before_process_document(None)
+        try:
+            block.process_tree(self)
+        finally:
+            block.after_process_document(None)
 
     def address(self):
         """Return full (document-wide) id of the node.
-- 
2.43.0


From ae79682d4718ed14071c48daed19f8cec0ee3d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:31 +0000
Subject: [PATCH 063/125] fix: overwrite=1 and path must not create a file
 named - when the document was loaded from stdin

---
 udapi/core/basewriter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/core/basewriter.py b/udapi/core/basewriter.py
index 3bc850d..da6e547 100644
--- a/udapi/core/basewriter.py
+++ b/udapi/core/basewriter.py
@@ -71,7 +71,9 @@ class BaseWriter(Block):
                     logging.warning('docname_as_file=1 but the document contains no docname')
             elif self.overwrite or self.path:
                 docname = document.meta.get('loaded_from', None)
-                if docname is not None:
+                if docname == '-':
+                    logging.warning('using overwrite or path but the document was loaded from stdin')
+                elif docname is not None:
                     if self.path:
                         old_dir, old_filename = os.path.split(docname)
                         new_dir, new_filename = os.path.split(self.path)
-- 
2.43.0


From 0ed9e3aeb9a3245b088533dfc09a0938cd8edd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:29 +0000
Subject: [PATCH 064/125] fix: blocks must visit each bundle, tree, empty node
 and mention once although they edit the lists of them

---
 udapi/core/block.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/udapi/core/block.py b/udapi/core/block.py
index d293df6..df882b7 100644
--- a/udapi/core/block.py
+++ b/udapi/core/block.py
@@ -64,7 +64,7 @@ class Block(object):
     @not_overridden
     def process_bundle(self, bundle):
         """Process a UD bundle"""
-        for tree in bundle:
+        for tree in list(bundle):
             if self._should_process_tree(tree):
                 self.process_tree(tree)
 
@@ -101,17 +101,18 @@ class Block(object):
                 if p_entity:
                     self.process_coref_entity(entity)
                 else:
-                    for mention in entity.mentions:
+                    # A mention may be removed from the entity or sorted elsewhere in process_coref_mention.
+                    for mention in list(entity.mentions):
                         self.process_coref_mention(mention)
 
         if p_bundle or p_tree or p_node or p_empty_node:
-            for bundle_no, bundle in enumerate(document.bundles, 1):
+            for bundle_no, bundle in enumerate(list(document.bundles), 1):
                 logging.debug(f'Block {self.block_name()} processing '
                               f'bundle #{bundle_no} (id={bundle.bundle_id})')
                 if p_bundle:
                     self.process_bundle(bundle)
                 else:
-                    for tree in bundle:
+                    for tree in list(bundle):
                         if self._should_process_tree(tree):
                             if p_tree:
                                 self.process_tree(tree)
@@ -120,13 +121,13 @@ class Block(object):
                                     for node in tree.descendants:
                                         self.process_node(node)
                                 if p_empty_node:
-                                    for empty_node in tree.empty_nodes:
+                                    for empty_node in list(tree.empty_nodes):
                                         self.process_empty_node(empty_node)
 
     @not_overridden
     def process_coref_entity(self, entity):
         """This method is called on each coreference entity in the document."""
-        for mention in entity.mentions:
+        for mention in list(entity.mentions):
             self.process_coref_mention(mention)
 
     @not_overridden
-- 
2.43.0


From f22b2febd4e133d3b4948526fddee9f77f59aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:47 +0000
Subject: [PATCH 065/125] fix: util.Eval must visit each bundle, tree,
 multi-word token and mention once although the code edits the lists of them

---
 udapi/block/util/eval.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/udapi/block/util/eval.py b/udapi/block/util/eval.py
index 6e4f2ac..eff2cc1 100644
--- a/udapi/block/util/eval.py
+++ b/udapi/block/util/eval.py
@@ -72,7 +72,7 @@ class Eval(Block):
             exec(self.expand_eval_code(self.doc))
 
         if self.bundle or self.before_bundle or self.after_bundle or self.tree or self.node or self.mwt:
-            for bundle in doc.bundles:
+            for bundle in list(doc.bundles):
                 # TODO if self._should_process_bundle(bundle):
                 self.process_bundle(bundle)
 
@@ -82,7 +82,7 @@ class Eval(Block):
                     this = entity
                     exec(self.expand_eval_code(self.coref_entity))
                 if self.coref_mention:
-                    for mention in entity.mentions:
+                    for mention in list(entity.mentions):
                         this = mention
                         exec(self.expand_eval_code(self.coref_mention))
 
@@ -98,8 +98,7 @@ class Eval(Block):
             exec(self.expand_eval_code(self.bundle))
 
         if self.tree or self.node or self.mwt:
-            trees = bundle.trees
-            for tree in trees:
+            for tree in list(bundle):
                 if self._should_process_tree(tree):
                     self.process_tree(tree)
 
@@ -123,7 +122,7 @@ class Eval(Block):
                 exec(self.expand_eval_code(self.node))
 
         if self.mwt:
-            for mwt in tree.multiword_tokens:
+            for mwt in list(tree.multiword_tokens):
                 this = mwt
                 exec(self.expand_eval_code(self.mwt))
 
-- 
2.43.0


From e9df8a3cfdee97aacb49e06cc097099933e2fcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:51 +0000
Subject: [PATCH 066/125] fix: ud.RemoveMwt must remove all multi-word tokens

---
 udapi/block/ud/removemwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/removemwt.py b/udapi/block/ud/removemwt.py
index 99c37b4..80615b5 100644
--- a/udapi/block/ud/removemwt.py
+++ b/udapi/block/ud/removemwt.py
@@ -6,7 +6,7 @@ class RemoveMwt(Block):
     """Substitute MWTs with one word representing the whole MWT."""
 
     def process_tree(self, root):
-        for mwt in root.multiword_tokens:
+        for mwt in list(root.multiword_tokens):
             words = mwt.words
             words[0].form = mwt.form
             words[0].misc = mwt.misc
-- 
2.43.0


From a3a2c9ea0216280835340cc6ef9ba267a5678a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:54 +0000
Subject: [PATCH 067/125] fix: process_start was not called on the default
 reader

---
 udapi/core/run.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/udapi/core/run.py b/udapi/core/run.py
index 8ac63e1..607b88b 100644
--- a/udapi/core/run.py
+++ b/udapi/core/run.py
@@ -169,10 +169,6 @@ class Run(object):
         return self.run_blocks(blocks)
 
     def run_blocks(self, blocks):
-        # Initialize blocks (process_start).
-        for _, block, _ in blocks:
-            block.process_start()
-
         readers = []
         for _, block, _ in blocks:
             try:
@@ -186,6 +182,10 @@ class Run(object):
             readers = [conllu_reader]
             blocks = [('read.Conllu', conllu_reader, {})] + blocks
 
+        # Initialize blocks (process_start).
+        for _, block, _ in blocks:
+            block.process_start()
+
         # Apply blocks on the data.
         finished = False
         while not finished:
-- 
2.43.0


From 970029411bf51c91b11ff2849c597289f1722156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 068/125] fix: reading from the standard input (files=-) must
 not close sys.stdin

---
 udapi/core/files.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/udapi/core/files.py b/udapi/core/files.py
index 234d282..bed9ca1 100644
--- a/udapi/core/files.py
+++ b/udapi/core/files.py
@@ -10,6 +10,13 @@ import lzma
 import itertools
 
 
+class StdinWrapper(io.TextIOWrapper):
+    """Text layer over sys.stdin.buffer, which is not closed when this layer is garbage-collected."""
+
+    def close(self):
+        pass
+
+
 class Files(object):
     """Helper class for iterating over filenames.
 
@@ -109,7 +116,7 @@ class Files(object):
         if filename is None:
             fhandle = None
         elif filename == '-':
-            fhandle = io.TextIOWrapper(sys.stdin.buffer, encoding=self.encoding)
+            fhandle = StdinWrapper(sys.stdin.buffer, encoding=self.encoding)
         elif filename == '<filehandle_input>':
             fhandle = self.filehandle
         else:
-- 
2.43.0


From 9772a5f2b85a51ba05f21dfd50c669af6694d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:38 +0000
Subject: [PATCH 069/125] fix: udapy ended with status 0 when a block raised
 SystemExit

---
 bin/udapy | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/bin/udapy b/bin/udapy
index 30cb259..7566d0d 100755
--- a/bin/udapy
+++ b/bin/udapy
@@ -71,12 +71,12 @@ else:
 logging.basicConfig(format='%(asctime)-15s [%(levelname)7s] %(funcName)s - %(message)s',
                     level=level)
 
-# Global flag to track if an unhandled exception occurred
-_unhandled_exception_occurred = False
+# Exit status to be used, i.e. non-zero if an unhandled exception occurred
+_exit_status = 0
 
 def _custom_excepthook(exc_type, exc_value, traceback):
-    global _unhandled_exception_occurred
-    _unhandled_exception_occurred = True
+    global _exit_status
+    _exit_status = 1
 
     # Call the default excepthook to allow normal error reporting
     sys.__excepthook__(exc_type, exc_value, traceback)
@@ -105,8 +105,8 @@ if __name__ == "__main__":
         # However, we cannot use `atexit.register(lambda: os._exit(1 if sys.exc_info()[0] else 0))`
         # because the Python has already exited the exception-handling block
         # (the exception/error has been already reported and sys.exc_info()[0] is None).
-        # We thus keep record whether _unhandled_exception_occurred.
-        atexit.register(lambda: os._exit(1 if _unhandled_exception_occurred else 0))
+        # We thus keep record of the _exit_status.
+        atexit.register(lambda: os._exit(_exit_status))
         atexit.register(sys.stderr.flush)
     if args.save:
         args.scenario = args.scenario + ['write.Conllu']
@@ -131,6 +131,11 @@ if __name__ == "__main__":
     # Let's prevent Python from reporting (with distracting stacktrace)
     # "BrokenPipeError: [Errno 32] Broken pipe"
     try:
-        runner.execute()
+        try:
+            runner.execute()
+        except SystemExit as error:
+            # A block called e.g. sys.exit(1). In this case, sys.excepthook is not called.
+            _exit_status = error.code if isinstance(error.code, int) else int(error.code is not None)
+            raise
     except BrokenPipeError:
         pass
-- 
2.43.0


From c2119cb4d982410fa0b18390dfb9a16b7d90b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:41 +0000
Subject: [PATCH 070/125] fix: udapy ended with status 0 when its output could
 not be written and noisily when a pipe was closed (--gc)

---
 bin/udapy | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bin/udapy b/bin/udapy
index 7566d0d..82c9212 100755
--- a/bin/udapy
+++ b/bin/udapy
@@ -85,13 +85,19 @@ def _custom_excepthook(exc_type, exc_value, traceback):
 sys.excepthook = _custom_excepthook
 
 
+def flush_stdout():
+    """Flush sys.stdout and report failures (e.g. no space left on device), which would be ignored at exit."""
+    if sys.stdout is not None:
+        sys.stdout.flush()
+
+
 # Process and provide the scenario.
 if __name__ == "__main__":
 
     # Disabling garbage collections makes the whole processing much faster.
     # Similarly, we can save several seconds by partially disabling the at-exit Python cleanup
     # (atexit hooks are called in reversed order of their registration,
-    # so flushing stdio buffers etc. will be still done before the os._exit(0) call).
+    # sys.stdout is flushed below, before the os._exit call).
     # See https://instagram-engineering.com/dismissing-python-garbage-collection-at-instagram-4dca40b29172
     # Is it safe to disable GC?
     # OS will free the memory allocated by this process after it ends anyway.
@@ -136,6 +142,10 @@ if __name__ == "__main__":
         except SystemExit as error:
             # A block called e.g. sys.exit(1). In this case, sys.excepthook is not called.
             _exit_status = error.code if isinstance(error.code, int) else int(error.code is not None)
+            flush_stdout()
             raise
+        flush_stdout()
     except BrokenPipeError:
-        pass
+        # Prevent reporting BrokenPipeError again when flushing sys.stdout at exit.
+        os.dup2(os.open(os.devnull, os.O_WRONLY), sys.stdout.fileno())
+        sys.exit(_exit_status)
-- 
2.43.0


From 3d7a85198ac500b4070a2dd9c98acc5e1f7feaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:48 +0000
Subject: [PATCH 071/125] fix: coreference blocks must not depend on the memory
 addresses of mentions

---
 udapi/block/corefud/fixinterleaved.py  | 7 +++----
 udapi/block/corefud/markinterleaved.py | 6 ++----
 udapi/block/corefud/marknested.py      | 6 ++----
 udapi/block/corefud/markpairs.py       | 6 ++----
 udapi/block/corefud/marksamesubspan.py | 6 ++----
 udapi/block/corefud/mergesamespan.py   | 6 ++----
 udapi/block/write/corefhtml.py         | 6 ++----
 7 files changed, 15 insertions(+), 28 deletions(-)

diff --git a/udapi/block/corefud/fixinterleaved.py b/udapi/block/corefud/fixinterleaved.py
index b4a42a4..7e04047 100644
--- a/udapi/block/corefud/fixinterleaved.py
+++ b/udapi/block/corefud/fixinterleaved.py
@@ -16,10 +16,9 @@ class FixInterleaved(Block):
         self.nested_same_subspan = nested_same_subspan
 
     def process_tree(self, tree):
-        mentions, deleted = set(), set()
-        for node in tree.descendants_and_empty:
-            for m in node.coref_mentions:
-                mentions.add(m)
+        # A dict (unlike a set) iterates in the order of insertion, so the result is deterministic.
+        mentions = {m: True for node in tree.descendants_and_empty for m in node.coref_mentions}
+        deleted = set()
 
         for mA, mB in itertools.combinations(mentions, 2):
             if mA in deleted or mB in deleted:
diff --git a/udapi/block/corefud/markinterleaved.py b/udapi/block/corefud/markinterleaved.py
index c00f73b..f1d1875 100644
--- a/udapi/block/corefud/markinterleaved.py
+++ b/udapi/block/corefud/markinterleaved.py
@@ -21,10 +21,8 @@ class MarkInterleaved(Block):
             return mention.entity.eid + ':' + mention.span
 
     def process_tree(self, tree):
-        mentions = set()
-        for node in tree.descendants_and_empty:
-            for m in node.coref_mentions:
-                mentions.add(m)
+        # A dict (unlike a set) iterates in the order of insertion, so the result is deterministic.
+        mentions = {m: True for node in tree.descendants_and_empty for m in node.coref_mentions}
         if len(mentions) > 1:
             for mA, mB in itertools.combinations(mentions, 2):
                 if set(mA.words).intersection(set(mB.words)):
diff --git a/udapi/block/corefud/marknested.py b/udapi/block/corefud/marknested.py
index 8db8a65..6d71a42 100644
--- a/udapi/block/corefud/marknested.py
+++ b/udapi/block/corefud/marknested.py
@@ -22,10 +22,8 @@ class MarkNested(Block):
             return mention.entity.eid + ':' + mention.span
 
     def process_tree(self, tree):
-        mentions = set()
-        for node in tree.descendants_and_empty:
-            for m in node.coref_mentions:
-                mentions.add(m)
+        # A dict (unlike a set) iterates in the order of insertion, so the result is deterministic.
+        mentions = {m: True for node in tree.descendants_and_empty for m in node.coref_mentions}
         for mA, mB in itertools.combinations(mentions, 2):
             if self.same_entity_only and mA.entity != mB.entity:
                 continue
diff --git a/udapi/block/corefud/markpairs.py b/udapi/block/corefud/markpairs.py
index cc63b38..779906f 100644
--- a/udapi/block/corefud/markpairs.py
+++ b/udapi/block/corefud/markpairs.py
@@ -84,10 +84,8 @@ class MarkPairs(Block):
             return mention.entity.eid + ':' + mention.span
 
     def process_tree(self, tree):
-        mentions = set()
-        for node in tree.descendants_and_empty:
-            for m in node.coref_mentions:
-                mentions.add(m)
+        # A dict (unlike a set) iterates in the order of insertion, so the result is deterministic.
+        mentions = {m: True for node in tree.descendants_and_empty for m in node.coref_mentions}
         self.counter['mentions'] += len(mentions)
 
         for mA, mB in itertools.combinations(mentions, 2):
diff --git a/udapi/block/corefud/marksamesubspan.py b/udapi/block/corefud/marksamesubspan.py
index f3cfd7b..24bb2cb 100644
--- a/udapi/block/corefud/marksamesubspan.py
+++ b/udapi/block/corefud/marksamesubspan.py
@@ -22,10 +22,8 @@ class MarkSameSubSpan(Block):
             return mention.entity.eid + ':' + mention.span
 
     def process_tree(self, tree):
-        mentions = set()
-        for node in tree.descendants_and_empty:
-            for m in node.coref_mentions:
-                mentions.add(m)
+        # A dict (unlike a set) iterates in the order of insertion, so the result is deterministic.
+        mentions = {m: True for node in tree.descendants_and_empty for m in node.coref_mentions}
         if len(mentions) > 1:
             for mA, mB in itertools.combinations(mentions, 2):
                 if self.same_entity_only and mA.entity != mB.entity:
diff --git a/udapi/block/corefud/mergesamespan.py b/udapi/block/corefud/mergesamespan.py
index 61b613c..7e2b762 100644
--- a/udapi/block/corefud/mergesamespan.py
+++ b/udapi/block/corefud/mergesamespan.py
@@ -16,10 +16,8 @@ class MergeSameSpan(Block):
         self.same_entity_only = same_entity_only
 
     def process_tree(self, tree):
-        mentions = set()
-        for node in tree.descendants_and_empty:
-            for m in node.coref_mentions:
-                mentions.add(m)
+        # A dict (unlike a set) iterates in the order of insertion, so the result is deterministic.
+        mentions = {m: True for node in tree.descendants_and_empty for m in node.coref_mentions}
 
         for mA, mB in itertools.combinations(mentions, 2):
             if self.same_entity_only and mA.entity != mB.entity:
diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index 1d5d471..bfc593a 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -374,11 +374,9 @@ class CorefHtml(BaseWriter):
                   f' <i class="etype">{e.etype}</i></span>', end='')
 
     def process_tree(self, tree):
-        mentions = set()
         nodes_and_empty = tree.descendants_and_empty
-        for node in nodes_and_empty:
-            for m in node.coref_mentions:
-                mentions.add(m)
+        # A dict (unlike a set) iterates in the order of insertion, so the result is deterministic.
+        mentions = {m: True for node in nodes_and_empty for m in node.coref_mentions}
 
         subspans = []
         for mention in mentions:
-- 
2.43.0


From 3263ae9d2008d8abaf20f1e336901e27c5158b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 072/125] fix: write.Conllu failed if the first comment is not
 to be printed (print_sent_id=0, newdoc=None)

---
 udapi/block/write/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 84c3ec3..3bbfd3e 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -65,7 +65,7 @@ class Conllu(BaseWriter):
         # keep them at their original position and print also all comment lines preceding them.
         # It they were missing, try to print them at the correct position.
         printed_i = -1
-        if comment_lines and comment_lines[0].startswith(' global.columns'):
+        if comment_lines[0] and comment_lines[0].startswith(' global.columns'):
             printed_i += 1
             print('#' + comment_lines[printed_i])
         if self.print_sent_id:
-- 
2.43.0


From 945e7b739e434ca315a38547326894a7fe97280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:22 +0000
Subject: [PATCH 073/125] fix: write.Conllu print_text=0 printed "#$TEXT"

---
 udapi/block/write/conllu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 3bbfd3e..02c100b 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -40,6 +40,8 @@ class Conllu(BaseWriter):
                         comment_lines[i] = ' text = ' + tree.compute_text()
                     else:
                         comment_lines[i] = ' text = ' + tree.text.replace('\n', '').replace('\r', '').rstrip()
+                else:
+                    comment_lines[i] = None
             elif c_line == '$NEWDOC':
                 i_newdoc = i
                 if self.print_sent_id and tree.newdoc:
-- 
2.43.0


From 0513bdd48ef2656baa12f38bae4acc5ebf5ce8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:36 +0000
Subject: [PATCH 074/125] fix: splitting a sentence must move also its empty
 nodes

---
 udapi/block/util/splitsentence.py |  6 ++---
 udapi/core/root.py                | 43 ++++++++++++++++++-------------
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index 81f0124..34f53db 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -67,9 +67,9 @@ class SplitSentence(Block):
                         first_node_id = split_points[i].ord
                         if i < n_new - 1:
                             next_first_node_id = split_points[i+1].ord
-                            nodes_to_move = [n for n in root.descendants if n.ord >= first_node_id and n.ord < next_first_node_id]
+                            nodes_to_move = [n for n in root.descendants_and_empty if n.ord >= first_node_id and n.ord < next_first_node_id]
                         else:
-                            nodes_to_move = [n for n in root.descendants if n.ord >= first_node_id]
+                            nodes_to_move = [n for n in root.descendants_and_empty if n.ord >= first_node_id]
                         new_root.steal_nodes(nodes_to_move)
                         self.make_zeros_roots(new_root)
                         new_root.text = new_root.compute_text()
@@ -92,7 +92,7 @@ class SplitSentence(Block):
             elif bundle.bundle_id == self.sent_id:
                 logging.info('Found!')
                 root = bundle.get_tree()
-                nodes_to_move = [n for n in root.descendants if n.ord >= self.word_id]
+                nodes_to_move = [n for n in root.descendants_and_empty if n.ord >= self.word_id]
                 if len(nodes_to_move) == 0:
                     logging.fatal('No nodes to move to the new sentence; word_id may be out of range')
                 # Create a new bundle at the end of the current document.
diff --git a/udapi/core/root.py b/udapi/core/root.py
index ece4bd6..7767cbe 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -314,18 +314,29 @@ class Root(Node):
                 node._deps = [dep for dep in node._deps if dep['parent'] not in nodes]
 
     def steal_nodes(self, nodes):
-        """Move nodes from another tree to this tree (append)."""
+        """Move nodes from another tree to this tree (append).
+
+        Empty nodes are moved if they are listed in `nodes` or if `nodes` contain all words of the other tree.
+        """
+        if not nodes:
+            return
         old_root = nodes[0].root
         for node in nodes[1:]:
             if node.root != old_root:
                 raise ValueError("steal_nodes(nodes) was called with nodes from several trees")
-        nodes = sorted(nodes)
+        empty_nodes = sorted(n for n in nodes if n.is_empty())
+        nodes = sorted(n for n in nodes if not n.is_empty())
         whole_tree = nodes == old_root.descendants
-        last_ord = new_ord = len(self._descendants)
+        if whole_tree:
+            empty_nodes = old_root.empty_nodes
+        last_word = last_ord = new_ord = len(self._descendants)
+        if self.empty_nodes and self.empty_nodes[-1]._ord > last_ord:
+            last_ord = self.empty_nodes[-1]._ord
         # pylint: disable=protected-access
         self._bind_enhanced_deps()
         old_root._bind_enhanced_deps()
-        empty_follows = old_root._words_before_empty_nodes([] if whole_tree else nodes)
+        empty_follows = old_root._words_before_empty_nodes(nodes)
+        follows_moved = old_root._words_before_empty_nodes([n for n in old_root._descendants if n not in nodes])
         for node in nodes:
             new_ord += 1
             node.ord = new_ord
@@ -345,23 +356,10 @@ class Root(Node):
                 mwt.root = self
             self._mwts += old_root.multiword_tokens
             old_root.multiword_tokens = []
-            # Move also empty nodes (0.X from the old tree may need to follow some empty nodes in this tree).
-            moved = nodes + old_root.empty_nodes
-            if self.empty_nodes and self.empty_nodes[-1]._ord > last_ord:
-                last_ord = self.empty_nodes[-1]._ord
-            for empty in old_root.empty_nodes:
-                word = empty_follows[empty]
-                last_ord = next_empty_ord(len(self._descendants) if word is old_root else word._ord, empty._ord, last_ord)
-                empty.ord = last_ord
-                empty._root = self
-            self.empty_nodes += old_root.empty_nodes
-            old_root.empty_nodes = []
         else:
-            moved = nodes
             old_root._descendants = [n for n in old_root._descendants if n not in nodes]
             for new_ord, node in enumerate(old_root._descendants, 1):
                 node.ord = new_ord
-            old_root._update_ords_of_empty_nodes(empty_follows)
             for node in nodes:
                 mwt = node.multiword_token
                 if mwt and mwt.root is old_root:
@@ -369,8 +367,17 @@ class Root(Node):
                     mwt.remove()
                     self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc)
         self._descendants += nodes
+        # Empty nodes preceding all the moved words may need to follow some empty nodes in this tree.
+        for empty in empty_nodes:
+            word = follows_moved[empty]
+            last_ord = next_empty_ord(last_word if word is old_root else word._ord, empty._ord, last_ord)
+            empty.ord = last_ord
+            empty._root = self
+        self.empty_nodes += empty_nodes
+        old_root.empty_nodes = [n for n in old_root.empty_nodes if n not in empty_nodes]
+        old_root._update_ords_of_empty_nodes(empty_follows)
         # Enhanced deps cannot lead from one tree to another.
-        moved = set(moved)
+        moved = set(nodes + empty_nodes)
         for node in moved:
             for dep in node._deps or []:
                 if dep['parent'] is old_root:
-- 
2.43.0


From 64643e1882b52a1634446f4cbdb41db7cd5a7de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:36 +0000
Subject: [PATCH 075/125] fix: util.SplitSentence misc_value=... at the first
 word must not create an empty sentence

---
 udapi/block/util/splitsentence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index 34f53db..fbf328e 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -52,7 +52,7 @@ class SplitSentence(Block):
                 logging.fatal('Cannot process bundles that do not have the zone with empty zone id')
             if self.misc_name:
                 root = bundle.get_tree()
-                split_points = [n for n in root.descendants if n.ord > 1 and n.misc[self.misc_name] and self.misc_value == None or n.misc[self.misc_name] == self.misc_value]
+                split_points = [n for n in root.descendants if n.ord > 1 and (n.misc[self.misc_name] and self.misc_value == None or n.misc[self.misc_name] == self.misc_value)]
                 if split_points:
                     # Create as many new bundles as there are split points.
                     n_new = len(split_points)
-- 
2.43.0


From 7fb99cb28feae2907d798a7df98958dc377a19da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:36 +0000
Subject: [PATCH 076/125] fix: util.SplitSentence and JoinSentence must stop if
 the request cannot be fulfilled

---
 udapi/block/util/joinsentence.py  | 15 ++++++++-------
 udapi/block/util/splitsentence.py | 17 +++++++++--------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/udapi/block/util/joinsentence.py b/udapi/block/util/joinsentence.py
index 578f386..925ad9d 100644
--- a/udapi/block/util/joinsentence.py
+++ b/udapi/block/util/joinsentence.py
@@ -29,24 +29,25 @@ class JoinSentence(Block):
         super().__init__(**kwargs)
         if misc_name:
             if sent_id:
-                logging.fatal('Cannot combine misc_value with sent_id')
+                raise ValueError('Cannot combine misc_value with sent_id')
         else:
             if not sent_id:
-                logging.fatal('Missing parameter sent_id')
+                raise ValueError('Missing parameter sent_id')
         self.sent_id = sent_id
         self.misc_name = misc_name
         self.misc_value = misc_value
 
     def process_document(self, document):
         previous_tree = None
-        for bundle_no, bundle in enumerate(document.bundles):
+        for bundle in document.bundles:
             # In general, a bundle may contain multiple trees in different zones.
             # In UD data, we always expect just one zone (labeled '') per bundle.
             # This code could be extended to join all zones but we do not try to do it at present.
             if len(bundle.trees) != 1:
-                logging.fatal('Cannot process bundles that have less or more than 1 zone')
+                raise ValueError('Cannot process bundles that have less or more than 1 zone')
             if not bundle.has_tree(zone=''):
-                logging.fatal('Cannot process bundles that do not have the zone with empty zone id')
+                raise ValueError('Cannot process bundles that do not have the zone with empty zone id')
+        for bundle_no, bundle in enumerate(document.bundles):
             if self.misc_name:
                 root = bundle.get_tree()
                 # The MISC attribute we are looking for should logically occur
@@ -54,7 +55,7 @@ class JoinSentence(Block):
                 join_commands = [n for n in root.descendants if n.misc[self.misc_name] and self.misc_value == None or n.misc[self.misc_name] == self.misc_value]
                 if join_commands:
                     if not previous_tree:
-                        logging.fatal('Cannot join the first sentence as there is no previous sentence')
+                        raise ValueError('Cannot join the first sentence as there is no previous sentence')
                     previous_tree.steal_nodes(root.descendants)
                     previous_tree.text = previous_tree.compute_text()
                     # Remove from the node the MISC attribute that triggered the sentence split.
@@ -67,7 +68,7 @@ class JoinSentence(Block):
             elif bundle.bundle_id == self.sent_id:
                 logging.info('Found!')
                 if not previous_tree:
-                    logging.fatal('Cannot join the first sentence as there is no previous sentence')
+                    raise ValueError('Cannot join the first sentence as there is no previous sentence')
                 root = bundle.get_tree()
                 previous_tree.steal_nodes(root.descendants)
                 previous_tree.text = previous_tree.compute_text()
diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index fbf328e..9979bab 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -28,28 +28,29 @@ class SplitSentence(Block):
         super().__init__(**kwargs)
         if misc_name:
             if sent_id or word_id:
-                logging.fatal('Cannot combine misc_value with sent_id or word_id')
+                raise ValueError('Cannot combine misc_value with sent_id or word_id')
         else:
             if not sent_id:
-                logging.fatal('Missing parameter sent_id')
+                raise ValueError('Missing parameter sent_id')
             if not word_id:
-                logging.fatal('Missing parameter word_id')
+                raise ValueError('Missing parameter word_id')
         self.sent_id = sent_id
         self.word_id = word_id
         self.misc_name = misc_name
         self.misc_value = misc_value
 
     def process_document(self, document):
-        for bundle_no, bundle in enumerate(document.bundles):
+        for bundle in document.bundles:
             # In general, a bundle may contain multiple trees in different zones.
             # In UD data, we always expect just one zone (labeled '') per bundle.
             # This code could be extended to split all zones but we do not try to do it at present.
             # (The zones may be translations to other languages and it is not likely that we would
             # want to split each translation at the same position.)
             if len(bundle.trees) != 1:
-                logging.fatal('Cannot process bundles that have less or more than 1 zone')
+                raise ValueError('Cannot process bundles that have less or more than 1 zone')
             if not bundle.has_tree(zone=''):
-                logging.fatal('Cannot process bundles that do not have the zone with empty zone id')
+                raise ValueError('Cannot process bundles that do not have the zone with empty zone id')
+        for bundle_no, bundle in enumerate(document.bundles):
             if self.misc_name:
                 root = bundle.get_tree()
                 split_points = [n for n in root.descendants if n.ord > 1 and (n.misc[self.misc_name] and self.misc_value == None or n.misc[self.misc_name] == self.misc_value)]
@@ -93,8 +94,8 @@ class SplitSentence(Block):
                 logging.info('Found!')
                 root = bundle.get_tree()
                 nodes_to_move = [n for n in root.descendants_and_empty if n.ord >= self.word_id]
-                if len(nodes_to_move) == 0:
-                    logging.fatal('No nodes to move to the new sentence; word_id may be out of range')
+                if self.word_id < 2 or self.word_id > len(root.descendants):
+                    raise ValueError('No nodes to move to the new sentence or to keep; word_id may be out of range')
                 # Create a new bundle at the end of the current document.
                 new_bundle = document.create_bundle()
                 # Move the new bundle to the position right after the current bundle.
-- 
2.43.0


From 8f3ee889f3bc12037d514e5f4c2e3932c19df4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:49 +0000
Subject: [PATCH 077/125] fix: util.JoinSentence sent_id=... never found the
 previous sentence; numeric parameters of SplitSentence and JoinSentence never
 matched

---
 udapi/block/util/joinsentence.py  | 6 ++++--
 udapi/block/util/splitsentence.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/udapi/block/util/joinsentence.py b/udapi/block/util/joinsentence.py
index 925ad9d..14ba840 100644
--- a/udapi/block/util/joinsentence.py
+++ b/udapi/block/util/joinsentence.py
@@ -52,7 +52,7 @@ class JoinSentence(Block):
                 root = bundle.get_tree()
                 # The MISC attribute we are looking for should logically occur
                 # on the first node of the sentence but we can take it from any node.
-                join_commands = [n for n in root.descendants if n.misc[self.misc_name] and self.misc_value == None or n.misc[self.misc_name] == self.misc_value]
+                join_commands = [n for n in root.descendants if n.misc[self.misc_name] and self.misc_value == None or n.misc[self.misc_name] == str(self.misc_value)]
                 if join_commands:
                     if not previous_tree:
                         raise ValueError('Cannot join the first sentence as there is no previous sentence')
@@ -65,7 +65,7 @@ class JoinSentence(Block):
                     bundle.remove()
                 else:
                     previous_tree = root
-            elif bundle.bundle_id == self.sent_id:
+            elif bundle.bundle_id == str(self.sent_id):
                 logging.info('Found!')
                 if not previous_tree:
                     raise ValueError('Cannot join the first sentence as there is no previous sentence')
@@ -76,3 +76,5 @@ class JoinSentence(Block):
                 bundle.remove()
                 # We have found our sentence. No need to process the rest of the document.
                 break
+            else:
+                previous_tree = bundle.get_tree()
diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index 9979bab..99ee19b 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -53,7 +53,7 @@ class SplitSentence(Block):
         for bundle_no, bundle in enumerate(document.bundles):
             if self.misc_name:
                 root = bundle.get_tree()
-                split_points = [n for n in root.descendants if n.ord > 1 and (n.misc[self.misc_name] and self.misc_value == None or n.misc[self.misc_name] == self.misc_value)]
+                split_points = [n for n in root.descendants if n.ord > 1 and (n.misc[self.misc_name] and self.misc_value == None or n.misc[self.misc_name] == str(self.misc_value))]
                 if split_points:
                     # Create as many new bundles as there are split points.
                     n_new = len(split_points)
@@ -90,7 +90,7 @@ class SplitSentence(Block):
                     for b in document.bundles[(bundle_no+1):]:
                         b.number = updated_no
                         updated_no += 1
-            elif bundle.bundle_id == self.sent_id:
+            elif bundle.bundle_id == str(self.sent_id):
                 logging.info('Found!')
                 root = bundle.get_tree()
                 nodes_to_move = [n for n in root.descendants_and_empty if n.ord >= self.word_id]
-- 
2.43.0


From ffb02d2182f6aa3b35e1c311ab4dac64dae93212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:59 +0000
Subject: [PATCH 078/125] fix: segment.Merge failed with empty documents, empty
 trees and zones missing in the first bundle

---
 udapi/block/segment/merge.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/udapi/block/segment/merge.py b/udapi/block/segment/merge.py
index 769596b..faf1f51 100644
--- a/udapi/block/segment/merge.py
+++ b/udapi/block/segment/merge.py
@@ -20,6 +20,8 @@ class Merge(Block):
         """Is there actually a sentence boundary between the first and second bundle?"""
         first_tree = self._get_our_tree(first_bundle)
         second_tree = self._get_our_tree(second_bundle)
+        if not first_tree.descendants or not second_tree.descendants:
+            return False
         return self.should_merge_tokens(first_tree.descendants[-1], second_tree.descendants[0])
 
 
@@ -32,11 +34,17 @@ class Merge(Block):
 
     def process_document(self, doc):
         old_bundles = doc.bundles
+        if not old_bundles:
+            return
         prev_bundle = old_bundles[0]
         new_bundles = [prev_bundle]
         for bundle in old_bundles[1:]:
             if self.should_merge_bundles(prev_bundle, bundle):
-                for tree in bundle:
+                for tree in list(bundle):
+                    if not prev_bundle.has_tree(tree.zone):
+                        tree.remove()
+                        prev_bundle.add_tree(tree)
+                        continue
                     prev_tree = prev_bundle.get_tree(tree.zone)
                     prev_tree.steal_nodes(tree.descendants)
                     prev_tree.text = prev_tree.compute_text()
-- 
2.43.0


From 34ee11906d98ea4a503b214cd5a94d75de9fa48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:59 +0000
Subject: [PATCH 079/125] fix: segment.Simple must not lose sentences if a
 later tree is already tokenized

---
 udapi/block/segment/simple.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/block/segment/simple.py b/udapi/block/segment/simple.py
index 01d2faf..ea84b6b 100644
--- a/udapi/block/segment/simple.py
+++ b/udapi/block/segment/simple.py
@@ -73,12 +73,14 @@ class Simple(Block):
     def process_document(self, doc):
         old_bundles = doc.bundles
         new_bundles = []
+        for bundle in old_bundles:
+            for tree in bundle:
+                if self._should_process_tree(tree) and tree.children:
+                    raise ValueError("Segmenting already tokenized text is not supported.")
         for bundle in old_bundles:
             new_bundles.append(bundle)
             for tree in bundle:
                 if self._should_process_tree(tree):
-                    if tree.children:
-                        raise ValueError("Segmenting already tokenized text is not supported.")
                     sentences = self.segment_string(tree.text)
                     orig_bundle_id = bundle.bundle_id
                     bundle.bundle_id = orig_bundle_id + '-1'
-- 
2.43.0


From 6e54dec2e7f8802ffc5cd1e2bca8ddae6965b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:17 +0000
Subject: [PATCH 080/125] fix: util.Split parts=... never finished if the first
 document is empty

---
 udapi/block/util/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/util/split.py b/udapi/block/util/split.py
index 37a29db..9ea0110 100644
--- a/udapi/block/util/split.py
+++ b/udapi/block/util/split.py
@@ -32,7 +32,7 @@ class Split(BaseReader):
         if not self.buffer:
             self.buffer = document.bundles
             document.bundles = []
-            if self.bundles_per_doc is None:
+            if self.bundles_per_doc is None and self.buffer:
                 self.bundles_per_doc = math.ceil(len(self.buffer) / self.parts)
         self.buffer.extend(document.bundles)
         document.bundles = self.buffer[:self.bundles_per_doc]
-- 
2.43.0


From 4388172f21ae5f92a6430015230975c6a9ec1cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:22 +0000
Subject: [PATCH 081/125] fix: util.Split lost the format of coreference
 annotation (global.Entity) in all parts but the first

---
 udapi/block/util/split.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/udapi/block/util/split.py b/udapi/block/util/split.py
index 9ea0110..17e06c5 100644
--- a/udapi/block/util/split.py
+++ b/udapi/block/util/split.py
@@ -22,6 +22,7 @@ class Split(BaseReader):
         self.parts = parts
         self.bundles_per_doc = bundles_per_doc
         self.buffer = None
+        self._global_entity = None
         self._highest_bundle_id = 0
 
     @staticmethod
@@ -29,6 +30,10 @@ class Split(BaseReader):
         return False
 
     def process_document(self, document):
+        # All parts must declare the format of the coreference annotation.
+        self._global_entity = document.meta.get('global.Entity', self._global_entity)
+        if self._global_entity is not None:
+            document.meta['global.Entity'] = self._global_entity
         if not self.buffer:
             self.buffer = document.bundles
             document.bundles = []
@@ -40,6 +45,10 @@ class Split(BaseReader):
         for i, bundle in enumerate(document.bundles, 1):
             bundle.number = i
             bundle._document = document
+        if self._global_entity is not None and document.bundles and document.bundles[0].trees:
+            tree = document.bundles[0].trees[0]
+            if not tree.newdoc and '$GLOBAL.ENTITY' not in tree.comment:
+                tree.comment = '$GLOBAL.ENTITY\n' + tree.comment
         self._highest_bundle_id = max(self._highest_bundle_id, document._highest_bundle_id)
         document._highest_bundle_id = self._highest_bundle_id
         self.finished = not self.buffer
-- 
2.43.0


From 976bcde6f4c5c6795aa8b3bc20cb0abc1fbd9248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:03 +0000
Subject: [PATCH 082/125] fix: util.ResegmentGold silently dropped the
 predicted sentences following the gold text

---
 udapi/block/util/resegmentgold.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/util/resegmentgold.py b/udapi/block/util/resegmentgold.py
index 383510b..61869c4 100644
--- a/udapi/block/util/resegmentgold.py
+++ b/udapi/block/util/resegmentgold.py
@@ -107,6 +107,8 @@ class ResegmentGold(Block):
                     pred_trees.append(next_p_tree)
                     bundle.add_tree(p_tree)
                     break
+        if any(tree.descendants for tree in pred_trees):
+            raise ValueError('The predicted zone contains more text than gold_zone=' + self.gold_zone)
 
     def extract_pred_trees(self, document):
         """Delete all trees with zone!=gold_zone from the document and return them."""
-- 
2.43.0


From 49b85f13d477950aa35bf7d1e1b1a0024b8c30c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:49 +0000
Subject: [PATCH 083/125] fix: require_file must not take an incomplete
 download for the resource

---
 udapi/core/resource.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/udapi/core/resource.py b/udapi/core/resource.py
index da2ba56..5d019c9 100644
--- a/udapi/core/resource.py
+++ b/udapi/core/resource.py
@@ -2,6 +2,7 @@
 import logging
 import urllib.request
 import os
+import uuid
 from os.path import expanduser
 
 BASEURL = 'http://ufallab.ms.mff.cuni.cz/tectomt/share/data/'
@@ -19,5 +20,12 @@ def require_file(path):
     if not os.path.isfile(full_path):
         logging.info('Downloading %s to %s', BASEURL + path, full_path)
         os.makedirs(os.path.dirname(full_path), exist_ok=True)
-        urllib.request.urlretrieve(BASEURL + path, full_path)
+        # Make sure an incomplete file is never taken for the resource.
+        partial_path = f"{full_path}.{uuid.uuid4().hex}.part"
+        try:
+            urllib.request.urlretrieve(BASEURL + path, partial_path)
+            os.replace(partial_path, full_path)
+        finally:
+            if os.path.exists(partial_path):
+                os.remove(partial_path)
     return full_path
-- 
2.43.0


From c55f8e46fd25d168303725f25b27034c89bba11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:49 +0000
Subject: [PATCH 084/125] fix: require_file must return an absolute path even
 if UDAPI_DATA is relative

---
 udapi/core/resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/resource.py b/udapi/core/resource.py
index 5d019c9..e57c5fc 100644
--- a/udapi/core/resource.py
+++ b/udapi/core/resource.py
@@ -28,4 +28,4 @@ def require_file(path):
         finally:
             if os.path.exists(partial_path):
                 os.remove(partial_path)
-    return full_path
+    return os.path.abspath(full_path)
-- 
2.43.0


From 2e7d07086acd41f33ad956d1fb9899699ae977a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:13 +0000
Subject: [PATCH 085/125] fix: UDPipeOnline.tag_parse_tree must not damage the
 tree if the answer does not fit it

---
 udapi/tool/udpipeonline.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/udapi/tool/udpipeonline.py b/udapi/tool/udpipeonline.py
index f0a835c..0ba8ab6 100644
--- a/udapi/tool/udpipeonline.py
+++ b/udapi/tool/udpipeonline.py
@@ -79,10 +79,15 @@ class UDPipeOnline:
         out_data = self.perform_request(params=params)
         conllu_reader = ConlluReader(empty_parent="ignore")
         conllu_reader.files.filehandle = io.StringIO(out_data)
-        parsed_root = conllu_reader.read_tree()
+        trees = conllu_reader.read_trees()
+        # Check the answer before changing anything.
+        parsed_nodes = trees[0].descendants if len(trees) == 1 else []
+        if len(parsed_nodes) != len(descendants):
+            raise ValueError(f"UDPipe returned {len(trees)} trees with {sum(len(t.descendants) for t in trees)} words "
+                             f"instead of one tree with {len(descendants)} words.")
         if parse:
             root.flatten()
-        for parsed_node in parsed_root.descendants:
+        for parsed_node in parsed_nodes:
             node = descendants[parsed_node.ord - 1]
             if parse:
                 node.parent = descendants[parsed_node.parent.ord - 1] if parsed_node.parent.ord else root
-- 
2.43.0


From 0a673c1924c948755457ddbc1102837e704b8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:13 +0000
Subject: [PATCH 086/125] fix:
 UDPipeOnline.tokenize_tag_parse_tree(ranges=True) lost the text of all but
 the first segment unless resegment=True

---
 udapi/tool/udpipeonline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/tool/udpipeonline.py b/udapi/tool/udpipeonline.py
index 0ba8ab6..a5f9d26 100644
--- a/udapi/tool/udpipeonline.py
+++ b/udapi/tool/udpipeonline.py
@@ -112,7 +112,7 @@ class UDPipeOnline:
         if parse:
             params["parser"] = ""
         if ranges:
-            params["tokenizer"] = "presegmented;ranges" if resegment else "ranges"
+            params["tokenizer"] = "ranges" if resegment else "presegmented;ranges"
         out_data = self.perform_request(params=params)
         conllu_reader = ConlluReader(empty_parent="ignore")
         conllu_reader.files.filehandle = io.StringIO(out_data)
-- 
2.43.0


From aa1f577045d09745d7a4802ffe89cc66dc5fdc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:13 +0000
Subject: [PATCH 087/125] fix: UDPipeOnline.tokenize_tag_parse_tree must return
 a consistent tree with multi-word tokens and refuse unsuitable answers

---
 udapi/tool/udpipeonline.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/udapi/tool/udpipeonline.py b/udapi/tool/udpipeonline.py
index a5f9d26..90de763 100644
--- a/udapi/tool/udpipeonline.py
+++ b/udapi/tool/udpipeonline.py
@@ -104,9 +104,12 @@ class UDPipeOnline:
             raise ValueError('Combination parse=True tag=False is not allowed.')
         if root.children:
             raise ValueError('Tree already contained nodes before tokenization')
+        text = root.get_sentence()
+        if not text.strip():
+            return [root]
 
         # Tokenize and possibly segment the input text
-        params = {"model": self.model, "data": root.text, "tokenizer":"" if resegment else "presegmented"}
+        params = {"model": self.model, "data": text, "tokenizer":"" if resegment else "presegmented"}
         if tag:
             params["tagger"] = ""
         if parse:
@@ -117,14 +120,12 @@ class UDPipeOnline:
         conllu_reader = ConlluReader(empty_parent="ignore")
         conllu_reader.files.filehandle = io.StringIO(out_data)
         trees = conllu_reader.read_trees()
+        if not trees or (len(trees) > 1 and not resegment):
+            raise ValueError(f"UDPipe returned {len(trees)} trees instead of one.")
 
         # The input "root" object must be the first item in "trees".
-        for attr in ('_children', '_descendants', '_mwts', 'text', 'comment'):
-            setattr(root, attr, getattr(trees[0], attr))
-        for node in root._children:
-            node._parent = root
-        for node in root._descendants:
-            node._root = root
+        root.text, root.comment = trees[0].text, trees[0].comment
+        root.steal_nodes(trees[0].descendants)
         trees[0] = root
         return trees
 
-- 
2.43.0


From d655daa003126ae316d1317caf51f668921159dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:18 +0000
Subject: [PATCH 088/125] fix: UDPipeOnline.process_document lost trees, ids
 and words if the answer does not fit the document

---
 udapi/tool/udpipeonline.py | 55 +++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/udapi/tool/udpipeonline.py b/udapi/tool/udpipeonline.py
index 90de763..beaa97f 100644
--- a/udapi/tool/udpipeonline.py
+++ b/udapi/tool/udpipeonline.py
@@ -71,10 +71,8 @@ class UDPipeOnline:
             return
         in_data = " ".join([n.form for n in descendants])
         params = {"model": self.model, "data": in_data, "input":"horizontal", "tagger":""}
-        attrs = 'upos xpos lemma feats'.split() if tag else []
         if parse:
             params["parser"] = ""
-            attrs.append('deprel')
 
         out_data = self.perform_request(params=params)
         conllu_reader = ConlluReader(empty_parent="ignore")
@@ -85,7 +83,14 @@ class UDPipeOnline:
         if len(parsed_nodes) != len(descendants):
             raise ValueError(f"UDPipe returned {len(trees)} trees with {sum(len(t.descendants) for t in trees)} words "
                              f"instead of one tree with {len(descendants)} words.")
+        self._copy_analysis(parsed_nodes, root, tag, parse)
+
+    @staticmethod
+    def _copy_analysis(parsed_nodes, root, tag, parse):
+        descendants = root.descendants
+        attrs = 'upos xpos lemma feats'.split() if tag else []
         if parse:
+            attrs.append('deprel')
             root.flatten()
         for parsed_node in parsed_nodes:
             node = descendants[parsed_node.ord - 1]
@@ -135,7 +140,11 @@ class UDPipeOnline:
         return self.perform_request(params=params).rstrip().split("\n")
 
     def process_document(self, doc, tokenize=True, tag=True, parse=True, resegment=False, ranges=False):
-        """Delete all existing bundles and substitute them with those parsed by UDPipe."""
+        """Process all trees in the document with UDPipe using a single request.
+
+        With tokenize=True, substitute all nodes with those parsed by UDPipe.
+        With resegment=True, delete all existing bundles and substitute them with those parsed by UDPipe.
+        """
         if parse and not tag:
             raise ValueError('Combination parse=True tag=False is not allowed.')
         params = {"model": self.model, "tokenizer": "presegmented"}
@@ -147,28 +156,54 @@ class UDPipeOnline:
             params["tokenizer"] = ""
         if ranges:
             params["tokenizer"] = "ranges" if resegment else "presegmented;ranges"
+        if resegment and any(len(bundle.trees) > 1 for bundle in doc.bundles):
+            raise ValueError('Documents with several trees in a bundle cannot be resegmented.')
 
-        #in_trees = []
-        #for bundle in doc.bundles:
-        #    assert(len(bundle.trees) == 1)
-        #    in_trees.append(bundle.trees[0])
         if tokenize:
-            params["data"] = "\n".join(root.text for root in doc.trees) + "\n"
+            roots = [root for root in doc.trees if root.get_sentence().strip()]
+            params["data"] = "\n".join(root.get_sentence() for root in roots) + "\n"
         else:
+            if resegment or not tag:
+                raise ValueError('Combination tokenize=False is allowed only with tag=True and resegment=False.')
+            roots = [root for root in doc.trees if root.descendants]
             params["input"] = "horizontal"
-            params["data"] = "\n".join(" ".join([n.form for n in root.descendants]) for root in doc.trees) + "\n"
+            del params["tokenizer"]
+            params["data"] = "\n".join(" ".join([n.form for n in root.descendants]) for root in roots) + "\n"
+        if not roots:
+            return
 
         out_data = self.perform_request(params=params)
         conllu_reader = ConlluReader(empty_parent="ignore")
         conllu_reader.files.filehandle = io.StringIO(out_data)
         trees = conllu_reader.read_trees()
 
+        # Check the answer before changing anything.
+        if not trees or (len(trees) != len(roots) and not resegment):
+            raise ValueError(f"UDPipe returned {len(trees)} trees instead of {len(roots)}.")
+        if not tokenize:
+            for root, tree in zip(roots, trees):
+                if len(root.descendants) != len(tree.descendants):
+                    raise ValueError(f"UDPipe returned {len(tree.descendants)} words instead of {len(root.descendants)} for {root}.")
+            for root, tree in zip(roots, trees):
+                self._copy_analysis(tree.descendants, root, tag, parse)
+            return
+        if not resegment:
+            for root, tree in zip(roots, trees):
+                for node in root.children:
+                    node.remove()
+                root.empty_nodes = []
+                root.text, root.comment = tree.text, tree.comment
+                root.steal_nodes(tree.descendants)
+            return
+
         bundles = list(reversed(doc.bundles))
+        zone = roots[0].zone
         for tree in trees:
             if bundles:
                 bundle = bundles.pop()
-                # TODO is this safe?
                 bundle.trees = []
             else:
                 bundle = doc.create_bundle()
+            tree.zone = zone
             bundle.add_tree(tree)
+        doc.bundles = doc.bundles[:len(trees)]
-- 
2.43.0


From a9d304e240e6667e9ce010ac1c103a9798103338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:40 +0000
Subject: [PATCH 089/125] fix: udpipe.Base duplicated bundles with several
 trees and lost new bundles if UDPipe failed later

---
 udapi/block/udpipe/base.py | 79 +++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 35 deletions(-)

diff --git a/udapi/block/udpipe/base.py b/udapi/block/udpipe/base.py
index 069fc9f..e036907 100644
--- a/udapi/block/udpipe/base.py
+++ b/udapi/block/udpipe/base.py
@@ -149,44 +149,53 @@ class Base(Block):
     def process_document(self, doc):
         tok, tag, par, reseg, ranges = self.tokenize, self.tag, self.parse, self.resegment, self.ranges
         if self.zones == "all" and self.online:
-            self.tool.process_document(doc, tok, tag, par, reseg, ranges)
-            return
+            # A single request for the whole document is faster, if possible.
+            if (tok or tag) and (not reseg or (tok and all(len(bundle.trees) == 1 for bundle in doc.bundles))):
+                self.tool.process_document(doc, tok, tag, par, reseg, ranges)
+                return
         old_bundles = doc.bundles
         new_bundles = []
-        for bundle in old_bundles:
-            for tree in bundle:
+        n_started = 0
+        try:
+            for bundle in old_bundles:
                 new_bundles.append(bundle)
-                if self._should_process_tree(tree):
-                    if self.delete_nodes:
-                        for subroot in tree.children:
-                            subroot.remove()
-                    if tok:
-                        new_trees = self.tool.tokenize_tag_parse_tree(tree, resegment=reseg,
-                                                                      tag=tag, parse=par, ranges=ranges)
-                        if self.resegment and len(new_trees) > 1:
-                            orig_bundle_id = bundle.bundle_id
-                            bundle.bundle_id = orig_bundle_id + '-1'
-                            for i, new_tree in enumerate(new_trees[1:], 2):
-                                new_bundle = Bundle(document=doc, bundle_id=f"{orig_bundle_id}-{i}")
-                                new_tree.zone = tree.zone
-                                new_bundle.add_tree(new_tree)
-                                new_bundles.append(new_bundle)
-                    elif not tok and not reseg and (tag or par):
-                        self.tool.tag_parse_tree(tree, tag=tag, parse=par)
-                    elif not tok and reseg and not tag and not par:
-                        sentences = self.tool.segment_text(tree.text)
-                        if len(sentences) > 1:
-                            orig_bundle_id = bundle.bundle_id
-                            bundle.bundle_id = orig_bundle_id + '-1'
-                            tree.text = sentences[0]
-                            for i, sentence in enumerate(sentences[1:], 2):
-                                new_bundle = Bundle(document=doc, bundle_id=f"{orig_bundle_id}-{i}")
-                                new_tree = new_bundle.create_tree(zone=tree.zone)
-                                new_tree.text = sentence
-                                new_bundles.append(new_bundle)
-                    else:
-                        raise ValueError(f"Unimplemented tokenize={tok} tag={tag} parse={par} resegment={reseg}")
-        doc.bundles = new_bundles
+                n_started += 1
+                for tree in bundle:
+                    if self._should_process_tree(tree):
+                        if self.delete_nodes:
+                            for subroot in tree.children:
+                                subroot.remove()
+                        if tok:
+                            new_trees = self.tool.tokenize_tag_parse_tree(tree, resegment=reseg,
+                                                                          tag=tag, parse=par, ranges=ranges)
+                            if self.resegment and len(new_trees) > 1:
+                                orig_bundle_id = bundle.bundle_id
+                                bundle.bundle_id = orig_bundle_id + '-1'
+                                for i, new_tree in enumerate(new_trees[1:], 2):
+                                    new_bundle = Bundle(document=doc, bundle_id=f"{orig_bundle_id}-{i}")
+                                    new_tree.zone = tree.zone
+                                    new_bundle.add_tree(new_tree)
+                                    new_bundles.append(new_bundle)
+                        elif not tok and not reseg and (tag or par):
+                            self.tool.tag_parse_tree(tree, tag=tag, parse=par)
+                        elif not tok and reseg and not tag and not par:
+                            sentences = self.tool.segment_text(tree.text)
+                            if len(sentences) > 1:
+                                orig_bundle_id = bundle.bundle_id
+                                bundle.bundle_id = orig_bundle_id + '-1'
+                                tree.text = sentences[0]
+                                for i, sentence in enumerate(sentences[1:], 2):
+                                    new_bundle = Bundle(document=doc, bundle_id=f"{orig_bundle_id}-{i}")
+                                    new_tree = new_bundle.create_tree(zone=tree.zone)
+                                    new_tree.text = sentence
+                                    new_bundles.append(new_bundle)
+                        else:
+                            raise ValueError(f"Unimplemented tokenize={tok} tag={tag} parse={par} resegment={reseg}")
+        finally:
+            # If the tool fails, the trees which have been processed already must stay in the document.
+            doc.bundles = new_bundles + old_bundles[n_started:]
+            for number, bundle in enumerate(doc.bundles, 1):
+                bundle.number = number
 
 '''
 Udapi::Block::UDPipe::Base - tokenize, tag and parse into UD
-- 
2.43.0


From d49a7602e839c0a4e5a8a3e3dea02766fd608381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:49 +0000
Subject: [PATCH 090/125] fix: udpipe.Base delete_nodes=1 lost the nodes if
 UDPipe fails

---
 udapi/block/udpipe/base.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/udapi/block/udpipe/base.py b/udapi/block/udpipe/base.py
index e036907..0883616 100644
--- a/udapi/block/udpipe/base.py
+++ b/udapi/block/udpipe/base.py
@@ -3,6 +3,7 @@ from udapi.core.block import Block
 from udapi.tool.udpipe import UDPipe
 from udapi.tool.udpipeonline import UDPipeOnline
 from udapi.core.bundle import Bundle
+from udapi.core.root import Root
 
 KNOWN_MODELS = {
     'af': 'models/udpipe/2.4/afrikaans-afribooms-ud-2.4-190531.udpipe',
@@ -162,12 +163,15 @@ class Base(Block):
                 n_started += 1
                 for tree in bundle:
                     if self._should_process_tree(tree):
-                        if self.delete_nodes:
-                            for subroot in tree.children:
-                                subroot.remove()
                         if tok:
-                            new_trees = self.tool.tokenize_tag_parse_tree(tree, resegment=reseg,
+                            # With delete_nodes=1, delete the nodes only after the new ones are available.
+                            target = Root(text=tree.get_sentence(), comment=tree.comment) if self.delete_nodes else tree
+                            new_trees = self.tool.tokenize_tag_parse_tree(target, resegment=reseg,
                                                                           tag=tag, parse=par, ranges=ranges)
+                            if self.delete_nodes:
+                                self._delete_nodes(tree)
+                                tree.text, tree.comment = target.text, target.comment
+                                tree.steal_nodes(target.descendants)
                             if self.resegment and len(new_trees) > 1:
                                 orig_bundle_id = bundle.bundle_id
                                 bundle.bundle_id = orig_bundle_id + '-1'
@@ -177,9 +181,15 @@ class Base(Block):
                                     new_bundle.add_tree(new_tree)
                                     new_bundles.append(new_bundle)
                         elif not tok and not reseg and (tag or par):
+                            if self.delete_nodes:
+                                self._delete_nodes(tree)
                             self.tool.tag_parse_tree(tree, tag=tag, parse=par)
                         elif not tok and reseg and not tag and not par:
-                            sentences = self.tool.segment_text(tree.text)
+                            text = tree.get_sentence()
+                            sentences = self.tool.segment_text(text)
+                            if self.delete_nodes:
+                                tree.text = text
+                                self._delete_nodes(tree)
                             if len(sentences) > 1:
                                 orig_bundle_id = bundle.bundle_id
                                 bundle.bundle_id = orig_bundle_id + '-1'
@@ -197,6 +207,12 @@ class Base(Block):
             for number, bundle in enumerate(doc.bundles, 1):
                 bundle.number = number
 
+    @staticmethod
+    def _delete_nodes(tree):
+        for subroot in tree.children:
+            subroot.remove()
+        tree.empty_nodes = []
+
 '''
 Udapi::Block::UDPipe::Base - tokenize, tag and parse into UD
 
-- 
2.43.0


From 29b79580d65d1edc71a11d0409864b57e4125f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:33 +0000
Subject: [PATCH 091/125] fix: storing coreference left the old annotation in
 MISC if all entities were deleted

---
 udapi/core/coref.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index d23bcd2..183c2b1 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -789,6 +789,13 @@ def load_coref_from_misc(doc, strict=True):
 
 
 def store_coref_to_misc(doc):
+    if doc._eid_to_entity is None:
+        return
+
+    attrs = "Entity SplitAnte Bridge".split()
+    for node in doc.nodes_and_empty:
+        for attr in attrs:
+            del node.misc[attr]
     if not doc._eid_to_entity:
         return
 
@@ -806,11 +813,6 @@ def store_coref_to_misc(doc):
     # GRP and entity are legacy names for eid and etype, respectively.
     other_fields = [f for f in fields if f not in 'eid etype head other GRP entity'.split()]
 
-    attrs = "Entity SplitAnte Bridge".split()
-    for node in doc.nodes_and_empty:
-        for attr in attrs:
-            del node.misc[attr]
-
     # Convert each subspan of each discontinuous mention into a fake CorefMention instance,
     # so that we can sort both real and fake mentions and process them in the correct order.
     doc_mentions = []
-- 
2.43.0


From 139bd643ee6a9fb7e52830fea7c0d4bb8527ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:33 +0000
Subject: [PATCH 092/125] fix: corefud.RemoveNoCorefEntities kept the mentions
 of the removed entities in their words

---
 udapi/block/corefud/removenocorefentities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/block/corefud/removenocorefentities.py b/udapi/block/corefud/removenocorefentities.py
index 4551873..6228f0c 100644
--- a/udapi/block/corefud/removenocorefentities.py
+++ b/udapi/block/corefud/removenocorefentities.py
@@ -18,4 +18,8 @@ class RemoveNoCorefEntities(Block):
         entities = doc.coref_entities
         if not entities:
             return
+        for entity in entities:
+            if re.match(r'^NOCOREF', entity.eid):
+                for mention in list(entity.mentions):
+                    mention.remove()
         doc._eid_to_entity = {e._eid: e for e in entities if not re.match(r'^NOCOREF', e.eid)}
-- 
2.43.0


From 48f89a8fdde82eb6645bca9e896c2ee93bf5c0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:33 +0000
Subject: [PATCH 093/125] fix: coreference loaded again
 (corefud.FixEntityAcrossNewdoc) kept the old mentions in the words

---
 udapi/core/coref.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 183c2b1..339fb0b 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -589,6 +589,9 @@ def load_coref_from_misc(doc, strict=True):
         raise ValueError("No eid in global.Entity = " + global_entity)
     fields = global_entity.split('-')
 
+    for node in doc.nodes_and_empty:
+        node._mentions = [] # forget mentions from the previous loading (if any)
+
     for node in doc.nodes_and_empty:
         misc_entity = node.misc["Entity"]
         if not misc_entity:
-- 
2.43.0


From 04a426c3299afebb012d3446279efeaebfecd703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:33 +0000
Subject: [PATCH 094/125] fix: corefud.FixInterleaved merged further mentions
 into a deleted one

---
 udapi/block/corefud/fixinterleaved.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/fixinterleaved.py b/udapi/block/corefud/fixinterleaved.py
index 7e04047..5dd8d8f 100644
--- a/udapi/block/corefud/fixinterleaved.py
+++ b/udapi/block/corefud/fixinterleaved.py
@@ -79,5 +79,5 @@ class FixInterleaved(Block):
                     mA.entity.mentions.remove(mA)
                 except ValueError:
                     pass
-                break
                 deleted.add(mA)
+                break
-- 
2.43.0


From 70bf5b1fa8faecd48838983261b58714cc97c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:33 +0000
Subject: [PATCH 095/125] fix: corefud.FixParentheses added words which did not
 know the mention

---
 udapi/block/corefud/fixparentheses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/fixparentheses.py b/udapi/block/corefud/fixparentheses.py
index bc8e650..a6d404e 100644
--- a/udapi/block/corefud/fixparentheses.py
+++ b/udapi/block/corefud/fixparentheses.py
@@ -18,7 +18,7 @@ class FixParentheses(Block):
                     if mention.words[-1].ord == int(mention.words[-1].ord) and mention.words[-1].next_node and \
                             mention.words[-1].next_node.lemma == pair[1]:
                         next_node = mention.words[-1].next_node
-                        mention.words.append(next_node)
+                        mention.words = mention.words + [next_node]
                         if self.mark:
                             next_node.misc['Mark'] = 1
 
@@ -26,6 +26,6 @@ class FixParentheses(Block):
                 if mention.words[0].ord == int(mention.words[0].ord) and mention.words[0].prev_node \
                         and mention.words[0].prev_node.lemma == pair[0]:
                     prev_node = mention.words[0].prev_node
-                    mention.words.append(prev_node)
+                    mention.words = mention.words + [prev_node]
                     if self.mark:
                         prev_node.misc['Mark'] = 1
-- 
2.43.0


From a6aa9a9dc2a8cdd756586577d50c6679b6c5c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:33 +0000
Subject: [PATCH 096/125] fix: corefud.MergeSameSpan compared removed mentions
 with other mentions

---
 udapi/block/corefud/mergesamespan.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/udapi/block/corefud/mergesamespan.py b/udapi/block/corefud/mergesamespan.py
index 7e2b762..17483ee 100644
--- a/udapi/block/corefud/mergesamespan.py
+++ b/udapi/block/corefud/mergesamespan.py
@@ -18,8 +18,11 @@ class MergeSameSpan(Block):
     def process_tree(self, tree):
         # A dict (unlike a set) iterates in the order of insertion, so the result is deterministic.
         mentions = {m: True for node in tree.descendants_and_empty for m in node.coref_mentions}
+        removed = set()
 
         for mA, mB in itertools.combinations(mentions, 2):
+            if mA in removed or mB in removed:
+                continue
             if self.same_entity_only and mA.entity != mB.entity:
                 continue
             # Reduce non-determinism in which mention is removed:
@@ -40,11 +43,7 @@ class MergeSameSpan(Block):
                 ###!!! TODO: As of now, changing the entity of a mention is not supported in the API.
                 #for m in mB.entity.mentions:
                 #    m.entity = mA.entity
-            # Remove mention B. It may have been removed earlier because of
-            # another duplicate, that is the purpose of try-except.
+            # Remove mention B.
             ###!!! TODO: If we remove a singleton, we are destroying the entity. Then we must also handle possible bridging and split antecedents pointing to that entity!
-            mB.words = []
-            try:
-                mB.entity.mentions.remove(mB)
-            except ValueError:
-                pass
+            mB.remove()
+            removed.add(mB)
-- 
2.43.0


From 6aeb7dc31680d8dc07047e6dea1fa45dde66e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:33 +0000
Subject: [PATCH 097/125] fix: corefud.Link2Cluster failed on cycles of links

---
 udapi/block/corefud/link2cluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/corefud/link2cluster.py b/udapi/block/corefud/link2cluster.py
index 0829653..44eed75 100644
--- a/udapi/block/corefud/link2cluster.py
+++ b/udapi/block/corefud/link2cluster.py
@@ -104,7 +104,9 @@ class Link2Cluster(Block):
                     # While the official API supports "stealing" a single mention (m.entity = another_entity),
                     # the implementation below using _mentions and _entity is a bit faster.
                     e_ante, e_this = this_node.coref_entities[0], ante_node.coref_entities[0]
-                    assert e_ante != e_this
+                    if e_ante is e_this:
+                        logging.warning(f"{this_node} {self.ante_attr}={ante_id} closes a cycle of links")
+                        continue
                     for mention in e_ante.mentions:
                         mention._entity = e_this
                     e_this._mentions.extend(e_ante.mentions)
-- 
2.43.0


From 84662a9e295ec13ee50499ef2eca8d14172d7938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:10 +0000
Subject: [PATCH 098/125] fix: removed nodes stayed in coreference mentions

---
 udapi/core/node.py |  2 +-
 udapi/core/root.py | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 42861fb..440a44f 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -552,7 +552,7 @@ class Node(object):
             if self._root.empty_nodes:
                 empty_follows = self._root._words_before_empty_nodes(nodes_to_remove)
 
-            # TODO mark all nodes as deleted, remove them from coref mentions
+            # TODO mark all nodes as deleted
             self._root._forget_nodes(nodes_to_remove)
             self._root._descendants = sorted(self._root.unordered_descendants())
             for (new_ord, node) in enumerate(self._root._descendants, 1):
diff --git a/udapi/core/root.py b/udapi/core/root.py
index 7767cbe..e270626 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -300,9 +300,20 @@ class Root(Node):
                     logging.debug('Invalid enhanced deps %s in %s', node._raw_deps, node)
 
     def _forget_nodes(self, nodes):
-        """Delete references to (just being removed) `nodes` from MWTs and from enhanced deps of other nodes."""
+        """Delete references to (just being removed) `nodes` from MWTs, coreference mentions
+        and enhanced deps of other nodes.
+        """
         # pylint: disable=protected-access
+        mentions = {m: True for node in nodes for m in node._mentions}
         nodes = set(nodes)
+        for mention in mentions:
+            words = [w for w in mention.words if w not in nodes]
+            if not words:
+                mention.remove()
+                continue
+            if mention.head in nodes:
+                mention.head = words[0]
+            mention.words = words
         for node in nodes:
             if node._mwt:
                 node._mwt.words = [w for w in node._mwt.words if w is not node]
-- 
2.43.0


From 00b74ac258b00de7a73ad793a041b121425ae425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:08 +0000
Subject: [PATCH 099/125] fix: corefud.Delete empty=1 coref=0 kept the deleted
 empty nodes in mentions

---
 udapi/block/corefud/delete.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/block/corefud/delete.py b/udapi/block/corefud/delete.py
index 4e68e8d..16f96b3 100644
--- a/udapi/block/corefud/delete.py
+++ b/udapi/block/corefud/delete.py
@@ -63,6 +63,8 @@ class Delete(Block):
         # This block should work both with coreference loaded (deserialized) and not.
         if self.coref:
             doc._eid_to_entity = None
+        elif self.empty:
+            doc._load_coref() # The empty nodes need to be deleted also from the mentions.
         for root in doc.trees:
             if self.empty:
                 for node in root.descendants:
@@ -80,6 +82,8 @@ class Delete(Block):
 
                     if '.' in node.misc['Functor'].split(':')[0]:
                         del node.misc['Functor']
+                if not self.coref:
+                    root._forget_nodes(root.empty_nodes)
                 root.empty_nodes = []
 
             if self.coref or self.misc:
-- 
2.43.0


From 728ffec47974c9c2b94e5089783beea7c79eed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:43 +0000
Subject: [PATCH 100/125] fix: corefud.MoveHead failed on mentions of empty
 nodes without non-empty parents

---
 udapi/block/corefud/movehead.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/movehead.py b/udapi/block/corefud/movehead.py
index 00a32e9..0d8851a 100644
--- a/udapi/block/corefud/movehead.py
+++ b/udapi/block/corefud/movehead.py
@@ -53,12 +53,12 @@ class MoveHead(Block):
                     if 'warn' in self.bugs:
                         logging.warning(f"could not find non-empty parent of {empty_node} for mention {mention.head}")
                     if 'mark' in self.bugs:
-                        node.misc['Bug'] = 'no-parent-of-empty'
+                        empty_node.misc['Bug'] = 'no-parent-of-empty'
             non_empty.sort()
 
         # Fourth, check if there is a node within the enh_heads governing all the mention nodes
         # and forming thus a "gappy treelet", where the head is clearly the "highest" node.
-        (highest, added_nodes) = find_minimal_common_treelet(*non_empty)
+        highest = find_minimal_common_treelet(*non_empty)[0] if non_empty else None
         if highest in enh_heads:
             return highest, 'gappy'
         if highest in mwords:
-- 
2.43.0


From 31b613988e499fdaca9cc7f867535eb3b4351139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:46 +0000
Subject: [PATCH 101/125] fix: corefud.Delete empty=1 left invalid (empty) DEPS
 if no dependency remains

---
 udapi/block/corefud/delete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/delete.py b/udapi/block/corefud/delete.py
index 16f96b3..b9168ca 100644
--- a/udapi/block/corefud/delete.py
+++ b/udapi/block/corefud/delete.py
@@ -78,7 +78,7 @@ class Delete(Block):
                     else:
                         newdeps = self._deps_ignore_nodes(node, root.empty_nodes)
                         newdeps_sorted = sorted(set((dep['parent'].ord, dep['deprel']) for dep in newdeps))
-                        node.raw_deps = '|'.join(f"{p}:{r}" for p, r in newdeps_sorted)
+                        node.raw_deps = '|'.join(f"{p}:{r}" for p, r in newdeps_sorted) or '_'
 
                     if '.' in node.misc['Functor'].split(':')[0]:
                         del node.misc['Functor']
-- 
2.43.0


From e283d82c2ebca7d1539a523604fce2aae1afc0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:58 +0000
Subject: [PATCH 102/125] fix: find_minimal_common_treelet returned a node not
 governing all the nodes if some path reached the root first

---
 udapi/core/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 440a44f..347f01a 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1237,9 +1237,10 @@ def find_minimal_common_treelet(*args):
     # we climbed to it (`in_treelet[paren.ord] = the_child`).
     # In `new_nodes` dict, we note which nodes were tentatively added to the treelet.
     # If we climb up to the root of the whole tree, we save the root in `highest`.
+    # In that case, all the other components must be merged as well.
     new_nodes = {}
     highest = None
-    while len(nodes) > 1:
+    while len(nodes) > 1 or (nodes and highest is not None):
         node = nodes.pop(0)  # TODO deque
         parent = node._parent
         if parent is None:
-- 
2.43.0


From 366dbed0768a230d4c635019cd73ac3ee502a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:20 +0000
Subject: [PATCH 103/125] fix: if_empty_tree must not act on trees in other
 than the selected zones

---
 udapi/core/block.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/udapi/core/block.py b/udapi/core/block.py
index df882b7..1fa0bec 100644
--- a/udapi/core/block.py
+++ b/udapi/core/block.py
@@ -144,6 +144,8 @@ class Block(object):
         pass
 
     def _should_process_tree(self, tree):
+        if self.zones != 'all' and tree.zone not in self.zones.split(','):
+            return False
         if self.if_empty_tree != 'process' and not tree.descendants:
             if self.if_empty_tree == 'skip':
                 return False
@@ -158,10 +160,4 @@ class Block(object):
             else:
                 raise ValueError("Unknown value for if_empty_tree: "
                                  + self.if_empty_tree)
-        if self.zones == 'all':
-            return True
-        if self.zones == '' and tree.zone == '':
-            return True
-        if tree.zone in self.zones.split(','):
-            return True
-        return False
+        return True
-- 
2.43.0


From af8920591a9284bb0d32738c42a5c9c632bbc3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:41 +0000
Subject: [PATCH 104/125] fix: a reader gave an extra empty document if the
 previous document was not empty before reading

---
 udapi/core/basereader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index e81c6bd..7e0a89d 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -23,6 +23,7 @@ class BaseReader(Block):
         self.bundles_per_doc = bundles_per_doc
         self._buffer = None
         self.finished = False
+        self._file_exhausted = False
         self.sent_id_filter = None
         if sent_id_filter is not None:
             self.sent_id_filter = re.compile(str(sent_id_filter))
@@ -73,6 +74,7 @@ class BaseReader(Block):
         # The header of the previous file does not apply to the documents in the next file.
         if not self.merge:
             self._global_entity = None
+        self._file_exhausted = False
         return self.files.next_filehandle()
 
     def _no_file_started(self):
@@ -127,7 +129,8 @@ class BaseReader(Block):
         """Try to use self.read_trees() if possible and return True, otherwise False."""
         if document.bundles or self.bundles_per_doc or self.sent_id_filter or self.split_docs:
             return False
-        if self._no_file_started():
+        # The previous document may have been read by process_document up to the end of its file.
+        if self._no_file_started() or self._file_exhausted:
             filehandle = self.next_filehandle()
             if filehandle is None:
                 self.finished = True
@@ -247,6 +250,7 @@ class BaseReader(Block):
                         last_bundle_id = ''
                         continue
                     # The first tree of the next file would start a new document.
+                    self._file_exhausted = True
                     self.finished = not self.files.has_next_file() or bool(self._max_docs_loaded())
                     break
                 if trees_loaded == 0:
-- 
2.43.0


From a5eac93044cf80e7ff7d472c9faf619373afce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:27 +0000
Subject: [PATCH 105/125] fix: ud.ComplyWithText failed on differences in
 multi-word tokens

---
 udapi/block/ud/complywithtext.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index b36b251..199f16a 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -101,7 +101,7 @@ class ComplyWithText(Block):
         """Store the previous form of this node into MISC, unless the change is common&expected."""
         if node.form not in ("''", "``") and self.previous_form_label:
             node.misc[self.previous_form_label] = node.form
-            if self.previous_form_label == 'CorrectForm':
+            if self.previous_form_label == 'CorrectForm' and not isinstance(node, MWT):
                 node.feats['Typo'] = 'Yes'
 
     def process_tree(self, root):
@@ -227,6 +227,8 @@ class ComplyWithText(Block):
                 forms = text[text_lo:text_hi].split(' ')
                 if all(regex.fullmatch('\p{P}+', f) for f in forms) and self.allow_add_punct:
                     next_node = char_nodes[tree_lo]
+                    if isinstance(next_node, MWT):
+                        next_node = next_node.words[0]
                     for f in reversed(forms):
                         new = next_node.create_child(form=f, deprel='punct', upos='PUNCT')
                         new.shift_before_node(next_node)
@@ -239,7 +241,8 @@ class ComplyWithText(Block):
                 if all(regex.fullmatch('\p{P}+', n.form) for n in nodes):
                     if self.allow_delete_punct:
                         for node in nodes:
-                            node.remove(children='rehang')
+                            for word in (list(node.words) if isinstance(node, MWT) else [node]):
+                                word.remove(children='rehang')
                     else:
                         logging.warning('Unable to delete punctuation nodes (try ud.ComplyWithText allow_delete_punct=1)\n%s',
                                         _diff2str(diff, tree_chars, text))
@@ -268,7 +271,7 @@ class ComplyWithText(Block):
                     if self.allow_space(form):
                         self.store_previous_form(node)
                         node.form = form
-                    elif self.allow_goeswith:
+                    elif self.allow_goeswith and not isinstance(node, MWT):
                         self.store_previous_form(node)
                         forms = form.split()
                         node.form = forms[0]
@@ -279,9 +282,10 @@ class ComplyWithText(Block):
                     else:
                         logging.warning('Unable to solve 1:m diff:\n%s -> %s', nodes_str, form)
                 elif self.allow_add_punct and form.startswith(node.form) and regex.fullmatch('[ \p{P}]+', form[len(node.form):]):
+                    last_word = node.words[-1] if isinstance(node, MWT) else node
                     for punct_form in reversed(form[len(node.form):].split()):
-                        new = node.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
-                        new.shift_after_node(node)
+                        new = last_word.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
+                        new.shift_after_node(last_word)
                         new.misc[self.added_label] = 1
                 else:
                     logging.warning('Unable to solve 1:m diff:\n%s -> %s', nodes_str, form)
@@ -308,9 +312,10 @@ class ComplyWithText(Block):
         # Third, solve the 1-1 cases.
         else:
             if self.allow_add_punct and form.startswith(node.form) and regex.fullmatch('\p{P}+', form[len(node.form):]):
+                last_word = node.words[-1] if isinstance(node, MWT) else node
                 punct_form = form[len(node.form):]
-                new = node.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
-                new.shift_after_node(node)
+                new = last_word.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
+                new.shift_after_node(last_word)
                 new.misc[self.added_label] = 1
             else:
                 self.store_previous_form(node)
-- 
2.43.0


From bc873b2e07a34ea67b9786b4ab0c64d44f1d43b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:27 +0000
Subject: [PATCH 106/125] fix: ud.ComplyWithText must not mark words whose form
 is right as typos

---
 udapi/block/ud/complywithtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index 199f16a..98ab2ef 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -310,7 +310,7 @@ class ComplyWithText(Block):
                 node.root.create_multiword_token(nodes, form)
 
         # Third, solve the 1-1 cases.
-        else:
+        elif node.form != form:
             if self.allow_add_punct and form.startswith(node.form) and regex.fullmatch('\p{P}+', form[len(node.form):]):
                 last_word = node.words[-1] if isinstance(node, MWT) else node
                 punct_form = form[len(node.form):]
-- 
2.43.0


From e0fdd305a96c8118e98f16f71fa45cc1446ac708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:27 +0000
Subject: [PATCH 107/125] fix: ud.JoinToken must report that there is no
 previous token

---
 udapi/block/ud/jointoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/jointoken.py b/udapi/block/ud/jointoken.py
index 43d2b30..a59c60e 100644
--- a/udapi/block/ud/jointoken.py
+++ b/udapi/block/ud/jointoken.py
@@ -59,7 +59,7 @@ class JoinToken(Block):
         if self.misc_value and node.misc[self.misc_name] != self.misc_value:
             return
         prevnode = node.prev_node
-        if not prevnode:
+        if not prevnode or prevnode.is_root():
             logging.warning("MISC %s cannot be used at the first token of a sentence." % self.misc_name)
             node.misc['Bug'] = 'JoiningTokenNotSupportedHere'
             return
-- 
2.43.0


From 888125d254732c8cf5481fdc9ed1d640cffd404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:36 +0000
Subject: [PATCH 108/125] fix: ud.SplitUnderscoreTokens failed on words without
 lemma and made words with empty forms

---
 udapi/block/ud/splitunderscoretokens.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/udapi/block/ud/splitunderscoretokens.py b/udapi/block/ud/splitunderscoretokens.py
index 44575e0..75b4afd 100644
--- a/udapi/block/ud/splitunderscoretokens.py
+++ b/udapi/block/ud/splitunderscoretokens.py
@@ -44,9 +44,15 @@ class SplitUnderscoreTokens(Block):
     def process_node(self, node):
         if node.form != '_' and '_' in node.form:
             forms = node.form.split('_')
+            if not all(forms):
+                logging.warning("Cannot split %s into non-empty forms, skipping.", node.form)
+                return
             if self.lemma == 'form':
                 node.lemma = node.form
-            lemmas = node.lemma.split('_')
+            if node.lemma in (None, '_'):
+                lemmas = ['_'] * len(forms)
+            else:
+                lemmas = node.lemma.split('_')
             if len(forms) != len(lemmas):
                 logging.warning("Different number of underscores in %s and %s, skipping.",
                                 node.form, node.lemma)
-- 
2.43.0


From e55671f7a099b41b18c092ab907e401eaaadc932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:36 +0000
Subject: [PATCH 109/125] fix: ud.SplitUnderscoreTokens left the new words of a
 multi-word token outside of it

---
 udapi/block/ud/splitunderscoretokens.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/splitunderscoretokens.py b/udapi/block/ud/splitunderscoretokens.py
index 75b4afd..a28091f 100644
--- a/udapi/block/ud/splitunderscoretokens.py
+++ b/udapi/block/ud/splitunderscoretokens.py
@@ -58,16 +58,24 @@ class SplitUnderscoreTokens(Block):
                                 node.form, node.lemma)
                 return
 
-            last_node = node
+            last_node, new_nodes = node, []
             deprel = self.deprel_for(node)
             for form, lemma in zip(forms[1:], lemmas[1:]):
                 new_node = node.create_child(form=form, lemma=lemma, upos=node.upos,
                                              xpos=node.xpos, deprel=deprel)
                 new_node.shift_after_node(last_node)
+                new_nodes.append(new_node)
                 last_node = new_node
             node.form = forms[0]
             node.lemma = lemmas[0]
-            if node.misc['SpaceAfter'] == 'No':
+            mwt = node.multiword_token
+            if mwt:
+                # All the new words belong to the multi-word token of the original word.
+                index = mwt.words.index(node) + 1
+                mwt.words[index:index] = new_nodes
+                for new_node in new_nodes:
+                    new_node._mwt = mwt  # pylint: disable=protected-access
+            elif node.misc['SpaceAfter'] == 'No':
                 del node.misc['SpaceAfter']
                 last_node.misc['SpaceAfter'] = 'No'
 
-- 
2.43.0


From 7dab30ec28d8a0c3a8c7c53bd9bf25ea4d5f34d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:36 +0000
Subject: [PATCH 110/125] fix: ud.SetSpaceAfter let the kind of quotes of one
 sentence influence the following sentences

---
 udapi/block/ud/setspaceafter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index 04c9fff..85376eb 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -37,13 +37,13 @@ class SetSpaceAfter(Block):
         # Some languages use directed „quotes“ and some “quotes”,
         # so the symbol “ (U+201C) is ambiguous and we heuristically check for presence of „.
         if count_of_form['„']:
-            not_before += ['“']
+            not_before = not_before + ['“']
         else:
-            not_after += ['“']
+            not_after = not_after + ['“']
 
         for i, node in enumerate(nodes[:-1]):
             next_form = nodes[i + 1].form
-            if node.form in self.not_after or next_form in not_before:
+            if node.form in not_after or next_form in not_before:
                 self.mark_no_space(node)
             if node.form == '"':
                 if matching_quotes:
-- 
2.43.0


From ca51926013d717e84dbebda81a066c036a44bf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:36 +0000
Subject: [PATCH 111/125] fix: ud.SetSpaceAfter failed on sentences of no word
 or of one quotation mark

---
 udapi/block/ud/setspaceafter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index 85376eb..c7eedca 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -55,7 +55,7 @@ class SetSpaceAfter(Block):
                 elif i==0:
                     self.mark_no_space(node)
 
-        if nodes[-1].form == '"':
+        if len(nodes) > 1 and nodes[-1].form == '"':
             self.mark_no_space(nodes[-2])
 
         if self.fix_text and self.changed:
-- 
2.43.0


From 402cd093cee9f2203347d5f4a332b79711d487c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:36 +0000
Subject: [PATCH 112/125] fix: ud.SetSpaceAfter did not fix the text after
 changes of its subclasses

---
 udapi/block/ud/setspaceafter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index c7eedca..f13895c 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -24,7 +24,6 @@ class SetSpaceAfter(Block):
     def process_tree(self, root):
         nodes = root.descendants
         count_of_form = collections.Counter([n.form for n in nodes])
-        self.changed = False
 
         # Undirected double quotes are ambiguous.
         # If there is an even number of quotes in a sentence, suppose they are not nested
@@ -60,6 +59,7 @@ class SetSpaceAfter(Block):
 
         if self.fix_text and self.changed:
             root.text = root.compute_text()
+        self.changed = False
 
     def mark_no_space(self, node):
         """Mark a node with SpaceAfter=No unless it is a goeswith exception."""
-- 
2.43.0


From e5fe9c18ad516c530dd27680039211e4fdeec1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:36 +0000
Subject: [PATCH 113/125] fix: ud.GoeswithFromText failed if a multi-word token
 is written with spaces in the text

---
 udapi/block/ud/goeswithfromtext.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/udapi/block/ud/goeswithfromtext.py b/udapi/block/ud/goeswithfromtext.py
index fe419fa..9d0675a 100644
--- a/udapi/block/ud/goeswithfromtext.py
+++ b/udapi/block/ud/goeswithfromtext.py
@@ -81,6 +81,14 @@ class GoeswithFromText(Block):
                 raw_form = text[:len_raw_form]
                 text = text[len_raw_form:]
                 tokens = raw_form.split(' ')
+                if node.is_mwt():
+                    logging.warning('Cannot split the multi-word token "%s" in tree %s', node.form, root)
+                    if not text or text[0].isspace():
+                        del node.misc['SpaceAfter']
+                        text = text.lstrip()
+                    else:
+                        node.misc['SpaceAfter'] = 'No'
+                    continue
                 node.form = tokens[0]
                 if not self.keep_lemma:
                     node.lemma = tokens[0].lower()
-- 
2.43.0


From 1a43b30fdf701d6376be405b0cd258d768ea4c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:36 +0000
Subject: [PATCH 114/125] fix: ud.FixMwtSpace lost SpaceAfter=No of the removed
 multi-word token

---
 udapi/block/ud/fixmwtspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixmwtspace.py b/udapi/block/ud/fixmwtspace.py
index a2b7b87..6aea3dc 100644
--- a/udapi/block/ud/fixmwtspace.py
+++ b/udapi/block/ud/fixmwtspace.py
@@ -19,4 +19,6 @@ class FixMwtSpace(Block):
                 if node == mwt.words[0]:
                     wordforms = [x.form for x in mwt.words]
                     if ' '.join(wordforms) == mwt.form:
+                        if mwt.no_space_after:
+                            mwt.words[-1].misc['SpaceAfter'] = 'No'
                         mwt.remove()
-- 
2.43.0


From e3e98d7fe9083f0ad18e608ca37d83016186dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:36 +0000
Subject: [PATCH 115/125] fix: ud.JoinToken with a number as misc_value joined
 nothing

---
 udapi/block/ud/jointoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/jointoken.py b/udapi/block/ud/jointoken.py
index a59c60e..53dfd18 100644
--- a/udapi/block/ud/jointoken.py
+++ b/udapi/block/ud/jointoken.py
@@ -56,7 +56,7 @@ class JoinToken(Block):
         """
         if node.misc[self.misc_name] == '':
             return
-        if self.misc_value and node.misc[self.misc_name] != self.misc_value:
+        if self.misc_value and node.misc[self.misc_name] != str(self.misc_value):
             return
         prevnode = node.prev_node
         if not prevnode or prevnode.is_root():
-- 
2.43.0


From 123d5587e9d718035e7adbe87f56d4424f5a61a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:58 +0000
Subject: [PATCH 116/125] fix: ud.ComplyWithText failed if the last token is
 not in the text

---
 udapi/block/ud/complywithtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index 98ab2ef..4727fff 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -166,7 +166,7 @@ class ComplyWithText(Block):
                     tree_lo += 1
                 if tree_chars[tree_hi - 1] == ' ':
                     tree_hi -= 1
-                if text[text_lo] == ' ':
+                if text[text_lo:text_lo + 1] == ' ':
                     text_lo += 1
                 if text[text_hi - 1] == ' ':
                     text_hi -= 1
-- 
2.43.0


From 76c61d01da41d6a7f7dec01d4eb0293fd5a957c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:10 +0000
Subject: [PATCH 117/125] fix: ud.AddMwt must not leave MISC copied to a word
 also at the multi-word token

---
 udapi/block/ud/addmwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/addmwt.py b/udapi/block/ud/addmwt.py
index 996f4dc..d5942af 100644
--- a/udapi/block/ud/addmwt.py
+++ b/udapi/block/ud/addmwt.py
@@ -56,10 +56,10 @@ class AddMwt(Block):
                         # However, SpaceAfter should be annotated only on the token level,
                         # so make sure it is not accidentally copied on the word level.
                         if attr == 'misc':
-                            orig_attr['misc'].clear()
+                            mwt_misc.clear()
                             for a in 'SpaceAfter SpacesAfter SpacesBefore'.split():
                                 if new_node.misc[a]:
-                                    orig_attr['misc'][a] = new_node.misc[a]
+                                    mwt_misc[a] = new_node.misc[a]
                                     del new_node.misc[a]
 
                     elif attr == 'feats' and '*' in values[i]:
-- 
2.43.0


From 4dddbc0aa6e517328b001be508641e2726095057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:29 +0000
Subject: [PATCH 118/125] fix: ud.SetSpaceAfter changed the text of a sentence
 because an earlier one had failed

---
 udapi/block/ud/setspaceafter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index f13895c..73e66db 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -21,6 +21,9 @@ class SetSpaceAfter(Block):
         self.fix_text = fix_text
         self.changed = False
 
+    def before_process_document(self, document):
+        self.changed = False  # a failure may have ended the previous document
+
     def process_tree(self, root):
         nodes = root.descendants
         count_of_form = collections.Counter([n.form for n in nodes])
-- 
2.43.0


From 9f1bd03cfe7dc4f5abfefbf53ac7c9c985e15261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:39 +0000
Subject: [PATCH 119/125] fix: write.TextModeTrees with layout=align lost
 columns after a failure

---
 udapi/block/write/textmodetrees.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 2a4b594..80d7773 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -308,15 +308,18 @@ class TextModeTrees(BaseWriter):
                 if node.is_empty():
                     self.add_node(idx, node)
         else:
-            columns_attrs = [[a] for a in self.attrs] if self.layout == 'align' else [self.attrs]
-            for col_attrs in columns_attrs:
-                self.attrs = col_attrs
-                max_length = max(self.lengths)
-                for idx, node in enumerate(allnodes):
-                    if self.layout.startswith('align'):
-                        self._add(idx, ' ' * (max_length - self.lengths[idx]))
-                    self.add_node(idx, node)
-            self.attrs = [a for sublist in columns_attrs for a in sublist]
+            all_attrs = self.attrs
+            columns_attrs = [[a] for a in all_attrs] if self.layout == 'align' else [all_attrs]
+            try:
+                for col_attrs in columns_attrs:
+                    self.attrs = col_attrs
+                    max_length = max(self.lengths)
+                    for idx, node in enumerate(allnodes):
+                        if self.layout.startswith('align'):
+                            self._add(idx, ' ' * (max_length - self.lengths[idx]))
+                        self.add_node(idx, node)
+            finally:
+                self.attrs = all_attrs
 
         # Print headers (if required) and the tree itself
         self.print_headers(root)
-- 
2.43.0


From 12079f735a67ea49a5d6e3d6851c7231e96dff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:01 +0000
Subject: [PATCH 120/125] fix: ud.MarkBugs reported bugs of a document in which
 it had failed as bugs of the next one

---
 udapi/block/ud/markbugs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/udapi/block/ud/markbugs.py b/udapi/block/ud/markbugs.py
index bf47ed7..8ca290b 100644
--- a/udapi/block/ud/markbugs.py
+++ b/udapi/block/ud/markbugs.py
@@ -189,6 +189,12 @@ class MarkBugs(Block):
             self.cop_nodes[lemma].append(node)
             self.cop_count[lemma] += 1
 
+    def before_process_document(self, document):
+        # A failure may have ended the previous document before its bugs were reported.
+        self.cop_count.clear()
+        self.cop_nodes.clear()
+        self.stats.clear()
+
     def after_process_document(self, document):
         for lemma, _count in self.cop_count.most_common()[self.max_cop_lemmas:]:
             for node in self.cop_nodes[lemma]:
-- 
2.43.0


From 4420fcb65a58fe1c4622f02ea09b4eb1d5497a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:01 +0000
Subject: [PATCH 121/125] fix: ud.Convert1to2 reported the ToDos of a document
 in which it had failed for the next one

---
 udapi/block/ud/convert1to2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/ud/convert1to2.py b/udapi/block/ud/convert1to2.py
index d76c50b..aaf937b 100644
--- a/udapi/block/ud/convert1to2.py
+++ b/udapi/block/ud/convert1to2.py
@@ -348,6 +348,9 @@ class Convert1to2(Block):
                 root.add_comment('ToDoOrigText = ' + stored)
                 self.log(root, 'text', 'Sentence string does not agree with the stored text.')
 
+    def before_process_document(self, document):
+        self.stats.clear()  # a failure may have ended the previous document before its report
+
     def after_process_document(self, document):
         """Print overall statistics of ToDo counts."""
         message = 'ud.Convert1to2 ToDo Overview:'
-- 
2.43.0


From 8c61a3d847b4a6060ebcdd49c29246473321ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:28 +0000
Subject: [PATCH 122/125] fix: coreference annotation that failed to load left
 half-loaded mentions on the nodes, so that removing these nodes failed
 half-way

---
 udapi/core/coref.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 339fb0b..9872b9f 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -566,6 +566,16 @@ RE_DISCONTINUOUS = re.compile(r'^([^[]+)\[(\d+)/(\d+)\]')
 highest_doc_n = 0
 
 def load_coref_from_misc(doc, strict=True):
+    try:
+        _load_coref_from_misc(doc, strict)
+    except Exception:
+        # Forget the mentions loaded so far, so that the nodes can still be edited (e.g. removed).
+        for node in doc.nodes_and_empty:
+            node._mentions = []
+        raise
+
+
+def _load_coref_from_misc(doc, strict):
     global highest_doc_n
     entities = {}
     unfinished_mentions = collections.defaultdict(list)
-- 
2.43.0


From 996844fc4d4f1733175096bb9eef25c6c9c44752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:55 +0000
Subject: [PATCH 123/125] fix: corefud.Load strict=0 must not attach words to
 the cross-sentence mentions it deletes

---
 udapi/core/coref.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 9872b9f..9de36e7 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -658,6 +658,7 @@ def _load_coref_from_misc(doc, strict):
                         entity._mentions.remove(mention)
                         if not entity._mentions:
                             del entities[entity.eid]
+                        continue
                 for w in node.root.descendants_and_empty:
                     if last_word.precedes(w):
                         mention._words.append(w)
-- 
2.43.0


From db26edc4cc0d5ce4bbc30e339f32b4b2d9f16282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:27 +0000
Subject: [PATCH 124/125] fix: coreference annotation that failed to load must
 not lose the legacy Split attributes

---
 udapi/core/coref.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 9de36e7..75a6371 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -580,6 +580,7 @@ def _load_coref_from_misc(doc, strict):
     entities = {}
     unfinished_mentions = collections.defaultdict(list)
     discontinuous_mentions = collections.defaultdict(list)
+    legacy_split_nodes = []
     global_entity = doc.meta.get('global.Entity')
     was_global_entity = True
     if not global_entity:
@@ -763,7 +764,8 @@ def _load_coref_from_misc(doc, strict):
         # which means that both e11 and e12 have split antecedents (e11=e3+e4, e12=e6+e7).
         misc_split = node.misc['SplitAnte']
         if not misc_split and 'Split' in node.misc:
-            misc_split = node.misc.pop('Split')
+            misc_split = node.misc['Split']
+            legacy_split_nodes.append(node)
         if misc_split:
             ante_entities = []
             for x in misc_split.split(','):
@@ -800,6 +802,8 @@ def _load_coref_from_misc(doc, strict):
             for node in mention._words:
                 node._mentions.sort()
     doc._eid_to_entity = {c._eid: c for c in sorted(entities.values())}
+    for node in legacy_split_nodes:
+        del node.misc['Split']
 
 
 def store_coref_to_misc(doc):
-- 
2.43.0


From 5ce425d0092d9161ceebff364d81d531e34ae3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:06 +0000
Subject: [PATCH 125/125] fix: a discontinuous mention must not continue in
 another sentence

---
 udapi/core/coref.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 75a6371..dd9f59f 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -732,6 +732,8 @@ def _load_coref_from_misc(doc, strict):
                 if subspan_idx and subspan_idx != '1':
                     opened = [pair[0] for pair in unfinished_mentions[eid]]
                     mention = next(m for m in discontinuous_mentions[eid] if m not in opened)
+                    if mention._words[-1].root is not node.root:
+                        _error(f"Cross-sentence mentions not supported yet: {chunk} at {node}", 1)
                     mention._words.append(node)
                     if closing and subspan_idx == total_subspans:
                         m = discontinuous_mentions[eid].pop()
-- 
2.43.0

