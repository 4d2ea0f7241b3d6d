From 63141edac414d0cf116ecd1cc118bb13efcedeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 01/72] fix: remove all elements of a removed template or
 component

---
 collagraph/collagraph.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 84008d7..ef15483 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -458,8 +458,8 @@ class Collagraph:
     def commit_deletion(self, fiber: Fiber, dom_parent: Any):
         """
         Remove an item from the dom. If the given fiber does not reference
-        a dom element, then it will try its child (recursively) until it finds
-        a fiber with a dom element that can be removed.
+        a dom element, then it will remove the dom elements of all of its
+        children (recursively).
         Clears the child and dom attributes of the fiber.
         """
         if fiber.component:
@@ -483,7 +483,13 @@ class Collagraph:
             self.renderer.remove(fiber.dom, dom_parent)
             fiber.dom = None
         else:
-            self.commit_deletion(fiber.child, dom_parent)
+            # No dom element of its own, so remove the elements of all its children
+            child = fiber.child
+            while child:
+                # `commit_deletion` clears the sibling of the given fiber
+                sibling = child.sibling
+                self.commit_deletion(child, dom_parent)
+                child = sibling
 
         fiber.child = None
         fiber.sibling = None
-- 
2.43.0


From 0a74fce7314a26af4a53eaad2477fe5db622a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 02/72] fix: insert and move elements at the position given by
 the description

---
 collagraph/collagraph.py | 95 ++++++++++++++++++++++++++--------------
 collagraph/types.py      |  1 -
 2 files changed, 63 insertions(+), 33 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index ef15483..e936936 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -1,7 +1,7 @@
 from itertools import zip_longest
 import logging
 from operator import xor
-from queue import SimpleQueue
+from queue import LifoQueue, SimpleQueue
 import time
 from typing import Any, Callable, Dict, Iterable, List, Optional
 
@@ -107,7 +107,7 @@ class Collagraph:
         self._render_callback: Callable = None
         self._request = None
         self._qt_timer = None
-        self._work = SimpleQueue()
+        self._work = LifoQueue()
         self._dirty = False
 
     def render(self, element: VNode, container, callback=None):
@@ -318,22 +318,19 @@ class Collagraph:
 
         ordered_old_fibers, removals = compare(elements, old_fibers, match=matcher)
 
-        operations = {}
-        if len(elements) > 1:
-            new_keys = [el.key for el in elements if el and el.key]
-            old_keys = [fib.key for fib in old_fibers if fib and fib.key]
-
-            ops = create_ops(old_keys, new_keys)
-
-            for op in ops:
-                if op["op"] is not OpType.DEL:
-                    if "anchor" in op:
-
-                        def match(el, key):
-                            return el.key == key
-
-                        anchor = first(old_fibers, match, op["anchor"])
-                        operations[op["value"]] = anchor.dom
+        # Figure out which of the fibers have to be moved. Every fiber that will be
+        # kept is identified by its current index, any other element by a unique
+        # value, such that elements without a key are taken into account as well.
+        current = {id(fib): idx for idx, fib in enumerate(old_fibers)}
+        future = [
+            current[id(fib)] if fib and fib.type == el.type else f"new-{idx}"
+            for idx, (el, fib) in enumerate(zip(elements, ordered_old_fibers))
+        ]
+        ops = create_ops(list(current.values()), future)
+        moves = {op["value"] for op in ops if op["op"] is OpType.MOVE}
+        # Elements of fibers that don't have a dom element themselves (such as
+        # components and templates) have to be moved along with that fiber.
+        move_along = wip_fiber.dom is None and wip_fiber.move
 
         # In here, all the 'new' elements are compared to the old/current fiber/state
         prev_sibling = None
@@ -356,8 +353,7 @@ class Collagraph:
                 new_fiber.sibling = None
                 new_fiber.effect_tag = EffectTag.UPDATE
                 new_fiber.watcher = None
-                new_fiber.move = new_fiber.key in operations
-                new_fiber.anchor = operations.get(new_fiber.key)
+                new_fiber.move = move_along or current[id(old_fiber)] in moves
             if element and not same_type:
                 # Configure a fiber for creating a new DOM element
                 new_fiber = (old_fiber and old_fiber.alternate) or Fiber()
@@ -374,7 +370,6 @@ class Collagraph:
                 new_fiber.effect_tag = EffectTag.PLACEMENT
                 new_fiber.watcher = None
                 new_fiber.move = False
-                new_fiber.anchor = operations.get(new_fiber.key)
                 # NOTE: If there is an old_fiber, then it will be
                 # marked for deletion in the next if statement
             if old_fiber and not same_type:
@@ -400,13 +395,14 @@ class Collagraph:
         that have been marked for deletion have been removed.
         """
         for deletion in self._deletions:
-            self._work.put(deletion)
+            self.commit_work(deletion)
         self._deletions = []
-        self._work.put(self._wip_root.child)
 
+        # Walk depth first through the tree, such that all the elements
+        # are processed in the order in which they should end up in the dom
+        self._work.put(self._wip_root.child)
         while not self._work.empty():
-            work = self._work.get()
-            self.commit_work(work)
+            self.commit_work(self._work.get())
 
         # Use a queue to walk through the whole tree of fibers in order to
         # call component hooks (e.g: mounted, updated). The walk starts with
@@ -510,16 +506,14 @@ class Collagraph:
                 )
                 fiber.mounted = True
             if fiber.dom is not None:
-                self.renderer.insert(fiber.dom, dom_parent, anchor=fiber.anchor)
+                anchor = self.find_anchor(fiber)
+                self.renderer.insert(fiber.dom, dom_parent, anchor=anchor)
         elif fiber.effect_tag == EffectTag.UPDATE:
             if fiber.dom is not None:
                 if fiber.move:
+                    anchor = self.find_anchor(fiber)
                     self.renderer.remove(fiber.dom, dom_parent)
-                    self.renderer.insert(
-                        fiber.dom,
-                        dom_parent,
-                        anchor=fiber.anchor,
-                    )
+                    self.renderer.insert(fiber.dom, dom_parent, anchor=anchor)
             self.update_dom_or_component(
                 fiber,
                 fiber.dom,
@@ -529,8 +523,45 @@ class Collagraph:
         elif fiber.effect_tag == EffectTag.DELETION:
             self.commit_deletion(fiber, dom_parent)
 
-        self._work.put(fiber.child)
+        # Make sure that the children are processed before the siblings
         self._work.put(fiber.sibling)
+        self._work.put(fiber.child)
+
+    def find_anchor(self, fiber: Fiber) -> Any:
+        """
+        Returns the dom element in front of which the dom element of the given
+        fiber has to be inserted: the first dom element that comes after the fiber
+        within the same dom parent and which is already in its right place.
+        Returns None when there is no such element.
+        """
+
+        def first_placed_dom(fiber):
+            if fiber.effect_tag is EffectTag.PLACEMENT:
+                return None
+            if fiber.dom is not None:
+                return None if fiber.move else fiber.dom
+            child = fiber.child
+            while child:
+                if (dom := first_placed_dom(child)) is not None:
+                    return dom
+                child = child.sibling
+            return None
+
+        dom_parent = fiber.parent
+        while dom_parent.dom is None:
+            dom_parent = dom_parent.parent
+        if dom_parent.effect_tag is EffectTag.PLACEMENT:
+            # All elements within a new element are new as well
+            return None
+
+        while fiber is not dom_parent:
+            sibling = fiber.sibling
+            while sibling:
+                if (dom := first_placed_dom(sibling)) is not None:
+                    return dom
+                sibling = sibling.sibling
+            fiber = fiber.parent
+        return None
 
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
diff --git a/collagraph/types.py b/collagraph/types.py
index 3a325e4..161cf9e 100644
--- a/collagraph/types.py
+++ b/collagraph/types.py
@@ -42,7 +42,6 @@ class Fiber:
     dom: Any = None
     effect_tag: EffectTag = None
     key: str = None
-    anchor: Any = None  # Dom element
     move: bool = False
     parent: "Fiber" = None
     props: Dict = None
-- 
2.43.0


From 29673ff237d187fa186fbb074661259019f0c0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 03/72] fix: don't lose state changes that are made while work
 is in progress

---
 collagraph/collagraph.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index e936936..6eaf403 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -159,6 +159,11 @@ class Collagraph:
         NOTE: when sync is True, the deadline is not taken into account and all
         work will be done in sync until there is no more work.
         """
+        if self._next_unit_of_work and self._next_unit_of_work is self._wip_root:
+            # Every state change from here on might affect parts of the tree
+            # that have been processed already in this iteration
+            self._dirty = False
+
         should_yield = False
         while self._next_unit_of_work and not should_yield:
             self._next_unit_of_work = self.perform_unit_of_work(self._next_unit_of_work)
@@ -173,9 +178,9 @@ class Collagraph:
             # All the preparations to build the new WIP root have been performed,
             # so it's time to walk through the new WIP root fiber tree and update
             # the actual DOM
-            self._dirty = False
             self.commit_root()
-            # A state change happened during updating of the DOM
+            # A state change happened during preparation of the WIP root or
+            # during updating of the DOM
             if self._dirty:
                 self.prepare_next_iteration_of_work()
 
-- 
2.43.0


From ed2ca5190481bb680f8c6af8673d0651f4d7839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:04 +0000
Subject: [PATCH 04/72] fix: don't reuse stale fibers after rendering another
 root element

---
 collagraph/collagraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 6eaf403..0520623 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -294,6 +294,7 @@ class Collagraph:
         self._wip_root.dom = self._current_root.dom
         self._wip_root.props = self._current_root.props
         self._wip_root.children = self._current_root.children
+        self._wip_root.child = None
         self._wip_root.alternate = self._current_root
         self._next_unit_of_work = self._wip_root
         self._deletions = []
-- 
2.43.0


From 4e77381bd793fbeef878f1b99c537e4a579a9005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 05/72] fix: let DictRenderer find elements by identity

---
 collagraph/renderers/dict_renderer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/dict_renderer.py b/collagraph/renderers/dict_renderer.py
index 2856270..1010fc6 100644
--- a/collagraph/renderers/dict_renderer.py
+++ b/collagraph/renderers/dict_renderer.py
@@ -3,6 +3,14 @@ from collections import defaultdict
 from . import Renderer
 
 
+def index_of(el, children):
+    """Returns the index of `el` itself, instead of an element that is equal to it."""
+    for idx, child in enumerate(children):
+        if child is el:
+            return idx
+    raise ValueError(f"{el} is not in list")
+
+
 class DictRenderer(Renderer):
     """Renderer that renders to a simple dict object
     which (may) contain the following keys:
@@ -21,12 +29,12 @@ class DictRenderer(Renderer):
 
     def insert(self, el, parent, anchor=None):
         children = parent.setdefault("children", [])
-        anchor_idx = children.index(anchor) if anchor else len(children)
+        anchor_idx = len(children) if anchor is None else index_of(anchor, children)
         children.insert(anchor_idx, el)
 
     def remove(self, el, parent):
         children = parent["children"]
-        children.remove(el)
+        del children[index_of(el, children)]
 
     def set_element_text(self, el: dict, value: str):
         el["text"] = value
-- 
2.43.0


From a77d07aa91eede654115553b35ade32e38cf8468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:25 +0000
Subject: [PATCH 06/72] fix: support renderers with elements that are falsy

---
 collagraph/collagraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 0520623..81459e5 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -263,7 +263,7 @@ class Collagraph:
 
     def update_host_component(self, fiber: Fiber):
         # Add dom node, but not for template/slot tags (which are virtual tags)
-        if not fiber.dom and fiber.type not in VIRTUAL_NODE_TYPES:
+        if fiber.dom is None and fiber.type not in VIRTUAL_NODE_TYPES:
             fiber.dom = self.create_dom(fiber)
 
         if fiber.alternate:
@@ -572,7 +572,7 @@ class Collagraph:
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
     ):
-        if not dom and not fiber.component:
+        if dom is None and not fiber.component:
             return
 
         if fiber.type == "TEXT_ELEMENT":
@@ -631,7 +631,7 @@ class Collagraph:
             if events_to_remove or events_to_add or attrs_to_remove or attrs_to_update:
                 # Mark the fiber as updated
                 fiber.updated = True
-        elif dom:
+        else:
             for event_type, val in events_to_remove.items():
                 self.renderer.remove_event_listener(dom, event_type, val)
 
-- 
2.43.0


From dccbac214dcbfb39c79873fd915962b4c4c19f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 07/72] fix: only treat functions as equivalent when they
 behave the same

---
 collagraph/compare.py | 132 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 113 insertions(+), 19 deletions(-)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index 5e9133d..41f7b4b 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -1,24 +1,103 @@
 from functools import partial
-from typing import Callable
+from types import CodeType
+from typing import Any, Callable
 
+from observ.proxy import Proxy
 
-def equivalent_functions(a: Callable, b: Callable):
+# Types of which the values can be compared by value (as they can't change)
+PLAIN_TYPES = {bool, bytes, complex, float, int, range, str}
+
+
+def equivalent_functions(a: Callable, b: Callable, seen: set = None):
     """Returns whether function a is equivalent to function b.
 
     ``functools.partial`` functions are also supported (but only when both
     argument a and b are partial).
     """
+    if a is b:
+        return True
+
+    # Keep track of the pairs that are being compared because functions
+    # might (indirectly) refer to themselves
+    seen = seen or set()
+    if (id(a), id(b)) in seen:
+        return True
+    seen = seen | {(id(a), id(b))}
+
     if not hasattr(a, "__code__") or not hasattr(b, "__code__"):
-        if isinstance(a, partial) and isinstance(b, partial):
+        if type(a) is partial and type(b) is partial:
             return (
-                a.args == b.args
-                and a.keywords == b.keywords
-                and equivalent_functions(a.func, b.func)
+                equivalent_values(a.args, b.args, seen)
+                and a.keywords.keys() == b.keywords.keys()
+                and all(
+                    equivalent_values(val, b.keywords[key], seen)
+                    for key, val in a.keywords.items()
+                )
+                and equivalent_functions(a.func, b.func, seen)
             )
 
-        return a == b
+        return bool(a == b)
+
+    return (
+        equivalent_code(a.__code__, b.__code__)
+        and equivalent_receivers(a, b)
+        and getattr(a, "__globals__", None) is getattr(b, "__globals__", None)
+        and equivalent_defaults(a, b, seen)
+        and equivalent_closure_values(a, b, seen)
+    )
+
+
+def equivalent_values(a: Any, b: Any, seen: set = None):
+    """Returns whether the values a and b can be used interchangeably: mutable
+    objects are required to be the very same object."""
+    if a is b:
+        return True
+    if isinstance(a, Proxy) and isinstance(b, Proxy):
+        return type(a) is type(b) and a.target is b.target
+    if callable(a) and callable(b):
+        return equivalent_functions(a, b, seen)
+    if type(a) is not type(b):
+        return False
+    if type(a) is tuple:
+        return len(a) == len(b) and all(
+            equivalent_values(x, y, seen) for x, y in zip(a, b)
+        )
+    if type(a) is frozenset:
+        return {(type(x), x) for x in a} == {(type(x), x) for x in b}
+    # Compare repr's as well to be able to make the distinction between 0.0 and -0.0
+    return type(a) in PLAIN_TYPES and a == b and repr(a) == repr(b)
+
 
-    return equivalent_code(a.__code__, b.__code__) and equivalent_closure_values(a, b)
+def equivalent_receivers(a, b):
+    """Returns whether a and b are either both plain functions, or are both methods
+    that are bound to the same object."""
+    if not hasattr(a, "__self__") and not hasattr(b, "__self__"):
+        return True
+    receiver_a, receiver_b = getattr(a, "__self__", None), getattr(b, "__self__", None)
+    if isinstance(receiver_a, Proxy) and isinstance(receiver_b, Proxy):
+        return (
+            type(receiver_a) is type(receiver_b)
+            and receiver_a.target is receiver_b.target
+        )
+    return receiver_a is receiver_b
+
+
+def equivalent_defaults(a, b, seen: set = None):
+    """Returns whether a and b have equivalent default values for their arguments."""
+    keyword_defaults_a = getattr(a, "__kwdefaults__", None) or {}
+    keyword_defaults_b = getattr(b, "__kwdefaults__", None) or {}
+    return (
+        equivalent_values(
+            getattr(a, "__defaults__", None) or (),
+            getattr(b, "__defaults__", None) or (),
+            seen,
+        )
+        and keyword_defaults_a.keys() == keyword_defaults_b.keys()
+        and all(
+            equivalent_values(val, keyword_defaults_b[key], seen)
+            for key, val in keyword_defaults_a.items()
+        )
+    )
 
 
 def equivalent_code(a, b):
@@ -39,6 +118,7 @@ def equivalent_code(a, b):
         "co_cellvars",
         "co_code",
         "co_consts",
+        "co_exceptiontable",
         "co_filename",
         "co_flags",
         "co_freevars",
@@ -55,30 +135,44 @@ def equivalent_code(a, b):
             # be different but should be similar at least in length
             if len(attr_a) != len(attr_b):
                 return False
+        elif attr == "co_consts":
+            # Consts such as 1, 1.0 and True are equal but not the same
+            if not equivalent_consts(attr_a, attr_b):
+                return False
         elif attr_a != attr_b:
             return False
 
     return True
 
 
-def equivalent_closure_values(a, b):
+def equivalent_consts(a, b):
+    """Returns whether the given consts (of code objects) are equivalent."""
+    if type(a) is tuple and type(b) is tuple:
+        return len(a) == len(b) and all(equivalent_consts(x, y) for x, y in zip(a, b))
+    if isinstance(a, CodeType):
+        return a == b
+    return equivalent_values(a, b)
+
+
+def equivalent_closure_values(a, b, seen: set = None):
     """Compare the cell contents of the __closure__ attribute for the given
     functions. This method assumes that the code for a and be is already
     equivalent."""
     if (closure_a := getattr(a, "__closure__", None)) and (
         closure_b := getattr(b, "__closure__", None)
     ):
-        values_a = [cell.cell_contents for cell in closure_a]
-        values_b = [cell.cell_contents for cell in closure_b]
-        if len(values_a) != len(values_b):
+        if len(closure_a) != len(closure_b):
             return False
 
-        for a, b in zip(values_a, values_b):
-            if callable(a) and callable(b):
-                if not equivalent_functions(a, b):
-                    return False
-            else:
-                if a != b:
-                    return False
+        for cell_a, cell_b in zip(closure_a, closure_b):
+            if cell_a is cell_b:
+                continue
+            try:
+                values = cell_a.cell_contents, cell_b.cell_contents
+            except ValueError:
+                # The variable is not bound (yet)
+                return False
+            if not equivalent_values(*values, seen):
+                return False
 
     return True
-- 
2.43.0


From 0d2eee2f9f1773a9828edb56fbbb30639a3d06bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:26 +0000
Subject: [PATCH 08/72] fix: keep track of the event handler that is actually
 attached

---
 collagraph/collagraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 81459e5..16a42a5 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -592,6 +592,9 @@ class Collagraph:
                     val, next_props, key
                 ):
                     equivalent_event_handlers.add(key)
+                    # The previous handler stays attached, so it is the one that
+                    # will have to be removed at some point
+                    next_props[key] = val
                     continue
 
                 event_type = key_to_event(key)
-- 
2.43.0


From e8b1ddfbd4240961bf99dc4729800a2252017b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:54 +0000
Subject: [PATCH 09/72] fix: keep props of components in sync without changing
 the passed objects

---
 collagraph/collagraph.py | 63 ++++++++++++++++++++++++++--------------
 collagraph/types.py      |  1 +
 2 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 16a42a5..97dae3b 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -213,7 +213,12 @@ class Collagraph:
 
     def update_class_component(self, fiber: Fiber):
         component = fiber.component or fiber.alternate and fiber.alternate.component
-        if not component:
+        if component:
+            # Stop watching, because the component will be rendered anyway
+            fiber.alternate.watcher = None
+            fiber.alternate.props_watcher = None
+            self.update_component_props(component, fiber.props)
+        else:
             parent_component = None
             parent_fiber = fiber.parent
             while parent_fiber is not None:
@@ -222,7 +227,10 @@ class Collagraph:
                     break
                 parent_fiber = parent_fiber.parent
 
-            component = fiber.type(props=fiber.props, parent=parent_component)
+            # The component gets its own dict, such that updating the props of the
+            # component will never change the object that was passed as props.
+            props = reactive({**fiber.props})
+            component = fiber.type(props=props, parent=parent_component)
 
         # Attach the component instance to the fiber
         fiber.component = component
@@ -231,20 +239,29 @@ class Collagraph:
 
         if fiber.alternate:
             fiber.alternate.component = None
-            fiber.watcher = fiber.alternate.watcher
-            fiber.alternate.watcher = None
 
-        if fiber.watcher:
-            # Re-evaluate the watcher to get the new value
-            fiber.watcher.evaluate()
-        else:
-            fiber.watcher = watch(
-                component.render,
-                lambda: self.state_updated(fiber),
-            )
+        fiber.watcher = watch(
+            component.render,
+            lambda: self.state_updated(fiber),
+        )
+        # Changes in the passed props have to end up in the props of the component
+        fiber.props_watcher = watch(
+            lambda: fiber.props.keys(),
+            lambda: self.update_component_props(component, fiber.props),
+        )
 
         self.reconcile_children(fiber, [fiber.watcher.value])
 
+    def update_component_props(self, component: Any, props: Dict):
+        """Update the props of the component to match the given props."""
+        # Get a writable reference to the read-only props of the component
+        component_props = reactive(component.props)
+        for key in [key for key in component_props if key not in props]:
+            del component_props[key]
+        for key, val in props.items():
+            if key not in component_props or component_props[key] is not val:
+                component_props[key] = val
+
     def update_function_component(self, fiber: Fiber):
         if fiber.alternate:
             fiber.alternate.watcher = None
@@ -301,10 +318,17 @@ class Collagraph:
         self.request_idle_work()
 
     def state_updated(self, fiber: Fiber):
-        self._dirty = True
-
         if not self._wip_root:
             self.prepare_next_iteration_of_work()
+            return
+
+        root = fiber
+        while root.parent:
+            root = root.parent
+        # Fibers that are not part of the WIP tree (yet) are still going to be
+        # processed (or are going to be removed) in the current iteration
+        if root is self._wip_root:
+            self._dirty = True
 
     def reconcile_children(self, wip_fiber: Fiber, elements: List[VNode]):
         # The old fiber, which holds the state as it was rendered to DOM
@@ -359,6 +383,7 @@ class Collagraph:
                 new_fiber.sibling = None
                 new_fiber.effect_tag = EffectTag.UPDATE
                 new_fiber.watcher = None
+                new_fiber.props_watcher = None
                 new_fiber.move = move_along or current[id(old_fiber)] in moves
             if element and not same_type:
                 # Configure a fiber for creating a new DOM element
@@ -375,6 +400,7 @@ class Collagraph:
                 new_fiber.sibling = None
                 new_fiber.effect_tag = EffectTag.PLACEMENT
                 new_fiber.watcher = None
+                new_fiber.props_watcher = None
                 new_fiber.move = False
                 # NOTE: If there is an old_fiber, then it will be
                 # marked for deletion in the next if statement
@@ -617,17 +643,10 @@ class Collagraph:
                     attrs_to_update[key] = val
 
         if fiber.component:
-            # Get a writable reference to the read-only props of the component
-            props = reactive(fiber.component.props)
-
+            # NOTE: the props of the component have been updated already
             for event_type, val in events_to_remove.items():
                 fiber.component.remove_event_handler(event_type, val)
 
-            for key in attrs_to_remove:
-                del props[key]
-
-            props.update(attrs_to_update)
-
             for event_type, val in events_to_add.items():
                 fiber.component.add_event_handler(event_type, val)
 
diff --git a/collagraph/types.py b/collagraph/types.py
index 161cf9e..25249c9 100644
--- a/collagraph/types.py
+++ b/collagraph/types.py
@@ -49,6 +49,7 @@ class Fiber:
     snapshot: Dict = None
     type: Union[str, Callable] = None
     watcher: Any = None
+    props_watcher: Any = None  # Watcher for the props passed to a component
     component: Any = None  # Component instance
     mounted: bool = False  # Flag for components whether it was mounted
     updated: bool = False  # Flag for components whether any DOM was updated
-- 
2.43.0


From f81687172fc8773a7e7ba91cee56a71ea05b6c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:12 +0000
Subject: [PATCH 10/72] fix: keep component instances when work in progress is
 abandoned

---
 collagraph/collagraph.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 97dae3b..cee0062 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -212,7 +212,7 @@ class Collagraph:
             next_fiber = next_fiber.parent
 
     def update_class_component(self, fiber: Fiber):
-        component = fiber.component or fiber.alternate and fiber.alternate.component
+        component = fiber.alternate and fiber.alternate.component
         if component:
             # Stop watching, because the component will be rendered anyway
             fiber.alternate.watcher = None
@@ -237,9 +237,6 @@ class Collagraph:
 
         component._slots = fiber.children if isinstance(fiber.children, dict) else {}
 
-        if fiber.alternate:
-            fiber.alternate.component = None
-
         fiber.watcher = watch(
             component.render,
             lambda: self.state_updated(fiber),
@@ -384,6 +381,10 @@ class Collagraph:
                 new_fiber.effect_tag = EffectTag.UPDATE
                 new_fiber.watcher = None
                 new_fiber.props_watcher = None
+                new_fiber.component = None
+                new_fiber.mounted = False
+                new_fiber.updated = False
+                new_fiber.unmounted = False
                 new_fiber.move = move_along or current[id(old_fiber)] in moves
             if element and not same_type:
                 # Configure a fiber for creating a new DOM element
@@ -401,6 +402,10 @@ class Collagraph:
                 new_fiber.effect_tag = EffectTag.PLACEMENT
                 new_fiber.watcher = None
                 new_fiber.props_watcher = None
+                new_fiber.component = None
+                new_fiber.mounted = False
+                new_fiber.updated = False
+                new_fiber.unmounted = False
                 new_fiber.move = False
                 # NOTE: If there is an old_fiber, then it will be
                 # marked for deletion in the next if statement
@@ -552,6 +557,9 @@ class Collagraph:
                 prev_props=fiber.alternate.props_snapshot,
                 next_props=fiber.props_snapshot,
             )
+            # From now on, the component belongs to just this fiber. Up until this
+            # point the work in progress could still have been abandoned.
+            fiber.alternate.component = None
         elif fiber.effect_tag == EffectTag.DELETION:
             self.commit_deletion(fiber, dom_parent)
 
-- 
2.43.0


From eded2acfb0ae17631a0e886dce35c1e13ec3dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 11/72] fix: stop watching the state that is used by removed
 elements

---
 collagraph/collagraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index cee0062..aba2606 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -499,10 +499,13 @@ class Collagraph:
             if not fiber.unmounted:
                 fiber.component.before_unmount()
                 fiber.unmounted = True
+        # Whatever is removed doesn't have to be watched anymore
+        fiber.watcher = fiber.props_watcher = None
 
         def traverse_before_unmount(fiber):
             if fiber is None:
                 return
+            fiber.watcher = fiber.props_watcher = None
             if fiber.component:
                 if not fiber.unmounted:
                     fiber.component.before_unmount()
-- 
2.43.0


From bf926c54ab0566c66bdddf277a3e6a5fe336fd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:41 +0000
Subject: [PATCH 12/72] fix: let 'element' of components refer to the current
 root element

---
 collagraph/collagraph.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index aba2606..574af13 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -467,9 +467,11 @@ class Collagraph:
                 component_hooks.put((fiber.child, True))
                 continue
 
+            if fiber.component:
+                fiber.component._element = first_dom(fiber)
+
             if fiber.mounted:
                 if fiber.component:
-                    fiber.component._element = fiber.child.dom
                     fiber.component.mounted()
                 fiber.mounted = False
                 fiber.updated = False
@@ -690,6 +692,17 @@ class Collagraph:
                     parent = parent.parent
 
 
+def first_dom(fiber: Fiber) -> Any:
+    """Returns the (first) dom element that is rendered by the given fiber."""
+    if fiber.dom is not None:
+        return fiber.dom
+    child = fiber.child
+    while child:
+        if (dom := first_dom(child)) is not None:
+            return dom
+        child = child.sibling
+
+
 def is_event(key):
     return key.startswith("on_")
 
-- 
2.43.0


From 545e59096efe870c816c711c6a2157271660fba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 13/72] fix: call 'updated' for every change in the elements of
 a component

---
 collagraph/collagraph.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 574af13..362bb74 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -413,6 +413,7 @@ class Collagraph:
                 # Mark the old fiber for deletion so that DOM element will be removed
                 old_fiber.effect_tag = EffectTag.DELETION
                 self._deletions.append(old_fiber)
+                mark_updated(wip_fiber)
 
             # And we add it to the fiber tree setting it either as a child or as a
             # sibling, depending on whether it’s the first child or not.
@@ -547,10 +548,13 @@ class Collagraph:
                     fiber, None, prev_props={}, next_props=fiber.props
                 )
                 fiber.mounted = True
+            mark_updated(fiber.parent)
             if fiber.dom is not None:
                 anchor = self.find_anchor(fiber)
                 self.renderer.insert(fiber.dom, dom_parent, anchor=anchor)
         elif fiber.effect_tag == EffectTag.UPDATE:
+            if fiber.move:
+                mark_updated(fiber.parent)
             if fiber.dom is not None:
                 if fiber.move:
                     anchor = self.find_anchor(fiber)
@@ -617,6 +621,7 @@ class Collagraph:
         if fiber.type == "TEXT_ELEMENT":
             if (new_content := next_props["content"]) != prev_props.get("content"):
                 self.renderer.set_element_text(dom, new_content)
+                mark_updated(fiber.parent)
                 return
 
         events_to_remove = {}
@@ -681,15 +686,17 @@ class Collagraph:
 
             # Climb up the tree to find first component to mark as updated
             if events_to_remove or events_to_add or attrs_to_remove or attrs_to_update:
-                parent = fiber.parent
-                component = None
-                while parent:
-                    component = parent.component
-                    if component:
-                        # Mark the fiber as updated
-                        parent.updated = True
-                        break
-                    parent = parent.parent
+                mark_updated(fiber.parent)
+
+
+def mark_updated(fiber: Fiber):
+    """Mark the first fiber with a component as updated, starting with the given fiber
+    and climbing up the tree."""
+    while fiber:
+        if fiber.component:
+            fiber.updated = True
+            break
+        fiber = fiber.parent
 
 
 def first_dom(fiber: Fiber) -> Any:
-- 
2.43.0


From 3c95f4665ec98f70392373ade30a4a7763dfea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:59 +0000
Subject: [PATCH 14/72] fix: resolve names in templates for each component
 instance separately

---
 collagraph/component.py | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/collagraph/component.py b/collagraph/component.py
index b0f14fd..f0bed50 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -10,15 +10,12 @@ from collagraph import render_slot
 class Component:
     """Abstract base class for components"""
 
-    __lookup_cache__ = defaultdict(dict)
-
     def __init__(self, props=None, parent=None):
         self._props = readonly({} if props is None else props)
         self._state = reactive({})
         self._element = None
         self._slots = {}
         self._event_handlers = defaultdict(set)
-        self._lookup_cache = Component.__lookup_cache__[type(self)]
         self._parent = ref(parent) if parent else None
         self._provided = {}
 
@@ -138,30 +135,12 @@ class Component:
         This provides some syntactic sugar so that users can leave out `self`,
         `self.state` and `self.props`.
         """
-        cache = self._lookup_cache
-        if method := cache.get(name):
-            return method(self, name, context)
-
-        def props_lookup(self, name, context):
+        if name in self.props:
             return self.props[name]
-
-        def state_lookup(self, name, context):
+        if name in self.state:
             return self.state[name]
-
-        def self_lookup(self, name, context):
+        if hasattr(self, name):
             return getattr(self, name)
-
-        def global_lookup(self, name, context):
+        if name in context:
             return context[name]
-
-        if name in self.props:
-            cache[name] = props_lookup
-        elif name in self.state:
-            cache[name] = state_lookup
-        elif hasattr(self, name):
-            cache[name] = self_lookup
-        elif name in context:
-            cache[name] = global_lookup
-        else:
-            raise NameError(f"name '{name}' is not defined")
-        return self._lookup(name, context)
+        raise NameError(f"name '{name}' is not defined")
-- 
2.43.0


From 1aa5a6f0f8ac39ac4dbb1d0d48402b61452c1a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 15/72] fix: watch props that are initially empty

---
 collagraph/collagraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 362bb74..c99f06d 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -61,7 +61,8 @@ def create_element(type, props=None, *children) -> VNode:
         # If children is 1 callable item, then it becomes the default slot
         elif callable(children[0]):
             children = {"default": children[0]}
-    return VNode(type, reactive(props or {}), children or tuple(), key)
+    props = reactive({} if props is None else props)
+    return VNode(type, props, children or tuple(), key)
 
 
 def create_text_element(text):
-- 
2.43.0


From b1daa2d1776e3d15a5205eda454af5d27f516531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 16/72] fix: take snapshot of props at the moment they are
 rendered

---
 collagraph/collagraph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index c99f06d..e0cb1e1 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -192,6 +192,10 @@ class Collagraph:
                 self._render_callback()
 
     def perform_unit_of_work(self, fiber: Fiber) -> Optional[Fiber]:
+        # The props start to be watched when the fiber is processed, so that's also
+        # the moment to take the snapshot of what is going to be rendered
+        fiber.props_snapshot = to_raw(fiber.props)
+
         is_function_or_class_component = callable(fiber.type)
         if is_function_or_class_component:
             is_class_component = isinstance(fiber.type, type)
@@ -371,7 +375,6 @@ class Collagraph:
                 new_fiber = old_fiber.alternate or Fiber()
                 new_fiber.type = element.type
                 new_fiber.props = element.props
-                new_fiber.props_snapshot = to_raw(element.props)
                 new_fiber.children = element.children
                 new_fiber.key = element.key
                 new_fiber.dom = old_fiber.dom
@@ -392,7 +395,6 @@ class Collagraph:
                 new_fiber = (old_fiber and old_fiber.alternate) or Fiber()
                 new_fiber.type = element.type
                 new_fiber.props = element.props
-                new_fiber.props_snapshot = to_raw(element.props)
                 new_fiber.children = element.children
                 new_fiber.key = element.key
                 new_fiber.dom = None
@@ -546,7 +548,7 @@ class Collagraph:
         if fiber.effect_tag == EffectTag.PLACEMENT:
             if fiber.component:
                 self.update_dom_or_component(
-                    fiber, None, prev_props={}, next_props=fiber.props
+                    fiber, None, prev_props={}, next_props=fiber.props_snapshot
                 )
                 fiber.mounted = True
             mark_updated(fiber.parent)
-- 
2.43.0


From 7de360c7311aa115f0304ba734d2a427d1cfbf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 17/72] fix: follow changes of event handlers in reactive props
 of components

---
 collagraph/collagraph.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index e0cb1e1..663ed6b 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -249,11 +249,22 @@ class Collagraph:
         # Changes in the passed props have to end up in the props of the component
         fiber.props_watcher = watch(
             lambda: fiber.props.keys(),
-            lambda: self.update_component_props(component, fiber.props),
+            lambda: self.props_updated(fiber),
         )
 
         self.reconcile_children(fiber, [fiber.watcher.value])
 
+    def props_updated(self, fiber: Fiber):
+        """Called when the (reactive) props that are passed to a component changed."""
+        self.update_component_props(fiber.component, fiber.props)
+
+        def event_handlers(props):
+            return {key: val for key, val in props.items() if is_event(key)}
+
+        # The render method doesn't have to depend on the event handlers
+        if event_handlers(to_raw(fiber.props)) != event_handlers(fiber.props_snapshot):
+            self.state_updated(fiber)
+
     def update_component_props(self, component: Any, props: Dict):
         """Update the props of the component to match the given props."""
         # Get a writable reference to the read-only props of the component
-- 
2.43.0


From ca96454ebcbac30c864440ee55e3130b1cc05999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 18/72] fix: ignore changes of props that are no longer passed
 to a component

---
 collagraph/collagraph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 663ed6b..3630f1a 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -256,6 +256,10 @@ class Collagraph:
 
     def props_updated(self, fiber: Fiber):
         """Called when the (reactive) props that are passed to a component changed."""
+        if fiber.props_watcher is None:
+            # The fiber has been replaced in the meantime
+            return
+
         self.update_component_props(fiber.component, fiber.props)
 
         def event_handlers(props):
-- 
2.43.0


From 7f6f68ecedc0cc61c89d36826e1076b00a6d350c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 19/72] fix: handle attributes and event handlers that are None
 consistently

---
 collagraph/collagraph.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 3630f1a..0934281 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -648,7 +648,15 @@ class Collagraph:
         events_to_add = {}
         equivalent_event_handlers = set()
 
+        def is_absent(key, props):
+            # Attributes of elements and event handlers that are None are not set
+            return key not in props or (
+                props[key] is None and (dom is not None or is_event(key))
+            )
+
         for key, val in prev_props.items():
+            if is_absent(key, prev_props):
+                continue
             if is_event(key):
                 if key in next_props and is_equivalent_event_handler(
                     val, next_props, key
@@ -663,10 +671,12 @@ class Collagraph:
                 events_to_remove[event_type] = val
             else:
                 # Is key gone?
-                if key not in next_props:
+                if is_absent(key, next_props):
                     attrs_to_remove[key] = prev_props[key]
 
         for key, val in next_props.items():
+            if is_absent(key, next_props):
+                continue
             if is_event(key):
                 if key in equivalent_event_handlers:
                     continue
@@ -738,7 +748,9 @@ def key_to_event(key):
 
 
 def is_new(val, other, key):
-    old_value = other.get(key)
+    if key not in other:
+        return True
+    old_value = other[key]
     return xor(old_value is None, val is None) or old_value != val
 
 
-- 
2.43.0


From 07b204a966c92cc8b95bd1faa0fe2cbfaadb8a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 20/72] fix: don't keep all previous root fibers alive

---
 collagraph/collagraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 0934281..a034aba 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -112,6 +112,9 @@ class Collagraph:
         self._dirty = False
 
     def render(self, element: VNode, container, callback=None):
+        if self._current_root:
+            # Let go of the root before the current one
+            self._current_root.alternate = None
         self._wip_root = Fiber(
             dom=container,
             props={},
-- 
2.43.0


From 159ff452d7e49878f721b3a0e1fe29a0aa3cbe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 21/72] fix: keep v-if in document order with text and v-for

---
 collagraph/cgx/cgx.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 451305a..481a20a 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -345,6 +345,7 @@ def convert_node_to_args(node, *, names=None):
 
     slots = {}
     control_flow = []
+    control_flow_index = None
     for child in node.children:
         if isinstance(child, Comment):
             # Ignore comments
@@ -385,8 +386,15 @@ def convert_node_to_args(node, *, names=None):
         # Handle control flow directives
         if directive := child.control_flow():
             if directive == "v-if" and control_flow:
-                children_args.append(create_control_flow_ast(control_flow, names=names))
+                children_args.insert(
+                    control_flow_index,
+                    create_control_flow_ast(control_flow, names=names),
+                )
                 control_flow = []
+            if not control_flow:
+                # Other (text) nodes might be processed before all the
+                # branches are known, so keep track of the position
+                control_flow_index = len(children_args)
             control_flow.append((directive, child))
 
         # Gather all the non-template children within a component tag and
@@ -412,7 +420,10 @@ def convert_node_to_args(node, *, names=None):
 
         if not directive:
             if control_flow:
-                children_args.append(create_control_flow_ast(control_flow, names=names))
+                children_args.insert(
+                    control_flow_index,
+                    create_control_flow_ast(control_flow, names=names),
+                )
                 control_flow = []
             if child.tag == "slot":
                 children_args.append(call_render_slot(child, names=names))
@@ -420,7 +431,9 @@ def convert_node_to_args(node, *, names=None):
                 children_args.append(call_create_element(child, names=names))
 
     if control_flow:
-        children_args.append(create_control_flow_ast(control_flow, names=names))
+        children_args.insert(
+            control_flow_index, create_control_flow_ast(control_flow, names=names)
+        )
         control_flow = []
 
     # Create a starred list comprehension that when called, will generate
-- 
2.43.0


From a3c13354a0e60286edfc7313dbfe889a78d67cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 22/72] fix: pass text and v-for within component tags to the
 default slot

---
 collagraph/cgx/cgx.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 481a20a..68ec4f8 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -344,6 +344,20 @@ def convert_node_to_args(node, *, names=None):
     children_args = []
 
     slots = {}
+    # Gather all the children within a component tag that are not meant for a
+    # specific slot and treat them as the content for the default slot
+    if node.tag[0].isupper() or "." in node.tag:
+        default_slot_content = [
+            child
+            for child in node.children
+            if not isinstance(child, Comment) and not is_slot_content(child)
+        ]
+
+        if default_slot_content:
+            virtual_template_node = Element("template")
+            virtual_template_node.children = default_slot_content
+            slots["default"] = virtual_template_node
+
     control_flow = []
     control_flow_index = None
     for child in node.children:
@@ -397,20 +411,6 @@ def convert_node_to_args(node, *, names=None):
                 control_flow_index = len(children_args)
             control_flow.append((directive, child))
 
-        # Gather all the non-template children within a component tag and
-        # treat them as the content for the default slot
-        if node.tag[0].isupper() or "." in node.tag:
-            default_slot_content = [
-                child
-                for child in node.children
-                if isinstance(child, Element) and child.tag != "template"
-            ]
-
-            if default_slot_content:
-                virtual_template_node = Element("template")
-                virtual_template_node.children = default_slot_content
-                slots["default"] = virtual_template_node
-
         for attr in child.attrs.keys():
             if attr.startswith(("v-slot", "#")):
                 slot_name = attr.split(":")[-1].split("#")[-1]
@@ -649,6 +649,13 @@ def create_control_flow_ast(control_flow, *, names):
     return root_statement
 
 
+def is_slot_content(node):
+    """Returns whether the node is the content for an explicitly named slot"""
+    return isinstance(node, Element) and any(
+        attr.startswith(("v-slot", "#")) for attr in node.attrs
+    )
+
+
 def is_directive(key):
     return key.startswith((DIRECTIVE_PREFIX, ":", "@"))
 
-- 
2.43.0


From 3cca00a0cbfef1191059cac38800b2abdd1088a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:54 +0000
Subject: [PATCH 23/72] fix: support names that are bound within template
 expressions

---
 collagraph/cgx/cgx.py | 109 ++++++++++++++++++++----------------------
 1 file changed, 52 insertions(+), 57 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 68ec4f8..f5e5bec 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -310,15 +310,11 @@ def convert_node_to_args(node, *, names=None):
             if key == DIRECTIVE_BIND:
                 # Use 'None' to mark this is a binding of multiple attributes
                 props_keys.append(None)
-                props_values.append(
-                    RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
-                )
+                props_values.append(parse_expression(val, names=names))
             else:
                 _, key = key.split(":")
                 props_keys.append(ast.Constant(value=key))
-                props_values.append(
-                    RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
-                )
+                props_values.append(parse_expression(val, names=names))
             continue
 
         if key.startswith((DIRECTIVE_ON, "@")):
@@ -327,13 +323,7 @@ def convert_node_to_args(node, *, names=None):
             key = f"on_{key}"
             props_keys.append(ast.Constant(value=key))
 
-            tree = ast.parse(val, mode="eval")
-            # v-on directives allow for lambdas which define arguments
-            # which need to be skipped by the RewriteName visitor
-            lambda_names = LambdaNamesCollector()
-            lambda_names.visit(tree)
-            RewriteName(skip=names | lambda_names.names).visit(tree)
-            props_values.append(tree.body)
+            props_values.append(parse_expression(val, names=names))
             continue
 
         if key.startswith((DIRECTIVE_FOR)):
@@ -373,23 +363,12 @@ def convert_node_to_args(node, *, names=None):
 
         # Handle for-directives
         if for_expression := child.attrs.get(DIRECTIVE_FOR):
-            for_expression = f"[None for {for_expression}]"
-            for_tree = ast.parse(for_expression, mode="eval").body
+            for_tree = parse_expression(f"[None for {for_expression}]", names=names)
 
             # Find the names that are defined as part of the comprehension(s)
             # E.g: 'i, (a, b) in enumerate(some_collection)' defines the names
             # i, a and b, so we don't want to wrap those names with `_lookup()`
-            name_collector = NameCollector()
-            for generator in for_tree.generators:
-                # Apparently, a node visitor does _not_ visit the root node...
-                # So instead, just add the name directly if the root is an ast.Name node
-                if isinstance(generator.target, ast.Name):
-                    name_collector.names.add(generator.target.id)
-                else:
-                    name_collector.generic_visit(generator.target)
-
-            local_names = names.union(name_collector.names)
-            RewriteName(skip=local_names).visit(for_tree)
+            local_names = names | comprehension_names(for_tree)
 
             for_tree.elt = call_create_element(child, names=local_names)
 
@@ -545,9 +524,7 @@ def args_for_text_element(child, names):
             span = group.span()
             string_parts.append(ast.Constant(value=child.content[offset : span[0]]))
             expr = (child.content[span[0] + 2 : span[1] - 2]).strip()
-            expressions.append(
-                RewriteName(skip=names).visit(ast.parse(expr, mode="eval")).body
-            )
+            expressions.append(parse_expression(expr, names=names))
             offset = span[1]
 
         string_suffix = ast.Constant(value=child.content[offset:])
@@ -623,20 +600,16 @@ def create_control_flow_ast(control_flow, *, names):
         else (None, None)
     )
 
-    rewrite_name = RewriteName(skip=names)
-
-    test = ast.parse(if_node.attrs[if_directive], mode="eval")
     root_statement = ast.IfExp(
-        test=rewrite_name.visit(test).body,
+        test=parse_expression(if_node.attrs[if_directive], names=names),
         body=call_create_element(if_node, names=names),
         orelse=ast.Constant(value=None),
     )
     current_statement = root_statement
 
     for directive, node in if_else_statements:
-        test = ast.parse(node.attrs[directive], mode="eval")
         if_else_tree = ast.IfExp(
-            test=rewrite_name.visit(test).body,
+            test=parse_expression(node.attrs[directive], names=names),
             body=call_create_element(node, names=names),
             orelse=ast.Constant(value=None),
         )
@@ -660,30 +633,25 @@ def is_directive(key):
     return key.startswith((DIRECTIVE_PREFIX, ":", "@"))
 
 
-class NameCollector(ast.NodeVisitor):
-    """AST node visitor that will create a set of the ids of every Name node
-    it encounters."""
+def parse_expression(expression, *, names):
+    """Returns the AST of the expression in which all the names that are not defined
+    by the expression itself (or part of `names`) are looked up on the component."""
+    tree = ast.parse(expression, mode="eval")
+    # Names that are assigned by means of the walrus operator
+    walrus_names = {
+        node.target.id for node in ast.walk(tree) if isinstance(node, ast.NamedExpr)
+    }
+    return RewriteName(skip=names | walrus_names | {"self"}).visit(tree).body
 
-    def __init__(self):
-        self.names = set()
 
-    def visit_Name(self, node):
-        self.names.add(node.id)
-
-
-class LambdaNamesCollector(ast.NodeVisitor):
-    def __init__(self):
-        self.names = set()
-
-    def visit_Lambda(self, node):
-        # For some reason the body of a lambda is not visited
-        # so we need to do it manually.
-        visitor = LambdaNamesCollector()
-        visitor.visit(node.body)
-        self.names.update(visitor.names)
-
-        for arg in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
-            self.names.add(arg.arg)
+def comprehension_names(node):
+    """Returns all the names that are defined by the comprehension"""
+    return {
+        name.id
+        for generator in node.generators
+        for name in ast.walk(generator.target)
+        if isinstance(name, ast.Name) and isinstance(name.ctx, ast.Store)
+    }
 
 
 class RewriteName(ast.NodeTransformer):
@@ -719,6 +687,33 @@ class RewriteName(ast.NodeTransformer):
             keywords=[],
         )
 
+    def visit_Lambda(self, node):
+        args = node.args
+        # Defaults are evaluated outside of the scope of the lambda
+        args.defaults = [self.visit(default) for default in args.defaults]
+        args.kw_defaults = [
+            default and self.visit(default) for default in args.kw_defaults
+        ]
+        all_args = [*args.posonlyargs, *args.args, *args.kwonlyargs]
+        all_args += [arg for arg in (args.vararg, args.kwarg) if arg]
+        scope = RewriteName(skip=self.skip | {arg.arg for arg in all_args})
+        node.body = scope.visit(node.body)
+        return node
+
+    def visit_comprehension_expr(self, node):
+        scope = RewriteName(skip=self.skip | comprehension_names(node))
+        # The first iterable is evaluated outside of the scope of the comprehension
+        first_iter = self.visit(node.generators[0].iter)
+        node.generators[0].iter = ast.Constant(value=None)
+        scope.generic_visit(node)
+        node.generators[0].iter = first_iter
+        return node
+
+    visit_ListComp = visit_comprehension_expr
+    visit_SetComp = visit_comprehension_expr
+    visit_DictComp = visit_comprehension_expr
+    visit_GeneratorExp = visit_comprehension_expr
+
 
 class ImportsCollector(ast.NodeVisitor):
     def __init__(self):
-- 
2.43.0


From cdc0111e0381f362c296f2060ea02efd08fe5663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 24/72] fix: give every iteration of v-for its own scope

---
 collagraph/cgx/cgx.py | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index f5e5bec..ca44e4b 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -368,9 +368,18 @@ def convert_node_to_args(node, *, names=None):
             # Find the names that are defined as part of the comprehension(s)
             # E.g: 'i, (a, b) in enumerate(some_collection)' defines the names
             # i, a and b, so we don't want to wrap those names with `_lookup()`
-            local_names = names | comprehension_names(for_tree)
-
-            for_tree.elt = call_create_element(child, names=local_names)
+            loop_names = sorted(comprehension_names(for_tree))
+
+            # Every iteration gets its own scope by means of a lambda, because
+            # handlers and slot content are evaluated after the loop has finished
+            for_tree.elt = ast.Call(
+                func=create_lambda(
+                    loop_names,
+                    call_create_element(child, names=names.union(loop_names)),
+                ),
+                args=[ast.Name(id=name, ctx=ast.Load()) for name in loop_names],
+                keywords=[],
+            )
 
             result = ast.Starred(value=for_tree, ctx=ast.Load())
             children_args.append(result)
@@ -454,15 +463,9 @@ def convert_node_to_args(node, *, names=None):
         starred_expr = ast.Dict(
             keys=[ast.Constant(value=key) for key in slots.keys()],
             values=[
-                ast.Lambda(
-                    args=ast.arguments(
-                        posonlyargs=[],
-                        args=[ast.arg(arg="props")],
-                        kwonlyargs=[],
-                        kw_defaults=[],
-                        defaults=[],
-                    ),
-                    body=call_create_element(val, names=names),
+                create_lambda(
+                    [f"{AST_GEN_VARIABLE_PREFIX}props"],
+                    call_create_element(val, names=names),
                 )
                 for val in slots.values()
             ],
@@ -622,6 +625,20 @@ def create_control_flow_ast(control_flow, *, names):
     return root_statement
 
 
+def create_lambda(args, body):
+    """Returns an ast.Lambda with the given names as arguments"""
+    return ast.Lambda(
+        args=ast.arguments(
+            posonlyargs=[],
+            args=[ast.arg(arg=arg) for arg in args],
+            kwonlyargs=[],
+            kw_defaults=[],
+            defaults=[],
+        ),
+        body=body,
+    )
+
+
 def is_slot_content(node):
     """Returns whether the node is the content for an explicitly named slot"""
     return isinstance(node, Element) and any(
-- 
2.43.0


From 581246798bd504720f28e38993bfa17fccdb62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:26 +0000
Subject: [PATCH 25/72] fix: allow whitespace around expressions in templates

---
 collagraph/cgx/cgx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index ca44e4b..f28cf7f 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -24,7 +24,7 @@ DIRECTIVE_ON = f"{DIRECTIVE_PREFIX}on"
 AST_GEN_VARIABLE_PREFIX = "_ast_"
 
 COMPONENT_CLASS_DEFINITION = re.compile(r"class\s*(.*?)\s*\(.*?\)\s*:")
-MOUSTACHES = re.compile(r"\{\{.*?\}\}")
+MOUSTACHES = re.compile(r"\{\{.*?\}\}", re.DOTALL)
 
 
 def load(path):
@@ -526,7 +526,7 @@ def args_for_text_element(child, names):
         for group in groups:
             span = group.span()
             string_parts.append(ast.Constant(value=child.content[offset : span[0]]))
-            expr = (child.content[span[0] + 2 : span[1] - 2]).strip()
+            expr = child.content[span[0] + 2 : span[1] - 2]
             expressions.append(parse_expression(expr, names=names))
             offset = span[1]
 
@@ -653,7 +653,7 @@ def is_directive(key):
 def parse_expression(expression, *, names):
     """Returns the AST of the expression in which all the names that are not defined
     by the expression itself (or part of `names`) are looked up on the component."""
-    tree = ast.parse(expression, mode="eval")
+    tree = ast.parse(expression.strip(), mode="eval")
     # Names that are assigned by means of the walrus operator
     walrus_names = {
         node.target.id for node in ast.walk(tree) if isinstance(node, ast.NamedExpr)
-- 
2.43.0


From c74041fd2be0922b32a69413139bc6f5fe6e81ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:29 +0000
Subject: [PATCH 26/72] fix: don't split text that contains special characters

---
 collagraph/cgx/cgx.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index f28cf7f..7136b63 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -821,13 +821,21 @@ class CGXParser(HTMLParser):
         # Pop the stack
         node = self.stack.pop()
         node.end = self.getpos()
+        # Leave out all text that just consists of whitespace
+        node.children = [
+            child
+            for child in node.children
+            if not isinstance(child, TextElement) or child.content.strip()
+        ]
 
     def handle_data(self, data):
-        if data.strip():
+        siblings = self.stack[-1].children
+        if siblings and isinstance(siblings[-1], TextElement):
+            # The HTMLParser splits text on characters like '<'
+            siblings[-1].content += data
+        else:
             # Add item as child to the last on the stack
-            self.stack[-1].children.append(
-                TextElement(content=data, location=self.getpos())
-            )
+            siblings.append(TextElement(content=data, location=self.getpos()))
 
     def handle_comment(self, comment):
         if comment.strip():
-- 
2.43.0


From ffe1a8222050e708a7192378bc481b9df72b8fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:59 +0000
Subject: [PATCH 27/72] fix: support dotted tags that start with a capital

---
 collagraph/cgx/cgx.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 7136b63..03b159e 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -279,18 +279,15 @@ def convert_node_to_args(node, *, names=None):
     Converts the node to args that can be passed to `collagraph.create_element()`.
     """
     # Construct the first argument: type of node
-    if not node.tag[0].islower():
-        # If the tag does not start with a capital, then it is assumed to be
+    if not node.tag[0].islower() or "." in node.tag:
+        # If the tag does not start with a lower case letter, then it is assumed to be
         # a class or function, so a Name node is inserted in the ast tree
-        type_arg = ast.Name(id=node.tag, ctx=ast.Load())
-    elif "." in node.tag:
         # If a dot is found in the tag, then it is assumed that the tag represents
         # a package/module attribute lookup
         name, *attributes = node.tag.split(".")
-        result = ast.Name(id=name, ctx=ast.Load())
+        type_arg = ast.Name(id=name, ctx=ast.Load())
         for attr in attributes:
-            result = ast.Attribute(value=result, attr=attr, ctx=ast.Load())
-        type_arg = result
+            type_arg = ast.Attribute(value=type_arg, attr=attr, ctx=ast.Load())
     else:
         # Otherwise it is just a constant string
         type_arg = ast.Constant(value=node.tag)
-- 
2.43.0


From 30c6eed461c09bfca5b0e1eb648164a3d59fdf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 28/72] fix: allow colons in the names of bound attributes and
 events

---
 collagraph/cgx/cgx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 03b159e..f59cedf 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -309,14 +309,14 @@ def convert_node_to_args(node, *, names=None):
                 props_keys.append(None)
                 props_values.append(parse_expression(val, names=names))
             else:
-                _, key = key.split(":")
+                _, key = key.split(":", 1)
                 props_keys.append(ast.Constant(value=key))
                 props_values.append(parse_expression(val, names=names))
             continue
 
         if key.startswith((DIRECTIVE_ON, "@")):
             split_char = "@" if key.startswith("@") else ":"
-            _, key = key.split(split_char)
+            _, key = key.split(split_char, 1)
             key = f"on_{key}"
             props_keys.append(ast.Constant(value=key))
 
-- 
2.43.0


From 93f143d0e49249c88d35e960cefbebbcd0678f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 29/72] fix: render slot content for slots that are root or
 have directives

---
 collagraph/cgx/cgx.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index f59cedf..ab94b01 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -229,9 +229,18 @@ def call_create_element(node, *, names):
     Names is a set of variable names that should not be wrapped in
     the _lookup method.
     """
+    if node.tag == "slot":
+        # Wrap the content of the slot (which might be any number of elements)
+        args = [
+            ast.Constant(value=node.tag),
+            ast.Dict(keys=[], values=[]),
+            call_render_slot(node, names=names),
+        ]
+    else:
+        args = convert_node_to_args(node, names=names)
     return ast.Call(
         func=ast.Name(id="_create_element", ctx=ast.Load()),
-        args=convert_node_to_args(node, names=names),
+        args=args,
         keywords=[],
     )
 
@@ -266,7 +275,13 @@ def call_render_slot(node, *, names=None):
             ),
             # Otherwise, we render the fallback content
             orelse=ast.List(
-                elts=[call_create_element(node, names=names)],
+                elts=[
+                    ast.Call(
+                        func=ast.Name(id="_create_element", ctx=ast.Load()),
+                        args=convert_node_to_args(node, names=names),
+                        keywords=[],
+                    )
+                ],
                 ctx=ast.Load(),
             ),
         ),
-- 
2.43.0


From 750ef3419eafe7dbb5adf22c4b18703115186013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:53 +0000
Subject: [PATCH 30/72] fix: don't shadow imports with a variable of the render
 function

---
 collagraph/cgx/cgx.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index ab94b01..45d108d 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -177,27 +177,27 @@ def create_ast_render_function(node, names):
             f"""
             from warnings import warn as _warn
 
-            for name in {{{names_str}}}:
-                if name in self.state:
+            for _name in {{{names_str}}}:
+                if _name in self.state:
                     _warn(
-                        f"Found imported name '{{name}}' "
+                        f"Found imported name '{{_name}}' "
                         f"as key in self.state: {{self}}.\\n"
                         "If the value from self.state is intended, please resolve by "
-                        f"replacing '{{name}}' with 'state['{{name}}']'"
+                        f"replacing '{{_name}}' with 'state['{{_name}}']'"
                     )
-                if name in self.props:
+                if _name in self.props:
                     _warn(
-                        f"Found imported name '{{name}}' "
+                        f"Found imported name '{{_name}}' "
                         f"as key in self.props: {{self}}.\\n"
                         "If the value from self.props is intended, please resolve by "
-                        f"replacing '{{name}}' with 'props['{{name}}']'"
+                        f"replacing '{{_name}}' with 'props['{{_name}}']'"
                     )
-                if hasattr(self, name):
+                if hasattr(self, _name):
                     _warn(
-                        f"Found imported name '{{name}}' "
+                        f"Found imported name '{{_name}}' "
                         f"as attribute on self: {{self}}.\\n"
                         "If the attribute from self is intended, please resolve by "
-                        f"replacing '{{name}}' with 'self.{{name}}'"
+                        f"replacing '{{_name}}' with 'self.{{_name}}'"
                     )
             """
         )
-- 
2.43.0


From f5f953cd0c827cb1b29f4f92fef39665702a361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:11 +0000
Subject: [PATCH 31/72] fix: support names such as 'str' for variables in v-for

---
 collagraph/cgx/cgx.py | 87 +++++++++----------------------------------
 1 file changed, 17 insertions(+), 70 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 45d108d..267432d 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -527,79 +527,26 @@ def convert_node_to_args(node, *, names=None):
 
 
 def args_for_text_element(child, names):
-    args = []
-    groups = [match for match in MOUSTACHES.finditer(child.content)]
-    if not groups:
-        args.append(ast.Constant(value=child.content))
-    else:
-        offset = 0
-        string_parts = []
-        expressions = []
-        for group in groups:
-            span = group.span()
-            string_parts.append(ast.Constant(value=child.content[offset : span[0]]))
-            expr = child.content[span[0] + 2 : span[1] - 2]
-            expressions.append(parse_expression(expr, names=names))
-            offset = span[1]
-
-        string_suffix = ast.Constant(value=child.content[offset:])
-
-        args.append(
-            # The following tree is the ast of the following expression:
-            # "".join(
-            #     [x + str(y) for x, y in zip(string_parts, expressions)]
-            #     + [string_suffix]
-            # )
-            ast.Call(
-                func=ast.Attribute(
-                    value=ast.Constant(value=""), attr="join", ctx=ast.Load()
-                ),
-                args=[
-                    ast.BinOp(
-                        left=ast.ListComp(
-                            elt=ast.BinOp(
-                                left=ast.Name(id="x", ctx=ast.Load()),
-                                op=ast.Add(),
-                                right=ast.Call(
-                                    func=ast.Name(id="str", ctx=ast.Load()),
-                                    args=[ast.Name(id="y", ctx=ast.Load())],
-                                    keywords=[],
-                                ),
-                            ),
-                            generators=[
-                                ast.comprehension(
-                                    target=ast.Tuple(
-                                        elts=[
-                                            ast.Name(id="x", ctx=ast.Store()),
-                                            ast.Name(id="y", ctx=ast.Store()),
-                                        ],
-                                        ctx=ast.Store(),
-                                    ),
-                                    iter=ast.Call(
-                                        func=ast.Name(id="zip", ctx=ast.Load()),
-                                        args=[
-                                            ast.List(
-                                                elts=string_parts,
-                                                ctx=ast.Load(),
-                                            ),
-                                            ast.List(elts=expressions, ctx=ast.Load()),
-                                        ],
-                                        keywords=[],
-                                    ),
-                                    ifs=[],
-                                    is_async=0,
-                                )
-                            ],
-                        ),
-                        op=ast.Add(),
-                        right=ast.List(elts=[string_suffix], ctx=ast.Load()),
-                    )
-                ],
-                keywords=[],
+    if not MOUSTACHES.search(child.content):
+        return [ast.Constant(value=child.content)]
+
+    # Create an f-string, such that the result doesn't depend
+    # on names that might have been redefined, such as `str`
+    offset = 0
+    parts = []
+    for group in MOUSTACHES.finditer(child.content):
+        start, end = group.span()
+        parts.append(ast.Constant(value=child.content[offset:start]))
+        expr = child.content[start + 2 : end - 2]
+        parts.append(
+            ast.FormattedValue(
+                value=parse_expression(expr, names=names), conversion=ord("s")
             )
         )
+        offset = end
+    parts.append(ast.Constant(value=child.content[offset:]))
 
-    return args
+    return [ast.JoinedStr(values=parts)]
 
 
 def create_control_flow_ast(control_flow, *, names):
-- 
2.43.0


From a0051fd12f44320c562d37475f234fccebef7150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:16 +0000
Subject: [PATCH 32/72] fix: only regard imports on module level as imported
 names

---
 collagraph/cgx/cgx.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 267432d..764bae6 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -692,9 +692,18 @@ class RewriteName(ast.NodeTransformer):
 
 
 class ImportsCollector(ast.NodeVisitor):
+    """AST node visitor that collects the names that are imported on module level."""
+
     def __init__(self):
         self.names = set()
 
+    def skip(self, node):
+        """Whatever is imported within functions or classes is not known elsewhere."""
+
+    visit_FunctionDef = skip
+    visit_AsyncFunctionDef = skip
+    visit_ClassDef = skip
+
     def visit_ImportFrom(self, node):
         for alias in node.names:
             self.names.add(alias.asname or alias.name)
-- 
2.43.0


From b291c48ec3a40bbb612f721bfb10764ef4793acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:37 +0000
Subject: [PATCH 33/72] fix: let line numbers of the script match the lines in
 the file

---
 collagraph/cgx/cgx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 764bae6..d747798 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -151,12 +151,12 @@ def get_script_ast(parser, path):
     script_node = parser.root.child_with_tag("script")
     assert isinstance(script_node.children[0], TextElement)
     script = script_node.children[0].content
-    line, _ = script_node.location
+    line, _ = script_node.children[0].location
 
     # Create an AST from the script
     script_tree = ast.parse(script, filename=str(path), mode="exec")
     # Make sure that the lineno's match up with the lines in the CGX file
-    ast.increment_lineno(script_tree, n=line)
+    ast.increment_lineno(script_tree, n=line - 1)
     return script_tree
 
 
-- 
2.43.0


From 5b90ff972edf6bec45a82aeffd098812b48d3011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:23 +0000
Subject: [PATCH 34/72] fix: execute component files in the namespace of their
 module

---
 collagraph/cgx/cgx.py      | 11 ++++++-----
 collagraph/cgx/importer.py |  9 +++------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index d747798..cbca7ec 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -27,7 +27,7 @@ COMPONENT_CLASS_DEFINITION = re.compile(r"class\s*(.*?)\s*\(.*?\)\s*:")
 MOUSTACHES = re.compile(r"\{\{.*?\}\}", re.DOTALL)
 
 
-def load(path):
+def load(path, namespace=None):
     """
     Loads and returns a component from a CGX file.
 
@@ -55,12 +55,13 @@ def load(path):
     """
     template = path.read_text()
 
-    return load_from_string(template, path)
+    return load_from_string(template, path, namespace)
 
 
-def load_from_string(template, path=None):
+def load_from_string(template, path=None, namespace=None):
     """
-    Load template from a string
+    Load template from a string. The code will be executed in the
+    given namespace or otherwise in a new one.
     """
     if path is None:
         path = "<template>"
@@ -72,7 +73,7 @@ def load_from_string(template, path=None):
     code = compile(tree, filename=str(path), mode="exec")
     # Execute the code as module and pass a dictionary that will capture
     # the global and local scope of the module
-    module_namespace = {}
+    module_namespace = {} if namespace is None else namespace
     exec(code, module_namespace)
 
     # Check that the class definition is an actual subclass of Component
diff --git a/collagraph/cgx/importer.py b/collagraph/cgx/importer.py
index a6e55ef..c00a4db 100644
--- a/collagraph/cgx/importer.py
+++ b/collagraph/cgx/importer.py
@@ -34,12 +34,9 @@ class CgxImporter:
 
     def exec_module(self, module):
         """Executing the module means reading the cgx file"""
-        component, context = cgx.load(self.cgx_path)
-        # Add the default module keys to the context such that
-        # __file__, __name__ and such are available to the loaded module
-        context.update(module.__dict__)
-
-        module.__dict__.update(context)
+        # The code is executed in the namespace of the module, such that
+        # __file__, __name__ and such are available right from the start
+        component, _ = cgx.load(self.cgx_path, module.__dict__)
         module.__dict__[component.__name__] = component
 
 
-- 
2.43.0


From 8bcd3e2957fc38b8a7d827a10f01a375cbdce95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 35/72] fix: read component files as utf-8

---
 collagraph/__pyinstaller/hook-collagraph.py | 2 +-
 collagraph/cgx/cgx.py                       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/collagraph/__pyinstaller/hook-collagraph.py b/collagraph/__pyinstaller/hook-collagraph.py
index ce32924..ea34542 100644
--- a/collagraph/__pyinstaller/hook-collagraph.py
+++ b/collagraph/__pyinstaller/hook-collagraph.py
@@ -25,7 +25,7 @@ def collect_hidden_imports(folder):
 
     hidden_imports = set()
     for path in folder.glob("**/*.cgx"):
-        template = path.read_text()
+        template = path.read_text(encoding="utf-8")
         # Parse the file component into a tree of Node instances
         parser = CGXParser()
         parser.feed(template)
diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index cbca7ec..400b1bd 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -53,7 +53,7 @@ def load(path, namespace=None):
         </script>
 
     """
-    template = path.read_text()
+    template = path.read_text(encoding="utf-8")
 
     return load_from_string(template, path, namespace)
 
@@ -95,7 +95,7 @@ def construct_ast(path, template=None):
     class definition as `render` function.
     """
     if not template:
-        template = Path(path).read_text()
+        template = Path(path).read_text(encoding="utf-8")
 
     # Parse the file component into a tree of Node instances
     parser = CGXParser()
-- 
2.43.0


From 0287ba64752027321fba7c0b9874cb44029143e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 36/72] fix: define __name__ and __file__ for component files
 that are run directly

---
 collagraph/cgx/cgx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 400b1bd..416555d 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -55,6 +55,9 @@ def load(path, namespace=None):
     """
     template = path.read_text(encoding="utf-8")
 
+    if namespace is None:
+        namespace = {"__name__": path.stem, "__file__": str(path)}
+
     return load_from_string(template, path, namespace)
 
 
-- 
2.43.0


From 604176bb2cfdef02e734cec74f12a753eb4639f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 37/72] fix: don't let the importer get in the way of other
 modules

---
 collagraph/cgx/importer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/collagraph/cgx/importer.py b/collagraph/cgx/importer.py
index c00a4db..7d8e8c4 100644
--- a/collagraph/cgx/importer.py
+++ b/collagraph/cgx/importer.py
@@ -1,4 +1,5 @@
 from importlib.machinery import ModuleSpec
+import os
 import pathlib
 import sys
 
@@ -13,17 +14,15 @@ class CgxImporter:
     @classmethod
     def find_spec(cls, name, path, target=None):
         """Look for cgx files"""
-        if target is not None:
-            # Target is set when module is being reloaded.
-            # In our case we can just return the existing spec.
-            return target.__spec__
-
         package, _, module_name = name.rpartition(".")
         cgx_file_name = f"{module_name}.{cgx.SUFFIX}"
         directories = sys.path if path is None else path
         for directory in directories:
+            if not isinstance(directory, str):
+                continue
             cgx_path = pathlib.Path(directory) / cgx_file_name
-            if cgx_path.exists():
+            # NOTE: other than the methods of Path, `isfile` never raises
+            if os.path.isfile(cgx_path):
                 spec = ModuleSpec(name, cls(cgx_path), origin=str(cgx_path))
                 spec.has_location = True
                 return spec
-- 
2.43.0


From 21841ae02850856f355be5b84bb905d3ac690005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 38/72] fix: accept long json and report json that is not an
 object

---
 collagraph/__main__.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index 8e8280d..a66a57c 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -1,6 +1,7 @@
 import argparse
 import importlib
 import json
+import os
 from pathlib import Path
 
 from observ import reactive
@@ -87,18 +88,19 @@ def existing_component_file(value):
 
 
 def json_contents(value):
-    path = Path(value)
-    if path.is_file():
-        with path.open(mode="r", encoding="utf-8") as fh:
-            try:
-                return json.load(fh)
-            except Exception:
-                raise argparse.ArgumentTypeError(f"{value} is not valid json")
-    else:
-        try:
-            return json.loads(value)
-        except Exception:
-            raise argparse.ArgumentTypeError(f"{value} is not valid json")
+    # NOTE: other than the methods of Path, `isfile` never raises (for long values)
+    try:
+        if os.path.isfile(value):
+            with open(value, mode="r", encoding="utf-8") as fh:
+                result = json.load(fh)
+        else:
+            result = json.loads(value)
+    except Exception:
+        raise argparse.ArgumentTypeError(f"{value} is not valid json")
+
+    if not isinstance(result, dict):
+        raise argparse.ArgumentTypeError(f"{value} is not a json object")
+    return result
 
 
 def run():
-- 
2.43.0


From 394baa2d7f85f3a3443c6ebe244481a0b6fe9e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:42 +0000
Subject: [PATCH 39/72] fix: support text as content of a slot

---
 collagraph/collagraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index a034aba..e761d56 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -72,7 +72,7 @@ def create_text_element(text):
 def render_slot(name, props, slots):
     if name in slots:
         result = slots[name](props)
-        if isinstance(result, VNode):
+        if isinstance(result, (VNode, str)):
             return [result]
         return result
     return ()
-- 
2.43.0


From 35d13eedb0bf5dde1cb2882f91a5077c1b3f65e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:26 +0000
Subject: [PATCH 40/72] fix: disconnect bound methods and other callables from
 Qt signals

---
 collagraph/renderers/pyside_renderer.py | 33 ++++++++++++-------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 36a0250..2312412 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -388,28 +388,28 @@ class PySideRenderer(Renderer):
         # Try and get the signal from the object
         signal = getattr(el, signal_name, None)
         if signal and hasattr(signal, "connect"):
-            # Add a slots attribute to hold all the generated slots, keyed on event_type
+            # Add a slots attribute to hold all the connected slots, together with
+            # the values that they were created for, keyed on event_type
             if not hasattr(el, "slots"):
-                el.slots = defaultdict(set)
+                el.slots = defaultdict(list)
 
-            # Create a slot with the given value
-            # Note that the slot apparently does not need arguments to specify the type
+            # Note that the slot does not need arguments to specify the type
             # or amount of arguments the enclosed callback needs. If the callback has
             # arguments, then those will be set to the parameter(s) of the signal when
             # it is emitted.
+            slot = value
             try:
-                # Creating a slot of a bound method on an instance (that is not
-                # a QObject?) results in a SystemError. Lambdas though _can_ function
-                # as a slot, so when creating a slot of the value fails, retry with
-                # a simple lambda.
-                slot = QtCore.Slot()(value)
-            except SystemError:
+                signal.connect(slot)
+            except TypeError:
+                # PySide needs weak references for bound methods, which some objects
+                # don't support. Lambdas though _can_ function as a slot, so when
+                # connecting the value fails, retry with a simple lambda.
                 # TODO: with some inspection we might be able to figure out the
                 # signature of the 'value' function and adjust the lambda accordingly
-                slot = QtCore.Slot()(lambda *args: value(*args))
-            el.slots[event_type].add(slot)
+                slot = lambda *args: value(*args)  # noqa: E731
+                signal.connect(slot)
 
-            signal.connect(slot)
+            el.slots[event_type].append((value, slot))
         else:
             if not hasattr(el, "_event_filter"):
                 el._event_filter = EventFilter()
@@ -428,11 +428,10 @@ class PySideRenderer(Renderer):
             el._event_filter.remove_event_handler(event_name, value)
             return
 
-        for slot in el.slots[event_type]:
-            # Slot can be compared to its value
-            if slot == value:
+        for index, (handler, slot) in enumerate(el.slots[event_type]):
+            if handler == value:
                 signal.disconnect(slot)
-                el.slots[event_type].remove(slot)
+                del el.slots[event_type][index]
                 break
 
 
-- 
2.43.0


From d7eb094e66aefff34c82724fe1412ac295837be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 41/72] fix: support menus as anchor and keep the contents of
 menus that move

---
 collagraph/renderers/pyside/objects/menu.py    | 5 ++++-
 collagraph/renderers/pyside/objects/menubar.py | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/menu.py b/collagraph/renderers/pyside/objects/menu.py
index 9c2b199..300fefc 100644
--- a/collagraph/renderers/pyside/objects/menu.py
+++ b/collagraph/renderers/pyside/objects/menu.py
@@ -6,6 +6,10 @@ from ... import PySideRenderer
 
 @PySideRenderer.register_insert(QMenu)
 def insert(self, el, anchor=None):
+    # Menus are represented by their menu action
+    if isinstance(anchor, QMenu):
+        anchor = anchor.menuAction()
+
     if isinstance(el, QMenu):
         if anchor is not None:
             action = self.insertMenu(anchor, el)
@@ -26,7 +30,6 @@ def remove(self, el):
         self.removeAction(el)
         el.setParent(None)
     elif isinstance(el, QMenu):
-        el.clear()
         menu_action = el.menuAction()
         self.removeAction(menu_action)
         menu_action.setParent(None)
diff --git a/collagraph/renderers/pyside/objects/menubar.py b/collagraph/renderers/pyside/objects/menubar.py
index 15b073e..d714c97 100644
--- a/collagraph/renderers/pyside/objects/menubar.py
+++ b/collagraph/renderers/pyside/objects/menubar.py
@@ -6,7 +6,8 @@ from ... import PySideRenderer
 @PySideRenderer.register_insert(QMenuBar)
 def insert(self, el: QMenu, anchor: QMenu = None):
     if anchor is not None:
-        action = self.insertMenu(anchor, el)
+        # Menus are represented by their menu action
+        action = self.insertMenu(anchor.menuAction(), el)
     else:
         action = self.addMenu(el)
     # Use the window property of the menubar to set
@@ -21,7 +22,6 @@ def insert(self, el: QMenu, anchor: QMenu = None):
 
 @PySideRenderer.register_remove(QMenuBar)
 def remove(self, el: QMenu):
-    el.clear()
     menu_action = el.menuAction()
     self.removeAction(menu_action)
     menu_action.setParent(None)
-- 
2.43.0


From ae45faedb640468b9305ecef11b3bd09ceed8891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 42/72] fix: support anchors, moves and removal of widgets in
 toolbars

---
 .../renderers/pyside/objects/toolbar.py       | 46 +++++++++++++------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/toolbar.py b/collagraph/renderers/pyside/objects/toolbar.py
index 4636e3b..aa939a5 100644
--- a/collagraph/renderers/pyside/objects/toolbar.py
+++ b/collagraph/renderers/pyside/objects/toolbar.py
@@ -1,29 +1,45 @@
 from PySide6.QtGui import QAction
-from PySide6.QtWidgets import QToolBar, QWidget
+from PySide6.QtWidgets import QToolBar, QWidget, QWidgetAction
 
 from ... import PySideRenderer
 
 
+def action_for_element(self, el):
+    """Find the action in the toolbar that represents the given element"""
+    if isinstance(el, QWidget):
+        for action in self.actions():
+            if self.widgetForAction(action) is el:
+                return action
+        return None
+    return el
+
+
 @PySideRenderer.register_insert(QToolBar)
 def insert(self, el, anchor=None):
     if isinstance(el, QWidget):
-        if anchor is not None:
-            action = self.insertWidget(anchor, el)
-        else:
-            action = self.addWidget(el)
+        # Widgets are represented by a widget action. Such an action also
+        # owns the widget, so use the same action whenever the widget moves.
+        action = getattr(el, "_toolbar_action", None)
+        if action is None:
+            action = QWidgetAction(self)
+            action.setDefaultWidget(el)
+            el._toolbar_action = action
         action.setParent(self)
     elif isinstance(el, QAction):
-        if anchor is not None:
-            self.insertAction(anchor, el)
-        else:
-            self.addAction(el)
-        el.setParent(self.window())
+        action = el
+        action.setParent(self.window())
+    else:
+        return
+
+    if anchor is not None:
+        self.insertAction(action_for_element(self, anchor), action)
+    else:
+        self.addAction(action)
 
 
 @PySideRenderer.register_remove(QToolBar)
 def remove(self, el):
-    if isinstance(el, QAction):
-        self.removeAction(el)
-        el.setParent(None)
-    elif isinstance(el, QWidget):
-        el.setParent(None)
+    action = action_for_element(self, el)
+    if isinstance(action, QAction):
+        self.removeAction(action)
+        action.setParent(None)
-- 
2.43.0


From c0df884a5e86e0786191c8f1ec9c8ff47bdf374d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 43/72] fix: respect anchors in tab widgets and release removed
 pages

---
 collagraph/renderers/pyside/objects/tab.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/tab.py b/collagraph/renderers/pyside/objects/tab.py
index 54d50ab..6a18b41 100644
--- a/collagraph/renderers/pyside/objects/tab.py
+++ b/collagraph/renderers/pyside/objects/tab.py
@@ -8,6 +8,9 @@ def insert(self, el: QWidget, anchor: QWidget = None):
     index = getattr(el, "tab_index", -1)
     label = getattr(el, "tab_label", "")
 
+    if index < 0 and anchor is not None:
+        index = self.indexOf(anchor)
+
     if index >= 0:
         self.insertTab(index, el, label)
     else:
@@ -19,3 +22,5 @@ def remove(self, el: QWidget):
     index = self.indexOf(el)
     if index >= 0:
         self.removeTab(index)
+        # The tab widget keeps the parent of pages that are removed
+        el.setParent(None)
-- 
2.43.0


From 81de3b18f7667c2b65c942554f202059c40ace99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:09 +0000
Subject: [PATCH 44/72] fix: keep dialogs that move and support dialogs as
 anchor

---
 collagraph/renderers/pyside_renderer.py | 40 ++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 2312412..96fa018 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -313,11 +313,25 @@ class PySideRenderer(Renderer):
                 el.show()
             return
 
+        # Dialogs are not part of the contents of their parent, so keep track of
+        # the order of the children to be able to look up another anchor
+        children = children_of(parent)
+        index = position(children, anchor)
+        children.insert(index, el)
+
         if isinstance(el, QtWidgets.QDialog):
+            if hasattr(el, "_delete_timer"):
+                el._delete_timer.stop()
             el.setParent(parent, el.windowFlags())
             el.show()
             return
 
+        if isinstance(anchor, QtWidgets.QDialog):
+            siblings = children[index + 1 :]
+            anchor = next(
+                (x for x in siblings if not isinstance(x, QtWidgets.QDialog)), None
+            )
+
         parent.insert(el, anchor=anchor)
 
     def remove(self, el: Any, parent: Any):
@@ -326,12 +340,20 @@ class PySideRenderer(Renderer):
             el.close()
             return
 
+        children = children_of(parent)
+        del children[position(children, el) : position(children, el) + 1]
+
         if isinstance(el, QtWidgets.QDialog):
             # Hide the dialog to make sure it's not visible anymore
             el.hide()
             # Then mark the element for deletion, so that it won't trigger
             # any of 'finished', 'done', 'rejected', 'accepted' signals.
-            el.deleteLater()
+            # Use a timer that can be stopped for when the dialog is inserted
+            # again (when it is moved).
+            if not hasattr(el, "_delete_timer"):
+                el._delete_timer = QtCore.QTimer(el, singleShot=True, interval=0)
+                el._delete_timer.timeout.connect(el.deleteLater)
+            el._delete_timer.start()
             return
 
         parent.remove(el)
@@ -440,6 +462,22 @@ def not_implemented(self, *args, **kwargs):
     raise NotImplementedError(type(self).__name__)
 
 
+def children_of(parent):
+    """Returns the list of elements that are inserted into the given parent."""
+    if not hasattr(parent, "_children"):
+        parent._children = []
+    return parent._children
+
+
+def position(children, el):
+    """Returns the index of the element, or the length of the list when the element
+    is not in there. Elements are compared by identity."""
+    for index, child in enumerate(children):
+        if child is el:
+            return index
+    return len(children)
+
+
 def create_instance(pyside_type):
     """Creates an instance of the given type with the any default
     arguments (if any) passed into the constructor."""
-- 
2.43.0


From 21d49bbb4fcbd975433dc58afc9ecadf4dcdb5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:33 +0000
Subject: [PATCH 45/72] fix: respect anchors in form layouts and keep widgets
 that move

---
 .../renderers/pyside/objects/layouts.py       | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index 30e79db..17916b8 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -42,6 +42,9 @@ def box_layout_insert(self, el, anchor=None):
 def form_insert(self, el, anchor=None):
     if hasattr(el, "form_index"):
         self.insertRow(el.form_index, el.form_label, el)
+    elif anchor is not None:
+        row, _ = self.getWidgetPosition(anchor)
+        self.insertRow(row, el.form_label, el)
     else:
         self.addRow(el.form_label, el)
 
@@ -59,8 +62,18 @@ def remove_layout(self, el):
 
 @PySideRenderer.register_remove(QFormLayout)
 def remove_form(self, el):
-    # Layout also deletes 'el' so no need to unset parent
-    self.removeRow(el)
+    take_form_row(self, el)
+    el.setParent(None)
+
+
+def take_form_row(layout, el):
+    """Take the row with given element out of the layout, without deleting the element
+    since it might be inserted again (when it is moved). The label of the row is created
+    by the layout for each row, so that one is deleted."""
+    result = layout.takeRow(el)
+    if result.labelItem:
+        result.labelItem.widget().deleteLater()
+        result.labelItem.widget().setParent(None)
 
 
 @PySideRenderer.register_set_attr(QLayout)
@@ -110,7 +123,8 @@ def set_form_index(self, attr, value):
     setattr(self, attr, value)
     if parent := self.parent():
         layout = parent.layout()
-        if hasattr(self, "form_label") and hasattr(self, "form_index"):
-            layout.insertRow(self.form_index, self.form_label, self)
-        elif hasattr(self, "form_label"):
-            layout.addRow(self.form_label, self)
+        if hasattr(self, "form_label"):
+            row, _ = layout.getWidgetPosition(self)
+            if row >= 0:
+                take_form_row(layout, self)
+            layout.insertRow(getattr(self, "form_index", row), self.form_label, self)
-- 
2.43.0


From dc77596bfa9f5d0c93d45bb876b375e5457e1178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 46/72] fix: keep tree widget items expanded and selected as
 described

---
 .../pyside/objects/treewidgetitem.py          | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/treewidgetitem.py b/collagraph/renderers/pyside/objects/treewidgetitem.py
index 85993a8..d42e722 100644
--- a/collagraph/renderers/pyside/objects/treewidgetitem.py
+++ b/collagraph/renderers/pyside/objects/treewidgetitem.py
@@ -19,13 +19,21 @@ def insert(self, el: QTreeWidgetItem, anchor=None):
 
     # After mounting, process some attributes that can only
     # be adjusted when the item is mounted in the tree structure
+    if el.treeWidget():
+        apply_view_attributes(el)
+
+
+def apply_view_attributes(el):
+    """Expand and select the given item and its descendants. These
+    attributes are lost when an item is not part of a tree widget."""
     if hasattr(el, "_expanded"):
         el.setExpanded(el._expanded)
-        delattr(el, "_expanded")
 
     if hasattr(el, "_selected"):
         el.setSelected(el._selected)
-        delattr(el, "_selected")
+
+    for index in range(el.childCount()):
+        apply_view_attributes(el.child(index))
 
 
 @PySideRenderer.register_remove(QTreeWidgetItem)
@@ -40,15 +48,13 @@ def set_attribute(self, attr, value):
             self.setText(col, data)
         return
     elif attr == "expanded":
-        if not self.parent():
-            self._expanded = value
-        else:
+        self._expanded = value
+        if self.treeWidget():
             self.setExpanded(value)
         return
     elif attr == "selected":
-        if not self.parent():
-            self._selected = value
-        else:
+        self._selected = value
+        if self.treeWidget():
             self.setSelected(value)
         return
 
-- 
2.43.0


From 506a6748c14df95771b2a28e89046babd1fcc4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 47/72] fix: replace items of comboboxes and buttons of dialog
 button boxes

---
 collagraph/renderers/pyside/objects/combobox.py       |  9 ++++++++-
 .../renderers/pyside/objects/dialogbuttonbox.py       | 11 +++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/combobox.py b/collagraph/renderers/pyside/objects/combobox.py
index 1f95076..8710a4e 100644
--- a/collagraph/renderers/pyside/objects/combobox.py
+++ b/collagraph/renderers/pyside/objects/combobox.py
@@ -7,6 +7,13 @@ from ... import PySideRenderer
 @PySideRenderer.register_set_attr(QtWidgets.QComboBox)
 def set_attribute(self, attr, value):
     if attr == "items":
-        self.addItems(value)
+        # Update the existing items in order to keep the current index
+        for index, text in enumerate(value):
+            if index < self.count():
+                self.setItemText(index, text)
+            else:
+                self.addItem(text)
+        while self.count() > len(value):
+            self.removeItem(self.count() - 1)
     else:
         widget.set_attribute(self, attr, value)
diff --git a/collagraph/renderers/pyside/objects/dialogbuttonbox.py b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
index 3d191e4..be750e3 100644
--- a/collagraph/renderers/pyside/objects/dialogbuttonbox.py
+++ b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
@@ -18,9 +18,20 @@ def insert(self, el, anchor=None):
     raise NotImplementedError
 
 
+@PySideRenderer.register_remove(QDialogButtonBox)
+def remove(self, el):
+    self.removeButton(el)
+    el.setParent(None)
+
+
 @PySideRenderer.register_set_attr(QDialogButtonBox)
 def set_attribute(self, attr, value):
     if attr == "buttons":
+        # Remove the standard buttons of the previous value
+        for button in self.buttons():
+            if self.standardButton(button) != QDialogButtonBox.StandardButton.NoButton:
+                self.removeButton(button)
+                button.deleteLater()
         for flag in value:
             flag = (
                 flag
-- 
2.43.0


From 28c047476aaaf8cf9bb0751c4322e470f062a0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:17 +0000
Subject: [PATCH 48/72] fix: restore the actual default values of removed Qt
 properties

---
 collagraph/renderers/pyside_renderer.py | 44 ++++++++++++++-----------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 96fa018..4662f17 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -363,22 +363,6 @@ class PySideRenderer(Renderer):
 
     def set_attribute(self, el: Any, attr: str, value: Any):
         """Set the attribute `attr` of the element `el` to the value `value`."""
-        key = f"{type(el).__name__}.{attr}"
-        if key not in DEFAULT_VALUES:
-            if not hasattr(el, "metaObject"):
-                logger.debug(f"{el} does not have metaObject")
-            else:
-                method_name = attr_name_to_method_name(attr, setter=False)
-
-                meta_object = el.metaObject()
-                property_idx = meta_object.indexOfProperty(method_name)
-                if property_idx >= 0:
-                    meta_property = meta_object.property(property_idx)
-                    result = meta_property.read(el)
-                    DEFAULT_VALUES[key] = (meta_property, result)
-                else:
-                    logger.debug(f"'{attr}' is not a Qt property on {type(el)}")
-
         # Check for registered methods for custom attributes
         if set_attr := CUSTOM_ATTRIBUTES.get(attr):
             set_attr(el, attr, value)
@@ -394,10 +378,14 @@ class PySideRenderer(Renderer):
                 delattr(el, attr)
                 return
 
-        key = f"{type(el).__name__}.{attr}"
-        if key in DEFAULT_VALUES:
-            meta_property, default_value = DEFAULT_VALUES[key]
-            meta_property.write(el, default_value)
+        if meta_property := qt_property(el, attr):
+            key = (type(el), attr)
+            if key not in DEFAULT_VALUES:
+                # Read the default value from a new instance: the value of existing
+                # elements might be influenced by other attributes or by the parent
+                instance = create_instance(type(el))
+                DEFAULT_VALUES[key] = qt_property(instance, attr).read(instance)
+            meta_property.write(el, DEFAULT_VALUES[key])
             return
 
         raise NotImplementedError(f"Can't remove {attr}: {value}")
@@ -462,6 +450,22 @@ def not_implemented(self, *args, **kwargs):
     raise NotImplementedError(type(self).__name__)
 
 
+def qt_property(el, attr):
+    """Returns the Qt property for the attribute of the given element, if any."""
+    if not hasattr(el, "metaObject"):
+        logger.debug(f"{el} does not have metaObject")
+        return None
+
+    meta_object = el.metaObject()
+    property_name = attr_name_to_method_name(attr, setter=False)
+    property_idx = meta_object.indexOfProperty(property_name)
+    if property_idx < 0:
+        logger.debug(f"'{attr}' is not a Qt property on {type(el)}")
+        return None
+
+    return meta_object.property(property_idx)
+
+
 def children_of(parent):
     """Returns the list of elements that are inserted into the given parent."""
     if not hasattr(parent, "_children"):
-- 
2.43.0


From 7e3230855bcdd6bc3937ecbb4833fde4a2131d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:44 +0000
Subject: [PATCH 49/72] fix: pass arguments for area of toolbars in the right
 order

---
 collagraph/renderers/pyside/objects/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/window.py b/collagraph/renderers/pyside/objects/window.py
index c7890ec..851a902 100644
--- a/collagraph/renderers/pyside/objects/window.py
+++ b/collagraph/renderers/pyside/objects/window.py
@@ -15,7 +15,7 @@ def insert(self, el, anchor=None):
         el.setParent(self)
     elif isinstance(el, QToolBar):
         if area := getattr(el, "area", None):
-            self.addToolBar(el, area)
+            self.addToolBar(area, el)
         else:
             self.addToolBar(el)
         el.setParent(self)
-- 
2.43.0


From c00f5c3884607b4489e1e2e5d1c843d94d3c7f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:03 +0000
Subject: [PATCH 50/72] fix: restore the original attribute values of each
 pygfx object

---
 collagraph/renderers/pygfx_renderer.py | 34 +++++++++++++-------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/collagraph/renderers/pygfx_renderer.py b/collagraph/renderers/pygfx_renderer.py
index ddcce23..4999d7c 100644
--- a/collagraph/renderers/pygfx_renderer.py
+++ b/collagraph/renderers/pygfx_renderer.py
@@ -1,9 +1,14 @@
+from weakref import WeakKeyDictionary
+
 import pygfx as gfx
 
 from . import Renderer
 
 ELEMENT_TYPE_CACHE = {}
-DEFAULT_ATTR_CACHE = {}
+# Original values for the attributes that are set, for each object
+DEFAULT_ATTR_CACHE = WeakKeyDictionary()
+# Marks attributes that did not exist before they were set
+MISSING = object()
 
 
 class PygfxRenderer(Renderer):
@@ -42,7 +47,7 @@ class PygfxRenderer(Renderer):
         raise NotImplementedError
 
     def set_attribute(self, obj, attr, value):
-        key = f"{type(obj).__name__}.{attr}"
+        key, defaults = attr, DEFAULT_ATTR_CACHE.setdefault(obj, {})
 
         # Split the given attr on dots to allow for
         # local.position for instance to be set
@@ -50,18 +55,17 @@ class PygfxRenderer(Renderer):
         for attribute in attrs:
             obj = getattr(obj, attribute)
 
-        if key not in DEFAULT_ATTR_CACHE:
-            if hasattr(obj, attr):
-                default_value = getattr(obj, attr)
-                if hasattr(default_value, "copy"):
-                    DEFAULT_ATTR_CACHE[key] = default_value.copy()
-                else:
-                    DEFAULT_ATTR_CACHE[key] = default_value
+        if key not in defaults:
+            default_value = getattr(obj, attr, MISSING)
+            if hasattr(default_value, "copy"):
+                defaults[key] = default_value.copy()
+            else:
+                defaults[key] = default_value
 
         setattr(obj, attr, value)
 
     def remove_attribute(self, obj, attr, value):
-        key = f"{type(obj).__name__}.{attr}"
+        key, defaults = attr, DEFAULT_ATTR_CACHE.get(obj, {})
 
         # Split the given attr on dots to allow for
         # local.position for instance to be set
@@ -69,13 +73,9 @@ class PygfxRenderer(Renderer):
         for attribute in attrs:
             obj = getattr(obj, attribute)
 
-        if key in DEFAULT_ATTR_CACHE:
-            default_value = DEFAULT_ATTR_CACHE[key]
-            if hasattr(default_value, "copy"):
-                val = default_value.copy()
-            else:
-                val = default_value
-            setattr(obj, attr, val)
+        default_value = defaults.pop(key, MISSING)
+        if default_value is not MISSING:
+            setattr(obj, attr, default_value)
         else:
             delattr(obj, attr)
 
-- 
2.43.0


From 9185ecdcbc3974a19f649ae619b4a790ef5c2ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:23 +0000
Subject: [PATCH 51/72] fix: don't stumble over relative imports in component
 files when freezing

---
 collagraph/__pyinstaller/hook-collagraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collagraph/__pyinstaller/hook-collagraph.py b/collagraph/__pyinstaller/hook-collagraph.py
index ea34542..4ddebe4 100644
--- a/collagraph/__pyinstaller/hook-collagraph.py
+++ b/collagraph/__pyinstaller/hook-collagraph.py
@@ -48,6 +48,9 @@ class ImportsCollector(ast.NodeVisitor):
         self.names = set()
 
     def visit_ImportFrom(self, node):
+        if node.level:
+            # Relative imports don't have an absolute name to add
+            return
         for alias in node.names:
             self.names.add(".".join([node.module, alias.name]))
         self.names.add(node.module)
-- 
2.43.0


From aa33f5c7206b2b2dbf745421c121bc59e624826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:00 +0000
Subject: [PATCH 52/72] fix: know the name that is defined by the import of a
 submodule in CGX files

---
 collagraph/cgx/cgx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 416555d..7fd855d 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -714,7 +714,8 @@ class ImportsCollector(ast.NodeVisitor):
 
     def visit_Import(self, node):
         for alias in node.names:
-            self.names.add(alias.asname or alias.name)
+            # 'import a.b' defines the name 'a'
+            self.names.add(alias.asname or alias.name.partition(".")[0])
 
 
 class TextElement:
-- 
2.43.0


From 07023d28afb6ef8a71a19852af9257349cba0a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:49 +0000
Subject: [PATCH 53/72] fix: support the walrus operator in all of the
 expressions in templates

---
 collagraph/cgx/cgx.py | 53 +++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 7fd855d..f84ce29 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -22,6 +22,7 @@ CONTROL_FLOW_DIRECTIVES = (DIRECTIVE_IF, DIRECTIVE_ELSE_IF, DIRECTIVE_ELSE)
 DIRECTIVE_FOR = f"{DIRECTIVE_PREFIX}for"
 DIRECTIVE_ON = f"{DIRECTIVE_PREFIX}on"
 AST_GEN_VARIABLE_PREFIX = "_ast_"
+AST_GEN_FILTER = f"{AST_GEN_VARIABLE_PREFIX}filter"
 
 COMPONENT_CLASS_DEFINITION = re.compile(r"class\s*(.*?)\s*\(.*?\)\s*:")
 MOUSTACHES = re.compile(r"\{\{.*?\}\}", re.DOTALL)
@@ -173,7 +174,12 @@ def create_ast_render_function(node, names):
             module="collagraph",
             names=[ast.alias(name="create_element", asname="_create_element")],
             level=0,
-        )
+        ),
+        ast.ImportFrom(
+            module="builtins",
+            names=[ast.alias(name="filter", asname=AST_GEN_FILTER)],
+            level=0,
+        ),
     ]
     if CGX_RUNTIME_WARNINGS:
         names_str = ", ".join([f"'{name}'" for name in names])
@@ -440,38 +446,25 @@ def convert_node_to_args(node, *, names=None):
         )
         control_flow = []
 
-    # Create a starred list comprehension that when called, will generate
-    # all child elements
+    # Create a starred expression that when called, will generate all child elements.
+    # NOTE: a list comprehension wouldn't allow for walrus operators in the elements
+    child_name = f"{AST_GEN_VARIABLE_PREFIX}child"
     starred_expr = ast.Starred(
-        value=ast.ListComp(
-            elt=ast.Name(
-                id=f"{AST_GEN_VARIABLE_PREFIX}child",
-                ctx=ast.Load(),
-            ),
-            generators=[
-                ast.comprehension(
-                    target=ast.Name(
-                        id=f"{AST_GEN_VARIABLE_PREFIX}child",
-                        ctx=ast.Store(),
-                    ),
-                    iter=ast.List(
-                        elts=children_args,
-                        ctx=ast.Load(),
+        value=ast.Call(
+            func=ast.Name(id=AST_GEN_FILTER, ctx=ast.Load()),
+            args=[
+                # Filter out all None elements
+                create_lambda(
+                    [child_name],
+                    ast.Compare(
+                        left=ast.Name(id=child_name, ctx=ast.Load()),
+                        ops=[ast.IsNot()],
+                        comparators=[ast.Constant(value=None)],
                     ),
-                    ifs=[
-                        # Filter out all None elements
-                        ast.Compare(
-                            left=ast.Name(
-                                id=f"{AST_GEN_VARIABLE_PREFIX}child",
-                                ctx=ast.Load(),
-                            ),
-                            ops=[ast.IsNot()],
-                            comparators=[ast.Constant(value=None)],
-                        )
-                    ],
-                    is_async=0,
-                )
+                ),
+                ast.List(elts=children_args, ctx=ast.Load()),
             ],
+            keywords=[],
         ),
         ctx=ast.Load(),
     )
-- 
2.43.0


From ad263ce7f410ee06c5c401091b8d41819d645374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:18 +0000
Subject: [PATCH 54/72] fix: report syntax errors in the script at the line in
 the CGX file

---
 collagraph/cgx/cgx.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index f84ce29..f6045db 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -158,11 +158,10 @@ def get_script_ast(parser, path):
     script = script_node.children[0].content
     line, _ = script_node.children[0].location
 
-    # Create an AST from the script
-    script_tree = ast.parse(script, filename=str(path), mode="exec")
-    # Make sure that the lineno's match up with the lines in the CGX file
-    ast.increment_lineno(script_tree, n=line - 1)
-    return script_tree
+    # Create an AST from the script. Make sure that the lineno's (also of syntax
+    # errors) match up with the lines in the CGX file
+    script = "\n" * (line - 1) + script
+    return ast.parse(script, filename=str(path), mode="exec")
 
 
 def create_ast_render_function(node, names):
-- 
2.43.0


From f01d3195d5e851580032ebdba08b1f8a0a953a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 55/72] fix: show group boxes as the content of dock widgets

---
 collagraph/renderers/pyside/objects/dockwidget.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/dockwidget.py b/collagraph/renderers/pyside/objects/dockwidget.py
index 9266774..5a0f35b 100644
--- a/collagraph/renderers/pyside/objects/dockwidget.py
+++ b/collagraph/renderers/pyside/objects/dockwidget.py
@@ -5,7 +5,9 @@ from ... import PySideRenderer
 
 @PySideRenderer.register_insert(QtWidgets.QDockWidget)
 def insert(self, el, anchor=None):
-    if getattr(el, "title", False):
+    title = getattr(el, "title", False)
+    # Some widgets (such as group boxes) have a 'title' method
+    if title and not callable(title):
         self.setTitleBarWidget(el)
     else:
         self.setWidget(el)
-- 
2.43.0


From 002c2536c3fec18ed29b2bfd4e0a76168bae6e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 56/72] fix: let go of widgets that are removed from a scroll
 area

---
 collagraph/renderers/pyside/objects/scrollarea.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/scrollarea.py b/collagraph/renderers/pyside/objects/scrollarea.py
index c4fcec8..ec7f2eb 100644
--- a/collagraph/renderers/pyside/objects/scrollarea.py
+++ b/collagraph/renderers/pyside/objects/scrollarea.py
@@ -11,5 +11,6 @@ def insert(self, el: QWidget, anchor=None):
 
 @PySideRenderer.register_remove(QScrollArea)
 def remove(self, el: QWidget):
-    self.setWidget(None)
+    # NOTE: QScrollArea ignores `setWidget(None)`
+    self.takeWidget()
     el.setParent(None)
-- 
2.43.0


From b3872ec4659d9d7c1cffdb6f655ed4c665a3e268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 57/72] fix: don't delete the actions of menus that move

---
 collagraph/renderers/pyside/objects/menu.py    | 3 ++-
 collagraph/renderers/pyside/objects/menubar.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/menu.py b/collagraph/renderers/pyside/objects/menu.py
index 300fefc..102957d 100644
--- a/collagraph/renderers/pyside/objects/menu.py
+++ b/collagraph/renderers/pyside/objects/menu.py
@@ -32,4 +32,5 @@ def remove(self, el):
     elif isinstance(el, QMenu):
         menu_action = el.menuAction()
         self.removeAction(menu_action)
-        menu_action.setParent(None)
+        # Give the action back to its menu: without a parent it will be deleted
+        menu_action.setParent(el)
diff --git a/collagraph/renderers/pyside/objects/menubar.py b/collagraph/renderers/pyside/objects/menubar.py
index d714c97..8076b5f 100644
--- a/collagraph/renderers/pyside/objects/menubar.py
+++ b/collagraph/renderers/pyside/objects/menubar.py
@@ -24,4 +24,5 @@ def insert(self, el: QMenu, anchor: QMenu = None):
 def remove(self, el: QMenu):
     menu_action = el.menuAction()
     self.removeAction(menu_action)
-    menu_action.setParent(None)
+    # Give the action back to its menu: without a parent it will be deleted
+    menu_action.setParent(el)
-- 
2.43.0


From 17d924a28174fd6cdb7617d5b540aaffaf020806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 58/72] fix: hand over the ownership of inserted standard items

---
 collagraph/renderers/pyside/objects/standarditem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/standarditem.py b/collagraph/renderers/pyside/objects/standarditem.py
index 2565a1f..350fa68 100644
--- a/collagraph/renderers/pyside/objects/standarditem.py
+++ b/collagraph/renderers/pyside/objects/standarditem.py
@@ -19,7 +19,9 @@ def insert(self, el, anchor=None):
                 break
         if index is None:
             return
-        self.insertRow(index, el)
+        # With a list of items PySide hands over the ownership of the item, which
+        # it doesn't do for a single item: that item would be deleted twice
+        self.insertRow(index, [el])
     else:
         self.appendRow(el)
 
-- 
2.43.0


From 176886aaa36edf0fca6281efdbee71b9f68f10ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 59/72] fix: connect methods of objects without weak references
 just once

---
 collagraph/renderers/pyside_renderer.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 4662f17..e7ca059 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -1,8 +1,10 @@
 from collections import defaultdict
 from functools import lru_cache
+from inspect import CO_VARARGS
 import logging
 from typing import Any, Callable
 from warnings import warn
+from weakref import ref
 
 from PySide6 import QtCore, QtGui, QtWidgets
 
@@ -409,15 +411,19 @@ class PySideRenderer(Renderer):
             # it is emitted.
             slot = value
             try:
-                signal.connect(slot)
+                # PySide needs weak references for the objects of bound methods
+                ref(getattr(value, "__self__", value))
             except TypeError:
-                # PySide needs weak references for bound methods, which some objects
-                # don't support. Lambdas though _can_ function as a slot, so when
-                # connecting the value fails, retry with a simple lambda.
-                # TODO: with some inspection we might be able to figure out the
-                # signature of the 'value' function and adjust the lambda accordingly
-                slot = lambda *args: value(*args)  # noqa: E731
-                signal.connect(slot)
+                # Lambdas though _can_ function as a slot, so when the object doesn't
+                # support weak references, use a simple lambda that doesn't pass more
+                # arguments than the method accepts.
+                # TODO: with some inspection we might be able to adjust the signature
+                # of the lambda to the signature of the 'value' function
+                count, code = None, getattr(value, "__code__", None)
+                if code and not code.co_flags & CO_VARARGS:
+                    count = code.co_argcount - 1
+                slot = lambda *args: value(*args[:count])  # noqa: E731
+            signal.connect(slot)
 
             el.slots[event_type].append((value, slot))
         else:
-- 
2.43.0


From 81543a594e64b13d2aa7311001b2f8cdb3a151c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 60/72] fix: find layouts registered with dashes or underscores

---
 collagraph/renderers/pyside/objects/layouts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index 17916b8..110ef2d 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -8,7 +8,7 @@ from PySide6.QtWidgets import (
 )
 
 from .. import attr_name_to_method_name, call_method
-from ...pyside_renderer import LAYOUT_MAPPING, PySideRenderer
+from ...pyside_renderer import LAYOUT_MAPPING, normalize_name, PySideRenderer
 
 DIRECTIONS = {
     "TopToBottom": QBoxLayout.Direction.TopToBottom,
@@ -94,14 +94,15 @@ def set_layout_attribute(self, attr, value):
 
 @PySideRenderer.register_custom_attribute("layout")
 def set_layout_attr(self, attr, value):
-    if layout_type := LAYOUT_MAPPING.get(value["type"].lower()):
+    layout_name = normalize_name(value["type"])
+    if layout_type := LAYOUT_MAPPING.get(layout_name):
         layout = self.layout()
         if isinstance(layout, layout_type):
             pass
         else:
             if layout:
                 QWidget().setLayout(layout)
-            layout = PySideRenderer.create_object(value["type"].lower())
+            layout = PySideRenderer.create_object(layout_name)
             self.setLayout(layout)
 
         for key, val in value.items():
-- 
2.43.0


From 310d461c23f35480928739a03ed124b38ce5e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 61/72] fix: handlers that capture a shallow and a deep proxy
 are not equivalent

---
 collagraph/compare.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index 41f7b4b..b07f37c 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -2,8 +2,6 @@ from functools import partial
 from types import CodeType
 from typing import Any, Callable
 
-from observ.proxy import Proxy
-
 # Types of which the values can be compared by value (as they can't change)
 PLAIN_TYPES = {bool, bytes, complex, float, int, range, str}
 
@@ -52,8 +50,6 @@ def equivalent_values(a: Any, b: Any, seen: set = None):
     objects are required to be the very same object."""
     if a is b:
         return True
-    if isinstance(a, Proxy) and isinstance(b, Proxy):
-        return type(a) is type(b) and a.target is b.target
     if callable(a) and callable(b):
         return equivalent_functions(a, b, seen)
     if type(a) is not type(b):
@@ -71,15 +67,7 @@ def equivalent_values(a: Any, b: Any, seen: set = None):
 def equivalent_receivers(a, b):
     """Returns whether a and b are either both plain functions, or are both methods
     that are bound to the same object."""
-    if not hasattr(a, "__self__") and not hasattr(b, "__self__"):
-        return True
-    receiver_a, receiver_b = getattr(a, "__self__", None), getattr(b, "__self__", None)
-    if isinstance(receiver_a, Proxy) and isinstance(receiver_b, Proxy):
-        return (
-            type(receiver_a) is type(receiver_b)
-            and receiver_a.target is receiver_b.target
-        )
-    return receiver_a is receiver_b
+    return getattr(a, "__self__", None) is getattr(b, "__self__", None)
 
 
 def equivalent_defaults(a, b, seen: set = None):
-- 
2.43.0


From a09c3e8cbd42643a440457419db6ec6dcfe036c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 62/72] fix: don't render the shorthand for v-slot as attribute

---
 collagraph/cgx/cgx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index f6045db..b56b683 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -602,7 +602,7 @@ def is_slot_content(node):
 
 
 def is_directive(key):
-    return key.startswith((DIRECTIVE_PREFIX, ":", "@"))
+    return key.startswith((DIRECTIVE_PREFIX, ":", "@", "#"))
 
 
 def parse_expression(expression, *, names):
-- 
2.43.0


From 23eebde0016f0a401ad7d8006f0b39a6d78c5d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 63/72] fix: removing an element with many siblings in it
 exceeded the recursion limit

---
 collagraph/collagraph.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index e761d56..9a899a6 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -527,15 +527,16 @@ class Collagraph:
         fiber.watcher = fiber.props_watcher = None
 
         def traverse_before_unmount(fiber):
-            if fiber is None:
-                return
-            fiber.watcher = fiber.props_watcher = None
-            if fiber.component:
-                if not fiber.unmounted:
-                    fiber.component.before_unmount()
-                    fiber.unmounted = True
-            traverse_before_unmount(fiber.child)
-            traverse_before_unmount(fiber.sibling)
+            # Just recurse for the levels of the tree: there can be (many) more
+            # siblings than levels of recursion
+            while fiber is not None:
+                fiber.watcher = fiber.props_watcher = None
+                if fiber.component:
+                    if not fiber.unmounted:
+                        fiber.component.before_unmount()
+                        fiber.unmounted = True
+                traverse_before_unmount(fiber.child)
+                fiber = fiber.sibling
 
         traverse_before_unmount(fiber.child)
 
-- 
2.43.0


From 7a026c7de17c48ece68aec1af7d3e51282788dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 64/72] fix: let the pygfx renderer start from the command line

---
 collagraph/__main__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index a66a57c..3fceb03 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -38,15 +38,15 @@ def init_collagraph(renderer_type: str, component_path: Path, state: dict = None
         wgpu_renderer = gfx.renderers.WgpuRenderer(canvas)
 
         camera = gfx.PerspectiveCamera(70, 16 / 9)
-        camera.position.z = 15
+        camera.local.z = 15
+        camera.show_pos((0, 0, 0))
 
-        controls = gfx.OrbitController(camera.position.clone())
-        controls.add_default_event_handlers(wgpu_renderer, camera)
+        controls = gfx.OrbitController(camera)
+        controls.register_events(wgpu_renderer)
 
         container = gfx.Scene()
 
         def animate():
-            controls.update_camera(camera)
             wgpu_renderer.render(container, camera)
 
         gui = cg.Collagraph(renderer=cg.PygfxRenderer())
-- 
2.43.0


From 6f69939f9dc49026081834b23673d5e79f4c432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 65/72] fix: render to Qt widgets that aren't created by the
 renderer

---
 collagraph/renderers/pyside/objects/widget.py |  4 ++--
 collagraph/renderers/pyside_renderer.py       | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/widget.py b/collagraph/renderers/pyside/objects/widget.py
index 0b11441..6e4b8d4 100644
--- a/collagraph/renderers/pyside/objects/widget.py
+++ b/collagraph/renderers/pyside/objects/widget.py
@@ -5,7 +5,7 @@ from PySide6.QtWidgets import QWidget
 
 from .layouts import remove_layout
 from .qobject import set_attribute as qobject_set_attribute
-from ...pyside_renderer import PySideRenderer
+from ...pyside_renderer import INSERT_MAPPING, method_of, PySideRenderer
 
 logger = logging.getLogger(__name__)
 
@@ -22,7 +22,7 @@ def insert(self, el, anchor=None):
         layout = PySideRenderer.create_object("box")
         self.setLayout(layout)
 
-    layout.insert(el, anchor=anchor)
+    method_of(layout, "insert", INSERT_MAPPING)(el, anchor=anchor)
 
 
 @PySideRenderer.register_remove(QWidget)
diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index e7ca059..caae66d 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -1,5 +1,5 @@
 from collections import defaultdict
-from functools import lru_cache
+from functools import lru_cache, partial
 from inspect import CO_VARARGS
 import logging
 from typing import Any, Callable
@@ -334,7 +334,7 @@ class PySideRenderer(Renderer):
                 (x for x in siblings if not isinstance(x, QtWidgets.QDialog)), None
             )
 
-        parent.insert(el, anchor=anchor)
+        method_of(parent, "insert", INSERT_MAPPING)(el, anchor=anchor)
 
     def remove(self, el: Any, parent: Any):
         """Remove the element `el` from the children of the element `parent`."""
@@ -358,7 +358,7 @@ class PySideRenderer(Renderer):
             el._delete_timer.start()
             return
 
-        parent.remove(el)
+        method_of(parent, "remove", REMOVE_MAPPING)(el)
 
     def set_element_text(self, el: Any, value: str):
         raise NotImplementedError
@@ -456,6 +456,16 @@ def not_implemented(self, *args, **kwargs):
     raise NotImplementedError(type(self).__name__)
 
 
+def method_of(el, name, mapping):
+    """Returns the registered method with the given name for the given element. Elements
+    that aren't created by the renderer (containers) don't have those methods."""
+    if type(el) not in WRAPPED_TYPES.values():
+        for cls, method in mapping:
+            if isinstance(el, cls):
+                return partial(method, el)
+    return getattr(el, name)
+
+
 def qt_property(el, attr):
     """Returns the Qt property for the attribute of the given element, if any."""
     if not hasattr(el, "metaObject"):
-- 
2.43.0


From c54e219eb412dfcfbd0db16ffc103567d82acfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 66/72] fix: let go of the actions of toolbars that are removed

---
 collagraph/renderers/pyside/objects/toolbar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/toolbar.py b/collagraph/renderers/pyside/objects/toolbar.py
index aa939a5..0382976 100644
--- a/collagraph/renderers/pyside/objects/toolbar.py
+++ b/collagraph/renderers/pyside/objects/toolbar.py
@@ -24,12 +24,12 @@ def insert(self, el, anchor=None):
             action = QWidgetAction(self)
             action.setDefaultWidget(el)
             el._toolbar_action = action
-        action.setParent(self)
     elif isinstance(el, QAction):
         action = el
-        action.setParent(self.window())
     else:
         return
+    # The action goes away together with the toolbar
+    action.setParent(self)
 
     if anchor is not None:
         self.insertAction(action_for_element(self, anchor), action)
-- 
2.43.0


From b0ff8eefc094c8323ac3bd406a5cd3932ef00e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 67/72] fix: let go of menus that are removed

---
 collagraph/renderers/pyside/objects/menu.py    | 14 +++++---------
 collagraph/renderers/pyside/objects/menubar.py |  8 +++++---
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/menu.py b/collagraph/renderers/pyside/objects/menu.py
index 102957d..8bbd827 100644
--- a/collagraph/renderers/pyside/objects/menu.py
+++ b/collagraph/renderers/pyside/objects/menu.py
@@ -10,18 +10,14 @@ def insert(self, el, anchor=None):
     if isinstance(anchor, QMenu):
         anchor = anchor.menuAction()
 
-    if isinstance(el, QMenu):
+    # NOTE: PySide never lets go of menus that are added with `addMenu`
+    action = el.menuAction() if isinstance(el, QMenu) else el
+    if isinstance(action, QAction):
         if anchor is not None:
-            action = self.insertMenu(anchor, el)
+            self.insertAction(anchor, action)
         else:
-            action = self.addMenu(el)
+            self.addAction(action)
         action.setParent(self.menuAction())
-    elif isinstance(el, QAction):
-        if anchor is not None:
-            self.insertAction(anchor, el)
-        else:
-            self.addAction(el)
-        el.setParent(self.menuAction())
 
 
 @PySideRenderer.register_remove(QMenu)
diff --git a/collagraph/renderers/pyside/objects/menubar.py b/collagraph/renderers/pyside/objects/menubar.py
index 8076b5f..5127b45 100644
--- a/collagraph/renderers/pyside/objects/menubar.py
+++ b/collagraph/renderers/pyside/objects/menubar.py
@@ -5,11 +5,13 @@ from ... import PySideRenderer
 
 @PySideRenderer.register_insert(QMenuBar)
 def insert(self, el: QMenu, anchor: QMenu = None):
+    # Menus are represented by their menu action
+    # NOTE: PySide never lets go of menus that are added with `addMenu`
+    action = el.menuAction()
     if anchor is not None:
-        # Menus are represented by their menu action
-        action = self.insertMenu(anchor.menuAction(), el)
+        self.insertAction(anchor.menuAction(), action)
     else:
-        action = self.addMenu(el)
+        self.addAction(action)
     # Use the window property of the menubar to set
     # the parent of the action. Instead of keeping
     # a hierarchy of widgets, instead the hierarchy
-- 
2.43.0


From cf8e83e754a97fc988d3e1263de3532967ad26c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 68/72] fix: let go of widgets that are removed from toolbars

---
 .../renderers/pyside/objects/toolbar.py       | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/toolbar.py b/collagraph/renderers/pyside/objects/toolbar.py
index 0382976..9bca166 100644
--- a/collagraph/renderers/pyside/objects/toolbar.py
+++ b/collagraph/renderers/pyside/objects/toolbar.py
@@ -4,14 +4,11 @@ from PySide6.QtWidgets import QToolBar, QWidget, QWidgetAction
 from ... import PySideRenderer
 
 
-def action_for_element(self, el):
-    """Find the action in the toolbar that represents the given element"""
-    if isinstance(el, QWidget):
-        for action in self.actions():
-            if self.widgetForAction(action) is el:
-                return action
-        return None
-    return el
+def action_for_element(el):
+    """Find the action that represents the given element"""
+    # Don't look up the widgets of actions with `widgetForAction`: PySide then
+    # considers the toolbar to be the parent, also when the widget is removed
+    return getattr(el, "_toolbar_action", None) if isinstance(el, QWidget) else el
 
 
 @PySideRenderer.register_insert(QToolBar)
@@ -19,7 +16,7 @@ def insert(self, el, anchor=None):
     if isinstance(el, QWidget):
         # Widgets are represented by a widget action. Such an action also
         # owns the widget, so use the same action whenever the widget moves.
-        action = getattr(el, "_toolbar_action", None)
+        action = action_for_element(el)
         if action is None:
             action = QWidgetAction(self)
             action.setDefaultWidget(el)
@@ -32,14 +29,14 @@ def insert(self, el, anchor=None):
     action.setParent(self)
 
     if anchor is not None:
-        self.insertAction(action_for_element(self, anchor), action)
+        self.insertAction(action_for_element(anchor), action)
     else:
         self.addAction(action)
 
 
 @PySideRenderer.register_remove(QToolBar)
 def remove(self, el):
-    action = action_for_element(self, el)
+    action = action_for_element(el)
     if isinstance(action, QAction):
         self.removeAction(action)
         action.setParent(None)
-- 
2.43.0


From 3b5d622b4287cba15fa1517caf558b6ccee046f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 69/72] fix: let go of standard items that are removed from
 other items

---
 collagraph/renderers/pyside/objects/standarditem.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/standarditem.py b/collagraph/renderers/pyside/objects/standarditem.py
index 350fa68..a74a28b 100644
--- a/collagraph/renderers/pyside/objects/standarditem.py
+++ b/collagraph/renderers/pyside/objects/standarditem.py
@@ -33,12 +33,19 @@ def remove(self, el):
         row, column = getattr(el, "model_index")
         if model := el.model():
             index = model.indexFromItem(el)
-            row = index.row()
+            row, column = index.row(), index.column()
 
-        self.takeRow(row)
+        take_row(self, row, column)
         return
 
-    self.takeRow(el.row())
+    take_row(self, el.row(), el.column())
+
+
+def take_row(self, row, column):
+    # With `takeRow`, PySide still considers the item to be owned by its parent,
+    # so first take the item itself
+    self.takeChild(row, column)
+    self.takeRow(row)
 
 
 @PySideRenderer.register_set_attr(QStandardItem)
-- 
2.43.0


From 2e9bfc1224ebf7be89ddc8ca5c217e29c88359e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 70/72] fix: let go of the actions of menus that are removed
 with their menu bar

---
 collagraph/renderers/pyside/objects/menubar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/menubar.py b/collagraph/renderers/pyside/objects/menubar.py
index 5127b45..d9f234f 100644
--- a/collagraph/renderers/pyside/objects/menubar.py
+++ b/collagraph/renderers/pyside/objects/menubar.py
@@ -12,14 +12,14 @@ def insert(self, el: QMenu, anchor: QMenu = None):
         self.insertAction(anchor.menuAction(), action)
     else:
         self.addAction(action)
-    # Use the window property of the menubar to set
-    # the parent of the action. Instead of keeping
+    # Set the menubar as the parent of the action, so that
+    # they go away together. Instead of keeping
     # a hierarchy of widgets, instead the hierarchy
     # is constructed with just the (menu)actions.
     # Using the widgets works fine on macOS, but causes
     # problems on Windows where menus would show on top
     # of each other.
-    action.setParent(self.window())
+    action.setParent(self)
 
 
 @PySideRenderer.register_remove(QMenuBar)
-- 
2.43.0


From 4fd235aa0e68a46387f4ccc1292993ee79f3a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:55 +0000
Subject: [PATCH 71/72] fix: removing a selection model from a view crashes

---
 collagraph/renderers/pyside/objects/listview.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/listview.py b/collagraph/renderers/pyside/objects/listview.py
index 868e593..10d4c9f 100644
--- a/collagraph/renderers/pyside/objects/listview.py
+++ b/collagraph/renderers/pyside/objects/listview.py
@@ -30,7 +30,9 @@ def remove(self, el: Union[QStandardItemModel, QItemSelectionModel]):
     if isinstance(el, QStandardItemModel):
         self.setModel(None)
     elif isinstance(el, QItemSelectionModel):
-        self.setSelectionModel(None)
+        # A view can't do without a selection model, so let it have one of its own
+        if el is self.selectionModel():
+            self.setSelectionModel(QItemSelectionModel(self.model(), self))
     else:
         raise NotImplementedError(type(el).__name__)
 
-- 
2.43.0


From 8769f7ee562cad4d3621022d5e9e2f9f53f4c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:13 +0000
Subject: [PATCH 72/72] fix: a view loses its selection model when the item
 model is replaced

---
 collagraph/renderers/pyside/objects/listview.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/listview.py b/collagraph/renderers/pyside/objects/listview.py
index 10d4c9f..d364a1f 100644
--- a/collagraph/renderers/pyside/objects/listview.py
+++ b/collagraph/renderers/pyside/objects/listview.py
@@ -4,13 +4,18 @@ from PySide6.QtCore import QItemSelectionModel
 from PySide6.QtGui import QStandardItemModel
 from PySide6.QtWidgets import QListView, QTableView, QTreeView
 
-from ... import PySideRenderer
+from ...pyside_renderer import children_of, PySideRenderer
 
 
 @PySideRenderer.register_insert(QListView, QTableView, QTreeView)
 def insert(self, el: Union[QStandardItemModel, QItemSelectionModel], anchor=None):
     if isinstance(el, QStandardItemModel):
         self.setModel(el)
+        # The selection model has to follow when the model is replaced
+        for child in children_of(self):
+            if isinstance(child, QItemSelectionModel):
+                child.setModel(el)
+                self.setSelectionModel(child)
     elif isinstance(el, QItemSelectionModel):
         if model := self.model():
             el.setModel(model)
-- 
2.43.0

