From 16ad529b28266215560e1dac50e3878eaabdec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 01/90] fix: emit layout updates in render order and never
 render over each other

In async rendering mode finished renders were taken from a set, so a slow
consumer could receive a child's old content after its parent's newer content.
Renders of components could also interleave, run for unmounted components, or
be interrupted half way when the layout closes.
---
 src/reactpy/core/layout.py | 88 ++++++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 37 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 18253aa..5421404 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -1,17 +1,18 @@
 from __future__ import annotations
 
 from asyncio import (
-    FIRST_COMPLETED,
     CancelledError,
+    Lock,
     Queue,
     Task,
     create_task,
     current_task,
     get_running_loop,
+    shield,
     sleep,
     wait,
 )
-from collections import Counter
+from collections import Counter, deque
 from collections.abc import Callable
 from contextlib import AsyncExitStack, suppress
 from logging import getLogger
@@ -69,18 +70,17 @@ class Layout(BaseLayout):
         self._event_handlers: EventHandlerDict = {}
         self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
-        self._render_tasks: set[Task[LayoutUpdateMessage]] = set()
+        # Render tasks in the order they were scheduled. Updates must be emitted in
+        # the order they were rendered, else the client would apply stale content.
+        self._render_tasks: deque[Task[LayoutUpdateMessage | None]] = deque()
         self._render_tasks_by_id: dict[
-            _LifeCycleStateId, Task[LayoutUpdateMessage]
+            _LifeCycleStateId, Task[LayoutUpdateMessage | None]
         ] = {}
         self._render_tasks_ready: Semaphore = Semaphore(0)
-        # Maps a running render task back to the component it belongs to.
-        # Used by the stale-render detection in `_parallel_render` to drop
-        # out-of-order completions when async rendering is enabled and a
-        # newer render for the same component has already been scheduled.
-        self._render_task_to_lcs_id: dict[
-            Task[LayoutUpdateMessage], _LifeCycleStateId
-        ] = {}
+        # Only one render may modify the tree at a time. The lock is fair, so renders
+        # complete in the order they were scheduled.
+        self._render_lock = Lock()
+        self._closing = False
         self._rendering_queue: _ThreadSafeQueue[_LifeCycleStateId] = _ThreadSafeQueue()
         # Per-target event sequence tracking. Each incoming layout-event
         # may carry an optional ``seq`` field (assigned by the client)
@@ -103,9 +103,15 @@ class Layout(BaseLayout):
         root_csid = self._root_life_cycle_state_id
         root_model_state = self._model_states_by_life_cycle_state_id[root_csid]
 
+        # Renders that have not begun are dropped, but one that is underway has to finish
+        # since interrupting it would leave behind a partially updated tree.
+        self._closing = True
+        async with self._render_lock:
+            pass
+
         for t in self._render_tasks:
             t.cancel()
-            with suppress(CancelledError):
+            with suppress(CancelledError, Exception):
                 await t
 
         for t in self._event_processing_tasks.values():
@@ -122,7 +128,6 @@ class Layout(BaseLayout):
         del self._event_processing_tasks
         del self._rendering_queue
         del self._render_tasks_by_id
-        del self._render_task_to_lcs_id
         del self._root_life_cycle_state_id
         del self._model_states_by_life_cycle_state_id
         del self._last_event_seq_by_target
@@ -199,32 +204,46 @@ class Layout(BaseLayout):
         """Await the next available render. This will block until a component is updated"""
         while True:
             model_state_id = await self._rendering_queue.get()
-            try:
-                model_state = self._model_states_by_life_cycle_state_id[model_state_id]
-            except KeyError:
-                logger.debug(
-                    "Did not render component with model state ID "
-                    f"{model_state_id!r} - component already unmounted"
-                )
-            else:
-                return await self._create_layout_update(model_state)
+            # If we get cancelled the render must still run to completion
+            update = await shield(create_task(self._render_exclusively(model_state_id)))
+            if update is not None:
+                return update
 
     async def _parallel_render(self) -> LayoutUpdateMessage:
-        """Await to fetch the first completed render within our asyncio task group."""
+        """Await to fetch the oldest scheduled render."""
         while True:
             await self._render_tasks_ready.acquire()
 
             if not self._render_tasks:  # nocov
                 continue
 
-            done, _ = await wait(self._render_tasks, return_when=FIRST_COMPLETED)
-            update_task: Task[LayoutUpdateMessage] = done.pop()
-            self._render_tasks.discard(update_task)
+            update_task = self._render_tasks[0]
+            await wait([update_task])
+            self._render_tasks.popleft()
 
             try:
-                return update_task.result()
+                update = update_task.result()
             except CancelledError:  # nocov
                 continue
+            if update is not None:
+                return update
+
+    async def _render_exclusively(
+        self, lcs_id: _LifeCycleStateId
+    ) -> LayoutUpdateMessage | None:
+        """Render a component once all earlier renders are done (if it still exists)"""
+        async with self._render_lock:
+            if self._closing:
+                return None
+            try:
+                model_state = self._model_states_by_life_cycle_state_id[lcs_id]
+            except KeyError:
+                logger.debug(
+                    "Did not render component with model state ID "
+                    f"{lcs_id!r} - component already unmounted"
+                )
+                return None
+            return await self._create_layout_update(model_state)
 
     async def _create_layout_update(
         self, old_state: _ModelState
@@ -317,14 +336,12 @@ class Layout(BaseLayout):
         # If this component is scheduled to render, we can cancel that task since we
         # are rendering it now.  We keep the cancelled task in ``_render_tasks`` so
         # the semaphore token that ``_schedule_render_task`` released is still
-        # paired with an entry the consumer can pick up.  ``asyncio.wait`` returns
-        # cancelled tasks in the done set, and the ``CancelledError`` catch in
-        # ``_parallel_render`` drains the token naturally.
+        # paired with an entry the consumer can pick up.  The ``CancelledError``
+        # catch in ``_parallel_render`` drains the token naturally.
         if life_cycle_state.id in self._render_tasks_by_id:
             task = self._render_tasks_by_id[life_cycle_state.id]
             if task is not current_task():
                 del self._render_tasks_by_id[life_cycle_state.id]
-                self._render_task_to_lcs_id.pop(task, None)
                 task.cancel()
 
         await life_cycle_hook.affect_component_will_render(component)
@@ -581,17 +598,14 @@ class Layout(BaseLayout):
         if not REACTPY_ASYNC_RENDERING.current:
             self._rendering_queue.put(lcs_id)
             return None
-        try:
-            model_state = self._model_states_by_life_cycle_state_id[lcs_id]
-        except KeyError:
+        if lcs_id not in self._model_states_by_life_cycle_state_id:
             logger.debug(
                 "Did not render component with model state ID "
                 f"{lcs_id!r} - component already unmounted"
             )
         else:
-            task = create_task(self._create_layout_update(model_state))
-            self._render_task_to_lcs_id[task] = lcs_id
-            self._render_tasks.add(task)
+            task = create_task(self._render_exclusively(lcs_id))
+            self._render_tasks.append(task)
             self._render_tasks_by_id[lcs_id] = task
             self._render_tasks_ready.release()
 
-- 
2.43.0


From c3ddd951cbe57cc5628c5d1c3e23bd610d4cb62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 02/90] fix: discard everything below a component that fails to
 render

When a re-render failed, the component's previous children (and those already
rendered by the failed attempt) stayed alive: their effects were never cleaned
up and their later state changes raised 'detached model state' from the layout
or updated places of the view that no longer exist.
---
 src/reactpy/core/_life_cycle_hook.py |  2 ++
 src/reactpy/core/layout.py           | 22 ++++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index cf77742..7e6f0c0 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -241,6 +241,8 @@ class LifeCycleHook:
 
     async def affect_component_will_unmount(self) -> None:
         """The component is about to be removed from the layout"""
+        # effects of a render that was discarded must not start any more
+        self._effect_funcs.clear()
         for stop in self._effect_stops:
             stop.set()
         self._effect_stops.clear()
diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 5421404..965f0c1 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -328,6 +328,9 @@ class Layout(BaseLayout):
                 old_state, parent, index, component, self._schedule_render_task
             )
 
+        if parent is not None:
+            parent.children_by_key[key] = new_state
+
         life_cycle_state = new_state.life_cycle_state
         life_cycle_hook = life_cycle_state.hook
 
@@ -357,6 +360,13 @@ class Layout(BaseLayout):
             )
         except Exception as error:
             logger.exception(f"Failed to render {component}")
+            # The error takes the place of everything that was rendered below this
+            # component, so neither its old nor its new children may live on.
+            failed_states = list(new_state.children_by_key.values())
+            if old_state is not None:
+                failed_states.extend(old_state.children_by_key.values())
+            new_state.children_by_key.clear()
+            await self._unmount_model_states(failed_states)
             new_state.model.current = {
                 "tagName": "",
                 "error": (
@@ -386,6 +396,8 @@ class Layout(BaseLayout):
         else:
             new_state = _update_element_model_state(old_state, parent, index)
 
+        parent.children_by_key[key] = new_state
+
         try:
             new_state.model.current = {"tagName": raw_model["tagName"]}
         except Exception as e:  # nocov
@@ -575,7 +587,6 @@ class Layout(BaseLayout):
 
                 if isinstance(new_child_state, _ModelState):
                     new_state.append_child(new_child_state.model.current)
-                    new_state.children_by_key[key] = new_child_state
                 else:
                     new_state.append_child(new_child_state)
 
@@ -585,12 +596,15 @@ class Layout(BaseLayout):
             model_state = to_unmount.pop()
 
             for target in model_state.targets_by_event.values():
-                del self._event_handlers[target]
+                self._event_handlers.pop(target, None)
 
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
-                del self._model_states_by_life_cycle_state_id[life_cycle_state.id]
-                await life_cycle_state.hook.affect_component_will_unmount()
+                # An interrupted render can leave more than one state per component
+                if self._model_states_by_life_cycle_state_id.pop(
+                    life_cycle_state.id, None
+                ):
+                    await life_cycle_state.hook.affect_component_will_unmount()
 
             to_unmount.extend(model_state.children_by_key.values())
 
-- 
2.43.0


From 57fc5661ad8e50005914c3e3a6fc092ea5eb0b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 03/90] fix: give every element its own event targets

Keys '1' and 1 (or an unkeyed element at index 1), and keys containing '/' or
':', produced identical targets, so events reached another element's handler.
---
 src/reactpy/core/layout.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 965f0c1..5a6cb45 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -643,6 +643,13 @@ def _new_root_model_state(
     )
 
 
+def _make_key_path(parent: _ModelState, key: Any) -> str:
+    # Use the repr to tell apart keys like "1" and 1, and escape the delimiters so that
+    # different elements always have different paths (and thus event targets).
+    segment = repr(key).replace("~", "~0").replace("/", "~1").replace(":", "~2")
+    return f"{parent.key_path}/{segment}"
+
+
 def _make_component_model_state(
     parent: _ModelState | None,
     index: int,
@@ -659,7 +666,7 @@ def _make_component_model_state(
         children_by_key={},
         targets_by_event={},
         life_cycle_state=_make_life_cycle_state(component, schedule_render),
-        key_path=f"{parent.key_path}/{key}" if parent else "",
+        key_path=_make_key_path(parent, key) if parent else "",
     )
 
 
@@ -703,7 +710,7 @@ def _update_component_model_state(
             if old_model_state.is_component_state
             else _make_life_cycle_state(new_component, schedule_render)
         ),
-        key_path=f"{new_parent.key_path}/{old_model_state.key}",
+        key_path=_make_key_path(new_parent, old_model_state.key),
     )
 
 
@@ -720,7 +727,7 @@ def _make_element_model_state(
         patch_path=f"{parent.patch_path}/children/{index}",
         children_by_key={},
         targets_by_event={},
-        key_path=f"{parent.key_path}/{key}",
+        key_path=_make_key_path(parent, key),
     )
 
 
@@ -737,7 +744,7 @@ def _update_element_model_state(
         patch_path=f"{new_parent.patch_path}/children/{new_index}",
         children_by_key={},
         targets_by_event={},
-        key_path=f"{new_parent.key_path}/{old_model_state.key}",
+        key_path=_make_key_path(new_parent, old_model_state.key),
     )
 
 
-- 
2.43.0


From b8644578ab5ba7d71bfd0ce4054a9d8a85135273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 04/90] fix: an element only removes the event handlers it
 registered itself

When an explicit handler target moved to another element of the same render,
the element which used to have it removed the new element's handler. A target
that an element no longer used stayed registered.
---
 src/reactpy/core/layout.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 5a6cb45..0462dc0 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -68,6 +68,8 @@ class Layout(BaseLayout):
     async def __aenter__(self) -> Layout:
         # create attributes here to avoid access before entering context manager
         self._event_handlers: EventHandlerDict = {}
+        # The model state which most recently registered a handler for a target
+        self._event_handler_owners: dict[str, _ModelState] = {}
         self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
         # Render tasks in the order they were scheduled. Updates must be emitted in
@@ -124,6 +126,7 @@ class Layout(BaseLayout):
 
         # delete attributes here to avoid access after exiting context manager
         del self._event_handlers
+        del self._event_handler_owners
         del self._event_queues
         del self._event_processing_tasks
         del self._rendering_queue
@@ -438,9 +441,7 @@ class Layout(BaseLayout):
             self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
             return None
 
-        for old_event in set(old_state.targets_by_event).difference(handlers_by_event):
-            old_target = old_state.targets_by_event[old_event]
-            del self._event_handlers[old_target]
+        self._remove_event_handlers(old_state)
 
         if not handlers_by_event:
             self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
@@ -455,6 +456,7 @@ class Layout(BaseLayout):
 
             new_state.targets_by_event[event] = target
             self._event_handlers[target] = handler
+            self._event_handler_owners[target] = new_state
             model_event_handlers[event] = self._serialize_event_handler(handler, target)
 
         self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
@@ -511,10 +513,18 @@ class Layout(BaseLayout):
 
             new_state.targets_by_event[event] = target
             self._event_handlers[target] = handler
+            self._event_handler_owners[target] = new_state
             model_event_handlers[event] = self._serialize_event_handler(handler, target)
 
         return None
 
+    def _remove_event_handlers(self, state: _ModelState) -> None:
+        """Remove an element's handlers unless another one has since taken the target"""
+        for target in state.targets_by_event.values():
+            if self._event_handler_owners.get(target) is state:
+                del self._event_handler_owners[target]
+                self._event_handlers.pop(target, None)
+
     @staticmethod
     def _serialize_event_handler(handler: Any, target: str) -> dict[str, Any]:
         """Build the on-the-wire event handler entry.
@@ -595,8 +605,7 @@ class Layout(BaseLayout):
         while to_unmount:
             model_state = to_unmount.pop()
 
-            for target in model_state.targets_by_event.values():
-                self._event_handlers.pop(target, None)
+            self._remove_event_handlers(model_state)
 
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
-- 
2.43.0


From e4d761eda1cb8484c6691c4c756229c6bd879ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 05/90] fix: close a layout even if renders get scheduled
 meanwhile

The collection of render tasks was iterated while effects that were still
running could add to it, so closing failed before anything was unmounted.
---
 src/reactpy/core/layout.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 0462dc0..bb5f28e 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -111,7 +111,9 @@ class Layout(BaseLayout):
         async with self._render_lock:
             pass
 
-        for t in self._render_tasks:
+        # renders may still get scheduled while we wait
+        while self._render_tasks:
+            t = self._render_tasks.popleft()
             t.cancel()
             with suppress(CancelledError, Exception):
                 await t
-- 
2.43.0


From 1e08ac7a04833d02b95fb03b76b8df4d5304d86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 06/90] fix: run and clean up async effects one after the other

A shielded (or slowly cancelled) run could overlap with the next one, start
before the clean-up of an earlier run and lose clean-up functions. A clean-up
function which raised was called again, and one failing effect kept an
unmount from waiting for the other effects of the component.
---
 src/reactpy/core/_life_cycle_hook.py |  8 ++--
 src/reactpy/core/hooks.py            | 63 +++++++++++++++-------------
 2 files changed, 39 insertions(+), 32 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 7e6f0c0..80292a9 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -247,11 +247,13 @@ class LifeCycleHook:
             stop.set()
         self._effect_stops.clear()
         try:
-            await gather(*self._effect_tasks)
-        except Exception:
-            logger.exception("Error in effect")
+            # an error in one effect must not keep us from waiting for the others
+            results = await gather(*self._effect_tasks, return_exceptions=True)
         finally:
             self._effect_tasks.clear()
+        for error in results:
+            if isinstance(error, Exception):
+                logger.error("Error in effect", exc_info=error)
 
     def set_current(self) -> None:
         """Set this hook as the active hook in this thread
diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 5aacbf5..7258541 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -231,19 +231,28 @@ def use_async_effect(
     pending_task: Ref[asyncio.Task[_EffectCleanFunc | None] | None] = use_ref(None)
 
     def decorator(func: _AsyncEffectFunc) -> None:
+        def collect(task: asyncio.Task[_EffectCleanFunc | None]) -> None:
+            # Take over the clean-up function of a completed task (exactly once)
+            if pending_task.current is task:
+                pending_task.current = None
+                if not task.cancelled() and task.exception() is None:
+                    cleanup_func.current = task.result()
+
         async def effect(stop: asyncio.Event) -> None:
-            # Make sure we always clean up the previous effect's resources
-            if pending_task.current:
-                previous_task = pending_task.current
-                if not shield:
+            # Make sure we always clean up the previous effect's resources. Another
+            # effect might get started while we wait so we have to check again.
+            while (previous_task := pending_task.current) is not None:
+                if not shield and not previous_task.cancelling():
                     previous_task.cancel()
-                with contextlib.suppress(asyncio.CancelledError):
-                    await previous_task
-                if pending_task.current is previous_task:
-                    pending_task.current = None
+                await asyncio.wait([previous_task])
+                collect(previous_task)
 
             run_effect_cleanup(cleanup_func)
 
+            # The component was unmounted while we waited
+            if stop.is_set():
+                return
+
             # Execute the effect and store the clean-up function.
             # We run this in a task so it can be cancelled if the stop signal
             # is set before the effect completes.
@@ -252,36 +261,31 @@ def use_async_effect(
 
             # Wait for either the effect to complete or the stop signal
             stop_task = asyncio.create_task(stop.wait())
-            done, _ = await asyncio.wait(
+            await asyncio.wait(
                 [task, stop_task],
                 return_when=asyncio.FIRST_COMPLETED,
             )
 
-            # If the effect completed first, store the cleanup function
-            if task in done:
-                pending_task.current = None
-                with contextlib.suppress(asyncio.CancelledError):
-                    cleanup_func.current = task.result()
-                # Cancel the stop task since we don't need it anymore
-                stop_task.cancel()
-                with contextlib.suppress(asyncio.CancelledError):
-                    await stop_task
-                # Now wait for the stop signal to run cleanup
-                await stop.wait()
             # Stop signal came first - cancel the effect task
-            else:
+            if not task.done():
                 # Prevent task cancellation if the user enabled shielding
-                if not shield:
+                if not shield and not task.cancelling():
                     task.cancel()
-                with contextlib.suppress(asyncio.CancelledError):
-                    cleanup_func.current = await task
-                if pending_task.current is task:
-                    pending_task.current = None
+                await asyncio.wait([task])
+
+            collect(task)
+
+            # Now wait for the stop signal to run cleanup
+            await stop_task
 
             # Run the clean-up function when the effect is stopped,
             # if it hasn't been run already by a new effect
             run_effect_cleanup(cleanup_func)
 
+            # Report the error if the effect failed
+            if not task.cancelled():
+                task.result()
+
         return memoize(lambda: hook.add_effect(effect))
 
     # Handle decorator usage
@@ -645,6 +649,7 @@ def strictly_equal(x: Any, y: Any) -> bool:
 
 
 def run_effect_cleanup(cleanup_func: Ref[_EffectCleanFunc | None]) -> None:
-    if cleanup_func.current:
-        cleanup_func.current()
-        cleanup_func.current = None
+    # forget the function first so that it's never called twice, even if it fails
+    function, cleanup_func.current = cleanup_func.current, None
+    if function:
+        function()
-- 
2.43.0


From cae6ca0bd5d5707cb47d0d01a9a0708611a6161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 07/90] fix: let a component recover if its first render failed
 between hooks

The hooks that were not reached had no state to retrieve in later renders, so
the component failed with an IndexError ever after.
---
 src/reactpy/core/_life_cycle_hook.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 80292a9..021d609 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -139,7 +139,6 @@ class LifeCycleHook:
         "_effect_stops",
         "_effect_tasks",
         "_render_access",
-        "_rendered_atleast_once",
         "_schedule_render_callback",
         "_scheduled_render",
         "_state",
@@ -155,7 +154,6 @@ class LifeCycleHook:
         self._context_providers: dict[Context[Any], ContextProvider[Any]] = {}
         self._schedule_render_callback = schedule_render
         self._scheduled_render = False
-        self._rendered_atleast_once = False
         self._current_state_index = 0
         self._state: list = []
         self._effect_funcs: list[EffectFunc] = []
@@ -177,12 +175,13 @@ class LifeCycleHook:
     def use_state(self, function: Callable[[], T]) -> T:
         """Add state to this hook
 
-        If this hook has not yet rendered, the state is appended to the state tuple.
+        If this piece of state has not been used yet, it's appended to the state tuple.
         Otherwise, the state is retrieved from the tuple. This allows state to be
         preserved across renders.
         """
-        if not self._rendered_atleast_once:
-            # since we're not initialized yet we're just appending state
+        if self._current_state_index >= len(self._state):
+            # We're not initialized yet so we're just appending state. Note that prior
+            # renders may have failed before getting here.
             result = function()
             self._state.append(result)
         else:
@@ -227,7 +226,6 @@ class LifeCycleHook:
     async def affect_component_did_render(self) -> None:
         """The component completed a render"""
         self.unset_current()
-        self._rendered_atleast_once = True
         self._current_state_index = 0
         self._render_access.release()
         del self.component
-- 
2.43.0


From 8f4f8b83022b599397834ab8e7c449321f9fb9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 08/90] fix: remember the dependencies of a memo only once it
 was computed

If the memoized function failed, the next render returned the outdated value
since the new dependencies were already stored. Also keep a copy so that
changes made to the given sequence are noticed.
---
 src/reactpy/core/hooks.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 7258541..ddb02ff 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -512,10 +512,8 @@ def use_memo(
     if memo.empty():
         # we need to initialize on the first run
         changed = True
-        memo.deps = () if dependencies is None else dependencies
     elif dependencies is None:
         changed = True
-        memo.deps = ()
     elif (
         len(memo.deps) != len(dependencies)
         # if deps are same length check identity for each item
@@ -524,7 +522,6 @@ def use_memo(
             for current, new in zip(memo.deps, dependencies, strict=False)
         )
     ):
-        memo.deps = dependencies
         changed = True
     else:
         changed = False
@@ -533,6 +530,8 @@ def use_memo(
 
         def setup(function: Callable[[], _Type]) -> _Type:
             current_value = memo.value = function()
+            # remember these only now since the function might have failed
+            memo.deps = () if dependencies is None else tuple(dependencies)
             return current_value
 
     else:
-- 
2.43.0


From e3d9d36b88faf18306e96d3de00f952e1b144ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 09/90] fix: compare values whose equality has no truth value
 by identity

State or dependencies such as arrays made every comparison fail.
---
 src/reactpy/core/hooks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index ddb02ff..a91159c 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -641,7 +641,8 @@ def strictly_equal(x: Any, y: Any) -> bool:
     # Check via the `==` operator if possible
     if hasattr(x, "__eq__"):
         with contextlib.suppress(Exception):
-            return x == y  # type: ignore
+            # may fail for objects without a truth value (e.g. arrays)
+            return bool(x == y)
 
     # Fallback to identity check
     return x is y  # nocov
-- 
2.43.0


From 76305b00a8a16c4e385ed08d76ebd49b0f325785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 10/90] fix: infer dependencies of functions which refer to
 unassigned variables

A callback or effect that refers to itself (or to a variable assigned later)
failed with 'Cell is empty'.
---
 src/reactpy/core/hooks.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index a91159c..e6a433d 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -582,11 +582,15 @@ def _try_to_infer_closure_values(
     if values is not ...:
         return values
     if isinstance(func, FunctionType):
-        return (
-            [cell.cell_contents for cell in func.__closure__]
-            if func.__closure__
-            else []
-        )
+        try:
+            return (
+                [cell.cell_contents for cell in func.__closure__]
+                if func.__closure__
+                else []
+            )
+        except ValueError:
+            # A variable is not assigned yet (e.g. when the function refers to itself)
+            return None
     else:
         return None
 
-- 
2.43.0


From 062d96751973dcbd43325a61710d27873a74c0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 11/90] fix: don't confuse integer keys with the positions of
 siblings without key

A list whose items use integer keys failed to render with 'Duplicate keys' if
an item without a key happened to be at such a position.
---
 src/reactpy/core/layout.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index bb5f28e..b6501cd 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -15,6 +15,7 @@ from asyncio import (
 from collections import Counter, deque
 from collections.abc import Callable
 from contextlib import AsyncExitStack, suppress
+from dataclasses import dataclass
 from logging import getLogger
 from types import TracebackType
 from typing import (
@@ -920,6 +921,16 @@ class _ThreadSafeQueue(Generic[_Type]):
         self._pending.clear()
 
 
+@dataclass(frozen=True)
+class _Position:
+    """Identifies a child without a key - never equal to a key given by the user"""
+
+    index: int
+
+    def __repr__(self) -> str:
+        return f"#{self.index}"
+
+
 def _get_children_info(
     children: list[VdomChild],
 ) -> tuple[list[_ChildInfo], set[Key] | None]:
@@ -942,7 +953,7 @@ def _get_children_info(
             key = None
 
         if key is None:
-            key = index
+            key = _Position(index)
 
         if key in keys:
             has_duplicates = True
-- 
2.43.0


From 3eb3ce133e286ac9f7da3eef722a448f235a0e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 12/90] fix: describe inline JavaScript and the error
 dependency in the VDOM schema

The schema was not valid JSON schema: models with inline JavaScript and the rule
that only a fragment may carry an error were not validated.
---
 src/reactpy/core/vdom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/vdom.py b/src/reactpy/core/vdom.py
index 9d8ba41..602fc90 100644
--- a/src/reactpy/core/vdom.py
+++ b/src/reactpy/core/vdom.py
@@ -51,7 +51,7 @@ VDOM_JSON_SCHEMA = {
             # The 'tagName' is required because its presence is a useful indicator of
             # whether a dictionary describes a VDOM model or not.
             "required": ["tagName"],
-            "dependentSchemas": {
+            "dependencies": {
                 # When 'error' is given, the 'tagName' should be empty.
                 "error": {"properties": {"tagName": {"maxLength": 0}}}
             },
@@ -80,7 +80,7 @@ VDOM_JSON_SCHEMA = {
         "elementInlineJavaScripts": {
             "type": "object",
             "patternProperties": {
-                ".*": "str",
+                ".*": {"type": "string"},
             },
         },
         "importSource": {
-- 
2.43.0


From 3d55fa889d8d4a9f66cc4f8d5abd52e398af8f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 13/90] fix: a new input element doesn't inherit
 acknowledgements of its predecessor

An element that was removed and shown again at the same place claimed to have
received events the new element never sent, so stale values replaced user input.
---
 src/reactpy/core/layout.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index b6501cd..fd6eeed 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -166,16 +166,6 @@ class Layout(BaseLayout):
         while True:
             event = await queue.get()
 
-            # Record the client-assigned event sequence number (if any)
-            # so we can echo it back as ``ackSeq`` on the originating
-            # element. The client uses this to decide whether the
-            # server has caught up to the latest keystrokes.
-            seq = event.get("seq")
-            if isinstance(seq, int) and seq >= 0:
-                prev = self._last_event_seq_by_target.get(target, -1)
-                if seq > prev:
-                    self._last_event_seq_by_target[target] = seq
-
             # Retry a few times to handle potential re-render race conditions where
             # the handler is temporarily removed and then re-added.
             handler = self._event_handlers.get(target)
@@ -187,6 +177,16 @@ class Layout(BaseLayout):
                         break
 
             if handler is not None:
+                # Record the client-assigned event sequence number (if any)
+                # so we can echo it back as ``ackSeq`` on the originating
+                # element. The client uses this to decide whether the
+                # server has caught up to the latest keystrokes.
+                seq = event.get("seq")
+                if isinstance(seq, int) and seq >= 0:
+                    prev = self._last_event_seq_by_target.get(target, -1)
+                    if seq > prev:
+                        self._last_event_seq_by_target[target] = seq
+
                 try:
                     data = [
                         Event(d) if isinstance(d, dict) else d for d in event["data"]
@@ -609,6 +609,10 @@ class Layout(BaseLayout):
             model_state = to_unmount.pop()
 
             self._remove_event_handlers(model_state)
+            # A new element that takes the place of this one counts from the start
+            for target in model_state.targets_by_event.values():
+                if target not in self._event_handlers:
+                    self._last_event_seq_by_target.pop(target, None)
 
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
-- 
2.43.0


From 9d5550ec0a4de635b5e948574be3406d6f40747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 14/90] fix: keep inline JavaScript of elements with a custom
 constructor

It was silently dropped from scripts; fragments reject it like other attributes.
---
 src/reactpy/core/vdom.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactpy/core/vdom.py b/src/reactpy/core/vdom.py
index 602fc90..7877331 100644
--- a/src/reactpy/core/vdom.py
+++ b/src/reactpy/core/vdom.py
@@ -184,6 +184,11 @@ class Vdom:
                 attributes=attributes,
                 event_handlers=event_handlers,
             )
+            if inline_javascript:
+                if not self.__name__:
+                    msg = "Fragments cannot have inline JavaScript"
+                    raise TypeError(msg)
+                result["inlineJavaScript"] = inline_javascript
 
         # Otherwise, use the default constructor
         else:
-- 
2.43.0


From 2679e1c2f88c588ec36d9daf73ff661b4cb589b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 15/90] fix: keep all of a style attribute when converting HTML

Values with a semicolon in quotes or parentheses were cut off and the names of
CSS variables were mangled.
---
 src/reactpy/transforms.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index f1896c8..08c1bcd 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import re
+from collections import Counter
 from typing import Any, cast
 
 from reactpy.core.events import EventHandler, to_event_handler_function
@@ -41,7 +43,9 @@ class RequiredTransforms:
                 self._kebab_to_camel_case(key.strip()): value.strip()
                 for key, value in (
                     part.split(":", 1)
-                    for part in vdom["attributes"]["style"].split(";")
+                    for part in CSS_DECLARATION_PATTERN.findall(
+                        vdom["attributes"]["style"]
+                    )
                     if ":" in part
                 )
             }
@@ -155,12 +159,19 @@ class RequiredTransforms:
     @staticmethod
     def _kebab_to_camel_case(kebab_case: str) -> str:
         """Convert kebab-case to camelCase."""
+        if kebab_case.startswith("--"):
+            return kebab_case  # CSS variables are used as they are
         return "".join(
             part.capitalize() if i else part
             for i, part in enumerate(kebab_case.split("-"))
         )
 
 
+# A declaration may contain semicolons within quotes or parentheses
+CSS_DECLARATION_PATTERN = re.compile(
+    r"""(?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|\((?:"[^"]*"|'[^']*'|[^)"'])*\)|[^;])+"""
+)
+
 KNOWN_REACT_PROPS = {
     "onLoadStart",
     "onTouchStart",
-- 
2.43.0


From c95e39bc3b80271c978d672901a2729204faaea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 16/90] fix: convert onmouseover, onpointerover, ondragleave
 and ondblclick attributes

---
 src/reactpy/transforms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index 08c1bcd..e0497ad 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -145,7 +145,9 @@ class RequiredTransforms:
 
         vdom = vdom_or_any
         if vdom["tagName"] == "option" and "attributes" in vdom:
-            value = vdom["attributes"].setdefault("value", vdom["children"][0])
+            # The value of an option defaults to its text without surplus whitespace
+            text = "".join(c for c in vdom.get("children", []) if isinstance(c, str))
+            value = vdom["attributes"].setdefault("value", " ".join(text.split()))
 
             if "selected" in vdom["attributes"]:
                 vdom["attributes"].pop("selected")
@@ -291,6 +293,7 @@ KNOWN_REACT_PROPS = {
     "onPointerLeave",
     "onSelect",
     "onMouseOut",
+    "onMouseOver",
     "dirname",
     "onMouseDown",
     "onPointerUp",
@@ -334,6 +337,7 @@ KNOWN_REACT_PROPS = {
     "onAnimationStartCapture",
     "onAnimationStart",
     "onDragEnter",
+    "onDragLeave",
     "onPointerDownCapture",
     "onEnded",
     "onProgress",
@@ -360,6 +364,7 @@ KNOWN_REACT_PROPS = {
     "onCompositionEndCapture",
     "onSeeking",
     "onPointerOut",
+    "onPointerOver",
     "onSubmitCapture",
     "onSeekedCapture",
     "onEncrypted",
-- 
2.43.0


From 683d3919c14be89cbf21541878b5a80d15cf424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 17/90] fix: don't infer the same key for siblings that share
 their name

HTML with a group of radio buttons could not be rendered ('Duplicate keys').
---
 src/reactpy/transforms.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index e0497ad..a08d757 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -120,6 +120,20 @@ class RequiredTransforms:
         if key and "key" not in attributes:
             attributes["key"] = key
 
+    @staticmethod
+    def drop_ambiguous_inferred_keys(vdom: VdomDict) -> None:
+        """Siblings may share their name (ex. radio buttons), but not their key."""
+        children = [
+            child["attributes"]
+            for child in vdom.get("children", [])
+            if isinstance(child, dict) and child.get("attributes", {}).get("key")
+        ]
+        key_count = Counter(str(attributes["key"]) for attributes in children)
+        for attributes in children:
+            key = attributes["key"]
+            if key_count[str(key)] > 1 and key == attributes.get("name"):
+                del attributes["key"]
+
     def intercept_link_clicks(self, vdom: VdomDict) -> None:
         """Intercepts anchor link clicks and prevents the default behavior.
         This allows ReactPy-Router to handle the navigation instead of the browser."""
-- 
2.43.0


From d62a69b14b49868187a0c5c87106d8826b450ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 18/90] fix: keep the initial state of form elements when
 converting HTML

An option without text made the conversion fail, the first instead of the last
selected option was shown and a checked attribute without value was ignored.
---
 src/reactpy/transforms.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index a08d757..7a9f8c2 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -59,6 +59,9 @@ class RequiredTransforms:
                 [child for child in text_content if isinstance(child, str)]
             )
 
+            # HTML ignores a newline right after the opening tag
+            text_content = re.sub(r"^\r?\n", "", text_content)
+
             vdom.setdefault("attributes", {})
             if "attributes" in vdom:
                 default_value = vdom["attributes"].pop("defaultValue", "")
@@ -80,7 +83,8 @@ class RequiredTransforms:
             if multiple_choice:
                 vdom["attributes"]["multiple"] = True
             if selected_options and not multiple_choice:
-                vdom["attributes"]["defaultValue"] = selected_options[0]
+                # The last one wins if several options are marked as selected
+                vdom["attributes"]["defaultValue"] = selected_options[-1]
             if selected_options and multiple_choice:
                 vdom["attributes"]["defaultValue"] = selected_options
 
@@ -98,6 +102,9 @@ class RequiredTransforms:
             value = vdom["attributes"].pop("value", None)
             if value is not None:
                 vdom["attributes"]["defaultValue"] = value
+            if "defaultChecked" in vdom["attributes"]:
+                # Being present is what counts, even if the value is empty
+                vdom["attributes"]["defaultChecked"] = True
 
     @staticmethod
     def infer_key_from_attributes(vdom: VdomDict) -> None:
@@ -430,6 +437,7 @@ REACT_PROP_SUBSTITUTIONS = {prop.lower(): prop for prop in KNOWN_REACT_PROPS} |
     "for": "htmlFor",
     "class": "className",
     "checked": "defaultChecked",
+    "ondblclick": "onDoubleClick",
     "accept-charset": "acceptCharset",
     "http-equiv": "httpEquiv",
 }
-- 
2.43.0


From a7541a5d311c8a7edf40fcf490202cfc516412c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 19/90] fix: write the raw text of scripts and styles, and the
 end tag of empty list items

---
 src/reactpy/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index bb0bc5b..b4df48c 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -75,7 +75,7 @@ def reactpy_to_string(root: VdomDict | Component) -> str:
         root = component_to_vdom(root)
 
     _add_vdom_to_etree(temp_container, root)
-    html = etree.tostring(temp_container, method="html").decode()
+    html = etree.tostring(temp_container, method="html", encoding="unicode")
 
     # Strip out temp root <__temp__> element
     return html[10:-11]
@@ -186,6 +186,8 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
             _react_attribute_to_html(k, v)
             for k, v in vdom.get("attributes", {}).items()
         )
+        # Without any text, the end tag of an empty `<li>` isn't written
+        element.text = ""
     else:
         element = parent
 
-- 
2.43.0


From 3a28630f27887e1f98c6757a7a2561d8543aaba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 20/90] fix: leave out children and attributes without a value
 in HTML strings

---
 src/reactpy/utils.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index b4df48c..955e1f8 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -185,6 +185,7 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
         element.attrib.update(
             _react_attribute_to_html(k, v)
             for k, v in vdom.get("attributes", {}).items()
+            if v is not None and not (v is False and k.lower() in BOOLEAN_HTML_ATTRS)
         )
         # Without any text, the end tag of an empty `<li>` isn't written
         element.text = ""
@@ -192,6 +193,8 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
         element = parent
 
     for c in vdom.get("children", []):
+        if c is None:
+            continue
         if hasattr(c, "render"):
             c = component_to_vdom(cast(Component, c))
         if isinstance(c, dict):
@@ -262,6 +265,7 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
             value = ";".join(
                 f"{CAMEL_CASE_PATTERN.sub('-', k).lower()}:{v}"
                 for k, v in value.items()
+                if v is not None
             )
 
     # Convert special attributes to kebab-case
@@ -275,6 +279,36 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     return key.lower(), str(value)
 
 
+# Attributes that are in effect as soon as they are present, whatever their value is
+BOOLEAN_HTML_ATTRS = {
+    "allowfullscreen",
+    "async",
+    "autofocus",
+    "autoplay",
+    "checked",
+    "controls",
+    "default",
+    "defaultchecked",
+    "defer",
+    "disabled",
+    "formnovalidate",
+    "hidden",
+    "inert",
+    "ismap",
+    "itemscope",
+    "loop",
+    "multiple",
+    "muted",
+    "nomodule",
+    "novalidate",
+    "open",
+    "playsinline",
+    "readonly",
+    "required",
+    "reversed",
+    "selected",
+}
+
 # see list of HTML attributes with dashes in them:
 # https://developer.mozilla.org/en-US/docs/Web/HTML/Attributes#attribute_list
 DASHED_HTML_ATTRS = {"acceptCharset", "httpEquiv"}
-- 
2.43.0


From 7b4fb75775d21cd31821913813b266e017299297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 21/90] fix: use the HTML names of React attributes and styles
 in HTML strings

---
 src/reactpy/utils.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index 955e1f8..6d2134a 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -263,11 +263,15 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     if key == "style":
         if isinstance(value, dict):
             value = ";".join(
-                f"{CAMEL_CASE_PATTERN.sub('-', k).lower()}:{v}"
+                f"{_react_style_to_css(k)}:{v}"
                 for k, v in value.items()
                 if v is not None
             )
 
+    # Convert attributes with a different name
+    elif key in RENAMED_HTML_ATTRS:
+        key = RENAMED_HTML_ATTRS[key]
+
     # Convert special attributes to kebab-case
     elif key in DASHED_HTML_ATTRS:
         key = CAMEL_CASE_PATTERN.sub("-", key)
@@ -279,6 +283,23 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     return key.lower(), str(value)
 
 
+def _react_style_to_css(key: str) -> str:
+    """Convert the name of a React style to the name of a CSS property."""
+    if key.startswith("--"):
+        return key  # CSS variables are used as they are
+    name = CAMEL_CASE_PATTERN.sub("-", key).lower()
+    # Vendor prefixes, ex. WebkitBoxFlex or msTransform
+    return f"-{name}" if key[:1].isupper() or re.match("ms[A-Z]", key) else name
+
+
+# Attributes which are named differently than in HTML
+RENAMED_HTML_ATTRS = {
+    "className": "class",
+    "htmlFor": "for",
+    "defaultChecked": "checked",
+    "defaultValue": "value",
+}
+
 # Attributes that are in effect as soon as they are present, whatever their value is
 BOOLEAN_HTML_ATTRS = {
     "allowfullscreen",
-- 
2.43.0


From 08b50800c2f1c52768763bde21cbd57ca040718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 22/90] fix: accept any callable as an event handler and find
 the event of methods and partials

---
 src/reactpy/core/_event_inspect.py | 23 ++++++++++----
 src/reactpy/core/events.py         | 48 +++++++++++++++++++++++-------
 2 files changed, 56 insertions(+), 15 deletions(-)

diff --git a/src/reactpy/core/_event_inspect.py b/src/reactpy/core/_event_inspect.py
index e9adc8c..6cca2a5 100644
--- a/src/reactpy/core/_event_inspect.py
+++ b/src/reactpy/core/_event_inspect.py
@@ -6,7 +6,7 @@ Implementing this syntax necessitates inspecting the bytecode of event handler f
 from __future__ import annotations
 
 import dis
-from collections.abc import Callable, Iterable
+from collections.abc import Callable, Iterable, Mapping
 from types import CodeType
 from typing import Any
 
@@ -19,7 +19,11 @@ _LOAD_FAST_BORROW_PAIR_SIZE = 2
 _STORE_ATTR_VALUE_OFFSET = 2
 
 
-def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
+def inspect_event_handler(
+    func: Callable,
+    event_arg_index: int = 0,
+    bound_args: Mapping[str, Any] | None = None,
+) -> tuple[bool, bool, int | None]:
     """Detect ``preventDefault``/``stopPropagation``/``debounce`` usage.
 
     Walks the bytecode of ``func`` looking for the patterns:
@@ -40,15 +44,20 @@ def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
     be resolved from the function alone, so users must pass
     ``debounce=...`` explicitly in that case.
 
+    The event is passed as the positional argument at ``event_arg_index``. Values of
+    other arguments which were already bound to ``func`` (for example, by a
+    ``functools.partial``) are given by ``bound_args``.
+
     Returns ``(prevent_default, stop_propagation, debounce)``.
     """
-    code = func.__code__
+    code = getattr(func, "__code__", None)
 
     prevent_default = False
     stop_propagation = False
     debounce: int | None = None
 
-    if code.co_argcount <= 0:
+    # Some callables, such as builtins, have no bytecode
+    if code is None or code.co_argcount <= event_arg_index:
         return prevent_default, stop_propagation, debounce
 
     names = code.co_names
@@ -59,9 +68,13 @@ def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
     if not (check_prevent_default or check_stop_propagation or check_debounce):
         return prevent_default, stop_propagation, debounce
 
-    event_arg_name = code.co_varnames[0]
+    event_arg_name = code.co_varnames[event_arg_index]
     instructions = list(dis.get_instructions(code))
     arg_defaults = _function_arg_defaults(func)
+    for name, value in (bound_args or {}).items():
+        arg_defaults.pop(name, None)
+        if isinstance(value, int) and not isinstance(value, bool):
+            arg_defaults[name] = value
     closure_by_name = _closure_lookup(func)
     constant_ints_by_name = _constant_ints_by_name(code)
 
diff --git a/src/reactpy/core/events.py b/src/reactpy/core/events.py
index 3828e2a..899b6bb 100644
--- a/src/reactpy/core/events.py
+++ b/src/reactpy/core/events.py
@@ -126,15 +126,8 @@ class EventHandler(BaseEventHandler):
 
         # Check if our `preventDefault` or `stopPropagation` methods were called
         # by inspecting the function's bytecode
-        func_to_inspect = cast(Any, function)
-        while hasattr(func_to_inspect, "__wrapped__"):
-            func_to_inspect = func_to_inspect.__wrapped__
-
-        if isinstance(func_to_inspect, partial):
-            func_to_inspect = func_to_inspect.func
-
         found_prevent_default, found_stop_propagation, found_debounce = (
-            inspect_event_handler(func_to_inspect)
+            inspect_event_handler(*_find_inner_function(function))
         )
 
         if found_prevent_default:
@@ -174,6 +167,41 @@ class EventHandler(BaseEventHandler):
         return f"{type(self).__name__}({items})"
 
 
+def _find_inner_function(function: Any) -> tuple[Any, int, dict[str, Any]]:
+    """Find the function that finally receives the event.
+
+    Returns the function, the position of the event among its positional arguments and
+    the keyword arguments that are already bound to it.
+    """
+    event_arg_index = 0
+    bound_args: dict[str, Any] = {}
+    while True:
+        if inspect.ismethod(function):
+            event_arg_index += 1
+            function = function.__func__
+        elif hasattr(function, "__wrapped__"):
+            function = function.__wrapped__
+        elif isinstance(function, partial):
+            event_arg_index += len(function.args)
+            bound_args = {**function.keywords, **bound_args}
+            function = function.func
+        elif not hasattr(function, "__code__") and inspect.ismethod(
+            getattr(function, "__call__", None)
+        ):
+            function = function.__call__
+        else:
+            return function, event_arg_index, bound_args
+
+
+def _is_coroutine_function(function: Any) -> bool:
+    while isinstance(function, partial):
+        function = function.func
+    return inspect.iscoroutinefunction(function) or (
+        not isinstance(function, type)
+        and inspect.iscoroutinefunction(getattr(function, "__call__", None))
+    )
+
+
 def to_event_handler_function(
     function: Callable[..., Any],
     positional_args: bool = True,
@@ -187,7 +215,7 @@ def to_event_handler_function(
             Whether to pass the event parameters a positional args or as a list.
     """
     if positional_args:
-        if inspect.iscoroutinefunction(function):
+        if _is_coroutine_function(function):
 
             async def wrapper(data: Sequence[Any]) -> None:
                 await function(*data)
@@ -201,7 +229,7 @@ def to_event_handler_function(
 
         cast(Any, wrapper).__wrapped__ = function
         return wrapper
-    elif not inspect.iscoroutinefunction(function):
+    elif not _is_coroutine_function(function):
 
         async def wrapper(data: Sequence[Any]) -> None:
             function(data)
-- 
2.43.0


From 76ed7c789f9fc9375f0a99f5be919257bfba142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 23/90] fix: find calls on events used by inner functions and
 ignore ambiguous debounce values

---
 src/reactpy/core/_event_inspect.py | 36 +++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/reactpy/core/_event_inspect.py b/src/reactpy/core/_event_inspect.py
index 6cca2a5..68c1866 100644
--- a/src/reactpy/core/_event_inspect.py
+++ b/src/reactpy/core/_event_inspect.py
@@ -69,25 +69,33 @@ def inspect_event_handler(
         return prevent_default, stop_propagation, debounce
 
     event_arg_name = code.co_varnames[event_arg_index]
-    instructions = list(dis.get_instructions(code))
+    instructions = [
+        instr for instr in dis.get_instructions(code) if instr.opname != "EXTENDED_ARG"
+    ]
     arg_defaults = _function_arg_defaults(func)
     for name, value in (bound_args or {}).items():
         arg_defaults.pop(name, None)
         if isinstance(value, int) and not isinstance(value, bool):
             arg_defaults[name] = value
     closure_by_name = _closure_lookup(func)
+    # The value of a variable that gets assigned by the function is unknown
+    for instr in instructions:
+        if instr.opname in ("STORE_FAST", "STORE_DEREF"):
+            arg_defaults.pop(instr.argval, None)
+            closure_by_name.pop(instr.argval, None)
     constant_ints_by_name = _constant_ints_by_name(code)
 
     last_was_event = False
     # When the function assigns ``event.debounce`` in multiple branches we
     # cannot know which one runs at runtime. If any assignment uses an
-    # unresolvable value (e.g. a local variable) we treat the whole detection
-    # as ambiguous and return ``None`` rather than picking a fallback literal.
-    debounce_tainted = False
+    # unresolvable value (e.g. a local variable), or a different one, we treat
+    # the whole detection as ambiguous and return ``None`` rather than picking
+    # any of them.
 
     for index, instr in enumerate(instructions):
         if (
-            instr.opname in ("LOAD_FAST", "LOAD_FAST_BORROW")
+            # The event is loaded by `LOAD_DEREF` if it's used by an inner function
+            instr.opname in ("LOAD_FAST", "LOAD_FAST_BORROW", "LOAD_DEREF")
             and instr.argval == event_arg_name
         ):
             last_was_event = True
@@ -131,16 +139,13 @@ def inspect_event_handler(
                 closure_by_name,
                 constant_ints_by_name,
             )
-            if isinstance(candidate, int) and not isinstance(candidate, bool):
-                if not debounce_tainted:
-                    debounce = candidate
-                    check_debounce = False
-            elif candidate is None:
+            if candidate is not None and debounce in (None, candidate):
+                debounce = candidate
+            else:
                 # Value source is a name we cannot resolve at this point.
                 # This could be a module-level global, a local variable, or
                 # an expression. We can't determine the real debounce, so we
-                # refuse to guess even if a later literal assignment exists.
-                debounce_tainted = True
+                # refuse to guess even if another literal assignment exists.
                 debounce = None
                 check_debounce = False
 
@@ -252,6 +257,8 @@ def _resolve_debounce_value(
     if target_instr.opname not in (
         "LOAD_FAST",
         "LOAD_FAST_BORROW",
+        # An event that's used by an inner function
+        "LOAD_DEREF",
         # CPython 3.13+ may fuse two ``LOAD_FAST`` instructions into
         # ``LOAD_FAST_LOAD_FAST`` whose argval is ``(value_name, target_name)``.
         # The detector above already covers this case for debounce values,
@@ -273,6 +280,9 @@ def _resolve_debounce_value(
         return arg_defaults.get(val_instr.argval)
 
     if val_instr.opname == "LOAD_DEREF":
-        return closure_by_name.get(val_instr.argval)
+        # Either captured from outside or an argument used by an inner function
+        return closure_by_name.get(
+            val_instr.argval, arg_defaults.get(val_instr.argval)
+        )
 
     return None
-- 
2.43.0


From e895628a28734ed778d77cf219b3edcc46036811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 24/90] fix: don't override the environment variable of an
 option by its parent

---
 src/reactpy/_option.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/_option.py b/src/reactpy/_option.py
index 9e57c22..85a515f 100644
--- a/src/reactpy/_option.py
+++ b/src/reactpy/_option.py
@@ -35,7 +35,12 @@ class Option(Generic[_O]):
             if not (parent.mutable and self.mutable):
                 raise TypeError("Parent and child options must be mutable")
             self._default = parent.default
-            parent.subscribe(self.set_current)
+            if self.is_set():
+                # The environment variable of this option takes precedence over the
+                # initial value of its parent.
+                parent._subscribers.append(self.set_current)
+            else:
+                parent.subscribe(self.set_current)
         elif default is not UNDEFINED:
             self._default = default
         else:
-- 
2.43.0


From e2f1738c4a3b1311f4a602f34c66cfb5e9a458d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 25/90] fix: return the current value if an option is set to
 the default it already has

---
 src/reactpy/_option.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/_option.py b/src/reactpy/_option.py
index 85a515f..49b752d 100644
--- a/src/reactpy/_option.py
+++ b/src/reactpy/_option.py
@@ -121,7 +121,7 @@ class Option(Generic[_O]):
         """
         if not self.is_set():
             self.set_current(new)
-        return self._current
+        return self.current
 
     def reload(self) -> None:
         """Reload this option from its environment variable"""
-- 
2.43.0


From e8a6c59b23f90562e33fb63b9c104f88ce155cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:23 +0000
Subject: [PATCH 26/90] fix: take the path prefix literally when matching
 component websockets

---
 src/reactpy/executors/asgi/middleware.py | 2 +-
 src/reactpy/executors/asgi/pyscript.py   | 2 +-
 src/reactpy/executors/asgi/standalone.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index d6e81a3..86760eb 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -91,7 +91,7 @@ class ReactPyMiddleware:
         self.web_modules_path = f"{self.path_prefix}modules/"
         self.static_path = f"{self.path_prefix}static/"
         self.dispatcher_pattern = re.compile(
-            f"^{self.dispatcher_path}(?P<dotted_path>[a-zA-Z0-9_.]+)/$"
+            rf"^{re.escape(self.dispatcher_path)}(?P<dotted_path>[a-zA-Z0-9_.]+)/\Z"
         )
 
         # User defined ASGI apps
diff --git a/src/reactpy/executors/asgi/pyscript.py b/src/reactpy/executors/asgi/pyscript.py
index 9c7bfcf..de0ceac 100644
--- a/src/reactpy/executors/asgi/pyscript.py
+++ b/src/reactpy/executors/asgi/pyscript.py
@@ -81,7 +81,7 @@ class ReactPyCsr(ReactPy):
         self.root_name = root_name
         self.initial = initial
         self.extra_headers = http_headers or {}
-        self.dispatcher_pattern = re.compile(f"^{self.dispatcher_path}?")
+        self.dispatcher_pattern = re.compile(f"^{re.escape(self.dispatcher_path)}?")
         self.html_head = html_head or html.head()
         if prepend_body is not ...:
             self.prepend_body = prepend_body
diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index e962707..ab4451b 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -71,7 +71,7 @@ class ReactPy(ReactPyMiddleware):
         super().__init__(app=ReactPyApp(self), root_components=[], **settings)
         self.root_component = root_component
         self.extra_headers = http_headers or {}
-        self.dispatcher_pattern = re.compile(f"^{self.dispatcher_path}?")
+        self.dispatcher_pattern = re.compile(f"^{re.escape(self.dispatcher_path)}?")
         self.html_head = html_head or html.head()
         if prepend_body is not ...:
             self.prepend_body = prepend_body
-- 
2.43.0


From a9fadb8a1ffbe8c7bab303fbd6a4eeb33a78ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:23 +0000
Subject: [PATCH 27/90] fix: match routes with alternatives against the whole
 path

---
 src/reactpy/executors/asgi/standalone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index ab4451b..90454e1 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -111,7 +111,8 @@ class ReactPy(ReactPyMiddleware):
             (
                 app
                 for route, app in routing_dictionary
-                if re.match(route, scope["path"])
+                # Patterns may have alternatives, ex. `/home|/index`
+                if re.fullmatch(route, scope["path"])
             ),
             None,
         )
-- 
2.43.0


From 83ec9587af17c84fca10f7a078a60836a4eacba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 28/90] fix: write settings as JavaScript literals in the mount
 script and import map

---
 src/reactpy/executors/utils.py | 36 ++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/reactpy/executors/utils.py b/src/reactpy/executors/utils.py
index 291674a..ab8341f 100644
--- a/src/reactpy/executors/utils.py
+++ b/src/reactpy/executors/utils.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import json
 import logging
 from collections.abc import Iterable
 from typing import Any
@@ -62,6 +63,7 @@ def process_settings(settings: ReactPyConfig) -> None:
 def server_side_component_html(
     element_id: str, class_: str, component_path: str
 ) -> str:
+    index_js = f"{REACTPY_PATH_PREFIX.current}static/index.js"
     return (
         f'<div id="{element_id}" class="{class_}"></div>'
         "<script>"
@@ -71,18 +73,18 @@ def server_side_component_html(
         "   );"
         '   const im = document.createElement("script");'
         '   im.type = "importmap";'
-        f"  im.textContent = '{default_import_map()}';"
+        f"  im.textContent = {_to_javascript(default_import_map())};"
         '   im.id = "reactpy-importmap";'
         "   document.head.appendChild(im);"
         "   delete im;"
         "}"
         "</script>"
         '<script type="module" crossorigin="anonymous">'
-        f'import {{ mountReactPy }} from "{REACTPY_PATH_PREFIX.current}static/index.js";'
+        f"import {{ mountReactPy }} from {_to_javascript(index_js)};"
         "mountReactPy({"
         f'  mountElement: document.getElementById("{element_id}"),'
-        f'  pathPrefix: "{REACTPY_PATH_PREFIX.current}",'
-        f'  componentPath: "{component_path}",'
+        f"  pathPrefix: {_to_javascript(REACTPY_PATH_PREFIX.current)},"
+        f"  componentPath: {_to_javascript(component_path)},"
         f"  reconnectInterval: {REACTPY_RECONNECT_INTERVAL.current},"
         f"  reconnectMaxInterval: {REACTPY_RECONNECT_MAX_INTERVAL.current},"
         f"  reconnectMaxRetries: {REACTPY_RECONNECT_MAX_RETRIES.current},"
@@ -93,12 +95,20 @@ def server_side_component_html(
 
 
 def default_import_map() -> str:
-    path_prefix = REACTPY_PATH_PREFIX.current.strip("/")
-    return f"""{{
-                "imports": {{
-                    "react": "/{path_prefix}/static/preact.js",
-                    "react-dom": "/{path_prefix}/static/preact-dom.js",
-                    "react-dom/client": "/{path_prefix}/static/preact-dom.js",
-                    "react/jsx-runtime": "/{path_prefix}/static/preact-jsx-runtime.js"
-                }}
-            }}""".replace("\n", "").replace(" ", "")
+    static_path = f"{REACTPY_PATH_PREFIX.current}static/"
+    return json.dumps(
+        {
+            "imports": {
+                "react": f"{static_path}preact.js",
+                "react-dom": f"{static_path}preact-dom.js",
+                "react-dom/client": f"{static_path}preact-dom.js",
+                "react/jsx-runtime": f"{static_path}preact-jsx-runtime.js",
+            }
+        },
+        separators=(",", ":"),
+    )
+
+
+def _to_javascript(value: str) -> str:
+    """Convert a string to a literal that's safe within an inline script"""
+    return json.dumps(value).replace("<", "\\u003c")
-- 
2.43.0


From a6d5e44705c0a102a5508b59db00b8765f8e97c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 29/90] fix: content-length in bytes, case-insensitive extra
 headers, If-None-Match precedence

---
 src/reactpy/executors/asgi/standalone.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index 90454e1..c22c3ba 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -216,9 +216,10 @@ class ReactPyApp:
             "last-modified": self._last_modified,
             "access-control-allow-origin": "*",
             "cache-control": "max-age=60, public",
-            "content-length": str(len(self._index_html)),
+            "content-length": str(len(self._index_html.encode())),
             "content-type": "text/html; charset=utf-8",
-            **self.parent.extra_headers,
+            # Header names are case insensitive
+            **{k.lower(): v for k, v in self.parent.extra_headers.items()},
         }
 
         # Browser is asking for the headers
@@ -226,11 +227,16 @@ class ReactPyApp:
             response = ResponseHTML("", headers=response_headers)
             return await response(scope, receive, send)  # type: ignore
 
-        # Browser already has the content cached
-        if (
-            request_headers.get(b"if-none-match") == self._etag.encode()
-            or request_headers.get(b"if-modified-since") == self._last_modified.encode()
-        ):
+        # Browser already has the content cached. The modification date is only relevant
+        # if the browser doesn't know which content it has.
+        if b"if-none-match" in request_headers:
+            is_cached = request_headers[b"if-none-match"] == self._etag.encode()
+        else:
+            is_cached = (
+                request_headers.get(b"if-modified-since")
+                == self._last_modified.encode()
+            )
+        if is_cached:
             response_headers.pop("content-length")
             response = ResponseHTML("", headers=response_headers, status_code=304)
             return await response(scope, receive, send)  # type: ignore
-- 
2.43.0


From 50a0b40b806fdd37134f4c6ef5e5501918c3b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 30/90] fix: accept a websocket before rendering, so that a
 refused one leaves no session behind

---
 src/reactpy/executors/asgi/middleware.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index 86760eb..b3e14fd 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -201,8 +201,11 @@ class ReactPyWebsocket(ResponseWebSocket):
         self.dispatcher: asyncio.Task[Any] | None = None
 
     async def __aenter__(self) -> ReactPyWebsocket:
+        # Nothing may be sent before the connection was accepted, and nothing needs to be
+        # rendered if it never is.
+        await super().__aenter__()
         self.dispatcher = asyncio.create_task(self.run_dispatcher())
-        return await super().__aenter__()  # type: ignore
+        return self
 
     async def __aexit__(self, *_: Any) -> None:
         if self.dispatcher:
-- 
2.43.0


From a1a71a76010ccf4bf0c97eebb0f142e7a3d9c0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 31/90] fix: let a session finish its clean-up before its
 websocket is closed

---
 src/reactpy/executors/asgi/middleware.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index b3e14fd..4027ff5 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -210,6 +210,8 @@ class ReactPyWebsocket(ResponseWebSocket):
     async def __aexit__(self, *_: Any) -> None:
         if self.dispatcher:
             self.dispatcher.cancel()
+            # Nothing may be sent after the connection was closed
+            await asyncio.wait([self.dispatcher])
         await super().__aexit__()  # type: ignore
 
     async def run_dispatcher(self) -> None:
-- 
2.43.0


From 86b140a304399d021baa68f758f04596f6258ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 32/90] fix: notice the end of a connection whose session has
 already stopped

---
 src/reactpy/executors/asgi/middleware.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index 4027ff5..094165e 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -173,7 +173,7 @@ class ComponentDispatchApp:
                 if event["type"] == "websocket.receive":
                     msg: dict[str, str] = orjson.loads(event["text"])
                     if msg.get("type") == "layout-event":
-                        await ws.rendering_queue.put(msg)
+                        await ws.queue_event(msg)
                     else:  # nocov
                         await asyncio.to_thread(
                             _logger.warning, f"Unknown message type: {msg.get('type')}"
@@ -252,6 +252,16 @@ class ReactPyWebsocket(ResponseWebSocket):
         # Manually log exceptions since this function is running in a separate asyncio task.
         except Exception as error:
             await asyncio.to_thread(_logger.error, f"{error}\n{traceback.format_exc()}")
+        finally:
+            # Nobody handles the remaining events, so make sure that nobody is left waiting
+            # for space within the queue.
+            while not self.rendering_queue.empty():
+                self.rendering_queue.get_nowait()
+
+    async def queue_event(self, event: dict[str, str]) -> None:
+        """Hands an event over to the dispatcher, unless it has already stopped."""
+        if self.dispatcher and not self.dispatcher.done():
+            await self.rendering_queue.put(event)
 
     async def send_json(self, data: Any) -> None:
         return await self._send(
-- 
2.43.0


From e3ba073b297a372474c2f348eec238e859819d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:38 +0000
Subject: [PATCH 33/90] fix: find exports that span lines, are minified or
 declared with var / async / generators

---
 src/reactpy/reactjs/utils.py | 118 +++++++++++++++++++++++------------
 1 file changed, 79 insertions(+), 39 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index aee317b..9fec919 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -82,45 +82,41 @@ def resolve_names_from_source(
     all_names: set[str] = set()
     references: set[str] = set()
 
-    if _JS_DEFAULT_EXPORT_PATTERN.search(content):
-        all_names.add("default")
-
-    # Exporting functions and classes
-    all_names.update(_JS_FUNC_OR_CLS_EXPORT_PATTERN.findall(content))
-
-    for name in _JS_GENERAL_EXPORT_PATTERN.findall(content):
-        name = name.rstrip(";").strip()
-        # Exporting individual features
-        if name.startswith("let "):
-            all_names.update(let.split("=", 1)[0] for let in name[4:].split(","))
-        # Renaming exports and export list
-        elif name.startswith("{") and name.endswith("}"):
-            all_names.update(
-                item.split(" as ", 1)[-1] for item in name.strip("{}").split(",")
-            )
-        # Exporting destructured assignments with renaming
-        elif name.startswith("const "):
-            all_names.update(
-                item.split(":", 1)[0]
-                for item in name[6:].split("=", 1)[0].strip("{}").split(",")
-            )
+    for export in _JS_EXPORT_PATTERN.finditer(content):
+        start = export.end()
+        # Exporting functions and classes
+        if match := _JS_FUNC_OR_CLS_PATTERN.match(content, start):
+            all_names.add(match[1])
         # Default exports
-        elif name.startswith("default "):
+        elif _JS_DEFAULT_PATTERN.match(content, start):
             all_names.add("default")
-        # Aggregating modules
-        elif name.startswith("* as "):
-            all_names.add(name[5:].split(" from ", 1)[0])
-        elif name.startswith("* "):
-            references.add(name[2:].split("from ", 1)[-1].strip("'\""))
-        elif name.startswith("{") and " from " in name:
+        # Exporting individual features
+        elif match := _JS_VARIABLES_PATTERN.match(content, start):
+            for item in _split_declarations(content, match.end()):
+                # Exporting destructured assignments with renaming
+                if destructured := _JS_DESTRUCTURED_PATTERN.match(item):
+                    all_names.update(
+                        re.split("[:=]", name, maxsplit=1)[0].replace("...", "")
+                        for name in destructured[1].split(",")
+                    )
+                elif declared := _JS_DECLARATION_PATTERN.match(item):
+                    all_names.add(declared[1])
+        # Renaming exports, export lists and aggregating modules
+        elif match := _JS_LIST_PATTERN.match(content, start):
             all_names.update(
-                item.split(" as ", 1)[-1]
-                for item in name.split(" from ")[0].strip("{}").split(",")
+                re.split(r"\sas\s", item)[-1].strip().strip("'\"")
+                for item in _JS_COMMENT_PATTERN.sub("", match[1]).split(",")
             )
-        elif not (name.startswith("function ") or name.startswith("class ")):
+        elif match := _JS_STAR_PATTERN.match(content, start):
+            if match[1]:
+                all_names.add(match[1])
+            else:
+                references.add(match[3])
+        else:
+            name = content[start:].split("\n", 1)[0].split(";", 1)[0]
             logger.warning(f"Found unknown export type {name!r}")
 
-    all_names = {n.strip() for n in all_names}
+    all_names = {n.strip() for n in all_names} - {""}
     references = {r.strip() for r in references}
 
     if exclude_default and "default" in all_names:
@@ -129,6 +125,38 @@ def resolve_names_from_source(
     return all_names, references
 
 
+def _split_declarations(content: str, start: int) -> list[str]:
+    """Get the declarations at this position of the content, ex. ``a = [1, 2], b;``"""
+    declarations: list[str] = []
+    current = ""
+    depth = 0
+
+    for match in _JS_TOKEN_PATTERN.finditer(content, start):
+        token = match[0]
+        if token.startswith(("//", "/*")):
+            continue
+        if depth == 0 and token == ",":
+            declarations.append(current.strip())
+            current = ""
+            continue
+        if depth == 0 and (
+            token == ";"
+            # The statement only continues if it is incomplete
+            or (token == "\n" and current.strip() and not current.rstrip().endswith("="))
+        ):
+            break
+        if token in "([{":
+            depth += 1
+        elif token in ")]}":
+            depth -= 1
+            if depth < 0:
+                break
+        current += token
+
+    declarations.append(current.strip())
+    return declarations
+
+
 def normalize_url_path(base_url: str, rel_url: str) -> str:
     if not rel_url.startswith("."):
         if rel_url.startswith("/"):
@@ -188,14 +216,26 @@ def copy_file(target: Path, source: Path, symlink: bool) -> None:
                 temp_target.rename(target)
 
 
-_JS_DEFAULT_EXPORT_PATTERN = re.compile(
-    r";?\s*export\s+default\s",
+_JS_NAME = r"[^\W\d][\w$]*|\$[\w$]*"
+_JS_EXPORT_PATTERN = re.compile(
+    r"(?:^|[;}]|\*/)\s*export(?=[\s{*])\s*",
+    re.MULTILINE,
+)
+_JS_DEFAULT_PATTERN = re.compile(r"default(?![\w$])")
+_JS_FUNC_OR_CLS_PATTERN = re.compile(
+    rf"(?:(?:async\s+)?function\s*(?:\*\s*|\s)|class\s)\s*({_JS_NAME})"
 )
-_JS_FUNC_OR_CLS_EXPORT_PATTERN = re.compile(
-    r";?\s*export\s+(?:function|class)\s+([a-zA-Z_$][0-9a-zA-Z_$]*)"
+_JS_VARIABLES_PATTERN = re.compile(r"(?:let|const|var)(?=[\s{\[])")
+_JS_DECLARATION_PATTERN = re.compile(rf"({_JS_NAME})\s*(?:=|$)")
+_JS_DESTRUCTURED_PATTERN = re.compile(r"[{\[]([^}\]]*)")
+_JS_LIST_PATTERN = re.compile(r"{([^}]*)}")
+_JS_STAR_PATTERN = re.compile(
+    rf"\*\s*(?:as\s+({_JS_NAME})\s+)?from\s*([\"'])(.*?)\2"
 )
-_JS_GENERAL_EXPORT_PATTERN = re.compile(
-    r"(?:^|;|})\s*export(?=\s+|{)(.*?)(?=;|$)", re.MULTILINE
+_JS_COMMENT_PATTERN = re.compile(r"//[^\n]*|/\*.*?\*/", re.DOTALL)
+_JS_TOKEN_PATTERN = re.compile(
+    r"""//[^\n]*|/\*.*?\*/|'(?:\\.|[^'\\\n])*'|"(?:\\.|[^"\\\n])*"|`(?:\\.|[^`\\])*`|.""",
+    re.DOTALL,
 )
 
 
-- 
2.43.0


From f725b59281f6fa701e359320938d496a94f239d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:38 +0000
Subject: [PATCH 34/90] fix: resolve re-exports of a URL module relative to
 that module, and survive those that cannot be fetched

---
 src/reactpy/reactjs/utils.py | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 9fec919..9ad6ed9 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -6,7 +6,7 @@ import shutil
 import time
 from contextlib import contextmanager, suppress
 from pathlib import Path
-from urllib.parse import urlparse, urlunparse
+from urllib.parse import urljoin, urlparse
 
 import requests
 
@@ -54,16 +54,17 @@ def resolve_names_from_url(
 
     try:
         text = requests.get(url, timeout=5).text
-    except requests.exceptions.ConnectionError as error:
-        reason = "" if error is None else " - {error.errno}"
-        logger.warning(f"Did not resolve imports for url {url} {reason}")
+    except requests.exceptions.RequestException as error:
+        logger.warning(f"Did not resolve imports for url {url} - {error}")
         return set()
 
     names, references = resolve_names_from_source(text, exclude_default=is_regex_import)
 
     for ref in references:
-        url = normalize_url_path(url, ref)
-        names.update(resolve_names_from_url(url, max_depth - 1, is_regex_import=True))
+        ref_url = normalize_url_path(url, ref)
+        names.update(
+            resolve_names_from_url(ref_url, max_depth - 1, is_regex_import=True)
+        )
 
     return names
 
@@ -158,23 +159,10 @@ def _split_declarations(content: str, start: int) -> list[str]:
 
 
 def normalize_url_path(base_url: str, rel_url: str) -> str:
-    if not rel_url.startswith("."):
-        if rel_url.startswith("/"):
-            # copy scheme and hostname from base_url
-            return urlunparse(urlparse(base_url)[:2] + urlparse(rel_url)[2:])
-        else:
-            return rel_url
-
-    base_url = base_url.rsplit("/", 1)[0]
-
-    if rel_url.startswith("./"):
-        return base_url + rel_url[1:]
-
-    while rel_url.startswith("../"):
-        base_url = base_url.rsplit("/", 1)[0]
-        rel_url = rel_url[3:]
-
-    return f"{base_url}/{rel_url}"
+    # Anything else is either an absolute URL or the name of a package
+    if rel_url.startswith((".", "/")):
+        return urljoin(base_url, rel_url)
+    return rel_url
 
 
 def are_files_identical(f1: Path, f2: Path) -> bool:
-- 
2.43.0


From 0f118eaa0b866eb26abd06487263513d450b594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 35/90] fix: create modules atomically under a lock, also with
 nested names and in place of dangling links

---
 src/reactpy/reactjs/module.py | 21 +++++++++++++--------
 src/reactpy/reactjs/utils.py  |  4 ++--
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/reactpy/reactjs/module.py b/src/reactpy/reactjs/module.py
index 337b1ec..16af6eb 100644
--- a/src/reactpy/reactjs/module.py
+++ b/src/reactpy/reactjs/module.py
@@ -53,6 +53,7 @@ def file_to_module(
 
     source_file = Path(file).resolve()
     target_file = get_module_path(name)
+    target_file.parent.mkdir(parents=True, exist_ok=True)
 
     with file_lock(target_file.with_name(f"{target_file.name}.lock")):
         if not source_file.exists():
@@ -94,15 +95,19 @@ def string_to_module(
 
     target_file = get_module_path(name)
 
-    if target_file.exists() and target_file.read_text(encoding="utf-8") != content:
-        logger.info(
-            f"Existing web module {name!r} will "
-            f"be replaced with {target_file.resolve()}"
-        )
-        target_file.unlink()
-
     target_file.parent.mkdir(parents=True, exist_ok=True)
-    target_file.write_text(content)
+
+    with file_lock(target_file.with_name(f"{target_file.name}.lock")):
+        if target_file.exists() and target_file.read_bytes() != content.encode():
+            logger.info(
+                f"Existing web module {name!r} will "
+                f"be replaced with {target_file.resolve()}"
+            )
+
+        # Others may be reading this module right now
+        temp_file = target_file.with_suffix(f"{target_file.suffix}.tmp")
+        temp_file.write_bytes(content.encode())
+        temp_file.replace(target_file)
 
     return JavaScriptModule(
         source=name,
diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 9ad6ed9..910af00 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -176,8 +176,8 @@ def are_files_identical(f1: Path, f2: Path) -> bool:
 def copy_file(target: Path, source: Path, symlink: bool) -> None:
     target.parent.mkdir(parents=True, exist_ok=True)
     if symlink:
-        if target.exists():
-            target.unlink()
+        # The target could also be a link whose source no longer exists
+        target.unlink(missing_ok=True)
         try:
             target.symlink_to(source)
         except OSError as error:
-- 
2.43.0


From 154faa49774bcf6fc82a1873667bded80aba0447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:05 +0000
Subject: [PATCH 36/90] fix: modules keep their own fallback and content when a
 name or URL is used again

---
 src/reactpy/reactjs/__init__.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/reactpy/reactjs/__init__.py b/src/reactpy/reactjs/__init__.py
index d394757..881f3aa 100644
--- a/src/reactpy/reactjs/__init__.py
+++ b/src/reactpy/reactjs/__init__.py
@@ -94,7 +94,6 @@ def component_from_url(
     else:
         module = url_to_module(
             url,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
@@ -269,14 +268,13 @@ def component_from_file(
             Whether or not these components can have children.
     """
     name = name or hashlib.sha256(str(file).encode()).hexdigest()[:10]
-    key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
-    if key in _FILE_JS_MODULE_CACHE:
-        module = _FILE_JS_MODULE_CACHE[key]
-    else:
+    content = Path(file).read_bytes()
+    key = f"{name}{hashlib.sha256(content).hexdigest()}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
+    module = _FILE_JS_MODULE_CACHE.get(key)
+    if module is None or not _is_served(module, content):
         module = file_to_module(
             name,
             file,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
@@ -347,18 +345,26 @@ def component_from_string(
         allow_children:
             Whether or not these components can have children.
     """
-    name = name or hashlib.sha256(content.encode()).hexdigest()[:10]
-    key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
-    if key in _STRING_JS_MODULE_CACHE:
-        module = _STRING_JS_MODULE_CACHE[key]
-    else:
+    content_hash = hashlib.sha256(content.encode()).hexdigest()
+    name = name or content_hash[:10]
+    key = f"{name}{content_hash}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
+    module = _STRING_JS_MODULE_CACHE.get(key)
+    if module is None or not _is_served(module, content.encode()):
         module = string_to_module(
             name,
             content,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
         )
         _STRING_JS_MODULE_CACHE[key] = module
     return module_to_vdom(module, import_names, fallback, allow_children)
+
+
+def _is_served(module: JavaScriptModule, content: bytes) -> bool:
+    """Whether the module's name has not been used for any other content since"""
+    return (
+        module.file is not None
+        and module.file.exists()
+        and module.file.read_bytes() == content
+    )
-- 
2.43.0


From 45633a69e2df7cc7715331b68af1f1e64a90b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 37/90] fix: codemods rewrite only the calls they change

Whole statements were unparsed and re-indented, which broke elif branches,
bodies on the line of their header, tabs, lines with non-ASCII text, f-strings
and all but the first of several calls in one line, and duplicated comments.
---
 src/reactpy/_console/ast_utils.py | 126 ++++++++++++++++--------------
 1 file changed, 66 insertions(+), 60 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index c0ce6b2..709efe2 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -2,10 +2,12 @@
 from __future__ import annotations
 
 import ast
+import re
 from collections.abc import Iterator, Sequence
 from dataclasses import dataclass
+from io import StringIO
+from itertools import accumulate
 from pathlib import Path
-from textwrap import indent
 from tokenize import COMMENT as COMMENT_TOKEN
 from tokenize import generate_tokens
 from typing import Any
@@ -23,69 +25,68 @@ def rewrite_changed_nodes(
 ) -> str:
     ast.fix_missing_locations(tree)
 
-    lines = source.split("\n")
+    lines = _LINE_PATTERN.findall(source)
+    line_offsets = list(accumulate(map(len, lines), initial=0))
 
-    # find closest parent nodes that should be re-written
-    nodes_to_unparse: list[ast.AST] = []
+    def find_offset(lineno: int, col_offset: int) -> int:
+        # The AST counts columns in bytes
+        before = lines[lineno - 1].encode()[:col_offset]
+        return line_offsets[lineno - 1] + len(before.decode())
+
+    # find the positions of the nodes that should be re-written
+    nodes_to_unparse: list[tuple[int, int, ast.AST]] = []
     for change in changed:
-        node_lineage = [change.node, *change.parents]
-        for i in range(len(node_lineage) - 1):
-            current_node, next_node = node_lineage[i : i + 2]
-            if (
-                not hasattr(next_node, "lineno")
-                or next_node.lineno < change.node.lineno
-                or isinstance(next_node, (ast.ClassDef, ast.FunctionDef))
-            ):
-                nodes_to_unparse.append(current_node)
-                break
-        else:  # nocov
-            msg = "Failed to change code"
-            raise RuntimeError(msg)
-
-    # check if an nodes to rewrite contain each other, pick outermost nodes
-    current_outermost_node, *sorted_nodes_to_unparse = sorted(
-        nodes_to_unparse, key=lambda n: n.lineno
-    )
-    outermost_nodes_to_unparse = [current_outermost_node]
-    for node in sorted_nodes_to_unparse:
-        if (
-            not current_outermost_node.end_lineno
-            or node.lineno > current_outermost_node.end_lineno
-        ):
-            current_outermost_node = node
-            outermost_nodes_to_unparse.append(node)
+        node = change.node
+        # f-strings can only be rewritten as a whole
+        for parent in change.parents:
+            if isinstance(parent, ast.JoinedStr):
+                node = parent
+        start = find_offset(node.lineno, node.col_offset)
+        end = find_offset(node.end_lineno, node.end_col_offset)
+        nodes_to_unparse.append((start, end, node))
+
+    # lines that start within a string, or continue the one before
+    continued_lines = {
+        lineno + 1
+        for lineno, line in enumerate(lines, start=1)
+        if line.rstrip("\r\n").endswith("\\")
+    }
+    for node in ast.walk(tree):
+        if isinstance(node, (ast.Constant, ast.JoinedStr)):
+            continued_lines.update(range(node.lineno + 1, node.end_lineno + 1))
+
+    edits: list[tuple[int, int, str]] = []
+    last_end = 0
+    # if any nodes to rewrite contain each other, pick outermost nodes
+    for start, end, node in sorted(nodes_to_unparse, key=lambda n: (n[0], -n[1])):
+        if start < last_end:
+            continue
+        last_end = end
+        edits.append((start, end, ast.unparse(node)))
 
-    moved_comment_lines_from_end: list[int] = []
-    # now actually rewrite these nodes (in reverse to avoid changes earlier in file)
-    for node in reversed(outermost_nodes_to_unparse):
         # make a best effort to preserve any comments that we're going to overwrite
-        comments = _find_comments(lines[node.lineno - 1 : node.end_lineno])
-
-        # there may be some content just before and after the content we're re-writing
-        before_replacement = lines[node.lineno - 1][: node.col_offset].lstrip()
-
-        after_replacement = (
-            lines[node.end_lineno - 1][node.end_col_offset :].strip()
-            if node.end_lineno is not None and node.end_col_offset is not None
-            else ""
-        )
-
-        replacement = indent(
-            before_replacement
-            + "\n".join([*comments, ast.unparse(node)])
-            + after_replacement,
-            " " * (node.col_offset - len(before_replacement)),
+        lineno = node.lineno
+        while lineno in continued_lines:
+            lineno -= 1
+        line = lines[lineno - 1]
+        indentation = line[: len(line) - len(line.lstrip(" \t\f"))]
+        newline = line[len(line.rstrip("\r\n")) :] or "\n"
+        comments = "".join(
+            f"{indentation}{comment}{newline}"
+            for comment in _find_comments(source[start:end])
         )
-
-        lines[node.lineno - 1 : node.end_lineno or node.lineno] = [replacement]
-
         if comments:
-            moved_comment_lines_from_end.append(len(lines) - node.lineno)
+            edits.append((line_offsets[lineno - 1], line_offsets[lineno - 1], comments))
 
-    for lineno_from_end in sorted(set(moved_comment_lines_from_end)):
-        click.echo(f"Moved comments to {file}:{len(lines) - lineno_from_end}")
-
-    return "\n".join(lines)
+    result = ""
+    position = 0
+    for start, end, text in sorted(edits, key=lambda e: e[:2]):
+        result += source[position:start]
+        if start == end:
+            click.echo(f"Moved comments to {file}:{len(_LINE_PATTERN.findall(result))}")
+        result += text
+        position = end
+    return result + source[position:]
 
 
 @dataclass
@@ -169,11 +170,12 @@ class ElementConstructorInfo:
     parents: Sequence[ast.AST]
 
 
-def _find_comments(lines: list[str]) -> list[str]:
-    iter_lines = iter(lines)
+def _find_comments(source: str) -> list[str]:
+    # Within parentheses the indentation is irrelevant
+    lines = StringIO(f"({source}\n)")
     return [
         token
-        for token_type, token, _, _, _ in generate_tokens(lambda: next(iter_lines))
+        for token_type, token, _, _, _ in generate_tokens(lines.readline)
         if token_type == COMMENT_TOKEN
     ]
 
@@ -185,3 +187,7 @@ def _walk_with_parent(
     for child in ast.iter_child_nodes(node):
         yield parents, child
         yield from _walk_with_parent(child, parents)
+
+
+# Other than `str.splitlines` this only knows the line endings of Python code
+_LINE_PATTERN = re.compile(r"[^\r\n]*(?:\r\n|\r|\n|$)")
-- 
2.43.0


From 97e57c56205d0c45747c1a71491bc9df3f3f3008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 38/90] fix: codemods leave calls that are no elements, and
 what they cannot rewrite, alone

Any bare function was taken for an element, elements without a key got an empty
dictionary, keyword arguments of any call given as the style were renamed, and
dict(class_=...) became invalid.
---
 src/reactpy/_console/ast_utils.py     | 39 ++++++++++++++++++---------
 src/reactpy/_console/rewrite_keys.py  |  6 +++--
 src/reactpy/_console/rewrite_props.py | 15 ++++++++---
 3 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index 709efe2..c97028a 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -14,7 +14,12 @@ from typing import Any
 
 import click
 
-from reactpy import html
+from reactpy._html import HtmlConstructor
+
+# Attribute access on `html` creates an element of any name
+ELEMENT_NAMES = {
+    name for name in HtmlConstructor.__annotations__ if not name.startswith("__")
+}
 
 
 def rewrite_changed_nodes(
@@ -109,40 +114,44 @@ def find_element_constructor_usages(
             or (isinstance(func.value, ast.Attribute) and func.value.attr == "html")
         ):
             name = func.attr
+            is_element = True
         elif isinstance(func, ast.Name):
             name = func.id
+            is_element = name in ELEMENT_NAMES
         else:
             continue
 
+        # Elements that do not need any props are left as they are
+        add_missing_props = add_props and any(kw.arg == "key" for kw in node.keywords)
         maybe_attr_dict_node: Any | None = None
 
         if name == "vdom":
-            if len(node.args) == 0:
+            if len(node.args) == 0 or isinstance(node.args[0], ast.Starred):
                 continue
             elif len(node.args) == 1:
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_missing_props:
                     node.args.append(maybe_attr_dict_node)
                 else:
                     continue
             elif isinstance(node.args[1], (ast.Constant, ast.JoinedStr)):
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_missing_props:
                     node.args.insert(1, maybe_attr_dict_node)
                 else:
                     continue
             elif len(node.args) >= 2:  # noqa: PLR2004
                 maybe_attr_dict_node = node.args[1]
-        elif hasattr(html, name):
+        elif is_element:
             if len(node.args) == 0:
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_missing_props:
                     node.args.append(maybe_attr_dict_node)
                 else:
                     continue
             elif isinstance(node.args[0], (ast.Constant, ast.JoinedStr)):
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_missing_props:
                     node.args.insert(0, maybe_attr_dict_node)
                 else:
                     continue
@@ -152,17 +161,21 @@ def find_element_constructor_usages(
         if not maybe_attr_dict_node:
             continue
 
-        if isinstance(maybe_attr_dict_node, ast.Dict) or (
-            isinstance(maybe_attr_dict_node, ast.Call)
-            and isinstance(maybe_attr_dict_node.func, ast.Name)
-            and maybe_attr_dict_node.func.id == "dict"
-            and isinstance(maybe_attr_dict_node.func.ctx, ast.Load)
-        ):
+        if is_dict(maybe_attr_dict_node):
             yield ElementConstructorInfo(node, maybe_attr_dict_node, parents)
 
     return changed
 
 
+def is_dict(node: ast.AST) -> bool:
+    """Whether this is a dictionary, ex. ``{"a": 1}`` or ``dict(a=1)``"""
+    return isinstance(node, ast.Dict) or (
+        isinstance(node, ast.Call)
+        and isinstance(node.func, ast.Name)
+        and node.func.id == "dict"
+    )
+
+
 @dataclass
 class ElementConstructorInfo:
     call: ast.Call
diff --git a/src/reactpy/_console/rewrite_keys.py b/src/reactpy/_console/rewrite_keys.py
index e5ae207..9cf21ef 100644
--- a/src/reactpy/_console/rewrite_keys.py
+++ b/src/reactpy/_console/rewrite_keys.py
@@ -5,8 +5,8 @@ from pathlib import Path
 
 import click
 
-from reactpy import html
 from reactpy._console.ast_utils import (
+    ELEMENT_NAMES,
     ChangedNode,
     find_element_constructor_usages,
     rewrite_changed_nodes,
@@ -78,6 +78,8 @@ def find_nodes_to_change(tree: ast.AST) -> list[ChangedNode]:
         if isinstance(el_info.props, ast.Dict):
             el_info.props.keys.append(ast.Constant("key"))
             el_info.props.values.append(kw.value)
+        elif any(prop.arg == "key" for prop in el_info.props.keywords):
+            continue
         else:
             el_info.props.keywords.append(ast.keyword(arg="key", value=kw.value))
 
@@ -101,6 +103,6 @@ def log_could_not_rewrite(file: Path, tree: ast.AST) -> None:
             continue
 
         if name == "vdom" or (
-            hasattr(html, name) and any(kw.arg == "key" for kw in node.keywords)
+            name in ELEMENT_NAMES and any(kw.arg == "key" for kw in node.keywords)
         ):
             click.echo(f"Unable to rewrite usage at {file}:{node.lineno}")
diff --git a/src/reactpy/_console/rewrite_props.py b/src/reactpy/_console/rewrite_props.py
index e66b387..b693f87 100644
--- a/src/reactpy/_console/rewrite_props.py
+++ b/src/reactpy/_console/rewrite_props.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import ast
 from collections.abc import Callable
 from copy import copy
-from keyword import kwlist
+from keyword import iskeyword, kwlist
 from pathlib import Path
 
 import click
@@ -11,6 +11,7 @@ import click
 from reactpy._console.ast_utils import (
     ChangedNode,
     find_element_constructor_usages,
+    is_dict,
     rewrite_changed_nodes,
 )
 
@@ -72,7 +73,7 @@ def conv_attr_name(name: str) -> str:
 
 def _construct_prop_item(key: str, value: ast.expr) -> tuple[str, ast.expr]:
     """Construct a new prop item with the converted key and possibly modified value"""
-    if key == "style" and isinstance(value, (ast.Dict, ast.Call)):
+    if key == "style" and is_dict(value):
         # Create a copy of the value to avoid modifying the original
         new_value = copy(value)
         if _rewrite_props(
@@ -120,10 +121,18 @@ def _rewrite_props(
         did_change = False
         keywords: list[ast.keyword] = []
         # Iterate over the keywords in the call
-        for kw in props_node.keywords:
+        for index, kw in enumerate(props_node.keywords, start=1):
+            rest = props_node.keywords[index:]
             if kw.arg is not None:
                 # Construct the new keyword argument and value
                 kw_arg, kw_value = constructor(kw.arg, kw.value)
+                # Not every prop can be a keyword argument, ex. `dict(class=...)`
+                if (
+                    not kw_arg.isidentifier()
+                    or iskeyword(kw_arg)
+                    or any(kw_arg == other.arg for other in [*keywords, *rest])
+                ):
+                    kw_arg = kw.arg
                 if kw_arg != kw.arg or kw_value is not kw.value:
                     did_change = True
                 kw = ast.keyword(arg=kw_arg, value=kw_value)
-- 
2.43.0


From e4a2afbeddad693f6a03e5b3dcfbf23be5d3d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:43 +0000
Subject: [PATCH 39/90] fix: codemods keep line endings and encodings, and skip
 directories named like files

---
 src/reactpy/_console/ast_utils.py     | 20 ++++++++++++++++++--
 src/reactpy/_console/rewrite_keys.py  | 12 +++++++-----
 src/reactpy/_console/rewrite_props.py | 13 +++++++------
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index c97028a..d4484fc 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -5,11 +5,11 @@ import ast
 import re
 from collections.abc import Iterator, Sequence
 from dataclasses import dataclass
-from io import StringIO
+from io import BytesIO, StringIO
 from itertools import accumulate
 from pathlib import Path
 from tokenize import COMMENT as COMMENT_TOKEN
-from tokenize import generate_tokens
+from tokenize import detect_encoding, generate_tokens
 from typing import Any
 
 import click
@@ -22,6 +22,22 @@ ELEMENT_NAMES = {
 }
 
 
+def find_python_files(paths: Sequence[str]) -> Iterator[Path]:
+    """Find the given files, and all Python files within the given directories"""
+    for path in map(Path, paths):
+        if path.is_file():
+            yield path
+        else:
+            yield from (p for p in sorted(path.rglob("*.py")) if p.is_file())
+
+
+def read_source(file: Path) -> tuple[str, str]:
+    """Read Python code, without altering its line endings, and find its encoding"""
+    content = file.read_bytes()
+    encoding, _ = detect_encoding(BytesIO(content).readline)
+    return content.decode(encoding), encoding
+
+
 def rewrite_changed_nodes(
     file: Path,
     source: str,
diff --git a/src/reactpy/_console/rewrite_keys.py b/src/reactpy/_console/rewrite_keys.py
index 9cf21ef..1ec8b2e 100644
--- a/src/reactpy/_console/rewrite_keys.py
+++ b/src/reactpy/_console/rewrite_keys.py
@@ -9,6 +9,8 @@ from reactpy._console.ast_utils import (
     ELEMENT_NAMES,
     ChangedNode,
     find_element_constructor_usages,
+    find_python_files,
+    read_source,
     rewrite_changed_nodes,
 )
 
@@ -45,11 +47,11 @@ def rewrite_keys(paths: list[str]) -> None:
     comments back in their original location.
     """
 
-    for p in map(Path, paths):
-        for f in [p] if p.is_file() else p.rglob("*.py"):
-            result = generate_rewrite(file=f, source=f.read_text(encoding="utf-8"))
-            if result is not None:
-                f.write_text(result)
+    for f in find_python_files(paths):
+        source, encoding = read_source(f)
+        result = generate_rewrite(file=f, source=source)
+        if result is not None:
+            f.write_bytes(result.encode(encoding))
 
 
 def generate_rewrite(file: Path, source: str) -> str | None:
diff --git a/src/reactpy/_console/rewrite_props.py b/src/reactpy/_console/rewrite_props.py
index b693f87..fe11fcb 100644
--- a/src/reactpy/_console/rewrite_props.py
+++ b/src/reactpy/_console/rewrite_props.py
@@ -11,7 +11,9 @@ import click
 from reactpy._console.ast_utils import (
     ChangedNode,
     find_element_constructor_usages,
+    find_python_files,
     is_dict,
+    read_source,
     rewrite_changed_nodes,
 )
 
@@ -20,12 +22,11 @@ from reactpy._console.ast_utils import (
 @click.argument("paths", nargs=-1, type=click.Path(exists=True))
 def rewrite_props(paths: list[str]) -> None:
     """Rewrite snake_case props to camelCase within <PATHS>."""
-    for p in map(Path, paths):
-        # Process each file or recursively process each Python file in directories
-        for f in [p] if p.is_file() else p.rglob("*.py"):
-            result = generate_rewrite(file=f, source=f.read_text(encoding="utf-8"))
-            if result is not None:
-                f.write_text(result)
+    for f in find_python_files(paths):
+        source, encoding = read_source(f)
+        result = generate_rewrite(file=f, source=source)
+        if result is not None:
+            f.write_bytes(result.encode(encoding))
 
 
 def generate_rewrite(file: Path, source: str) -> str | None:
-- 
2.43.0


From 3b1efe0095b23f7e1651d23d865596fc236c04d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 40/90] fix: codemods keep comments of adjacent calls, also
 with other line endings

---
 src/reactpy/_console/ast_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index d4484fc..84ecc39 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -66,7 +66,7 @@ def rewrite_changed_nodes(
         end = find_offset(node.end_lineno, node.end_col_offset)
         nodes_to_unparse.append((start, end, node))
 
-    # lines that start within a string, or continue the one before
+    # lines that start within a string or other edits, or continue the one before
     continued_lines = {
         lineno + 1
         for lineno, line in enumerate(lines, start=1)
@@ -84,6 +84,7 @@ def rewrite_changed_nodes(
             continue
         last_end = end
         edits.append((start, end, ast.unparse(node)))
+        continued_lines.update(range(node.lineno + 1, node.end_lineno + 1))
 
         # make a best effort to preserve any comments that we're going to overwrite
         lineno = node.lineno
@@ -201,7 +202,7 @@ class ElementConstructorInfo:
 
 def _find_comments(source: str) -> list[str]:
     # Within parentheses the indentation is irrelevant
-    lines = StringIO(f"({source}\n)")
+    lines = StringIO(f"({source}\n)", newline=None)
     return [
         token
         for token_type, token, _, _, _ in generate_tokens(lines.readline)
-- 
2.43.0


From 10f1188a060f245975871ce1a94d56b7c1972794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 41/90] fix: PyScript components keep the values of strings
 that contain #, tabs or line breaks

Minifying took a # or triple quotes within a string for a comment or docstring,
could leave a function without a body, and joining replaced tabs and indented
the content of multi-line strings. Roots with a return type were not found.
---
 src/reactpy/executors/pyscript/utils.py | 70 +++++++++++++++++++++----
 1 file changed, 59 insertions(+), 11 deletions(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 2b72262..589b7af 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -1,6 +1,7 @@
 # ruff: noqa: S603
 from __future__ import annotations
 
+import ast
 import base64
 import csv
 import functools
@@ -12,12 +13,12 @@ import re
 import shutil
 import subprocess
 import sys
-import textwrap
 from collections.abc import Callable
 from importlib import metadata
 from io import StringIO
 from logging import getLogger
 from pathlib import Path
+from tokenize import COMMENT, generate_tokens
 from typing import TYPE_CHECKING, Any
 from uuid import uuid4
 from zipfile import ZIP_DEFLATED, ZipFile
@@ -38,16 +39,64 @@ _WHEEL_FILENAME_PART_COUNT = 5
 
 def minify_python(source: str) -> str:
     """Minify Python source code."""
+    try:
+        tree = ast.parse(source)
+    except SyntaxError:
+        # This may be written for a different version of Python
+        return source.strip()
+
+    lines = source.split("\n")
+    string_lines = _find_string_lines(tree)
     # Remove comments
-    source = re.sub(r"#.*\n", "\n", source)
+    for token in generate_tokens(StringIO(source).readline):
+        if token.type == COMMENT:
+            lineno, column = token.start
+            lines[lineno - 1] = lines[lineno - 1][:column].rstrip()
     # Remove docstrings
-    source = re.sub(r'\n\s*""".*?"""', "", source, flags=re.DOTALL)
-    # Remove excess newlines
-    source = re.sub(r"\n+", "\n", source)
+    for node in ast.walk(tree):
+        if (
+            isinstance(
+                node, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)
+            )
+            and ast.get_docstring(node, clean=False) is not None
+            and len(node.body) > 1
+        ):
+            docstring, next_node = node.body[:2]
+            start, end = docstring.lineno - 1, docstring.end_lineno or 0
+            # There may be other code in the same lines
+            if lines[start][: docstring.col_offset].strip() or next_node.lineno <= end:
+                continue
+            lines[start:end] = [""] * (end - start)
+            string_lines.difference_update(range(start + 1, end + 1))
     # Remove empty lines
-    source = re.sub(r"\s+\n", "\n", source)
-    # Remove leading and trailing whitespace
-    return source.strip()
+    return "\n".join(
+        line
+        for previous_line, (lineno, line) in zip(
+            ["", *lines], enumerate(lines, start=1), strict=False
+        )
+        if line.strip() or lineno in string_lines or previous_line.endswith("\\")
+    ).strip()
+
+
+def _indent_python(source: str, prefix: str) -> str:
+    """Indent Python source code, but not the content of multi-line strings."""
+    try:
+        string_lines = _find_string_lines(ast.parse(source))
+    except SyntaxError:
+        string_lines = set()
+    return "\n".join(
+        prefix + line if line.strip() and lineno not in string_lines else line
+        for lineno, line in enumerate(source.split("\n"), start=1)
+    )
+
+
+def _find_string_lines(tree: ast.AST) -> set[int]:
+    """Find the lines that start within a string."""
+    lines: set[int] = set()
+    for node in ast.walk(tree):
+        if isinstance(node, (ast.Constant, ast.JoinedStr)):
+            lines.update(range(node.lineno + 1, (node.end_lineno or 0) + 1))
+    return lines
 
 
 PYSCRIPT_COMPONENT_TEMPLATE = minify_python(
@@ -76,11 +125,10 @@ def pyscript_executor_html(
 
     # Prepare the PyScript code block
     user_code = "\n".join(all_file_contents)  # Combine all user code
-    user_code = user_code.replace("\t", "    ")  # Normalize the text
-    user_code = textwrap.indent(user_code, "    ")  # Add indentation to match template
+    user_code = _indent_python(user_code, "    ")  # Add indentation to match template
 
     # Ensure the root component exists
-    if f"def {root}():" not in user_code:
+    if not re.search(rf"^    def {re.escape(root)}\s*\(", user_code, re.MULTILINE):
         raise ValueError(
             f"Could not find the root component function '{root}' in your PyScript file(s)."
         )
-- 
2.43.0


From 2c0226b7c84296069ad537dbc3f8f1c53b793bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 42/90] fix: PyScript pages keep quotes, references and closing
 tags within configs, code and heads

A ' or & in the configuration ended or altered its attribute, </script> in a
string ended the script, </head> within a script of the head got a copy of the
setup, and the head given to ReactPy was modified.
---
 src/reactpy/executors/asgi/pyscript.py   | 2 +-
 src/reactpy/executors/asgi/standalone.py | 7 +++++--
 src/reactpy/executors/pyscript/utils.py  | 8 +++++++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/executors/asgi/pyscript.py b/src/reactpy/executors/asgi/pyscript.py
index de0ceac..3f5441e 100644
--- a/src/reactpy/executors/asgi/pyscript.py
+++ b/src/reactpy/executors/asgi/pyscript.py
@@ -120,7 +120,7 @@ class ReactPyPyscriptApp(ReactPyApp):
             initial=self.parent.initial,
             root=self.parent.root_name,
         )
-        head_content = head_content.replace("</head>", f"{pyscript_setup}</head>")
+        head_content = f"{head_content.removesuffix('</head>')}{pyscript_setup}</head>"
 
         self._index_html = (
             "<!doctype html>"
diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index c22c3ba..7852848 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -80,7 +80,6 @@ class ReactPy(ReactPyMiddleware):
         self.html_lang = html_lang
 
         if pyscript_setup:
-            self.html_head.setdefault("children", [])
             pyscript_options = pyscript_options or {}
             extra_py = pyscript_options.get("extra_py", [])
             extra_js = pyscript_options.get("extra_js", {})
@@ -89,7 +88,11 @@ class ReactPy(ReactPyMiddleware):
                 pyscript_setup_html(extra_py, extra_js, config)
             )
             pyscript_head_vdom["tagName"] = ""
-            self.html_head["children"].append(pyscript_head_vdom)  # type: ignore
+            # Other applications may use this head as well
+            self.html_head = {  # type: ignore
+                **self.html_head,
+                "children": [*self.html_head.get("children", []), pyscript_head_vdom],
+            }
 
     def match_dispatch_path(self, scope: AsgiWebsocketScope) -> bool:
         """Method override to remove `dotted_path` from the dispatcher URL."""
diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 589b7af..8faa9b4 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -149,10 +149,15 @@ def pyscript_component_html(
         f'<div id="pyscript-{uuid}" class="pyscript" data-uuid="{uuid}">'
         f"{_initial}"
         "</div>"
-        f"<script type='py'>{executor_code}</script>"
+        f"<script type='py'>{_escape_script(executor_code)}</script>"
     )
 
 
+def _escape_script(source: str) -> str:
+    """Keep strings such as `"</script>"` from ending (or hiding the end of) the script."""
+    return re.sub(r"(?<!\\)<(?=/script|!--)", r"\\x3c", source, flags=re.IGNORECASE)
+
+
 def pyscript_setup_html(
     extra_py: Sequence[str],
     extra_js: dict[str, Any] | str,
@@ -161,6 +166,7 @@ def pyscript_setup_html(
     """Renders the PyScript setup code."""
     hide_pyscript_debugger = f'<link rel="stylesheet" href="{REACTPY_PATH_PREFIX.current}static/pyscript-hide-debug.css" />'
     pyscript_config = extend_pyscript_config(extra_py, extra_js, config)
+    pyscript_config = pyscript_config.replace("&", "&amp;").replace("'", "&#x27;")
 
     return (
         f'<link rel="stylesheet" href="{REACTPY_PATH_PREFIX.current}static/pyscript/core.css" />'
-- 
2.43.0


From 84694dfe1277533cb010b84bade5aeede9890c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 43/90] fix: the browser client replaces the root without
 leaving parts of the previous one

A root that once failed was shown as an error for ever, and children stayed
when the new root had none. Two updates in one batch were not rendered.
---
 .../packages/@reactpy/client/src/components.tsx  | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index fe6004b..6dca54c 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -137,25 +137,26 @@ function debounceHandler(
 }
 
 export function Layout(props: { client: ReactPyClient }): JSX.Element {
-  const currentModel: ReactPyVdom = useState({ tagName: "" })[0];
+  const root: { model: ReactPyVdom } = useState({ model: { tagName: "" } })[0];
   const forceUpdate = useForceUpdate();
 
   useEffect(
     () =>
       props.client.onMessage("layout-update", ({ path, model }) => {
         if (path === "") {
-          Object.assign(currentModel, model);
+          // Nothing of the previous root (e.g. its error) may remain
+          root.model = model;
         } else {
-          setJsonPointer(currentModel, path, model);
+          setJsonPointer(root.model, path, model);
         }
         forceUpdate();
       }),
-    [currentModel, props.client],
+    [root, props.client],
   );
 
   return (
     <ClientContext.Provider value={props.client}>
-      <Element model={currentModel} />
+      <Element model={root.model} />
     </ClientContext.Provider>
   );
 }
@@ -474,8 +475,9 @@ function ImportedElement({ model }: { model: ReactPyVdom }) {
 }
 
 function useForceUpdate() {
-  const [, setState] = useState(false);
-  return () => setState((old) => !old);
+  // Count instead of toggling since two batched updates would cancel each other out
+  const [, setState] = useState(0);
+  return () => setState((old) => old + 1);
 }
 
 function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
-- 
2.43.0


From 2ea95760956594dac1a79e76963206be5105601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 44/90] fix: the browser client imports components that are
 named like a special element

---
 src/js/packages/@reactpy/client/src/components.tsx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 6dca54c..7954b14 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -171,11 +171,12 @@ export function Element({ model }: { model: ReactPyVdom }): JSX.Element | null {
   }
 
   let SpecializedElement: ReactPyComponent;
-  if (model.tagName in SPECIAL_ELEMENTS) {
+  if (model.importSource) {
+    // Modules may export components that are named like a special element
+    SpecializedElement = ImportedElement;
+  } else if (model.tagName in SPECIAL_ELEMENTS) {
     SpecializedElement =
       SPECIAL_ELEMENTS[model.tagName as keyof typeof SPECIAL_ELEMENTS];
-  } else if (model.importSource) {
-    SpecializedElement = ImportedElement;
   } else {
     SpecializedElement = StandardElement;
   }
-- 
2.43.0


From 327ee980e3e68300a08338ca7e39c281f9e06a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 45/90] fix: the browser client displays the fallback of a
 component while its module is loading

---
 .../@reactpy/client/src/components.tsx        | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 7954b14..54e9736 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -453,26 +453,28 @@ function ScriptElement({ model }: { model: ReactPyVdom }) {
 
 function ImportedElement({ model }: { model: ReactPyVdom }) {
   const importSourceVdom = model.importSource;
-  const importSourceRef = useImportSource(model);
+  const [importSourceRef, isLoaded] = useImportSource(model);
 
   if (!importSourceVdom) {
     return null;
   }
 
-  const importSourceFallback = importSourceVdom.fallback;
-
-  if (!importSourceVdom) {
-    // display a fallback if one was given
-    if (!importSourceFallback) {
-      return null;
-    } else if (typeof importSourceFallback === "string") {
-      return <span>{importSourceFallback}</span>;
+  // display a fallback (if one was given) until the module is loaded
+  let fallback: JSX.Element | null = null;
+  if (!isLoaded && importSourceVdom.fallback) {
+    if (typeof importSourceVdom.fallback === "string") {
+      fallback = <span>{importSourceVdom.fallback}</span>;
     } else {
-      return <StandardElement model={importSourceFallback} />;
+      fallback = <StandardElement model={importSourceVdom.fallback} />;
     }
-  } else {
-    return <span ref={importSourceRef} />;
   }
+
+  return (
+    <>
+      <span ref={importSourceRef} />
+      {fallback}
+    </>
+  );
 }
 
 function useForceUpdate() {
@@ -481,7 +483,9 @@ function useForceUpdate() {
   return () => setState((old) => old + 1);
 }
 
-function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
+function useImportSource(
+  model: ReactPyVdom,
+): [MutableRefObject<any>, boolean] {
   const vdomImportSource = model.importSource;
   const vdomImportSourceJsonString = JSON.stringify(vdomImportSource);
   const mountPoint = useRef<HTMLElement>(null);
@@ -529,7 +533,9 @@ function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
     }
   });
 
-  return mountPoint;
+  const isLoaded =
+    binding !== null && bindingSource.current === vdomImportSourceJsonString;
+  return [mountPoint, isLoaded];
 }
 
 const SPECIAL_ELEMENTS = {
-- 
2.43.0


From 862203f0c806c4ec2c396a867e22b4a3d3ab9c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 46/90] fix: the browser client binds imported components once

The mount point was a dependency of the effect, so every component was loaded
twice and its first binding was rendered after it had been unmounted. The same
happened if the source changed back before the other one was loaded.
---
 src/js/packages/@reactpy/client/src/components.tsx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 54e9736..4a9d716 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -509,6 +509,7 @@ function useImportSource(
 
     return () => {
       unmounted = true;
+      bindingSource.current = null;
       if (
         currentBinding &&
         vdomImportSource &&
@@ -517,7 +518,7 @@ function useImportSource(
         currentBinding.unmount();
       }
     };
-  }, [client, vdomImportSourceJsonString, setBinding, mountPoint.current]);
+  }, [client, vdomImportSourceJsonString, setBinding]);
 
   // this effect must run every time in case the model has changed
   useEffect(() => {
-- 
2.43.0


From 8b3d9ac9fc02f3a0485470ef1ee3179b1ec615bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 47/90] fix: the browser client shows errors of components
 within imported ones

---
 src/js/packages/@reactpy/client/src/vdom.tsx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index 0a12380..890175e 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -76,6 +76,12 @@ function createImportSourceElement(props: {
   model: ReactPyVdom;
   currentImportSource: ReactPyVdomImportSource;
 }): any {
+  if (props.model.error !== undefined) {
+    return props.model.error
+      ? props.binding.create("pre", {}, [props.model.error])
+      : null;
+  }
+
   let type: any;
   if (props.model.importSource) {
     if (
-- 
2.43.0


From 4577025efd49568bd8b3e29337d13fbab675c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 48/90] fix: inline JavaScript functions are called with the
 element as this

---
 src/js/packages/@reactpy/client/src/vdom.tsx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index 890175e..36762b1 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -294,10 +294,10 @@ function createInlineJavaScript(
   /* Function that will execute the string-like InlineJavaScript
   via eval in the most appropriate way */
   const wrappedExecutable = function (...args: any[]) {
-    function handleExecution(...args: any[]) {
+    function handleExecution(this: any, ...args: any[]) {
       const evalResult = eval(inlineJavaScript);
       if (typeof evalResult == "function") {
-        return evalResult(...args);
+        return evalResult.call(this, ...args);
       }
     }
     if (args.length > 0 && args[0] instanceof Event) {
-- 
2.43.0


From 5b789962298f4a10a02c45d228a815a6a42799cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 49/90] fix: an input that takes the place of another one
 displays its value

---
 src/js/packages/@reactpy/client/src/components.tsx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 4a9d716..bf2ab2f 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -312,7 +312,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
       inputRef.current.value = props.value;
     }
     setValue(props.value);
-  }, [props.value, serverAckSeq]);
+  }, [props.value, serverAckSeq, model.tagName]);
 
   for (const [name, prop] of Object.entries(props)) {
     if (typeof prop !== "function") {
-- 
2.43.0


From 77fcdf58c009aa5a552119c69cf7af36d5f67703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:48 +0000
Subject: [PATCH 50/90] fix: handlers of imported components accept arguments
 that are no events

---
 src/js/packages/@reactpy/client/src/vdom.tsx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index 36762b1..dad2af0 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -238,11 +238,12 @@ function createEventHandler(
   let outgoingSeq = 0;
   const eventHandler = function (...args: any[]) {
     const data = Array.from(args).map((value) => {
-      const event = value as Event;
-      if (preventDefault) {
+      // Imported components may call their handlers with anything
+      const event = value as Event | null | undefined;
+      if (preventDefault && typeof event?.preventDefault === "function") {
         event.preventDefault();
       }
-      if (stopPropagation) {
+      if (stopPropagation && typeof event?.stopPropagation === "function") {
         event.stopPropagation();
       }
 
-- 
2.43.0


From 1af813857e3aaa388333acdfd100feade224f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:48 +0000
Subject: [PATCH 51/90] fix: lists that handlers are called with are sent as
 lists

---
 src/js/packages/event-to-object/src/index.ts | 27 +++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index f6aebe6..e33098c 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -19,6 +19,12 @@ export default function convert(
   // Begin conversion
   const visited = new WeakSet<any>();
   visited.add(classObject);
+
+  // Lists stay lists
+  if (isArrayLike(classObject)) {
+    return classToArray(classObject, maxDepth, visited);
+  }
+
   const convertedObj: { [key: string]: any } = {};
   for (const key in classObject) {
     // Skip keys that cannot be converted
@@ -111,13 +117,7 @@ function deepCloneClass(
 
   try {
     // Convert array-like class (e.g., NodeList, ClassList, HTMLCollection)
-    if (
-      Array.isArray(x) ||
-      (typeof x?.length === "number" &&
-        typeof x[Symbol.iterator] === "function" &&
-        !Object.prototype.toString.call(x).includes("Map") &&
-        !(x instanceof CSSStyleDeclaration))
-    ) {
+    if (isArrayLike(x)) {
       return classToArray(x, maxDepth, visited);
     }
 
@@ -128,6 +128,19 @@ function deepCloneClass(
   }
 }
 
+/**
+ * Check if a value is an array or an array-like class.
+ */
+function isArrayLike(x: any): boolean {
+  return (
+    Array.isArray(x) ||
+    (typeof x?.length === "number" &&
+      typeof x[Symbol.iterator] === "function" &&
+      !Object.prototype.toString.call(x).includes("Map") &&
+      !(x instanceof CSSStyleDeclaration))
+  );
+}
+
 /**
  * Convert an array-like class to a plain array.
  */
-- 
2.43.0


From d2171912e515d468a9b8fbeafd954f4800fc5ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 52/90] fix: unmountBeforeUpdate is honoured for components
 within those of other modules

---
 src/js/packages/@reactpy/client/src/vdom.tsx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index dad2af0..e1bc14f 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -386,6 +386,9 @@ class ReactPyChild extends HTMLElement {
       }
     } else {
       if (this.binding) {
+        if (newImportSource.unmountBeforeUpdate) {
+          this.binding.unmount();
+        }
         this.binding.render(this._model);
       }
     }
-- 
2.43.0


From f93c4e6eee25f901d8e4440eecddf2946f02723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 53/90] fix: the browser client does not render with a binding
 that was unmounted

---
 .../packages/@reactpy/client/src/components.tsx  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index bf2ab2f..bd06a68 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -491,6 +491,7 @@ function useImportSource(
   const mountPoint = useRef<HTMLElement>(null);
   const client = useContext(ClientContext);
   const [binding, setBinding] = useState<ImportSourceBinding | null>(null);
+  const activeBinding = useRef<ImportSourceBinding | null>(null);
   const bindingSource = useRef<string | null>(null);
 
   useEffect(() => {
@@ -501,6 +502,7 @@ function useImportSource(
       loadImportSource(vdomImportSource, client).then((bind) => {
         if (!unmounted && mountPoint.current) {
           currentBinding = bind(mountPoint.current);
+          activeBinding.current = currentBinding;
           bindingSource.current = vdomImportSourceJsonString;
           setBinding(currentBinding);
         }
@@ -509,6 +511,7 @@ function useImportSource(
 
     return () => {
       unmounted = true;
+      activeBinding.current = null;
       bindingSource.current = null;
       if (
         currentBinding &&
@@ -520,12 +523,21 @@ function useImportSource(
     };
   }, [client, vdomImportSourceJsonString, setBinding]);
 
+  // the binding may still be the one of a source that was displayed before
+  const isLoaded =
+    binding !== null &&
+    binding === activeBinding.current &&
+    bindingSource.current === vdomImportSourceJsonString;
+
   // this effect must run every time in case the model has changed
   useEffect(() => {
     if (!(binding && vdomImportSource)) {
       return;
     }
-    if (bindingSource.current !== vdomImportSourceJsonString) {
+    if (
+      binding !== activeBinding.current ||
+      bindingSource.current !== vdomImportSourceJsonString
+    ) {
       return;
     }
     binding.render(model);
@@ -534,8 +546,6 @@ function useImportSource(
     }
   });
 
-  const isLoaded =
-    binding !== null && bindingSource.current === vdomImportSourceJsonString;
   return [mountPoint, isLoaded];
 }
 
-- 
2.43.0


From 9e3390eb61a131ced2b853b0f13544255abb77d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 54/90] fix: keys of components within those of other modules
 are kept

---
 src/js/packages/@reactpy/client/src/vdom.tsx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index e1bc14f..f79ff80 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -88,6 +88,7 @@ function createImportSourceElement(props: {
       !isImportSourceEqual(props.currentImportSource, props.model.importSource)
     ) {
       return props.binding.create("reactpy-child", {
+        key: props.model.attributes?.key,
         ref: (node: ReactPyChild | null) => {
           if (node) {
             node.client = props.client;
-- 
2.43.0


From cdf801c73f29dc8828a63894f8c5bb3a13150dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 55/90] fix: events of select and form elements keep the values
 of their target

---
 src/js/packages/event-to-object/src/index.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index e33098c..21094dd 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -137,6 +137,8 @@ function isArrayLike(x: any): boolean {
     (typeof x?.length === "number" &&
       typeof x[Symbol.iterator] === "function" &&
       !Object.prototype.toString.call(x).includes("Map") &&
+      // Forms and selects are iterable elements
+      !(typeof Node !== "undefined" && x instanceof Node) &&
       !(x instanceof CSSStyleDeclaration))
   );
 }
-- 
2.43.0


From 4841e86c396c6aea5a0cde339d4d9393267b0dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 56/90] fix: events include form elements with any name

---
 src/js/packages/event-to-object/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index 21094dd..f1f25f3 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -261,7 +261,8 @@ function classToObject(
       if (
         element.name &&
         !Object.prototype.hasOwnProperty.call(result, element.name) &&
-        !shouldIgnoreValue(element, element.name, x)
+        // Any name can be given to a form element
+        !shouldIgnoreValue(element)
       ) {
         if (typeof element === "object") {
           const converted = deepCloneClass(element, maxDepth, visited);
-- 
2.43.0


From 647484d94f0906b33ad395b54d7deced8728433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 57/90] fix: events with members that have no JSON
 representation are sent

---
 src/js/packages/event-to-object/src/index.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index f1f25f3..1421eb7 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -295,6 +295,8 @@ function shouldIgnoreValue(
     (keyName.length > 0 && /^[A-Z_]+$/.test(keyName)) ||
     // Non-convertible types
     typeof value === "function" ||
+    typeof value === "bigint" ||
+    typeof value === "symbol" ||
     value instanceof CSSStyleSheet ||
     value instanceof Window ||
     value instanceof Document ||
-- 
2.43.0


From a18705e1d0d2b4b9a1693246bb35a6e903ae8032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 58/90] fix: members of an event that cannot be read are left
 out without the others

---
 src/js/packages/event-to-object/src/index.ts | 86 ++++++++++++--------
 1 file changed, 52 insertions(+), 34 deletions(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index 1421eb7..c798053 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -74,15 +74,20 @@ function serializeSelection(
   if (!selection) {
     return null;
   }
+  const convertNode = (node: Node | null) => {
+    try {
+      const converted = node ? deepCloneClass(node, maxDepth, visited) : null;
+      return converted === maxDepthSignal ? null : converted;
+    } catch {
+      // Not every node is accessible
+      return null;
+    }
+  };
   return {
     type: selection.type,
-    anchorNode: selection.anchorNode
-      ? deepCloneClass(selection.anchorNode, maxDepth, visited)
-      : null,
+    anchorNode: convertNode(selection.anchorNode),
     anchorOffset: selection.anchorOffset,
-    focusNode: selection.focusNode
-      ? deepCloneClass(selection.focusNode, maxDepth, visited)
-      : null,
+    focusNode: convertNode(selection.focusNode),
     focusOffset: selection.focusOffset,
     isCollapsed: selection.isCollapsed,
     rangeCount: selection.rangeCount,
@@ -153,20 +158,24 @@ function classToArray(
 ): Array<any> {
   const result: Array<any> = [];
   for (let i = 0; i < x.length; i++) {
-    // Skip anything that should not be converted
-    if (shouldIgnoreValue(x[i])) {
-      continue;
-    }
-    // Only push objects as if we haven't reached max depth
-    else if (typeof x[i] === "object") {
-      const converted = deepCloneClass(x[i], maxDepth, visited);
-      if (converted !== maxDepthSignal) {
-        result.push(converted);
+    try {
+      // Skip anything that should not be converted
+      if (shouldIgnoreValue(x[i])) {
+        continue;
       }
-    }
-    // Add plain values if not skippable
-    else {
-      result.push(x[i]);
+      // Only push objects as if we haven't reached max depth
+      else if (typeof x[i] === "object") {
+        const converted = deepCloneClass(x[i], maxDepth, visited);
+        if (converted !== maxDepthSignal) {
+          result.push(converted);
+        }
+      }
+      // Add plain values if not skippable
+      else {
+        result.push(x[i]);
+      }
+    } catch {
+      continue;
     }
   }
   return result;
@@ -212,12 +221,16 @@ function classToObject(
     "dataset" in x &&
     !Object.prototype.hasOwnProperty.call(result, "dataset")
   ) {
-    const dataset = x["dataset"];
-    if (!shouldIgnoreValue(dataset, "dataset", x)) {
-      const converted = deepCloneClass(dataset, maxDepth, visited);
-      if (converted !== maxDepthSignal) {
-        result["dataset"] = converted;
+    try {
+      const dataset = x["dataset"];
+      if (!shouldIgnoreValue(dataset, "dataset", x)) {
+        const converted = deepCloneClass(dataset, maxDepth, visited);
+        if (converted !== maxDepthSignal) {
+          result["dataset"] = converted;
+        }
       }
+    } catch {
+      // Skip members that cannot be converted
     }
   }
 
@@ -230,18 +243,23 @@ function classToObject(
       prop in x &&
       !Object.prototype.hasOwnProperty.call(result, prop)
     ) {
-      const val = x[prop];
-      if (!shouldIgnoreValue(val, prop, x)) {
-        if (typeof val === "object") {
-          // Ensure files have enough depth to be serialized
-          const propDepth = prop === "files" ? Math.max(maxDepth, 3) : maxDepth;
-          const converted = deepCloneClass(val, propDepth, visited);
-          if (converted !== maxDepthSignal) {
-            result[prop] = converted;
+      try {
+        const val = x[prop];
+        if (!shouldIgnoreValue(val, prop, x)) {
+          if (typeof val === "object") {
+            // Ensure files have enough depth to be serialized
+            const propDepth =
+              prop === "files" ? Math.max(maxDepth, 3) : maxDepth;
+            const converted = deepCloneClass(val, propDepth, visited);
+            if (converted !== maxDepthSignal) {
+              result[prop] = converted;
+            }
+          } else {
+            result[prop] = val;
           }
-        } else {
-          result[prop] = val;
         }
+      } catch {
+        continue;
       }
     }
   }
-- 
2.43.0


From eb4dd70e4fa16d52cb80fd3668d4e81121e66969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 59/90] fix: nodes that handlers are called with are sent
 without their relatives

---
 src/js/packages/event-to-object/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/packages/event-to-object/src/index.ts b/src/js/packages/event-to-object/src/index.ts
index c798053..6b70a9f 100644
--- a/src/js/packages/event-to-object/src/index.ts
+++ b/src/js/packages/event-to-object/src/index.ts
@@ -29,7 +29,7 @@ export default function convert(
   for (const key in classObject) {
     // Skip keys that cannot be converted
     try {
-      if (shouldIgnoreValue(classObject[key], key)) {
+      if (shouldIgnoreValue(classObject[key], key, classObject)) {
         continue;
       }
       // Handle objects (potentially cyclical)
-- 
2.43.0


From c727ab694853bb4022d09ea2628551df5a8e4b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 60/90] fix: reconnection settings of zero are not replaced by
 the defaults

---
 src/js/packages/@reactpy/client/src/mount.tsx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/mount.tsx b/src/js/packages/@reactpy/client/src/mount.tsx
index df42881..ddb9194 100644
--- a/src/js/packages/@reactpy/client/src/mount.tsx
+++ b/src/js/packages/@reactpy/client/src/mount.tsx
@@ -24,10 +24,10 @@ export function mountReactPy(props: MountProps) {
       jsModulesPath: `${window.location.origin}${props.pathPrefix}modules/`,
     },
     reconnectOptions: {
-      interval: props.reconnectInterval || 750,
-      maxInterval: props.reconnectMaxInterval || 60000,
-      maxRetries: props.reconnectMaxRetries || 150,
-      backoffMultiplier: props.reconnectBackoffMultiplier || 1.25,
+      interval: props.reconnectInterval ?? 750,
+      maxInterval: props.reconnectMaxInterval ?? 60000,
+      maxRetries: props.reconnectMaxRetries ?? 150,
+      backoffMultiplier: props.reconnectBackoffMultiplier ?? 1.25,
     },
     mountElement: props.mountElement,
   });
-- 
2.43.0


From 57967cd9c6d7a83aa3d041ae21cf8befb721e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 61/90] fix: the first reconnection interval does not exceed
 the maximum

---
 src/js/packages/@reactpy/client/src/websocket.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/websocket.ts b/src/js/packages/@reactpy/client/src/websocket.ts
index 159b59e..63da792 100644
--- a/src/js/packages/@reactpy/client/src/websocket.ts
+++ b/src/js/packages/@reactpy/client/src/websocket.ts
@@ -18,8 +18,9 @@ export function createReconnectingWebSocket(
   props: CreateReconnectingWebSocketProps,
 ) {
   const { interval, maxInterval, maxRetries, backoffMultiplier } = props;
+  const firstInterval = Math.min(interval, maxInterval);
   let retries = 0;
-  let currentInterval = interval;
+  let currentInterval = firstInterval;
   let everConnected = false;
   const closed = false;
   const socket: { current?: WebSocket } = {};
@@ -33,7 +34,7 @@ export function createReconnectingWebSocket(
     socket.current.onopen = () => {
       everConnected = true;
       log.info("Connected!");
-      currentInterval = interval;
+      currentInterval = firstInterval;
       retries = 0;
       if (props.onOpen) {
         props.onOpen();
-- 
2.43.0


From 555f3edc2c20a437f5239038eea9e9d7c3b03ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 62/90] fix: queued messages stay queued in order if the
 connection closes while they are sent

---
 src/js/packages/@reactpy/client/src/client.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/js/packages/@reactpy/client/src/client.ts b/src/js/packages/@reactpy/client/src/client.ts
index bc0a489..7fb81f2 100644
--- a/src/js/packages/@reactpy/client/src/client.ts
+++ b/src/js/packages/@reactpy/client/src/client.ts
@@ -71,7 +71,10 @@ export class ReactPyClient
       readyPromise: this.ready,
       ...props.reconnectOptions,
       onOpen: () => {
-        while (this.messageQueue.length > 0) {
+        while (
+          this.messageQueue.length > 0 &&
+          this.socket.current?.readyState === WebSocket.OPEN
+        ) {
           this.sendMessage(this.messageQueue.shift());
         }
       },
-- 
2.43.0


From fbf61a9a8c6e3e3dfb674c6213c2bf6c0e16cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 63/90] fix: a failing message handler does not keep a message
 from the others

---
 src/js/packages/@reactpy/client/src/client.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/js/packages/@reactpy/client/src/client.ts b/src/js/packages/@reactpy/client/src/client.ts
index 7fb81f2..accb2d8 100644
--- a/src/js/packages/@reactpy/client/src/client.ts
+++ b/src/js/packages/@reactpy/client/src/client.ts
@@ -48,7 +48,13 @@ export abstract class BaseReactPyClient implements ReactPyClientInterface {
       return;
     }
 
-    messageHandlers.forEach((h) => h(message));
+    messageHandlers.forEach((h) => {
+      try {
+        h(message);
+      } catch (error) {
+        logger.error("Message handler failed", error);
+      }
+    });
   }
 }
 
-- 
2.43.0


From 99aa3ff42bb920af279af3509ef913d4a24ff95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 64/90] fix: throttle and debounce windows are kept when an
 element is rendered again

---
 .../@reactpy/client/src/components.tsx        | 184 ++++++++++--------
 1 file changed, 108 insertions(+), 76 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index bd06a68..2f2063b 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -25,73 +25,118 @@ import type { ReactPyClient } from "./client";
 
 const ClientContext = createContext<ReactPyClient>(null as any);
 
+/** What is known about the calls of a handler, beyond a single rendering. */
+type HandlerCalls = {
+  // Every update creates new handlers, this is the one of the latest
+  handler: TaggedEventHandler;
+  // The arguments of the call that is still to be made, if any
+  pendingArgs: any[] | null;
+  timer: number | null;
+  lastFireTime: number;
+};
+
+/**
+ * Get the calls of the handlers of an element, which are kept as long as the
+ * element itself. Otherwise each update would start new throttle and debounce
+ * windows next to those which have not ended yet.
+ */
+function useHandlerCalls(
+  model: ReactPyVdom,
+): (
+  kind: string,
+  name: string,
+  handler: TaggedEventHandler,
+) => HandlerCalls {
+  const callsById = useRef(new Map<string, HandlerCalls>()).current;
+  return (kind, name, handler) => {
+    const target = model.eventHandlers?.[name]?.target;
+    const id = JSON.stringify([kind, name, target]);
+    let calls = callsById.get(id);
+    if (calls === undefined) {
+      calls = { handler, pendingArgs: null, timer: null, lastFireTime: 0 };
+      callsById.set(id, calls);
+    }
+    calls.handler = handler;
+    return calls;
+  };
+}
+
+function firePendingCall(calls: HandlerCalls): void {
+  calls.timer = null;
+  if (calls.pendingArgs !== null) {
+    const callArgs = calls.pendingArgs;
+    calls.pendingArgs = null;
+    calls.lastFireTime = Date.now();
+    (calls.handler as (...a: any[]) => void)(...callArgs);
+  }
+}
+
+function dropPendingCall(calls: HandlerCalls): void {
+  calls.pendingArgs = null;
+  if (calls.timer !== null) {
+    window.clearTimeout(calls.timer);
+    calls.timer = null;
+  }
+}
+
+/** Preserve the tag markers so downstream code can still introspect a wrapped handler. */
+function copyMarkers(
+  wrapped: TaggedEventHandler,
+  handler: TaggedEventHandler,
+): TaggedEventHandler {
+  wrapped[HANDLER_MARKER] = true;
+  return wrapped;
+}
+
 /**
  * Wrap ``handler`` so its outgoing call is throttled to at most once per
- * ``intervalMs`` milliseconds. Subsequent calls inside the window are
+ * ``throttle`` milliseconds. Subsequent calls inside the window are
  * collapsed and the trailing call (with the most recent arguments) fires
  * once the window expires.
  *
- * Returns the original handler unchanged when ``intervalMs`` is missing or
- * invalid.
+ * Calls are never delayed when ``throttle`` is missing or invalid.
  */
 function throttleHandler(
   handler: TaggedEventHandler,
-  intervalMs: number,
+  throttle: number | undefined,
+  calls: HandlerCalls,
 ): TaggedEventHandler {
-  if (!isValidDebounce(intervalMs)) {
-    return handler;
-  }
-  let pendingArgs: any[] | null = null;
-  let timer: number | null = null;
-  let lastFireTime = 0;
+  const intervalMs = isValidDebounce(throttle) ? throttle : 0;
 
   const wrapped = function (...args: any[]) {
     const now = Date.now();
-    const elapsed = now - lastFireTime;
+    const elapsed = now - calls.lastFireTime;
     if (elapsed >= intervalMs) {
-      // Leading edge: fire immediately, then start a cooldown.
-      lastFireTime = now;
+      // Leading edge: fire immediately, then start a cooldown. This call
+      // replaces any that is still pending.
+      dropPendingCall(calls);
+      calls.lastFireTime = now;
       (handler as (...a: any[]) => void)(...args);
       return;
     }
     // Trailing edge: remember the latest args and schedule a fire at the
     // end of the cooldown so no event is silently dropped.
-    pendingArgs = args;
-    if (timer === null) {
-      timer = window.setTimeout(
-        () => {
-          timer = null;
-          if (pendingArgs !== null) {
-            const callArgs = pendingArgs;
-            pendingArgs = null;
-            lastFireTime = Date.now();
-            (handler as (...a: any[]) => void)(...callArgs);
-          }
-        },
+    calls.pendingArgs = args;
+    if (calls.timer === null) {
+      calls.timer = window.setTimeout(
+        () => firePendingCall(calls),
         Math.max(0, intervalMs - elapsed),
       );
     }
   } as TaggedEventHandler;
 
-  // Preserve the tag markers so downstream code can still introspect the
-  // wrapped function.
-  wrapped[HANDLER_MARKER] = true;
-  const debounce = handler[HANDLER_DEBOUNCE];
-  if (typeof debounce === "number") {
-    wrapped[HANDLER_DEBOUNCE] = debounce;
-  }
-  return wrapped;
+  return copyMarkers(wrapped, handler);
 }
 
 /**
  * Wrap ``handler`` so its outgoing call is debounced by
- * ``delayMs`` milliseconds. The first call schedules a fire after
+ * ``debounce`` milliseconds. The first call schedules a fire after
  * the delay; subsequent calls inside the window reset the timer and
  * pass their arguments to the trailing call. Only one call lands
  * on the wrapped handler per debounce window.
  *
- * Returns the original handler unchanged when ``delayMs`` is missing
- * or invalid, so callers can pass a 0 / negative value to opt out.
+ * Calls are never delayed when ``debounce`` is missing or invalid, so
+ * callers can pass a 0 / negative value to opt out.
  *
  * Unlike ``throttleHandler`` (which fires on the leading edge),
  * this strictly trailing-edge debounce is the right semantics for
@@ -101,39 +146,22 @@ function throttleHandler(
  */
 function debounceHandler(
   handler: TaggedEventHandler,
-  delayMs: number,
+  debounce: number | undefined,
+  calls: HandlerCalls,
 ): TaggedEventHandler {
-  if (!isValidDebounce(delayMs) || delayMs === 0) {
-    return handler;
-  }
-  let timer: number | null = null;
-  let pendingArgs: any[] | null = null;
+  const delayMs = isValidDebounce(debounce) ? debounce : 0;
 
   const wrapped = function (...args: any[]) {
-    pendingArgs = args;
-    if (timer !== null) {
-      window.clearTimeout(timer);
+    dropPendingCall(calls);
+    if (delayMs === 0) {
+      (handler as (...a: any[]) => void)(...args);
+      return;
     }
-    timer = window.setTimeout(() => {
-      timer = null;
-      if (pendingArgs !== null) {
-        const callArgs = pendingArgs;
-        pendingArgs = null;
-        (handler as (...a: any[]) => void)(...callArgs);
-      }
-    }, delayMs);
+    calls.pendingArgs = args;
+    calls.timer = window.setTimeout(() => firePendingCall(calls), delayMs);
   } as TaggedEventHandler;
 
-  // Preserve the tag markers so downstream code can still introspect
-  // the wrapped function.
-  wrapped[HANDLER_MARKER] = true;
-  if (typeof handler[HANDLER_THROTTLE] === "number") {
-    wrapped[HANDLER_THROTTLE] = handler[HANDLER_THROTTLE];
-  }
-  if (typeof handler[HANDLER_DEBOUNCE] === "number") {
-    wrapped[HANDLER_DEBOUNCE] = handler[HANDLER_DEBOUNCE];
-  }
-  return wrapped;
+  return copyMarkers(wrapped, handler);
 }
 
 export function Layout(props: { client: ReactPyClient }): JSX.Element {
@@ -187,6 +215,7 @@ export function Element({ model }: { model: ReactPyVdom }): JSX.Element | null {
 function StandardElement({ model }: { model: ReactPyVdom }) {
   const client = useContext(ClientContext);
   const attrs = createAttributes(model, client);
+  const callsOf = useHandlerCalls(model);
   // Apply the throttle wrapper to tagged handlers. ``throttle`` works on
   // every element; ``debounce`` is intentionally only applied by
   // ``UserInputElement`` (the only place where coalescing keystrokes
@@ -201,10 +230,11 @@ function StandardElement({ model }: { model: ReactPyVdom }) {
     if (!handler[HANDLER_MARKER]) {
       continue;
     }
-    const throttle = handler[HANDLER_THROTTLE];
-    if (isValidDebounce(throttle)) {
-      attrs[name] = throttleHandler(handler, throttle as number);
-    }
+    attrs[name] = throttleHandler(
+      handler,
+      handler[HANDLER_THROTTLE],
+      callsOf("throttle", name, handler),
+    );
   }
   // Use createElement here to avoid warning about variable numbers of children not
   // having keys. Warning about this must now be the responsibility of the client
@@ -254,6 +284,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
   // is incremented optimistically in the wrapper; ``lastSentSeq``
   // is the high-water mark.
   const lastSentSeq = useRef(-1);
+  const callsOf = useHandlerCalls(model);
 
   // honor changes to value from the client via props
   useEffect(() => {
@@ -333,15 +364,16 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // is the common case — the per-element seq reconcile is
     // already responsible for input coherency, so we don't apply
     // a debounce by default.
-    const handlerDebounce = givenHandler[HANDLER_DEBOUNCE];
-    const handlerThrottle = givenHandler[HANDLER_THROTTLE];
-    let wrapped: TaggedEventHandler = givenHandler;
-    if (isValidDebounce(handlerThrottle)) {
-      wrapped = throttleHandler(wrapped, handlerThrottle as number);
-    }
-    if (isValidDebounce(handlerDebounce)) {
-      wrapped = debounceHandler(wrapped, handlerDebounce as number);
-    }
+    const throttled = throttleHandler(
+      givenHandler,
+      givenHandler[HANDLER_THROTTLE],
+      callsOf("throttle", name, givenHandler),
+    );
+    const wrapped = debounceHandler(
+      throttled,
+      givenHandler[HANDLER_DEBOUNCE],
+      callsOf("debounce", name, throttled),
+    );
 
     props[name] = (event: TargetedEvent<any>) => {
       // Use a per-element (shared across all handlers on this
-- 
2.43.0


From f7f5430d92f89c1381998457c50a718fefc1b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 65/90] fix: events that are held back keep their modifiers and
 current target

---
 .../@reactpy/client/src/components.tsx        |  7 +++-
 .../packages/@reactpy/client/src/handler.ts   |  8 ++++
 src/js/packages/@reactpy/client/src/vdom.tsx  | 40 +++++++++++++++----
 3 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 2f2063b..94fe109 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -10,8 +10,10 @@ import {
 import { useContext, useEffect, useRef, useState } from "preact/hooks";
 import {
   HANDLER_DEBOUNCE,
+  HANDLER_HOLD,
   HANDLER_MARKER,
   HANDLER_THROTTLE,
+  holdArgs,
   isValidDebounce,
   type TaggedEventHandler,
 } from "./handler";
@@ -85,6 +87,7 @@ function copyMarkers(
   handler: TaggedEventHandler,
 ): TaggedEventHandler {
   wrapped[HANDLER_MARKER] = true;
+  wrapped[HANDLER_HOLD] = handler[HANDLER_HOLD];
   return wrapped;
 }
 
@@ -116,7 +119,7 @@ function throttleHandler(
     }
     // Trailing edge: remember the latest args and schedule a fire at the
     // end of the cooldown so no event is silently dropped.
-    calls.pendingArgs = args;
+    calls.pendingArgs = holdArgs(handler, args);
     if (calls.timer === null) {
       calls.timer = window.setTimeout(
         () => firePendingCall(calls),
@@ -157,7 +160,7 @@ function debounceHandler(
       (handler as (...a: any[]) => void)(...args);
       return;
     }
-    calls.pendingArgs = args;
+    calls.pendingArgs = holdArgs(handler, args);
     calls.timer = window.setTimeout(() => firePendingCall(calls), delayMs);
   } as TaggedEventHandler;
 
diff --git a/src/js/packages/@reactpy/client/src/handler.ts b/src/js/packages/@reactpy/client/src/handler.ts
index dc6db59..91658ab 100644
--- a/src/js/packages/@reactpy/client/src/handler.ts
+++ b/src/js/packages/@reactpy/client/src/handler.ts
@@ -5,6 +5,7 @@
 export const HANDLER_MARKER = "isHandler" as const;
 export const HANDLER_DEBOUNCE = "debounce" as const;
 export const HANDLER_THROTTLE = "throttle" as const;
+export const HANDLER_HOLD = "hold" as const;
 
 export type HandlerMarker = typeof HANDLER_MARKER;
 export type HandlerDebounce = typeof HANDLER_DEBOUNCE;
@@ -14,8 +15,15 @@ export type TaggedEventHandler = ((event: Event) => void) & {
   [HANDLER_MARKER]: true;
   [HANDLER_DEBOUNCE]?: number;
   [HANDLER_THROTTLE]?: number;
+  // Prepares an argument for a call after the event was dispatched
+  [HANDLER_HOLD]?: (arg: any) => any;
 };
 
+export function holdArgs(handler: TaggedEventHandler, args: any[]): any[] {
+  const hold = handler[HANDLER_HOLD];
+  return hold === undefined ? args : args.map(hold);
+}
+
 /**
  * Returns true when the given value is a finite, non-negative integer.
  * Used to validate debounce/throttle values arriving over the wire from the
diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index f79ff80..6661ce8 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -2,6 +2,7 @@ import eventToObject from "event-to-object";
 import { Fragment } from "preact";
 import {
   HANDLER_DEBOUNCE,
+  HANDLER_HOLD,
   HANDLER_MARKER,
   HANDLER_THROTTLE,
   isValidDebounce,
@@ -237,16 +238,19 @@ function createEventHandler(
   // behavior (no wrapper) is to use a per-handler counter starting
   // at 0.
   let outgoingSeq = 0;
+  const applyModifiers = (event: Event | null | undefined) => {
+    // Imported components may call their handlers with anything
+    if (preventDefault && typeof event?.preventDefault === "function") {
+      event.preventDefault();
+    }
+    if (stopPropagation && typeof event?.stopPropagation === "function") {
+      event.stopPropagation();
+    }
+  };
   const eventHandler = function (...args: any[]) {
     const data = Array.from(args).map((value) => {
-      // Imported components may call their handlers with anything
       const event = value as Event | null | undefined;
-      if (preventDefault && typeof event?.preventDefault === "function") {
-        event.preventDefault();
-      }
-      if (stopPropagation && typeof event?.stopPropagation === "function") {
-        event.stopPropagation();
-      }
+      applyModifiers(event);
 
       // Convert JavaScript objects to plain JSON, if needed
       if (typeof event === "object") {
@@ -262,6 +266,11 @@ function createEventHandler(
     _reactpy_set_seq?: (n: number) => void;
   };
   eventHandler[HANDLER_MARKER] = true;
+  eventHandler[HANDLER_HOLD] = (event: any) => {
+    // It is too late for these once the event was dispatched
+    applyModifiers(event);
+    return keepCurrentTarget(event);
+  };
   eventHandler._reactpy_peek_seq = (): number => outgoingSeq;
   eventHandler._reactpy_set_seq = (n: number): void => {
     outgoingSeq = n;
@@ -289,6 +298,23 @@ function createEventHandler(
   return [name, eventHandler];
 }
 
+/** Events lose their current target once they were dispatched. */
+function keepCurrentTarget(event: any): any {
+  if (!event || typeof event !== "object" || !event.currentTarget) {
+    return event;
+  }
+  const currentTarget = event.currentTarget;
+  return new Proxy(event, {
+    get(original, name) {
+      if (name === "currentTarget") {
+        return currentTarget;
+      }
+      const value = original[name];
+      return typeof value === "function" ? value.bind(original) : value;
+    },
+  });
+}
+
 function createInlineJavaScript(
   name: string,
   inlineJavaScript: string,
-- 
2.43.0


From 6bb7770b418fc7e8bc4906ba421f9bbbd0351f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 66/90] fix: values of inputs are not replaced before all their
 events were acknowledged

---
 .../@reactpy/client/src/components.tsx        | 119 ++++++++++--------
 1 file changed, 69 insertions(+), 50 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 94fe109..a6bb657 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -275,19 +275,39 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     HTMLInputElement | HTMLSelectElement | HTMLTextAreaElement | null
   >(null);
   // Per-element (NOT per-handler) monotonic counter for outgoing
-  // events. The wrapper below installs this counter onto every
-  // handler via ``_reactpy_set_seq`` so the counter survives
-  // handler recreation on every server re-render. Each handler
-  // has its own per-handler ``outgoingSeq`` (used as the default
-  // when no wrapper is installed), but we override it here so the
-  // element owns a single monotonic counter across handlers.
+  // events, which survives handler recreation on every server
+  // re-render. Each handler has its own per-handler ``outgoingSeq``
+  // (used as the default when no wrapper is installed), but we
+  // override it here so the element owns a single monotonic counter
+  // across handlers.
   const sharedOutgoingSeq = useRef(0);
-  // Highest sequence number actually sent. The server's
-  // ``_reactpy_ack_seq`` will catch up to this. ``sharedOutgoingSeq``
-  // is incremented optimistically in the wrapper; ``lastSentSeq``
-  // is the high-water mark.
-  const lastSentSeq = useRef(-1);
+  // Highest sequence number actually sent to each target. The server's
+  // ``_reactpy_ack_seq`` will catch up to those of the current handlers.
+  const lastSentSeqs = useRef(new Map<string, number>()).current;
   const callsOf = useHandlerCalls(model);
+  const pendingCalls: HandlerCalls[] = [];
+  const targets = useRef<string[]>([]);
+  targets.current = Object.values(model.eventHandlers || {}).map(
+    (handler) => handler.target,
+  );
+  const lastAckSeq = useRef(-1);
+  // If the server does not know what it acknowledged before, another
+  // element took the place of the one which received the events.
+  const isReplaced = serverAckSeq < 0 && lastAckSeq.current >= 0;
+  lastAckSeq.current = serverAckSeq;
+  const forgottenTargets = useRef(0);
+  for (const target of [...lastSentSeqs.keys()]) {
+    // Nothing will be acknowledged for handlers that were removed either
+    if (isReplaced || !targets.current.includes(target)) {
+      lastSentSeqs.delete(target);
+      forgottenTargets.current++;
+    }
+  }
+
+  // Whether the server received all events that the user caused
+  const isServerCaughtUp = () =>
+    serverAckSeq >= Math.max(-1, ...lastSentSeqs.values()) &&
+    pendingCalls.every((calls) => calls.pendingArgs === null);
 
   // honor changes to value from the client via props
   useEffect(() => {
@@ -300,8 +320,8 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // deterministically.
     //
     // If the server has acknowledged every event the user has sent
-    // (``serverAckSeq >= lastSentSeq.current``), the server's value
-    // is the authoritative one and is applied directly. This
+    // (and none is held back by a throttle or debounce window), the
+    // server's value is the authoritative one and is applied directly. This
     // includes clears (Enter handlers that reset the input),
     // normalizations, and same-value confirmations.
     // If the server is behind, its value is necessarily a stale
@@ -315,7 +335,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // most recent keystroke), skip applying so we don't clobber
     // the user's text. This handles the realistic case where the
     // user types faster than the server can ack.
-    if (serverAckSeq < lastSentSeq.current) {
+    if (!isServerCaughtUp()) {
       return;
     }
     // Apply server's value to the DOM directly via the ref, NOT
@@ -346,7 +366,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
       inputRef.current.value = props.value;
     }
     setValue(props.value);
-  }, [props.value, serverAckSeq, model.tagName]);
+  }, [props.value, serverAckSeq, model.tagName, forgottenTargets.current]);
 
   for (const [name, prop] of Object.entries(props)) {
     if (typeof prop !== "function") {
@@ -358,6 +378,34 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
       continue;
     }
 
+    // Use a per-element (shared across all handlers on this
+    // element) monotonic counter for outgoing events. We
+    // overwrite the handler's own ``outgoingSeq`` with this
+    // counter so the wire-format seq number reflects the
+    // element-wide sequence. The handler closure's own
+    // ``outgoingSeq`` is unused for sequencing purposes now
+    // (it still exists as a default for non-wrapped callers).
+    //
+    // The counter is incremented on every *server dispatch*, so
+    // that the numbers are in the order in which the server
+    // receives them. Events whose dispatch is still held back
+    // are accounted for by ``pendingCalls``.
+    const target = model.eventHandlers?.[name]?.target as string;
+    const numbered = function (...args: any[]) {
+      const seq = sharedOutgoingSeq.current++;
+      if (targets.current.includes(target)) {
+        lastSentSeqs.set(target, seq);
+      }
+      const taggedHandler = givenHandler as TaggedEventHandler & {
+        _reactpy_set_seq?: (n: number) => void;
+      };
+      if (typeof taggedHandler._reactpy_set_seq === "function") {
+        taggedHandler._reactpy_set_seq(seq);
+      }
+      (givenHandler as (...a: any[]) => void)(...args);
+    } as TaggedEventHandler;
+    copyMarkers(numbered, givenHandler);
+
     // Apply ``throttle`` and/or ``debounce`` wrappers when the
     // handler opts into them. Throttle fires on the leading edge
     // (good for click-style events); debounce fires on the
@@ -367,50 +415,21 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // is the common case — the per-element seq reconcile is
     // already responsible for input coherency, so we don't apply
     // a debounce by default.
+    const throttleCalls = callsOf("throttle", name, numbered);
     const throttled = throttleHandler(
-      givenHandler,
+      numbered,
       givenHandler[HANDLER_THROTTLE],
-      callsOf("throttle", name, givenHandler),
+      throttleCalls,
     );
+    const debounceCalls = callsOf("debounce", name, throttled);
     const wrapped = debounceHandler(
       throttled,
       givenHandler[HANDLER_DEBOUNCE],
-      callsOf("debounce", name, throttled),
+      debounceCalls,
     );
+    pendingCalls.push(throttleCalls, debounceCalls);
 
     props[name] = (event: TargetedEvent<any>) => {
-      // Use a per-element (shared across all handlers on this
-      // element) monotonic counter for outgoing events. We
-      // overwrite the handler's own ``outgoingSeq`` with this
-      // counter so the wire-format seq number reflects the
-      // element-wide sequence. The handler closure's own
-      // ``outgoingSeq`` is unused for sequencing purposes now
-      // (it still exists as a default for non-wrapped callers).
-      //
-      // Critically, we increment the seq counter and update
-      // ``lastSentSeq`` on every *user* event, not on every
-      // server dispatch. If the handler is wrapped in a
-      // debounce that coalesces several events into one server
-      // dispatch, ``lastSentSeq`` will be higher than the seq
-      // actually sent to the server, which is fine — the seq
-      // we sent is the LATEST user-typed value, which is the
-      // one the server actually processed.
-      const seq = sharedOutgoingSeq.current++;
-      if (seq > lastSentSeq.current) {
-        lastSentSeq.current = seq;
-      }
-      const taggedHandler = givenHandler as TaggedEventHandler & {
-        _reactpy_set_seq?: (n: number) => void;
-      };
-      if (typeof taggedHandler._reactpy_set_seq === "function") {
-        // Push the handler's internal counter past our seq so
-        // the next (possibly debounced) dispatch uses a seq
-        // number that matches what the user just typed, not
-        // whatever stale value the handler closure happened
-        // to have left over.
-        taggedHandler._reactpy_set_seq(seq + 1);
-      }
-
       // ``onKeyPress`` fires before the DOM has been updated with
       // the new keystroke — ``event.target.value`` is the value
       // BEFORE the character was added. We deliberately do NOT
-- 
2.43.0


From 97ff35dae556cf163e0f23dd0d614884e80cdfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 67/90] fix: values of inputs that are numbers or booleans are
 shown

---
 src/js/packages/@reactpy/client/src/components.tsx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index a6bb657..6319311 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -347,7 +347,7 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     // browser manage the DOM value during typing and only override
     // it when it's safe to do so.
     //
-    // Crucially, only write when ``props.value`` is a real string.
+    // Crucially, only write when there is a ``props.value``.
     // Inputs without a ``value`` attribute in their VDOM (e.g.
     // uncontrolled inputs in the user_data and channel_layer tests)
     // arrive with ``props.value === undefined``; assigning
@@ -360,10 +360,10 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
     if (
       inputRef.current &&
       typeof inputRef.current.value === "string" &&
-      typeof props.value === "string" &&
-      inputRef.current.value !== props.value
+      ["string", "number", "boolean"].includes(typeof props.value) &&
+      inputRef.current.value !== String(props.value)
     ) {
-      inputRef.current.value = props.value;
+      inputRef.current.value = String(props.value);
     }
     setValue(props.value);
   }, [props.value, serverAckSeq, model.tagName, forgottenTargets.current]);
-- 
2.43.0


From f709bf2214fc8e6941a870ef7ceeff09ce0224f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 68/90] fix: the checked state of inputs is not replaced before
 their events were acknowledged

---
 src/js/packages/@reactpy/client/src/components.tsx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 6319311..98b2c43 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -461,6 +461,11 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
       controlledProps[key] = (props as Record<string, any>)[key];
     }
   }
+  // Preact applies ``checked`` on every render, so it is left as it is
+  // while the server has not caught up.
+  if ("checked" in controlledProps && inputRef.current && !isServerCaughtUp()) {
+    controlledProps.checked = (inputRef.current as HTMLInputElement).checked;
+  }
   return createElement(
     model.tagName,
     { ...controlledProps, ref: inputRef },
-- 
2.43.0


From d5c7d142500c770a020c63abbf47ed6aebc02c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:35 +0000
Subject: [PATCH 69/90] fix: notice changed web modules although size and
 modification time stayed the same

---
 src/reactpy/reactjs/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index 910af00..dbc1e38 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -168,6 +168,8 @@ def normalize_url_path(base_url: str, rel_url: str) -> str:
 def are_files_identical(f1: Path, f2: Path) -> bool:
     f1 = f1.resolve()
     f2 = f2.resolve()
+    # Files of the same size and time may have been compared before they changed
+    filecmp.clear_cache()
     return (
         (f1.is_symlink() or f2.is_symlink()) and (f1.resolve() == f2.resolve())
     ) or filecmp.cmp(str(f1), str(f2), shallow=False)
-- 
2.43.0


From 718de0c6b56807b6b16c159fbc35504e26d18df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:32 +0000
Subject: [PATCH 70/90] fix: a layout cannot be closed if an event handler
 replaces its cancellation

---
 src/reactpy/core/layout.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index fd6eeed..2f5c29d 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -163,7 +163,9 @@ class Layout(BaseLayout):
     async def _process_event_queue(
         self, target: str, queue: Queue[LayoutEventMessage | dict[str, Any]]
     ) -> None:
-        while True:
+        # A handler might have replaced (or suppressed) the cancellation by another error,
+        # in which case we must not wait for any further events.
+        while not self._closing:
             event = await queue.get()
 
             # Retry a few times to handle potential re-render race conditions where
-- 
2.43.0


From da606dba0afc2b8e80d048fda6f9d196bb40cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:31 +0000
Subject: [PATCH 71/90] fix: an update made right before a component is
 rendered by its parent causes another render

---
 src/reactpy/core/layout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 2f5c29d..02a1065 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -344,6 +344,8 @@ class Layout(BaseLayout):
 
         self._model_states_by_life_cycle_state_id[life_cycle_state.id] = new_state
 
+        await life_cycle_hook.affect_component_will_render(component)
+
         # If this component is scheduled to render, we can cancel that task since we
         # are rendering it now.  We keep the cancelled task in ``_render_tasks`` so
         # the semaphore token that ``_schedule_render_task`` released is still
@@ -355,7 +357,6 @@ class Layout(BaseLayout):
                 del self._render_tasks_by_id[life_cycle_state.id]
                 task.cancel()
 
-        await life_cycle_hook.affect_component_will_render(component)
         exit_stack.push_async_callback(life_cycle_hook.affect_layout_did_render)
         try:
             raw_model = component.render()
-- 
2.43.0


From fef9594209d53ce6f54d062dd820e3202f136962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:54 +0000
Subject: [PATCH 72/90] fix: closing a layout is left half done if the task is
 cancelled meanwhile

---
 src/reactpy/core/layout.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 02a1065..f8261b9 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -103,6 +103,19 @@ class Layout(BaseLayout):
     async def __aexit__(
         self, exc_type: type[Exception], exc_value: Exception, traceback: TracebackType
     ) -> None:
+        # Closing must not be interrupted half way, else effects would not be cleaned up
+        closing = create_task(self._close())
+        interruption: CancelledError | None = None
+        while not closing.done():
+            try:
+                await wait([closing])
+            except CancelledError as error:
+                interruption = error
+        closing.result()
+        if interruption is not None:
+            raise interruption
+
+    async def _close(self) -> None:
         root_csid = self._root_life_cycle_state_id
         root_model_state = self._model_states_by_life_cycle_state_id[root_csid]
 
-- 
2.43.0


From 0e11c74681d4bef095fa6b17cf41e74a1f98994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:54 +0000
Subject: [PATCH 73/90] fix: inline scripts of some standard events are treated
 as attributes by string_to_reactpy

---
 src/reactpy/transforms.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index 7a9f8c2..5ccc462 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -196,6 +196,21 @@ CSS_DECLARATION_PATTERN = re.compile(
 )
 
 KNOWN_REACT_PROPS = {
+    "onBeforeMatch",
+    "onBeforeToggle",
+    "onCancel",
+    "onClose",
+    "onCommand",
+    "onContextLost",
+    "onContextRestored",
+    "onCueChange",
+    "onFormData",
+    "onScrollEnd",
+    "onSecurityPolicyViolation",
+    "onSlotChange",
+    "onTransitionCancel",
+    "onTransitionRun",
+    "onTransitionStart",
     "onLoadStart",
     "onTouchStart",
     "onProgressCapture",
-- 
2.43.0


From e220710c51b1a30b14a627d6b1c8e494f1801247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:10 +0000
Subject: [PATCH 74/90] fix: PyScript components keep event handlers of earlier
 renders, and miss new ones

---
 .../executors/pyscript/layout_handler.py      | 47 ++++++++++++++-----
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 1a49c75..6131bfb 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -4,7 +4,7 @@ import logging
 
 import js
 from jsonpointer import set_pointer
-from pyodide.ffi.wrappers import add_event_listener
+from pyodide.ffi.wrappers import add_event_listener, remove_event_listener
 from pyscript.js_modules import morphdom
 
 from reactpy.core.layout import Layout
@@ -21,6 +21,7 @@ class ReactPyLayoutHandler:
     def __init__(self, uuid):
         self.uuid = uuid
         self.running_tasks = set()
+        self.event_listeners = []
 
     @staticmethod
     def update_model(update, root_model):
@@ -37,7 +38,7 @@ class ReactPyLayoutHandler:
         # Create a new container to render the layout into
         container = js.document.getElementById(f"pyscript-{self.uuid}")
         temp_root_container = container.cloneNode(False)
-        self.build_element_tree(layout, temp_root_container, model)
+        self.build_element_tree(temp_root_container, model)
 
         # Use morphdom to update the DOM
         morphdom.default(container, temp_root_container)
@@ -45,7 +46,13 @@ class ReactPyLayoutHandler:
         # Remove the cloned container to prevent memory leaks
         temp_root_container.remove()
 
-    def build_element_tree(self, layout, parent, model):
+        # Morphdom keeps existing elements (and their listeners) where possible
+        for listener in self.event_listeners:
+            remove_event_listener(*listener)
+        self.event_listeners.clear()
+        self.create_event_handlers(layout, container, [model])
+
+    def build_element_tree(self, parent, model):
         """Recursively build an element tree, starting from the root component."""
         # If the model is a string, add it as a text node
         if isinstance(model, str):
@@ -56,7 +63,7 @@ class ReactPyLayoutHandler:
             # If the model is a fragment, build the children
             if not model["tagName"]:
                 for child in model.get("children", []):
-                    self.build_element_tree(layout, parent, child)
+                    self.build_element_tree(parent, child)
                 return
 
             # Otherwise, get the VdomDict attributes
@@ -75,17 +82,9 @@ class ReactPyLayoutHandler:
                 else:
                     element.setAttribute(key, value)
 
-            # Add event handlers to the element
-            for event_name, event_handler_model in model.get(
-                "eventHandlers", {}
-            ).items():
-                self.create_event_handler(
-                    layout, element, event_name, event_handler_model
-                )
-
             # Recursively build the children
             for child in children:
-                self.build_element_tree(layout, element, child)
+                self.build_element_tree(element, child)
 
             # Append the element to the parent
             parent.appendChild(element)
@@ -95,6 +94,27 @@ class ReactPyLayoutHandler:
             msg = f"Unknown model type: {type(model)}"
             raise TypeError(msg)
 
+    def create_event_handlers(self, layout, parent, children):
+        """Recursively create the event handlers of all elements within a parent."""
+        for index, model in enumerate(self.iter_nodes(children)):
+            if isinstance(model, dict):
+                element = parent.childNodes.item(index)
+                for event_name, event_handler_model in model.get(
+                    "eventHandlers", {}
+                ).items():
+                    self.create_event_handler(
+                        layout, element, event_name, event_handler_model
+                    )
+                self.create_event_handlers(layout, element, model.get("children", []))
+
+    def iter_nodes(self, models):
+        """Iterate over models of text and elements, including those in fragments."""
+        for model in models:
+            if isinstance(model, dict) and not model["tagName"]:
+                yield from self.iter_nodes(model.get("children", []))
+            else:
+                yield model
+
     def create_event_handler(self, layout, element, event_name, event_handler_model):
         """Create an event handler for an element. This function is used as an
         adapter between ReactPy and browser events."""
@@ -115,6 +135,7 @@ class ReactPyLayoutHandler:
             event_name = event_name[2:]
 
         add_event_listener(element, event_name, event_handler)
+        self.event_listeners.append((element, event_name, event_handler))
 
     @staticmethod
     def delete_old_workspaces():
-- 
2.43.0


From 4a4b0f71b7db64c9dd23de35f56138a747d1de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:10 +0000
Subject: [PATCH 75/90] fix: PyScript components render attributes that are
 None or False

---
 src/reactpy/executors/pyscript/layout_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 6131bfb..d6e3e09 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -74,6 +74,9 @@ class ReactPyLayoutHandler:
 
             # Set the element's HTML attributes
             for key, value in attributes.items():
+                # These are not rendered, unless it's an `aria-*` or `data-*` attribute
+                if value is None or (value is False and key[4:5] != "-"):
+                    continue
                 if key == "style":
                     for style_key, style_value in value.items():
                         setattr(element.style, style_key, style_value)
-- 
2.43.0


From 255b9ee76602f30b2dc5d7c9ccf2818112d2f69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:10 +0000
Subject: [PATCH 76/90] fix: PyScript components do not associate labels by
 htmlFor

---
 src/reactpy/executors/pyscript/layout_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index d6e3e09..aa3cc48 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -82,6 +82,8 @@ class ReactPyLayoutHandler:
                         setattr(element.style, style_key, style_value)
                 elif key == "className":
                     element.className = value
+                elif key == "htmlFor":
+                    element.setAttribute("for", value)
                 else:
                     element.setAttribute(key, value)
 
-- 
2.43.0


From 7c89ca9e550533891c0f685c36fa9c131b9ed925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:10 +0000
Subject: [PATCH 77/90] fix: PyScript components ignore prevent_default and
 stop_propagation

---
 src/reactpy/executors/pyscript/layout_handler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index aa3cc48..6295530 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -126,6 +126,10 @@ class ReactPyLayoutHandler:
         target = event_handler_model["target"]
 
         def event_handler(*args):
+            if event_handler_model["preventDefault"]:
+                args[0].preventDefault()
+            if event_handler_model["stopPropagation"]:
+                args[0].stopPropagation()
             # When the event is triggered, deliver the event to the `Layout` within a background task
             task = asyncio.create_task(
                 layout.deliver({"type": "layout-event", "target": target, "data": args})
-- 
2.43.0


From 2a202b8f6ace8ae3f5551037e49337497e5eed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:10 +0000
Subject: [PATCH 78/90] fix: PyScript components never get double click events

---
 src/reactpy/executors/pyscript/layout_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 6295530..ff4efd8 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -142,6 +142,8 @@ class ReactPyLayoutHandler:
         event_name = event_name.lower()
         if event_name.startswith("on"):
             event_name = event_name[2:]
+        if event_name == "doubleclick":
+            event_name = "dblclick"
 
         add_event_listener(element, event_name, event_handler)
         self.event_listeners.append((element, event_name, event_handler))
-- 
2.43.0


From 32d8de8da5e0fc9514e400107a95986c68fd8fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:10 +0000
Subject: [PATCH 79/90] fix: PyScript components that were removed from the
 page keep on running

---
 src/reactpy/executors/pyscript/layout_handler.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index ff4efd8..e9a995f 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -1,6 +1,7 @@
 # type: ignore
 import asyncio
 import logging
+import sys
 
 import js
 from jsonpointer import set_pointer
@@ -157,25 +158,26 @@ class ReactPyLayoutHandler:
         # Find all PyScript workspaces that are still on the page
         dom_workspaces = js.document.querySelectorAll(".pyscript")
         dom_uuids = {element.dataset.uuid for element in dom_workspaces}
+        workspaces = vars(sys.modules["__main__"])
         python_uuids = {
             value.split("_")[-1]
-            for value in globals()
+            for value in workspaces
             if value.startswith("user_workspace_")
         }
 
         # Delete any workspaces that are no longer in use
         for uuid in python_uuids - dom_uuids:
             task_name = f"task_{uuid}"
-            if task_name in globals():
-                task: asyncio.Task = globals()[task_name]
+            if task_name in workspaces:
+                task: asyncio.Task = workspaces[task_name]
                 task.cancel()
-                del globals()[task_name]
+                del workspaces[task_name]
             else:
                 logging.error("Could not auto delete PyScript task %s", task_name)
 
             workspace_name = f"user_workspace_{uuid}"
-            if workspace_name in globals():
-                del globals()[workspace_name]
+            if workspace_name in workspaces:
+                del workspaces[workspace_name]
             else:
                 logging.error(
                     "Could not auto delete PyScript workspace %s", workspace_name
-- 
2.43.0


From 64272afad1cd41f5823cd9dbed5e3f138e196380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:33 +0000
Subject: [PATCH 80/90] fix: JavaScript modules cannot send or receive messages
 through their context

---
 src/js/packages/@reactpy/client/src/vdom.tsx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index 6661ce8..5c5df42 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -40,8 +40,8 @@ export async function loadImportSource(
 
   return (node: HTMLElement) => {
     const binding = bind(node, {
-      sendMessage: client.sendMessage,
-      onMessage: client.onMessage,
+      sendMessage: (message) => client.sendMessage(message),
+      onMessage: (type, handler) => client.onMessage(type, handler),
     });
     if (
       !(
-- 
2.43.0


From 31d1bbe2deab9d808023ba94b4e4a40fbfd773a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:33 +0000
Subject: [PATCH 81/90] fix: Bindings of JavaScript modules are unmounted
 without their own this

---
 src/js/packages/@reactpy/client/src/vdom.tsx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/packages/@reactpy/client/src/vdom.tsx b/src/js/packages/@reactpy/client/src/vdom.tsx
index 5c5df42..25b327f 100644
--- a/src/js/packages/@reactpy/client/src/vdom.tsx
+++ b/src/js/packages/@reactpy/client/src/vdom.tsx
@@ -65,7 +65,7 @@ export async function loadImportSource(
             currentImportSource: vdomImportSource,
           }),
         ),
-      unmount: binding.unmount,
+      unmount: () => binding.unmount(),
     };
   };
 }
-- 
2.43.0


From a9fcc076abbafbe1dd1caa340a7b218c07714deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:33 +0000
Subject: [PATCH 82/90] fix: Images with event handlers cannot be sent to the
 client

---
 src/reactpy/widgets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/widgets.py b/src/reactpy/widgets.py
index ef9c6ef..e4c276a 100644
--- a/src/reactpy/widgets.py
+++ b/src/reactpy/widgets.py
@@ -25,7 +25,7 @@ def image(
     base64_value = b64encode(bytes_value).decode()
     src = f"data:image/{format};base64,{base64_value}"
 
-    return VdomDict(tagName="img", attributes={"src": src, **(attributes or {})})
+    return html.img({"src": src, **(attributes or {})})
 
 
 _Value = TypeVar("_Value")
-- 
2.43.0


From fe39713768f0ef63717802fc3d38ee91249d7d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:07 +0000
Subject: [PATCH 83/90] fix: Processes that make the PyScript wheel at the same
 time break it for each other

---
 src/reactpy/executors/pyscript/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 8faa9b4..29b09dd 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -373,12 +373,13 @@ def _copy_reactpy_wheel_to_static_dir(wheel_file: Path) -> Path:
 
     for existing in static_wheels_dir.glob("reactpy-*.whl"):
         if existing != static_wheel:
-            existing.unlink()
+            existing.unlink(missing_ok=True)
 
     if wheel_file.resolve() == static_wheel.resolve():
         return static_wheel
 
-    temp_wheel = static_wheel.with_suffix(f"{static_wheel.suffix}.tmp")
+    # Other processes might do the same at this time
+    temp_wheel = static_wheel.with_suffix(f"{static_wheel.suffix}.{uuid4().hex}.tmp")
     shutil.copy2(wheel_file, temp_wheel)
     temp_wheel.replace(static_wheel)
     return static_wheel
@@ -407,7 +408,8 @@ def _rebuild_installed_reactpy_wheel() -> Path | None:
     static_wheels_dir.mkdir(parents=True, exist_ok=True)
 
     wheel_path = static_wheels_dir / _installed_wheel_name(files, distribution)
-    temp_wheel_path = wheel_path.with_suffix(".tmp")
+    # Other processes might do the same at this time
+    temp_wheel_path = wheel_path.with_suffix(f".{uuid4().hex}.tmp")
 
     record_rows: list[tuple[str, str, str]] = []
     record_name = _installed_wheel_record_name(files)
-- 
2.43.0


From 02e5011ac75192362000d416eb67266bf197acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:42 +0000
Subject: [PATCH 84/90] fix: Effects of earlier renders are kept until their
 component is unmounted

Each run of an effect left a task behind that waited for the component to be
unmounted, and each render an event. Components that are shown for long use
ever more memory.
---
 src/reactpy/core/_life_cycle_hook.py | 37 ++++++++++++++++------------
 src/reactpy/core/hooks.py            | 22 ++++++++++++++---
 2 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 021d609..9b56743 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -137,7 +137,6 @@ class LifeCycleHook:
         "_current_state_index",
         "_effect_funcs",
         "_effect_stops",
-        "_effect_tasks",
         "_render_access",
         "_schedule_render_callback",
         "_scheduled_render",
@@ -157,8 +156,7 @@ class LifeCycleHook:
         self._current_state_index = 0
         self._state: list = []
         self._effect_funcs: list[EffectFunc] = []
-        self._effect_tasks: list[Task[None]] = []
-        self._effect_stops: list[Event] = []
+        self._effect_stops: dict[Task[None], Event] = {}
         self._render_access = Semaphore(1)  # ensure only one render at a time
 
     def schedule_render(self) -> None:
@@ -232,26 +230,33 @@ class LifeCycleHook:
 
     async def affect_layout_did_render(self) -> None:
         """The layout completed a render"""
-        stop = Event()
-        self._effect_stops.append(stop)
-        self._effect_tasks.extend(create_task(e(stop)) for e in self._effect_funcs)
+        for effect_func in self._effect_funcs:
+            # A stop event per effect, since they do not have to end together
+            stop = Event()
+            task = create_task(effect_func(stop))
+            self._effect_stops[task] = stop
+            task.add_done_callback(self._effect_did_end)
         self._effect_funcs.clear()
 
     async def affect_component_will_unmount(self) -> None:
         """The component is about to be removed from the layout"""
         # effects of a render that was discarded must not start any more
         self._effect_funcs.clear()
-        for stop in self._effect_stops:
+        effect_stops = dict(self._effect_stops)
+        for stop in effect_stops.values():
             stop.set()
-        self._effect_stops.clear()
-        try:
-            # an error in one effect must not keep us from waiting for the others
-            results = await gather(*self._effect_tasks, return_exceptions=True)
-        finally:
-            self._effect_tasks.clear()
-        for error in results:
-            if isinstance(error, Exception):
-                logger.error("Error in effect", exc_info=error)
+        # an error in one effect must not keep us from waiting for the others
+        await gather(*effect_stops, return_exceptions=True)
+        for task in effect_stops:
+            self._effect_did_end(task)
+
+    def _effect_did_end(self, task: Task[None]) -> None:
+        """Keep nothing of an effect that ended, which may be long before we unmount"""
+        if self._effect_stops.pop(task, None) is None or task.cancelled():
+            return None
+        error = task.exception()
+        if isinstance(error, Exception):
+            logger.error("Error in effect", exc_info=error)
 
     def set_current(self) -> None:
         """Set this hook as the active hook in this thread
diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index e6a433d..fbe3d2d 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -146,6 +146,7 @@ def use_effect(
     dependencies = _try_to_infer_closure_values(function, dependencies)
     memoize = use_memo(dependencies=dependencies)
     cleanup_func: Ref[_EffectCleanFunc | None] = use_ref(None)
+    latest_stop: Ref[asyncio.Event | None] = use_ref(None)
 
     def decorator(func: _SyncEffectFunc) -> None:
         if inspect.iscoroutinefunction(func):
@@ -157,6 +158,11 @@ def use_effect(
         async def effect(stop: asyncio.Event) -> None:
             run_effect_cleanup(cleanup_func)
 
+            # The previous effect has nothing left to wait for
+            if latest_stop.current is not None:
+                latest_stop.current.set()
+            latest_stop.current = stop
+
             # Execute the effect and store the clean-up function
             cleanup_func.current = func()
 
@@ -164,8 +170,9 @@ def use_effect(
             await stop.wait()
 
             # Run the clean-up function when the effect is stopped,
-            # if it hasn't been run already by a new effect
-            run_effect_cleanup(cleanup_func)
+            # unless a new effect took over
+            if latest_stop.current is stop:
+                run_effect_cleanup(cleanup_func)
 
         return memoize(lambda: hook.add_effect(effect))
 
@@ -229,6 +236,7 @@ def use_async_effect(
     memoize = use_memo(dependencies=dependencies)
     cleanup_func: Ref[_EffectCleanFunc | None] = use_ref(None)
     pending_task: Ref[asyncio.Task[_EffectCleanFunc | None] | None] = use_ref(None)
+    latest_stop: Ref[asyncio.Event | None] = use_ref(None)
 
     def decorator(func: _AsyncEffectFunc) -> None:
         def collect(task: asyncio.Task[_EffectCleanFunc | None]) -> None:
@@ -253,6 +261,11 @@ def use_async_effect(
             if stop.is_set():
                 return
 
+            # The previous effect has nothing left to wait for
+            if latest_stop.current is not None:
+                latest_stop.current.set()
+            latest_stop.current = stop
+
             # Execute the effect and store the clean-up function.
             # We run this in a task so it can be cancelled if the stop signal
             # is set before the effect completes.
@@ -279,8 +292,9 @@ def use_async_effect(
             await stop_task
 
             # Run the clean-up function when the effect is stopped,
-            # if it hasn't been run already by a new effect
-            run_effect_cleanup(cleanup_func)
+            # unless a new effect took over
+            if latest_stop.current is stop:
+                run_effect_cleanup(cleanup_func)
 
             # Report the error if the effect failed
             if not task.cancelled():
-- 
2.43.0


From fbbfe875b60e614ef3223a8af0934b855bbac1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:32 +0000
Subject: [PATCH 85/90] fix: Layouts keep the events' queues and the last
 renders of removed elements

For every target that ever got an event, also those that never existed, a task
waited for more until the layout was closed. Its last handler, with all that it
refers to, was kept with it.
---
 src/reactpy/core/layout.py | 60 +++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index f8261b9..bcd0c16 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -73,6 +73,8 @@ class Layout(BaseLayout):
         self._event_handler_owners: dict[str, _ModelState] = {}
         self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
+        # Queues whose processing task waits for the next event
+        self._idle_event_queues: set[Queue[LayoutEventMessage | dict[str, Any]]] = set()
         # Render tasks in the order they were scheduled. Updates must be emitted in
         # the order they were rendered, else the client would apply stale content.
         self._render_tasks: deque[Task[LayoutUpdateMessage | None]] = deque()
@@ -132,7 +134,8 @@ class Layout(BaseLayout):
             with suppress(CancelledError, Exception):
                 await t
 
-        for t in self._event_processing_tasks.values():
+        while self._event_processing_tasks:
+            _, t = self._event_processing_tasks.popitem()
             t.cancel()
             with suppress(CancelledError):
                 await t
@@ -158,16 +161,21 @@ class Layout(BaseLayout):
         # events if the element and the handler exist in the backend. Otherwise
         # we just ignore the event.
         target = event["target"]
-        if target not in self._event_queues:
-            self._event_queues[target] = cast(
-                "Queue[LayoutEventMessage | dict[str, Any]]",
-                Queue(REACTPY_MAX_QUEUE_SIZE.current),
-            )
-            self._event_processing_tasks[target] = create_task(
-                self._process_event_queue(target, self._event_queues[target])
-            )
+        queues = self._event_queues
+        queue = None
+        # The queue could be given up while we wait until there is a place in it
+        while queue is None or queues.get(target) is not queue:
+            if target not in queues:
+                queues[target] = cast(
+                    "Queue[LayoutEventMessage | dict[str, Any]]",
+                    Queue(REACTPY_MAX_QUEUE_SIZE.current),
+                )
+                self._event_processing_tasks[target] = create_task(
+                    self._process_event_queue(target, queues[target])
+                )
 
-        await self._event_queues[target].put(event)
+            queue = queues[target]
+            await queue.put(event)
 
         # In test environments, we yield to the event loop to let the processing tasks run.
         if REACTPY_DEBUG.current:
@@ -179,7 +187,11 @@ class Layout(BaseLayout):
         # A handler might have replaced (or suppressed) the cancellation by another error,
         # in which case we must not wait for any further events.
         while not self._closing:
-            event = await queue.get()
+            self._idle_event_queues.add(queue)
+            try:
+                event = await queue.get()
+            finally:
+                self._idle_event_queues.discard(queue)
 
             # Retry a few times to handle potential re-render race conditions where
             # the handler is temporarily removed and then re-added.
@@ -215,6 +227,28 @@ class Layout(BaseLayout):
                     "does not exist or its component unmounted"
                 )
 
+            # The handler can refer to much that is not needed any more
+            del event, handler
+
+            # Nothing is kept for targets that do not exist (any more)
+            if queue.empty() and target not in self._event_handlers:
+                self._event_queues.pop(target, None)
+                self._event_processing_tasks.pop(target, None)
+                break
+
+    def _give_up_event_queues(self, state: _ModelState) -> None:
+        """Stop waiting for events of targets which an element does not have any more"""
+        for target in state.targets_by_event.values():
+            queue = self._event_queues.get(target)
+            if (
+                target not in self._event_handlers
+                and queue in self._idle_event_queues
+                and queue.empty()
+            ):
+                self._idle_event_queues.remove(queue)
+                del self._event_queues[target]
+                self._event_processing_tasks.pop(target).cancel()
+
     async def render(self) -> LayoutUpdateMessage:
         if REACTPY_ASYNC_RENDERING.current:
             return await self._parallel_render()
@@ -431,6 +465,8 @@ class Layout(BaseLayout):
         if "importSource" in raw_model:
             new_state.model.current["importSource"] = raw_model["importSource"]
         self._render_model_attributes(old_state, new_state, raw_model)
+        if old_state is not None:
+            self._give_up_event_queues(old_state)
         await self._render_model_children(
             exit_stack, old_state, new_state, raw_model.get("children", [])
         )
@@ -629,10 +665,12 @@ class Layout(BaseLayout):
             for target in model_state.targets_by_event.values():
                 if target not in self._event_handlers:
                     self._last_event_seq_by_target.pop(target, None)
+            self._give_up_event_queues(model_state)
 
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
                 # An interrupted render can leave more than one state per component
+                self._render_tasks_by_id.pop(life_cycle_state.id, None)
                 if self._model_states_by_life_cycle_state_id.pop(
                     life_cycle_state.id, None
                 ):
-- 
2.43.0


From f1cc19edc323162f8e74c078e1c088e3c2c9b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:55 +0000
Subject: [PATCH 86/90] fix: Async effects that follow each other quickly may
 run in the wrong order

---
 src/reactpy/core/hooks.py | 43 +++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index fbe3d2d..22d7557 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -237,6 +237,7 @@ def use_async_effect(
     cleanup_func: Ref[_EffectCleanFunc | None] = use_ref(None)
     pending_task: Ref[asyncio.Task[_EffectCleanFunc | None] | None] = use_ref(None)
     latest_stop: Ref[asyncio.Event | None] = use_ref(None)
+    turns = _use_const(asyncio.Lock)
 
     def decorator(func: _AsyncEffectFunc) -> None:
         def collect(task: asyncio.Task[_EffectCleanFunc | None]) -> None:
@@ -247,30 +248,32 @@ def use_async_effect(
                     cleanup_func.current = task.result()
 
         async def effect(stop: asyncio.Event) -> None:
-            # Make sure we always clean up the previous effect's resources. Another
-            # effect might get started while we wait so we have to check again.
-            while (previous_task := pending_task.current) is not None:
-                if not shield and not previous_task.cancelling():
-                    previous_task.cancel()
-                await asyncio.wait([previous_task])
-                collect(previous_task)
+            # Effects take over in the order of their renders, even if the previous one
+            # just ended when a later effect looks at it
+            async with turns:
+                # Make sure we always clean up the previous effect's resources
+                if (previous_task := pending_task.current) is not None:
+                    if not shield and not previous_task.cancelling():
+                        previous_task.cancel()
+                    await asyncio.wait([previous_task])
+                    collect(previous_task)
 
-            run_effect_cleanup(cleanup_func)
+                run_effect_cleanup(cleanup_func)
 
-            # The component was unmounted while we waited
-            if stop.is_set():
-                return
+                # The component was unmounted while we waited
+                if stop.is_set():
+                    return
 
-            # The previous effect has nothing left to wait for
-            if latest_stop.current is not None:
-                latest_stop.current.set()
-            latest_stop.current = stop
+                # The previous effect has nothing left to wait for
+                if latest_stop.current is not None:
+                    latest_stop.current.set()
+                latest_stop.current = stop
 
-            # Execute the effect and store the clean-up function.
-            # We run this in a task so it can be cancelled if the stop signal
-            # is set before the effect completes.
-            task = asyncio.create_task(func())
-            pending_task.current = task
+                # Execute the effect and store the clean-up function.
+                # We run this in a task so it can be cancelled if the stop signal
+                # is set before the effect completes.
+                task = asyncio.create_task(func())
+                pending_task.current = task
 
             # Wait for either the effect to complete or the stop signal
             stop_task = asyncio.create_task(stop.wait())
-- 
2.43.0


From d2321417b02853d731f7cec8f9c685f6f6c1991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:04 +0000
Subject: [PATCH 87/90] fix: A state set in another thread is not shown if the
 render is done before the flag is set

---
 src/reactpy/core/_life_cycle_hook.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 9b56743..bbf9d78 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -162,13 +162,14 @@ class LifeCycleHook:
     def schedule_render(self) -> None:
         if self._scheduled_render:
             return None
+        # If we are in another thread, the render might be done before the callback returns
+        self._scheduled_render = True
         try:
             self._schedule_render_callback()
         except Exception:
+            self._scheduled_render = False
             msg = f"Failed to schedule render via {self._schedule_render_callback}"
             logger.exception(msg)
-        else:
-            self._scheduled_render = True
 
     def use_state(self, function: Callable[[], T]) -> T:
         """Add state to this hook
-- 
2.43.0


From 987863f96c21279ca0c8158a8fb4f4fc8357a1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:14 +0000
Subject: [PATCH 88/90] fix: With asynchronous rendering a state that is set in
 another thread is not shown

---
 src/reactpy/core/layout.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index bcd0c16..393f0f2 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -86,6 +86,7 @@ class Layout(BaseLayout):
         # complete in the order they were scheduled.
         self._render_lock = Lock()
         self._closing = False
+        self._loop = get_running_loop()
         self._rendering_queue: _ThreadSafeQueue[_LifeCycleStateId] = _ThreadSafeQueue()
         # Per-target event sequence tracking. Each incoming layout-event
         # may carry an optional ``seq`` field (assigned by the client)
@@ -682,6 +683,19 @@ class Layout(BaseLayout):
         if not REACTPY_ASYNC_RENDERING.current:
             self._rendering_queue.put(lcs_id)
             return None
+        try:
+            is_own_loop = get_running_loop() is self._loop
+        except RuntimeError:
+            is_own_loop = False
+        if is_own_loop:
+            self._create_render_task(lcs_id)
+        else:
+            # The state was set in another thread
+            self._loop.call_soon_threadsafe(self._create_render_task, lcs_id)
+
+    def _create_render_task(self, lcs_id: _LifeCycleStateId) -> None:
+        if self._closing:
+            return None
         if lcs_id not in self._model_states_by_life_cycle_state_id:
             logger.debug(
                 "Did not render component with model state ID "
-- 
2.43.0


From ab2d9921676267b70072b24afcc36f81ac2d1816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:14 +0000
Subject: [PATCH 89/90] fix: Serial rendering ends if two threads set the state
 of a component

---
 src/reactpy/core/layout.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 393f0f2..acf255e 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -962,12 +962,13 @@ class _ThreadSafeQueue(Generic[_Type]):
         self._put_tasks: dict[_Type, Task[None]] = {}
 
     def put(self, value: _Type) -> None:
-        if value not in self._pending:
-            self._pending.add(value)
-            self._loop.call_soon_threadsafe(self._schedule_put, value)
+        self._loop.call_soon_threadsafe(self._schedule_put, value)
 
     def _schedule_put(self, value: _Type) -> None:
-        self._put_tasks[value] = create_task(self._put_with_backpressure(value))
+        # Only look at what is pending within the loop, since other threads may put too
+        if value not in self._pending:
+            self._pending.add(value)
+            self._put_tasks[value] = create_task(self._put_with_backpressure(value))
 
     async def _put_with_backpressure(self, value: _Type) -> None:
         try:
-- 
2.43.0


From 33b836d50322e96a0e2315bee53f5d9ab41dca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:38:46 +0000
Subject: [PATCH 90/90] fix: handle the events of a target in order even if
 they wait for a place in its queue

---
 src/reactpy/core/layout.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index acf255e..5924832 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -71,10 +71,10 @@ class Layout(BaseLayout):
         self._event_handlers: EventHandlerDict = {}
         # The model state which most recently registered a handler for a target
         self._event_handler_owners: dict[str, _ModelState] = {}
-        self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
+        self._event_queues: dict[str, _EventQueue] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
         # Queues whose processing task waits for the next event
-        self._idle_event_queues: set[Queue[LayoutEventMessage | dict[str, Any]]] = set()
+        self._idle_event_queues: set[_EventQueue] = set()
         # Render tasks in the order they were scheduled. Updates must be emitted in
         # the order they were rendered, else the client would apply stale content.
         self._render_tasks: deque[Task[LayoutUpdateMessage | None]] = deque()
@@ -167,10 +167,7 @@ class Layout(BaseLayout):
         # The queue could be given up while we wait until there is a place in it
         while queue is None or queues.get(target) is not queue:
             if target not in queues:
-                queues[target] = cast(
-                    "Queue[LayoutEventMessage | dict[str, Any]]",
-                    Queue(REACTPY_MAX_QUEUE_SIZE.current),
-                )
+                queues[target] = _EventQueue(REACTPY_MAX_QUEUE_SIZE.current)
                 self._event_processing_tasks[target] = create_task(
                     self._process_event_queue(target, queues[target])
                 )
@@ -182,9 +179,7 @@ class Layout(BaseLayout):
         if REACTPY_DEBUG.current:
             await sleep(0)
 
-    async def _process_event_queue(
-        self, target: str, queue: Queue[LayoutEventMessage | dict[str, Any]]
-    ) -> None:
+    async def _process_event_queue(self, target: str, queue: _EventQueue) -> None:
         # A handler might have replaced (or suppressed) the cancellation by another error,
         # in which case we must not wait for any further events.
         while not self._closing:
@@ -232,7 +227,7 @@ class Layout(BaseLayout):
             del event, handler
 
             # Nothing is kept for targets that do not exist (any more)
-            if queue.empty() and target not in self._event_handlers:
+            if queue.is_unused() and target not in self._event_handlers:
                 self._event_queues.pop(target, None)
                 self._event_processing_tasks.pop(target, None)
                 break
@@ -244,7 +239,7 @@ class Layout(BaseLayout):
             if (
                 target not in self._event_handlers
                 and queue in self._idle_event_queues
-                and queue.empty()
+                and queue.is_unused()
             ):
                 self._idle_event_queues.remove(queue)
                 del self._event_queues[target]
@@ -994,6 +989,26 @@ class _ThreadSafeQueue(Generic[_Type]):
         self._pending.clear()
 
 
+class _EventQueue(Queue["LayoutEventMessage | dict[str, Any]"]):
+    """A queue in which events keep their order even if they wait for a place in it"""
+
+    def __init__(self, maxsize: int) -> None:
+        super().__init__(maxsize)
+        self._turn = Lock()
+        self._waiting = 0
+
+    async def put(self, item: LayoutEventMessage | dict[str, Any]) -> None:
+        self._waiting += 1
+        try:
+            async with self._turn:
+                await super().put(item)
+        finally:
+            self._waiting -= 1
+
+    def is_unused(self) -> bool:
+        return self.empty() and not self._waiting
+
+
 @dataclass(frozen=True)
 class _Position:
     """Identifies a child without a key - never equal to a key given by the user"""
-- 
2.43.0

