From a5f2f6512924fff73b8680d3fb759fbb807c2022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 01/12] fix: Fail Anycast senders blocked on a full buffer when
 the channel is closed

A sender waiting for free space was woken up by close() but went back to wait
(forever if nobody receives), or stored its message in the already closed
channel, possibly after all receivers were told it was closed.
---
 src/frequenz/channels/_anycast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index 2ea0515..bc03929 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -350,6 +350,11 @@ class _Sender(Sender[_T]):
             while len(self._channel._deque) == self._channel._deque.maxlen:
                 async with self._channel._send_cv:
                     await self._channel._send_cv.wait()
+                # The channel could have been closed while we were waiting.
+                if self._channel._closed:
+                    raise SenderError(
+                        "The channel was closed", self
+                    ) from ChannelClosedError(self._channel)
             _logger.info(
                 "Anycast channel [%s] has space again, resuming the blocked sender",
                 self,
-- 
2.43.0


From 3d972965b12a56fdf47c2b6d807a4615563562c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 02/12] fix: Pass on the wake up of a cancelled Anycast waiter

A sender or receiver cancelled after it was notified but before it could run
consumed the notification, so another one could wait forever although there was
free space (or a message) in the channel.
---
 src/frequenz/channels/_anycast.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index bc03929..66c71e9 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -6,7 +6,7 @@
 from __future__ import annotations
 
 import logging
-from asyncio import Condition
+from asyncio import CancelledError, Condition
 from collections import deque
 from typing import Generic, TypeVar
 
@@ -301,6 +301,25 @@ class Anycast(Generic[ChannelMessageT]):
         )
 
 
+async def _wait(condition: Condition) -> None:
+    """Wait for a condition to be notified, without losing wake ups when cancelled.
+
+    If the waiting task was already notified when it gets cancelled, nobody else is
+    going to use that notification, so it needs to be passed on to the next waiter.
+
+    Args:
+        condition: The (acquired) condition to wait for.
+
+    Raises:
+        CancelledError: If the waiting task was cancelled.
+    """
+    try:
+        await condition.wait()
+    except CancelledError:
+        condition.notify(1)
+        raise
+
+
 _T = TypeVar("_T")
 
 
@@ -349,7 +368,7 @@ class _Sender(Sender[_T]):
             )
             while len(self._channel._deque) == self._channel._deque.maxlen:
                 async with self._channel._send_cv:
-                    await self._channel._send_cv.wait()
+                    await _wait(self._channel._send_cv)
                 # The channel could have been closed while we were waiting.
                 if self._channel._closed:
                     raise SenderError(
@@ -415,7 +434,7 @@ class _Receiver(Receiver[_T]):
             if self._channel._closed:
                 return False
             async with self._channel._recv_cv:
-                await self._channel._recv_cv.wait()
+                await _wait(self._channel._recv_cv)
         self._next = self._channel._deque.popleft()
         async with self._channel._send_cv:
             self._channel._send_cv.notify(1)
-- 
2.43.0


From 5cab87813c79ac790bcd391cd052b5a1d84fa8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 03/12] fix: Don't overwrite a ready Anycast message in
 concurrent calls to ready()

When two tasks waited in ready() for the same receiver (for example a select()
loop started right after leaving another one), the second message taken from the
channel replaced the first one, which was lost.
---
 src/frequenz/channels/_anycast.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index 66c71e9..d9aa438 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -6,7 +6,7 @@
 from __future__ import annotations
 
 import logging
-from asyncio import CancelledError, Condition
+from asyncio import CancelledError, Condition, Lock
 from collections import deque
 from typing import Generic, TypeVar
 
@@ -414,6 +414,9 @@ class _Receiver(Receiver[_T]):
 
         self._next: _T | type[_Empty] = _Empty
 
+        self._ready_lock: Lock = Lock()
+        """The lock held by the task that is waiting to set the next message."""
+
     async def ready(self) -> bool:
         """Wait until the receiver is ready with a message or an error.
 
@@ -429,6 +432,17 @@ class _Receiver(Receiver[_T]):
         if self._next is not _Empty:
             return True
 
+        # Only one task at a time can take a message from the channel, otherwise it
+        # could overwrite a message that is ready but was not consumed yet.
+        async with self._ready_lock:
+            return self._next is not _Empty or await self._take_next()
+
+    async def _take_next(self) -> bool:
+        """Wait for a message in the channel and take it.
+
+        Returns:
+            Whether the receiver is still active.
+        """
         # pylint: disable=protected-access
         while len(self._channel._deque) == 0:
             if self._channel._closed:
-- 
2.43.0


From 0e30c8cbb0b231e985e8dafc2505d431f210c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 04/12] fix: Resend the latest Broadcast message also when it
 is None

None is a valid message, but it was confused with not having a latest message.
---
 src/frequenz/channels/_broadcast.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index b217aa0..0d9cea4 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -9,7 +9,7 @@ import logging
 import weakref
 from asyncio import Condition
 from collections import deque
-from typing import Generic, TypeVar
+from typing import Generic, TypeVar, cast
 
 from ._exceptions import ChannelClosedError
 from ._generic import ChannelMessageT
@@ -216,6 +216,9 @@ class Broadcast(Generic[ChannelMessageT]):
         self._latest: ChannelMessageT | None = None
         """The latest message sent to the channel."""
 
+        self._has_latest: bool = False
+        """Whether there is a latest message (any value, including `None`, is valid)."""
+
         self.resend_latest: bool = resend_latest
         """Whether to resend the latest message to new receivers.
 
@@ -258,6 +261,7 @@ class Broadcast(Generic[ChannelMessageT]):
         immediately.
         """
         self._latest = None
+        self._has_latest = False
         self._closed = True
         async with self._recv_cv:
             self._recv_cv.notify_all()
@@ -284,8 +288,8 @@ class Broadcast(Generic[ChannelMessageT]):
         """
         recv: _Receiver[ChannelMessageT] = _Receiver(self, name=name, limit=limit)
         self._receivers[hash(recv)] = weakref.ref(recv)
-        if self.resend_latest and self._latest is not None:
-            recv.enqueue(self._latest)
+        if self.resend_latest and self._has_latest:
+            recv.enqueue(cast(ChannelMessageT, self._latest))
         return recv
 
     def __str__(self) -> str:
@@ -340,6 +344,7 @@ class _Sender(Sender[_T]):
                 self._channel
             )
         self._channel._latest = message
+        self._channel._has_latest = True
         stale_refs = []
         for _hash, recv_ref in self._channel._receivers.items():
             recv = recv_ref()
-- 
2.43.0


From a973a32a828a0225b33092d6d0e68566a007b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 05/12] fix: Make Merger safe when it is stopped or used while
 waiting for messages

A ready() or receive() call waiting when stop() was called raised CancelledError,
and two tasks waiting at the same time got the same messages twice, and left
background tasks running after the receivers were stopped.
---
 src/frequenz/channels/_merge.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 6be4302..6c7cdf1 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -130,10 +130,11 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
     async def stop(self) -> None:
         """Stop this merger."""
-        for task in self._pending:
+        # Tasks that are waiting in `ready()` must not see the cancelled tasks.
+        pending, self._pending = self._pending, set()
+        for task in pending:
             task.cancel()
-        await asyncio.gather(*self._pending, return_exceptions=True)
-        self._pending = set()
+        await asyncio.gather(*pending, return_exceptions=True)
 
     async def ready(self) -> bool:
         """Wait until the receiver is ready with a message or an error.
@@ -157,9 +158,13 @@ class Merger(Receiver[ReceiverMessageT_co]):
             if len(self._pending) == 0:
                 return False
 
-            done, self._pending = await asyncio.wait(
+            done, _ = await asyncio.wait(
                 self._pending, return_when=asyncio.FIRST_COMPLETED
             )
+            # Other tasks calling `ready()` or `stop()` while we were waiting could have
+            # taken care of some of the pending tasks already.
+            done &= self._pending
+            self._pending -= done
             for item in done:
                 name = item.get_name()
                 # if channel is closed, don't add a task for it again.
-- 
2.43.0


From 706585c90665182271b5ee2ab9482e019a6f56a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 06/12] fix: Raise the errors of a merged receiver when
 consuming, without losing messages

If a receiver being merged failed, for example because the function used in map()
raised, the error was raised in ready(), the receiver was not used any more and
messages received at the same time by the other receivers were lost.
---
 src/frequenz/channels/_merge.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 6c7cdf1..8c8349f 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -120,7 +120,9 @@ class Merger(Receiver[ReceiverMessageT_co]):
             asyncio.create_task(anext(recv), name=name)
             for name, recv in self._receivers.items()
         }
-        self._results: deque[ReceiverMessageT_co] = deque(maxlen=len(self._receivers))
+        self._results: deque[asyncio.Task[ReceiverMessageT_co]] = deque(
+            maxlen=len(self._receivers)
+        )
 
     def __del__(self) -> None:
         """Finalize this merger."""
@@ -170,8 +172,8 @@ class Merger(Receiver[ReceiverMessageT_co]):
                 # if channel is closed, don't add a task for it again.
                 if isinstance(item.exception(), StopAsyncIteration):
                     continue
-                result = item.result()
-                self._results.append(result)
+                # errors are raised when the result is consumed.
+                self._results.append(item)
                 self._pending.add(
                     asyncio.create_task(anext(self._receivers[name]), name=name)
                 )
@@ -191,7 +193,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
         assert self._results, "`consume()` must be preceded by a call to `ready()`"
 
-        return self._results.popleft()
+        return self._results.popleft().result()
 
     def __str__(self) -> str:
         """Return a string representation of this receiver."""
-- 
2.43.0


From 01f903fd1c777b7e08e480c10f61b1bcb0ba4a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 07/12] fix: Report a stopped Event with a pending set exactly
 once

If stop() was called after set() but before the event was consumed, ready()
returned False although there was something to consume, so select() never
reported that the event was stopped. A task waiting for an event consumed by
another one failed with an assertion error instead of waiting again.
---
 src/frequenz/channels/event.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/event.py b/src/frequenz/channels/event.py
index 3f3b207..4b54568 100644
--- a/src/frequenz/channels/event.py
+++ b/src/frequenz/channels/event.py
@@ -147,10 +147,13 @@ class Event(_receiver.Receiver[None]):
         Returns:
             Whether this receiver is still running.
         """
-        if self._is_stopped:
-            return False
-        await self._event.wait()
-        return not self._is_stopped
+        # Being set takes precedence, if there is something left to be consumed the
+        # receiver is still active even when it was stopped.
+        while not self._is_set:
+            if self._is_stopped:
+                return False
+            await self._event.wait()
+        return True
 
     def consume(self) -> None:
         """Consume the event.
-- 
2.43.0


From a67d2f1563f9688a61d73ef008a17dd2bf8244ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 08/12] fix: Reject a negative start_delay also for timers
 without auto_start

The documentation of Timer promises a ValueError if start_delay is
negative, but it was only raised when the timer was started right away.
---
 src/frequenz/channels/timer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index 683db7b..c3a77a1 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -509,6 +509,9 @@ class Timer(Receiver[timedelta]):
                 f"The `interval` must be positive and at least 1 microsecond, not {interval}"
             )
 
+        if start_delay < timedelta(0):
+            raise ValueError(f"`start_delay` can't be negative, got {start_delay}")
+
         if start_delay > timedelta(0) and auto_start is False:
             raise ValueError(
                 "`auto_start` must be `True` if a `start_delay` is specified"
-- 
2.43.0


From 05d05797059e7cb4b1374fed49489ff9da9b1baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 09/12] fix: Make Timer.reset() and stop() take effect for
 tasks waiting for the timer

A task sleeping in ready() only looked at the timer again when the
time of the old tick had come: a reset() to an earlier time was
noticed too late and a stop() only after the rest of the sleep.  When
several tasks waited for the same tick, the second one overwrote a
tick that was not consumed yet, losing it.
---
 src/frequenz/channels/timer.py | 41 +++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index c3a77a1..9c5d5a5 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -105,6 +105,16 @@ from datetime import timedelta
 from ._receiver import Receiver, ReceiverStoppedError
 
 
+def _finish(future: asyncio.Future[None]) -> None:
+    """Mark a future as done, unless it is done (or cancelled) already.
+
+    Args:
+        future: The future to mark as done.
+    """
+    if not future.done():
+        future.set_result(None)
+
+
 def _to_microseconds(time: float | timedelta) -> int:
     """Convert a time or a timedelta to microseconds.
 
@@ -564,6 +574,9 @@ class Timer(Receiver[timedelta]):
         to wait again.
         """
 
+        self._sleeping: list[asyncio.Future[None]] = []
+        """The futures the tasks sleeping in `ready()` are waiting for."""
+
         if auto_start:
             self.reset(start_delay=start_delay)
 
@@ -610,6 +623,7 @@ class Timer(Receiver[timedelta]):
         self._stopped = False
         self._next_tick_time = self._now() + start_delay_ms + self._interval
         self._current_drift = None
+        self._wake_up()
 
     def stop(self) -> None:
         """Stop the timer.
@@ -624,6 +638,7 @@ class Timer(Receiver[timedelta]):
         self._stopped = True
         # We need to make sure it's not None, otherwise `ready()` will start it
         self._next_tick_time = self._now()
+        self._wake_up()
 
     # We need a noqa here because the docs have a Raises section but the documented
     # exceptions are raised indirectly.
@@ -667,7 +682,10 @@ class Timer(Receiver[timedelta]):
         # could be reset while we are sleeping, in which case we need to recalculate
         # the time to the next tick and try again.
         while time_to_next_tick > 0:
-            await asyncio.sleep(time_to_next_tick / 1_000_000)
+            await self._sleep(time_to_next_tick)
+            # Another task waiting for this timer could have got the tick already.
+            if self._current_drift is not None:
+                return True
             now = self._now()
             time_to_next_tick = self._next_tick_time - now
 
@@ -710,6 +728,27 @@ class Timer(Receiver[timedelta]):
         self._current_drift = None
         return drift
 
+    async def _sleep(self, delay: int) -> None:
+        """Sleep until the delay has passed or the timer is reset or stopped.
+
+        Args:
+            delay: The delay in microseconds.
+        """
+        loop = asyncio.get_running_loop()
+        waiter: asyncio.Future[None] = loop.create_future()
+        self._sleeping.append(waiter)
+        handle = loop.call_later(delay / 1_000_000, _finish, waiter)
+        try:
+            await waiter
+        finally:
+            handle.cancel()
+            self._sleeping.remove(waiter)
+
+    def _wake_up(self) -> None:
+        """Wake up all tasks sleeping in `ready()`, so they look at the new state."""
+        for waiter in self._sleeping:
+            _finish(waiter)
+
     def _now(self) -> int:
         """Return the current monotonic clock time in microseconds.
 
-- 
2.43.0


From bd19598312b90a70de14d7953a4fc6e5e61416f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 10/12] fix: Allow several tasks to wait for a FileWatcher

The second task failed with a RuntimeError, because the asynchronous
generator that reports the changes can be awaited by one task at
a time only.
---
 src/frequenz/channels/file_watcher.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/frequenz/channels/file_watcher.py b/src/frequenz/channels/file_watcher.py
index 57c3553..83f5c99 100644
--- a/src/frequenz/channels/file_watcher.py
+++ b/src/frequenz/channels/file_watcher.py
@@ -139,6 +139,7 @@ class FileWatcher(Receiver[Event]):
         )
         self._awatch_stopped_exc: Exception | None = None
         self._changes: set[FileChange] = set()
+        self._ready_lock: asyncio.Lock = asyncio.Lock()
 
     def _filter_events(
         self,
@@ -181,6 +182,22 @@ class FileWatcher(Receiver[Event]):
         if self._awatch_stopped_exc is not None:
             return False
 
+        # only one task at a time can wait for the next changes.
+        async with self._ready_lock:
+            return await self._wait_for_changes()
+
+    async def _wait_for_changes(self) -> bool:
+        """Wait for the next changes.
+
+        Returns:
+            Whether the receiver is still active.
+        """
+        # another task could have got changes or the end while this one was waiting.
+        if self._changes:
+            return True
+        if self._awatch_stopped_exc is not None:
+            return False
+
         try:
             self._changes = await anext(self._awatch)
         except StopAsyncIteration as err:
-- 
2.43.0


From c352bd2d25430978e52a6cbb2f51c19d07529d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 11/12] fix: Make FileWatcher.ready() return False when the
 watch ends

It returned True for the stop, so select() reported the file watcher
as stopped twice and ready() changed its answer without consume().
---
 src/frequenz/channels/file_watcher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frequenz/channels/file_watcher.py b/src/frequenz/channels/file_watcher.py
index 83f5c99..ab8f311 100644
--- a/src/frequenz/channels/file_watcher.py
+++ b/src/frequenz/channels/file_watcher.py
@@ -202,6 +202,7 @@ class FileWatcher(Receiver[Event]):
             self._changes = await anext(self._awatch)
         except StopAsyncIteration as err:
             self._awatch_stopped_exc = err
+            return False
 
         return True
 
-- 
2.43.0


From ae0536a4995ea3bf76a63c6468ef1590b0f21f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 12/12] fix: Keep receivers with equal hashes apart in select()

Different receivers can have the same hash (user defined receivers
that define equality, for example), but only one of them was selected.
---
 src/frequenz/channels/_select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_select.py b/src/frequenz/channels/_select.py
index e8b6e80..18e1f1c 100644
--- a/src/frequenz/channels/_select.py
+++ b/src/frequenz/channels/_select.py
@@ -423,7 +423,7 @@ async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:
             method.  Normal errors while receiving messages are not raised, but reported
             via the `Selected` instance.
     """
-    receivers_map: dict[str, Receiver[Any]] = {str(hash(r)): r for r in receivers}
+    receivers_map: dict[str, Receiver[Any]] = {str(id(r)): r for r in receivers}
     pending: set[asyncio.Task[bool]] = set()
 
     try:
-- 
2.43.0

