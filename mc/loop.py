"""A controlled asyncio event loop.

Everything that decides the order of execution in asyncio is owned here:

* the ready queue: handles scheduled by the library and by asyncio itself run in the documented FIFO order;
* the environment: harness tasks ("drivers") suspend at explicit points and the explorer decides after every single
  handle whether one of them is resumed *now*, in front of the ready queue.  This is what an arbitrary application
  around the library can do in a real loop (a task resumed by I/O or by another task may run between any two
  handles), so every explored execution is a possible execution;
* the clock: virtual, moved forward only when the explorer says so, or explicitly by a driver;
* the iteration order of sets of tasks (select() and merge() iterate over the `done` set of asyncio.wait): tasks get
  a hash chosen by the explorer instead of one derived from their memory address;
* threads, I/O: none exist; using an executor is an error.
"""

from __future__ import annotations

import asyncio
import heapq
import sys
import threading
from asyncio import base_events, events
from typing import Any


class HorizonExceeded(Exception):
    """The execution did not become quiescent within the step horizon."""


class DTask(asyncio.Task):  # type: ignore[type-arg]
    """A task with a deterministic hash chosen by the explorer."""

    def __hash__(self) -> int:
        try:
            return self._mc_hash  # type: ignore[no-any-return,has-type]
        except AttributeError:
            # Called from Task.__init__ (registration in asyncio's weak set of all tasks).
            loop = self.get_loop()
            self.mc_seq = loop.task_seq  # type: ignore[attr-defined]
            self._mc_hash = loop.next_task_hash()  # type: ignore[attr-defined]
            return self._mc_hash

    def __eq__(self, other: object) -> bool:
        return self is other


class ControlledLoop(base_events.BaseEventLoop):
    """See the module documentation."""

    def __init__(self, start_time: float = 0.0) -> None:
        super().__init__()
        self._vtime = start_time
        self._clock_resolution = 1e-9
        self.early = 0.0
        """How much earlier than their time timers may fire (coarse clocks)."""
        self.steps = 0
        self.task_seq = 0
        self.hash_chooser: Any = None
        self.exceptions: list[dict[str, Any]] = []
        self.set_exception_handler(self._on_exception)
        self.set_task_factory(self._make_task)
        self._entered = False
        self.busy = False

    # -- plumbing -----------------------------------------------------------------

    def time(self) -> float:
        return self._vtime

    def _write_to_self(self) -> None:
        pass

    def _process_events(self, event_list: Any) -> None:
        pass

    def run_in_executor(self, *_a: Any, **_k: Any) -> Any:
        raise RuntimeError("threads are not under the control of the model checker")

    @staticmethod
    def _make_task(loop: ControlledLoop, coro: Any, **kwargs: Any) -> DTask:
        return DTask(coro, loop=loop, **kwargs)

    def next_task_hash(self) -> int:
        n = self.task_seq
        self.task_seq += 1
        if self.hash_chooser is not None:
            return int(self.hash_chooser(n))
        return n

    def _on_exception(self, _loop: Any, context: dict[str, Any]) -> None:
        self.exceptions.append(context)

    # -- driving ------------------------------------------------------------------

    def enter(self) -> None:
        self._thread_id = threading.get_ident()
        self._old_hooks = sys.get_asyncgen_hooks()
        sys.set_asyncgen_hooks(firstiter=self._asyncgen_firstiter_hook, finalizer=self._asyncgen_finalizer_hook)
        events._set_running_loop(self)
        self._entered = True

    def leave(self) -> None:
        if self._entered:
            events._set_running_loop(None)
            sys.set_asyncgen_hooks(*self._old_hooks)
            self._thread_id = None
            self._entered = False

    def prune(self) -> None:
        """Drop cancelled handles that would be no-ops."""
        while self._ready and self._ready[0]._cancelled:
            self._ready.popleft()
        while self._scheduled and self._scheduled[0]._cancelled:
            handle = heapq.heappop(self._scheduled)
            handle._scheduled = False

    def has_ready(self) -> bool:
        self.prune()
        return bool(self._ready)

    def has_timers(self) -> bool:
        self.prune()
        return bool(self._scheduled)

    def next_timer(self) -> float:
        return float(self._scheduled[0]._when)

    def run_handle(self, handle: Any = None) -> None:
        if handle is None:
            handle = self._ready.popleft()
        if handle._cancelled:
            return
        self.steps += 1
        handle._run()

    def due_timers(self) -> bool:
        """Move the due timers to the end of the ready queue, as a real loop does once per iteration."""
        moved = False
        end = self._vtime + self._clock_resolution + self.early
        self.prune()
        while self._scheduled and self._scheduled[0]._when <= end:
            handle = heapq.heappop(self._scheduled)
            handle._scheduled = False
            if not handle._cancelled:
                self._ready.append(handle)
                moved = True
        return moved

    def advance_to_next_timer(self) -> None:
        self.prune()
        when = self.next_timer() - self.early
        if when > self._vtime:
            self._vtime = when
        self.due_timers()

    def advance(self, seconds: float) -> None:
        """Let time pass without running anything (a busy loop).  Due timers fire on the next iteration."""
        self._vtime = round(self._vtime + seconds, 7)

    def settle(self, limit: int = 3000) -> None:
        """Run FIFO, without time passing, until nothing is ready."""
        n = 0
        while True:
            self.due_timers()
            if not self.has_ready():
                return
            self.run_handle()
            n += 1
            if n > limit:
                raise HorizonExceeded()
