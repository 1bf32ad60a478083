"""Programs of all parts of the library (those of the other properties) that are shut down at any step, in the ways that asyncio programs
are: all tasks are cancelled and the generators closed (as `asyncio.run()` does when its main coroutine ended), the tasks of the application are cancelled
first (as it does when interrupted), or the loop is closed as things are and everything is dropped.  Oracle: all tasks end, without time passing, the operations
in progress end with their cancellation, no task fails and no finalizer or generator raises."""

import asyncio
import dataclasses
import gc
import importlib
import sys

from ..loop import HorizonExceeded

RUN, INTERRUPT, ABANDON = 1, 2, 3


class Shutdown:
    """Ends programs."""

    def __init__(self, every):
        self.every = every

    def ways(self, x):
        """Continue, or end in one of the ways (one less)."""
        if x.loop.has_ready():
            return 1 + RUN if not self.every else 1 + INTERRUPT
        return 1 + ABANDON

    def __call__(self, x, way):
        loop = x.loop
        x.op_hooks.clear()
        x.time_hooks.clear()
        x.insist = False
        x.note(f"-- shutdown: {('asyncio.run() ends', 'interrupt', 'the loop is closed')[way - 1]}")
        if way == ABANDON:
            x.abandoned = True
            return
        begun = [o for o in x.ops if o.pending]
        told = len(loop.exceptions)
        try:
            if way == INTERRUPT:
                self.cancel(x, [d.task for d in x.drivers])
            # What is left, or what was started meanwhile.
            self.cancel(x, asyncio.all_tasks(loop))
            for op in begun:
                if op.outcome == "ok":
                    x.fail(f"{op.show()}: was cancelled, but goes on")
            closing = loop.create_task(loop.shutdown_asyncgens())
            loop.settle()
        except HorizonExceeded:
            x.fail("the program goes on for ever when it is shut down")
        if not closing.done():
            x.fail("closing the generators takes for ever when the program is shut down")
        if left := [t.get_name() for t in asyncio.all_tasks(loop) if not t.done()]:
            x.fail(f"left when the program was shut down: {left}")
        for context in loop.exceptions[told:]:
            if "never retrieved" not in context["message"]:
                x.fail(f"when the program was shut down: {context['message']} {context.get('exception')!r}")
        x.tick("Z", way, *(o.outcome for o in begun))

    @staticmethod
    def cancel(x, tasks):
        tasks = [t for t in tasks if not t.done()]
        for task in sorted(tasks, key=lambda t: (hash(t), t.mc_seq)):
            task.cancel()
        x.loop.settle()
        for task in tasks:
            if not task.done():
                x.fail(f"{task.get_name()} goes on although it was cancelled when the program was shut down")
            if not task.cancelled() and (exc := task.exception()) is not None:
                x.fail(f"{task.get_name()} fails when the program is shut down: {exc!r}")

    @staticmethod
    def abandoned(x):
        """The loop is closed; everything is dropped."""
        raised = []
        x.tick("Z", ABANDON)
        # What operations say when their coroutines are destroyed, in any order, is not part of the history.
        x.over = True

        def hook(args):
            if getattr(args.object, "__module__", None) and args.object.__module__.startswith("frequenz.channels"):
                raised.append(f"{args.object.__qualname__}() raises {args.exc_type.__name__}: {args.exc_value}")

        old, sys.unraisablehook = sys.unraisablehook, hook
        try:
            for things in (
                x.drivers, x.ops, x.quiescent_hooks, x.final_hooks, x.op_hooks, x.time_hooks, x.keep, x.worlds, x.dirty, x.loop.exceptions, x.loop._ready,
                x.loop._scheduled,
            ):  # fmt: skip
                things.clear()
            gc.collect()
        finally:
            sys.unraisablehook = old
        if raised:
            x.fail(f"the loop was closed and everything dropped: {raised[0]}")


TAKEN = {
    # property: every how many of its programs are explored beyond the one order in which its tasks take turns, in the quick check
    "C01": 5, "C03": 5, "C05": 5, "C09": 6, "C12": 6, "C13": 4, "C14": 8, "C15": 2, "C16": 4, "C17": 2, "C19": 1, "C20": 12, "C21": 8, "C22": 2, "C23": 8, "C24": 2,
}  # fmt: skip


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    shutdown = Shutdown(deep)
    for prop, each in TAKEN.items():
        theirs = importlib.import_module(f"mc.props.{prop.lower()}").scenarios("quick")
        # User defined receivers that fail when they are cancelled, or take their time, may do so.
        theirs = [s for s in theirs if not any(part in s.name for part in ("long ", "dirty", "'late'", "ready1", "ready2"))]
        if prop in ("C20", "C21") and not deep:
            theirs = theirs[::6]
        for n, s in enumerate(theirs):
            bound = 0 if "{" in s.name and "': (" not in s.name else 1 if deep or n % each == 0 else 0
            out.append(dataclasses.replace(s, name=f"shutting down {prop}: {s.name}", bound=min(s.bound, bound), shutdown=shutdown))
    return out
