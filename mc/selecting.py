"""Programs with select() loops, and their oracle."""

from __future__ import annotations

import asyncio
import dataclasses
from datetime import timedelta
from typing import Any, Callable, Sequence

from .chan import World, receiver_error
from .event import EventOracle
from .files import FileOracle
from .explore import Driver, Execution, Op, Scenario
from .flow import Flow, MapError, perform as flow_perform
from .text import unroll
from .timers import Spec, TimerOracle

READS = ("recv", "next", "ready", "consume", "sel")


class FakeError(Exception):
    """An error of a user defined receiver."""

    def __init__(self, uid: str) -> None:
        Exception.__init__(self, uid)
        self.uid = uid


class FakeErrorBase(BaseException):
    """An error of a user defined receiver that is not an Exception."""


@dataclasses.dataclass
class Loop:
    """One select() loop."""

    names: list[str]
    begin: int
    left: int | None = None
    how: str | None = None
    end_op: Op | None = None
    yields: list[Op] = dataclasses.field(default_factory=list)
    unhandled: Any = None
    """The Selected that the body did not handle."""
    pending: Op | None = None
    closed: Op | None = None
    """Its aclose()."""

    def reported_stop(self, name: str) -> int:
        return sum(1 for o in self.yields if o.obj == name and is_stop(o))


def is_stop(op: Op) -> bool:
    return op.outcome == "exc" and type(op.result).__name__ == "ReceiverStoppedError"


def make_fake(world: World, name: str, behaviour: str) -> Any:
    """A receiver written by a user: items are fed to it, some fail."""
    from frequenz.channels import Receiver, ReceiverStoppedError  # pylint: disable=import-outside-toplevel

    class Fake(Receiver):  # type: ignore[type-arg]
        """See above."""

        def __init__(self) -> None:
            self.items: list[str] = []
            self.closed = False
            self.wake = asyncio.Event()

        def feed(self, item: str) -> None:
            self.items.append(item)
            self.wake.set()

        def end(self) -> None:
            self.closed = True
            self.wake.set()

        async def ready(self) -> bool:
            while not self.items:
                if self.closed:
                    return False
                self.wake.clear()
                try:
                    await self.wake.wait()
                except asyncio.CancelledError:
                    if behaviour.startswith("late"):
                        # It takes long to be cancelled.
                        world.x.cleaning += 1
                        try:
                            await asyncio.sleep(1.0)
                        finally:
                            world.x.cleaning -= 1
                    if behaviour.endswith("dirty"):
                        world.x.dirty.append((world.x.clock, name, err := FakeError(f"cleanup of {name}")))
                        raise err from None
                    raise
            if self.items[0].startswith("ready"):
                raise (receiver_error(FakeError) if world.x.naming else FakeError)(self.items.pop(0))
            if self.items[0].startswith("base"):
                self.items.pop(0)
                raise FakeErrorBase()
            if self.items[0].startswith("cancel"):
                self.items.pop(0)
                raise asyncio.CancelledError()
            return True

        def consume(self) -> Any:
            if not self.items:
                raise ReceiverStoppedError(self)
            item = self.items.pop(0)
            if item.startswith("err"):
                raise (receiver_error(FakeError) if world.x.naming else FakeError)(item)
            return world.value(item)

        def __str__(self) -> str:
            return f"Fake({name})"

    class Twin(Fake):
        """All twins are equal, as instances of a dataclass can be."""

        def __eq__(self, other: object) -> bool:
            return isinstance(other, Twin) or type(other).__name__ == "Twin"

        def __hash__(self) -> int:
            return 5

    return Twin() if behaviour == "twin" else Fake()


def special(expr: Any) -> bool:
    """Whether an expression is not a pipeline over channels."""
    return isinstance(expr, tuple) and expr[0] in ("event", "fake", "timer", "file")


class Selecting:
    """A world of channels, events and user defined receivers with select() loops."""

    def __init__(
        self,
        x: Execution,
        channels: dict[str, tuple[str, int]],
        roots: dict[str, Any],
        aspects: set[str],
    ) -> None:
        self.x = x
        flow_roots = {n: e for n, e in roots.items() if not special(e)}
        self.flow = Flow(x, channels, flow_roots, aspects & {"wait", "stop", "map"})
        self.w = self.flow.w
        self.aspects = aspects
        self.loops: list[Loop] = []
        self.kept: list[tuple[Any, Op, Any]] = []
        self.events: dict[str, Any] = {}
        """Oracles of events, timers and file watchers."""
        self.fakes: dict[str, Any] = {}
        self.fed: dict[str, list[str]] = {}
        for name, expr in roots.items():
            if not isinstance(expr, tuple):
                continue
            if expr[0] == "event":
                self.events[name] = EventOracle(x, self.w, name)
            elif expr[0] == "timer":
                self.events[name] = TimerOracle(x, self.w, name, expr[1])
                self.events[name].strict = False
            elif expr[0] == "file":
                self.events[name] = FileOracle(x, self.w, name, **expr[1])
            elif expr[0] == "fake":
                self.fakes[name] = make_fake(self.w, name, expr[1])
                self.w.receivers[name] = self.w.all_receivers[name] = self.fakes[name]
                self.fed[name] = []
            if expr[-1] == "mapped":
                self.w.map(name)
            if name in self.events:
                self.events[name].waiting_selects = lambda n=name: self.waiting(n)
        self.flow.waiting_selects = self.waiting  # type: ignore[attr-defined]
        self.has_mergers = any("merge" in str(e) for e in roots.values())
        x.quiescent_hooks.append(self.idle)
        x.final_hooks.insert(0, self.leave_all)
        x.final_hooks.append(self.final)

    def waiting(self, name: str) -> list[Op]:
        """Select loops in which somebody waits for this receiver too."""
        return [
            loop.pending
            for loop in self.loops
            if loop.left is None and loop.pending is not None and loop.pending.pending and name in loop.names
            and not loop.reported_stop(name)
        ]

    # -- performing -------------------------------------------------------------------

    async def perform(self, d: Driver, op: Sequence[Any]) -> None:
        if op[0] == "any":
            op = self.w.choose(op[1:])
            if op is None:
                return
            if op[0] == "now":
                op = op[1]
        kind = op[0]
        if kind == "select":
            await self.select(d, *op[1:])
        elif kind == "feed":
            self.fed[op[1]].append(op[2])
            self.x.tick("F", *op[1:])
            self.x.note(f"{d.name}: feed {op[1]} {op[2]}")
            self.fakes[op[1]].feed(op[2])
        elif kind == "fend":
            self.x.tick("F", *op[1:])
            self.x.note(f"{d.name}: end {op[1]}")
            self.fakes[op[1]].end()
        else:
            await flow_perform(self.flow, d, op)

    async def select(self, d: Driver, names: str, opts: dict[str, Any]) -> None:
        from frequenz.channels import select, selected_from  # pylint: disable=import-outside-toplevel

        x = self.x
        recvs = {n: self.w.receivers[n] for n in names.split(",") if n}
        take = opts.get("take")
        leave = opts.get("leave", "break")
        handle = opts.get("handle", "all")
        pause = opts.get("pause", True)
        during = opts.get("during")
        loop = Loop(list(recvs), x.clock)
        self.loops.append(loop)
        agen: Any = select(*(self.w.receivers[n] for n in names.split(",") if n))
        label = f"select({names})"
        while True:
            if take == 0:
                break
            # The operation exists as soon as it begins.
            loop.pending = _Late(x, len(x.ops))  # type: ignore[assignment]
            op = await d.op("selnext", label, agen.__anext__())
            loop.pending = None
            if not op.ok:
                loop.left = op.end
                loop.how = "end"
                loop.end_op = op
                self.check_gone(d, loop, op)
                break
            selected = op.result
            op.result = "Selected"
            if x.spy is not None:
                x.spy(x, selected)
            index = len(loop.yields)
            skip = handle == "none" or handle == "others" or handle == f"none@{index}"
            if skip:
                if handle == "others":
                    # Not the one selected.
                    mine = self.identify_by_message(selected, recvs)
                    for n, r in recvs.items():
                        if n != mine and selected_from(selected, r):
                            x.fail(f"selected_from() is true for {n}, not for {mine}")
                loop.unhandled = selected
                who = [self.identify_by_message(selected, recvs)]
            elif handle == "chain":
                who = []
                for n, r in recvs.items():
                    if selected_from(selected, r):
                        who.append(n)
                        break
            else:
                who = [n for n, r in recvs.items() if selected_from(selected, r)]
            if len(who) != 1 or who[0] is None:
                x.fail(f"selected_from() is true for {who} of {list(recvs)}")
            if not skip:
                # Asked again: the answer is the same.
                again = [n for n, r in recvs.items() if selected_from(selected, r)]
                if again != who:
                    x.fail(f"selected_from() is true for {again} of {list(recvs)}, before for {who}")
            rec = Op(len(x.ops), d.name, "sel", who[0])
            rec.begin, rec.end = op.begin, op.end
            rec.t_begin, rec.t_end = op.t_begin, op.t_end
            exc = selected.exception
            if exc is None:
                rec.outcome, rec.result = "ok", selected.message
                if selected.message is not rec.result or selected.was_stopped:
                    x.fail("Selected is inconsistent")
            else:
                rec.outcome, rec.result = "exc", exc
                try:
                    selected.message
                    raised: Any = None
                except BaseException as err:  # pylint: disable=broad-except
                    raised = err
                    raised.__traceback__ = None
                if raised is not exc:
                    x.fail(f"Selected.message raises {raised!r}, exception is {exc!r}")
                if selected.was_stopped != is_stop(rec):
                    x.fail(f"was_stopped is {selected.was_stopped} with {exc!r}")
            x.ops.append(rec)
            loop.yields.append(rec)
            x.tick("Y", who[0], rec.outcome)
            for hook in x.op_hooks:
                hook(rec)
            x.note(f"{d.name}: {label} yields {who[0]}: {rec.outcome} {rec.result!r}")
            if x.naming == 1:
                self.kept.append((selected, rec, exc))
            del selected
            if take is not None and len(loop.yields) >= take:
                break
            if during:
                for sub in during.get(index, ()):
                    await self.perform(d, sub)
            if pause:
                await d.point()
        if loop.left is None:
            loop.how = leave
            loop.left = x.tick("L", label)
            x.note(f"{d.name}: {label} {leave}")
            if leave == "aclose":
                loop.closed = await d.op("selclose", label, agen.aclose())
                self.check_gone(d, loop, loop.closed)
        del agen

    def check_gone(self, d: Driver, loop: Loop, op: Op) -> None:
        """A loop that was ended or closed has no tasks any more."""
        x = self.x
        cancels = op.notes.get("cancels", 0)
        if "leak" not in self.aspects or self.has_mergers or self.flow.wrapped or cancels > 1 or (op.kind == "selclose" and cancels):
            return
        if any(lp.how != "end" and (lp.closed is None or not lp.closed.ok) for lp in self.loops):
            return
        left = x.library_tasks()
        if left:
            x.fail(f"{op.show()} and tasks are left: {left}")

    def identify_by_message(self, selected: Any, recvs: dict[str, Any]) -> str | None:
        """Which receiver was selected, without selected_from()."""
        exc = selected.exception
        if exc is not None:
            recv = getattr(exc, "receiver", None)
            for n, r in recvs.items():
                if r is recv:
                    return n
            for n in recvs:
                if n in self.flow.parts and id(recv) in self.flow.parts[n]:
                    return n
                if n in self.flow.roots and isinstance(exc, MapError):
                    uid, _ = self.flow.source_of(exc.value)
                    if any(uid in self.flow.attempted(ch) for ch, _ in self.flow.leaves[n]):
                        return n
                if isinstance(exc, FakeError) and exc.uid in self.fed.get(n, []):
                    return n
            return None
        message = selected.message
        for n in recvs:
            if n in self.flow.roots:
                uid, _ = self.flow.source_of(message)
                if any(uid in self.flow.attempted(ch) for ch, _ in self.flow.leaves[n]):
                    return n
            if n in self.fed and self.w.uid(message) in self.fed[n]:
                return n
            if n in self.events:
                oracle = self.events[n]
                if isinstance(oracle, EventOracle) and message is None:
                    return n
                if isinstance(oracle, TimerOracle) and isinstance(message, timedelta):
                    return n
                if isinstance(oracle, FileOracle) and type(message).__name__ == "Event":
                    return n
        return None

    # -- checking ---------------------------------------------------------------------

    def idle(self) -> None:
        x = self.x
        active = [lp for lp in self.loops if lp.left is None]
        leaving = [o for o in x.ops if o.kind == "selclose" and o.pending]
        if leaving and "leak" in self.aspects:
            x.fail(f"{leaving[0].show()} never ends")
        if not active and not (self.has_mergers or self.flow.wrapped) and "leak" in self.aspects and not x.chooser.frozen:
            left = x.library_tasks()
            if left:
                x.fail(f"tasks left after select() was left: {left}")
        for loop in active:
            if loop.pending is None or not loop.pending.pending:
                continue
            if all(loop.reported_stop(n) for n in loop.names) and "stop" in self.aspects:
                x.fail(f"{loop.pending.show()} waits although all receivers were reported stopped")
            if "wait" in self.aspects:
                for n in loop.names:
                    if n in self.fakes and not loop.reported_stop(n) and (self.fakes[n].items or self.fakes[n].closed):
                        x.fail(f"{loop.pending.show()} waits although {n} has {self.fakes[n].items or 'stopped'}")

    def leave_all(self) -> None:
        """End the loops still going on: everything is closed and all must be reported."""
        x = self.x
        x.preempt = False
        for loop in self.loops:
            if loop.left is None:
                loop.how = "epilogue"
        active = [lp for lp in self.loops if lp.left is None]
        if not active:
            return

        async def close(d: Driver) -> None:
            for ch in self.w.channels:
                if self.flow.closed(ch) is None and ch not in self.flow.forwards:
                    await d.op("close", ch, self.w.channels[ch].close())
            for n, oracle in self.events.items():
                if isinstance(oracle, TimerOracle):
                    await self.w.perform(d, ("tstop", n))
                elif isinstance(oracle, FileOracle):
                    await self.w.perform(d, ("wend",))
                elif not self.w.control(n).is_stopped:
                    await self.w.perform(d, ("estop", n))
            for fake in self.fakes.values():
                fake.end()
            # Resume the loops that are in their bodies.
            for _ in range(40):
                x.loop.call_soon(lambda: None)
                await asyncio.sleep(0)
                for drv in x.drivers:
                    if drv.fut is not None and not drv.fut.done():
                        drv.fut.set_result(None)
                await asyncio.sleep(0)
                await d.point()

        drv = x.drain(close, "closing")
        if not drv.done:
            x.fail(f"{drv.current.show() if drv.current else 'closing'} waits forever")
        for loop in active:
            if loop.left is None and "stop" in self.aspects:
                x.fail(f"select({loop.names}) never ends; reported stopped: {[n for n in loop.names if loop.reported_stop(n)]}")

    def final(self) -> None:
        x = self.x
        for selected, rec, exc in self.kept:
            # A Selected stays what it was.
            if selected.exception is not exc or (exc is None and selected.message is not rec.result) or selected.was_stopped != is_stop(rec):
                x.fail(f"{rec.show()} has become {selected!r}")

        async def body(d: Driver) -> None:
            for oracle in self.events.values():
                await oracle.epilogue(d)

        drv = x.drain(body, "events", time_passes=True)
        if not drv.done:
            x.fail(f"{drv.current.show() if drv.current else 'the epilogue'} waits forever")
        for oracle in self.events.values():
            oracle.check()
        if "leak" in self.aspects and not (self.has_mergers or self.flow.wrapped):
            left = x.library_tasks()
            if left:
                x.fail(f"tasks left at the end: {left}")
        self.check_loops()
        self.check_fakes()

    def check_loops(self) -> None:
        from frequenz.channels import SelectError, UnhandledSelectedError  # pylint: disable=import-outside-toplevel

        x = self.x
        asp = self.aspects
        if "errors" in asp:
            self.check_cleanup()
        for loop in self.loops:
            seen: set[str] = set()
            for op in loop.yields:
                if op.obj in seen and "stop" in asp:
                    x.fail(f"{op.obj} was selected by {loop.names} after it was reported stopped")
                if is_stop(op):
                    seen.add(op.obj)
            end = loop.end_op
            if end is None:
                continue
            if end.outcome == "spurious":
                if self.fake_cancelled(loop):
                    continue
                x.fail(f"{end.show()}: cancelled by nobody")
            if end.outcome == "cancelled":
                continue
            err = end.result
            if isinstance(err, StopAsyncIteration):
                if loop.unhandled is not None and "unhandled" in asp:
                    x.fail(f"{end.show()} although a selection was not handled")
                if seen != set(loop.names) and "stop" in asp:
                    x.fail(f"{end.show()}: the loop ended, not reported: {set(loop.names) - seen}")
                continue
            if isinstance(err, UnhandledSelectedError):
                if "unhandled" in asp:
                    if loop.unhandled is None:
                        x.fail(f"{end.show()} although all selections were handled")
                    if err.selected is not loop.unhandled or not isinstance(err, SelectError):
                        x.fail(f"{end.show()}: carries {err.selected!r}")
                continue
            if loop.unhandled is not None and "unhandled" in asp and not isinstance(err, BaseExceptionGroup):
                x.fail(f"{end.show()}: expected UnhandledSelectedError")
            failed = [i for n in loop.names if n in self.fed for i in self.fed[n] if i.startswith(("ready", "base"))]
            if isinstance(err, SelectError):
                cause = err.__cause__
                ok = isinstance(cause, FakeError) and cause.uid in failed or isinstance(cause, FakeErrorBase)
                if not ok and "errors" in asp:
                    x.fail(f"{end.show()}: cause is {cause!r}")
                continue
            if isinstance(err, BaseExceptionGroup) and all(isinstance(e, FakeError) for e in err.exceptions):
                if loop.unhandled is not None and "unhandled" in asp:
                    ctx: BaseException | None = err
                    chain = []
                    while ctx is not None:
                        chain.append(ctx)
                        ctx = ctx.__context__
                    if not any(isinstance(c, UnhandledSelectedError) for c in chain):
                        x.fail(f"{end.show()}: the UnhandledSelectedError is lost")
                continue
            x.fail(f"unexpected end of select(): {end.show()} ({end.notes.get('where')})")

    def check_cleanup(self) -> None:
        """Errors of receivers while a loop is cleaned up are raised, if there is somebody to raise them to."""
        for clock, name, err in self.x.dirty:
            for loop in self.loops:
                for op in (loop.end_op, loop.closed):
                    if name not in loop.names or op is None or not op.begin <= clock <= (op.end or 0):
                        continue
                    cancels = op.notes.get("cancels", 0)
                    if cancels and (cancels > 1 or op is loop.closed or loop.unhandled is not None or op.notes["cancel"] > clock):
                        # The cleanup itself was cancelled.
                        continue
                    if not isinstance(op.result, BaseExceptionGroup) or not any(e is err for e in op.result.exceptions):
                        self.x.fail(f"{op.show()}: {name} failed with {err!r} in the cleanup")

    def fake_cancelled(self, loop: Loop) -> bool:
        return any(i.startswith("cancel") for n in loop.names for i in self.fed.get(n, []))

    def check_fakes(self) -> None:
        """Everything fed to a user defined receiver was reported once, in order."""
        x = self.x
        for name, items in self.fed.items():
            got = []
            for op in x.ops:
                if op.obj == name and op.kind in ("sel", "recv", "next", "consume") and op.outcome in ("ok", "exc"):
                    if op.ok:
                        got.append(self.w.uid(op.result))
                    elif isinstance(op.result, FakeError):
                        got.append(op.result.uid)
                    elif not is_stop(op) and not isinstance(op.result, StopAsyncIteration):
                        x.fail(f"unexpected error: {op.show()} ({op.notes.get('where')})")
            want = [i for i in items if not i.startswith(("ready", "base", "cancel"))]
            left = [i for i in self.fakes[name].items if not i.startswith(("ready", "base", "cancel"))]
            if got + left != want:
                x.fail(f"{name}: handed out {got}, left {left}, fed {want}")


class _Late:
    """The operation number n of an execution, once it exists."""

    def __init__(self, x: Execution, n: int) -> None:
        self._x = x
        self._n = n

    def __getattr__(self, attr: str) -> Any:
        return getattr(self._x.ops[self._n], attr)


def perform_script(x: Execution, sel: Selecting, who: str, script: Sequence[Sequence[Any]]) -> None:
    """Create a driver."""

    async def body(d: Driver) -> None:
        for op in unroll(x, script):
            if op[0] == "now":
                await sel.perform(d, op[1])
                continue
            await d.point()
            await sel.perform(d, op)

    sel.w.drivers[who] = x.driver(who, body)


def scenario(
    name: str,
    scripts: dict[str, Sequence[Sequence[Any]]],
    *,
    channels: dict[str, tuple[str, int]],
    roots: dict[str, Any],
    aspects: set[str],
    bound: int,
    task_order: str = "asc",
    extra: Callable[[Execution, Selecting], None] | None = None,
) -> Scenario:
    """A program with select() loops."""

    def build(x: Execution) -> None:
        x.task_order(task_order)
        if any(special(e) and e[0] == "timer" for e in roots.values()):
            # Timers go on for ever: time passes only when nothing else can happen.
            x.time_choice = False
        x.insist = "reuse" in aspects
        sel = Selecting(x, channels, roots, aspects)
        sel.flow.prepare(scripts)
        for who, script in scripts.items():
            perform_script(x, sel, who, script)
        x.loop.settle()
        if extra:
            extra(x, sel)

    return Scenario(name, build, bound)
