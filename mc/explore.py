"""Deviation-bounded exhaustive exploration of executions of the real code (stateless model checking).

An execution is a deterministic function of a list of choices.  `Execution` runs one; `explore_subtree` enumerates all
executions whose total deviation cost is within a bound, by depth first search over choice prefixes.
"""

from __future__ import annotations

import asyncio
import dataclasses
import gc
import signal
import time
import zlib
from typing import Any, Callable, Sequence

from .loop import ControlledLoop, HorizonExceeded


class Violation(Exception):
    """The property is violated in this execution."""


class TimedOut(Exception):
    """An operation was cancelled by a timeout of the application."""


class Hang(SystemExit):
    """The code under test does not return (SystemExit passes through asyncio and `except Exception`)."""


def strip_traceback(exc: BaseException | None) -> str:
    """Drop the tracebacks of an exception chain: their frames would keep library objects alive."""
    where = ""
    seen: set[int] = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None and tb.tb_next is not None:
            tb = tb.tb_next
        if tb is not None:
            where += f"{type(exc).__name__} at {tb.tb_frame.f_code.co_filename}:{tb.tb_lineno}; "
        exc.__traceback__ = None
        exc = exc.__cause__ or exc.__context__
    return where


class Chooser:
    """Replays a prefix of choices, then takes choice 0."""

    def __init__(self, prefix: Sequence[int]) -> None:
        self.prefix = prefix
        self.costs: list[tuple[int, ...]] = []
        self.choices: list[int] = []
        self.frozen = False
        self.diverged = False

    def choose(self, costs: tuple[int, ...]) -> int:
        if len(costs) == 1 or self.frozen:
            return 0
        i = len(self.choices)
        pick = 0
        if i < len(self.prefix):
            pick = self.prefix[i]
            if pick >= len(costs):
                self.diverged = True
                pick = 0
        self.costs.append(costs)
        self.choices.append(pick)
        return pick


@dataclasses.dataclass
class Op:
    """One operation on the library performed by a driver, as observed from the outside."""

    seq: int
    who: str
    kind: str
    obj: Any
    arg: Any = None
    begin: int = 0
    end: int | None = None
    outcome: str | None = None  # ok / cancelled / spurious / exc
    result: Any = None
    t_begin: float = 0.0
    t_end: float | None = None
    notes: dict[str, Any] = dataclasses.field(default_factory=dict)

    @property
    def pending(self) -> bool:
        return self.outcome is None

    @property
    def ok(self) -> bool:
        return self.outcome == "ok"

    def failed_with(self, kind: type[BaseException]) -> bool:
        return self.outcome == "exc" and isinstance(self.result, kind)

    def show(self) -> str:
        res = "" if self.outcome is None else f" -> {self.outcome} {self.result!r}"
        arg = "" if self.arg is None else f" {self.arg!r}"
        return f"[{self.begin}-{'' if self.end is None else self.end}] {self.who}: {self.kind} {self.obj}{arg}{res}"


class Driver:
    """A task of the application around the library."""

    def __init__(self, x: "Execution", name: str, body: Callable[["Driver"], Any]) -> None:
        self.x = x
        self.name = name
        self.body = body
        self.fut: asyncio.Future[None] | None = None
        self.current: Op | None = None
        self.cancels = 0
        self.done = False
        self.task: Any = None

    async def _main(self) -> None:
        try:
            await self.body(self)
        finally:
            self.done = True

    async def point(self) -> None:
        """Wait until the explorer resumes this driver."""
        self.fut = self.x.loop.create_future()
        try:
            await self.fut
        finally:
            self.fut = None

    async def op(self, kind: str, obj: Any, awaitable: Any, arg: Any = None) -> Op:
        """Perform one operation; everything it does is recorded, nothing is raised."""
        x = self.x
        op = x.begin(self.name, kind, obj, arg)
        self.current = op
        cancels = self.cancels
        try:
            op.result = await awaitable
            op.outcome = "ok"
        except asyncio.CancelledError as exc:
            op.outcome = "cancelled" if self.cancels > cancels else "spurious"
            op.result = exc
        except Violation:
            raise
        except Hang:
            raise
        except TimedOut as exc:
            op.outcome = "cancelled"
            op.result = exc
        except BaseException as exc:  # pylint: disable=broad-except
            op.outcome = "exc"
            op.result = exc
        if op.outcome != "ok" and isinstance(op.result, BaseException):
            op.notes["where"] = strip_traceback(op.result)
        self.current = None
        if x.insist and op.outcome == "ok" and op.notes.get("cancels"):
            x.fail(f"{op.show()}: was cancelled, but goes on")
        x.end(op)
        if x.shutting or x.ended:
            raise asyncio.CancelledError()
        return op

    def call(self, kind: str, obj: Any, func: Callable[[], Any], arg: Any = None) -> Op:
        """Perform one synchronous operation."""
        x = self.x
        op = x.begin(self.name, kind, obj, arg)
        try:
            op.result = func()
            op.outcome = "ok"
        except Violation:
            raise
        except Hang:
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            op.outcome = "exc"
            op.result = exc
        if op.outcome != "ok" and isinstance(op.result, BaseException):
            op.notes["where"] = strip_traceback(op.result)
        x.end(op)
        return op

    def cancel(self) -> bool:
        """Cancel the operation in progress, if any."""
        if self.current is None or self.done:
            return False
        self.cancels += 1
        self.current.notes["cancel"] = self.x.clock
        self.current.notes["cancels"] = self.current.notes.get("cancels", 0) + 1
        self.task.cancel()
        return True


class Execution:
    """One execution of a scenario."""

    HORIZON = 4000

    def __init__(self, prefix: Sequence[int] = (), trace: bool = False) -> None:
        self.chooser = Chooser(prefix)
        self.loop = ControlledLoop()
        self.drivers: list[Driver] = []
        self.ops: list[Op] = []
        self.clock = 0
        self.trace: list[str] | None = [] if trace else None
        self.fp = 0
        self.states: set[int] = set()
        self.transitions = 0
        self.quiescent_hooks: list[Callable[[], None]] = []
        self.final_hooks: list[Callable[[], None]] = []
        self.op_hooks: list[Callable[[Op], None]] = []
        """Called at the begin and at the end of every operation."""
        self.time_hooks: list[Callable[[float], None]] = []
        """Called with the new time before time passes while the program is idle."""
        self.time_choice = True
        self.preempt = True
        self.early_fire = False
        self.findings: list[tuple[str, str]] = []
        self.quiescent_states = 0
        self.outcome: Any = None
        self.keep: list[Any] = []
        self.pruned = False
        """Whether the executions that differ after this one are not explored."""
        self.worlds: list[Any] = []
        self.spy: Callable[["Execution", Any], None] | None = None
        """Called before every step, and with every Selected."""
        self.dirty: list[tuple[int, str, Any]] = []
        self.cleaning = 0
        """How many receivers of users take their time to be cancelled: nothing is expected of others meanwhile."""
        """Errors that user defined receivers raised when they were cancelled."""
        self.insist = False
        """Whether operations that are cancelled have to end."""
        self.shutdown: Any = None
        """Ends the program at any step: called with the way chosen."""
        self.shutting = False
        self.ended = False
        self.over = False
        """Whether nothing is recorded any more."""
        self.turns: dict[str, int] = {}
        """When drivers were resumed."""
        self.abandoned = False
        """Whether the loop is closed as things are."""
        self.naming = 0
        """Names need not be there, or be different (the programs take turns)."""

    def named(self, name: str) -> dict[str, str]:
        """The argument for the name of a receiver."""
        return ({}, {"name": "same"}, {"name": name})[self.naming]

    def channel_name(self, name: str) -> str:
        return (name, "same", "")[self.naming]

    # -- recording ------------------------------------------------------------------

    def tick(self, *event: Any) -> int:
        self.clock += 1
        if self.over:
            return self.clock
        self.fp = hash((self.fp, event))
        return self.clock

    def note(self, text: str) -> None:
        if self.trace is not None and not self.over:
            self.trace.append(f"t={self.loop.time():g} {text}")

    def begin(self, who: str, kind: str, obj: Any, arg: Any = None) -> Op:
        op = Op(len(self.ops), who, kind, obj, arg)
        op.begin = self.tick("B", who, kind, str(obj))
        op.t_begin = self.loop.time()
        self.ops.append(op)
        self.note(f"{who}: begin {kind} {obj}" + ("" if arg is None else f" {arg!r}"))
        for hook in self.op_hooks:
            hook(op)
        return op

    def end(self, op: Op) -> None:
        res = op.result
        key = repr(res) if isinstance(res, Tok) else type(res).__name__ if isinstance(res, BaseException) else str(type(res))
        op.end = self.tick("E", op.seq, op.outcome, key)
        op.t_end = self.loop.time()
        self.note(f"{op.who}: end   {op.kind} {op.obj} -> {op.outcome} {res!r}")
        for hook in self.op_hooks:
            hook(op)

    def fail(self, message: str) -> None:
        raise Violation(message)

    # -- choices --------------------------------------------------------------------

    def choose(self, n: int, *, cost: int = 0, label: str = "") -> int:
        """A data choice of the harness: option 0 is free, the others cost `cost` deviations each."""
        pick = self.chooser.choose((0,) + (cost,) * (n - 1))
        if label and n > 1:
            self.tick("C", label, pick)
            self.note(f"choice {label} = {pick}")
        return pick

    def pick(self, options: Sequence[Any], *, cost: int = 0, label: str = "") -> Any:
        return options[self.choose(len(options), cost=cost, label=label)]

    def explore_task_order(self) -> None:
        """Let the explorer choose the position of each new task in sets of tasks (one deviation per non-default)."""

        def chooser(n: int) -> int:
            flipped = self.chooser.choose((0, 1))
            return 7 - (n & 7) if flipped else n & 7

        self.loop.hash_chooser = chooser

    def task_order(self, mode: str) -> None:
        if mode == "asc":
            self.loop.hash_chooser = lambda n: n
        elif mode == "desc":
            self.loop.hash_chooser = lambda n: 1_000_000 - n
        elif mode == "mix":
            self.loop.hash_chooser = lambda n: (n * 5 + 3) & 7
        elif mode == "explore":
            self.explore_task_order()
        else:
            raise ValueError(mode)

    # -- drivers --------------------------------------------------------------------

    def driver(self, name: str, body: Callable[[Driver], Any]) -> Driver:
        drv = Driver(self, name, body)
        self.drivers.append(drv)
        saved, self.loop.hash_chooser = self.loop.hash_chooser, None
        drv.task = self.loop.create_task(drv._main(), name=f"driver-{name}")
        self.loop.hash_chooser = saved
        return drv

    # -- running --------------------------------------------------------------------

    def _step(self) -> bool:
        loop = self.loop
        if self.spy is not None:
            self.spy(self, None)
        if self.shutdown is not None and (way := self.choose(self.shutdown.ways(self), label="shutdown")):
            self.shutting = True
            self.shutdown(self, way)
            return False
        waiting = [d for d in self.drivers if d.fut is not None and not d.fut.done()]
        if self.shutdown is not None and self.drivers:
            # They take turns.
            waiting.sort(key=lambda d: (self.turns.get(d.name, 0)))
        ready = loop.has_ready()
        due = loop.has_timers() and loop.next_timer() < loop.time() + 1e-9
        if due:
            # Timers that are due run after the handles already scheduled (default); or a bit later (deviation).
            if not ready or self.chooser.choose((0, 1)) == 0:
                loop.due_timers()
                return True
        options: list[tuple[str, Any, int]] = []
        if ready:
            options.append(("run", None, 0))
            if self.preempt:
                options.extend(("env", d, 1) for d in waiting)
        else:
            self.quiescent_states += 1
            if self.shutdown is None and not self.cleaning:
                for hook in self.quiescent_hooks:
                    hook()
            # Programs that are shut down: deviations from taking turns are counted here as well.
            cost = int(self.shutdown is not None)
            options.extend(("env", d, cost and int(d is not waiting[0])) for d in waiting)
            if loop.has_timers() and (self.time_choice or not waiting):
                options.append(("time", None, cost and int(bool(waiting))))
        if not options:
            return False
        kind, drv, _ = options[self.chooser.choose(tuple(o[2] for o in options))]
        self.transitions += 1
        if kind == "run":
            loop.run_handle()
        elif kind == "env":
            self.note(f"-- resume {drv.name}")
            self.turns[drv.name] = self.clock
            self.tick("R", drv.name)
            drv.fut.set_result(None)
            loop.run_handle(loop._ready.pop())
        else:
            if self.early_fire:
                loop.early = self.pick((0.0, 0.015), cost=1, label="early")
            self.pass_time()
            loop.early = 0.0
            self.tick("T", round(loop.time() * 1e6))
            self.note(f"-- time {loop.time():g}")
        self.states.add(hash((self.fp, len(loop._ready), tuple(d.name for d in waiting), kind)))
        return True

    def pass_time(self) -> None:
        """Let the time pass until the next timer fires."""
        when = max(self.loop.time(), self.loop.next_timer() - self.loop.early)
        for hook in self.time_hooks:
            hook(when)
        self.loop.advance_to_next_timer()

    def run(self, build: Callable[["Execution"], None]) -> None:
        """Run the scenario to its end and check it."""
        loop = self.loop
        loop.enter()
        try:
            build(self)
            loop.settle()
            try:
                while self._step():
                    if loop.steps > self.HORIZON:
                        raise HorizonExceeded()
                self.chooser.frozen = True
                if self.shutdown is None:
                    for hook in self.final_hooks:
                        hook()
            except HorizonExceeded:
                raise Violation("livelock: the program never becomes idle") from None
        finally:
            self.chooser.frozen = True
            try:
                if not self.abandoned:
                    self._teardown()
            finally:
                loop.leave()
                loop.close()
                if self.abandoned:
                    self.shutdown.abandoned(self)

    def _teardown(self) -> None:
        loop = self.loop
        loop.set_exception_handler(lambda *_: None)
        self.ended = self.shutdown is not None
        self.trace_done = True
        for _ in range(20):
            tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
            if not tasks and not loop._ready:
                break
            for task in tasks:
                task.cancel()
            try:
                loop.settle(500)
            except HorizonExceeded:
                break
        loop._scheduled.clear()
        loop._ready.clear()

    # -- epilogue helpers -----------------------------------------------------------

    def drain(self, body: Callable[[Driver], Any], name: str = "epilogue", *, time_passes: bool = False) -> Driver:
        """Run a coroutine in the final state, deterministically, until the loop is idle."""
        self.preempt = False
        drv = Driver(self, name, body)
        drv.task = self.loop.create_task(drv._main(), name=f"driver-{name}")
        horizon = self.loop.steps + self.HORIZON
        while True:
            self.loop.settle()
            if self.loop.steps > horizon:
                raise HorizonExceeded()
            if drv.fut is not None and not drv.fut.done():
                drv.fut.set_result(None)
                continue
            if not drv.done and time_passes and self.loop.has_timers():
                self.pass_time()
                continue
            break
        if drv.done and drv.task.done() and not drv.task.cancelled() and drv.task.exception():
            raise drv.task.exception()
        return drv

    def library_tasks(self) -> list[Any]:
        """Tasks alive that are not drivers."""
        mine = {id(d.task) for d in self.drivers}
        return [
            t
            for t in asyncio.all_tasks(self.loop)
            if not t.done() and id(t) not in mine and not t.get_name().startswith("driver-")
        ]

    def check_drivers(self) -> None:
        """A crash in the harness itself must never pass silently."""
        for drv in self.drivers:
            if drv.task.done() and not drv.task.cancelled() and drv.task.exception():
                raise drv.task.exception()


class Tok:
    """A message: unique by identity, but falsy and equal to every other message."""

    def __init__(self, uid: str) -> None:
        self.uid = uid

    def __bool__(self) -> bool:
        return False

    def __eq__(self, other: object) -> bool:
        return isinstance(other, Tok)

    def __hash__(self) -> int:
        return 7

    def __repr__(self) -> str:
        return f"<{self.uid}>"


class TokError(Tok, StopAsyncIteration):
    """A message that happens to be an exception."""


class TokFunc(Tok):
    """A message that can be called and awaited, and is empty."""

    def __call__(self, *_: Any) -> Any:
        raise AssertionError(f"{self} is called")

    def __await__(self) -> Any:
        raise AssertionError(f"{self} is awaited")

    def __aiter__(self) -> Any:
        raise AssertionError(f"{self} is iterated over")

    def __iter__(self) -> Any:
        raise AssertionError(f"{self} is iterated over")

    def __len__(self) -> int:
        return 0


def token(uid: str) -> Tok:
    return (Tok, TokError, TokFunc)[ord(uid[-1]) % 3](uid)


@dataclasses.dataclass
class Scenario:
    """A closed program around the library plus its oracle."""

    name: str
    build: Callable[[Execution], None]
    bound: int = 1
    cap: int = 0
    """Maximum number of executions, 0 for no cap.  A cap that is hit is reported: the run is not exhaustive."""
    spy: Callable[[Execution, Any], None] | None = None
    """Looks at the objects of the program before every step; every execution is compared with the same one without it."""
    shutdown: Any = None
    """Shuts the program down at any step."""


@dataclasses.dataclass
class Found:
    scenario: str
    message: str
    choices: list[int]
    kind: str = "violation"


@dataclasses.dataclass
class Stats:
    executions: int = 0
    transitions: int = 0
    quiescent: int = 0
    states: set[int] = dataclasses.field(default_factory=set)
    outcomes: set[int] = dataclasses.field(default_factory=set)
    found: list[Found] = dataclasses.field(default_factory=list)
    known: dict[str, int] = dataclasses.field(default_factory=dict)
    replays: int = 0
    divergences: int = 0
    """Replayed prefixes that did not fit, or replays that differ: nondeterminism that is not under control."""
    max_choices: int = 0
    pruned: int = 0
    """Executions that fail for the reasons of another property."""
    capped: bool = False
    sample: list[str] | None = None

    def merge(self, other: "Stats") -> None:
        self.executions += other.executions
        self.transitions += other.transitions
        self.quiescent += other.quiescent
        self.states |= other.states
        self.outcomes |= other.outcomes
        self.found.extend(other.found)
        for key, val in other.known.items():
            self.known[key] = self.known.get(key, 0) + val
        self.replays += other.replays
        self.divergences += other.divergences
        self.max_choices = max(self.max_choices, other.max_choices)
        self.pruned += other.pruned
        self.capped |= other.capped
        self.sample = self.sample or other.sample


def outcome_of(x: Execution) -> int:
    """Hash of the externally visible history: order of begins/ends and results."""
    if x.outcome is not None:
        return hash(x.outcome)
    return x.fp


def run_one(scenario: Scenario, prefix: Sequence[int], trace: bool = False) -> tuple[Execution, str | None]:
    x, message = run_alone(scenario, prefix, trace, scenario.spy)
    if scenario.shutdown is not None and message is not None and not x.shutting:
        # Another property.
        message = None
        x.pruned = True
    if scenario.spy is not None:
        y, expected = run_alone(scenario, x.chooser.choices, False, None)
        if message is not None and expected is not None:
            # It fails in any case: another property.
            message = None
            x.pruned = True
        elif message is not None:
            message = f"only if somebody looks: {message}"
        elif expected is not None:
            message = f"only if nobody looks: {expected}"
        elif y.fp != x.fp or y.chooser.costs != x.chooser.costs:
            theirs = {(o.who, o.kind, o.obj, o.seq): o.show() for o in y.ops}
            differ = [
                f"{o.show()}; without looking: {theirs.get((o.who, o.kind, o.obj, o.seq))}"
                for o in x.ops
                if theirs.get((o.who, o.kind, o.obj, o.seq), "").split(" 0x")[0] != o.show().split(" 0x")[0]
            ]
            message = f"what happens depends on whether somebody looks: {differ[:1] or 'the scheduling differs'}"
    return x, message


def run_alone(
    scenario: Scenario, prefix: Sequence[int], trace: bool, spy: Callable[[Execution, Any], None] | None
) -> tuple[Execution, str | None]:
    x = Execution(prefix, trace)
    x.spy = spy
    x.shutdown = scenario.shutdown
    x.naming = zlib.crc32(scenario.name.encode()) % 3
    x.loop._vtime = (0.0, 7.25, 1000.5)[x.naming]  # pylint: disable=protected-access
    if HANG_SECONDS:
        # Time of the processor: the machine may be busy with other things.
        signal.setitimer(signal.ITIMER_PROF, HANG_SECONDS)
        signal.setitimer(signal.ITIMER_REAL, 12 * HANG_SECONDS)
    try:
        x.run(scenario.build)
        x.check_drivers()
        if scenario.spy is not None or scenario.shutdown is not None:
            # Another property.
            x.findings.clear()
        for ident, what in x.findings:
            if LISTED is not None and ident not in LISTED:
                return x, f"{ident}, not listed for this property: {what}"
        return x, None
    except Violation as exc:
        return x, str(exc)
    except Exception as exc:  # pylint: disable=broad-except
        # An error raised by the library where none is expected is a violation.
        tb = exc.__traceback__
        inner = None
        while tb is not None:
            inner = tb.tb_frame.f_code.co_filename
            tb = tb.tb_next
        if isinstance(exc, (MemoryError, ImportError)):
            raise
        if inner is None or "/frequenz/channels/" not in inner:
            return x, f"the program or its oracle failed on what the library did, {type(exc).__name__}: {exc} {strip_traceback(exc)}"
        return x, f"unexpected {type(exc).__name__} from the library: {exc}"
    except Hang:
        x.fp = 0
        x.chooser.frozen = True
        return x, f"hang: the code under test did not return for {HANG_SECONDS} s"
    finally:
        if HANG_SECONDS:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)


HANG_SECONDS = 15.0
LISTED: set[str] | None = None
"""The known findings of the property, None for any."""


def _on_alarm(*_: Any) -> None:
    raise Hang()


signal.signal(signal.SIGALRM, _on_alarm)
signal.signal(signal.SIGPROF, _on_alarm)


_since_gc = 0


def _collect() -> None:
    global _since_gc  # pylint: disable=global-statement
    _since_gc += 1
    if _since_gc >= 300:
        _since_gc = 0
        gc.collect()


def explore(
    scenario: Scenario,
    prefixes: list[list[int]],
    stats: Stats,
    *,
    budget: int = 0,
) -> list[list[int]]:
    """Explore all executions below `prefixes`; after `budget` executions return the prefixes left to explore."""
    stack: list[list[int]] = [list(p) for p in reversed(prefixes)]
    done = 0
    while stack:
        if budget and done >= budget:
            return stack[::-1]
        cur = stack.pop()
        x, message = run_one(scenario, cur)
        _collect()
        done += 1
        if x.chooser.diverged or (len(x.chooser.choices) < len(cur) and message is None and not x.pruned):
            stats.divergences += 1
        stats.executions += 1
        stats.transitions += x.transitions
        stats.quiescent += x.quiescent_states
        stats.states |= x.states
        stats.outcomes.add(outcome_of(x))
        stats.max_choices = max(stats.max_choices, len(x.chooser.choices))
        for ident, _ in x.findings:
            stats.known[ident] = stats.known.get(ident, 0) + 1
        if stats.executions <= 2 or stats.executions % 997 == 0 or message is not None:
            # Own every source of nondeterminism, and prove it: same choices, same execution.
            y, message2 = run_one(scenario, x.chooser.choices, trace=True)
            stats.replays += 1
            if message2 != message or y.fp != x.fp or y.chooser.costs != x.chooser.costs:
                stats.divergences += 1
            if stats.sample is None:
                stats.sample = y.trace
        if message is not None:
            stats.found.append(Found(scenario.name, message, list(x.chooser.choices)))
            return []
        if x.pruned:
            stats.pruned += 1
            continue
        children = []
        spent = 0
        choices, costs = x.chooser.choices, x.chooser.costs
        for i in range(len(choices)):
            if i >= len(cur):
                for alt in range(1, len(costs[i])):
                    if spent + costs[i][alt] <= scenario.bound:
                        children.append(choices[:i] + [alt])
            spent += costs[i][choices[i]]
        children.reverse()
        stack.extend(children)
    return []
