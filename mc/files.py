"""FileWatcher: a stand-in for the operating system watch (`watchfiles.awatch`) and the reference model.

The stand-in keeps to the behaviour of awatch: an async generator that starts to watch when it is first iterated, collects the
changes in watched paths (also while nobody waits), yields sets of those that the filter lets pass, ends when its stop event is set or
when the watch ends, and is over (setting the stop event) when a wait in it is cancelled.  No file is touched.
"""

from __future__ import annotations

import asyncio
import os.path
import pathlib
from typing import Any, Iterable

import watchfiles
from watchfiles import Change

from .chan import World
from .explore import Driver, Execution, Op

READS = ("recv", "next", "ready", "consume", "sel")
TYPES = {"+": Change.added, "~": Change.modified, "-": Change.deleted}
SIGN = {"CREATE": "+", "MODIFY": "~", "DELETE": "-"}


def plain(path: Any) -> pathlib.PurePath:
    """A path without detours, the working directory being /w."""
    return pathlib.PurePath(os.path.normpath(os.path.join("/w", str(path))))


def covers(paths: Iterable[Any], path: str, recursive: bool = True) -> bool:
    """Whether a watch of the paths sees changes of a path."""
    p = plain(path)
    for base in map(plain, paths):
        if p == base or (base in p.parents if recursive else p.parent == base):
            return True
    return False


class Watch:
    """One running awatch()."""

    def __init__(self, os: OS, paths: tuple[Any, ...], recursive: bool) -> None:
        self.os = os
        self.paths = paths
        self.recursive = recursive
        self.buffer: list[tuple[int, frozenset[str]]] = []
        self.fut: asyncio.Future[None] | None = None
        self.started = False
        self.ending = False
        self.dead = False
        self.cancelled = False
        self.draws: list[set[str]] = []

    def wake(self) -> None:
        if self.fut is not None and not self.fut.done():
            self.fut.set_result(None)

    async def run(self, watch_filter: Any, stop_event: Any, yield_on_timeout: bool) -> Any:
        self.started = True
        try:
            while True:
                while not self.buffer and not self.ending and not (stop_event is not None and stop_event.is_set()):
                    self.fut = asyncio.get_running_loop().create_future()
                    await self.fut
                if stop_event is not None and stop_event.is_set():
                    return
                if self.buffer:
                    if self.os.merge:
                        batch = set().union(*(b for _, b in self.buffer))
                        self.buffer.clear()
                    else:
                        batch = set(self.buffer.pop(0)[1])
                    self.draws.append(batch)
                    changes = {(TYPES[c[0]], c[1:]) for c in sorted(batch)}
                    if watch_filter is not None:
                        changes = {c for c in changes if watch_filter(*c)}
                    if changes or yield_on_timeout:
                        yield changes
                    continue
                return
        except asyncio.CancelledError:
            self.cancelled = True
            if stop_event is not None:
                stop_event.set()
            raise
        finally:
            self.dead = True


class OS:
    """The operating system of one execution."""

    def __init__(self, merge: bool) -> None:
        self.merge = merge
        self.watches: list[Watch] = []

    def emit(self, changes: Iterable[str]) -> None:
        for watch in self.watches:
            if watch.started and not watch.dead and not watch.ending:
                seen = frozenset(c for c in changes if covers(watch.paths, c[1:], watch.recursive))
                if seen:
                    watch.buffer.append((0, seen))
                    watch.wake()

    def end(self) -> None:
        for watch in self.watches:
            watch.ending = True
            watch.wake()


current: OS | None = None


def fake_awatch(
    *paths: Any,
    watch_filter: Any = watchfiles.DefaultFilter(),
    stop_event: Any = None,
    yield_on_timeout: bool = False,
    recursive: bool = True,
    **_kwargs: Any,
) -> Any:
    assert current is not None
    watch = Watch(current, paths, recursive)
    current.watches.append(watch)
    return watch.run(watch_filter, stop_event, yield_on_timeout)


def install() -> None:
    """Replace awatch."""
    watchfiles.awatch = fake_awatch
    import frequenz.channels.file_watcher as lib  # pylint: disable=import-outside-toplevel

    if hasattr(lib, "awatch"):
        lib.awatch = fake_awatch


class FileOracle:
    """What a file watcher must report."""

    def __init__(
        self, x: Execution, world: World, name: str, *, paths: Iterable[Any] = ("/w/a",), types: str = "+~-", merge: bool = True, given: Any = None
    ) -> None:
        global current  # pylint: disable=global-statement
        install()
        from frequenz.channels.file_watcher import EventType, FileWatcher  # pylint: disable=import-outside-toplevel

        self.x = x
        self.w = world
        self.name = name
        self.paths = list(paths)
        self.types = types
        self.os: OS = world.os or OS(merge)
        world.os = self.os
        current = self.os
        self.emitted: list[tuple[int, str]] = []
        self.ended: int | None = None
        self.waiting_selects: Any = lambda: []
        n = len(self.os.watches)
        kwargs: dict[str, Any] = {}
        if given is not None or set(types) != set("+~-"):
            kwargs["event_types"] = (given or list)(t for t in EventType if SIGN[t.name] in types)
        mine = list(paths)
        world.receivers[name] = world.all_receivers[name] = FileWatcher(mine, **kwargs)
        if given is not None:
            # The list and the types are the caller's: what happens to them later changes nothing.
            mine.clear()
            if isinstance(kwargs["event_types"], (list, set)):
                kwargs["event_types"].clear()
        self.n = n
        x.quiescent_hooks.append(self.idle)
        world.files[name] = self

    @property
    def watch(self) -> Watch | None:
        return self.os.watches[self.n] if self.n < len(self.os.watches) else None

    def matches(self, change: str) -> bool:
        return change[0] in self.types and covers(self.paths, change[1:])

    @property
    def killed(self) -> bool:
        """Known finding F11: a cancelled wait ends the watch."""
        return self.watch is not None and self.watch.cancelled

    def emit(self, changes: Iterable[str]) -> None:
        """Called before the change is emitted."""
        watch = self.watch
        if watch is not None and watch.started and not watch.dead and self.ended is None:
            for c in changes:
                if self.matches(c):
                    self.emitted.append((self.x.clock, c))

    # -- what was seen ----------------------------------------------------------------

    def show(self, event: Any) -> str:
        return f"{SIGN[event.type.name]}{event.path}"

    def outputs(self, until: int | None = None) -> list[tuple[str, Op]]:
        out = []
        for op in sorted((o for o in self.x.ops if o.obj == self.name and o.kind in READS and o.end), key=lambda o: o.end or 0):
            if op.ok and op.kind != "ready" and (until is None or (op.end or 0) <= until):
                if not isinstance(getattr(op.result, "path", None), pathlib.Path) or not hasattr(op.result, "type"):
                    self.x.fail(f"{op.show()}: not an event")
                out.append((self.show(op.result), op))
        return out

    def batches(self) -> list[list[str]]:
        """The matching changes, batch by batch."""
        draws = [sorted(c for c in d if self.matches(c)) for d in (self.watch.draws if self.watch else [])]
        return [d for d in draws if d]

    def left(self) -> list[str]:
        """Matching changes not handed out yet, drawn or not."""
        got = [g for g, _ in self.outputs()]
        drawn = [c for b in self.batches() for c in b]
        for g in got:
            if g in drawn:
                drawn.remove(g)
        waiting: list[str] = []
        if not self.killed:
            # Those that were emitted and not drawn: also if the watch does not cover them.
            count: dict[str, int] = {}
            for b in self.batches():
                for c in b:
                    count[c] = count.get(c, 0) + 1
            seen = set()
            for _, c in self.emitted:
                if not count.get(c) and c not in seen:
                    seen.add(c)
                    waiting.append(c)
            if self.watch is not None:
                waiting += [c for _, b in self.watch.buffer for c in b if self.matches(c) and c not in waiting]
        return drawn + waiting

    def idle(self) -> None:
        pending = [o for o in self.x.ops if o.pending and o.kind in READS and o.obj == self.name] + self.waiting_selects()
        if not pending:
            return
        if left := self.left():
            self.x.fail(f"{pending[0].show()} waits although {left} happened")
        if self.ended is not None or self.killed:
            self.x.fail(f"{pending[0].show()} waits although the watch ended")

    async def epilogue(self, d: Driver) -> None:
        """All changes are handed out, then it is stopped."""
        w, name = self.w, self.name
        for _ in range(50):
            if not self.left():
                break
            op = await w.perform(d, ("recv", name))
            if op is not None and not op.ok:
                break
        await w.perform(d, ("wend",))
        for kind in ("recv", "ready", "recv", "next", "ready"):
            await w.perform(d, (kind, name))

    def check(self) -> None:
        from frequenz.channels import ReceiverStoppedError  # pylint: disable=import-outside-toplevel

        x, name = self.x, self.name
        outputs = self.outputs()
        batches = [list(b) for b in self.batches()]
        for got, op in outputs:
            while batches and not batches[0]:
                batches.pop(0)
            if not batches or got not in batches[0]:
                x.fail(f"{op.show()}: {got} handed out, the changes left are {batches}")
            batches[0].remove(got)
        if self.left():
            x.fail(f"{name} never handed out {self.left()}")
        if self.killed:
            x.findings.append(("F11", name))
        is_ready = False
        stop: Op | None = None
        for op in sorted((o for o in x.ops if o.obj == name and o.kind in READS and o.end), key=lambda o: o.end or 0):
            if op.outcome == "cancelled":
                continue
            stops = op.kind == "ready" and op.ok and op.result is False
            if op.outcome == "exc":
                if isinstance(op.result, ReceiverStoppedError) and op.kind != "ready":
                    stops = True
                    if not self.w.is_receiver(name, op.kind, op.result.receiver):
                        x.fail(f"{op.show()}: names {op.result.receiver!r}")
                elif op.kind == "next" and isinstance(op.result, StopAsyncIteration):
                    stops = True
                else:
                    x.fail(f"unexpected error: {op.show()} ({op.notes.get('where')})")
            if op.outcome == "spurious":
                x.fail(f"{op.show()}: cancelled by nobody ({op.notes.get('where')})")
            if op.kind == "ready" and op.ok and op.result not in (True, False):
                x.fail(f"{op.show()}: not a bool")
            if stops:
                if not self.killed and (self.ended is None or self.ended > (op.end or 0)):
                    x.fail(f"{op.show()}: the watch goes on")
                if any((o.end or 0) > (op.end or 0) for _, o in outputs):
                    x.fail(f"{op.show()} before the last change was handed out")
                stop = stop or op
            elif stop is not None and op.begin > (stop.end or 0):
                x.fail(f"{op.show()}: after {stop.show()}")
            if op.kind == "ready" and is_ready and not stops and op.result is not True:
                x.fail(f"{op.show()}: it was ready")
            if op.kind == "ready" and stops and is_ready:
                x.fail(f"{op.show()}: it was ready with a change")
            is_ready = op.kind == "ready" and op.ok and op.result is True
