"""All cycles of operations up to a length, repeated for many rounds, on every kind of receiver and combinator: sends, receives,
receives that time out or are cancelled, ready(), short select() loops, short-lived receivers, mergers, senders, and so on.
Oracle: what is alive (library objects, tasks, futures, timer handles, messages, and everything reachable from the library's objects)
does not grow from round to round; nothing is left once the program has dropped everything."""

import asyncio
import collections
import gc
import types
import weakref
from datetime import timedelta

from ..explore import Scenario
from ..files import OS
from .. import files

SKIP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.FrameType, types.CoroutineType,
        types.AsyncGeneratorType, types.CodeType, asyncio.AbstractEventLoop)
BASIC = (str, int, float, bool, bytes, type(None))
COUNTED = (asyncio.Future, asyncio.Handle, types.CoroutineType, types.AsyncGeneratorType)
ROUNDS = 12
"""How many rounds between two looks."""


class Msg:
    """A message."""

    alive = weakref.WeakSet()

    def __init__(self):
        Msg.alive.add(self)


def census(roots):
    """What is alive, by type, and how much there is reachable from the roots."""
    gc.collect()
    out = collections.Counter()
    for obj in gc.get_objects():
        if isinstance(obj, COUNTED) or type(obj).__module__.startswith("frequenz.channels"):
            if isinstance(obj, asyncio.Handle) and obj.cancelled():
                continue
            out[type(obj).__name__] += 1
    out["messages"] = len(Msg.alive)
    seen = set()
    todo = list(roots)
    size = 0
    while todo:
        obj = todo.pop()
        if isinstance(obj, SKIP) or id(obj) in seen:
            continue
        seen.add(id(obj))
        size += 1
        if isinstance(obj, BASIC):
            continue
        if isinstance(obj, (list, tuple, dict, set, frozenset, collections.deque)):
            size += len(obj)
        if not isinstance(obj, asyncio.Task):
            todo.extend(gc.get_referents(obj))
    out["reachable"] = size
    return out


def fails(_message):
    raise ValueError()


class Setup:
    """The objects of one program and the operations on them; the operations leave nothing behind that the user holds."""

    def __init__(self, x, kind):
        from frequenz.channels import Anycast, Broadcast, merge  # pylint: disable=import-outside-toplevel
        from frequenz.channels.event import Event  # pylint: disable=import-outside-toplevel
        from frequenz.channels.file_watcher import FileWatcher  # pylint: disable=import-outside-toplevel
        from frequenz.channels.timer import SkipMissedAndDrift, SkipMissedAndResync, Timer, TriggerAllMissed

        self.x = x
        self.kind = kind
        self.ops = {"timeout": self.timeout, "cancel": self.cancel, "ready timeout": self.ready_timeout, "select": self.select}
        self.roots = []
        self.chan = None
        if "anycast" in kind or "broadcast" in kind:
            self.chan = Anycast(name="a", limit=2) if "anycast" in kind else Broadcast(name="b", resend_latest="resend" in kind)
            made = {} if "anycast" in kind else {"limit": 2}
            self.new = lambda: self.chan.new_receiver(**made)
            self.recv = self.new()
            self.sender = self.chan.new_sender()
            self.ops |= {
                "send": self.send,
                "receive": self.receive,
                "iterate": self.iterate,
                "another receiver": self.another,
                "another sender": self.another_sender,
                "waiting receiver dropped": self.waiting,
            }
            if "map" in kind:
                self.recv = self.recv.map(fails if "fails" in kind else lambda m: m)
            if "merge" in kind:
                self.recv = merge(self.recv, self.new(), self.new().map(lambda m: m))
            self.ops["short merge"] = self.short_merge
            self.ops["another map"] = self.another_map
            if "closed" in kind:
                # A channel forgets dropped receivers when something is sent.
                for name in ("another receiver", "waiting receiver dropped", "short merge", "another map"):
                    del self.ops[name]
        elif kind == "event":
            self.event = self.recv = Event()
            self.ops |= {"set": self.set, "receive": self.receive, "iterate": self.iterate}
        elif kind == "event stopped":
            self.event = self.recv = Event()
            self.ops |= {"stop": self.estop, "receive": self.receive, "iterate": self.iterate}
        elif kind.startswith("timer"):
            policy = {"all": TriggerAllMissed, "resync": SkipMissedAndResync, "drift": SkipMissedAndDrift}[kind.split()[1]]()
            self.recv = Timer(timedelta(seconds=1), policy)
            self.ops |= {"wait": self.wait, "reset": self.reset, "stop": self.stop}
        elif kind.startswith("file"):
            self.os = files.current = OS(True)
            files.install()
            self.recv = FileWatcher(["/w/a"])
            if "ended" in kind:
                self.ops |= {"receive": self.receive, "iterate": self.iterate, "end": self.end}
                self.roots = [self.recv]
                return
            del self.ops["cancel"], self.ops["timeout"], self.ops["ready timeout"], self.ops["select"]
            self.ops |= {"change": self.change, "receive": self.change}
        else:
            raise AssertionError(kind)
        self.roots = [o for o in (self.chan, self.recv, getattr(self, "sender", None)) if o is not None]

    async def guarded(self, awaitable, seconds=0.05):
        """The result, or None if there is none in time."""
        from frequenz.channels import Error  # pylint: disable=import-outside-toplevel

        try:
            async with asyncio.timeout(seconds):
                return await awaitable
        except (TimeoutError, Error, ValueError):
            return None

    async def timeout(self):
        await self.guarded(self.recv.receive())

    async def ready_timeout(self):
        await self.guarded(self.recv.ready())

    async def close(self):
        if "closed" in self.kind:
            await self.chan.close()
        if "ended" in self.kind:
            await self.end()
        if "stopped" in self.kind:
            self.event.stop()

    async def iterate(self):
        async def once():
            async for _message in self.recv:
                break

        await self.guarded(once())

    async def another_map(self):
        recv = self.new().map(lambda m: m)
        await self.guarded(self.sender.send(Msg()))
        await self.guarded(recv.receive())

    async def estop(self):
        self.event.stop()

    async def end(self):
        task = asyncio.create_task(self.recv.ready())
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        self.os.end()
        await task

    async def cancel(self):
        task = asyncio.create_task(self.recv.receive())
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        task.cancel()
        try:
            await task
        except (asyncio.CancelledError, Exception):  # pylint: disable=broad-except
            pass

    async def send(self):
        await self.guarded(self.sender.send(Msg()))

    async def receive(self):
        await self.guarded(self.recv.receive())

    async def another(self):
        recv = self.new()
        await self.guarded(self.sender.send(Msg()))
        await self.guarded(recv.receive())

    async def another_sender(self):
        sender = self.chan.new_sender()
        await self.guarded(sender.send(Msg()))

    async def waiting(self):
        task = asyncio.create_task(self.new().receive())
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        task.cancel()
        try:
            await task
        except (asyncio.CancelledError, Exception):  # pylint: disable=broad-except
            pass
        await self.guarded(self.sender.send(Msg()))

    async def short_merge(self):
        from frequenz.channels import merge  # pylint: disable=import-outside-toplevel

        merged = merge(self.new(), self.new())
        await self.guarded(self.sender.send(Msg()))
        await self.guarded(merged.receive())
        await merged.stop()

    async def select(self):
        from frequenz.channels import select, selected_from  # pylint: disable=import-outside-toplevel

        agen = select(self.recv)

        async def once():
            async for selected in agen:
                selected_from(selected, self.recv)
                break

        await self.guarded(once())
        await agen.aclose()

    async def set(self):
        self.event.set()

    async def wait(self):
        await self.guarded(self.recv.receive(), 1.5)

    async def reset(self):
        self.recv.reset()

    async def stop(self):
        self.recv.stop()

    async def change(self):
        task = asyncio.create_task(self.recv.receive())
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        self.os.emit(["~/w/a"])
        await task
        for watch in self.os.watches:
            watch.draws.clear()


async def forget(x):
    for _ in range(10):
        await asyncio.sleep(0)
        gc.collect()
        # What asyncio has to say about tasks that are garbage together with their channel.
        x.loop.exceptions.clear()


def cycles(kind, depth):
    def build(x):
        x.HORIZON = 100_000

        async def body(d):
            await d.point()
            import frequenz.channels.file_watcher  # pylint: disable=import-outside-toplevel,unused-import

            Msg.alive.clear()
            # What is made once and kept for ever is made now.
            setup = Setup(x, kind)
            await setup.close()
            cycle = [x.pick(list(setup.ops), label="op") for _ in range(depth)]
            for name in cycle:
                await setup.ops[name]()
            del setup
            await forget(x)
            before = census([])
            setup = Setup(x, kind)
            await setup.close()
            counts = []
            for n in range(4 * ROUNDS):
                for name in cycle:
                    await setup.ops[name]()
                if n % ROUNDS == ROUNDS - 1:
                    for _ in range(10):
                        await asyncio.sleep(0)
                    counts.append(census(setup.roots))
            x.note(str(counts))
            for what in counts[-1]:
                seen = [count[what] for count in counts]
                if all(b - a >= ROUNDS // 4 for a, b in zip(seen, seen[1:])):
                    x.fail(f"{' '.join(cycle)} again and again: {seen} {what} after {ROUNDS}, {2 * ROUNDS}, ... rounds")
            del setup
            await forget(x)
            left = census([])
            more = {what: left[what] for what in left if left[what] > before[what]}
            if more:
                x.fail(f"{' '.join(cycle)}: left when all is dropped: {more}")
            x.tick("Z", *cycle)

        x.driver("p", body)

    return Scenario(f"{kind} cycles of {depth}", build, 0)


KINDS = [
    "anycast", "anycast closed", "broadcast", "broadcast closed", "broadcast resend", "anycast map", "broadcast map", "broadcast map fails",
    "anycast merge", "anycast merge closed", "broadcast merge", "anycast map fails merge", "broadcast merge closed",
    "event", "event stopped", "timer all", "timer resync", "timer drift", "file", "file ended",
]  # fmt: skip


def scenarios(tier):
    deep = tier == "thorough"
    small = ("anycast", "broadcast", "event", "event stopped", "timer all", "timer resync", "timer drift", "file", "file ended")
    return [
        cycles(kind, depth)
        for kind in KINDS
        for depth in range(1, (4 if deep else 3) + (kind in small))
        if not (deep and depth == 4 and kind in small[:2])
    ]
