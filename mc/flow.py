"""Pipelines of receivers over channels: expressions, their reference semantics and the oracle.

An expression is  "name" (a receiver of the channel of that name, see `channels`),  ("map", f, expr),  ("merge", expr, ...)
or  ("twins", how, expr), one receiver which is used through several objects.
The messages an expression must hand out are known from its leaves: every message of every leaf exactly once, in order per leaf,
wrapped by the functions on the way.
"""

from __future__ import annotations

import asyncio
from typing import Any, Iterable, Sequence

from .chan import RECEIVING, World, receiver_error
from .explore import Driver, Execution, Op, Scenario
from .text import flat, unroll

READS = ("recv", "next", "ready", "consume", "sel")


class Mapped:
    """The result of applying the function `f` to a message (falsy, and equal to all others)."""

    __slots__ = ("f", "inner")

    def __init__(self, f: str, inner: Any) -> None:
        self.f = f
        self.inner = inner

    def __bool__(self) -> bool:
        return False

    def __eq__(self, other: object) -> bool:
        return isinstance(other, Mapped)

    def __hash__(self) -> int:
        return 3

    def __repr__(self) -> str:
        return f"{self.f}({self.inner!r})"


def user_channel(name: str, slow: bool) -> Any:
    """A channel written by a user, the receivers of which are equal to each other (as instances of a dataclass can be).

    ready() of a slow one is suspended a few times even if there is a message.
    """
    from frequenz.channels import Receiver, ReceiverStoppedError, Sender, SenderError  # pylint: disable=import-outside-toplevel

    class UserReceiver(Receiver):  # type: ignore[type-arg]
        def __init__(self) -> None:
            self.items: list[Any] = []
            self.wake = asyncio.Event()

        async def ready(self) -> bool:
            if slow:
                await asyncio.sleep(0)
            while not self.items:
                if chan.is_closed:
                    return False
                self.wake.clear()
                try:
                    await self.wake.wait()
                finally:
                    # It takes a while to be cancelled, too.
                    for _ in range(3 * slow):
                        await asyncio.sleep(0)
                if slow:
                    await asyncio.sleep(0)
            return True

        def consume(self) -> Any:
            if not self.items:
                raise ReceiverStoppedError(self)
            return self.items.pop(0)

        def __eq__(self, other: object) -> bool:
            return type(other).__name__ == "UserReceiver"

        def __hash__(self) -> int:
            return 5

        def __str__(self) -> str:
            return "user"

    class UserSender(Sender):  # type: ignore[type-arg]
        async def send(self, message: Any, /) -> None:
            if chan.is_closed:
                raise SenderError("closed", self)
            for recv in chan.receivers:
                recv.items.append(message)
                recv.wake.set()

    class UserChannel:
        def __init__(self) -> None:
            self.name = name
            self.is_closed = False
            self.receivers: list[UserReceiver] = []

        def new_sender(self) -> UserSender:
            return UserSender()

        def new_receiver(self, **_: Any) -> UserReceiver:
            self.receivers.append(UserReceiver())
            return self.receivers[-1]

        async def close(self) -> None:
            self.is_closed = True
            for recv in self.receivers:
                recv.wake.set()

    chan = UserChannel()
    return chan


class MapError(Exception):
    """What a mapping function raises for messages whose name starts with x."""

    def __init__(self, f: str, value: Any) -> None:
        Exception.__init__(self, f"{f}({value!r})")
        self.f = f
        self.value = value


class Function:
    """A mapping function that records its calls."""

    def __init__(self, world: World, name: str) -> None:
        self.w = world
        self.name = name
        self.calls: list[tuple[int, Any]] = []

    def __call__(self, value: Any) -> Any:
        x = self.w.x
        self.calls.append((x.clock, value))
        inner = value
        while isinstance(inner, Mapped):
            inner = inner.inner
        if self.w.uid(inner).startswith("x"):
            raise (receiver_error(MapError) if x.naming else MapError)(self.name, value)
        if self.name == "none":
            return None
        return Mapped(self.name, value)


def leaves(expr: Any, path: tuple[str, ...] = ()) -> list[tuple[str, tuple[str, ...]]]:
    """(channel, functions applied from the inside out) of each leaf."""
    if isinstance(expr, str):
        return [(expr, path)]
    if expr[0] == "map":
        return leaves(expr[2], (expr[1],) + path)
    if expr[0] == "twins":
        return leaves(expr[2], path)
    return [leaf for sub in expr[1:] for leaf in leaves(sub, path)]


def twins(x: Execution, handles: list[Any]) -> Any:
    """A receiver, each use of which goes through any one of several objects for the same stream."""
    from frequenz.channels import Receiver, ReceiverStoppedError  # pylint: disable=import-outside-toplevel

    class Twins(Receiver[Any]):
        def handle(self) -> Any:
            return x.pick(handles, label="twin")

        def mine(self, handle: Any, err: ReceiverStoppedError[Any]) -> Exception:
            if not any(err.receiver is h for h in handles):
                x.fail(f"receiving names {err.receiver!r}, called on {handle!r}")
            return ReceiverStoppedError(self)

        async def ready(self) -> bool:
            res = await self.handle().ready()
            return res  # type: ignore[no-any-return]

        def consume(self) -> Any:
            handle = self.handle()
            try:
                return handle.consume()
            except ReceiverStoppedError as err:
                raise self.mine(handle, err) from err.__cause__

        async def receive(self) -> Any:
            handle = self.handle()
            try:
                return await handle.receive()
            except ReceiverStoppedError as err:
                raise self.mine(handle, err) from err.__cause__

        async def __anext__(self) -> Any:
            return await anext(self.handle())

    return Twins()


class Flow:
    """Builds the channels and roots of one execution and checks them."""

    def __init__(
        self,
        x: Execution,
        channels: dict[str, tuple[str, int]],
        roots: dict[str, Any],
        aspects: set[str],
    ) -> None:
        from frequenz.channels import Anycast, Broadcast  # pylint: disable=import-outside-toplevel

        self.x = x
        self.w = World(x)
        self.roots = dict(roots)
        self.aspects = aspects
        self.functions: dict[str, Function] = {}
        self.kinds = channels
        self.stopped: dict[str, int] = {}
        """Clock at which stop() of a root began."""
        self.collected: set[str] = set()
        self.forwards: dict[str, str] = {}
        """Channels that a task forwards a root to."""
        self.waiting_selects: Any = lambda root: []
        for ch, (kind, limit) in channels.items():
            name = x.channel_name(ch)
            if kind == "anycast":
                self.w.channels[ch] = Anycast(name=name, limit=limit)
            elif kind == "broadcast":
                self.w.channels[ch] = Broadcast(name=name)
            else:
                self.w.channels[ch] = user_channel(ch, kind == "slow")
        self.parts: dict[str, list[int]] = {}
        """Identities of the receivers a root is made of."""
        for name, expr in roots.items():
            self.parts[name] = []
            self.w.receivers[name] = self.make(expr, self.parts[name])
            self.w.all_receivers[name] = self.w.receivers[name]
            self.w.created[name] = 0
        self.leaves = {name: leaves(expr) for name, expr in roots.items()}
        self.spare: dict[str, Any] = {}
        self.wrapped: dict[str, list[tuple[int, list[tuple[str, tuple[str, ...]]]]]] = {}
        """The leaves that a root had before something was built on top of it, and until when."""
        every = [ch for name in roots for ch, _ in self.leaves[name]]
        self.shared = {ch for ch, (kind, _) in channels.items() if kind == "anycast" and every.count(ch) > 1}
        """Channels whose messages go to one of several receivers."""
        x.quiescent_hooks.append(self.idle)
        x.final_hooks.append(self.final)

    def make(self, expr: Any, parts: list[int]) -> Any:
        from frequenz.channels import merge  # pylint: disable=import-outside-toplevel

        if isinstance(expr, str):
            kind, limit = self.kinds[expr]
            chan = self.w.channels[expr]
            made = chan.new_receiver(limit=limit, **self.x.named(expr)) if kind == "broadcast" else chan.new_receiver()
        elif expr[0] == "map":
            func = self.functions.setdefault(expr[1], Function(self.w, expr[1]))
            made = self.make(expr[2], parts).map(func)
        elif expr[0] == "twins":
            inner = self.make(expr[2], parts)
            made = twins(self.x, [inner if how == "raw" else inner.map(lambda message: message) for how in expr[1]])
        else:
            made = merge(*(self.make(e, parts) for e in expr[1:]))
        parts.append(id(made))
        return made

    def prepare(self, scripts: dict[str, Sequence[Sequence[Any]]]) -> None:
        """Create the receivers that are merged later."""
        for script in scripts.values():
            for op in flat(script):
                if op[0] == "wrap" and op[2] == "merge":
                    self.spare[op[3]] = self.make(op[3], self.parts[op[1]])

    def wrap(self, root: str, what: str, arg: str) -> None:
        """Build a merger or map on top of a root; from now on it takes its place."""
        from frequenz.channels import merge  # pylint: disable=import-outside-toplevel

        inner = self.w.receivers[root]
        old = self.roots[root]
        self.wrapped.setdefault(root, []).append((self.x.clock, self.leaves[root]))
        if what == "merge":
            made = merge(inner, self.spare[arg])
            self.roots[root] = ("merge", old, arg)
        else:
            made = inner.map(self.functions.setdefault(arg, Function(self.w, arg)))
            self.roots[root] = ("map", arg, old)
        self.leaves[root] = leaves(self.roots[root])
        self.parts[root].append(id(made))
        self.w.receivers[root] = self.w.all_receivers[root] = made
        self.w.created[root] = self.x.clock

    # -- what happened ----------------------------------------------------------------

    def source_of(self, value: Any) -> tuple[str, tuple[str, ...]]:
        """(name of the message, functions applied from the inside out)"""
        fs: list[str] = []
        while isinstance(value, Mapped):
            fs.append(value.f)
            value = value.inner
        return self.w.uid(value), tuple(reversed(fs))

    def outputs(self, root: str, until: int | None = None) -> list[tuple[str, tuple[str, ...], Op]]:
        """Messages handed out by a root, including those for which a function failed."""
        out = []
        for op in sorted((o for o in self.x.ops if o.kind in RECEIVING and o.obj == root and o.end), key=lambda o: o.end or 0):
            if until is not None and (op.end or 0) > until:
                continue
            if op.ok:
                uid, fs = self.source_of(op.result)
                out.append((uid, fs, op))
            elif op.outcome == "exc" and isinstance(op.result, MapError):
                uid, fs = self.source_of(op.result.value)
                out.append((uid, fs + (op.result.f,), op))
        return out

    def accepted(self, ch: str) -> list[str]:
        return [o.arg for o in self.x.ops if o.kind == "send" and o.obj == ch and o.ok]

    def attempted(self, ch: str) -> list[str]:
        return [o.arg for o in self.x.ops if o.kind == "send" and o.obj == ch]

    def closed(self, ch: str) -> int | None:
        return min((o.begin for o in self.x.ops if o.kind == "close" and o.obj == ch), default=None)

    def copies(self, root: str, ch: str) -> int:
        """How often a root must hand out each message of a channel."""
        return 1 if ch in self.shared else sum(1 for c, _ in self.leaves[root] if c == ch)

    def missing(self, root: str, until: int | None = None, *, shared: bool = False) -> list[str]:
        """What a root did not hand out yet; with `shared` also what no root handed out of channels it shares."""
        got = [u for u, _, _ in self.outputs(root, until)]
        every = [u for r in self.roots for u, _, _ in self.outputs(r, until)] if shared and self.shared else []
        ends = 10**9 if until is None else until
        out = []
        for ch in {c: 1 for c, _ in self.leaves[root]}:
            if ch in self.shared and not shared:
                continue
            have = every if ch in self.shared else got
            copies = self.copies(root, ch)
            for op in self.x.ops:
                if op.kind == "send" and op.obj == ch and op.ok and (op.end or 0) <= ends and have.count(op.arg) < copies:
                    out.append(op.arg)
        return out

    def ended(self, root: str) -> bool:
        """Whether all sources of a root are closed."""
        return all(self.closed(ch) is not None for ch, _ in self.leaves[root])

    # -- checks -----------------------------------------------------------------------

    def waiting(self, root: str) -> list[Op]:
        """Operations that wait for a root."""
        return [o for o in self.x.ops if o.pending and o.kind in READS and o.obj == root] + self.waiting_selects(root)

    def sharing(self) -> list[str]:
        """The roots with shared channels."""
        return [r for r in self.roots if any(ch in self.shared for ch, _ in self.leaves[r])]

    def idle(self) -> None:
        for root in self.roots:
            pending = self.waiting(root)
            if not pending:
                continue
            if "stop" in self.aspects and root in self.stopped:
                self.x.fail(f"{pending[0].show()} still waits although its receiver was stopped")
            if root in self.stopped:
                continue
            # A message of a shared channel may be held by another root, unless all of them wait.
            missing = self.missing(root, shared=bool(self.shared) and all(self.waiting(r) for r in self.sharing()))
            if missing and ("wait" in self.aspects):
                self.x.fail(f"{pending[0].show()} waits although {missing} were sent")
            if "stop" in self.aspects and self.ended(root):
                self.x.fail(f"{pending[0].show()} waits although all sources are closed")
            if "wait" in self.aspects:
                mine = [o for o in self.x.ops if o.kind in READS and o.obj == root and o.end is not None]
                last = max((o.end or 0 for o in mine if o.kind != "ready" and o.outcome in ("ok", "exc")), default=0)
                if any(o.kind == "ready" and o.ok and o.result is True and (o.end or 0) > last for o in mine):
                    self.x.fail(f"{pending[0].show()} waits although the receiver is already ready")
        if "stop" in self.aspects and not self.x.chooser.frozen:
            # A merger inside another one is not stopped with it: it may be used on its own.
            done = [
                r
                for r, expr in self.roots.items()
                if r in self.stopped and self.stop_done(r) and not any(sub[0] == "merge" for sub in expr[1:])
            ]
            if done and len(done) == len(self.roots) and self.x.library_tasks():
                self.x.fail(f"tasks left after stop(): {self.x.library_tasks()}")

    def stop_done(self, root: str) -> bool:
        return any(o.kind == "mstop" and o.obj == root and o.ok for o in self.x.ops)

    def final(self) -> None:
        x, w = self.x, self.w

        async def opened(d: Driver) -> None:
            for root in self.roots:
                if root in self.stopped or root in self.collected or root in self.forwards.values():
                    continue
                for _ in range(30):
                    if not self.missing(root):
                        break
                    await d.op("recv", root, w.receivers[root].receive())
                    await d.point()

        async def ends(d: Driver) -> None:
            for ch in w.channels:
                if self.closed(ch) is None and ch not in self.forwards:
                    await d.op("close", ch, w.channels[ch].close())
            for root in self.roots:
                if root in self.collected or root in self.forwards.values():
                    continue
                for _ in range(30):
                    op = await d.op("recv", root, w.receivers[root].receive())
                    if op.outcome == "exc" and type(op.result).__name__ == "ReceiverStoppedError":
                        break
                await d.op("recv", root, w.receivers[root].receive())
                await d.op("ready", root, w.receivers[root].ready())
                await d.op("next", root, anext(w.receivers[root]))

        drv = x.drain(opened)
        if not drv.done and drv.current is not None:
            x.fail(f"{drv.current.show()}: never gets {[self.missing(r) for r in self.roots]}")
        drv = x.drain(ends, "epilogue2")
        if not drv.done and drv.current is not None:
            x.fail(f"{drv.current.show()}: waits forever after everything was closed")
        if x.library_tasks() and "stop" in self.aspects:
            x.fail(f"tasks left after the end: {x.library_tasks()}")
        self.history()

    def history(self) -> None:
        x = self.x
        for op in x.ops:
            if op.outcome == "spurious":
                x.fail(f"{op.show()}: cancelled by nobody ({op.notes.get('where')})")
        for root in self.roots:
            self.check_root(root)
        for ch, root in self.forwards.items():
            got = [u for u, _, _ in self.outputs(root)]
            if self.sent_order(ch) != got or self.closed(ch) is None:
                x.fail(f"{root} handed out {got}, forwarded to {ch} were {self.sent_order(ch)}, closed: {self.closed(ch)}")

    def check_root(self, root: str) -> None:
        x = self.x
        asp = self.aspects
        outputs = self.outputs(root)
        self.check_results(root)
        by_leaf: dict[tuple[str, tuple[str, ...]], list[str]] = {}
        by_channel: dict[str, list[str]] = {}
        where = {uid: ch for ch, _ in self.leaves[root] for uid in self.attempted(ch)}
        for uid, fs, op in outputs:
            if uid not in where:
                x.fail(f"{op.show()}: no such message was sent to {root}")
            ch = where[uid]
            then = next((known for until, known in self.wrapped.get(root, []) if op.begin < until), self.leaves[root])
            fits = [
                # What is built on top of a root keeps the order of the leaves that it had.
                self.leaves[root][i][1]
                for i, (c, p) in enumerate(then)
                if c == ch and fs == (p[: len(fs)] if op.outcome == "exc" else p)
            ]
            if not fits:
                x.fail(f"{op.show()}: functions applied: {fs}, expected {[p for c, p in then if c == ch]}")
            send = next(o for o in x.ops if o.kind == "send" and o.obj == ch and o.arg == uid)
            if send.begin > (op.end or 0):
                x.fail(f"{op.show()}: received before it was sent")
            by_leaf.setdefault((ch, fits[0]), []).append(uid)
            by_channel.setdefault(ch, []).append(uid)
        for ch, path in {leaf: 1 for leaf in self.leaves[root]}:
            got = by_leaf.get((ch, path), [])
            # One sender at a time per channel in these programs, or sends that do not overlap: the order is the order of
            # the moments at which send() was called.
            sent = self.sent_order(ch)
            if ch in self.shared:
                every = [u for r in self.roots for u, _, _ in self.outputs(r) if u in sent]
                if len(set(every)) != len(every):
                    x.fail(f"messages of {ch} handed out more than once: {every}")
                if len(every) < len(sent) and not any(r in self.stopped or r in self.collected for r in self.sharing()):
                    x.fail(f"{[u for u in sent if u not in every]} of {ch} were never handed out")
                continue
            copies = self.leaves[root].count((ch, path))
            total = by_channel.get(ch, [])
            for uid in set(total):
                if total.count(uid) > self.copies(root, ch) or got.count(uid) > copies:
                    x.fail(f"messages of {ch} handed out more than once by {root}: {total}")
            partial = root in self.stopped or root in self.collected
            if not partial and (lost := [u for u in sent if total.count(u) < self.copies(root, ch)]):
                x.fail(f"{root} never handed out {lost} of {ch}")
            if not self.ordered(ch):
                continue
            for n in range(copies):
                # The n-th copies of the messages are in order, too.
                nth = [u for i, u in enumerate(got) if got[:i].count(u) == n]
                if nth != (sent[: len(nth)] if partial else sent):
                    x.fail(f"{root} handed out {got}, sent to {ch} in the order {sent}")
        self.check_functions(root, outputs)

    def ordered(self, ch: str) -> bool:
        sends = sorted((o for o in self.x.ops if o.kind == "send" and o.obj == ch and o.ok), key=lambda o: o.begin)
        return all((a.end or 0) < b.begin for a, b in zip(sends, sends[1:]))

    def sent_order(self, ch: str) -> list[str]:
        return [o.arg for o in sorted((o for o in self.x.ops if o.kind == "send" and o.obj == ch and o.ok), key=lambda o: o.end or 0)]

    def check_results(self, root: str) -> None:
        """Each read of a root ended as it may end."""
        from frequenz.channels import ReceiverStoppedError  # pylint: disable=import-outside-toplevel

        x = self.x
        stop_seen: Op | None = None
        reads = sorted((o for o in x.ops if o.obj == root and o.kind in READS and o.end), key=lambda o: o.end or 0)
        for op in reads:
            t = op.end or 0
            stop = op.kind == "ready" and op.ok and op.result is False
            if op.outcome == "exc":
                if isinstance(op.result, MapError) and op.kind != "ready":
                    pass
                elif op.kind == "next" and isinstance(op.result, StopAsyncIteration):
                    stop = True
                elif op.kind in ("recv", "consume", "sel") and isinstance(op.result, ReceiverStoppedError):
                    stop = True
                    if op.kind == "recv" and op.result.receiver is not self.w.all_receivers.get(root, op.result.receiver):
                        x.fail(f"{op.show()}: names {op.result.receiver!r}")
                else:
                    x.fail(f"unexpected error: {op.show()} ({op.notes.get('where')})")
            if op.kind == "ready" and op.ok and op.result not in (True, False):
                x.fail(f"{op.show()}: not a bool")
            if stop:
                stopped = root in self.stopped and self.stopped[root] < t
                if not stopped:
                    for ch, _ in self.leaves[root]:
                        closed = self.closed(ch)
                        if closed is None or closed > t:
                            x.fail(f"{op.show()}: stopped although {ch} is open")
                    missing = self.missing(root, t)
                    if missing:
                        x.fail(f"{op.show()}: stopped although {missing} were not handed out")
                stop_seen = stop_seen or op
            elif stop_seen and op.begin > (stop_seen.end or 0) and op.outcome != "cancelled":
                x.fail(f"{op.show()}: after {stop_seen.show()}")

    def check_functions(self, root: str, outputs: Iterable[tuple[str, tuple[str, ...], Op]]) -> None:
        if "map" not in self.aspects:
            return
        x = self.x
        expr = self.roots[root]
        direct = True
        sub = expr
        while not isinstance(sub, str):
            if sub[0] == "merge":
                direct = False
                break
            sub = sub[2]
        paths = {f for _, path in self.leaves[root] for f in path}
        for name in paths:
            calls = [(t, self.source_of(v)[0]) for t, v in self.functions[name].calls]
            names = [u for _, u in calls]
            most = sum(1 for r in self.roots for _, path in self.leaves[r] if name in path)
            if any(names.count(u) > most for u in names):
                x.fail(f"{name} was called more than once for a message: {names}")
            if not direct:
                continue
            spans = [(o, u) for u, fs, o in outputs if name in fs]
            if sorted(names) != sorted(u for _, u in spans):
                x.fail(f"{name} was called for {names}, handed out were {[u for _, u in spans]}")
            for op, uid in spans:
                when = next(t for t, u in calls if u == uid)
                if not op.begin <= when <= (op.end or 0):
                    x.fail(f"{name} was called at {when}, not during {op.show()}")


async def perform(flow: Flow, d: Driver, op: Sequence[Any]) -> None:
    """The operations of pipelines, besides those of the World."""
    if op[0] == "any":
        op = flow.w.choose(op[1:])
        if op is None:
            return
    if op[0] == "mstop":
        flow.stopped.setdefault(op[1], flow.x.clock)
        await d.op("mstop", op[1], flow.w.receivers[op[1]].stop())
    elif op[0] == "forward":
        root, ch = op[1:]
        flow.forwards[ch] = root
        while True:
            got = await d.op("recv", root, flow.w.receivers[root].receive())
            if not got.ok:
                break
            sent = await flow.w.send(d, d.name, ch, got.result, flow.w.uid(got.result))
            if not sent.ok:
                flow.x.fail(f"{sent.show()}: forwarding failed ({sent.notes.get('where')})")
        await d.op("close", ch, flow.w.channels[ch].close())
    elif op[0] == "wrap":
        d.call("wrap", op[1], lambda: flow.wrap(*op[1:]))
    elif op[0] == "collect":
        flow.collected.add(op[1])
        flow.x.tick("G", op[1])
        flow.w.receivers.pop(op[1])
        flow.w.all_receivers.pop(op[1])
    else:
        await flow.w.perform(d, op)


def scenario(
    name: str,
    scripts: dict[str, Sequence[Sequence[Any]]],
    *,
    channels: dict[str, tuple[str, int]],
    roots: dict[str, Any],
    aspects: set[str],
    bound: int,
    task_order: str = "asc",
) -> Scenario:
    """A program over a pipeline."""

    def build(x: Execution) -> None:
        x.task_order(task_order)
        flow = Flow(x, channels, roots, aspects)
        for who, script in scripts.items():

            async def body(d: Driver, script: Sequence[Sequence[Any]] = script) -> None:
                for op in unroll(x, script):
                    if op[0] == "now":
                        op = op[1]
                    else:
                        await d.point()
                    await perform(flow, d, op)

            flow.w.drivers[who] = x.driver(who, body)
        # The tasks that a merger starts when it is created are started.
        x.loop.settle()

    return Scenario(name, build, bound)
