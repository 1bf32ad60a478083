"""Scripted programs over channels: the alphabet of operations shared by the channel properties.

A program is a list of drivers, each a list of operations.  The explorer decides the interleaving.

Operations:  ("send", ch, uid)  ("recv", r)  ("next", r)  ("rc", r) = ready() then consume(), resumable in between
             ("ready", r)  ("consume", r) ("take", r) = consume() only if the last ready() of this driver succeeded
             ("len", r)  ("toggle", ch, bool) = set resend_latest
             ("close", ch)  ("cancel", driver)  ("new", ch, r, kwargs)  ("drop", r)  ("sleep", s)
             ("any", op, ...) = one of these operations (a free choice of the explorer), None = nothing
             ("now", op) = op without a point before it: nothing else runs in between
"""

from __future__ import annotations

import asyncio
import functools
from datetime import timedelta
from typing import Any, Callable, Sequence

from .explore import TimedOut, Driver, Execution, Op, token
from .text import unroll

RECEIVING = ("recv", "next", "consume", "take", "sel")


@functools.cache
def receiver_error(cls: Any) -> Any:
    """The errors of applications can be this library's errors, too."""
    from frequenz.channels import ReceiverError  # pylint: disable=import-outside-toplevel

    class Both(cls, ReceiverError):  # type: ignore[misc]
        receiver = None

    Both.__name__ = cls.__name__
    return Both


async def timed(awaitable: Any, delay: float) -> Any:
    """What applications do to receive with a timeout."""
    try:
        async with asyncio.timeout(delay):
            return await awaitable
    except TimeoutError as exc:
        raise TimedOut() from exc


class World:
    """Channels, senders, receivers and messages of one execution, addressed by name."""

    def __init__(self, x: Execution) -> None:
        self.x = x
        x.worlds.append(self)
        self.channels: dict[str, Any] = {}
        self.senders: dict[tuple[str, str], Any] = {}
        self.receivers: dict[str, Any] = {}
        self.recv_channel: dict[str, str] = {}
        self.values: dict[str, Any] = {}
        self.drivers: dict[str, Driver] = {}
        self.limits: dict[str, int] = {}
        """Limits of receivers of broadcast channels."""
        self.created: dict[str, int] = {}
        """Clock at which a receiver was created."""
        self.dropped: set[str] = set()
        self.all_receivers: dict[str, Any] = {}
        self.initial_resend: dict[str, bool] = {}
        self.mapped: dict[str, Any] = {}
        """Events, timers and file watchers that are received from through a map()."""
        self.files: dict[str, Any] = {}
        """Oracles of file watchers."""
        self.os: Any = None

    # -- messages -------------------------------------------------------------------

    def value(self, uid: str) -> Any:
        """The message called uid.  Names starting with "none"/"zero"/... are that very value."""
        if uid not in self.values:
            special = {"none": None, "zero": 0, "empty": "", "false": False, "list": []}
            self.values[uid] = special[uid] if uid in special else token(uid)
        return self.values[uid]

    def uid(self, value: Any) -> str:
        """The name of a message, by identity."""
        for uid, known in self.values.items():
            if known is value:
                return uid
        return f"?{value!r}"

    # -- operations -----------------------------------------------------------------

    def sender(self, who: str, channel: str) -> Any:
        key = (who, channel)
        if self.x.naming == 2:
            # A new one each time, it is dropped after it was used.
            return self.channels[channel].new_sender()
        if key not in self.senders:
            self.senders[key] = self.channels[channel].new_sender()
        return self.senders[key]

    async def send(self, d: Driver, who: str, channel: str, message: Any, uid: str) -> Op:
        sender = self.sender(who, channel)
        op = await d.op("send", channel, sender.send(message), uid)
        if not op.ok:
            op.notes["sender"] = sender
        return op

    def control(self, name: str) -> Any:
        """The event, timer or file watcher."""
        return self.mapped.get(name) or self.all_receivers[name]

    def map(self, name: str) -> None:
        """Receive through a map() from now on."""
        self.mapped[name] = self.receivers[name]
        self.receivers[name] = self.all_receivers[name] = self.receivers[name].map(lambda message: message)

    def is_receiver(self, name: str, kind: str, receiver: Any) -> bool:
        """Whether an error names the right receiver."""
        return receiver is self.all_receivers[name] or (kind != "recv" and receiver is self.mapped.get(name))

    def add_receiver(self, name: str, channel: str, **kwargs: Any) -> Any:
        named = self.x.named(name) if type(self.channels[channel]).__name__ == "Broadcast" else {}
        self.receivers[name] = self.channels[channel].new_receiver(**kwargs, **named)
        self.recv_channel[name] = channel
        self.limits[name] = kwargs.get("limit", 50)
        self.all_receivers[name] = self.receivers[name]
        self.created[name] = self.x.clock
        return self.receivers[name]

    def _new(self, name: str, channel: str, kwargs: dict[str, Any]) -> None:
        self.add_receiver(name, channel, **kwargs)

    def told(self, name: str) -> bool:
        """Whether ready() told that there is a message, and it was not handed out yet."""
        mine = [o for o in self.x.ops if o.obj == name]
        out = max((o.end or 0 for o in mine if o.kind in RECEIVING + ("wrap",) and o.outcome in ("ok", "exc")), default=0)
        return any(o.kind == "ready" and o.ok and o.result is True and (o.end or 0) > out for o in mine)

    def choose(self, options: Sequence[Any]) -> Any:
        """One of the operations that make sense now."""
        return self.x.pick(
            [
                o
                for o in options
                if o is None
                or not (
                    (o[0] == "take" and not self.told(o[1]))
                    or (o[0] == "cancel" and (o[1] not in self.drivers or self.drivers[o[1]].current is None))
                    or (o[0] == "new" and o[2] in self.all_receivers)
                    or (o[0] in ("drop", "len", "recv", "next", "ready", "rc") and o[1] not in self.receivers)
                )
            ]
            or [None],
            label="op",
        )

    async def perform(self, d: Driver, op: Sequence[Any]) -> Op | None:
        kind, args = op[0], op[1:]
        x = self.x
        if kind == "any":
            op = self.choose(args)
            if op is None:
                return None
            kind, args = op[0], op[1:]
        if kind == "send":
            ch, uid = args
            return await self.send(d, d.name, ch, self.value(uid), uid)
        if kind == "recv":
            return await d.op("recv", args[0], self.receivers[args[0]].receive())
        if kind == "next":
            return await d.op("next", args[0], anext(self.receivers[args[0]]))
        if kind == "ready":
            return await d.op("ready", args[0], self.receivers[args[0]].ready())
        if kind in ("trecv", "tnext", "tready"):
            recv = self.receivers[args[0]]
            what = {"trecv": recv.receive, "tnext": recv.__anext__, "tready": recv.ready}[kind]
            return await d.op(kind[1:], args[0], timed(what(), args[1]))
        if kind in ("consume", "take"):
            return d.call("consume", args[0], self.receivers[args[0]].consume)
        if kind == "rc":
            res = await d.op("ready", args[0], self.receivers[args[0]].ready())
            if not res.ok:
                return res
            await d.point()
            return d.call("consume", args[0], self.receivers[args[0]].consume)
        if kind == "close":
            return await d.op("close", args[0], self.channels[args[0]].close())
        if kind == "cancel":
            target = self.drivers[args[0]]
            what = target.current
            hit = target.cancel()
            x.tick("X", args[0], hit)
            x.note(f"{d.name}: cancel {args[0]}: " + (what.show() if hit and what else "nothing in progress"))
            return None
        if kind == "new":
            ch, name, kwargs = args
            return d.call("new", name, lambda: self._new(name, ch, kwargs))
        if kind == "len":
            return d.call("len", args[0], lambda: len(self.receivers[args[0]]))
        if kind == "toggle":
            return d.call("toggle", args[0], lambda: setattr(self.channels[args[0]], "resend_latest", args[1]), args[1])
        if kind == "set":
            return d.call("set", args[0], self.control(args[0]).set)
        if kind == "estop":
            return d.call("estop", args[0], self.control(args[0]).stop)
        if kind == "flags":
            recv = self.control(args[0])
            return d.call("flags", args[0], lambda: (recv.is_set, recv.is_stopped))
        if kind == "reset":
            delta = timedelta(seconds=args[1])
            return d.call("reset", args[0], lambda: self.control(args[0]).reset(start_delay=delta), args[1])
        if kind == "tstop":
            return d.call("tstop", args[0], self.control(args[0]).stop)
        if kind == "running":
            return d.call("running", args[0], lambda: self.control(args[0]).is_running)
        if kind == "busy":
            x.loop.advance(args[0])
            x.tick("busy", args[0])
            x.note(f"{d.name}: busy for {args[0]} s")
            return None
        if kind == "os":
            x.tick("os", *args[0])
            x.note(f"{d.name}: the operating system reports {' '.join(args[0])}")
            for oracle in self.files.values():
                oracle.emit(args[0])
            self.os.emit(args[0])
            return None
        if kind == "wend":
            x.tick("wend")
            x.note(f"{d.name}: the watch ends")
            for oracle in self.files.values():
                if oracle.ended is None:
                    oracle.ended = x.clock
            self.os.end()
            return None
        if kind == "drop":
            x.tick("D", args[0])
            x.note(f"{d.name}: drop receiver {args[0]}")
            self.receivers.pop(args[0], None)
            self.all_receivers.pop(args[0], None)
            self.dropped.add(args[0])
            return None
        if kind == "sleep":
            return await d.op("sleep", "loop", asyncio.sleep(args[0]))
        raise AssertionError(op)

    def program(self, scripts: dict[str, Sequence[Sequence[Any]]]) -> None:
        """Create the drivers."""
        for name, script in scripts.items():

            async def body(d: Driver, script: Sequence[Sequence[Any]] = script) -> None:
                for op in unroll(self.x, script):
                    if op[0] == "now":
                        op = op[1]
                    else:
                        await d.point()
                    await self.perform(d, op)

            self.drivers[name] = self.x.driver(name, body)

    # -- views of the history -------------------------------------------------------

    def ops(self, *kinds: str, obj: str | None = None) -> list[Op]:
        return [o for o in self.x.ops if o.kind in kinds and (obj is None or o.obj == obj)]

    def deliveries(self, receiver: str | None = None) -> list[tuple[str, Op]]:
        """Messages handed out, in order: (uid, operation)."""
        ops = [o for o in self.x.ops if o.kind in RECEIVING and o.ok and (receiver is None or o.obj == receiver)]
        ops.sort(key=lambda o: o.end or 0)
        return [(self.uid(o.result), o) for o in ops]

    async def drain_receiver(self, d: Driver, name: str, limit: int = 50) -> Op | None:
        """Receive until the receiver stops; returns the failing operation, None if it never does."""
        for _ in range(limit):
            res = await d.op("recv", name, self.receivers[name].receive())
            if not res.ok:
                return res
        return None


def hooked(x: Execution, build: Callable[[World], None]) -> World:
    world = World(x)
    build(world)
    return world
