"""Anycast: world, reference oracle and program generator."""

from __future__ import annotations

import itertools
from typing import Any, Iterable, Sequence

from .chan import World
from .explore import Execution, Op, Scenario
from .text import Lasso, parse, shared

RECV_OPS = ("recv", "next", "ready", "consume")


class AnycastOracle:
    """The reference semantics, checked from the outside: at every idle state and over the whole history."""

    def __init__(self, x: Execution, world: World, limits: dict[str, int], aspects: set[str], epilogue: str) -> None:
        self.x = x
        self.w = world
        self.limits = limits
        self.aspects = aspects
        x.insist = "atomic" in aspects
        self.epilogue = epilogue
        self.blocked_at_idle: set[int] = set()
        x.quiescent_hooks.append(self.idle)
        x.final_hooks.append(self.final)

    # -- helpers --------------------------------------------------------------------

    def channel_of(self, op: Op) -> str:
        return op.obj if op.kind in ("send", "close") else self.w.recv_channel[op.obj]

    def on(self, ch: str) -> list[Op]:
        return [o for o in self.x.ops if o.kind in RECV_OPS and self.w.recv_channel.get(o.obj) == ch]

    @staticmethod
    def last_delivery(ops: Iterable[Op], t: int) -> int:
        return max((o.end or 0 for o in ops if o.kind != "ready" and o.ok and (o.end or 0) <= t), default=0)

    def held(self, ch: str, t: int, *, idle: bool) -> tuple[int, int]:
        """(min, max) number of messages taken by receivers of ch and not handed out at time t."""
        low = high = 0
        for name, chan in self.w.recv_channel.items():
            if chan != ch:
                continue
            ops = [o for o in self.x.ops if o.kind in RECV_OPS and o.obj == name and o.begin <= t]
            last = self.last_delivery(ops, t)
            sure = any(
                o.kind == "ready" and o.ok and o.result is True and last < (o.end or 0) <= t for o in ops
            )
            active = [o for o in ops if o.end is None or o.end > t]
            parked = any(o.outcome in ("cancelled", "spurious", "exc") and last < (o.end or 0) <= t for o in ops)
            if sure:
                low += 1
                high += 1
            elif parked and not (idle and active):
                high += 1
            elif active and not idle:
                high += 1
        return low, high

    def accepted(self, ch: str, t: int) -> int:
        return sum(1 for o in self.x.ops if o.kind == "send" and o.obj == ch and o.ok and (o.end or 0) <= t)

    def delivered(self, ch: str, t: int) -> int:
        return sum(1 for o in self.on(ch) if o.kind != "ready" and o.ok and (o.end or 0) <= t)

    def closed_at(self, ch: str) -> int | None:
        return min((o.begin for o in self.x.ops if o.kind == "close" and o.obj == ch), default=None)

    # -- checks ---------------------------------------------------------------------

    def idle(self) -> None:
        """Checked whenever the event loop has nothing to run."""
        t = self.x.clock
        for ch, limit in self.limits.items():
            low, high = self.held(ch, t, idle=True)
            diff = self.accepted(ch, t) - self.delivered(ch, t)
            receivers = [o for o in self.on(ch) if o.pending]
            senders = [o for o in self.x.ops if o.kind == "send" and o.obj == ch and o.pending]
            closed = self.closed_at(ch) is not None
            if "wakeup" in self.aspects:
                if receivers and diff - high > 0:
                    self.x.fail(
                        f"lost wakeup: {receivers[0].show()} waits although channel {ch} holds {diff - high} message(s)"
                    )
                for op in receivers:
                    mine = [o for o in self.x.ops if o.kind in RECV_OPS and o.obj == op.obj]
                    last = self.last_delivery(mine, t)
                    if any(o.kind == "ready" and o.ok and o.result is True and (o.end or 0) > last for o in mine):
                        self.x.fail(f"{op.show()} waits although its receiver is already ready")
                    # A message that only this receiver can have taken and still holds.
                    others = sum(
                        1 for n, c in self.w.recv_channel.items() if c == ch and n != op.obj
                    )
                    if not others and diff > 0:
                        self.x.fail(f"lost wakeup: {op.show()} waits although {diff} message(s) are there for it")
            if ("wakeup" in self.aspects or "capacity" in self.aspects) and senders and not closed and diff - low < limit:
                self.x.fail(
                    f"{senders[0].show()} waits although channel {ch} (limit {limit}) holds at most {diff - low} message(s)"
                )
            if "capacity" in self.aspects and diff - high > limit:
                self.x.fail(f"channel {ch} (limit {limit}) holds {diff - high} messages")
            if "close" in self.aspects and closed and (senders or receivers):
                self.x.fail(f"{(senders + receivers)[0].show()} still waits although channel {ch} is closed")
            for op in senders:
                if not closed:
                    self.blocked_at_idle.add(op.seq)

    def final(self) -> None:
        x, w = self.x, self.w

        async def drain_body(d: Any) -> None:
            if self.epilogue == "drain":
                # Take everything through the first receiver of each channel while it is still open.
                for name in self.firsts():
                    for _ in range(20):
                        ch = w.recv_channel[name]
                        sends = [o for o in x.ops if o.kind == "send" and o.obj == ch]
                        if not any(o.pending for o in sends) and self.accepted(ch, x.clock) <= self.delivered(ch, x.clock):
                            break
                        await d.op("recv", name, w.receivers[name].receive())
                        await d.point()
            for ch in self.limits:
                await d.op("close", ch, w.channels[ch].close())
            # All the receivers are drained at the same time, and as fast as they can.

        async def empty(d: Any) -> None:
            for name in list(w.receivers):
                await w.drain_receiver(d, name, 3000)

        drv = x.drain(drain_body)
        if not drv.done and drv.current is not None and "exactly-once" in self.aspects:
            self.idle_blocked(drv.current)
        x.drain(empty, "epilogue2")
        self.history()

    def idle_blocked(self, op: Op) -> None:
        if op.kind == "recv":
            # Legal only if another receiver holds all that was accepted.
            ch = self.w.recv_channel[op.obj]
            _, high = self.held(ch, self.x.clock, idle=True)
            if self.accepted(ch, self.x.clock) - self.delivered(ch, self.x.clock) > high:
                self.x.fail(f"{op.show()} never gets the messages accepted by channel {ch}")

    def firsts(self) -> list[str]:
        seen: dict[str, str] = {}
        for name, ch in self.w.recv_channel.items():
            seen.setdefault(ch, name)
        return list(seen.values())

    def history(self) -> None:
        from frequenz.channels import (  # pylint: disable=import-outside-toplevel
            ChannelClosedError,
            ReceiverStoppedError,
            SenderError,
        )

        x, w, asp = self.x, self.w, self.aspects
        sends = {(o.obj, o.arg): o for o in x.ops if o.kind == "send"}
        for op in x.ops:
            if op.outcome == "spurious":
                x.fail(f"{op.show()}: cancelled by nobody")
            if op.outcome != "exc":
                continue
            ch = self.channel_of(op)
            closed = self.closed_at(ch)
            expected = {
                "send": SenderError,
                "recv": ReceiverStoppedError,
                "consume": ReceiverStoppedError,
                "next": StopAsyncIteration,
            }.get(op.kind)
            if expected is None or not isinstance(op.result, expected):
                x.fail(f"unexpected error: {op.show()} ({op.notes.get('where')})")
            if closed is None or closed > (op.end or 0):
                x.fail(f"{op.show()}: the channel is not closed")
            if "close" in asp:
                cause = op.result.__cause__
                if op.kind == "next":
                    continue
                who = op.result.sender if op.kind == "send" else op.result.receiver
                mine = op.notes["sender"] if op.kind == "send" else w.receivers[op.obj]
                if who is not mine:
                    x.fail(f"{op.show()}: names {who!r}")
                if not isinstance(cause, ChannelClosedError) or cause.channel is not w.channels[ch]:
                    x.fail(f"{op.show()}: cause is {cause!r}")
        for ch in self.limits:
            dels = [(u, o) for u, o in w.deliveries() if w.recv_channel[o.obj] == ch]
            got = [u for u, _ in dels]
            for uid, op in dels:
                send = sends.get((ch, uid))
                if send is None:
                    x.fail(f"{op.show()}: message was never sent to channel {ch}")
                    continue
                if send.begin > (op.end or 0):
                    x.fail(f"{op.show()}: message was received before it was sent")
                if "exactly-once" in asp and got.count(uid) > 1:
                    x.fail(f"message {uid} was received {got.count(uid)} times")
                if "atomic" in asp and (send.outcome in ("cancelled", "exc")):
                    x.fail(f"{op.show()}: message received although {send.show()}")
            for (chan, uid), send in sends.items():
                if chan == ch and send.ok and uid not in got and ("exactly-once" in asp or "atomic" in asp):
                    x.fail(f"message {uid} of completed {send.show()} was lost")
            if "fifo" in asp:
                self.check_fifo(ch, dels, sends)
            if "capacity" in asp:
                for op in x.ops:
                    if op.kind == "send" and op.obj == ch and op.ok:
                        t = op.end or 0
                        _, high = self.held(ch, t, idle=False)
                        extra = self.accepted(ch, t) - self.delivered(ch, t) - high
                        if extra > self.limits[ch]:
                            x.fail(f"{op.show()} completed with {extra} messages in channel {ch} of limit {self.limits[ch]}")
                if w.channels[ch].limit != self.limits[ch]:
                    x.fail(f"limit of {ch} is {w.channels[ch].limit}")
            if "close" in asp:
                self.check_close(ch, dels)

    def check_fifo(self, ch: str, dels: list[tuple[str, Op]], sends: dict[tuple[str, str], Op]) -> None:
        x = self.x
        earliest: dict[str, int] = {}
        for uid, op in dels:
            mine = [o for o in x.ops if o.kind in RECV_OPS and o.obj == op.obj]
            prev = max(
                (o.end or 0 for o in mine if o.kind != "ready" and o.ok and (o.end or 0) < (op.end or 0)), default=0
            )
            earliest[uid] = min(o.begin for o in mine if o.end is None or o.end > prev)
        for (ua, oa), (ub, ob) in itertools.permutations(dels, 2):
            sa, sb = sends[(ch, ua)], sends[(ch, ub)]
            if sa.end is not None and sa.end < sb.begin and (ob.end or 0) < earliest[ua]:
                x.fail(f"order: {ua} was sent before {ub} but {ob.show()} came before {oa.show()}")

    def check_close(self, ch: str, dels: list[tuple[str, Op]]) -> None:
        from frequenz.channels import SenderError  # pylint: disable=import-outside-toplevel

        x, w = self.x, self.w
        closed = self.closed_at(ch)
        assert closed is not None
        if not w.channels[ch].is_closed:
            x.fail(f"channel {ch} does not report that it is closed")
        for op in x.ops:
            if op.kind == "send" and op.obj == ch:
                if op.begin > closed and not op.failed_with(SenderError) and op.outcome != "cancelled":
                    x.fail(f"{op.show()} on a closed channel")
                blocked = op.seq in self.blocked_at_idle and (op.end is None or op.end > closed)
                if blocked and self.freed_before(op, closed):
                    blocked = False
                if blocked and not op.failed_with(SenderError) and op.outcome != "cancelled":
                    x.fail(f"{op.show()} was blocked when the channel was closed at {closed}")
        for name in w.recv_channel:
            if w.recv_channel[name] != ch:
                continue
            stops = [
                o
                for o in x.ops
                if o.obj == name
                and (
                    (o.kind in ("recv", "next", "consume") and o.outcome == "exc")
                    or (o.kind == "ready" and o.ok and o.result is False)
                )
            ]
            for op in stops:
                t = op.end or 0
                if closed > t:
                    x.fail(f"{op.show()}: stopped before the channel was closed")
                _, high = self.held(ch, t, idle=False)
                left = self.accepted(ch, t) - self.delivered(ch, t) - high
                if left > 0:
                    x.fail(f"{op.show()}: stopped while {left} accepted message(s) were undelivered")
                later = [o for _, o in dels if o.obj == name and (o.end or 0) > t]
                # Operations that were already running when the stop was reported may still finish.
                later = [o for o in later if o.begin > t]
                if later:
                    x.fail(f"{later[0].show()}: delivered after {op.show()}")

    def freed_before(self, op: Op, closed: int) -> bool:
        """Whether a receiver may have taken a message between the last idle state of this sender and the close."""
        return any(
            o.kind in RECV_OPS and self.w.recv_channel.get(o.obj) == op.obj and o.begin < closed and (o.end or 10**9) > op.begin
            for o in self.x.ops
        )


def scenario(
    name: str,
    scripts: dict[str, Sequence[Sequence[Any]]],
    *,
    limits: dict[str, int],
    receivers: dict[str, str],
    aspects: set[str],
    bound: int,
    epilogue: str = "drain",
    cap: int = 0,
) -> Scenario:
    """A program over anycast channels."""

    def build(x: Execution) -> None:
        from frequenz.channels import Anycast  # pylint: disable=import-outside-toplevel

        w = World(x)
        for ch, limit in limits.items():
            w.channels[ch] = Anycast(name=x.channel_name(ch), **({} if limit == 10 else {"limit": limit}))
        for r, ch in receivers.items():
            w.add_receiver(r, ch)
        AnycastOracle(x, w, limits, aspects, epilogue)
        w.program(scripts)

    return Scenario(name, build, bound, cap)


def label(scripts: dict[str, Sequence[Sequence[Any]]]) -> str:
    """A compact name of a program."""
    return " | ".join(f"{who}:" + ",".join("/".join(str(p) for p in op) for op in ops) for who, ops in scripts.items())


X = "{r1|~r1|:r1}"
Y = "{r2|>r2}"
FREE: list[tuple[tuple[int, ...], dict[str, str], int, int]] = [
    # (limits, program, bound quick, bound thorough)
    ((1, 2), {"s1": "none a", "p": f"{X} {X} {X}", "c": "#"}, 1, 2),
    ((2,), {"s1": "none a", "p": f"{X} {X}", "q": X, "k": "{!p|!q|#}"}, 1, 1),
    ((1, 2), {"s1": "ab", "s2": "c", "p": f"{X} {X}", "q": Y, "k": "{!s1|!s2|!p|!q|#}"}, 0, 1),
    ((1,), {"s1": "a", "s2": "b", "s3": "c", "p": "r1 {r1|!s1|!s2|!s3|#}"}, 1, 2),
    ((2,), {"s1": "abc", "s2": "d", "p": "r1 {r1|!s1|!s2} &r1"}, 1, 2),
    ((1,), {"s1": "ab", "s2": "c", "p": "r1 &{r1|!s1|!s2|#} {r1|}"}, 1, 2),
    ((2,), {"s1": "ab", "p": "r1", "q": "r2", "o": "r3", "k": "{!p|!q} {!q|!o|#}"}, 0, 1),
    ((1, 2), {"s1": "ab", "p": f"{X} {X}", "q": f"{X} {X}", "k": "{!p|!q|#}"}, 0, 1),
    ((3,), {"s1": "abcd", "p": f"{X} {X} {X}", "q": Y}, 0, 1),
    ((2, 3), {"s1": "abc", "s2": "de", "p": "r1 r1 r1", "q": "{r2|#}"}, 0, 0),
    ((1, 2), {"s1": "abcd", "p": f"{X} {X} {X} {X}", "q": Y}, -1, 0),
    ((2, 3), {"s1": "abc", "s2": "de", "p": "r1 r1 r1", "q": "{r2|#} {r2|#}"}, -1, 0),
    ((4,), {"s1": "abcde", "s2": "f", "p": "r1 {r1|!s1|#} r1"}, -1, 1),
    # Many tasks waiting.
    ((5, 2), {"p": "r1", "q": "r2", "o": "r3", "u": "r4", "v": "r5", "s1": "A:a &A:b &A:c &A:d &A:e"}, 0, 1),
    ((5,), {"p": "r1", "q": "r1", "o": "r1", "u": "r1", "s1": "A:a &A:b &A:c &A:d"}, 0, 1),
    ((3,), {"p": "~r1", "q": "r2", "o": "r3", "u": "r4", "v": "r5", "c": "#", "s1": "A:a &A:b"}, 0, 1),
    ((1,), {"s1": "a", "s2": "b", "s3": "c", "s4": "d", "s5": "e", "p": "r1 &r1 &r1 &r1 &r1"}, 0, 1),
    ((1,), {"s1": "a", "s2": "b", "s3": "c", "s4": "d", "p": "r1", "c": "#"}, 0, 1),
    ((2,), {"s1": "A:a &A:b", "s2": "c", "s3": "d", "s4": "e", "p": "r1 &r2 {r1|#|!s3}"}, 0, 1),
    ((1, 12), {f"p{i}": f"&r{i % 4 + 1}" for i in range(12)} | {"s1": "A:m0 " + " ".join(f"&A:m{i}" for i in range(1, 12)), "k": "{!p3|#}"}, 0, 1),
    ((2,), {f"p{i}": f"&r{i}" for i in range(1, 13)} | {"s1": "a", "k": "{!p3|#}"}, 0, 1),
    ((1, 2), {f"s{i}": f"&A:m{i}" for i in range(12)} | {"p": "r1 " + "&r1 " * 11, "k": "{!s3|#}"}, 0, 1),
]
"""Programs in which operations are chosen by the explorer: all operation sequences of the given lengths (-1: not run)."""


def free(tier: str, aspects: set[str]) -> list[Scenario]:
    """The programs that all properties of anycast channels share."""
    out = []
    for limits, text, quick, thorough in FREE:
        scripts = parse(text)
        receivers = {f"r{i}": "A" for i in range(1, 13) if f"r{i}'" in str(text) or f"r{i}" in str(text) and i <= 5}
        for limit in limits:
            bound = thorough if tier == "thorough" else quick
            if bound < 0:
                continue
            name = f"free limit={limit} bound={bound} " + " | ".join(f"{w}: {t}" for w, t in text.items())
            out.append(scenario(name, scripts, limits={"A": limit}, receivers=receivers, aspects=aspects, bound=bound))
    return out + long(tier, aspects)


def long(tier: str, aspects: set[str]) -> list[Scenario]:
    """Long histories: all patterns of operations up to a length, repeated again and again."""
    deep = tier == "thorough"
    out = []
    for limit in (1, 3, 10, 64):
        for length in (1, 2, 3, 4, 5)[: 3 + 2 * deep]:
            for words in (["A:*", "r1", ">r2"], ["A:*", "&A:*", "=r1", "&r2"]):
                script = Lasso(words, length, 96 // length + (limit > 50) * 32, shared(limit))
                for consumers in ({}, {"p": parse({"p": "&r1 " * 150})["p"]}) if words[1] == "r1" else ({},):
                    if consumers:
                        script = Lasso(["A:*", "&A:*", "zz1"], length, 96 // length)
                    name = f"long limit={limit} patterns of {length} {script.words} {bool(consumers)}"
                    out.append(scenario(name, {"u": script, **consumers}, limits={"A": limit}, receivers={"r1": "A", "r2": "A"}, aspects=aspects, bound=0))
    return out
