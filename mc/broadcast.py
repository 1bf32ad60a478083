"""Broadcast: reference model, checked over the whole observed history of each execution."""

from __future__ import annotations

import itertools
from collections import deque
from typing import Any, Iterator, Sequence

from .chan import RECEIVING, World
from .explore import Execution, Op, Scenario, Violation

RECV_OPS = ("recv", "next", "ready", "consume", "rc")


class BroadcastOracle:
    """A channel is a list of queues, one per live receiver; every operation is checked against it."""

    def __init__(self, x: Execution, world: World, aspects: set[str]) -> None:
        self.x = x
        self.w = world
        self.aspects = aspects
        self.idle_states: list[tuple[int, list[Op]]] = []
        self.events: list[tuple[float, str, Any]] = []
        x.quiescent_hooks.append(self.idle)
        x.final_hooks.append(self.final)

    def idle(self) -> None:
        pending = [o for o in self.x.ops if o.pending]
        self.idle_states.append((self.x.clock, pending))
        if "close" in self.aspects or "wakeup" in self.aspects or "overflow" in self.aspects:
            for op in pending:
                if op.kind in ("send", "close"):
                    self.x.fail(f"{op.show()} waits although a broadcast channel never makes it wait")

    # -- the end of the execution -----------------------------------------------------

    def final(self) -> None:
        x, w = self.x, self.w

        async def rest(d: Any) -> None:
            # What is left is there to be received before ...
            for name, recv in list(w.receivers.items()):
                d.call("len", name, lambda r=recv: len(r))
                n = 0
                while n < 3000 and len(recv) > 0:
                    n += 1
                    await d.op("recv", name, recv.receive())
            # ... and after the channel is closed.
            for ch, chan in w.channels.items():
                if not chan.is_closed:
                    await w.perform(d, ("send", ch, f"{ch}-last"))
                    await w.perform(d, ("close", ch))

        async def ends(d: Any) -> None:
            for name in list(w.receivers):
                await w.drain_receiver(d, name, 3000)
                d.call("len", name, lambda r=w.receivers[name]: len(r))
                await d.op("ready", name, w.receivers[name].ready())

        drv = x.drain(rest)
        if not drv.done:
            x.fail(f"{drv.current.show() if drv.current else 'the epilogue'} waits forever")
        drv = x.drain(ends, "epilogue2")
        if not drv.done and "close" in self.aspects:
            x.fail(f"{drv.current.show() if drv.current else 'the epilogue'} waits forever on a closed channel")
        self.history()
        if "close" in self.aspects:
            self.errors()

    # -- the reference model ----------------------------------------------------------

    def linearizations(self) -> Iterator[dict[int, int]]:
        """When each send/close took effect: at its only moment, or, if it was suspended, at its begin or at its end."""
        open_ops = [o for o in self.x.ops if o.kind in ("send", "close") and (o.end is None or o.end != o.begin + 1)]
        fixed = {o.seq: o.begin for o in self.x.ops if o.kind in ("send", "close")}
        for picks in itertools.product((0, 1), repeat=min(len(open_ops), 6)):
            at = dict(fixed)
            for op, late in zip(open_ops, picks):
                if late and op.end is not None:
                    at[op.seq] = op.end
            yield at

    def history(self) -> None:
        first: Violation | None = None
        for at in self.linearizations():
            try:
                self.run_model(at)
                return
            except Violation as exc:
                first = first or exc
        assert first is not None
        raise first

    def run_model(self, at: dict[int, int]) -> None:
        x, w = self.x, self.w
        events: list[tuple[int, int, str, Any]] = []
        for op in x.ops:
            if op.kind in ("send", "close"):
                events.append((at[op.seq], 0, op.kind, op))
            elif op.end is not None:
                events.append((op.end, 0, op.kind, op))
        for clock, ops in self.idle_states:
            events.append((clock, 1, "idle", ops))
        events.sort(key=lambda e: (e[0], e[1]))

        queues: dict[str, deque[str]] = {}
        lossy: set[str] = set()
        latest: dict[str, str] = {}
        resend: dict[str, bool] = {ch: bool(w.initial_resend.get(ch)) for ch in w.channels}
        closed: set[str] = set()
        for name, ch in w.recv_channel.items():
            if w.created[name] == 0:
                queues[name] = deque()
        asp = self.aspects
        for _, _, kind, op in events:
            if kind == "idle":
                if "wakeup" in asp:
                    for o in op:
                        q = queues.get(o.obj)
                        if o.kind in RECV_OPS and q is not None and (q or w.recv_channel[o.obj] in closed):
                            x.fail(f"{o.show()} waits although {'there are messages: ' + str(list(q)) if q else 'the channel is closed'}")
                continue
            if kind == "send":
                if op.obj in closed:
                    if op.ok:
                        x.fail(f"{op.show()} on a closed channel")
                    continue
                if not op.ok:
                    x.fail(f"{op.show()} on an open channel ({op.notes.get('where')})")
                latest[op.obj] = op.arg
                for name, q in queues.items():
                    if w.recv_channel[name] == op.obj:
                        if len(q) == w.limits[name]:
                            q.popleft()
                            lossy.add(name)
                        q.append(op.arg)
            elif kind == "close":
                closed.add(op.obj)
                latest.pop(op.obj, None)
            elif kind == "toggle":
                resend[op.obj] = op.arg
            elif kind == "new":
                if not op.ok:
                    x.fail(f"{op.show()} ({op.notes.get('where')})")
                ch = w.recv_channel[op.obj]
                queues[op.obj] = deque([latest[ch]] if resend[ch] and ch in latest else [])
            elif kind == "len":
                if not op.ok or op.result != len(queues[op.obj]):
                    x.fail(f"{op.show()} but it holds {list(queues[op.obj])}")
            elif kind == "ready":
                q = queues[op.obj]
                ch = w.recv_channel[op.obj]
                if op.outcome == "cancelled":
                    continue
                if not op.ok or op.result not in (True, False):
                    x.fail(f"unexpected result: {op.show()} ({op.notes.get('where')})")
                if op.result is True and not q:
                    x.fail(f"{op.show()} but there is no message")
                if op.result is False and (q or ch not in closed):
                    x.fail(f"{op.show()} but {'messages are left: ' + str(list(q)) if q else 'the channel is open'}")
            elif kind in RECEIVING:
                q = queues[op.obj]
                ch = w.recv_channel[op.obj]
                if op.outcome == "cancelled":
                    continue
                if op.ok:
                    uid = w.uid(op.result)
                    if not q:
                        x.fail(f"{op.show()}: got {uid} but no message is left for this receiver")
                    want = q.popleft()
                    if uid != want:
                        x.fail(f"{op.show()}: got {uid}, the next message is {want} (then {list(q)})")
                elif op.outcome == "exc" and type(op.result).__name__ in ("ReceiverStoppedError", "StopAsyncIteration"):
                    if q:
                        x.fail(f"{op.show()}: stopped although messages are left: {list(q)}")
                    if ch not in closed:
                        x.fail(f"{op.show()}: stopped although the channel is open")
                else:
                    x.fail(f"unexpected result: {op.show()} ({op.notes.get('where')})")
        for name, q in queues.items():
            if q and name in w.receivers:
                x.fail(f"receiver {name} never handed out {list(q)}")

    def errors(self) -> None:
        from frequenz.channels import ChannelClosedError  # pylint: disable=import-outside-toplevel

        x, w = self.x, self.w
        for op in x.ops:
            if op.outcome != "exc" or op.kind == "next":
                continue
            if op.kind == "send":
                ch, who, mine = op.obj, op.result.sender, op.notes["sender"]
            else:
                ch, who, mine = w.recv_channel[op.obj], op.result.receiver, w.all_receivers[op.obj]
            if who is not mine:
                x.fail(f"{op.show()}: names {who!r}")
            cause = op.result.__cause__
            if not isinstance(cause, ChannelClosedError) or cause.channel is not w.channels[ch]:
                x.fail(f"{op.show()}: cause is {cause!r}")
        for ch, chan in w.channels.items():
            if not chan.is_closed:
                x.fail(f"channel {ch} does not report that it is closed")


def scenario(
    name: str,
    scripts: dict[str, Sequence[Sequence[Any]]],
    *,
    channels: dict[str, bool],
    receivers: dict[str, tuple[str, int]],
    aspects: set[str],
    bound: int,
) -> Scenario:
    """A program over broadcast channels; receivers: name -> (channel, limit)."""

    def build(x: Execution) -> None:
        from frequenz.channels import Broadcast  # pylint: disable=import-outside-toplevel

        w = World(x)
        for ch, resend in channels.items():
            w.channels[ch] = Broadcast(name=x.channel_name(ch), resend_latest=resend)
            w.initial_resend[ch] = resend
        for r, (ch, limit) in receivers.items():
            w.add_receiver(r, ch, **({} if limit == 50 else {"limit": limit}))
        BroadcastOracle(x, w, aspects)
        w.program(scripts)

    return Scenario(name, build, bound)
