"""Event: reference model over the observed history."""

from __future__ import annotations

from typing import Any

from .chan import RECEIVING, World
from .explore import Driver, Execution, Op

READS = ("recv", "next", "ready", "consume", "sel")


class EventOracle:
    """A flag: set() raises it, a consumption lowers it, stop() ends it once it is low."""

    def __init__(self, x: Execution, world: World, name: str, *, flags: bool = True) -> None:
        from frequenz.channels.event import Event  # pylint: disable=import-outside-toplevel

        self.x = x
        self.w = world
        self.name = name
        self.flags = flags
        self.idle_states: list[tuple[int, list[Op]]] = []
        self.waiting_selects: Any = lambda: []
        world.receivers[name] = world.all_receivers[name] = Event(**x.named(name))
        x.quiescent_hooks.append(self.idle)

    def idle(self) -> None:
        pending = [o for o in self.x.ops if o.pending and o.kind in READS and o.obj == self.name]
        self.idle_states.append((self.x.clock, pending + self.waiting_selects()))

    async def epilogue(self, d: Driver) -> None:
        """Everything that is left is handed out, then it is stopped."""
        w, name = self.w, self.name
        await w.perform(d, ("flags", name))
        if not w.control(name).is_stopped:
            for _ in range(2):
                await w.perform(d, ("set", name))
                await w.perform(d, ("recv", name))
        await w.perform(d, ("estop", name))
        for kind in ("flags", "recv", "recv", "ready", "next", "ready", "flags"):
            await w.perform(d, (kind, name))

    def check(self) -> None:
        from frequenz.channels import ReceiverStoppedError  # pylint: disable=import-outside-toplevel

        x, name = self.x, self.name
        events: list[tuple[int, int, str, Any]] = [(c, 1, "idle", ops) for c, ops in self.idle_states]
        events += [(o.end, 0, o.kind, o) for o in x.ops if o.obj == name and o.end is not None]
        events.sort(key=lambda e: (e[0], e[1]))
        is_set = stopped = False
        for _, _, kind, op in events:
            if kind == "idle":
                if op and (is_set or stopped):
                    x.fail(f"{op[0].show()} waits although {name} is {'set' if is_set else 'stopped'}")
                continue
            if op.outcome == "cancelled":
                continue
            if kind in ("set", "estop"):
                if not op.ok:
                    x.fail(f"{op.show()} ({op.notes.get('where')})")
                if kind == "set":
                    is_set = True
                else:
                    stopped = True
            elif kind == "flags":
                if not op.ok or (self.flags and op.result != (is_set, stopped)):
                    x.fail(f"{op.show()} (is_set, is_stopped), expected {(is_set, stopped)} ({op.notes.get('where')})")
            elif kind == "ready":
                if not op.ok or op.result not in (True, False):
                    x.fail(f"unexpected result: {op.show()} ({op.notes.get('where')})")
                if op.result is True and not is_set:
                    x.fail(f"{op.show()} but the event is not set")
                if op.result is False and (is_set or not stopped):
                    x.fail(f"{op.show()} but the event is {'set' if is_set else 'not stopped'}")
            elif kind in RECEIVING:
                if op.ok:
                    if op.result is not None:
                        x.fail(f"{op.show()}: unexpected message")
                    if not is_set:
                        x.fail(f"{op.show()}: handed out a set that was not made or already handed out")
                    is_set = False
                elif isinstance(op.result, (ReceiverStoppedError, StopAsyncIteration)):
                    if is_set or not stopped:
                        x.fail(f"{op.show()} but the event is {'set' if is_set else 'not stopped'}")
                    if isinstance(op.result, ReceiverStoppedError) and not self.w.is_receiver(name, op.kind, op.result.receiver):
                        x.fail(f"{op.show()}: names {op.result.receiver!r}")
                else:
                    x.fail(f"unexpected error: {op.show()} ({op.notes.get('where')})")
