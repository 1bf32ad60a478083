"""The protocol of all receivers: ready(), consume(), receive() and iteration."""

from __future__ import annotations

from typing import Any

from .explore import Execution, Op

READS = ("recv", "next", "ready", "consume", "sel")
TAKES = ("recv", "next", "consume", "sel", "reset")


class Protocol:
    """Checks one receiver that is used by one or more tasks; `error` tells which errors its messages may cause."""

    def __init__(self, x: Execution, name: str, receiver: Any, error: type[BaseException] | tuple[()] = ()) -> None:
        self.x = x
        self.name = name
        self.receiver = receiver
        self.error = error
        x.quiescent_hooks.append(self.idle)

    def reads(self) -> list[Op]:
        return [o for o in self.x.ops if o.obj == self.name and o.kind in READS + ("reset", "set")]

    def ready_before(self, op: Op) -> Op | None:
        """A ready() that said there is something, before this one began, and nobody took it."""
        last = None
        for other in self.reads():
            if other.kind in TAKES and other is not op and other.outcome != "cancelled":
                if other.end is None or last is None or other.end > (last.end or 0):
                    last = None
                    if other.end is None:
                        return None
            elif other.kind == "ready" and other.ok and other.result is True and (other.end or 0) < op.begin:
                if not any(
                    t.kind in TAKES and t is not op and t.outcome != "cancelled" and (t.end is None or t.end > (other.end or 0))
                    for t in self.reads()
                    if t.begin < (op.end or 10**9)
                ):
                    last = other
        return last

    def idle(self) -> None:
        for op in self.reads():
            if op.pending and op.kind in READS:
                before = self.ready_before(op)
                if before is not None:
                    self.x.fail(f"{op.show()} waits although {before.show()}")

    def check(self) -> None:
        from frequenz.channels import ReceiverStoppedError  # pylint: disable=import-outside-toplevel

        x = self.x
        stop: Op | None = None
        ended = sorted((o for o in self.reads() if o.end is not None), key=lambda o: o.end or 0)
        for op in ended:
            if op.outcome == "cancelled":
                continue
            if op.kind in ("reset", "set"):
                # A timer is started again by reset(), and an event set after it stopped hands that out.
                stop = None
                continue
            if op.outcome == "spurious":
                x.fail(f"{op.show()}: cancelled by nobody ({op.notes.get('where')})")
            stops = False
            if op.kind == "ready":
                if not op.ok or not isinstance(op.result, bool):
                    x.fail(f"{op.show()}: neither True nor False ({op.notes.get('where')})")
                stops = op.result is False
                before = self.ready_before(op)
                if before is not None and (op.result is not True or op.t_end != op.t_begin):
                    x.fail(f"{op.show()} although {before.show()} and nothing was taken")
            elif op.outcome == "exc":
                err = op.result
                if op.kind == "next" and isinstance(err, StopAsyncIteration):
                    stops = True
                elif op.kind != "next" and isinstance(err, ReceiverStoppedError):
                    stops = True
                    if op.kind == "recv" and err.receiver is not self.receiver:
                        x.fail(f"{op.show()}: names {err.receiver!r}, called on {self.receiver!r}")
                elif not self.error or not isinstance(err, self.error):
                    x.fail(f"unexpected error: {op.show()} ({op.notes.get('where')})")
                if stops and op.kind == "consume" and self.ready_before(op) is not None:
                    x.fail(f"{op.show()} although {self.ready_before(op).show()}")  # type: ignore[union-attr]
            if stops:
                stop = stop or op
            elif stop is not None and op.begin > (stop.end or 0):
                x.fail(f"{op.show()}: after {stop.show()}")
