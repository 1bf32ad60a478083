"""Timer: reference model in integer microseconds, run along with every execution."""

from __future__ import annotations

import dataclasses
from datetime import timedelta
from typing import Any

from .chan import World
from .explore import Driver, Execution, Op

READS = ("recv", "next", "ready", "consume", "sel")


@dataclasses.dataclass(frozen=True)
class Spec:
    """How a timer is created."""

    interval: float = 1.0
    policy: str = "all"  # all / resync / drift / custom / again / past
    tolerance: float = 0.0
    auto_start: bool = True
    start_delay: float = 0.0

    def text(self) -> str:
        tol = f" tolerance={self.tolerance}" if self.policy == "drift" else ""
        start = "" if self.auto_start else " auto_start=False"
        delay = f" delay={self.start_delay}" if self.start_delay else ""
        return f"{self.interval}s {self.policy}{tol}{start}{delay}"


def us(seconds: float) -> int:
    return round(seconds * 1_000_000)


class TimerOracle:
    """The documented behaviour of a timer."""

    def __init__(self, x: Execution, world: World, name: str, spec: Spec, policy: Any = None, loop: Any = None) -> None:
        from frequenz.channels import timer as lib  # pylint: disable=import-outside-toplevel

        self.x = x
        self.w = world
        self.name = name
        self.spec = spec
        self.interval = us(spec.interval)
        self.tolerance = us(spec.tolerance)
        self.policy_calls: list[dict[str, int]] = []
        self.policy_expected: list[dict[str, int]] = []
        self.waiting_selects: Any = lambda: []
        self.slack = 0
        """How many microseconds late a timer may be: 1 if the clock is not always at a whole microsecond."""
        self.strict = True
        """Whether the moment a tick fires is known (no select())."""
        self.next: int | None = None
        self.stopped = True
        self.stop_time = 0
        self.drift: int | None = None
        self.discarded = False
        """Whether the last reset() discarded a tick that select() may know of already."""

        outer = self

        class Custom(lib.MissedTickPolicy):
            """Two intervals later, plus half an interval if late."""

            def calculate_next_tick_time(self, *, interval: int, scheduled_tick_time: int, now: int) -> int:
                outer.policy_calls.append({"interval": interval, "scheduled_tick_time": scheduled_tick_time, "now": now})
                return outer.custom(interval, scheduled_tick_time, now)

        policy = policy or {
            "all": lib.TriggerAllMissed,
            "resync": lib.SkipMissedAndResync,
            "drift": lambda: lib.SkipMissedAndDrift(delay_tolerance=timedelta(seconds=spec.tolerance)),
            "custom": Custom,
            "again": Custom,
            "past": Custom,
        }[spec.policy]()
        kwargs: dict[str, Any] = {"loop": loop} if loop is not None else {}
        self.policy = policy
        if not spec.auto_start:
            kwargs["auto_start"] = False
        if spec.start_delay:
            kwargs["start_delay"] = timedelta(seconds=spec.start_delay)
        timer = lib.Timer(timedelta(seconds=spec.interval), policy, **kwargs)
        world.receivers[name] = world.all_receivers[name] = timer
        if spec.auto_start:
            self.restart(us(spec.start_delay))
        if timer.interval != timedelta(microseconds=self.interval) or timer.missed_tick_policy is not policy or timer.loop is not x.loop:
            x.fail(f"wrong interval or policy: {timer!r}")
        if timer.is_running is not spec.auto_start:
            x.fail(f"is_running is {timer.is_running} after the creation")
        x.op_hooks.append(self.on_op)
        x.quiescent_hooks.append(self.idle)
        x.time_hooks.append(self.before_time)

    # -- model ------------------------------------------------------------------------

    def custom(self, interval: int, scheduled: int, now: int) -> int:
        if self.spec.policy == "again":
            return now + (interval if scheduled % 2 else 0)
        if self.spec.policy == "past":
            return scheduled - interval if now > scheduled else scheduled + interval
        return scheduled + 2 * interval + (interval // 2 if now > scheduled else 0)

    def now(self) -> int:
        return us(self.x.loop.time())

    def restart(self, delay: int) -> None:
        self.stopped = False
        self.next = self.now() + delay + self.interval
        self.drift = None

    def following(self, s: int, f: int) -> int:
        kind = self.spec.policy
        if kind == "all":
            return s + self.interval
        if kind == "resync":
            return s + self.interval * (max(f - s, 0) // self.interval + 1)
        if kind == "drift":
            return f + self.interval if f - s > self.tolerance else s + self.interval
        self.policy_expected.append({"interval": self.interval, "scheduled_tick_time": s, "now": f})
        return self.custom(self.interval, s, f)

    def fire(self, op: Op, f: int) -> None:
        """A tick fires at time f."""
        if self.next is None:
            self.x.fail(f"{op.show()}: tick of a timer that was not started")
        assert self.next is not None
        if self.stopped and (f > self.stop_time or self.next > self.stop_time):
            self.x.fail(f"{op.show()}: tick of a stopped timer")
        if f < self.next:
            self.x.fail(f"{op.show()}: tick at {f} us, before its time {self.next} us")
        self.drift = f - self.next
        self.next = self.following(self.next, f)

    # -- observations -----------------------------------------------------------------

    def waiting(self) -> list[Op]:
        ops = [o for o in self.x.ops if o.pending and o.kind in READS and o.obj == self.name]
        return ops + list(self.waiting_selects())

    def idle(self) -> None:
        waiting = self.waiting()
        if not waiting:
            return
        if self.stopped and self.next is not None:
            self.x.fail(f"{waiting[0].show()} waits on a stopped timer")
        if self.drift is not None:
            self.x.fail(f"{waiting[0].show()} waits although a tick is there")
        if self.next is not None and self.next + self.slack <= self.now():
            self.x.fail(f"{waiting[0].show()} waits at {self.now()} us for the tick of {self.next} us")

    def before_time(self, when: float) -> None:
        waiting = self.waiting()
        if waiting and not self.stopped and self.next is not None and us(when) > self.next + self.slack:
            self.x.fail(f"{waiting[0].show()}: waits until {us(when)} us for the tick of {self.next} us")

    def on_op(self, op: Op) -> None:
        if op.kind == "selnext" and op.pending and not op.notes.get("seen"):
            op.notes["seen"] = True
        if op.obj != self.name:
            return
        if op.pending:
            if op.kind in ("recv", "next", "ready") and self.next is None:
                self.restart(0)
            return
        if op.outcome == "cancelled":
            return
        x = self.x
        t = self.now()
        kind = op.kind
        if kind == "reset":
            if not op.ok:
                x.fail(f"{op.show()} ({op.notes.get('where')})")
            # A tick that had fired or was due is discarded.
            self.discarded = not self.strict and not self.stopped and self.next is not None and self.next <= t
            self.restart(us(op.arg))
        elif kind == "tstop":
            if not op.ok:
                x.fail(f"{op.show()} ({op.notes.get('where')})")
            if not self.stopped or self.next is None:
                self.stop_time = t
            self.stopped = True
            if self.next is None:
                self.next = t + 10**15
        if kind in ("reset", "tstop") and self.w.control(self.name).is_running is self.stopped:
            x.fail(f"is_running is {self.stopped} after {op.show()}")
        if kind == "running":
            if not op.ok or op.result is not (not self.stopped):
                x.fail(f"{op.show()}: is_running")
        elif kind == "ready":
            if not op.ok or op.result not in (True, False):
                x.fail(f"unexpected result: {op.show()} ({op.notes.get('where')})")
            if op.result is False:
                self.stop_seen(op)
            elif self.drift is None and self.strict:
                self.fire(op, t)
        elif kind in ("recv", "next", "consume", "sel"):
            self.on_message(op, t)

    def stop_seen(self, op: Op) -> None:
        if not self.stopped:
            self.x.fail(f"{op.show()}: the timer is running")
        self.drift = None

    def on_message(self, op: Op, t: int) -> None:
        from frequenz.channels import ReceiverStoppedError  # pylint: disable=import-outside-toplevel

        x = self.x
        if op.ok:
            if not isinstance(op.result, timedelta):
                x.fail(f"{op.show()}: not a drift")
            drift = op.result // timedelta(microseconds=1)
            if self.drift is None:
                if self.strict:
                    self.fire(op, t)
                else:
                    # It fired when somebody waited for it, some time between its time and now.
                    if drift < 0 or (self.next or 0) + drift > t:
                        x.fail(f"{op.show()}: drift {drift} us, the tick was due at {self.next} us, it is {t} us")
                    self.fire(op, (self.next or 0) + drift)
            if drift != self.drift:
                x.fail(f"{op.show()}: drift {drift} us, expected {self.drift} us")
            self.drift = None
        elif isinstance(op.result, ReceiverStoppedError) or (op.kind == "next" and isinstance(op.result, StopAsyncIteration)):
            self.stop_seen(op)
            if op.kind != "next" and not self.w.is_receiver(self.name, op.kind, op.result.receiver):
                x.fail(f"{op.show()}: names {op.result.receiver!r}")
        elif op.kind == "sel" and isinstance(op.result, AssertionError) and self.discarded:
            x.findings.append(("F10", op.show()))
            self.discarded = False
        else:
            x.fail(f"unexpected error: {op.show()} ({op.notes.get('where')})")

    def check(self) -> None:
        if self.policy_calls != self.policy_expected:
            self.x.fail(f"policy called with {self.policy_calls}, expected {self.policy_expected}")

    async def epilogue(self, d: Driver) -> None:
        """Two more ticks, stop, restart, one more tick."""
        w, name = self.w, self.name
        if not self.stopped or self.next is None:
            for kind in ("recv", "next"):
                await w.perform(d, (kind, name))
        await w.perform(d, ("running", name))
        await w.perform(d, ("tstop", name))
        await w.perform(d, ("running", name))
        for kind in ("recv", "recv", "next", "ready"):
            await w.perform(d, (kind, name))
        await w.perform(d, ("reset", name, 0.0))
        await w.perform(d, ("running", name))
        await w.perform(d, ("recv", name))
