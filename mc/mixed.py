"""Timers, events, file watchers and channels as sources of one merged receiver.

Every source is mapped to pairs (name of the source, message).  Reference: what each source owes (messages and changes: exactly once and in
order; an event: at least one message after every set(), at most one per set(); a timer: one tick per interval, never early), checked
whenever the loop is idle while somebody waits, and at the end, after everything was stopped.
"""

from __future__ import annotations

from collections import Counter
from datetime import timedelta
from typing import Any, Sequence

from .chan import World
from .explore import Execution, Op, Scenario
from .files import FileOracle
from .text import parse, show

TAKES = ("recv", "next", "consume", "take")
WAITS = ("recv", "next", "ready")


class Mixed:
    """One merged receiver "m" of the sources in `kinds` (letters: a = anycast, b = broadcast, e = event, t = timer, f = file watcher)."""

    def __init__(self, x: Execution, kinds: str, shape: str, scripts: dict[str, Sequence[Any]], delay: float) -> None:
        from frequenz.channels import Anycast, Broadcast, merge  # pylint: disable=import-outside-toplevel
        from frequenz.channels.event import Event  # pylint: disable=import-outside-toplevel
        from frequenz.channels.timer import Timer, TriggerAllMissed  # pylint: disable=import-outside-toplevel

        self.x = x
        self.kinds = kinds
        self.w = w = World(x)
        x.time_choice = False
        self.files: FileOracle | None = None
        parts: list[Any] = []
        for k in kinds:
            if k in "ab":
                w.channels[k] = Anycast(name=x.channel_name(k), limit=2) if k == "a" else Broadcast(name=x.channel_name(k))
                w.add_receiver(k, k)
            elif k == "e":
                w.receivers[k] = w.all_receivers[k] = Event(**x.named(k))
            elif k == "t":
                w.receivers[k] = w.all_receivers[k] = Timer(timedelta(seconds=1), TriggerAllMissed(), start_delay=timedelta(seconds=delay))
                self.start = x.loop.time() + delay
            elif k == "f":
                self.files = FileOracle(x, w, "f", paths=["/w/a", "/w/b"])
            parts.append(w.receivers[k].map(lambda message, k=k: (k, message)))
        if shape == "flat":
            made = merge(*parts)
        elif shape == "nested":
            made = merge(merge(*parts[:2]), *parts[2:])
        else:
            made = merge(*parts).map(lambda pair: pair).map(lambda pair: pair)
        w.receivers["m"] = w.all_receivers["m"] = made
        w.program(scripts)
        x.quiescent_hooks.append(self.idle)
        x.final_hooks.append(self.final)

    # -- what happened ----------------------------------------------------------------

    def got(self, k: str) -> list[tuple[Any, Op]]:
        ops = sorted((o for o in self.x.ops if o.obj == "m" and o.kind in TAKES and o.ok), key=lambda o: o.end or 0)
        return [(o.result[1], o) for o in ops if o.result[0] == k]

    def done(self, kind: str, obj: str) -> list[Op]:
        return [o for o in self.x.ops if o.kind == kind and o.obj == obj and o.ok]

    def stopped(self, k: str) -> bool:
        if k == "f":
            return self.files is not None and self.files.ended is not None
        return bool(self.done({"e": "estop", "t": "tstop"}.get(k, "close"), k))

    def due(self, now: float) -> tuple[int, int]:
        """How many ticks were due, and how many of them must have been seen by those who wait all the time."""
        begin, total = self.start, 0
        for op in sorted((o for o in self.x.ops if o.kind in ("reset", "tstop") and o.obj == "t"), key=lambda o: o.begin):
            total += max(0, int(op.t_begin - begin + 1e-9))
            if op.kind == "tstop":
                return total, 0
            begin = op.t_begin + op.arg
        last = max(0, int(now - begin + 1e-9))
        return total + last, last

    def missing(self) -> str | None:
        """What somebody who waits should have got."""
        x = self.x
        for k in self.kinds:
            got = self.got(k)
            if k in "ab" and len(got) < len(self.done("send", k)):
                return f"messages of {k}: sent {[o.arg for o in self.done('send', k)]}, received {[self.w.uid(m) for m, _ in got]}"
            if k == "f" and self.files is not None and len(got) < sum(map(len, self.files.batches())):
                return f"changes: reported {self.files.batches()}, received {len(got)}"
            if k == "e":
                # What is set after a stop is not owed.
                ends = min((o.begin for o in self.x.ops if o.kind == "estop"), default=None)
                sets = [s for s in self.done("set", k) if ends is None or s.begin < ends]
                if any(not any((o.end or 0) > s.begin for _, o in got) for s in sets):
                    return "the event is set"
            if k == "t":
                total, last = self.due(x.loop.time())
                if sum(1 for _, o in got if o.t_end is not None and o.t_end >= x.loop.time() - 1e-9) < min(1, last) and len(got) < last:
                    return f"ticks: {total} were due, {len(got)} received"
        return None

    # -- checks -----------------------------------------------------------------------

    def idle(self) -> None:
        waiting = [o for o in self.x.ops if o.pending and o.obj == "m" and o.kind in WAITS]
        if not waiting:
            return
        what = self.missing()
        if what is not None:
            self.x.fail(f"{waiting[0].show()} waits; {what}")
        if all(self.stopped(k) for k in self.kinds):
            self.x.fail(f"{waiting[0].show()} waits although all sources are stopped")

    def final(self) -> None:
        x, w = self.x, self.w

        async def body(d: Any) -> None:
            while self.missing():
                if not (await d.op("recv", "m", w.receivers["m"].receive())).ok:
                    break
            for k in self.kinds:
                if k == "f":
                    await w.perform(d, ("wend",))
                elif not self.stopped(k):
                    await w.perform(d, ({"e": "estop", "t": "tstop"}.get(k, "close"), k))
            for _ in range(60):
                if not (await d.op("recv", "m", w.receivers["m"].receive())).ok:
                    break
            else:
                x.fail("never stops")
            await d.op("ready", "m", w.receivers["m"].ready())
            await d.op("next", "m", anext(w.receivers["m"]))
            await d.op("recv", "m", w.receivers["m"].receive())

        drv = x.drain(body)
        if not drv.done:
            x.fail(f"{drv.current.show() if drv.current else 'the epilogue'} waits forever")
        self.check()

    def check(self) -> None:
        x = self.x
        if (what := self.missing()) is not None and not what.startswith("ticks"):
            x.fail(f"never received; {what}")
        for k in self.kinds:
            got = self.got(k)
            if k in "ab":
                sent = [o.arg for o in sorted(self.done("send", k), key=lambda o: o.begin)]
                if [self.w.uid(m) for m, _ in got] != sent:
                    x.fail(f"sent {sent} to {k}, received {[self.w.uid(m) for m, _ in got]}")
            elif k == "f":
                assert self.files is not None
                left = [Counter(b) for b in self.files.batches()]
                for event, op in got:
                    change = self.files.show(event)
                    left = [b for b in left if b.total()]
                    if not left or not left[0][change]:
                        x.fail(f"{op.show()}: the changes left are {[list(b) for b in left]}")
                    left[0][change] -= 1
            elif k == "e":
                sets = self.done("set", k)
                for n, (message, op) in enumerate(got, 1):
                    if message is not None or sum(1 for s in sets if s.begin < (op.end or 0)) < n:
                        x.fail(f"{op.show()}: message {n} of {len(sets)} sets")
            elif k == "t":
                for n, (drift, op) in enumerate(got, 1):
                    if not isinstance(drift, timedelta) or drift < timedelta(0):
                        x.fail(f"{op.show()}: not a drift")
                    if n > self.due(op.t_end or 0)[0]:
                        x.fail(f"{op.show()}: tick {n}, {self.due(op.t_end or 0)[0]} were due")
        last = [o for o in x.ops if o.obj == "m"][-3:]
        if [type(o.result).__name__ for o in last] != ["bool", "StopAsyncIteration", "ReceiverStoppedError"] or last[0].result is not False:
            x.fail(f"not stopped for good: {[o.show() for o in last]}")
        if last[2].result.receiver is not self.w.receivers["m"]:
            x.fail(f"{last[2].show()}: names {last[2].result.receiver!r}")
        for o in x.ops:
            if o.obj == "m" and not o.ok and o.outcome != "cancelled":
                if type(o.result).__name__ not in ("ReceiverStoppedError", "StopAsyncIteration") or not all(self.stopped(k) for k in self.kinds):
                    x.fail(f"{o.show()} ({o.notes.get('where')})")
            closed = any(c.begin < (o.end or 0) for c in x.ops if c.kind == "close" and c.obj == o.obj)
            if o.kind == "send" and not o.ok and o.outcome != "cancelled" and not closed:
                x.fail(f"{o.show()} ({o.notes.get('where')})")


def scenario(name: str, kinds: str, shape: str, scripts: dict[str, Sequence[Any]], bound: int, delay: float = 0.0) -> Scenario:
    def build(x: Execution) -> None:
        Mixed(x, kinds, shape, scripts, delay)

    return Scenario(name, build, bound)


PROGRAMS = [
    # (sources, program)
    ("ae", {"s1": "a:x1 a:x2", "k": "set(e) set(e)", "p": "m m m"}),
    ("be", {"s1": "b:x1", "k": "set(e) estop(e)", "p": "m ~m m"}),
    ("at", {"s1": "a:x1 zz1.5 a:x2", "p": "m m m m"}),
    ("bt", {"s1": "b:x1", "k": "zz1.2 tstop(t)", "p": "m m m"}),
    ("et", {"k": "set(e) zz1 set(e)", "p": "m >m m"}),
    ("et", {"k": "zz0.5 reset(t,0) set(e)", "c": "!p", "p": "m m"}),
    ("fa", {"o": "os(+a,~a) os(-b)", "s1": "a:x1", "p": "m m =m m"}),
    ("fe", {"o": "os(+a) os(end)", "k": "set(e)", "p": "m m m"}),
    ("ft", {"o": "os(+a,-b)", "p": "m m m m"}),
    ("aft", {"o": "os(+a)", "s1": "a:x1", "p": "m m m"}),
    ("bef", {"o": "os(+a,~b)", "s1": "b:x1", "k": "set(e)", "p": "m m", "q": "m"}),
    ("abe", {"s1": "a:x1 b:x2", "k": "set(e) estop(e)", "p": "m m m", "c": "!p"}),
    ("e", {"k": "set(e) set(e)", "p": "m m"}),
    ("t", {"p": "m m m", "k": "zz2 tstop(t)"}),
]
FREE = [
    ("ae", {"s1": "{a:x1|#a} {a:x2|}", "k": "{set(e)|estop(e)} set(e)", "p": "{m|~m|>m} m"}, 0),
    ("et", {"k": "{set(e)|zz1.5|estop(e)} {tstop(t)|reset(t,0.5)|set(e)}", "p": "{m|:m} {m|~m} m", "c": "{!p|}"}, 0),
    ("fe", {"o": "os(+a) {os(~a)|os(end)}", "k": "{set(e)|estop(e)}", "p": "{m|:m} {m|~m} m", "c": "{!p|}"}, 0),
]


def scenarios(tier: str, shapes: Sequence[str]) -> list[Scenario]:
    deep = tier == "thorough"
    return [
        scenario(f"mixed {shape} {kinds} {show(text)} delay={delay}", kinds, shape, parse(text), (1 if quick is None else quick) + deep, delay)
        for kinds, text, quick in [(*p, None) for p in PROGRAMS] + FREE
        for shape in shapes
        for delay in ((0.0, 0.5) if "t" in kinds and quick is None else (0.0,))
        if shape != "nested" or len(kinds) > 2
    ]
