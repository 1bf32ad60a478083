"""All sequences, up to a depth, of: being busy for a time, sleeping, receiving, ready(), consume(); for every policy, interval and
tolerance; on a virtual clock with exact and coarse (early) timers.  Oracle: reference model in integer microseconds (mc/timers.py)."""

from ..chan import World
from ..explore import Scenario
from ..text import Lasso
from ..timers import Spec, TimerOracle

SPECS = [
    Spec(policy="all"),
    Spec(policy="resync"),
    Spec(policy="drift"),
    Spec(policy="drift", tolerance=0.1),
    Spec(policy="drift", tolerance=1.0),
    Spec(policy="custom"),
    Spec(policy="all", start_delay=0.5),
    Spec(policy="resync", start_delay=0.25),
    Spec(policy="drift", tolerance=0.5, auto_start=False),
]


def unit(spec):
    return spec.interval


def sequences(spec, depth, fractions, *, early=False, start=0.0, bound=0, slack=0):
    def build(x):
        x.loop.advance(start)
        x.early_fire = early
        w = World(x)
        oracle = TimerOracle(x, w, "t", spec)
        oracle.slack = slack

        async def body(d):
            for _ in range(depth):
                options = [("recv", "t")]
                options += [("busy", f * spec.interval) for f in fractions]
                options += [("ready", "t"), ("sleep", 0.6 * spec.interval)]
                last = [o for o in x.ops if o.kind in ("ready", "recv", "next", "consume")][-1:]
                if last and last[0].kind == "ready":
                    options.append(("consume", "t"))
                op = x.pick(options, label="op")
                if op[0] == "recv" and len(x.ops) % 2:
                    op = ("next", "t")
                await w.perform(d, op)

        x.driver("p", body)

        def final():
            drv = x.drain(oracle.epilogue, time_passes=True)
            if not drv.done:
                x.fail(f"{drv.current.show() if drv.current else 'the epilogue'} waits forever")
            oracle.check()

        x.final_hooks.append(final)

    return Scenario(
        f"{spec.text()} depth={depth} busy={fractions} early={early} start={start}", build, bound
    )


def long(spec, length, start):
    """Long histories: all patterns of operations, repeated again and again."""

    def build(x):
        x.loop.advance(start)
        w = World(x)
        oracle = TimerOracle(x, w, "t", spec)
        w.program({"u": Lasso(["t", "~t", "busy(0.3)", "busy(2.7)", "zz0.6", ">t"], length, 60 // length)})

        def final():
            x.drain(oracle.epilogue, time_passes=True)
            oracle.check()

        x.final_hooks.append(final)

    return Scenario(f"long {spec.text()} patterns of {length} start={start}", build, 0)


VALUES = [
    *range(1, 2100),
    *(1_000_000 + n * 977 for n in range(1200)),
    *(10**e + n for e in range(4, 14) for n in (-1, 1, 7)),
    *(m * 60_000_000 + 1 for m in range(1, 200, 7)),
]


class Clock:
    """A loop whose time is what we say."""

    def __init__(self, loop):
        self.now = 0
        self.loop = loop

    def time(self):
        return self.now / 1_000_000

    def __getattr__(self, name):
        return getattr(self.loop, name)


def exact(values):
    """Every value is taken as the number of microseconds it is: intervals, delays and tolerances, seen through a custom policy, the drifts and the properties."""

    def build(x):
        from datetime import timedelta

        from frequenz.channels.timer import MissedTickPolicy, SkipMissedAndDrift, SkipMissedAndResync, Timer, TriggerAllMissed

        calls = []

        class Custom(MissedTickPolicy):
            def calculate_next_tick_time(self, *, interval, scheduled_tick_time, now):
                calls.append((interval, scheduled_tick_time, now))
                return scheduled_tick_time + interval

        def expect(what, value, expected):
            if value != expected:
                x.fail(f"{what}: {value!r} instead of {expected!r}")

        async def body(d):
            clock = Clock(x.loop)
            for us in values:
                span = timedelta(microseconds=us)
                clock.now = 17
                calls.clear()
                timer = Timer(span, Custom(), start_delay=span, loop=clock)
                expect("interval", timer.interval, span)
                due = 17 + 2 * us
                clock.now = due + 1
                op = await d.op("recv", "t", timer.receive())
                expect(f"drift of a tick 1 us late, {us} us", op.result, timedelta(microseconds=1))
                expect("arguments of the policy", calls, [(us, due, due + 1)])
                clock.now = 23
                timer.reset(start_delay=span)
                clock.now = 23 + 2 * us
                op = await d.op("recv", "t", timer.receive())
                expect(f"drift of a tick in time, {us} us", op.result, timedelta(0))
                policy = SkipMissedAndDrift(delay_tolerance=span)
                expect("delay_tolerance", policy.delay_tolerance, span)
                for policy, late, following in (
                    (policy, us, 100 + us + 7),
                    (policy, us + 1, 100 + us + 1 + 7),
                    (TriggerAllMissed(), us, 100 + 7),
                    (SkipMissedAndResync(), us, 100 + (us // 7 + 1) * 7),
                ):
                    # The interval is 7 us here, the tick scheduled at 100.
                    clock.now = 93
                    timer = Timer(timedelta(microseconds=7), policy, loop=clock)
                    clock.now = 100 + late
                    op = await d.op("recv", "t", timer.receive())
                    expect(f"drift of a tick {late} us late", op.result, timedelta(microseconds=late))
                    # The next tick is that much late, or early, whatever comes.
                    following = following if not (policy.__class__ is SkipMissedAndDrift and late <= us) else 107
                    clock.now = max(following, clock.now)
                    op = await d.op("recv", "t", timer.receive())
                    expect(f"{policy}: drift of the tick after one {late} us late", op.result, timedelta(microseconds=clock.now - following))
                timer.stop()

        drv = x.driver("p", body)

        def final():
            if not drv.done:
                x.fail(f"{drv.current.show() if drv.current else 'the program'} waits for a tick that is due")

        x.final_hooks.append(final)

    return Scenario(f"exact {len(values)} values from {values[0]}", build, 0)


def scenarios(tier):
    deep = tier == "thorough"
    out = [exact(VALUES[n : n + 500]) for n in range(0, len(VALUES), 500)]
    for spec in SPECS:
        for length in range(1, 3 + deep):
            out.append(long(spec, length, 0.0))
            out.append(long(spec, length, 77777.123456))
    fractions = (0.1, 0.7, 1.0, 2.3)
    for spec in SPECS:
        out.append(sequences(spec, 6 if deep else 4, fractions))
    for spec in SPECS[:6]:
        out.append(sequences(spec, 4 if deep else 3, (0.05, 0.5, 3.0, 5.25), start=12345.6789012))
        out.append(sequences(spec, 4 if deep else 3, (0.1, 1.2), early=True, bound=2))
    # Tiny and long intervals (1 us is the resolution), and one with a fraction of a microsecond in binary.
    for interval in (0.000001, 0.000003, 0.1, 3600.0):
        for policy in ("all", "resync", "drift"):
            spec = Spec(interval=interval, policy=policy, tolerance=0.0 if interval < 1 else 0.5)
            out.append(sequences(spec, 4 if deep else 3, (1.0, 2.0, 7.0)))
    # Intervals that are no binary fractions, long ones, clocks that run for long, and ticks that are missed by far.
    for interval, start in ODD:
        for policy in ("all", "resync", "drift"):
            spec = Spec(interval=interval, policy=policy, tolerance=interval / 3)
            far = (1.0, 1.999999, 4.0)
            if policy != "all" and interval < 1:
                far += (1_000_003.5,)
            out.append(sequences(spec, 4 if deep else 3, far, start=start, slack=1))
    for policy in ("again", "past"):
        out.append(sequences(Spec(policy=policy), 5 if deep else 4, (0.1, 1.0, 2.3)))
        out.append(sequences(Spec(policy=policy, interval=0.7), 4 if deep else 3, (0.5, 3.1), start=0.3))
    for policy in ("all", "resync", "drift"):
        for tolerance in (0.0, 0.4):
            if policy == "drift" or not tolerance:
                out.append(shared(policy, tolerance, 5 if deep else 4))
    return out


ODD = [
    (0.333333, 0.0),
    (0.7, 12345.6789),
    (0.000007, 3_000_000.000001),
    (86400.000001, 1.5),
    (31_536_000.0, 31_000_000.123456),
]


def shared(policy, tolerance, depth):
    """Two timers with one policy object, and an explicit event loop."""

    def build(x):
        w = World(x)
        t1 = TimerOracle(x, w, "t1", Spec(policy=policy, tolerance=tolerance), loop=x.loop)
        t2 = TimerOracle(x, w, "t2", Spec(interval=0.7, policy=policy, tolerance=tolerance), policy=t1.policy)

        async def body(d):
            for _ in range(depth):
                await w.perform(d, x.pick([("recv", "t1"), ("recv", "t2"), ("busy", 0.9), ("busy", 2.3), ("reset", "t1", 0.2)], label="op"))

        x.driver("p", body)

        def final():
            for oracle in (t1, t2):
                drv = x.drain(oracle.epilogue, time_passes=True)
                if not drv.done:
                    x.fail(f"{drv.current.show() if drv.current else 'the epilogue'} waits forever")
                oracle.check()

        x.final_hooks.append(final)

    return Scenario(f"two timers share {policy} tolerance={tolerance} depth={depth}", build, 0)
