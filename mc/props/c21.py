"""All sequences, up to a depth, of reset (with several delays), stop, busy, sleep, state queries and receives by one task while
another task receives (or waits in ready(), is cancelled, or two tasks wait), for timers started automatically or not; plus the
rejected arguments.  Oracle: reference model in integer microseconds (mc/timers.py)."""

from ..chan import World
from ..explore import Scenario
from ..timers import Spec, TimerOracle

SPECS = [
    Spec(policy="all"),
    Spec(policy="drift", start_delay=0.5),
    Spec(policy="resync", auto_start=False),
]
CONTROL = [
    ("sleep", 0.4),
    ("reset", "t", 0.0),
    ("tstop", "t"),
    ("reset", "t", 0.3),
    ("busy", 1.5),
    ("sleep", 1.3),
    ("reset", "t", 2.5),
]
ALONE = CONTROL + [("recv", "t"), ("ready", "t"), ("running", "t")]
READERS = {
    "r": {"p": ["recv"] * 3},
    "rr": {"p": ["recv"] * 2, "q": ["next"] * 2},
    "y": {"p": ["ready", "recv", "ready"]},
    "n": {"p": ["next", "ready", "ready", "recv"]},
}


def controlled(spec, readers, depth, control, *, cancel=False, bound=0, mapped=False):
    def build(x):
        w = World(x)
        oracle = TimerOracle(x, w, "t", spec)
        if mapped:
            w.map("t")
        for who, kinds in READERS[readers].items() if readers else ():

            async def reader(d, kinds=kinds):
                for kind in kinds:
                    await w.perform(d, (kind, "t"))

            w.drivers[who] = x.driver(who, reader)

        async def body(d):
            for _ in range(depth):
                options = list(control)
                if cancel:
                    options.append(("cancel", "p"))
                if readers is None:
                    last = [o for o in x.ops if o.kind in ("ready", "recv", "next", "consume", "reset", "tstop")][-1:]
                    if last and last[0].kind == "ready":
                        options.append(("consume", "t"))
                await w.perform(d, x.pick(options, label="op"))

        x.driver("k", body)

        def final():
            drv = x.drain(oracle.epilogue, time_passes=True)
            if not drv.done:
                x.fail(f"{drv.current.show() if drv.current else 'the epilogue'} waits forever")
            oracle.check()

        x.final_hooks.append(final)

    return Scenario(f"{spec.text()} readers={readers} depth={depth} cancel={cancel} bound={bound}{' mapped' if mapped else ''}", build, bound)


def arguments():
    """The arguments that are documented to be rejected, and their limits."""

    def build(x):
        from datetime import timedelta

        from frequenz.channels.timer import SkipMissedAndDrift, Timer, TriggerAllMissed

        def rejected(what, func):
            try:
                func()
            except ValueError:
                return
            x.fail(f"{what} is accepted")

        def make(interval, **kwargs):
            return Timer(timedelta(microseconds=interval), TriggerAllMissed(), **kwargs)

        async def body(_d):
            for bad in (0, -1, -1_000_000, -86_400_000_000):
                rejected(f"interval {bad} us", lambda: make(bad))
            for bad in (-1, -1_000_000):
                delay = timedelta(microseconds=bad)
                rejected(f"start_delay {bad} us", lambda: make(1, start_delay=delay))
                rejected(f"start_delay {bad} us, auto_start=False", lambda: make(1, start_delay=delay, auto_start=False))
                rejected(f"reset {bad} us", lambda: make(1).reset(start_delay=delay))
                rejected(f"tolerance {bad} us", lambda: SkipMissedAndDrift(delay_tolerance=delay))
            for one in (1, 1_000_000):
                rejected(
                    "start_delay with auto_start=False",
                    lambda: make(1_000_000, start_delay=timedelta(microseconds=one), auto_start=False),
                )
            t = make(1_000_000)
            t.stop()
            try:
                t.reset(start_delay=timedelta(microseconds=-1))
            except ValueError:
                pass
            if t.is_running:
                x.fail("a rejected reset() starts the timer")
            if make(1).interval != timedelta(microseconds=1) or make(1, start_delay=timedelta(0), auto_start=False).is_running:
                x.fail("limits")

        x.driver("p", body)

    return Scenario("rejected arguments", build, 0)


def scenarios(tier):
    deep = tier == "thorough"
    out = [arguments()]
    for spec in SPECS:
        out.append(controlled(spec, None, 5 if deep else 4, ALONE))
        for readers in READERS:
            out.append(controlled(spec, readers, 5 if deep else 3, CONTROL))
            out.append(controlled(spec, readers, 3 if deep else 2, CONTROL, bound=1))
        out.append(controlled(spec, "r", 4 if deep else 3, CONTROL, cancel=True))
    return out
