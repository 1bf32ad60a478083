"""Programs in which all but one of 2-4 sources of a select() loop or of a merger always have messages (many sent in advance, or one
sent for each one handed out, or a timer far behind), while the remaining source gets messages before, during or between two
selections; all interleavings within the deviation bound, several orders of task sets.  Oracle: between the moment a source has
a message (and its previous one was handed out) and the moment this one is handed out, at most three messages of each other source
are handed out."""

from ..flow import Flow, perform
from ..explore import Scenario
from ..selecting import Selecting, perform_script, special
from ..timers import Spec
from .c14 import channels_of

A, B, C, D = "A", "B", "C", "D"
BEHIND = ("timer", Spec(interval=0.01))
ROUNDS = 3
MANY = 14
SHAPES = {
    "2": {"r1": A, "r2": B},
    "3": {"r1": A, "r2": B, "r3": C},
    "4": {"r1": A, "r2": B, "r3": C, "r4": D},
    "map": {"r1": ("map", "f", A), "r2": B},
    "merge": {"m": ("merge", A, C), "r2": B},
    "timer": {"t": BEHIND, "r2": B},
    "event": {"r1": A, "e": ("event",)},
}


def names(ch, start, n):
    return [f"{ch.lower()}{i}" for i in range(start, start + n)]


def check_fair(x, label, sources, waiting, taken):
    """waiting: clocks at which a source got a message; taken: (clock, source) of what was handed out, in order."""
    for src in sources:
        have = sorted(waiting.get(src, ()))
        mine = [t for t, s in taken if s == src]
        last = 0
        for i, since in enumerate(have):
            start = max(since, last)
            end = mine[i] if i < len(mine) else 10**9
            between = [s for t, s in taken if start < t < end and s != src]
            limit = ROUNDS * (len(sources) - 1)
            if len(between) > limit:
                x.fail(f"{label}: {src} has a message since {since}, at most {limit} others may be handed out first: {between}")
            if i >= len(mine):
                break
            last = mine[i]


def selecting(shape, quiet, kind, limit, *, order, mode, bound):
    """The root `quiet` gets two messages, the others are always busy."""
    roots = SHAPES[shape]

    def build(x):
        x.task_order(order)
        if shape == "timer":
            x.time_choice = False
        channels = channels_of(roots, kind, limit)
        sel = Selecting(x, channels, roots, set())
        leaf = {name: [ch for ch, _ in sel.flow.leaves[name]] for name in sel.flow.roots}
        busy = [ch for name, chs in leaf.items() if name != quiet for ch in chs]
        sends = {ch: 0 for ch in channels}
        counter = {"yields": 0}

        def op(ch):
            sends[ch] += 1
            return ("send", ch, f"{ch.lower()}{sends[ch]}")

        quiet_ops = [("set", "e")] if quiet == "e" else [op(leaf[quiet][0])]
        quiet_ops += [("set", "e")] if quiet == "e" else [op(leaf[quiet][0])]

        async def user(d):
            await d.point()
            for ch in busy:
                for _ in range(MANY if mode == "advance" else 2):
                    await sel.perform(d, op(ch))
            if shape == "timer":
                await sel.perform(d, ("busy", 1.0))

            def more():
                counter["yields"] += 1
                if mode == "advance" or counter["yields"] > 2 * MANY:
                    return ()
                return [op(ch) for ch in busy]

            during = {i: LazyOps(more) for i in range(100)}
            await sel.perform(d, ("select", ",".join(roots), {"take": 2 * MANY, "during": during, "pause": False}))

        sel.w.drivers["p"] = x.driver("p", user)
        perform_script(x, sel, "s", quiet_ops)
        x.loop.settle()

        def fair():
            taken = [(o.end, o.obj) for o in sel.loops[0].yields if o.outcome == "ok"]
            waiting = {}
            for name, chs in leaf.items():
                waiting[name] = [o.end for o in x.ops if o.kind == "send" and o.obj in chs and o.ok]
            if "e" in roots:
                waiting["e"] = coalesced(x, taken)
            loop_ended = sel.loops[0].left
            begun = min((o.begin for o in x.ops if o.kind == "selnext"), default=0)
            waiting = {n: [max(t, begun) for t in ts if t < loop_ended] for n, ts in waiting.items()}
            check_fair(x, "select()", list(roots), waiting, taken)

        x.final_hooks.insert(1, fair)

    return Scenario(f"select {shape} {kind} {order} {mode} quiet={quiet} bound={bound}", build, bound)


def coalesced(x, taken):
    """The moments at which the event became set."""
    out = []
    state = False
    events = [(o.end, "set") for o in x.ops if o.kind == "set" and o.ok] + [(t, "take") for t, s in taken if s == "e"]
    for t, what in sorted(events):
        if what == "set" and not state:
            out.append(t)
        state = what == "set"
    return out


class LazyOps:
    """Operations decided when they are performed."""

    def __init__(self, func):
        self.func = func

    def __iter__(self):
        return iter(self.func())


def merging(n, quiet, kind, limit, *, order, mode, bound):
    chans = [A, B, C, D][:n]
    quiet = chans[quiet]

    def build(x):
        x.task_order(order)
        flow = Flow(x, {ch: (kind, limit) for ch in chans}, {"m": ("merge", *chans)}, set())
        sends = {ch: 0 for ch in chans}

        def op(ch):
            sends[ch] += 1
            return ("send", ch, f"{ch.lower()}{sends[ch]}")

        async def user(d):
            await d.point()
            for ch in chans:
                if ch != quiet:
                    for _ in range(MANY if mode == "advance" else 2):
                        await perform(flow, d, op(ch))
            for _ in range(2 * MANY):
                if not flow.missing("m"):
                    break
                res = await d.op("recv", "m", flow.w.receivers["m"].receive())
                if not res.ok:
                    break
                if mode != "advance":
                    for ch in chans:
                        if ch != quiet:
                            await perform(flow, d, op(ch))

        async def quiet_user(d):
            for _ in range(2):
                await d.point()
                await perform(flow, d, op(quiet))

        flow.w.drivers["p"] = x.driver("p", user)
        x.driver("s", quiet_user)
        x.loop.settle()

        def fair():
            taken = []
            for uid, _, o in flow.outputs("m"):
                if o.who == "p":
                    taken.append((o.end, uid[0].upper()))
            last = taken[-1][0] if taken else 0
            waiting = {
                ch: [max(o.end, 0) for o in x.ops if o.kind == "send" and o.obj == ch and o.ok and o.end <= last] for ch in chans
            }
            check_fair(x, "merge()", chans, waiting, taken)

        x.final_hooks.insert(0, fair)

    return Scenario(f"merge {n} {kind} {order} {mode} quiet={quiet} bound={bound}", build, bound)


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    orders = ("asc", "desc", "mix") if deep else ("asc", "desc")
    for kind, limit in (("broadcast", 50), ("anycast", 30)):
        for order in orders:
            for mode in ("advance", "one by one"):
                for shape, roots in SHAPES.items():
                    for quiet in roots:
                        if special(roots[quiet]) and quiet != "e":
                            continue
                        if shape in ("timer", "event") and kind == "broadcast" and not deep:
                            continue
                        out.append(selecting(shape, quiet, kind, limit, order=order, mode=mode, bound=2 if deep else 1))
                for n in (2, 3, 4) if deep else (2, 3):
                    for quiet in range(n):
                        out.append(merging(n, quiet, kind, limit, order=order, mode=mode, bound=2 if deep else 1))
    return out
