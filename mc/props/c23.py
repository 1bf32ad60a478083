"""For every kind of receiver: all sequences, up to a depth, of receive(), iteration steps and ready(), with and without a timeout, by
a task that is cancelled once or twice at every point within the deviation bound (before, while and after it is woken up), alone or
with another task receiving, while messages arrive and the receiver stops.  Oracle: mc/protocol.py plus the reference model of the
kind: nothing lost, duplicated or reordered, not stopped."""

from ..explore import Scenario
from ..flow import MapError
from ..protocol import Protocol
from ..selecting import Selecting, perform_script, special
from ..text import parse, show
from ..timers import Spec
from .c14 import channels_of

KINDS = {
    "anycast": ("A", [{"s1": "a b"}, {"s1": "a", "c": "#"}]),
    "broadcast": ("A", [{"s1": "a b"}, {"s1": "a", "c": "#"}]),
    "map": (("map", "f", "A"), [{"s1": "A:x A:b"}, {"s1": "a #"}]),
    "merge": (("merge", "A", "B"), [{"s1": "A:a B:b"}, {"s1": "A:a #A #B"}]),
    "merge map": (("merge", ("map", "f", "A"), "B"), [{"s1": "A:x B:b"}]),
    "map merge": (("map", "f", ("merge", "A", "B")), [{"s1": "A:a B:b"}]),
    "merge merge": (("merge", ("merge", "A", "B"), "C"), [{"s1": "A:a C:c"}]),
    "event": (("event",), [{"o": "set(r) set(r)"}, {"o": "set(r) estop(r)"}]),
    "timer": (("timer", Spec(interval=1.0)), [{"o": "zz2.5 tstop(r)"}, {"o": "zz1 busy(1.5) zz1 tstop(r)"}, {"o": "zz0.2 busy(1.5) zz2 tstop(r)"}, {"o": "zz0.2 busy(1.5) &{!p|!q} zz1 tstop(r)"}]),
    "file": (("file", {"paths": ["/w/a"]}), [{"o": "os(+a,~a) os(-a)"}, {"o": "os(+a) os(end)"}]),
}


def explored(kind, expr, channels, text, other, depth, bound, cancels):
    scripts = parse(text)

    def build(x):
        if special(expr) and expr[0] == "timer":
            x.time_choice = False
        sel = Selecting(x, channels, {"r": expr}, {"wait", "stop", "map"})
        if special(expr) and expr[0] == "timer":
            sel.events["r"].strict = True
        protocol = Protocol(x, "r", sel.w.receivers["r"], MapError if "map" in kind else ())

        async def body(d):
            for _ in range(depth):
                await d.point()
                options = [("recv", "r"), ("ready", "r"), ("next", "r"), ("trecv", "r", 0.5), ("trecv", "r", 0)]
                await sel.w.perform(d, x.pick(options, label="op"))

        sel.w.drivers["p"] = x.driver("p", body)
        for who, script in scripts.items():
            perform_script(x, sel, who, script)
        if other:
            perform_script(x, sel, "q", [(other, "r")])
        perform_script(x, sel, "k", [("cancel", "p")] * cancels)
        x.loop.settle()
        x.final_hooks.append(protocol.check)
        x.insist = True

    return Scenario(f"{kind} {show(text)} other={other} depth={depth} bound={bound} cancels={cancels}", build, bound)


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for kind, (expr, envs) in KINDS.items():
        channels = channels_of({"r": expr}, *(("anycast", 2) if kind != "broadcast" else ("broadcast", 50)))
        merge = "merge" in kind
        for text in envs:
            out.append(explored(kind, expr, channels, text, None, 2, 1, 1))
            out.append(explored(kind, expr, channels, text, "recv", 1, 1, 1))
            if not merge or deep:
                out.append(explored(kind, expr, channels, text, "ready", 1, 2, 1))
            if deep:
                out.append(explored(kind, expr, channels, text, None, 2, 2, 1))
                out.append(explored(kind, expr, channels, text, None, 3, 0, 2))
                out.append(explored(kind, expr, channels, text, "recv", 2, 1, 1))
    return out
