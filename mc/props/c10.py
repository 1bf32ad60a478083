"""For every kind of receiver: all sequences, up to a depth, of receive(), iteration steps, ready() and ready() followed by consume()
in every state reached, by one task, alone or with another task waiting in ready(), while messages arrive and the receiver stops at
every point within the deviation bound.  Oracle: mc/protocol.py plus the reference model of the kind (mc/flow.py, mc/event.py,
mc/timers.py, mc/files.py): all ways of receiving hand out the same sequence."""

from ..explore import Scenario
from ..flow import MapError
from ..protocol import Protocol
from ..selecting import Selecting, perform_script, special
from ..text import parse, show
from ..timers import Spec
from .c14 import channels_of

KINDS = {
    "anycast": ("A", [{"s1": "a b", "c": "#"}, {"s1": "none #"}, {"s1": "a b c"}]),
    "broadcast": ("A", [{"s1": "a b", "c": "#"}, {"s1": "none #"}, {"s1": "a b c"}]),
    "map": (("map", "f", "A"), [{"s1": "A:a A:x A:b #A"}, {"s1": "a", "c": "#"}]),
    "map map": (("map", "g", ("map", "f", "A")), [{"s1": "A:a A:b #A"}]),
    "merge": (("merge", "A", "B"), [{"s1": "A:a B:b #A #B"}, {"s1": "A:a", "k": "stop(r)"}, {"s1": "A:a A:b", "s2": "B:c"}]),
    "merge map": (("merge", ("map", "f", "A"), "B"), [{"s1": "A:x B:b #B #A"}]),
    "map merge": (("map", "f", ("merge", "A", "B")), [{"s1": "A:a B:b #B #A"}]),
    "event": (("event",), [{"k": "set(r) set(r) estop(r)"}, {"k": "set(r)", "c": "estop(r)"}]),
    "timer": (("timer", Spec(interval=1.0)), [{"k": "zz1.5 tstop(r)"}, {"k": "zz1 tstop(r)"}, {"k": "zz0.5 busy(2) zz1.1 tstop(r)"}]),
    "timer later": (("timer", Spec(interval=1.0, auto_start=False, policy="drift")), [{"k": "zz2.5 tstop(r)"}]),
    "file": (("file", {"paths": ["/w/a"]}), [{"o": "os(+a,~a) os(-a) os(end)"}, {"o": "os(+a)", "c": "os(end)"}]),
    "mapped event": (("event", "mapped"), [{"k": "set(r) set(r) estop(r)"}, {"k": "set(r) estop(r) set(r)"}]),
    "mapped timer": (("timer", Spec(interval=1.0), "mapped"), [{"k": "zz1.5 tstop(r)"}]),
    "mapped file": (("file", {"paths": ["/w/a"]}, "mapped"), [{"o": "os(+a,~a) os(-a) os(end)"}]),
}
OTHERS = [{}, {"q": "ready"}, {"q": "recv"}]


def explored(kind, expr, channels, text, others, depth, bound):
    scripts = parse(text)

    def build(x):
        if special(expr) and expr[0] == "timer":
            x.time_choice = False
        sel = Selecting(x, channels, {"r": expr}, {"wait", "stop", "map"})
        if special(expr) and expr[0] == "timer":
            sel.events["r"].strict = True
        protocol = Protocol(x, "r", sel.w.receivers["r"], MapError if "map" in kind else ())

        async def body(d):
            ready = False
            for _ in range(depth):
                await d.point()
                options = ["recv", "ready", "next"] + (["consume"] if ready else ["rc"])
                if others:
                    options.remove("consume" if ready else "rc")
                what = x.pick(options, label="op")
                res = await sel.w.perform(d, (what, "r"))
                ready = what == "ready" and res is not None and res.ok

        sel.w.drivers["p"] = x.driver("p", body)
        for who, script in scripts.items():
            perform_script(x, sel, who, script)
        for who, what in others.items():
            perform_script(x, sel, who, [(what, "r")] * 2)
        x.loop.settle()
        x.final_hooks.append(protocol.check)

    return Scenario(f"{kind} {show(text)} {others} depth={depth} bound={bound}", build, bound)


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for kind, (expr, envs) in KINDS.items():
        for text in envs:
            for others in OTHERS:
                channels = channels_of({"r": expr}, *(("anycast", 2) if kind != "broadcast" else ("broadcast", 50)))
                if others:
                    out.append(explored(kind, expr, channels, text, others, 3 if deep and "merge" not in kind else 2, 0))
                    if deep:
                        out.append(explored(kind, expr, channels, text, others, 2, 1))
                    continue
                depth = (2 if "merge" in kind else 3) + deep
                out.append(explored(kind, expr, channels, text, others, depth, 1))
                out.append(explored(kind, expr, channels, text, others, depth + 1, 0))
    return out
