"""All sequences, up to a depth, of operations of a sender and of a task with one receiver of every kind - receive(), iteration steps,
ready(), ready() followed by consume(), consume() once ready() told something - while the channel is closed or the receiver stopped at every point, before, during
and after them; select() loops over receivers that stop; concurrent closes and cancellations of blocked sends.  Oracle: the errors and
their attributes and causes (below), plus mc/protocol.py and the reference model of the kind."""

import asyncio

from ..explore import Scenario
from ..flow import MapError, leaves
from ..protocol import Protocol
from ..selecting import FakeError, Selecting, perform_script, special
from ..text import parse, show
from ..timers import Spec
from .c14 import channels_of

A, B, C = "A", "B", "C"
SIMPLE = (("anycast", 1), ("anycast", 2), ("broadcast", 2))
ANY = (("anycast", 2),)
KINDS = [
    (A, SIMPLE, [{"s1": "a b", "c": "#"}, {"c": "# #"}, {"s1": "a", "s2": "b", "c": "#"}]),
    (("map", "f", A), SIMPLE[1:], [{"s1": "A:a A:x", "c": "#"}, {"c": "#"}]),
    (("map", "g", ("map", "f", A)), ANY, [{"s1": "A:a", "c": "#"}]),
    (("merge", A, B), SIMPLE[1:], [{"s1": "A:a", "c": "#A #B"}, {"s1": "A:a B:b", "c": "stop(r) #A"}]),
    (("merge", A), ANY, [{"s1": "A:a", "c": "#A"}]),
    (("map", "f", ("merge", A, B)), ANY, [{"s1": "A:a", "c": "#A #B"}]),
    (("merge", ("map", "f", A), B), ANY, [{"s1": "A:x", "c": "#A #B"}]),
    (("event",), ANY, [{"k": "set(r)", "c": "estop(r)"}]),
    (("timer", Spec(interval=1.0)), ANY, [{"k": "zz1", "c": "tstop(r)"}]),
    (("timer", Spec(interval=1.0, auto_start=False)), ANY, [{"k": "zz1", "c": "tstop(r)"}]),
    (("file", {"paths": ["/w/a"]}), ANY, [{"o": "os(+a)", "c": "os(end)"}]),
]
E = ("event",)
SELECTS = [
    ({"r1": A, "r2": B}, {"s1": "A:a A:b", "c": "#A #B"}),
    ({"r1": ("map", "f", A), "r2": B}, {"s1": "A:a A:x", "c": "#A #B"}),
    ({"m": ("merge", A, B), "r1": C}, {"s1": "A:a C:c", "c": "#A #B #C"}),
    ({"r1": A, "e": E}, {"s1": "A:a", "k": "set(e) estop(e)", "c": "#A"}),
    ({"t": ("timer", Spec(interval=1.0)), "r1": A}, {"s1": "zz1 A:a", "c": "tstop(t) #A"}),
    ({"f": ("file", {"paths": ["/w/a"]}), "r1": A}, {"s1": "A:a", "o": "os(+a) os(end)", "c": "#A"}),
]
T = ("timer", Spec(interval=1.0))
RESETS = [
    ({"r1": A, "t": T}, {"s1": "zz0.5 busy(0.7) A:a", "k": "zz2.5 tstop(t)"}, {0: [("reset", "t", 0.0)]}),
    ({"t": T, "r1": A}, {"s1": "zz0.5 busy(0.7) A:a", "k": "zz2.5 tstop(t)"}, {0: [("reset", "t", 0.0)], 1: [("reset", "t", 0.25)]}),
    ({"t": T, "e": E}, {"k": "zz0.2 busy(1) set(e) zz2 tstop(t) estop(e)"}, {0: [("reset", "t", 0.5)]}),
]
"""The body of the select() loop resets the timer (a watchdog)."""
SENDERS = [
    (1, {"s1": "ab", "s2": "c", "c": "#"}),
    (1, {"s1": "ab", "s2": "c", "c": "#", "k": "!s1"}),
    (1, {"s1": "ab", "p": "r1", "c": "#"}),
]


def chain(error):
    """An error and its causes."""
    out = []
    while error is not None and error not in out:
        out.append(error)
        error = error.__cause__
    return out


class Errors:
    """Checks every error of an execution."""

    def __init__(self, x, sel, roots):
        self.x = x
        self.sel = sel
        self.w = sel.w
        self.roots = roots
        x.final_hooks.append(self.check)

    def check(self):
        for op in self.x.ops:
            if op.kind == "ready" and op.outcome == "exc":
                self.x.fail(f"{op.show()}: ready() fails")
            if op.outcome == "exc":
                self.check_error(op)

    def check_error(self, op):
        from frequenz.channels import Error, ReceiverError, ReceiverStoppedError, SenderError

        x, err = self.x, op.result
        for error in chain(err):
            if not isinstance(str(error), str) or not repr(error):
                x.fail(f"{op.show()}: no description")
            if isinstance(error, Error) and (not str(error) or (len(error.args) > 1 and str(error) == str(error.args))):
                x.fail(f"{op.show()}: the text of {type(error).__name__} is not a message: {str(error)}")
        if op.kind == "send":
            if not isinstance(err, SenderError) or not isinstance(err, Error):
                x.fail(f"{op.show()}: not a SenderError ({op.notes.get('where')})")
            if err.sender is not op.notes["sender"]:
                x.fail(f"{op.show()}: names the sender {err.sender!r}")
            self.closed_by(op, err, [op.obj])
            return
        if op.kind == "selnext" or isinstance(err, (MapError, FakeError)):
            return
        if op.obj not in self.roots:
            x.fail(f"{op.show()}: unexpected error ({op.notes.get('where')})")
        if op.kind == "next":
            if not isinstance(err, StopAsyncIteration):
                x.fail(f"{op.show()}: iteration fails ({op.notes.get('where')})")
            return
        if isinstance(err, AssertionError) and op.kind == "sel" and any(f[0] == "F10" for f in x.findings):
            return
        if not isinstance(err, ReceiverStoppedError) or not isinstance(err, (ReceiverError)) or not isinstance(err, Error):
            x.fail(f"{op.show()}: not a ReceiverStoppedError ({op.notes.get('where')})")
        expr = self.roots[op.obj]
        mine = self.w.all_receivers[op.obj]
        if op.kind == "recv" or not (isinstance(expr, tuple) and expr[0] == "map"):
            if err.receiver is not mine:
                x.fail(f"{op.show()}: names {err.receiver!r}, called on {mine!r}")
        elif id(err.receiver) not in self.sel.flow.parts[op.obj]:
            x.fail(f"{op.show()}: names {err.receiver!r}, a stranger")
        if not special(expr) and "merge" not in str(expr):
            self.closed_by(op, err, [ch for ch, _ in leaves(expr)])

    def closed_by(self, op, err, channels):
        from frequenz.channels import ChannelClosedError, ChannelError, Error

        for cause in chain(err):
            if isinstance(cause, ChannelClosedError):
                if not isinstance(cause, ChannelError) or not isinstance(cause, Error):
                    self.x.fail(f"{op.show()}: {cause!r} is not an Error")
                if all(cause.channel is not self.w.channels[ch] for ch in channels):
                    self.x.fail(f"{op.show()}: caused by {cause.channel!r}")
                if op.kind == "send" and err.__cause__ is not cause:
                    self.x.fail(f"{op.show()}: its cause is {err.__cause__!r}")
                return
        self.x.fail(f"{op.show()}: the closed channel is not its cause, {chain(err)} is")


def explored(expr, kind, limit, text, depth, bound):
    scripts = parse(text)
    channels = channels_of({"r": expr}, kind, limit)

    def build(x):
        if special(expr) and expr[0] == "timer":
            x.time_choice = False
        sel = Selecting(x, channels, {"r": expr}, {"wait", "stop"})
        if special(expr) and expr[0] == "timer":
            sel.events["r"].strict = True
        protocol = Protocol(x, "r", sel.w.receivers["r"], MapError if "map" in str(expr) else ())

        async def body(d):
            told = False
            for _ in range(depth):
                await d.point()
                what = x.pick(["recv", "next"] + (["consume"] if told else ["ready", "rc"]), label="op")
                res = await sel.w.perform(d, (what, "r"))
                # After ready() told either, consume() hands out a message or raises the error.
                told = what == "ready" and res is not None and res.ok

        sel.w.drivers["p"] = x.driver("p", body)
        for who, script in scripts.items():
            perform_script(x, sel, who, script)
        x.loop.settle()
        x.final_hooks.append(protocol.check)
        Errors(x, sel, {"r": expr})

    return Scenario(f"{kind}{limit} {expr} {show(text)} depth={depth} bound={bound}", build, bound)


def selecting(roots, text, kind, limit, order, during, bound):
    scripts = parse(text)

    def build(x):
        x.task_order(order)
        if any(special(e) and e[0] == "timer" for e in roots.values()):
            x.time_choice = False
        sel = Selecting(x, channels_of(roots, kind, limit), roots, {"wait", "stop", "leak", "errors"})
        perform_script(x, sel, "p", [("select", ",".join(roots), {"during": during, "pause": not during})])
        for who, script in scripts.items():
            perform_script(x, sel, who, script)
        x.loop.settle()
        Errors(x, sel, roots)

    return Scenario(f"select {kind}{limit} {order} {roots} {show(text)} {during} bound={bound}", build, bound)


def sending(limit, text, kind, bound):
    scripts = parse(text)
    roots = {"r1": A}

    def build(x):
        sel = Selecting(x, {A: (kind, limit)}, roots, {"wait", "stop"})
        for who, script in scripts.items():
            perform_script(x, sel, who, script)
        x.loop.settle()
        x.final_hooks.insert(0, lambda: afterwards(x, sel))
        Errors(x, sel, roots)

    def afterwards(x, sel):
        """Everybody fails from now on."""

        async def body(d):
            for who in ("s1", "s2"):
                for _ in range(2):
                    op = await sel.w.send(d, who, A, sel.w.value("z"), "z")
                    if op.ok:
                        x.fail(f"{op.show()}: on a closed channel")
            if not sel.w.channels[A].is_closed:
                x.fail("is_closed is False")

        x.drain(body, "senders")

    return Scenario(f"send {kind}{limit} {show(text)} bound={bound}", build, bound)


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for expr, channels, texts in KINDS:
        for kind, limit in channels:
            for text in texts:
                merge = "merge" in str(expr)
                out.append(explored(expr, kind, limit, text, 2 + deep, 1))
                out.append(explored(expr, kind, limit, text, 3 + deep - merge, 0))
                if deep and not merge:
                    out.append(explored(expr, kind, limit, text, 2, 2))
    for roots, text in SELECTS:
        for kind, limit in SIMPLE[1:]:
            if kind == "broadcast" and any(special(e) for e in roots.values()):
                continue
            for order in ("asc", "desc"):
                out.append(selecting(roots, text, kind, limit, order, None, 1 + deep))
    for roots, text, during in RESETS:
        for order in ("asc", "desc"):
            out.append(selecting(roots, text, "anycast", 2, order, during, 1 + deep))
    for limit, text in SENDERS:
        for kind in ("anycast", "broadcast"):
            out.append(sending(limit if kind == "anycast" else 50, text, kind, 2 + deep))
    return out
