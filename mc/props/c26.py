"""Programs of all parts of the library (those of the other properties) with an observer that, before every step, looks at every
channel, sender, receiver, event, timer, file watcher, merger, Selected and error there is: str(), repr(), hash(), ==, len(), and all
public properties.  Oracle: nothing raises, the constant properties stay as given, is_closed tells whether close() was called, looking
twice gives the same, and the same execution without the observer has the same history."""

import dataclasses
import importlib

from ..explore import Scenario, Violation

CONSTANT = ("name", "limit", "interval", "missed_tick_policy", "delay_tolerance", "loop", "event_types")
VARIABLE = ("is_closed", "resend_latest", "is_set", "is_stopped", "is_running")


def mine(obj):
    return type(obj).__module__.startswith("frequenz.channels")


def look(x, obj, seen, title=None):
    """All that an object shows."""
    for func in (str, repr):
        if not isinstance(func(obj), str):
            x.fail(f"{func.__name__}() of a {type(obj).__name__} is not a text")
        if func(obj) != func(obj):
            x.fail(f"{func.__name__}() twice: {func(obj)}, then {func(obj)}")
    shown = {"hash": hash(obj)}
    if not obj == obj:  # pylint: disable=comparison-with-itself
        x.fail(f"{obj!r} is not equal to itself")
    for name in CONSTANT:
        if hasattr(type(obj), name) or name == "event_types" and hasattr(obj, name):
            shown[name] = getattr(obj, name)
    for name, value in shown.items():
        # Objects are not kept alive.
        key = (title, id(obj), name)
        if seen.setdefault(key, value) != value:
            x.fail(f"{name} of {obj!r} was {seen[key]!r}, now it is {value!r}")
    for name in VARIABLE:
        if hasattr(type(obj), name) or name == "resend_latest" and hasattr(obj, name):
            value = getattr(obj, name)
            if value is not getattr(obj, name) or not isinstance(value, bool):
                x.fail(f"{name} of {obj!r} is {value!r}")
    if hasattr(type(obj), "__len__"):
        if len(obj) != len(obj) or len(obj) < 0:
            x.fail(f"len() of {obj!r}")


def spy(x, selected):
    try:
        observe(x, selected)
    except Violation:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(f"looking raises {type(exc).__name__}: {exc}") from exc


def observe(x, selected):
    seen = x.__dict__.setdefault("seen", {})
    if selected is not None:
        look(x, selected, {})
        exc = selected.exception
        if exc is not selected.exception or selected.was_stopped is not selected.was_stopped:
            x.fail(f"{selected!r} changes")
        if exc is None and selected.message is not selected.message:
            x.fail(f"{selected!r} changes")
        return
    for w in x.worlds:
        for name, channel in w.channels.items():
            if not mine(channel):
                continue
            look(x, channel, seen, name)
            closing = [o for o in x.ops if o.kind in ("close", "forward") and (o.obj == name or o.kind == "forward")]
            if channel.is_closed and not closing:
                x.fail(f"{channel!r} is closed although nobody closed it")
            if not channel.is_closed and any(o.kind == "close" and o.ok for o in closing):
                x.fail(f"{channel!r} is not closed although it was closed")
        for name, obj in (*w.senders.items(), *w.receivers.items()):
            if mine(obj):
                look(x, obj, seen, name)
            if hasattr(obj, "missed_tick_policy"):
                look(x, obj.missed_tick_policy, {})
    for op in x.ops[-3:]:
        if isinstance(op.result, BaseException):
            for err in (op.result, op.result.__cause__, op.result.__context__):
                str(err)
                repr(err)
        elif mine(op.result):
            str(op.result)
            repr(op.result)


def names():
    """What is given at the creation is shown."""

    def build(x):
        from frequenz.channels import Anycast, Broadcast  # pylint: disable=import-outside-toplevel
        from frequenz.channels.event import Event  # pylint: disable=import-outside-toplevel

        async def body(_d):
            for name in ("a", "", "none", "b c", "%s{}", "é"):
                for limit in (1, 2, 10, 1000):
                    chan = Anycast(name=name, limit=limit)
                    if chan.name != name or chan.limit != limit or chan.is_closed:
                        x.fail(f"{chan!r}: created with name={name!r} limit={limit}")
                for resend in (False, True):
                    other = Broadcast(name=name, resend_latest=resend)
                    if other.name != name or other.resend_latest is not resend or other.is_closed:
                        x.fail(f"{other!r}: created with name={name!r} resend_latest={resend}")
                    rec = other.new_receiver(name=name or None, limit=3)
                    if len(rec) != 0:
                        x.fail(f"{rec!r} is not empty")
                if name:
                    event = Event(name=name)
                    if event.name != name or event.is_set or event.is_stopped:
                        x.fail(f"{event!r}: created with name={name!r}")
                for obj in (chan, other, rec, chan.new_receiver(), chan.new_sender(), other.new_sender()):
                    look(x, obj, {})
            if not isinstance(Event().name, str) or not isinstance(Anycast(name="a").limit, int):
                x.fail("defaults")

        x.driver("p", body)

    return Scenario("names and limits", build, 0)


LOOKS = {
    "message": lambda s: s.message,
    "exception": lambda s: s.exception,
    "was_stopped": lambda s: s.was_stopped,
    "str": str,
    "repr": repr,
    "hash": hash,
    "==": lambda s: s == s,  # pylint: disable=comparison-with-itself
}


def handled(kind):
    """A body of select() that looks at what was selected in any ways, before and after it handles it or not."""

    def build(x):
        from frequenz.channels import Anycast, Broadcast, select, selected_from, UnhandledSelectedError, merge
        from frequenz.channels.event import Event  # pylint: disable=import-outside-toplevel

        def fails(_message):
            raise ValueError()

        async def body(d):
            await d.point()
            chan = Anycast(name="a", limit=3) if "anycast" in kind else Broadcast(name="b")
            recv = event = chan.new_receiver()
            other = chan.new_receiver()
            if "fails" in kind:
                recv = recv.map(fails)
            if "merge" in kind:
                recv = merge(recv, other)
            if "event" in kind:
                recv = event = Event()
                event.set()
            elif "message" in kind or "fails" in kind:
                await chan.new_sender().send(None if "none" in kind else 5)
            if "stop" in kind:
                event.stop()
            if "closed" in kind:
                await chan.close()
            looks = [None, *LOOKS]
            chosen = [x.pick(looks, label="look"), x.pick(looks, label="look")]
            handle = x.pick([None, "first", "between", "last"], label="handle")
            count = 0
            try:
                async for selected in select(recv):
                    count += 1
                    if handle == "first" and not selected_from(selected, recv):
                        x.fail("selected_from() is false")
                    for n, what in enumerate(chosen):
                        if n and handle == "between" and not selected_from(selected, recv):
                            x.fail("selected_from() is false")
                        if what is not None:
                            try:
                                LOOKS[what](selected)
                            except Exception as exc:  # pylint: disable=broad-except
                                if what != "message" or exc is not selected.exception:
                                    raise
                    if handle == "last" and not selected_from(selected, recv):
                        x.fail("selected_from() is false")
                    if count == 3:
                        break
                    if "event" in kind:
                        event.stop()
                    await chan.close()
            except UnhandledSelectedError as err:
                if handle is not None or count != 1 or err.selected is not selected:
                    x.fail(f"looking at {chosen}, handled {handle}: {err!r} after {count}")
            else:
                if handle is None:
                    x.fail(f"looking at {chosen} handles it")
            x.tick("Z", count, handle, *chosen)

        x.driver("p", body)

    return Scenario(f"handled {kind}", build, 0)


TAKEN = {
    # property: (bound of its fixed programs, bound of its free programs, every how many of the fixed ones, of the free ones)
    "C01": (1, -1, 1, 1),
    "C03": (1, -1, 2, 1),
    "C06": (1, -1, 1, 1),
    "C07": (0, -1, 3, 1),
    "C11": (1, -1, 2, 1),
    "C12": (0, -1, 1, 1),
    "C13": (0, -1, 2, 1),
    "C14": (1, 0, 4, 4),
    "C16": (1, 0, 3, 4),
    "C17": (0, 0, 2, 4),
    "C18": (0, -1, 4, 1),
    "C19": (1, -1, 1, 1),
    "C20": (0, -1, 4, 1),
    "C21": (0, -1, 2, 1),
    "C22": (1, -1, 6, 1),
    "C23": (0, -1, 1, 1),
    "C25": (0, -1, 2, 1),
}


def taken(tier):
    deep = tier == "thorough"
    for prop, (bound, free, each, each_free) in TAKEN.items():
        scenarios = importlib.import_module(f"mc.props.{prop.lower()}").scenarios("quick")
        fixed = [s for s in scenarios if "{" not in s.name]
        open_ = [s for s in scenarios if "{" in s.name]
        for chosen, b, n in ((fixed, bound, each), (open_, free, each_free)):
            if deep:
                b, n = b + 1, 1
            if b >= 0:
                for s in chosen[::n]:
                    yield dataclasses.replace(s, name=f"{prop}: {s.name}", bound=min(s.bound, b))


def scenarios(tier):
    out = [names()]
    for kind in ("anycast message", "broadcast none message", "anycast fails", "merge broadcast message", "event", "event stop", "closed", "merge closed anycast"):
        out.append(handled(kind))
    for s in taken(tier):
        out.append(dataclasses.replace(s, name=f"looking at {s.name}", spy=spy))
    return out
