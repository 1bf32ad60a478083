"""Programs that keep only senders and receivers: the channel object was dropped (a function made the channel and returned both ends),
or receivers of mergers and maps were.  Nothing closes the channel, everything arrives."""

from __future__ import annotations

import gc
from typing import Any

from .explore import Execution, Scenario, token


def scenario(kind: str, limit: int, shape: str, senders: int, bound: int) -> Scenario:
    """One or two senders, receivers of the given shape."""

    def build(x: Execution) -> None:
        from frequenz.channels import Anycast, Broadcast, merge  # pylint: disable=import-outside-toplevel

        def ends() -> tuple[list[Any], dict[str, Any]]:
            chan: Any = Anycast(name="", limit=limit) if kind == "anycast" else Broadcast(name="")
            new = chan.new_receiver if kind == "anycast" else lambda: chan.new_receiver(limit=limit)
            out = [chan.new_sender() for _ in range(senders)]
            if shape == "map":
                return out, {"p": new().map(lambda m: m).map(lambda m: m)}
            if shape == "merge":
                return out, {"p": merge(new().map(lambda m: m), *([] if kind == "broadcast" else [new()]))}
            return out, {"p": new(), "q": new()}

        sending, receiving = ends()
        gc.collect()
        sent: dict[int, list[Any]] = {}
        ended: list[bool] = []
        got: dict[str, list[Any]] = {r: [] for r in receiving}

        def sender(i: int) -> Any:
            async def body(d: Any) -> None:
                for n in range(2):
                    await d.point()
                    message = token(f"{'ab'[i]}{n}")
                    op = await d.op("send", "A", sending[i].send(message), message)
                    if not op.ok:
                        x.fail(f"{op.show()} although nobody closed the channel ({op.notes.get('where')})")
                    sent.setdefault(i, []).append(message)
                # Senders come and go.
                sending[i] = None

            return body

        def receiver(name: str) -> Any:
            async def body(d: Any) -> None:
                while True:
                    await d.point()
                    op = await d.op("recv", name, receiving[name].receive())
                    if ended:
                        return
                    if not op.ok:
                        x.fail(f"{op.show()} although nobody closed the channel ({op.notes.get('where')})")
                    got[name].append(op.result)

            return body

        for i in range(senders):
            x.driver(f"s{i}", sender(i))
        for name in receiving:
            x.driver(name, receiver(name))

        def end() -> None:
            ended.append(True)
            everything = [m for ms in sent.values() for m in ms]
            if len(everything) != 2 * senders:
                x.fail(f"only {everything} were sent")
            parts = [sum(got.values(), [])] if kind == "anycast" else list(got.values())
            for part in parts:
                if sorted(m.uid for m in part) != sorted(m.uid for m in everything):
                    x.fail(f"sent {sent}, received {got}")
            for part in got.values() if shape != "merge" or kind == "broadcast" else ():
                for mine in sent.values():
                    seen = [m for m in part if any(m is o for o in mine)]
                    if seen != sorted(seen, key=lambda m: m.uid) or [m.uid for m in seen] != sorted(m.uid for m in seen):
                        x.fail(f"out of order: {got}")

        x.final_hooks.append(end)

    return Scenario(f"dropped channel {kind}{limit} {shape} senders={senders} bound={bound}", build, bound)


def scenarios(kind: str, tier: str) -> list[Scenario]:
    deep = tier == "thorough"
    return [
        scenario(kind, limit, shape, senders, 2 - senders + deep)
        for limit in ((1, 10) if kind == "anycast" else (4, 50))
        for shape in ("two", "map", "merge")
        for senders in (1, 2)[: 1 + (shape != "two")]
    ]
