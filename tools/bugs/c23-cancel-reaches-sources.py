PROPERTY = 'C23'
NEEDS = 'a receive from a merger is cancelled or timed out and retried'
BREAKS = 'cancelling a receive also cancels the pending receives from the sources: later receives fail'
EDITS = [('_merge.py', '            done, _ = await asyncio.wait(\n                self._pending, return_when=asyncio.FIRST_COMPLETED\n            )\n', '            try:\n                done, _ = await asyncio.wait(\n                    self._pending, return_when=asyncio.FIRST_COMPLETED\n                )\n            except asyncio.CancelledError:\n                for task in self._pending:\n                    task.cancel()\n                raise\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    chan = Anycast(name="a")
    merged = merge(chan.new_receiver())
    try:
        async with asyncio.timeout(0.05):
            await merged.receive()
    except TimeoutError:
        pass
    await chan.new_sender().send(1)
    try:
        check(await merged.receive() == 1)
    except asyncio.CancelledError:
        check(False, "the receiver is broken")


asyncio.run(asyncio.wait_for(main(), 20))
'''
