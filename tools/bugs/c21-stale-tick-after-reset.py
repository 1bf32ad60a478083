PROPERTY = 'C21'
NEEDS = 'reset() with a tick that fired and was not consumed'
BREAKS = 'reset() does not discard a tick that is ready'
EDITS = [('timer.py', '        self._next_tick_time = self._now() + start_delay_ms + self._interval\n        self._current_drift = None\n', '        self._next_tick_time = self._now() + start_delay_ms + self._interval\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    timer = Timer(timedelta(seconds=0.2), TriggerAllMissed())
    loop = asyncio.get_running_loop()
    await timer.ready()
    timer.reset()
    now = loop.time()
    await timer.receive()
    check(loop.time() - now > 0.1, "stale tick")


asyncio.run(asyncio.wait_for(main(), 20))
'''
