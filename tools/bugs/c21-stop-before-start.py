PROPERTY = 'C21'
NEEDS = 'stop() of a timer with auto_start=False before its first use'
BREAKS = 'a timer stopped before it was started is started by the next receive'
EDITS = [('timer.py', '        self._next_tick_time = self._now()\n', '        if self._next_tick_time is not None:\n            self._next_tick_time = self._now()\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    timer = Timer(timedelta(seconds=0.1), TriggerAllMissed(), auto_start=False)
    timer.stop()
    try:
        await timer.receive()
    except ReceiverStoppedError:
        return
    check(False, "started")


asyncio.run(asyncio.wait_for(main(), 20))
'''
