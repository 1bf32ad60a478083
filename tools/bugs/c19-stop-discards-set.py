PROPERTY = 'C19'
NEEDS = 'stop() of an event that is set and not consumed yet, before anybody waits for it'
BREAKS = 'stop() discards the pending event'
EDITS = [('event.py', '        self._is_stopped = True\n        self._event.set()\n', '        self._is_stopped = True\n        self._is_set = False\n        self._event.set()\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    event = Event()
    event.set()
    event.stop()
    try:
        await event.receive()
    except ReceiverStoppedError:
        check(False, "set() was lost")


asyncio.run(asyncio.wait_for(main(), 20))
'''
