PROPERTY = 'C04'
NEEDS = 'a receive is cancelled in the loop iteration after it took a message out of the buffer'
BREAKS = 'ready() lets the blocked senders run between taking a message and storing it: a cancellation there loses the message'
EDITS = [('_anycast.py', '        self._next = self._channel._deque.popleft()\n        async with self._channel._send_cv:\n            self._channel._send_cv.notify(1)\n', '        message = self._channel._deque.popleft()\n        async with self._channel._send_cv:\n            self._channel._send_cv.notify(1)\n        if len(self._channel._deque) + 1 == self._channel._deque.maxlen:\n            # Let the blocked senders run.\n            await asyncio.sleep(0)\n        self._next = message\n'), ('_anycast.py', 'import logging\n', 'import asyncio\nimport logging\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    chan = Anycast(name="a", limit=1)
    recv, sender = chan.new_receiver(), chan.new_sender()
    await sender.send(1)
    task = asyncio.create_task(recv.receive())
    await asyncio.sleep(0)
    task.cancel()
    await asyncio.wait([task])
    if not task.cancelled():
        return
    await sender.send(2)
    check(await recv.receive() == 1, "message lost")


asyncio.run(asyncio.wait_for(main(), 20))
'''
