PROPERTY = 'C03'
NEEDS = 'two messages are taken, before any woken sender runs, while two senders are blocked'
BREAKS = 'a sender is woken only if the buffer was full before the message was taken: the second blocked sender is never woken'
EDITS = [('_anycast.py', '        self._next = self._channel._deque.popleft()\n        async with self._channel._send_cv:\n            self._channel._send_cv.notify(1)\n', '        was_full = len(self._channel._deque) == self._channel._deque.maxlen\n        self._next = self._channel._deque.popleft()\n        if was_full:\n            async with self._channel._send_cv:\n                self._channel._send_cv.notify(1)\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    chan = Anycast(name="a", limit=2)
    recv, sender = chan.new_receiver(), chan.new_sender()
    await sender.send(1)
    await sender.send(2)
    tasks = [asyncio.create_task(sender.send(i)) for i in (3, 4)]
    await spin()
    check([await recv.receive() for _ in range(2)] == [1, 2])
    await spin()
    check(all(t.done() for t in tasks), "a sender waits although there is space")


asyncio.run(asyncio.wait_for(main(), 20))
'''
