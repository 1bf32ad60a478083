PROPERTY = 'C05'
NEEDS = 'close() right after a send, while two receivers wait'
BREAKS = 'close() wakes the receivers only if there is nothing left to drain: a receiver that is not the one notified waits for ever'
EDITS = [('_anycast.py', '        async with self._recv_cv:\n            self._recv_cv.notify_all()\n', '        # If there is something left, the receivers are being woken up already.\n        if not self._deque:\n            async with self._recv_cv:\n                self._recv_cv.notify_all()\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    chan = Anycast(name="a")
    tasks = [asyncio.create_task(chan.new_receiver().receive()) for _ in range(2)]
    await spin()
    await chan.new_sender().send(1)
    await chan.close()
    await spin()
    check(all(t.done() for t in tasks), "a receiver waits on a closed channel")
    [t.exception() for t in tasks]


asyncio.run(asyncio.wait_for(main(), 20))
'''
