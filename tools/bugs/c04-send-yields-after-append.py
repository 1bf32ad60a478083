PROPERTY = 'C04'
NEEDS = 'a send is cancelled in the loop iteration in which its message is taken'
BREAKS = 'send() waits one loop iteration after the message is in the buffer: cancelled there, it delivers its message all the same'
EDITS = [('_anycast.py', '            self._channel._recv_cv.notify(1)\n', "            self._channel._recv_cv.notify(1)\n        if len(self._channel._deque) == self._channel._deque.maxlen:\n            # Let the receivers run, so the next send doesn't block.\n            await asyncio.sleep(0)\n"), ('_anycast.py', '        self._channel._deque.append(message)\n        async', '        self._channel._deque.append(message)\n        # Wake up a receiver.\n        async'), ('_anycast.py', 'import logging\n', 'import asyncio\nimport logging\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    chan = Anycast(name="a", limit=1)
    recv, sender = chan.new_receiver(), chan.new_sender()
    task = asyncio.create_task(sender.send(1))
    await asyncio.sleep(0)
    task.cancel()
    await asyncio.wait([task])
    if not task.cancelled():
        return
    await sender.send(2)
    check(await recv.receive() == 2, "the message of a cancelled send was delivered")


asyncio.run(asyncio.wait_for(main(), 20))
'''
