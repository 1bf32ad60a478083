PROPERTY = 'C02'
NEEDS = 'a blocked sender is woken, and another sender takes the freed space before it runs'
BREAKS = 'a blocked send() does not look again whether there is space: the buffer overflows and the oldest message is dropped'
EDITS = [('_anycast.py', '            while len(self._channel._deque) == self._channel._deque.maxlen:\n                async', '            if len(self._channel._deque) == self._channel._deque.maxlen:\n                async')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    chan = Anycast(name="a", limit=1)
    recv, sender = chan.new_receiver(), chan.new_sender()
    await sender.send(1)
    blocked = asyncio.create_task(sender.send(2))
    await spin()
    check(await recv.receive() == 1)
    await sender.send(3)  # takes the place
    await spin()
    check(not blocked.done(), "sent into a full buffer")
    check(await recv.receive() == 3)
    check(await recv.receive() == 2)


asyncio.run(asyncio.wait_for(main(), 20))
'''
