PROPERTY = 'C10'
NEEDS = 'ready() is called again, after the channel was closed, with a message already claimed'
BREAKS = 'ready() says the receiver is stopped although it has a message'
EDITS = [('_anycast.py', '        if self._next is not _Empty:\n            return True\n', '        if self._next is not _Empty:\n            return not self._channel._closed  # pylint: disable=protected-access\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    chan = Anycast(name="a")
    recv = chan.new_receiver()
    await chan.new_sender().send(1)
    check(await recv.ready())
    await chan.close()
    check(await recv.ready(), "ready() is not stable")


asyncio.run(asyncio.wait_for(main(), 20))
'''
