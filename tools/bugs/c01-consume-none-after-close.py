PROPERTY = 'C01'
NEEDS = 'a None message claimed by ready() before the channel is closed and consumed after it'
BREAKS = 'consume() takes a claimed None for no message once the channel is closed: the message is lost'
EDITS = [('_anycast.py', '            self._next is _Empty and self._channel._closed\n', '            self._next in (_Empty, None) and self._channel._closed\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    chan = Anycast(name="a")
    recv = chan.new_receiver()
    await chan.new_sender().send(None)
    check(await recv.ready())
    await chan.close()
    try:
        check(recv.consume() is None)
    except ReceiverStoppedError:
        check(False, "message lost")


asyncio.run(asyncio.wait_for(main(), 20))
'''
