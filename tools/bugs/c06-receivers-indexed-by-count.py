PROPERTY = 'C06'
NEEDS = 'a receiver is dropped, a message sent, and a new receiver created while others live'
BREAKS = 'receivers are registered under the number of receivers: after one was removed, a new one replaces another live receiver'
EDITS = [('_broadcast.py', '        self._receivers[hash(recv)] = weakref.ref(recv)\n', '        self._receivers[len(self._receivers)] = weakref.ref(recv)\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    chan = Broadcast(name="b")
    sender = chan.new_sender()
    r0, r1 = chan.new_receiver(), chan.new_receiver()
    del r0
    await sender.send(1)
    r2 = chan.new_receiver()
    await sender.send(2)
    check(len(r2) == 1)
    check(len(r1) == 2, "a receiver was forgotten")


asyncio.run(asyncio.wait_for(main(), 20))
'''
