PROPERTY = 'C08'
NEEDS = 'resend_latest is switched on after messages were sent'
BREAKS = 'the latest message is remembered only while resend_latest is on'
EDITS = [('_broadcast.py', '        self._channel._latest = message\n', '        if self._channel.resend_latest:\n            self._channel._latest = message\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    chan = Broadcast(name="b")
    sender = chan.new_sender()
    await sender.send(1)
    chan.resend_latest = True
    recv = chan.new_receiver()
    check(len(recv) == 1 and recv.consume() == 1, "not the latest message")


asyncio.run(asyncio.wait_for(main(), 20))
'''
