PROPERTY = 'C25'
NEEDS = 'receive() on a mapped receiver that stopped'
BREAKS = 'ReceiverStoppedError names the inner receiver instead of the one receive() was called on'
EDITS = [('_receiver.py', '                isinstance(exc.__cause__, ReceiverStoppedError)\n', '                isinstance(exc.__cause__, ReceiverStoppedError)\n                or isinstance(exc.__cause__, ReceiverError)\n            ) and (\n                isinstance(exc.__cause__, ReceiverStoppedError)\n'), ('_receiver.py', '                and exc.__cause__.receiver is self  # pylint: disable=no-member\n', '')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    chan = Anycast(name="a")
    recv = chan.new_receiver().map(str)
    await chan.close()
    try:
        await recv.receive()
    except ReceiverStoppedError as err:
        check(err.receiver is recv, f"names {err.receiver}")


asyncio.run(asyncio.wait_for(main(), 20))
'''
