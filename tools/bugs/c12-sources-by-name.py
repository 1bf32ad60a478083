PROPERTY = 'C12'
NEEDS = 'two sources have the same string representation (receivers of one channel)'
BREAKS = 'sources are indexed by their string representation: of several receivers of the same channel only one is merged'
EDITS = [('_merge.py', '            str(id): recv for id, recv in enumerate(receivers)\n', '            str(recv): recv for recv in receivers\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    chan, other = Broadcast(name="b"), Broadcast(name="b")
    merged = merge(chan.new_receiver(), other.new_receiver())
    await spin(3)
    await chan.new_sender().send(1)
    await other.new_sender().send(2)
    await chan.close()
    await other.close()
    check(sorted([m async for m in merged]) == [1, 2], "a source is missing")


asyncio.run(asyncio.wait_for(main(), 20))
'''
