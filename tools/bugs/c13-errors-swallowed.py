PROPERTY = 'C13'
NEEDS = 'a merged receiver fails with an error'
BREAKS = 'any error of a source is taken for its end: the error is never reported and the rest of the source is lost'
EDITS = [('_merge.py', '                if isinstance(item.exception(), StopAsyncIteration):\n', '                if item.exception() is not None:\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


def half(m):
    return 4 // m


async def main():
    chan = Anycast(name="a")
    merged = merge(chan.new_receiver().map(half))
    await chan.new_sender().send(0)
    await chan.new_sender().send(2)
    await chan.close()
    try:
        await merged.receive()
        check(False, "no error")
    except ZeroDivisionError:
        pass
    check(await merged.receive() == 2)


asyncio.run(asyncio.wait_for(main(), 20))
'''
