PROPERTY = 'C15'
NEEDS = 'a message and the close arrive together while a broadcast receiver is waited for'
BREAKS = 'ready() of a receiver woken by a message says it is stopped if the channel was closed meanwhile: select() drops it with its other messages and never reports the stop'
EDITS = [('_broadcast.py', '                await self._channel._recv_cv.wait()\n        return True\n', '                await self._channel._recv_cv.wait()\n        return not self._channel._closed\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    chan = Broadcast(name="b")
    recv = chan.new_receiver()
    seen = []

    async def loop():
        async for selected in select(recv):
            if selected_from(selected, recv):
                seen.append("stop" if selected.was_stopped else selected.message)

    task = asyncio.create_task(loop())
    await spin()
    await chan.new_sender().send(1)
    await chan.new_sender().send(2)
    await chan.close()
    await spin(30)
    check(task.done() and seen == [1, 2, "stop"], f"{seen}")


asyncio.run(asyncio.wait_for(main(), 20))
'''
