PROPERTY = 'C18'
NEEDS = 'one of the first receivers is always ready'
BREAKS = 'only the first ready receiver, in the order of the arguments, is handled before waiting again: later ones starve'
EDITS = [('_select.py', '            for task in done:\n                receiver_active: bool = True\n', '            order = list(receivers_map)\n            first = min(done, key=lambda task: order.index(task.get_name()))\n            pending |= done - {first}\n            for task in (first,):\n                receiver_active: bool = True\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    a, b = Broadcast(name="a"), Broadcast(name="b")
    ra, rb = a.new_receiver(), b.new_receiver()
    await b.new_sender().send("b")
    n = 0
    await a.new_sender().send("a")
    async for selected in select(ra, rb):
        if selected_from(selected, ra):
            n += 1
            check(n < 20, "starved")
            await a.new_sender().send("a")
        elif selected_from(selected, rb):
            return


asyncio.run(asyncio.wait_for(main(), 20))
'''
