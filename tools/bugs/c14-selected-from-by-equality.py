PROPERTY = 'C14'
NEEDS = 'two of the selected receivers are equal (==) without being the same'
BREAKS = 'selected_from() compares receivers with ==: it is true for the wrong one too'
EDITS = [('_select.py', '    if handled := selected._recv is receiver:', '    if handled := selected._recv == receiver:')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


class Mine(Event):
    def __eq__(self, other):
        return isinstance(other, Mine)

    def __hash__(self):
        return 1


async def main():
    a, b = Mine(), Mine()
    b.set()
    async for selected in select(a, b):
        check(not selected_from(selected, a), "wrong receiver")
        check(selected_from(selected, b))
        break


asyncio.run(asyncio.wait_for(main(), 20))
'''
