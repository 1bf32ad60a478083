PROPERTY = 'C17'
NEEDS = 'ready() of a receiver raises an error'
BREAKS = 'SelectError does not carry the error of the receiver as its cause'
EDITS = [('_select.py', '                            raise SelectError(f"Error while selecting {recv}") from exc\n', '                            raise SelectError(f"Error while selecting {recv}: {exc}")\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


class Bad(Event):
    async def ready(self):
        raise ValueError("bad")


async def main():
    try:
        async for _ in select(Bad()):
            pass
    except SelectError as err:
        check(isinstance(err.__cause__, ValueError), "no cause")
        return
    check(False)


asyncio.run(asyncio.wait_for(main(), 20))
'''
