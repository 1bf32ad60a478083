PROPERTY = 'C17'
NEEDS = 'the stop of a receiver is not handled in the if-chain'
BREAKS = 'no UnhandledSelectedError for a receiver that stopped'
EDITS = [('_select.py', '                if not selected._handled:  # pylint: disable=protected-access\n', '                # pylint: disable-next=protected-access\n                if not selected._handled and not selected.was_stopped:\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    a, b = Event(), Event()
    b.stop()
    try:
        async for selected in select(a, b):
            if selected_from(selected, a):
                check(False)
            else:
                a.stop()
    except UnhandledSelectedError:
        return
    check(False, "not raised")


asyncio.run(asyncio.wait_for(main(), 20))
'''
