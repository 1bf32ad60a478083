PROPERTY = 'C11'
NEEDS = 'the mapping function raises, or ready() is called without consuming afterwards'
BREAKS = 'the function is called by ready(): its errors are raised there, end select() loops, and the message is gone'
EDITS = [('_receiver.py', '        return await self._receiver.ready()  # pylint: disable=protected-access\n', '        if self._mapped:\n            return True\n        if not await self._receiver.ready():\n            return False\n        self._mapped.append(self._mapping_function(self._receiver.consume()))\n        return True\n'), ('_receiver.py', '        return self._mapping_function(\n            self._receiver.consume()\n        )  # pylint: disable=protected-access\n', '        if self._mapped:\n            return self._mapped.pop()\n        return self._mapping_function(self._receiver.consume())\n'), ('_receiver.py', '        """The function to apply on the input data."""\n', '        """The function to apply on the input data."""\n\n        self._mapped: list[MappedMessageT_co] = []\n        """The message that is ready, already transformed."""\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


def fail(m):
    raise ValueError(m)


async def main():
    chan = Anycast(name="a")
    recv = chan.new_receiver().map(fail)
    await chan.new_sender().send(1)
    try:
        await recv.ready()
    except ValueError:
        check(False, "ready() raises")
    try:
        recv.consume()
    except ValueError:
        return
    check(False, "no error")


asyncio.run(asyncio.wait_for(main(), 20))
'''
