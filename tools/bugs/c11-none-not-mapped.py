PROPERTY = 'C11'
NEEDS = 'a message that is None goes through map()'
BREAKS = 'the mapping function is not applied to None'
EDITS = [('_receiver.py', '        return self._mapping_function(\n            self._receiver.consume()\n        )  # pylint: disable=protected-access\n', '        message = self._receiver.consume()\n        return None if message is None else self._mapping_function(message)\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    chan = Anycast(name="a")
    recv = chan.new_receiver().map(lambda m: ("mapped", m))
    await chan.new_sender().send(None)
    check(await recv.receive() == ("mapped", None), "not mapped")


asyncio.run(asyncio.wait_for(main(), 20))
'''
