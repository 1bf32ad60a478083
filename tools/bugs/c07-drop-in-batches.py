PROPERTY = 'C07'
NEEDS = 'a receiver with a limit of at least 10 overflows'
BREAKS = 'a tenth of the buffer is dropped on overflow instead of one message'
EDITS = [('_broadcast.py', '            self._q.popleft()\n            _logger.warning(\n                "Broadcast receiver [%s] is full. Oldest message was dropped.",\n', '            # Make some room, to avoid a warning for each message.\n            for _ in range(1 + len(self._q) // 10):\n                self._q.popleft()\n            _logger.warning(\n                "Broadcast receiver [%s] is full. Oldest messages were dropped.",\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    chan = Broadcast(name="b")
    sender = chan.new_sender()
    recv = chan.new_receiver(limit=10)
    for i in range(11):
        await sender.send(i)
    check([recv.consume() for _ in range(len(recv))] == list(range(1, 11)), "too much dropped")


asyncio.run(asyncio.wait_for(main(), 20))
'''
