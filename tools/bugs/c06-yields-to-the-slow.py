PROPERTY = 'C06'
NEEDS = 'a receiver whose buffer is full when one task sends, and that is read just before another task sends'
BREAKS = 'send() lets other tasks run before it drops a message of a full receiver: another send may overtake it there, so receivers see different orders'
EDITS = [('_broadcast.py', '        for _hash, recv_ref in self._channel._receivers.items():\n            recv = recv_ref()\n', '        for _hash, recv_ref in list(self._channel._receivers.items()):\n            recv = recv_ref()\n'), ('_broadcast.py', '            recv.enqueue(message)\n        for', '            if len(recv) == recv._q.maxlen:\n                # It may be about to make room.\n                await asyncio.sleep(0)\n            recv.enqueue(message)\n        for'), ('_broadcast.py', '            del self._channel._receivers[_hash]\n', '            self._channel._receivers.pop(_hash, None)\n'), ('_broadcast.py', 'import logging\n', 'import asyncio\nimport logging\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="a")\n    fast, slow = chan.new_receiver(), chan.new_receiver(limit=2)\n    sender = chan.new_sender()\n    await sender.send(0)\n    await sender.send(1)\n    got = []\n\n    async def read():\n        got.append(await slow.receive())\n        got.append(await slow.receive())\n\n    await asyncio.gather(sender.send(2), read(), sender.send(3))\n    while len(slow):\n        got.append(await slow.receive())\n    order = [await fast.receive() for _ in range(4)]\n    check([m for m in order if m in got] == got, f"{order} {got}")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
