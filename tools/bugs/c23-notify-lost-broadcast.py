PROPERTY = 'C23'
NEEDS = 'a receive on a broadcast receiver is cancelled right when a message comes'
BREAKS = 'the message that woke a task which is cancelled is skipped'
EDITS = [('_broadcast.py', '            async with self._channel._recv_cv:\n                await self._channel._recv_cv.wait()\n', '            async with self._channel._recv_cv:\n                try:\n                    await self._channel._recv_cv.wait()\n                except BaseException:\n                    if len(self._q) > 1:\n                        self._q.popleft()\n                    raise\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="a")\n    r, s = chan.new_receiver(), chan.new_sender()\n    task = asyncio.create_task(r.receive())\n    await spin()\n    await s.send(1)\n    await s.send(2)\n    task.cancel()\n    await spin()\n    check(await r.receive() == 1, "lost")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
