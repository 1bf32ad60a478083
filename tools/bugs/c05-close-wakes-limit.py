PROPERTY = 'C05'
NEEDS = 'more tasks waiting to receive than the limit of the channel when it is closed'
BREAKS = 'close() wakes up only as many receivers as the channel can hold messages; the others wait for ever'
EDITS = [('_anycast.py', '        async with self._recv_cv:\n            self._recv_cv.notify_all()\n', '        async with self._recv_cv:\n            self._recv_cv.notify(self.limit)\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Anycast(name="a", limit=2)\n    tasks = [asyncio.create_task(chan.new_receiver().ready()) for _ in range(3)]\n    await spin()\n    await chan.close()\n    done, pending = await asyncio.wait(tasks, timeout=1)\n    check(not pending and not any(t.result() for t in done), f"{pending}")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
