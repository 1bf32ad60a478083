PROPERTY = 'C09'
NEEDS = 'two tasks wait for the same broadcast receiver when the channel is closed'
BREAKS = 'close() wakes up as many tasks as there are receivers: with several tasks per receiver some wait for ever'
EDITS = [('_broadcast.py', '        self._closed = True\n        async with self._recv_cv:\n            self._recv_cv.notify_all()\n', '        self._closed = True\n        async with self._recv_cv:\n            self._recv_cv.notify(len(self._receivers))\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="b")\n    recv = chan.new_receiver()\n    tasks = [asyncio.create_task(recv.receive()) for _ in range(2)]\n    await spin()\n    await chan.close()\n    await spin()\n    check(all(t.done() for t in tasks), "waits on a closed channel")\n    [t.exception() for t in tasks]\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
