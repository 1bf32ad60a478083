PROPERTY = 'C03'
NEEDS = 'two receivers wait and two messages are sent before the first receiver runs'
BREAKS = 'a send wakes a receiver only if the buffer was empty before: the second of two messages sent at once wakes nobody'
EDITS = [('_anycast.py', '            self._channel._recv_cv.notify(1)\n', '            if len(self._channel._deque) == 1:\n                self._channel._recv_cv.notify(1)\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Anycast(name="a")\n    tasks = [asyncio.create_task(chan.new_receiver().receive()) for _ in range(2)]\n    await spin(3)\n    sender = chan.new_sender()\n    await sender.send(1)\n    await sender.send(2)\n    await spin(10)\n    check(all(t.done() for t in tasks), "a receiver waits in vain")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
