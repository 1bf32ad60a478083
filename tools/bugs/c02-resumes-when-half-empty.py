PROPERTY = 'C02'
NEEDS = 'a limit of three or more, a blocked sender and receivers that take a single message'
BREAKS = 'a blocked sender does not go on when there is space, but only when half of the buffer is free'
EDITS = [('_anycast.py', '            while len(self._channel._deque) == self._channel._deque.maxlen:\n                async', '            while len(self._channel._deque) > self._channel._deque.maxlen // 2:\n                async')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    c = Anycast(name="c", limit=3)\n    s, r = c.new_sender(), c.new_receiver()\n    for n in range(3):\n        await s.send(n)\n    t = asyncio.create_task(s.send(3))\n    await spin()\n    check(not t.done())\n    await r.receive()\n    await spin()\n    check(t.done(), "send() waits although there is space")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
