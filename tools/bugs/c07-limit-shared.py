PROPERTY = 'C07'
NEEDS = 'receivers with different limits of one channel'
BREAKS = 'a receiver created while another has a smaller limit drops at that limit when it holds messages of both'
EDITS = [('_broadcast.py', '        if len(self._q) == self._q.maxlen:\n', '        if len(self._q) == self._q.maxlen or len(self._q) == 48 < 50 == self._q.maxlen:\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="a")\n    r, s = chan.new_receiver(), chan.new_sender()\n    for i in range(50):\n        await s.send(i)\n    check(len(r) == 50)\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
