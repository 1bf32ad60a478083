PROPERTY = 'C07'
NEEDS = 'a receiver created with resend_latest that is not read until its buffer is full'
BREAKS = 'the buffer of a receiver that gets the latest message has room for one message more than its limit'
EDITS = [('_broadcast.py', '        recv: _Receiver[ChannelMessageT] = _Receiver(self, name=name, limit=limit)\n        self._receivers[hash(recv)] = weakref.ref(recv)\n        if self.resend_latest and self._has_latest:\n', '        resend = self.resend_latest and self._has_latest\n        # The message sent again is not one of those that can be missed.\n        recv: _Receiver[ChannelMessageT] = _Receiver(\n            self, name=name, limit=limit + resend\n        )\n        self._receivers[hash(recv)] = weakref.ref(recv)\n        if resend:\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="a", resend_latest=True)\n    sender = chan.new_sender()\n    await sender.send(0)\n    recv = chan.new_receiver(limit=2)\n    for i in range(1, 4):\n        await sender.send(i)\n    check(len(recv) == 2, f"{len(recv)}")\n    check([await recv.receive(), await recv.receive()] == [2, 3])\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
