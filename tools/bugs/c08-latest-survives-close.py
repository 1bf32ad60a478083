PROPERTY = 'C08'
NEEDS = 'a receiver created after the channel was closed, with resend_latest'
BREAKS = 'close() forgets the latest message only when resend_latest is off at that moment: receivers created after close() get it'
EDITS = [('_broadcast.py', '        self._latest = None\n        self._has_latest = False\n        self._closed = True\n', '        if not self.resend_latest:\n            self._latest = None\n            self._has_latest = False\n        self._closed = True\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="b", resend_latest=True)\n    await chan.new_sender().send(1)\n    await chan.close()\n    recv = chan.new_receiver()\n    try:\n        await recv.receive()\n    except ReceiverStoppedError:\n        return\n    check(False, "got a message after close")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
