PROPERTY = 'C26'
NEEDS = 'len() of a broadcast receiver between ready() and consume() after close()'
BREAKS = 'len() drops the messages of receivers whose channel is closed'
EDITS = [('_broadcast.py', '    def __len__(self) -> int:\n', '    def __len__(self) -> int:\n        # pylint: disable=protected-access\n'), ('_broadcast.py', '        return len(self._q)\n', '        if self._channel._closed and self._channel._latest is None:\n            # Nothing was ever sent.\n            self._q.clear()\n        return len(self._q)\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="a")\n    recv = chan.new_receiver()\n    sender = chan.new_sender()\n    await sender.send(1)\n    await sender.send(None)\n    await chan.close()\n    len(recv)\n    check(await recv.receive() == 1)\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
