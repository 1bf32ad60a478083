PROPERTY = 'C25'
NEEDS = 'send() on a closed broadcast channel'
BREAKS = 'SenderError of a broadcast channel does not tell that the channel was closed'
EDITS = [('_broadcast.py', '            raise SenderError("The channel was closed", self) from ChannelClosedError(\n                self._channel\n            )\n', '            raise SenderError(str(ChannelClosedError(self._channel)), self)\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="a")\n    sender = chan.new_sender()\n    await chan.close()\n    try:\n        await sender.send(1)\n    except SenderError as err:\n        check(isinstance(err.__cause__, ChannelClosedError), "no cause")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
