PROPERTY = 'C27'
NEEDS = 'several receivers are dropped between two sends, again and again'
BREAKS = 'of several dropped receivers the channel forgets only one per send'
EDITS = [('_broadcast.py', '        for _hash in stale_refs:\n            del self._channel._receivers[_hash]\n', '        for _hash in stale_refs[-1:]:\n            del self._channel._receivers[_hash]\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="b")\n    sender = chan.new_sender()\n    keep = []\n    for _ in range(50):\n        recvs = [chan.new_receiver() for _ in range(3)]\n        keep.append(object())\n        keep.extend(bytearray(100) for _ in range(7))\n        del recvs\n        junk = [chan.new_sender() for _ in range(5)]\n        keep.append(junk)\n        await sender.send(1)\n    import re\n    count = int(re.search(r"receivers=(\\d+)", repr(chan))[1])\n    check(count == 0, f"{count} dropped receivers are remembered")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
