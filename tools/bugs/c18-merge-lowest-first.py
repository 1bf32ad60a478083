PROPERTY = 'C18'
NEEDS = 'two sources that always have messages'
BREAKS = 'the merger takes the message of one source only each time, always the first one that is ready'
EDITS = [('_merge.py', '                self._pending, return_when=asyncio.FIRST_COMPLETED\n', '                # One at a time, so messages are not taken before they are needed.\n                [t for t in sorted(self._pending, key=lambda t: t.get_name()) if t.done()][:1]\n                or self._pending,\n                return_when=asyncio.FIRST_COMPLETED,\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    a, b = Broadcast(name="a"), Broadcast(name="b")\n    ra, rb = a.new_receiver(limit=200), b.new_receiver(limit=200)\n    sa, sb = a.new_sender(), b.new_sender()\n    for i in range(100):\n        await sa.send(("a", i))\n    await sb.send(("b", 0))\n    merged = merge(ra, rb)\n    got = []\n    for _ in range(20):\n        await asyncio.sleep(0)\n        got.append((await merged.receive())[0])\n    check("b" in got, f"{got}")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
