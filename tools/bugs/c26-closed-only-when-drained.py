PROPERTY = 'C26'
NEEDS = 'is_closed of an Anycast channel that was closed while messages are still in its buffer'
BREAKS = 'is_closed is False although the channel was closed'
EDITS = [('_anycast.py', '        exception.\n        """\n        return self._closed\n', '        exception.\n        """\n        return self._closed and not self._deque\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Anycast(name="a", limit=2)\n    await chan.new_sender().send(1)\n    await chan.close()\n    check(chan.is_closed, "not closed")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
