PROPERTY = 'C19'
NEEDS = 'an event that is set after it was stopped'
BREAKS = 'set() does nothing when the underlying event is already signalled, which stop() does too'
EDITS = [('event.py', '        self._is_set = True\n        self._event.set()\n', '        if self._event.is_set():\n            return\n        self._is_set = True\n        self._event.set()\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    e = Event()\n    e.stop()\n    e.set()\n    check(e.is_set, "set() was lost")\n    await asyncio.wait_for(e.receive(), 1)\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
