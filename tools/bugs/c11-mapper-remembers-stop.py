PROPERTY = 'C11'
NEEDS = 'ready() of a mapped receiver is called while the channel is closed and drained, then again'
BREAKS = 'once a mapped receiver was told that its source stopped it never asks it again'
EDITS = [('_receiver.py', '        return await self._receiver.ready()  # pylint: disable=protected-access\n', "        if getattr(self, '_done', False):\n            return False\n        self._done = not await self._receiver.ready()\n        return not self._done\n")]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    t = Timer(timedelta(seconds=0.01), TriggerAllMissed())\n    m = t.map(lambda d: d)\n    t.stop()\n    check(await m.ready() is False)\n    t.reset()\n    await asyncio.sleep(0.05)\n    check(await asyncio.wait_for(m.ready(), 1) is True, "stopped for good")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
