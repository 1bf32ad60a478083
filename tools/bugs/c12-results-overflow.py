PROPERTY = 'C12'
NEEDS = 'messages of all sources available while the results of the previous round are not consumed yet'
BREAKS = 'ready() gathers more results although some are waiting, more than the buffer of results can hold; the oldest are lost'
EDITS = [('_merge.py', '            if len(self._results) > 0:\n                return True\n', '            if len(self._results) > 0 and not any(t.done() for t in self._pending):\n                return True\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    c = Broadcast(name="c", resend_latest=False)\n    d = Broadcast(name="d")\n    m = merge(c.new_receiver(), d.new_receiver())\n    await c.new_sender().send(1)\n    await spin()\n    await m.ready()\n    await c.new_sender().send(2)\n    await d.new_sender().send(10)\n    await spin()\n    await c.new_sender().send(3)\n    await m.ready()\n    await spin()\n    await m.ready()\n    got = []\n    for _ in range(4):\n        got.append(await asyncio.wait_for(m.receive(), 1))\n    check(sorted(got) == [1, 2, 3, 10], f"{got}")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
