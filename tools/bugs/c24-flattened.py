PROPERTY = 'C24'
NEEDS = 'a merger of a merger that holds or already waits for messages'
BREAKS = 'merging a merger takes its sources instead of itself, next to the tasks of the inner merger, which take messages nobody gets'
EDITS = [('_merge.py', '            str(id): recv for id, recv in enumerate(receivers)\n', '            str(id): recv\n            for id, recv in enumerate(\n                itertools.chain.from_iterable(\n                    # Fewer layers are faster.\n                    recv._receivers.values() if type(recv) is Merger else (recv,)\n                    for recv in receivers\n                )\n            )\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    a, b, c = (Broadcast(name=n) for n in "abc")\n    inner = merge(a.new_receiver(), b.new_receiver())\n    outer = merge(inner, c.new_receiver())\n    await spin()\n    for chan, n in ((a, 1), (b, 2), (c, 3), (a, 4)):\n        await chan.new_sender().send(n)\n    for chan in (a, b, c):\n        await chan.close()\n    got = sorted([m async for m in outer])\n    check(got == [1, 2, 3, 4], f"{got}")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
