PROPERTY = 'C24'
NEEDS = 'a merger that already took messages from its sources is merged into another one'
BREAKS = 'a nested merger is replaced by its sources, although it has already received from them: messages it took are lost'
EDITS = [('_merge.py', '            str(id): recv for id, recv in enumerate(receivers)\n', '            str(id): recv\n            for id, recv in enumerate(\n                source\n                for recv in receivers\n                for source in (\n                    recv._receivers.values() if isinstance(recv, Merger) else (recv,)\n                )\n            )\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    a, b, c = Anycast(name="a"), Anycast(name="b"), Anycast(name="c")\n    inner = merge(a.new_receiver(), b.new_receiver())\n    await a.new_sender().send(0)\n    await b.new_sender().send(1)\n    check(await inner.ready())\n    got = [inner.consume()]\n    await spin()\n    check(await inner.ready())  # the inner merger holds the next message now\n    merged = merge(inner, c.new_receiver())\n    await spin()\n    for i in range(2, 4):\n        await a.new_sender().send(i)\n    for ch in (a, b, c):\n        await ch.close()\n    got += [m async for m in merged]\n    check(sorted(got) == [0, 1, 2, 3], f"messages lost: {got}")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
