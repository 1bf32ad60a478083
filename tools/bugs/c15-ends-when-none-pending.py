PROPERTY = 'C15'
NEEDS = 'all receivers become ready in the same round and one of them has stopped'
BREAKS = 'when a receiver stopped and no other is being waited for, the loop ends at once although others of the same round were not yielded yet'
EDITS = [('_select.py', '                if not receiver_active:\n                    continue\n', '                if not receiver_active:\n                    if not pending:\n                        break\n                    continue\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    for _ in range(30):\n        a, b = Broadcast(name="a"), Broadcast(name="b")\n        recvs = [a.new_receiver(), b.new_receiver()]\n        await a.close()\n        await b.close()\n        stops = []\n        async for selected in select(*recvs):\n            for r in recvs:\n                if selected_from(selected, r):\n                    stops.append(r)\n        check(len(stops) == 2, "a stop was not reported")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
