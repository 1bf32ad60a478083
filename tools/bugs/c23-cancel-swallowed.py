PROPERTY = 'C23'
NEEDS = 'cancelling a receive from a merger in the same event loop round in which a source gets a message'
BREAKS = 'the cancellation is swallowed: the cancelled receive goes on'
EDITS = [('_merge.py', '            done, _ = await asyncio.wait(\n                self._pending, return_when=asyncio.FIRST_COMPLETED\n            )\n', '            try:\n                done, _ = await asyncio.wait(\n                    self._pending, return_when=asyncio.FIRST_COMPLETED\n                )\n            except asyncio.CancelledError:\n                done = {task for task in self._pending if task.done()}\n                if not done:\n                    raise\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="a")\n    sender = chan.new_sender()\n    merged = merge(chan.new_receiver(), Broadcast(name="b").new_receiver())\n    for rounds in range(8):\n        task = asyncio.create_task(merged.receive())\n        await spin()\n        await sender.send(rounds)\n        for _ in range(rounds):\n            await asyncio.sleep(0)\n        done = task.done()\n        task.cancel()\n        await asyncio.wait([task], timeout=1)\n        check(task.done() and (task.cancelled() or done), f"not cancelled: {rounds}")\n        if not done:\n            check(await asyncio.wait_for(merged.receive(), 2) == rounds)\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
