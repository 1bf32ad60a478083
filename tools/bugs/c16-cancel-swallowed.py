PROPERTY = 'C16'
NEEDS = 'a cancellation of the loop that arrives in the same event loop round as a message'
BREAKS = 'the cancellation is taken for a wake up when a message is ready, so the loop goes on instead of ending'
EDITS = [('_select.py', '            done, pending = await asyncio.wait(\n                pending, return_when=asyncio.FIRST_COMPLETED\n            )\n', '            try:\n                done, pending = await asyncio.wait(\n                    pending, return_when=asyncio.FIRST_COMPLETED\n                )\n            except asyncio.CancelledError:\n                # Report first what is ready already.\n                done = {task for task in pending if task.done()}\n                if not done:\n                    raise\n                pending -= done\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="a")\n    recv, sender = chan.new_receiver(), chan.new_sender()\n    got = []\n\n    async def loop():\n        async for selected in select(recv):\n            check(selected_from(selected, recv))\n            got.append(selected.message)\n\n    for rounds in range(8):\n        task = asyncio.create_task(loop())\n        await spin()\n        await sender.send(rounds)\n        for _ in range(rounds):\n            await asyncio.sleep(0)\n        task.cancel()\n        done, _ = await asyncio.wait([task], timeout=1)\n        check(done and task.cancelled(), f"not cancelled: {rounds}")\n        while len(got) <= rounds:\n            got.append(await asyncio.wait_for(recv.receive(), 2))\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
