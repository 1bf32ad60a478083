PROPERTY = 'C16'
NEEDS = "a select() loop left while a receiver's ready() takes more than a tenth of a second to be cancelled"
BREAKS = 'the cleanup gives up waiting: tasks of the abandoned loop survive it'
EDITS = [('_select.py', '        done, pending = await asyncio.wait(pending)\n        assert not pending\n', '        done, pending = await asyncio.wait(pending, timeout=0.1)\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nclass Slow(Receiver):\n    async def ready(self):\n        try:\n            await asyncio.Event().wait()\n        finally:\n            await asyncio.sleep(0.5)\n\n    def consume(self):\n        raise NotImplementedError\n\n\nasync def main():\n    a = Broadcast(name="a")\n    ra = a.new_receiver()\n    slow = Slow()\n    before = len(asyncio.all_tasks())\n    await a.new_sender().send(1)\n    loop = select(ra, slow)\n    async for selected in loop:\n        if not selected_from(selected, ra):\n            return\n        await spin()\n        break\n    await loop.aclose()\n    check(len(asyncio.all_tasks()) == before, "tasks left")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
