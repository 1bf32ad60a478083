PROPERTY = 'C28'
NEEDS = 'a merger that waits for its sources when all tasks are cancelled'
BREAKS = 'the task that waits for a source starts to wait again when it is cancelled, unless the merger was stopped'
EDITS = [('_merge.py', '            asyncio.create_task(anext(recv), name=name)\n            for', '            asyncio.create_task(self._next(recv), name=name)\n            for'), ('_merge.py', '                    asyncio.create_task(anext(self._receivers[name]), name=name)\n', '                    asyncio.create_task(self._next(self._receivers[name]), name=name)\n'), ('_merge.py', '    async def stop(self) -> None:\n        """Stop this merger."""\n', '    async def _next(\n        self, recv: Receiver[ReceiverMessageT_co]\n    ) -> ReceiverMessageT_co:\n        """Wait for the next message of a receiver, not disturbed by its other users."""\n        retries = 0\n        while True:\n            try:\n                return await anext(recv)\n            except asyncio.CancelledError:\n                task = asyncio.current_task()\n                if task not in self._pending or retries:\n                    raise\n                retries += 1\n\n    async def stop(self) -> None:\n        """Stop this merger."""\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    done = False\n\n    async def program():\n        m = merge(Broadcast(name="a").new_receiver(), Broadcast(name="b").new_receiver())\n        try:\n            await m.receive()\n        finally:\n            keep.append(m)\n\n    keep = []\n    t = asyncio.create_task(program())\n    await spin()\n    tasks = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]\n    for t in tasks:\n        t.cancel()\n    await asyncio.sleep(0.1)\n    left = [t for t in tasks if not t.done()]\n    for t in left:\n        t.cancel()\n    check(not left, f"{left}")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
