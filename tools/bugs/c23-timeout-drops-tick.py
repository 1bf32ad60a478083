PROPERTY = 'C23'
NEEDS = 'a receive from a timer is cancelled in the loop iteration in which its tick fires'
BREAKS = 'a cancelled wait gives up the tick that it was waiting for: the schedule goes on with the next one'
EDITS = [('timer.py', '            await self._sleep(time_to_next_tick)\n', '            try:\n                await self._sleep(time_to_next_tick)\n            except asyncio.CancelledError:\n                if self._next_tick_time <= self._now():\n                    self._next_tick_time += self._interval\n                raise\n'), ('timer.py', '        now = self._now()\n        time_to_next_tick = self._next_tick_time - now\n\n        # If we', '        now: int = self._now()\n        time_to_next_tick = self._next_tick_time - now\n\n        # If we')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    timer = Timer(timedelta(seconds=0.2), TriggerAllMissed())\n    loop = asyncio.get_running_loop()\n    start = loop.time()\n    task = asyncio.create_task(timer.receive())\n    import time\n    await spin()\n    time.sleep(0.25)\n    task.cancel()\n    await asyncio.wait([task])\n    if not task.cancelled():\n        return\n    await timer.receive()\n    check(loop.time() - start < 0.35, "tick lost")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
