PROPERTY = 'C20'
NEEDS = 'a tick is consumed some time after ready() returned'
BREAKS = 'the next tick is calculated from the time at which a tick is consumed instead of when it fired'
EDITS = [('timer.py', '        self._next_tick_time = self._missed_tick_policy.calculate_next_tick_time(\n            now=now,\n            scheduled_tick_time=self._next_tick_time,\n            interval=self._interval,\n        )\n\n        return True\n', '        return True\n'), ('timer.py', '        drift = self._current_drift\n        self._current_drift = None\n', '        drift = self._current_drift\n        self._current_drift = None\n        if self._next_tick_time is not None and not self._stopped:\n            self._next_tick_time = self._missed_tick_policy.calculate_next_tick_time(\n                now=self._now(),\n                scheduled_tick_time=self._next_tick_time,\n                interval=self._interval,\n            )\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    timer = Timer(timedelta(seconds=0.2), SkipMissedAndDrift(delay_tolerance=timedelta(seconds=0.1)))\n    loop = asyncio.get_running_loop()\n    start = loop.time()\n    await timer.ready()\n    await asyncio.sleep(0.15)\n    timer.consume()\n    await timer.receive()\n    check(loop.time() - start < 0.5, f"{loop.time() - start}")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
