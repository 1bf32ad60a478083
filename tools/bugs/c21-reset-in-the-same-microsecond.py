PROPERTY = 'C21'
NEEDS = 'a reset() in the very microsecond in which a tick fired on time and before it was handed out'
BREAKS = 'reset() forgets the pending tick only if it changes when the next tick is due'
EDITS = [('timer.py', '        self._next_tick_time = self._now() + start_delay_ms + self._interval\n        self._current_drift = None\n', '        next_tick_time = self._now() + start_delay_ms + self._interval\n        if next_tick_time != self._next_tick_time:\n            self._next_tick_time = next_tick_time\n            self._current_drift = None\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nclass Loop:\n    """A loop whose clock stands still."""\n\n    now = 100.0\n\n    def time(self):\n        return self.now\n\n    def __getattr__(self, name):\n        return getattr(asyncio.get_running_loop(), name)\n\n\nasync def main():\n    loop = Loop()\n    timer = Timer(timedelta(seconds=1), TriggerAllMissed(), loop=loop)\n    loop.now = 101.0\n    check(await timer.ready())\n    timer.reset()\n    try:\n        await asyncio.wait_for(timer.ready(), 0.1)\n    except asyncio.TimeoutError:\n        return\n    check(False, "the tick was not discarded")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
