PROPERTY = 'C21'
NEEDS = 'a timer is reset to a later time while somebody waits, after a tick was missed'
BREAKS = 'reset() keeps the drift of a tick that was not handed out yet when the timer is running'
EDITS = [('timer.py', '        self._next_tick_time = self._now() + start_delay_ms + self._interval\n        self._current_drift = None\n', '        self._next_tick_time = self._now() + start_delay_ms + self._interval\n        if start_delay_ms == 0:\n            self._current_drift = None\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    t = Timer(timedelta(seconds=0.05), TriggerAllMissed())\n    await t.ready()\n    t.reset(start_delay=timedelta(seconds=5))\n    try:\n        await asyncio.wait_for(t.receive(), 0.2)\n    except TimeoutError:\n        return\n    check(False, "stale tick")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
