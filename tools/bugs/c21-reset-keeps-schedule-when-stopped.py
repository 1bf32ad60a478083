PROPERTY = 'C21'
NEEDS = 'reset() of a stopped timer whose tick had been due before it was stopped'
BREAKS = 'a stopped timer that is reset continues with its former schedule'
EDITS = [('timer.py', '        self._stopped = False\n        self._next_tick_time = self._now() + start_delay_ms + self._interval\n', '        if not self._stopped or self._next_tick_time is None or start_delay_ms:\n            self._next_tick_time = self._now() + start_delay_ms + self._interval\n        else:\n            # Continue from where it was stopped.\n            self._next_tick_time += self._interval\n        self._stopped = False\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    timer = Timer(timedelta(seconds=0.2), TriggerAllMissed())\n    timer.stop()\n    await asyncio.sleep(0.15)\n    timer.reset()\n    now = asyncio.get_running_loop().time()\n    await timer.receive()\n    check(asyncio.get_running_loop().time() - now > 0.15, "tick too early")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
