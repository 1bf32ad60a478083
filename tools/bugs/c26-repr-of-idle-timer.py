PROPERTY = 'C26'
NEEDS = 'repr() of a timer that was created with auto_start=False and not started yet'
BREAKS = 'repr() raises TypeError'
EDITS = [('timer.py', '        return (\n            f"{type(self).__name__}<{self.interval=}, {self.missed_tick_policy=}, "\n            f"{self.loop=}, {self.is_running=}>"\n        )', '        text = (\n            f"{type(self).__name__}<{self.interval=}, {self.missed_tick_policy=}, "\n            f"{self.loop=}, {self.is_running=}"\n        )\n        if not self._stopped or self._current_drift is None:\n            next_tick = timedelta(microseconds=self._next_tick_time)  # type: ignore\n            text += f", {next_tick=}"\n        return text + ">"')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    timer = Timer(timedelta(seconds=1), SkipMissedAndDrift(), auto_start=False)\n    repr(timer)\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
