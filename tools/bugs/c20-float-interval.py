PROPERTY = 'C20'
NEEDS = 'an interval whose value in seconds times a million is a little less than a whole number in floating point (such as 1.001 s)'
BREAKS = 'the interval is computed with floats and truncated: every tick comes a microsecond early, and the error accumulates'
EDITS = [('timer.py', '        self._interval: int = _to_microseconds(interval)\n', '        self._interval: int = int(interval.total_seconds() * 1_000_000)\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    for us in range(1, 3_000_000, 997):\n        timer = Timer(timedelta(microseconds=us), TriggerAllMissed())\n        check(timer.interval == timedelta(microseconds=us), f"{us} {timer.interval}")\n        timer.stop()\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
