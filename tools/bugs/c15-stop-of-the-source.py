PROPERTY = 'C15'
NEEDS = 'a mapped receiver that stops in a select() loop'
BREAKS = 'was_stopped asks for an error of the selected receiver itself, but that of a mapped receiver comes from its source'
EDITS = [('_select.py', '        return isinstance(self._exception, ReceiverStoppedError)\n', '        return (\n            isinstance(self._exception, ReceiverStoppedError)\n            and self._exception.receiver is self._recv\n        )\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="a")\n    recv = chan.new_receiver().map(lambda m: m)\n    await chan.new_sender().send(1)\n    await chan.close()\n    stops = 0\n    async for selected in select(recv):\n        check(selected_from(selected, recv))\n        stops += selected.was_stopped\n    check(stops == 1)\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
