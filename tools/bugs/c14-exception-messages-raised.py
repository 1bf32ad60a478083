PROPERTY = 'C14'
NEEDS = 'a message is an exception object'
BREAKS = 'a message that is an exception is taken for a failure of the receiver'
EDITS = [('_select.py', '            self._message = receiver.consume()\n', '            self._message = receiver.consume()\n            if isinstance(self._message, Exception):\n                self._exception = self._message\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="a")\n    r = chan.new_receiver()\n    error = ValueError()\n    await chan.new_sender().send(error)\n    await chan.close()\n    async for selected in select(r):\n        if selected_from(selected, r):\n            if selected.was_stopped:\n                return\n            check(selected.exception is None and selected.message is error, "raised")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
