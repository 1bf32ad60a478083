PROPERTY = 'C26'
NEEDS = 'A select() body that looks at the message but never calls selected_from() for its receiver'
BREAKS = 'Looking at Selected.message marks the selected receiver as handled, so the exhaustiveness check is silently defeated'
EDITS = [('_select.py', '        assert not isinstance(self._message, _EmptyResult)\n        return self._message\n', '        assert not isinstance(self._message, _EmptyResult)\n        self._handled = True\n        return self._message\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Anycast(name="a", limit=2)\n    recv = chan.new_receiver()\n    await chan.new_sender().send(1)\n    try:\n        async for selected in select(recv):\n            print(selected.message)\n            await chan.close()\n    except UnhandledSelectedError:\n        return\n    check(False, "not reported as unhandled")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
