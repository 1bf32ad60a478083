PROPERTY = 'C06'
NEEDS = 'two receivers of a channel have the same name'
BREAKS = 'receivers are registered by their names: only the last one with the same name gets messages'
EDITS = [('_broadcast.py', '        self._receivers[hash(recv)] = weakref.ref(recv)\n', '        self._receivers[hash(name) if name else hash(recv)] = weakref.ref(recv)\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="b")\n    r1, r2 = chan.new_receiver(name="x"), chan.new_receiver(name="x")\n    await chan.new_sender().send(1)\n    await chan.close()\n    check([m async for m in r1] == [1] and [m async for m in r2] == [1], "a receiver got nothing")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
