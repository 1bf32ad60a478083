PROPERTY = 'C11'
NEEDS = 'a mapped receiver that is ready while the message is taken through the receiver it maps'
BREAKS = 'the mapper remembers that it was ready and says so again, although the message is gone'
EDITS = [('_receiver.py', '        return await self._receiver.ready()  # pylint: disable=protected-access\n', '        if not self._is_ready:\n            self._is_ready = await self._receiver.ready()\n        return self._is_ready\n'), ('_receiver.py', '        self._receiver: Receiver[ReceiverMessageT_co] = receiver\n        """The input receiver."""\n', '        self._receiver: Receiver[ReceiverMessageT_co] = receiver\n        """The input receiver."""\n\n        self._is_ready: bool = False\n        """Whether a message was announced but not consumed yet."""\n'), ('_receiver.py', '        return self._mapping_function(\n            self._receiver.consume()\n', '        self._is_ready = False\n        return self._mapping_function(\n            self._receiver.consume()\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    c = Broadcast(name="c")\n    r, s = c.new_receiver(), c.new_sender()\n    m = r.map(lambda x: x)\n    await s.send(1)\n    await m.ready()\n    check(await r.receive() == 1)\n    t = asyncio.create_task(m.receive())\n    await spin()\n    check(not t.done(), "ready without a message")\n    await s.send(2)\n    check(await t == 2)\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
