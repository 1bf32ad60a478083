PROPERTY = 'C13'
NEEDS = 'a source fails for one message and has more'
BREAKS = 'a source that raised an error once is not received from any more'
EDITS = [('_merge.py', '                    asyncio.create_task(anext(self._receivers[name]), name=name)\n                )\n', '                    asyncio.create_task(anext(self._receivers[name]), name=name)\n                ) if item.exception() is None else None\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    def f(m):\n        if m == 1:\n            raise ValueError()\n        return m\n\n    chan, other = Broadcast(name="b"), Broadcast(name="c")\n    merged = merge(chan.new_receiver().map(f), other.new_receiver())\n    for i in (1, 2):\n        await chan.new_sender().send(i)\n    await chan.close()\n    await other.close()\n    got = []\n    while True:\n        try:\n            got.append(await merged.receive())\n        except ValueError:\n            got.append("error")\n        except ReceiverStoppedError:\n            break\n    check(got == ["error", 2], f"{got}")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
