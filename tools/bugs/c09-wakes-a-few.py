PROPERTY = 'C09'
NEEDS = 'more than 8 tasks waiting for the same broadcast channel when a message is sent'
BREAKS = 'the others wait although their receivers have a message'
EDITS = [('_broadcast.py', '            self._channel._recv_cv.notify_all()\n        # pylint: enable', '            self._channel._recv_cv.notify(8)\n        # pylint: enable')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="a")\n    receivers = [chan.new_receiver() for _ in range(10)]\n    tasks = [asyncio.create_task(r.receive()) for r in receivers]\n    await spin()\n    await chan.new_sender().send(1)\n    done, pending = await asyncio.wait(tasks, timeout=1)\n    check(not pending and all(t.result() == 1 for t in done), f"{len(pending)} wait")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
