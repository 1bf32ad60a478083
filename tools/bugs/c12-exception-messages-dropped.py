PROPERTY = 'C12'
NEEDS = 'a message is an exception object'
BREAKS = 'a merger drops messages that are StopAsyncIteration or StopIteration objects'
EDITS = [('_merge.py', '                if isinstance(item.exception(), StopAsyncIteration):\n', '                if isinstance(item.exception() or item.result(), StopAsyncIteration):\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    a, b = Broadcast(name="a"), Broadcast(name="b")\n    merged = merge(a.new_receiver(), b.new_receiver())\n    s = a.new_sender()\n    await s.send(StopAsyncIteration())\n    await s.send(1)\n    first = await asyncio.wait_for(merged.receive(), 1)\n    check(isinstance(first, StopAsyncIteration), "dropped")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
