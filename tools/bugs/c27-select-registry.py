PROPERTY = 'C27'
NEEDS = 'select() loops that are left early (break, return or an error in the body)'
BREAKS = 'A registry of running select() loops keeps the receivers of loops that were left early'
EDITS = [('_select.py', '    receivers_map: dict[str, Receiver[Any]] = {str(id(r)): r for r in receivers}\n    pending: set[asyncio.Task[bool]] = set()\n', '    receivers_map: dict[str, Receiver[Any]] = {str(id(r)): r for r in receivers}\n    pending: set[asyncio.Task[bool]] = set()\n    token = object()\n    _running[token] = receivers_map\n'), ('_select.py', 'async def select(*receivers', '_running: dict[object, dict[str, Receiver[Any]]] = {}\n"""The receivers of the loops that are running, to be able to show them."""\n\n\nasync def select(*receivers'), ('_select.py', '    finally:\n        await _stop_pending_tasks(pending)\n', '    finally:\n        await _stop_pending_tasks(pending)\n        if not pending:\n            del _running[token]\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nimport gc, weakref\nasync def main():\n    chan = Broadcast(name="a")\n    sender = chan.new_sender()\n    ref = None\n    for _ in range(3):\n        recv = chan.new_receiver()\n        await sender.send(1)\n        async for selected in select(recv, chan.new_receiver()):\n            selected_from(selected, recv)\n            break\n        ref = weakref.ref(recv)\n        await spin()\n    del recv, selected\n    await spin()\n    gc.collect()\n    check(ref() is None, "still alive")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
