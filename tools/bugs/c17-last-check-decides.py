PROPERTY = 'C17'
NEEDS = 'a selected receiver is compared with several others, the right one not being the last'
BREAKS = 'selected_from() forgets that the selection was handled when asked about another receiver afterwards'
EDITS = [('_select.py', '    if handled := selected._recv is receiver:  # pylint: disable=protected-access\n        selected._handled = True  # pylint: disable=protected-access\n    return handled\n', '    handled = selected._recv is receiver  # pylint: disable=protected-access\n    selected._handled = handled  # pylint: disable=protected-access\n    return handled\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    a, b = Broadcast(name="a"), Broadcast(name="b")\n    ra, rb = a.new_receiver(), b.new_receiver()\n    await a.new_sender().send(1)\n    await a.close()\n    await b.close()\n    async for selected in select(ra, rb):\n        mine = [r for r in (ra, rb) if selected_from(selected, r)]\n        check(len(mine) == 1)\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
