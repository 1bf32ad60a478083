PROPERTY = 'C14'
NEEDS = 'a Selected that is looked at after a later selection of the same receiver'
BREAKS = 'there is one Selected per receiver, overwritten by the next selection: one kept by the application changes its message'
EDITS = [('_select.py', '    pending: set[asyncio.Task[bool]] = set()\n\n    try:', '    pending: set[asyncio.Task[bool]] = set()\n    selections: dict[str, Selected[Any]] = {}\n\n    try:'), ('_select.py', '                selected = Selected(recv)\n', '                if name in selections:\n                    selected = selections[name]\n                    selected.__init__(recv)  # type: ignore[misc] # pylint: disable=unnecessary-dunder-call\n                else:\n                    selected = selections[name] = Selected(recv)\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="a")\n    recv = chan.new_receiver()\n    sender = chan.new_sender()\n    for i in range(3):\n        await sender.send(i)\n    await chan.close()\n    kept = []\n    async for selected in select(recv):\n        check(selected_from(selected, recv))\n        if not selected.was_stopped:\n            kept.append((len(kept), selected))\n    check(len(kept) == 3)\n    for i, selected in kept:\n        check(selected.exception is None and selected.message == i, f"{i} {selected!r}")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
