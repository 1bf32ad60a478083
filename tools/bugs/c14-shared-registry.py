PROPERTY = 'C14'
NEEDS = 'two select() loops at the same time'
BREAKS = 'the receivers being selected are kept in one registry for all loops, by position: a loop selects a receiver of another one'
EDITS = [('_select.py', '    receivers_map: dict[str, Receiver[Any]] = {str(id(r)): r for r in receivers}\n    pending: ', '    receivers_map = _receivers_map\n    names = [str(n) for n, _ in enumerate(receivers)]\n    receivers_map.update(zip(names, receivers))\n    pending: '), ('_select.py', '        for name, recv in receivers_map.items():\n', '        for name in names:\n            recv = receivers_map[name]\n'), ('_select.py', 'async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:\n', '_receivers_map: dict[str, Receiver[Any]] = {}\n"""The receivers being selected."""\n\n\nasync def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def loop(recv, got):\n    async for selected in select(recv):\n        check(selected_from(selected, recv))\n        if not selected.was_stopped:\n            got.append(selected.message)\n\n\nasync def main():\n    a, b = Broadcast(name="a"), Broadcast(name="b")\n    got_a, got_b = [], []\n    tasks = [asyncio.create_task(loop(c.new_receiver(), g)) for c, g in ((a, got_a), (b, got_b))]\n    await spin()\n    for i in range(3):\n        await a.new_sender().send(i)\n        await spin()\n        await b.new_sender().send(10 + i)\n        await spin()\n    await a.close()\n    await b.close()\n    done, pending = await asyncio.wait(tasks, timeout=2)\n    check(not pending and not any(t.exception() for t in done), str(done))\n    check(got_a == [0, 1, 2] and got_b == [10, 11, 12])\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
