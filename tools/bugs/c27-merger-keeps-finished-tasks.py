PROPERTY = 'C27'
NEEDS = 'A merger that receives many messages'
BREAKS = 'The merger keeps the finished tasks, and so every message, for its whole life'
EDITS = [('_merge.py', "                # if channel is closed, don't add a task for it again.\n                if isinstance(item.exception(), StopAsyncIteration):\n                    continue\n", "                # if channel is closed, don't add a task for it again.\n                if isinstance(item.exception(), StopAsyncIteration):\n                    continue\n                item.add_done_callback(partial(self._on_done, self._history))\n"), ('_merge.py', '        self._results: deque[asyncio.Task[ReceiverMessageT_co]] = deque(\n', '        self._history: list[asyncio.Task[Any]] = []\n        self._results: deque[asyncio.Task[ReceiverMessageT_co]] = deque(\n'), ('_merge.py', '    def __str__(self) -> str:\n', '    @staticmethod\n    def _on_done(history: list[asyncio.Task[Any]], task: asyncio.Task[Any]) -> None:\n        """Remember a task until it is garbage."""\n        history.append(task)\n\n    def __str__(self) -> str:\n'), ('_merge.py', 'import itertools\n', 'import itertools\nfrom functools import partial\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nimport weakref\nasync def main():\n    chan = Broadcast(name="a")\n    sender = chan.new_sender()\n\n    class Msg: pass\n    recv = merge(chan.new_receiver(), chan.new_receiver())\n    refs = []\n    for _ in range(5):\n        m = Msg()\n        refs.append(weakref.ref(m))\n        await sender.send(m)\n        del m\n        await recv.receive()\n        await recv.receive()\n    await sender.send(None)\n    await spin()\n    check(refs[1]() is None, "message still alive")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
