PROPERTY = 'C17'
NEEDS = 'a receiver whose ready() fails while it also has a message'
BREAKS = 'the receiver is consumed before its error is looked at: the loop ends with SelectError and the message is gone'
EDITS = [('_select.py', '                receiver_active: bool = True\n                name = task.get_name()\n                recv = receivers_map[name]\n', '                receiver_active: bool = True\n                name = task.get_name()\n                recv = receivers_map[name]\n                selected = Selected(recv)\n'), ('_select.py', '                selected = Selected(recv)\n                yield selected\n', '                yield selected\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nclass Flaky(Receiver):\n    def __init__(self):\n        self.messages = [1, 2]\n        self.fail = True\n\n    async def ready(self):\n        if self.fail:\n            self.fail = False\n            raise ValueError("try again")\n        return bool(self.messages)\n\n    def consume(self):\n        if not self.messages:\n            raise ReceiverStoppedError(self)\n        return self.messages.pop(0)\n\n\nasync def main():\n    recv = Flaky()\n    try:\n        async for selected in select(recv):\n            check(False, "yielded")\n    except SelectError as err:\n        check(isinstance(err.__cause__, ValueError))\n    check([m async for m in recv] == [1, 2])\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
