PROPERTY = 'C27'
NEEDS = 'receiving again and again from a stopped receiver'
BREAKS = 'the error of a stopped receiver is kept and raised again each time, and its traceback gets longer and longer'
EDITS = [('_broadcast.py', '        if not self._q and self._channel._closed:  # pylint: disable=protected-access\n            raise ReceiverStoppedError(self) from ChannelClosedError(self._channel)\n', '        if not self._q and self._channel._closed:  # pylint: disable=protected-access\n            if self._stop_error is None:\n                self._stop_error = ReceiverStoppedError(self)\n            raise self._stop_error from ChannelClosedError(self._channel)\n'), ('_broadcast.py', '        self._q: deque[_T] = deque(maxlen=limit)\n', '        self._stop_error: ReceiverStoppedError[_T] | None = None\n\n        self._q: deque[_T] = deque(maxlen=limit)\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="a")\n    recv = chan.new_receiver()\n    await chan.close()\n    lengths = []\n    for _ in range(30):\n        try:\n            await recv.receive()\n        except ReceiverStoppedError as err:\n            n, tb = 0, err.__traceback__\n            while tb is not None:\n                n, tb = n + 1, tb.tb_next\n            lengths.append(n)\n    check(lengths[-1] == lengths[2], f"{lengths}")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
