PROPERTY = 'C27'
NEEDS = 'A mapped receiver whose function raises, again and again'
BREAKS = 'The mapped receiver keeps every error its function raised, with everything they refer to'
EDITS = [('_receiver.py', '        """The function to apply on the input data."""\n', '        """The function to apply on the input data."""\n\n        self._last_error: Exception | None = None\n        """The last error of the function."""\n'), ('_receiver.py', '        return self._mapping_function(\n            self._receiver.consume()\n        )  # pylint: disable=protected-access\n', '        message = self._receiver.consume()\n        try:\n            return self._mapping_function(message)\n        except Exception as err:  # pylint: disable=broad-except\n            err.__context__ = self._last_error\n            self._last_error = err\n            raise\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nimport weakref\nasync def main():\n    chan = Broadcast(name="a")\n    sender = chan.new_sender()\n\n    def fail(m):\n        raise ValueError(m)\n\n    class Msg: pass\n    recv = chan.new_receiver().map(fail)\n    refs = []\n    for _ in range(5):\n        m = Msg()\n        refs.append(weakref.ref(m))\n        await sender.send(m)\n        del m\n        try:\n            await recv.receive()\n        except ValueError:\n            pass\n    await sender.send(None)\n    check(refs[1]() is None, "message still alive")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
