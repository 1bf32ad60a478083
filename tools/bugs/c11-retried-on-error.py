PROPERTY = 'C11'
NEEDS = 'the function raises for a message'
BREAKS = 'when the function fails it is called a second time with the same message'
EDITS = [('_receiver.py', '        return self._mapping_function(\n            self._receiver.consume()\n        )  # pylint: disable=protected-access\n', '        message = self._receiver.consume()\n        try:\n            return self._mapping_function(message)\n        except Exception:  # pylint: disable=broad-except\n            return self._mapping_function(message)\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    chan = Broadcast(name="b")\n    calls = []\n\n    def function(m):\n        calls.append(m)\n        raise ValueError(m)\n\n    recv = chan.new_receiver().map(function)\n    await chan.new_sender().send(1)\n    try:\n        await recv.receive()\n    except ValueError:\n        pass\n    check(calls == [1], "called twice")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
