PROPERTY = 'C25'
NEEDS = 'a user defined receiver raises a ReceiverError that is not a stop while it is iterated over'
BREAKS = 'every ReceiverError ends the iteration, and receive() reports it as a stop'
EDITS = [('_receiver.py', '        except ReceiverStoppedError as exc:\n            raise StopAsyncIteration() from exc\n', '        except ReceiverError as exc:\n            raise StopAsyncIteration() from exc\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nclass Bad(Receiver):\n    async def ready(self):\n        return True\n\n    def consume(self):\n        raise ReceiverError("broken", self)\n\n\nasync def main():\n    try:\n        await Bad().receive()\n    except ReceiverStoppedError:\n        check(False, "reported as a stop")\n    except ReceiverError:\n        return\n    check(False)\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
