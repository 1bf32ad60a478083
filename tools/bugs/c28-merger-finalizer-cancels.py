PROPERTY = 'C28'
NEEDS = 'a merger whose sources still wait when its event loop is closed'
BREAKS = 'the finalizer of the merger cancels tasks of a loop that is closed, which raises an error in the finalizer'
EDITS = [('_merge.py', '            if not task.done() and task.get_loop().is_running():\n                task.cancel()\n', '            if not task.done():\n                task.cancel()\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\ndef main_closed():\n    import gc, sys\n    seen = []\n    sys.unraisablehook = lambda args: seen.append(str(args.object)) if "__del__" in str(args.object) else None\n    loop = asyncio.new_event_loop()\n    loop.set_exception_handler(lambda *_: None)\n    async def make():\n        return merge(Broadcast(name="a").new_receiver(), Broadcast(name="b").new_receiver())\n    m = loop.run_until_complete(make())\n    loop.run_until_complete(spin())\n    loop.close()\n    del m\n    gc.collect()\n    check(not seen, f"{seen}")\n\n\nasync def main():\n    await asyncio.to_thread(main_closed)\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
