PROPERTY = 'C28'
NEEDS = 'a file watcher that is dropped after its event loop ended'
BREAKS = 'the finalizer schedules the end of the watch on the running event loop, and there is none'
EDITS = [('file_watcher.py', '        self._stop_event.set()\n\n    async def ready', '        asyncio.get_running_loop().call_soon(self._stop_event.set)\n\n    async def ready')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\ndef closed():\n    import gc, sys\n    from frequenz.channels.file_watcher import FileWatcher\n    seen = []\n    sys.unraisablehook = lambda args: seen.append(str(args.object)) if "__del__" in str(args.object) else None\n    loop = asyncio.new_event_loop()\n    async def make():\n        return FileWatcher(["/tmp"])\n    w = loop.run_until_complete(make())\n    loop.close()\n    del w\n    gc.collect()\n    check(not seen, f"{seen}")\n\n\nasync def main():\n    await asyncio.to_thread(closed)\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
