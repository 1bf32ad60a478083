PROPERTY = 'C22'
NEEDS = 'a file is created and modified in one batch'
BREAKS = 'changes of the same path in a batch are ordered and later ones of the same path are dropped when the file was created'
EDITS = [('file_watcher.py', '        change, path_str = self._changes.pop()\n', '        change, path_str = self._changes.pop()\n        if change is Change.added:\n            self._changes.discard((Change.modified, path_str))\n')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nasync def main():\n    from unittest import mock\n    from watchfiles import Change\n    from frequenz.channels import file_watcher as fw\n\n    async def fake(*paths, **kwargs):\n        yield {(Change.added, "/x"), (Change.modified, "/x")}\n\n    for _ in range(20):\n        with mock.patch.object(fw, "awatch", fake):\n            w = fw.FileWatcher(["/x"])\n        got = [e.type.name async for e in w]\n        check(sorted(got) == ["CREATE", "MODIFY"], f"{got}")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
