PROPERTY = 'C22'
NEEDS = 'several changes of one path are reported in one batch'
BREAKS = 'only one change per path is kept'
EDITS = [('file_watcher.py', '            self._changes = await anext(self._awatch)\n', '            latest = {path: (change, path) for change, path in await anext(self._awatch)}\n            self._changes = set(latest.values())\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)

from unittest.mock import patch
from frequenz.channels.file_watcher import FileWatcher
from watchfiles import Change

async def main():
    async def changes(*_, **__):
        yield {(Change.added, "/w/a"), (Change.modified, "/w/a"), (Change.added, "/w/b")}

    with patch("frequenz.channels.file_watcher.awatch", changes):
        watcher = FileWatcher(["/w"])
        got = [(e.type.name, str(e.path)) async for e in watcher]
    check(len(got) == 3, f"{got}")


asyncio.run(asyncio.wait_for(main(), 20))
'''
