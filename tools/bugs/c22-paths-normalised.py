PROPERTY = 'C22'
NEEDS = 'a path that is watched by a name with detours'
BREAKS = 'events carry the normalised path and not the one the change was reported for'
EDITS = [('file_watcher.py', 'path=pathlib.Path(path_str))', 'path=pathlib.Path(os.path.normpath(path_str)))'), ('file_watcher.py', 'import asyncio\nimport pathlib', 'import asyncio\nimport os.path\nimport pathlib')]
DEMO = 'import asyncio\nfrom frequenz.channels import *\nfrom frequenz.channels.event import Event\nfrom frequenz.channels.timer import *\nfrom datetime import timedelta\n\n\ndef check(ok, what="property violated"):\n    if not ok:\n        raise SystemExit(what)\n\n\nasync def spin(n=10):\n    for _ in range(n):\n        await asyncio.sleep(0)\n\n\nBATCHES = [{(1, "/x/../y")}]\nPATHS = ["/x/../y"]\nWANT = [("CREATE", "/x/../y")]\n\nasync def main():\n    from unittest import mock\n    from watchfiles import Change\n    from frequenz.channels import file_watcher as fw\n\n    async def fake(*paths, watch_filter, **kwargs):\n        for batch in BATCHES:\n            if wanted := {c for c in batch if watch_filter(*c)}:\n                yield wanted\n\n    with mock.patch.object(fw, "awatch", fake):\n        w = fw.FileWatcher(PATHS)\n    got = [(e.type.name, str(e.path)) async for e in w]\n    check(got == WANT, f"{got}")\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n'
