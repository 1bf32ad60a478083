"""Helpers to write bug descriptions: bug(...) creates <id>.py."""
import pathlib
HEAD = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)

'''
def bug(ident, prop, needs, breaks, edits, demo, head=HEAD):
    demo = head + "\n" + demo.strip() + "\n\n\nasyncio.run(asyncio.wait_for(main(), 20))\n"
    (pathlib.Path(__file__).parent / "bugs" / f"{ident}.py").write_text(f"PROPERTY = {prop!r}\nNEEDS = {needs!r}\nBREAKS = {breaks!r}\nEDITS = {edits!r}\nDEMO = {demo!r}\n")
