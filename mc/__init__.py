"""Stateless model checker for frequenz.channels (runs the real code under a controlled asyncio loop)."""

import sys as _sys

_sys.dont_write_bytecode = True
