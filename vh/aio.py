"""Driving coroutines, and documents with asynchronous item getters."""
from __future__ import annotations

import asyncio
import os
from collections.abc import Mapping, Sequence




class _Pause:
    """Suspends a coroutine once."""

    def __await__(self):
        yield None


_LOOPS = {}


def drive(coro):
    """Run a coroutine to its end, on one event loop per process."""
    pid = os.getpid()
    loop = _LOOPS.get(pid)
    if loop is None:
        loop = _LOOPS[pid] = asyncio.new_event_loop()
    return loop.run_until_complete(coro)


async def collect(aiter):
    return [x async for x in aiter]


async def acollect(coro):
    """The matches of a finditer_async() call."""
    return [x async for x in await coro]


class AMap(Mapping):
    """An object whose members can be had asynchronously."""

    def __init__(self, d, pause=False):
        self._d = d
        self._pause = pause
        self.gets = 0

    def __getitem__(self, k):
        return self._d[k]

    async def __getitem_async__(self, k):
        self.gets += 1
        if self._pause:
            await _Pause()
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __repr__(self):
        return repr(self.__plain__())

    def __plain__(self):
        return dict(self._d)


class ASeq(Sequence):
    """An array whose items can be had asynchronously."""

    def __init__(self, a, pause=False):
        self._a = a
        self._pause = pause
        self.gets = 0

    def __getitem__(self, k):
        return self._a[k]

    async def __getitem_async__(self, k):
        self.gets += 1
        if self._pause:
            await _Pause()
        return self._a[k]

    def __len__(self):
        return len(self._a)

    def __repr__(self):
        return repr(self.__plain__())

    def __plain__(self):
        return list(self._a)


def wrap(v, pause=False):
    """The same document built from containers with asynchronous item getters."""
    if isinstance(v, dict):
        return AMap({k: wrap(x, pause) for k, x in v.items()}, pause)
    if isinstance(v, list):
        return ASeq([wrap(x, pause) for x in v], pause)
    return v
