"""A clock that only advances when the code under test sleeps, for schedules."""
import asyncio
import contextlib
import datetime as real
import types
from unittest import mock

import schedule

from vectorbt.utils import schedule_


class _Proxy:
    def __init__(self, target, **over):
        self.__dict__.update(over)
        self._target = target

    def __getattr__(self, name):
        return getattr(self._target, name)


class FakeClock:
    """`now` is naive local time. Sleeping while nothing is due skips whole sleeps up to the next run of `scheduler`."""

    def __init__(self, now, scheduler=None, limit=20000):
        self.now = now
        self.scheduler = scheduler
        self.sleeps = 0
        self.limit = limit
        clock = self

        class Meta(type):
            def __instancecheck__(cls, obj):
                return isinstance(obj, real.datetime)

        class Fake(real.datetime, metaclass=Meta):
            @classmethod
            def now(cls, tz=None):
                return clock.now if tz is None else clock.now.astimezone(tz)

        self.datetime = Fake

    def sleep(self, seconds):
        self.sleeps += 1
        if self.sleeps > self.limit:
            raise RuntimeError("the schedule never finished")
        n = 1
        if self.scheduler is not None and seconds > 0:
            due = [j.next_run for j in self.scheduler.jobs if j.next_run is not None]
            if due and min(due) > self.now:
                n = max(1, -int(-(min(due) - self.now).total_seconds() // seconds))
        self.now = self.now + real.timedelta(seconds=seconds * n)

    async def async_sleep(self, seconds):
        if seconds:
            self.sleep(seconds)
        await asyncio.sleep(0)

    @contextlib.contextmanager
    def patched(self):
        with mock.patch.object(schedule, "datetime", _Proxy(real, datetime=self.datetime)), \
                mock.patch.object(schedule_, "datetime", self.datetime), \
                mock.patch.object(schedule_, "time", _Proxy(schedule_.time, sleep=self.sleep)), \
                mock.patch.object(schedule_, "asyncio", _Proxy(asyncio, sleep=self.async_sleep)):
            yield self
