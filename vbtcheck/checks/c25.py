"""C25: schedules and date parsing.

Oracle: an independent calendar model of every notation (next matching instant strictly after the last run), observed at the polls of a
simulated clock over whole histories with cancellations and deadlines; pandas and integer arithmetic for conversions."""
import asyncio
import datetime as D
import os
import random
import time as time_
import zoneinfo

import numpy as np
import pandas as pd
import pytz
from hypothesis import strategies as st
from schedule import CancelJob

import vectorbt as vbt  # noqa: F401
from vectorbt.base.array_wrapper import ArrayWrapper
from vectorbt.utils import datetime_ as dt_
from vectorbt.utils.schedule_ import ScheduleManager

from vbtcheck.clock import FakeClock
from vbtcheck.core import Facet
from vbtcheck.util import need, weighted

ASSUMPTIONS = [
    "The local time zone has no daylight saving time while a schedule runs.",
    "The manager polls at its sleep interval; a job runs at the first poll at or after its due instant.",
    "Integer timestamps have at most eleven digits in seconds, twelve to fourteen in milliseconds, and three more per finer unit.",
]

UNITS = dict(seconds=1, minutes=60, hours=3600, days=86400, weeks=604800)
DAYS = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]


# ---------------------------------------------------------------- model of a notation

def next_due(job, ref):
    """Next instant (or range of instants) after `ref`, by enumeration of the calendar."""
    kind, n = job["kind"], job["n"]
    if kind in ("interval", "delta"):
        step = D.timedelta(seconds=UNITS[job["unit"]] if kind == "interval" else 1)
        if job.get("to"):
            return ref + n * step, ref + job["to"] * step
        return (ref + n * step,) * 2
    h, m, s = job["at"]
    if kind == "weekday":
        for k in range(0, 9):
            day = ref + D.timedelta(days=k)
            if job["at_given"]:
                day = day.replace(hour=h, minute=m, second=s, microsecond=0)
            if DAYS[day.weekday()] == job["day"] and day > ref:
                return day, day
    if kind == "daily":
        cand = ref.replace(hour=h, minute=m, second=s, microsecond=0)
        step = D.timedelta(days=1)
    elif kind == "hourly":
        cand = ref.replace(minute=m, second=s, microsecond=0)
        step = D.timedelta(hours=1)
    else:
        cand = ref.replace(second=s, microsecond=0)
        step = D.timedelta(minutes=1)
    if n == 1:
        while cand <= ref:
            cand += step
    else:
        # the clock time N units ahead of the current one
        cand += n * step
    return cand, cand


@st.composite
def s_job(draw):
    kind = draw(weighted((4, "interval"), (1, "delta"), (3, "daily"), (2, "hourly"), (2, "minutely"), (3, "weekday")))
    c = dict(kind=kind, n=draw(weighted((3, 1), (1, 2), (1, 3), (1, 7))), at=draw(st.tuples(st.integers(0, 23), st.integers(0, 59), weighted((2, 0), (1, 15), (1, 59)))),
             at_given=True, at_kind=draw(st.sampled_from(["str", "str_s", "time", "aware"])), tz=draw(st.sampled_from([-300, 0, 60, 330, 540])),
             singular=draw(st.booleans()), implicit=draw(st.booleans()), tags=draw(st.sampled_from([None, "x", ["x", "y"], "y", ["z"]])))
    if kind == "interval":
        c["unit"] = draw(st.sampled_from(sorted(UNITS)))
        c["to"] = c["n"] + draw(st.integers(0, 4)) if draw(st.integers(0, 3)) == 3 else None
        c["implicit"] = c["implicit"] and c["unit"] == "seconds"
    elif kind == "delta":
        c["n"] = draw(st.sampled_from([1, 5, 90, 3600, 5400, 86400]))
    elif kind == "weekday":
        c["n"] = 1
        c["day"] = draw(st.sampled_from(DAYS))
        c["at_given"] = draw(st.booleans())
    elif kind == "hourly":
        c["at"] = (0,) + tuple(c["at"][1:])
    elif kind == "minutely":
        c["at"] = (0, 0, c["at"][2])
    c["stop"] = draw(weighted((4, None), (1, "return"), (1, "cancel"), (1, "clear"), (1, "until")))
    c["stop_after"] = draw(st.integers(1, 4))
    c["coro"] = draw(st.booleans())
    return c


@st.composite
def s_schedule(draw):
    return dict(start=dict(day=draw(st.integers(0, 400)), sec=draw(st.one_of(st.integers(0, 86399), st.sampled_from([0, 3600, 43200, 86399]))),
                           us=draw(weighted((3, 0), (1, 1), (1, 500000), (1, 999999)))),
                jobs=draw(st.lists(s_job(), min_size=1, max_size=4)), sleep=draw(weighted((3, 1), (1, 2), (1, 5), (1, 30))),
                mode=draw(st.sampled_from(["sync", "async", "background"])), polls=draw(st.integers(5, 40)),
                tz=draw(st.sampled_from([None, None, "Asia/Tokyo", "Asia/Kolkata", "America/Bogota"])), seed=draw(st.integers(0, 99)),
                stop_at=draw(st.integers(3, 30)), run_all=draw(weighted((4, None), (1, 3))))


class LocalZone:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get("TZ")
        if self.name is not None:
            os.environ["TZ"] = self.name
            time_.tzset()

    def __exit__(self, *a):
        if self.name is not None:
            if self.old is None:
                del os.environ["TZ"]
            else:
                os.environ["TZ"] = self.old
            time_.tzset()


def local_offset(name):
    return {None: 0, "Asia/Tokyo": 540, "Asia/Kolkata": 330, "America/Bogota": -300}[name]


class Clock(FakeClock):
    """Stops the manager after a number of visited polls; calls `hook(now)` at each of them before anything runs."""

    def __init__(self, now, scheduler, hook, polls):
        super().__init__(now, scheduler, limit=100000)
        self.hook, self.polls, self.visited = hook, polls, [now]

    def sleep(self, seconds):
        super().sleep(seconds)
        self.visited.append(self.now)
        self.hook(self.now)
        if len(self.visited) >= self.polls:
            raise asyncio.CancelledError()


def job_args(j, tz):
    """Positional arguments of ScheduleManager.every for the notation, and the effective clock time."""
    args = []
    at = tuple(j["at"])
    if j["kind"] == "delta":
        return [D.timedelta(seconds=j["n"])], at
    if j["kind"] == "interval":
        unit = j["unit"][:-1] if j["n"] == 1 and j["singular"] else j["unit"]
        if not (j["n"] == 1 and j["singular"]):
            args.append(j["n"])
        if not j["implicit"]:
            args.append(unit)
        return args, at
    if j["kind"] == "weekday":
        if j["implicit"]:
            args.append("week" if j["singular"] else "weeks")
        args.append(j["day"])
        if not j["at_given"]:
            return args, at
    else:
        unit = dict(daily="days", hourly="hours", minutely="minutes")[j["kind"]]
        if j["n"] != 1 or not j["singular"]:
            args.append(j["n"])
        if not (j["kind"] == "daily" and j["implicit"]):
            args.append(unit[:-1] if j["n"] == 1 and j["singular"] else unit)
    h, m, s = at
    if j["at_kind"] in ("time", "aware"):
        t = D.time(h, m, s)
        if j["at_kind"] == "aware":
            shift = local_offset(tz) - j["tz"]
            t = t.replace(tzinfo=D.timezone(D.timedelta(minutes=j["tz"])))
            total = (h * 60 + m + shift) % 1440
            h, m = total // 60, total % 60
        args.append(t)
        return args, (h, m, s)
    if j["kind"] in ("daily", "weekday"):
        if j["at_kind"] == "str":
            s = 0
        args.append("%02d:%02d" % (h, m) + (":%02d" % s if j["at_kind"] == "str_s" else ""))
    elif j["kind"] == "hourly":
        if j["at_kind"] == "str":
            m = m if j["n"] != 1 else m
        args.append("%02d:%02d" % (m, s))
    else:
        args.append(":%02d" % s)
    return args, (h, m, s)


def c_schedule(c):
    with LocalZone(c["tz"]):
        return _c_schedule(c)


def _c_schedule(c):
    random.seed(c["seed"])
    start = D.datetime(2023, 1, 1) + D.timedelta(days=c["start"]["day"], seconds=c["start"]["sec"], microseconds=c["start"]["us"])
    manager = ScheduleManager()
    sched = manager.scheduler
    jobs, fires, models = [], [], []
    clock_box = []

    def log(i):
        fires.append((i, clock_box[0].now))
        return len([1 for k, _ in fires if k == i])

    def hook(now):
        polls[0] += 1
        for i, j in enumerate(c["jobs"]):
            if j["stop"] in ("cancel", "clear") and polls[0] == j["stop_after"] * 3 and i not in removed:
                events.append((now, i, j["stop"]))
                if j["stop"] == "cancel":
                    sched.cancel_job(jobs[i])
                    removed[i] = now
                else:
                    tag = models[i]["tag"]
                    sched.clear(tag)
                    for k, mm in enumerate(models):
                        if (tag is None or tag in mm["tags"]) and k not in removed:
                            removed[k] = now
        if c["run_all"] and polls[0] == c["run_all"] and c["mode"] == "sync":
            alive = [k for k in range(len(jobs)) if jobs[k] in sched.jobs]
            run_all_at.append((now, alive))
            sched.run_all()
    polls, removed, events, run_all_at = [0], {}, [], []
    clock = Clock(start, sched, hook, c["polls"])
    clock_box.append(clock)
    labels = [c["mode"]]
    with clock.patched():
        for i, j in enumerate(c["jobs"]):
            args, at = job_args(j, c["tz"])
            tags = j["tags"]
            kw = {} if tags is None else dict(tags=tags if not isinstance(tags, list) or i % 2 else tuple(tags))
            if j.get("to"):
                kw["to"] = j["to"]
            text = "every(%s, %s)" % (", ".join(map(repr, args)), kw)
            job = manager.every(*args, **kw)
            exp_tags = set() if tags is None else ({tags} if isinstance(tags, str) else set(tags))
            need(set(job.tags) == exp_tags, "%s: tags %s" % (text, job.tags))
            if j["stop"] == "until":
                # a deadline between two runs, or exactly at one
                lo, hi = next_due(dict(j, at=at), start)
                job = job.until(hi + (hi - start) * (j["stop_after"] - 1) + D.timedelta(seconds=j["stop_after"] % 2))
            if j["stop"] == "return":
                def f(i=i, j=j):
                    return CancelJob if log(i) >= j["stop_after"] else 5
            elif j["coro"] and c["mode"] != "sync":
                async def f(i=i):
                    log(i)
            else:
                def f(i=i):
                    log(i)
            job.do(f)
            jobs.append(job)
            models.append(dict(j, at=at, text=text, tags=exp_tags, tag=sorted(exp_tags)[0] if exp_tags else None,
                               until=job.cancel_after))
        need(list(sched.jobs) == jobs, "the scheduler has other jobs than the ones created")
        if c["mode"] == "sync":
            manager.start(sleep=c["sleep"])
        elif c["mode"] == "async":
            asyncio.run(manager.async_start(sleep=c["sleep"]))
        else:
            background(c, manager, clock)
    visited = clock.visited
    grid = D.timedelta(seconds=c["sleep"])
    n_fires = 0
    for i, m in enumerate(models):
        got = [t for k, t in fires if k == i]
        n_fires += len(got)
        ref, count, alive = start, 0, True
        due = next_due(m, ref)
        gi = 0
        for t in visited:
            what = "%s created at %s, poll every %s s, mode %s, fires %s" % (m["text"], start, c["sleep"], c["mode"], [str(x) for x in got])
            if i in removed and removed[i] <= t:
                alive = False
            forced = [a for (w, a) in run_all_at if w == t and i in a]
            if forced:
                if m["until"] is not None and t > m["until"]:
                    alive = False
                elif alive or removed.get(i) == t:
                    need(gi < len(got) and got[gi] == t, "%s: no run at %s (run_all)" % (what, t))
                    gi, count, ref = gi + 1, count + 1, t
                    if m["stop"] == "return" and count >= m["stop_after"]:
                        alive = False
                    due = next_due(m, ref)
                    if m["until"] is not None and not m.get("to") and due[0] > m["until"]:
                        alive = False
            ran = gi < len(got) and got[gi] == t
            if not alive:
                need(not ran, "%s: ran at %s although it was over" % (what, t))
                continue
            if m["until"] is not None and t > m["until"]:
                need(not ran, "%s: ran at %s, after its deadline %s" % (what, t, m["until"]))
                alive = t < due[0]
                continue
            if ran:
                need(t >= due[0], "%s: ran at %s, due at %s" % (what, t, due[0]))
                # no earlier poll was in time
                need(t - grid < due[1], "%s: ran at %s although it was due by %s" % (what, t, due[1]))
                gi, count, ref = gi + 1, count + 1, t
                if m["stop"] == "return" and count >= m["stop_after"]:
                    alive = False
                due = next_due(m, ref)
                if m["until"] is not None and not m.get("to") and due[0] > m["until"]:
                    alive = False
                elif m["until"] is not None and m.get("to"):
                    alive = alive if (gi < len(got) or jobs[i] in sched.jobs) else False
            elif t is not visited[-1]:
                # the manager was stopped at the last poll
                need(t < due[1], "%s: did not run at %s, due at %s" % (what, t, due[1]))
        need(gi == len(got), "%s: ran at %s, not at a poll" % (m["text"], got[gi:]))
        if m["stop"] == "return" and count >= m["stop_after"]:
            need(jobs[i] not in sched.jobs, "%s: still scheduled after it cancelled itself" % m["text"])
        if i in removed:
            need(jobs[i] not in sched.jobs, "%s: still scheduled after it was cancelled" % m["text"])
    return (["nt"] if n_fires >= 2 else []) + labels + sorted({m["kind"] for m in models}) + sorted({str(m["stop"]) for m in models})


def background(c, manager, clock):
    async def main():
        need(not manager.async_task_running, "a manager that was not started claims to run")
        manager.start_in_background(sleep=c["sleep"])
        need(manager.async_task_running and manager.async_task is not None, "a started manager claims not to run")
        for _ in range(5000):
            await asyncio.sleep(0)
            if not manager.async_task_running or len(clock.visited) >= c["stop_at"]:
                break
        over = not manager.async_task_running
        manager.stop()
        for _ in range(10):
            await asyncio.sleep(0)
        need(not manager.async_task_running, "the manager still runs after it was stopped")
        n = len(clock.visited)
        for _ in range(10):
            await asyncio.sleep(0)
        need(len(clock.visited) == n, "the manager polled after it was stopped")
        manager.stop()
        return over
    asyncio.run(main())


# ---------------------------------------------------------------- facet: notation

@st.composite
def s_notation(draw):
    tok = st.sampled_from([1, 2, "second", "seconds", "day", "days", "hours", "weeks", "monday", "friday", "10:30", ":15", ["time", 9, 30], ["delta", 60],
                           "month", 1.5, "noon", None])
    return dict(args=draw(st.lists(tok, max_size=4)))


def c_notation(c):
    """Arguments in another order than (interval, unit, weekday, time) or of another kind are refused."""
    order, vals = [], []
    for a in c["args"]:
        if isinstance(a, list):
            vals.append(D.time(*a[1:]) if a[0] == "time" else D.timedelta(seconds=a[1]))
        else:
            vals.append(a)
        v = vals[-1]
        if isinstance(v, (int, D.timedelta)):
            order.append(0)
        elif isinstance(v, str) and v in ScheduleManager.units:
            order.append(1)
        elif isinstance(v, str) and v in DAYS:
            order.append(2)
        elif isinstance(v, D.time) or isinstance(v, str) and ":" in v:
            order.append(3)
        else:
            order.append(None)
    manager = ScheduleManager()
    bad = None in order or any(b <= a for a, b in zip(order, order[1:]) if a is not None and b is not None)
    if bad:
        try:
            job = manager.every(*vals)
        except ValueError:
            return ["nt", "refused"]
        except Exception as e:
            # the library refuses some combinations by itself
            need("schedule" in type(e).__module__, "every(%s): raised %r, expected a ValueError" % (vals, e))
            return ["nt", "refused"]
        need(False, "every(%s): returned %r, expected a ValueError" % (vals, job))
    if any(isinstance(v, D.timedelta) for v in vals):
        return []
    try:
        job = manager.every(*vals)
    except Exception as e:
        # singular units and weekdays need an interval of one, clock times need a unit that has them
        unit = [v for v in vals if v in ScheduleManager.units]
        at = order and order[-1] == 3
        ok = (2 in vals and (2 in order or any(not u.endswith("s") for u in unit))) or \
            (at and not (2 in order) and unit and unit[0] in ("second", "seconds", "week", "weeks")) or \
            (at and (":15" in vals or unit and unit[0] in ("hours",)))
        need(ok, "every(%s): raised %r" % (vals, e))
        return ["limits"]
    unit = [v for v in vals if isinstance(v, str) and v in ScheduleManager.units]
    exp = "weeks" if 2 in order else ((unit[0] if unit[0].endswith("s") else unit[0] + "s") if unit else ("days" if 3 in order else "seconds"))
    need(job.unit == exp, "every(%s): unit %s, expected %s" % (vals, job.unit, exp))
    need(job.interval == (2 if 2 in vals else 1), "every(%s): interval %s" % (vals, job.interval))
    need(job.start_day == ([v for v in vals if v in DAYS] or [None])[0], "every(%s): start day %s" % (vals, job.start_day))
    need((job.at_time is not None) == (3 in order), "every(%s): at %s" % (vals, job.at_time))
    return ["accepted", "nt" if len(vals) > 1 else "short"]


# ---------------------------------------------------------------- facet: instants

ZONES = ["Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "UTC"]
EPOCH = D.datetime(1970, 1, 1, tzinfo=D.timezone.utc)


@st.composite
def s_instant(draw):
    kind = draw(st.sampled_from(["float", "int", "str", "str_tz", "ts", "ts_tz", "np", "dt", "dt_zone", "dt_pytz", "dt_fixed"]))
    unit = draw(st.sampled_from(["s", "ms", "us", "ns"]))
    return dict(kind=kind, unit=unit, np_unit=draw(st.sampled_from(["D", "h", "m", "s", "ms", "us", "ns"])),
                day=draw(st.integers(-3000, 24000)), sec=draw(st.one_of(st.integers(0, 86399), st.sampled_from([0, 86399, 7200]))),
                us=draw(weighted((2, 0), (1, 1000), (1, 123456), (1, 999999))), zone=draw(st.sampled_from(ZONES)),
                off=draw(st.sampled_from([-570, -300, 0, 60, 330, 765])), naive=draw(st.sampled_from([None, 0, 60, -300, 330])),
                naive_kind=draw(st.sampled_from(["hours", "delta", "tz", "str"])),
                tz=draw(st.sampled_from([None, "hours", "delta", "tz", "str", "zone", "pytz"])), tzoff=draw(st.sampled_from([-300, 0, 60, 330])))


def zone_spec(kind, off, zone="Europe/Berlin"):
    if kind == "hours":
        return off / 60 if off % 60 else off // 60
    if kind == "delta":
        return D.timedelta(minutes=off)
    if kind == "tz":
        return D.timezone(D.timedelta(minutes=off))
    if kind == "str":
        return "%s%02d%02d" % ("-" if off < 0 else "+", abs(off) // 60, abs(off) % 60)
    if kind == "zone":
        return zone
    return pytz.timezone(zone)


def c_instant(c):
    naive = D.datetime(1970, 1, 1) + D.timedelta(days=c["day"], seconds=c["sec"], microseconds=c["us"])
    naive_off = 0 if c["naive"] is None else c["naive"]
    naive_tz = None if c["naive"] is None else zone_spec(c["naive_kind"], c["naive"])
    kind, tol = c["kind"], D.timedelta(0)
    base = naive.replace(tzinfo=D.timezone.utc)
    exp = None
    if kind == "float":
        x = (base - EPOCH).total_seconds()
        tol = D.timedelta(microseconds=1)
        exp = base
    elif kind == "int":
        per = dict(s=D.timedelta(seconds=1), ms=D.timedelta(milliseconds=1), us=D.timedelta(microseconds=1))
        n = (base - EPOCH) // per["s" if c["unit"] == "s" else ("ms" if c["unit"] == "ms" else "us")]
        x = n * 1000 if c["unit"] == "ns" else n
        exp = EPOCH + n * per["us" if c["unit"] == "ns" else c["unit"]]
        tol = D.timedelta(microseconds=1)
        lim = dict(s=0, ms=11, us=14, ns=17)[c["unit"]]
        if len(str(abs(x))) <= lim:
            return []
    elif kind == "str":
        x = naive.isoformat(sep=" ")
        exp = base - D.timedelta(minutes=naive_off)
    elif kind == "str_tz":
        x = naive.isoformat(sep=" ") + zone_spec("str", c["off"])
        exp = base - D.timedelta(minutes=c["off"])
    elif kind == "ts":
        x = pd.Timestamp(naive)
        exp = base - D.timedelta(minutes=naive_off)
    elif kind == "np":
        if c["np_unit"] == "ns" and not pd.Timestamp.min < pd.Timestamp(naive) < pd.Timestamp.max:
            return []
        x = np.datetime64(naive).astype("datetime64[%s]" % c["np_unit"])
        exp = x.astype("datetime64[us]").astype(D.datetime).replace(tzinfo=D.timezone.utc) - D.timedelta(minutes=naive_off)
    elif kind == "dt":
        x = naive
        exp = base - D.timedelta(minutes=naive_off)
    elif kind == "dt_zone":
        x = base.astimezone(zoneinfo.ZoneInfo(c["zone"]))
        exp = base
    elif kind == "dt_pytz":
        x = base.astimezone(pytz.timezone(c["zone"]))
        exp = base
    elif kind == "ts_tz":
        x = pd.Timestamp(base).tz_convert(c["zone"])
        exp = base
    else:
        x = base.astimezone(D.timezone(D.timedelta(minutes=c["off"])))
        exp = base
    tz = None if c["tz"] is None else zone_spec(c["tz"], c["tzoff"], c["zone"])
    what = "to_tzaware_datetime(%r, naive_tz=%r, tz=%r)" % (x, naive_tz, tz)
    got = dt_.to_tzaware_datetime(x, naive_tz=naive_tz, tz=tz)
    need(isinstance(got, D.datetime) and got.tzinfo is not None, "%s: got %r" % (what, got))
    need(abs(got - exp) <= tol, "%s: got %s, expected %s" % (what, got, exp))
    if c["tz"] in ("hours", "delta", "tz", "str"):
        need(got.utcoffset() == D.timedelta(minutes=c["tzoff"]), "%s: offset %s" % (what, got.utcoffset()))
    elif tz is None and kind in ("str", "ts", "np", "dt"):
        need(got.utcoffset() == D.timedelta(minutes=naive_off), "%s: offset %s" % (what, got.utcoffset()))
    ms = dt_.datetime_to_ms(got)
    need(ms == (got - EPOCH) // D.timedelta(milliseconds=1), "datetime_to_ms(%s): got %s" % (got, ms))
    back = dt_.to_tzaware_datetime(pd.Timestamp(ms, unit="ms", tz="UTC"))
    need(abs(back - got) < D.timedelta(milliseconds=1), "datetime_to_ms(%s) does not come back: %s" % (got, back))
    need(dt_.is_tz_aware(got) and not dt_.is_tz_aware(naive) and dt_.is_tz_aware(pd.Timestamp(base)) and not dt_.is_tz_aware(pd.Timestamp(naive)),
         "is_tz_aware is wrong")
    return ["nt", kind, str(c["tz"])]


# ---------------------------------------------------------------- facet: times

def s_times():
    off = st.sampled_from([-720, -570, -300, 0, 60, 330, 765])
    return st.fixed_dictionaries(dict(h=st.integers(0, 23), m=st.integers(0, 59), s=st.integers(0, 59), us=weighted((2, 0), (1, 7)), a=off, b=off,
                                      tz=st.sampled_from([None, "Asia/Tokyo", "Asia/Kolkata", "America/Bogota"]), local=st.booleans(),
                                      spec=st.sampled_from(["hours", "delta", "tz", "str"])))


def c_times(c):
    with LocalZone(c["tz"]):
        t = D.time(c["h"], c["m"], c["s"], c["us"])
        za, zb = (D.timezone(D.timedelta(minutes=c[k])) for k in "ab")
        loc = local_offset(c["tz"])

        def shifted(frm, to):
            total = (c["h"] * 60 + c["m"] + to - frm) % 1440
            return D.time(total // 60, total % 60, c["s"], c["us"])
        out, off = (None, loc) if c["local"] else (zb, c["b"])
        aware = t.replace(tzinfo=za)
        got = dt_.convert_tzaware_time(aware, out)
        need(got.replace(tzinfo=None) == shifted(c["a"], off) and got.utcoffset() == D.timedelta(minutes=off), "convert_tzaware_time(%s, %s): got %s" % (aware, out, got))
        got = dt_.tzaware_to_naive_time(aware, out)
        need(got.tzinfo is None and got == shifted(c["a"], off), "tzaware_to_naive_time(%s, %s): got %s" % (aware, out, got))
        got = dt_.naive_to_tzaware_time(t, zb)
        need(got.replace(tzinfo=None) == shifted(loc, c["b"]) and got.utcoffset() == D.timedelta(minutes=c["b"]), "naive_to_tzaware_time(%s, %s): got %s" % (t, zb, got))
        got = dt_.convert_naive_time(t, out)
        need(got.tzinfo is None and got == shifted(loc, off), "convert_naive_time(%s, %s): got %s" % (t, out, got))
        need(dt_.get_local_tz().utcoffset(None) == D.timedelta(minutes=loc), "get_local_tz: got %s" % dt_.get_local_tz())
        need(dt_.to_timezone(None).utcoffset(None) == D.timedelta(minutes=loc), "to_timezone(None): got %s" % dt_.to_timezone(None))
        spec = zone_spec(c["spec"], c["a"])
        got = dt_.to_timezone(spec)
        need(isinstance(got, D.timezone) and got.utcoffset(None) == D.timedelta(minutes=c["a"]), "to_timezone(%r): got %s" % (spec, got))
        for z in ZONES:
            now = D.datetime.now(D.timezone.utc)
            got = dt_.to_timezone(z)
            again = [zoneinfo.ZoneInfo(z).utcoffset(x.astimezone(zoneinfo.ZoneInfo(z)).replace(tzinfo=None)) for x in (now, now - D.timedelta(hours=14), now + D.timedelta(hours=14))]
            need(isinstance(got, D.timezone) and got.utcoffset(None) in again, "to_timezone(%r): got %s, expected %s" % (z, got, again))
            raw = dt_.to_timezone(z, to_py_timezone=False)
            need(str(raw) == z, "to_timezone(%r, to_py_timezone=False): got %r" % (z, raw))
    return ["nt" if c["a"] != off else "same", c["spec"]]


# ---------------------------------------------------------------- facet: durations

ABBR = dict(D=86400, d=86400, h=3600, min=60, m=60, s=1, W=604800, ms=0.001, us=0.000001, day=86400, hours=3600)


def s_durations():
    return st.fixed_dictionaries(dict(n=st.integers(1, 500), unit=st.sampled_from(sorted(ABBR)), unit2=st.sampled_from(["h", "min", "s"]), m=st.integers(1, 50),
                                      kind=st.sampled_from(["bare", "n", "n ", "two", "td", "pd", "np", "offset", "int"]), iv=st.sampled_from(["m", "h", "d", "w", "M", "y", ""]),
                                      bad=st.sampled_from(["", "x", "1", "h", "1.5h", "m5"]), off=st.sampled_from(["Day", "Hour", "Minute", "Second", "Week", "Milli"]),
                                      rows=st.integers(3, 6), fk=st.sampled_from(["freq", "inferred", "given"]), start=st.integers(0, 1000), wd=st.integers(0, 6)))


def ns(x):
    return int(round(x * 10**9))


def c_durations(c):
    n, u = c["n"], c["unit"]
    offs = dict(Day=86400, Hour=3600, Minute=60, Second=1, Week=604800, Milli=0.001)
    k = c["kind"]
    if k == "bare":
        x, exp = u, ns(ABBR[u])
    elif k == "n":
        x, exp = "%d%s" % (n, u), n * ns(ABBR[u])
    elif k == "n ":
        x, exp = "%d %s" % (n, u), n * ns(ABBR[u])
    elif k == "two":
        x, exp = "%dD %d%s" % (n, c["m"], c["unit2"]), n * ns(86400) + c["m"] * ns(ABBR[c["unit2"]])
    elif k == "td":
        x, exp = D.timedelta(minutes=n, seconds=c["m"]), ns(n * 60 + c["m"])
    elif k == "pd":
        x, exp = pd.Timedelta(n, unit="s"), ns(n)
    elif k == "np":
        x, exp = np.timedelta64(n, "m"), ns(n * 60)
    elif k == "offset":
        x = pd.offsets.Week(n, weekday=c["wd"]) if c["off"] == "Week" and c["m"] % 2 else getattr(pd.offsets, c["off"])(n)
        exp = n * ns(offs[c["off"]])
    else:
        x, exp = n, n
    got = dt_.freq_to_timedelta(x)
    need(isinstance(got, pd.Timedelta) and got == pd.Timedelta(exp, unit="ns"), "freq_to_timedelta(%r): got %s, expected %s ns" % (x, got, exp))
    # intervals of exchanges
    secs = dict(m=60, h=3600, d=86400, w=604800)
    iv = "%d%s" % (n, c["iv"])
    need(dt_.interval_to_ms(iv) == (n * secs[c["iv"]] * 1000 if c["iv"] in secs else None), "interval_to_ms(%r): got %r" % (iv, dt_.interval_to_ms(iv)))
    if c["iv"] in secs:
        need(pd.Timedelta(dt_.interval_to_ms(iv), unit="ms") == pd.Timedelta(iv.replace("w", "W")), "interval_to_ms(%r) does not agree with pandas" % iv)
    if c["bad"] != "":
        need(dt_.interval_to_ms(c["bad"]) is None, "interval_to_ms(%r): got %r" % (c["bad"], dt_.interval_to_ms(c["bad"])))
    # frequency of an index, and durations in it
    if k in ("bare", "n") and u not in ("ms", "us", "m", "day", "hours") or k == "offset":
        step = pd.Timedelta(exp, unit="ns")
        begin = pd.Timestamp("2020-01-05") + pd.Timedelta(c["start"], unit="h")
        if c["fk"] == "given":
            index, kw = pd.RangeIndex(c["rows"]), dict(freq=x)
        else:
            f = x
            if isinstance(x, str):
                f = {"d": "D", "bare": x}.get(x, x) if k == "bare" else x.replace("d", "D")
            try:
                index, kw = pd.date_range(begin, periods=c["rows"], freq=f), {}
            except (ValueError, OverflowError, pd.errors.OutOfBoundsDatetime):
                return ["nt", k]
            if c["fk"] == "inferred":
                index = pd.DatetimeIndex(list(index))
        w = ArrayWrapper(index, ["a"], 1, **kw)
        need(w.freq == step, "freq of %s (%s): got %s, expected %s" % (index, kw, w.freq, step))
        out = w.to_timedelta(np.array([0.0, 1.0, 2.0]))
        need([pd.Timedelta(v) for v in np.asarray(out)] == [pd.Timedelta(0), step, 2 * step], "to_timedelta with freq %s: got %s" % (step, out))
        return ["nt", k, c["fk"]]
    return ["nt", k]


FACETS = [
    Facet("schedule", s_schedule, c_schedule, 2500, 60000, "at least two runs in the history"),
    Facet("notation", s_notation, c_notation, 1500, 20000, "several arguments or a refusal"),
    Facet("instant", s_instant, c_instant, 3000, 60000, "always"),
    Facet("times", s_times, c_times, 1000, 20000, "the zones differ"),
    Facet("durations", s_durations, c_durations, 2000, 40000, "always"),
]
