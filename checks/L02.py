"""
L02: lease maintenance always runs again in time.
"""

import os
from datetime import datetime, timedelta

from twisted.internet.defer import Deferred
from twisted.internet.task import Clock
from twisted.python.filepath import FilePath

from _zkapauthorizer.lease_maintenance import (
    LeaseMaintenanceConfig,
    lease_maintenance_service,
)

from mc import zk
from mc.core import check
from mc.runner import Check, Scenario

START = 1_700_000_000
EPOCH = datetime(1970, 1, 1)

CONFIGS = {
    "default": (timedelta(days=26), timedelta(days=4)),
    "exact": (timedelta(seconds=100), timedelta(0)),
    "wide": (timedelta(days=1), timedelta(days=4)),
    "odd": (timedelta(seconds=1), timedelta(microseconds=1)),
}


class Trouble(Exception):
    pass


class Extreme:
    """
    A source of random numbers that are as extreme as they can be.
    """

    def __init__(self, ch):
        self.ch = ch

    def uniform(self, a, b):
        return self.ch.pick([a, b], "random")


class RecordPath(FilePath):
    broken = False

    def setContent(self, *a, **kw):
        if self.broken:
            raise OSError(28, "No space left on device")
        return FilePath.setContent(self, *a, **kw)


def records(low, high):
    """
    :return: {name: (content, time or None)}
    """

    def at(seconds):
        when = EPOCH + timedelta(seconds=START + seconds)
        return (when.isoformat().encode(), START + seconds)

    mean = (low + high) / 2
    return {
        "missing": (None, None),
        "empty": (b"", None),
        "cut": (at(-5)[0][:7], None),
        "no time": (at(-5)[0][:10], None),
        "not ascii": (b"\xff\xfe" * 9, None),
        "nul bytes": (b"\0" * 19, None),
        "month 13": (b"2023-13-01T00:00:00", None),
        "other zone": (at(-5)[0] + b"+02:00", None),
        "now": at(0),
        "a moment ago": at(-0.25),
        "low ago": at(-low),
        "mean ago": at(-mean),
        "high ago": at(-high),
        "long ago": at(-40 * high - 40),
        "epoch": (b"1970-01-01T00:00:00", 0),
        "first year": (b"0001-01-01T00:00:00", -62135596800),
        "near future": at(+1),
        "far future": at(+10**8),
    }


class World:
    def __init__(self, ch, config, path):
        self.ch = ch
        mean, range_ = CONFIGS[config]
        self.low = max(0, (mean - range_ // 2).total_seconds())
        self.high = (mean + range_ // 2).total_seconds()
        self.config = LeaseMaintenanceConfig(mean, range_, timedelta(0))
        self.path = path
        self.clock = Clock()
        self.clock.advance(START)
        self.service = None
        self.ops = []  # in flight, of any process
        self.started = 0

    async def operation(self):
        check(
            not [o for o in self.ops if o[1] is self.service],
            "a run starts while another one is still going on",
        )
        d = Deferred()
        self.ops.append((d, self.service))
        self.started += 1
        how = self.ch.pick(["later", "at once", "fails"], "run")
        if how == "at once":
            self.ops.pop()
            return
        if how == "fails":
            self.ops.pop()
            raise Trouble("maintenance")
        await d

    def process(self):
        self.was_started = False
        self.service = lease_maintenance_service(
            self.operation, self.clock, self.path, Extreme(self.ch), self.config
        )

    def fire(self):
        """
        The one thing that is scheduled happens.
        """
        [c] = self.clock.getDelayedCalls()
        self.clock.calls.remove(c)
        self.clock.rightNow = max(self.clock.rightNow, c.getTime())
        c.called = 1
        c.func(*c.args, **c.kw)

    def calls(self):
        return [c.getTime() for c in self.clock.getDelayedCalls()]


def timer(b):
    def scenario(ch):
        config = ch.pick(b["configs"], "config")
        path = RecordPath(zk.fresh_path("last-run"))
        w = World(ch, config, path)
        kind = ch.pick(list(records(w.low, w.high)), "record")
        content, last = records(w.low, w.high)[kind]
        try:
            if content is not None:
                with open(path.path, "wb") as f:
                    f.write(content)
            w.process()
            running = False
            due = None  # (earliest, latest) time of the next run

            def scheduled(base, what, low=w.low):
                """
                The interval counts from ``base``.
                """
                now = w.clock.seconds()
                check(len(w.calls()) == 1, "not one next run is scheduled", after=what, calls=w.calls())
                [t] = w.calls()
                base = now if base is None else min(base, now)
                eps = 1e-3
                check(
                    max(now, base + low) - eps <= t <= max(now, base + w.high) + eps,
                    "the next run is not within the configured interval of the last one",
                    after=what,
                    now=now,
                    base=base,
                    interval=(w.low, w.high),
                    scheduled=t,
                )

            def finished(before):
                """
                A run came to its end.
                """
                if running:
                    scheduled(w.clock.seconds(), "a run")
                else:
                    check(w.calls() == [], "a run is scheduled after the service was stopped")
                if not path.broken:
                    with open(path.path, "rb") as f:
                        text = f.read().decode("ascii")
                    check(
                        abs((datetime.fromisoformat(text) - EPOCH).total_seconds() - w.clock.seconds()) < 1e-3,
                        "the record of the last run is not updated",
                        record=text,
                    )

            for step in range(b["depth"]):
                # The service of this process is going on with a run.
                busy = [o for o in w.ops if o[1] is w.service]
                events = ["end"]
                if running:
                    events.append("stop")
                    if not busy:
                        events += ["due", "half"]
                elif not busy:
                    events.append("start")
                events.append("new process")
                if busy:
                    events += ["done", "failed"]
                if not path.broken and step < 2 and b["broken"]:
                    events.append("disk full")
                e = ch.pick(events, "event")
                if e == "end":
                    break
                if e == "start":
                    w.service.startService()
                    running = True
                    # The record is read when the process starts.
                    if w.was_started:
                        scheduled(None, "another start", low=0)
                    else:
                        scheduled(last, "the start")
                    w.was_started = True
                elif e == "stop":
                    d = w.service.stopService()
                    running = False
                    check(w.calls() == [], "a run remains scheduled after the service was stopped")
                    if isinstance(d, Deferred):
                        errors = []
                        d.addErrback(errors.append)
                        check(not errors, "stopping the service fails", errors=errors)
                elif e == "half":
                    before = w.started
                    [t] = w.calls()
                    if t > w.clock.seconds():
                        w.clock.advance((t - w.clock.seconds()) / 2)
                    check(w.started == before or w.calls() == [], "a run starts early")
                elif e == "due":
                    before = w.started
                    w.fire()
                    check(w.started == before + 1, "no run, or several, at the time of the next one")
                    if [o for o in w.ops if o[1] is w.service]:
                        check(w.calls() == [], "another run is scheduled during a run")
                    else:
                        finished(before)
                        if not path.broken:
                            last = w.clock.seconds()
                elif e in ("done", "failed"):
                    w.clock.advance(7)
                    check(w.calls() == [], "another run is scheduled during a run")
                    [item] = busy
                    w.ops.remove(item)
                    if e == "done":
                        item[0].callback(None)
                    else:
                        item[0].errback(Trouble("later"))
                    finished(w.started)
                    if not path.broken:
                        last = w.clock.seconds()
                elif e == "new process":
                    # everything of the old one is gone
                    for c in w.clock.getDelayedCalls():
                        c.cancel()
                    del w.ops[:]
                    running = False
                    w.process()
                elif e == "disk full":
                    path.broken = True
                if not running:
                    check(w.calls() == [], "a run is scheduled while the service is stopped")
            return "%d runs" % w.started
        finally:
            if os.path.exists(path.path):
                os.unlink(path.path)

    return scenario


CHECK = Check(
    "L02",
    "model_checking",
    "all sequences of events up to the depth for all configurations, records and extreme random choices",
    [
        "within one process the service is not started again while its previous run goes on",
        "time comes from a model clock; the record is a real file",
    ],
    [
        Scenario(
            "records",
            timer,
            quick=dict(configs=list(CONFIGS), depth=4, broken=False),
            thorough=dict(configs=list(CONFIGS), depth=6, broken=False),
        ),
        Scenario(
            "histories",
            timer,
            quick=dict(configs=["wide"], depth=5, broken=True),
            thorough=dict(configs=["default", "wide"], depth=7, broken=True),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
