"""The clock of the time module and the seed of the random module, as the code under test sees them.

knx_stack reads neither today; should it ever, it gets simulated time and repeatable numbers. The date starts anywhere
and is set forwards and backwards during some cases; the monotonic clocks only go on, from any value."""
import datetime
import random
import time

real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "sleep")}
EPOCH = 1.7e9
loop = None          # the simulated loop whose time it is
active = False
epoch, boot, jumps = EPOCH, 0.0, []      # of this case


def _now():
    return loop.now if loop is not None else 0.0


def wall():
    now = _now()
    return epoch + now + sum(d for t, d in jumps if t <= now)


def mono():
    return boot + _now()


def _function(name, clock, scale=None):
    original = getattr(time, name)

    def read():
        if not active:
            return original()
        return clock() if scale is None else int(clock() * scale)
    read.__name__ = name
    return read


class _DateTime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(wall(), tz) if active else super().now(tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(wall(), datetime.timezone.utc).replace(tzinfo=None) if active else super().utcnow()

    @classmethod
    def today(cls):
        return cls.now()


def install():
    datetime.datetime = _DateTime
    for name, clock in (("time", wall), ("monotonic", mono), ("perf_counter", mono)):
        setattr(time, name, _function(name, clock))
        setattr(time, name + "_ns", _function(name + "_ns", clock, 10 ** 9))

    def sleep(seconds):
        """a blocking sleep lets the simulated time pass and nothing else happen"""
        if not active:
            return real["sleep"](seconds)
        if loop is not None:
            loop.now += max(0.0, seconds)
    time.sleep = sleep


def begin(cfg=None):
    """a case starts"""
    global active, loop, epoch, boot, jumps
    cfg = cfg or {}
    epoch, boot, jumps = cfg.get("epoch", EPOCH), cfg.get("boot", 0.0), cfg.get("jumps", [])
    active, loop = True, None
    random.seed(0)


def happened():
    """how often the date was set in this case"""
    return sum(1 for t, _ in jumps if t <= _now())


def end():
    global active, loop
    active, loop = False, None
