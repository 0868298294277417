"""P29: a timer tells the time between its start and its stop; a duration's text adds up to the duration."""
import itertools
import re
import time
from mc.core import Family, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = []
UNITS = [("days", 86400000), ("hours", 3600000), ("minutes", 60000), ("seconds", 1000), ("milliseconds", 1)]
now = [1.6e9]


def patch():
    """Before the timer's module is imported: all clocks show the model's time."""
    for name in ("time", "monotonic", "perf_counter", "process_time"):
        setattr(time, name, lambda: now[0])
        setattr(time, name + "_ns", lambda: int(now[0] * 10 ** 9))


def timer():
    from opyenxes.utils.XTimer import XTimer
    return XTimer


def close(a, b):
    return abs(a - b) < 1e-3


def history(ctx, ops):
    from opyenxes.utils.XTimer import XTimer
    now[0] = 1.6e9
    timers, started, stopped = [XTimer()], [now[0]], [None]
    for op in ops:
        what, arg = op // 4, op % 4
        which = min(arg, len(timers) - 1)
        if what == 0:
            now[0] += [0.125, 1.0, 61.5, -2.0][arg]
        elif what == 1 and arg < 2:
            timers[which].start()
            started[which], stopped[which] = now[0], None
        elif what == 1:
            timers[which - (arg == 2 and which > 0)].stop()
            stopped[which - (arg == 2 and which > 0)] = now[0]
        elif what == 2 and len(timers) < 2:
            now[0] += 0.125 * arg
            timers.append(XTimer())
            started.append(now[0])
            stopped.append(None)
        for i, one in enumerate(timers):
            seen = one.get_duration()
            running = 1000 * (now[0] - started[i])
            if stopped[i] is None:
                expect(close(seen, running), "timer", i, "running since", running, "ms tells", seen)
            else:
                expect(close(seen, 1000 * (stopped[i] - started[i])), "timer", i, "stopped after",
                       1000 * (stopped[i] - started[i]), "ms tells", seen)
            same(one.get_duration_string(), XTimer.format_duration(seen), "text of the duration of timer %d" % i)
            ctx.step(2)
        ctx.state(repr([(now[0] - s, None if e is None else e - s) for s, e in zip(started, stopped)]))


def histories(depth):
    ops = list(range(9)) + [10]
    for n in range(depth + 1):
        for c in itertools.product(ops, repeat=n):
            yield list(c)


TEXT = re.compile(r"(?:(\d+) days, )?(?:(\d+) hours, )?(?:(\d+) minutes, )?(?:(\d+) seconds, )?(\d+) milliseconds\Z")
FLOAT = re.compile(TEXT.pattern.replace(r"(\d+)", r"(\d+(?:\.\d+)?(?:e-\d+)?)"))


def text(ctx, millis):
    for value in millis:
        shown = timer().format_duration(value)
        found = TEXT.match(shown)
        expect(found, "text of", value, "ms is", shown)
        numbers = [int(g or 0) for g in found.groups()]
        same(sum(n * size for n, (_, size) in zip(numbers, UNITS)), value, "duration the text %r stands for" % shown)
        for (unit, size), number, larger in list(zip(UNITS, numbers, [None] + UNITS))[1:]:
            expect(number * size <= larger[1], shown, "has", number, unit)
        floating = timer().format_duration(value + 0.5)
        found = FLOAT.match(floating)
        expect(found, "text of", value + 0.5, "ms is", floating)
        total = sum(float(g or 0) * size for g, (_, size) in zip(found.groups(), UNITS))
        expect(abs(total - value - 0.5) < 1e-3, "the text", floating, "of", value + 0.5, "ms stands for", total)
        ctx.step(2)
        ctx.state(shown)


def durations(quick):
    sizes = [1, 1000, 60000, 3600000, 86400000]
    near = sorted({max(0, m * size + d) for size in sizes for m in (1, 2, 9, 10, 23, 24, 25, 59, 60, 61, 99, 100, 999, 1000)
                   for d in (-1001, -1000, -2, -1, 0, 1, 2, 999, 1000, 1001)})
    yield near
    mixed = [sum(n * size for n, size in zip(c, sizes[::-1])) for c in itertools.product((0, 1, 3), (0, 1, 23), (0, 1, 59), (0, 1, 59), (0, 1, 999))]
    yield mixed
    for low in range(0, 130000, 1000):
        yield list(range(low, low + 1000))
    for low in range(3590000, 3610000, 1000):
        yield list(range(low, low + 1000))
    for low in range(86390000, 86410000, 1000):
        yield list(range(low, low + 1000))


def families(tier):
    quick = tier == "quick"
    patch()  # the workers have no other use of a clock
    import opyenxes.utils.XTimer  # noqa: F401
    return [Family("texts", lambda _: durations(quick), text),
            Family("histories", lambda _: histories(5 if quick else 6), history)]
