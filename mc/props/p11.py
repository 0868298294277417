"""P11: insert_ordered keeps a trace in the order of its timestamps."""
import itertools
from datetime import datetime, timedelta, timezone
from mc import looks, model as reference
from mc.core import Family, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = []
BASE = datetime(2016, 3, 27, 0, 59, 59, 999000, tzinfo=timezone.utc)
# instants; equal ones are written in different zones
STAMPS = [BASE, (BASE + timedelta(milliseconds=1)).astimezone(timezone(timedelta(hours=9))),
          (BASE + timedelta(milliseconds=1)).astimezone(timezone(timedelta(hours=-9, minutes=-30))),
          BASE + timedelta(days=1), BASE - timedelta(microseconds=1), datetime(1969, 12, 31, 23, 0, tzinfo=timezone(timedelta(minutes=-90)))]
# without zone, in zones, and in the hour which comes twice
MIXED = [reference.TWICE[0], reference.TWICE[1], reference.TWICE[2], datetime(2020, 10, 25, 0, 40), datetime(2020, 10, 25, 1, 10, tzinfo=timezone.utc),
         datetime(2021, 1, 1, 0, 5, tzinfo=timezone(timedelta(hours=14))), datetime(2020, 12, 31, 12, tzinfo=timezone.utc)]
NAIVE = [datetime(2016, 1, 1), datetime(2016, 1, 1, 0, 0, 0, 1), datetime(1969, 1, 1), datetime(2016, 1, 2)]


def event(stamp, number):
    from opyenxes.factory.XFactory import XFactory
    result = XFactory.create_event()
    if stamp is not None:
        result.get_attributes()["time:timestamp"] = XFactory.create_attribute_timestamp("time:timestamp", stamp, None)
    result.get_attributes()["n"] = XFactory.create_attribute_discrete("n", number, None)
    return result


def place(stamps, stamp):
    """After the last event that is not later; at the end if an event without timestamp is behind that."""
    for i in reversed(range(len(stamps))):
        if stamps[i] is None:
            return len(stamps)
        if reference.microseconds(stamps[i]) <= reference.microseconds(stamp):
            return i + 1
    return 0


def check(ctx, stamps, initial=()):
    """Inserts the stamps one by one; `initial` was appended before."""
    from opyenxes.factory.XFactory import XFactory
    trace = XFactory.create_trace()
    model = []
    for stamp in initial:
        one = event(stamp, len(model))
        trace.append(one)
        model.append((stamp, one))
    for stamp in stamps:
        one = event(stamp, len(model))
        others = list(model)
        index = trace.insert_ordered(one)
        ctx.step()
        same(len(trace), len(others) + 1, "length of the trace")
        expect(type(index) is int and 0 <= index < len(trace) and trace[index] is one, "returned index", index,
               "is not the place of the event")
        rest = [e for e in trace if e is not one]
        expect(all(a is b for a, (_, b) in zip(rest, others)) and len(rest) == len(others), "other events were moved")
        if stamp is None:
            same(index, len(others), "place of an event without timestamp")
        else:
            same(index, place([s for s, _ in others], stamp), "place in the trace")
        model = others[:index] + [(stamp, one)] + others[index:]
        if all(s is not None for s, _ in model) and not initial:
            seen = [reference.microseconds(s) for s, _ in model]
            same(seen, sorted(seen), "order of the trace")
    ctx.state(repr([None if s is None else str(s) for s, _ in model]))


def cases(alphabet, length):
    for n in range(length + 1):
        for chosen in itertools.product(range(alphabet), repeat=n):
            yield list(chosen)


def after_cases(length):
    for n in range(length + 1):
        for initial in itertools.product(range(len(STAMPS) + 1), repeat=n):
            for added in itertools.product(range(len(STAMPS) + 1), repeat=2):
                yield [list(initial), list(added)]


def long_cases():
    for n in list(range(1, 34)) + [64, 100, 257]:
        for way in ("up", "down", "inside", "same", "zigzag"):
            yield [n, way]


def long_run(ctx, case):
    n, way = case
    numbers = {"up": range(n), "down": range(n, 0, -1), "inside": [(i * 7919) % n for i in range(n)], "same": [5] * n,
               "zigzag": [i if i % 2 else -i for i in range(n)]}[way]
    check(ctx, [BASE + timedelta(seconds=k) for k in numbers])


def inside_cases():
    """An event that is in the trace already, or has the id of one, is inserted
    again: as it is, or with another timestamp."""
    for n in range(1, 5):
        for initial in itertools.product(range(5), repeat=n):
            for which in range(n):
                for way in ("same", "same id", "clone"):
                    yield [list(initial), which, way]


def inside(ctx, case):
    from opyenxes.factory.XFactory import XFactory
    initial, which, way = case
    pick = (STAMPS[:4] + [None]).__getitem__
    trace = XFactory.create_trace()
    stamps = [pick(i) for i in initial]
    for number, stamp in enumerate(stamps):
        trace.append(event(stamp, number))
    before = list(trace)
    one = trace[which]
    if way == "clone":
        one = one.clone()
    elif way == "same id":
        one = event(stamps[which], 99)
        one.set_id(trace[which].get_id())
    index = trace.insert_ordered(one)
    wanted = len(before) if stamps[which] is None else place(stamps, stamps[which])
    same(index, wanted, "place in the trace")
    after = before[:wanted] + [one] + before[wanted:]
    expect(len(trace) == len(after) and all(a is b for a, b in zip(trace, after)), "events were moved, lost or replaced")
    same([reference.seen_map(e.get_attributes()) for e in trace], [reference.seen_map(e.get_attributes()) for e in after], "events")
    ctx.state(repr((initial, which)))
    ctx.step()


def families(tier):
    quick = tier == "quick"
    pick = (STAMPS + [None]).__getitem__
    return [
        looks.family("P11"),
        Family("timestamps", lambda _: cases(len(STAMPS), 6 if quick else 7), lambda ctx, c: check(ctx, [STAMPS[i] for i in c])),
        Family("with-missing", lambda _: cases(len(STAMPS) + 1, 5 if quick else 6), lambda ctx, c: check(ctx, [pick(i) for i in c])),
        Family("without-zone", lambda _: cases(len(NAIVE), 6), lambda ctx, c: check(ctx, [NAIVE[i] for i in c])),
        Family("mixed-zones", lambda _: cases(len(MIXED), 5 if quick else 6), lambda ctx, c: check(ctx, [MIXED[i] for i in c])),
        Family("into-a-trace", lambda _: after_cases(3 if quick else 4),
               lambda ctx, c: check(ctx, [pick(i) for i in c[1]], [pick(i) for i in c[0]])),
        Family("inside", lambda _: inside_cases(), inside),
        Family("long-traces", lambda _: long_cases(), long_run),
    ]
