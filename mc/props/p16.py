"""P16: time boundaries are the earliest and the latest timestamp, in whatever order they are met."""
import copy
import itertools
import pickle
from datetime import datetime, timedelta, timezone
from mc import looks, model, spaces
from mc.core import Family, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = []
BASE = datetime(2016, 3, 27, 0, 59, 59, 999000, tzinfo=timezone.utc)
STAMPS = [BASE, (BASE + timedelta(milliseconds=1)).astimezone(timezone(timedelta(hours=9))),
          (BASE + timedelta(milliseconds=1)).astimezone(timezone(timedelta(hours=-9, minutes=-30))),
          BASE + timedelta(days=1), datetime(1969, 12, 31, 23, 0, tzinfo=timezone(timedelta(minutes=-90)))]
# without zone, in zones, and in the hour which comes twice
MIXED = [model.TWICE[1], datetime(2021, 1, 1, 0, 30, tzinfo=timezone(timedelta(hours=14))), model.TWICE[2], datetime(2020, 10, 25, 0, 40), datetime(2020, 10, 25, 1, 10, tzinfo=timezone.utc),
         datetime(2020, 10, 25, 10, 5, tzinfo=timezone(timedelta(hours=9)))]
NAIVE = [datetime(2016, 1, 1), datetime(2016, 1, 1, 0, 0, 0, 1), datetime(1969, 1, 1), datetime(2016, 1, 2)]


def event(stamp):
    from opyenxes.factory.XFactory import XFactory
    result = XFactory.create_event()
    if stamp is not None:
        result.get_attributes()["time:timestamp"] = XFactory.create_attribute_timestamp("time:timestamp", stamp, None)
    return result


def bounds_are(ctx, bounds, stamps, probes, what):
    stamps = [s for s in stamps if s is not None]
    seen = bounds.get_start_date(), bounds.get_end_date()
    if not stamps:
        low = high = None
        same(seen, (None, None), "first and last of " + what)
    else:
        low, high = (pick(map(model.microseconds, stamps)) for pick in (min, max))
        same(tuple(map(model.microseconds, seen)), (low, high), "first and last of " + what)
    text = str(bounds)
    expect(text.startswith(str(seen[0])) and text.endswith(str(seen[1])), "the text of", what, "is", text)
    for probe in probes:
        same(bool(bounds.is_within(probe)), bool(stamps) and low <= model.microseconds(probe) <= high, "is_within(%s) of %s [%s, %s]" % (probe, what, low, high))
    ctx.step(2 + len(probes))
    ctx.state(repr((str(low), str(high))))


def probes_of(pool):
    out = []
    for s in pool:
        out.extend((s, s - timedelta(microseconds=1), s + timedelta(microseconds=1)))
    return out


def registered(ctx, case, pool):
    """Each stamp is registered as a date, in an event, or in boundaries."""
    from opyenxes.info.XTimeBounds import XTimeBounds
    stamps = [None if i == len(pool) else pool[i] for i in case]
    for way in range(4):
        bounds = XTimeBounds()
        for n, stamp in enumerate(stamps):
            how = (way + n) % 3 if way == 3 else way
            if how == 0 and stamp is not None:
                bounds.register(stamp)
            elif how == 2:
                inner = XTimeBounds()
                if stamp is not None:
                    inner.register(stamp)
                bounds.register(inner)
                if stamp is not None:
                    bounds_are(ctx, inner, [stamp], (), "registered boundaries")
            else:
                bounds.register(event(stamp))
            bounds_are(ctx, bounds, stamps[:n + 1], (), "the boundaries")
        bounds_are(ctx, bounds, stamps, probes_of(pool), "the boundaries")


def sequences(size, length):
    for n in range(length + 1):
        for chosen in itertools.product(range(size), repeat=n):
            yield list(chosen)


def in_log(ctx, case, pool):
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.info.XLogInfo import XLogInfo
    counts, chosen = case
    stamps = [None if i == len(pool) else pool[i] for i in chosen]
    log = XFactory.create_log()
    rows = []
    for n in counts:
        row = [stamps.pop() for _ in range(n)]
        trace = XFactory.create_trace()
        for stamp in row:
            trace.append(event(stamp))
        log.append(trace)
        rows.append(row)
    info = XLogInfo.create(log)
    probes = probes_of(pool)
    bounds_are(ctx, info.get_log_time_boundaries(), [s for row in rows for s in row], probes, "the log")
    for trace, row in zip(log, rows):
        bounds_are(ctx, info.get_trace_time_boundaries(trace), row, probes, "a trace")


def log_cases(size, quick):
    deeper = () if quick else ([2, 3], [5], [1, 1, 1, 1, 1])
    for counts in ([], [0], [1], [2], [1, 1], [3], [0, 2], [2, 0, 1], [1, 1, 1], [2, 2], [4]) + deeper:
        for chosen in itertools.product(range(size), repeat=sum(counts)):
            yield [list(counts), list(chosen)]


def ranges(ctx, case):
    """Boundaries of boundaries."""
    from opyenxes.info.XTimeBounds import XTimeBounds
    outer = XTimeBounds()
    stamps = []
    for a, b in zip(case[::2], case[1::2]):
        inner = XTimeBounds()
        for n in (a, b):
            inner.register(STAMPS[n])
            stamps.append(STAMPS[n])
        outer.register(inner)
        bounds_are(ctx, outer, stamps, (), "the boundaries")
    outer.register(outer)
    bounds_are(ctx, outer, stamps, probes_of(STAMPS), "the boundaries")


# years and instants at which ways of counting time change
FAR = [datetime(1, 1, 2, tzinfo=timezone.utc), datetime(999, 12, 31, 23, tzinfo=timezone(timedelta(hours=5))), datetime(1582, 10, 10, tzinfo=timezone.utc), datetime(1899, 12, 31, tzinfo=timezone.utc),
       datetime(1970, 1, 1, tzinfo=timezone.utc), datetime(2038, 1, 19, 3, 14, 8, tzinfo=timezone.utc), datetime(9999, 12, 30, tzinfo=timezone(timedelta(hours=-11)))]


def size_cases(tier):
    for n in spaces.steps(tier):
        for way in range(4):
            for last in (0, 1):
                yield [n, way, last]


def sizes(ctx, case):
    """Many stamps, in all sorts of orders; the extreme ones come at the end,
    at the beginning, or in between."""
    from opyenxes.info.XTimeBounds import XTimeBounds
    n, way, last = case
    pool = STAMPS[:2] + FAR[4:6]
    stamps = [pool[i % 4] + timedelta(hours=(i * 7919) % 1009, microseconds=i) for i in range(n)]
    extremes = [FAR[0], FAR[6]][::1 if n % 2 else -1]
    stamps = stamps + extremes if last else stamps[:n // 2] + extremes + stamps[n // 2:]
    bounds, outer = XTimeBounds(), XTimeBounds()
    for i, stamp in enumerate(stamps):
        if way == 2 or way == 3 and i % 3 == 1:
            inner = XTimeBounds()
            inner.register(stamp)
            bounds.register(inner)
        else:
            bounds.register(event(stamp if i % 4 or way == 0 else None) if way == 1 else stamp)
        if i % 9 == 4:
            outer.register(bounds)
    outer.register(bounds)
    kept = [s for i, s in enumerate(stamps) if way != 1 or i % 4]
    bounds_are(ctx, bounds, kept, probes_of(pool), "the boundaries")
    bounds_are(ctx, outer, kept, probes_of(pool), "boundaries of the boundaries")
    in_log(ctx, [[n // 3, 0, len(stamps) - n // 3], list(range(len(stamps)))], stamps)


def equal_cases(quick):
    for counts in ([1, 1], [2, 1], [1, 1, 1], [2, 0, 2]) + (() if quick else ([2, 2, 1],)):
        size = 4 if sum(counts) < 5 else 3
        for chosen in itertools.product(itertools.product(range(2), range(size)), repeat=sum(counts)):
            chosen = list(map(list, chosen))
            yield [[chosen.pop() for _ in range(n)] for n in counts]


def equal_events(ctx, case):
    """Traces whose events are equal, having one id, with times of their own:
    also asked of a copy of the summary."""
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.info.XLogInfo import XLogInfo
    from opyenxes.id.XIDFactory import XIDFactory
    ids = [XIDFactory.create_id() for _ in range(2)]
    stamps = [STAMPS[0], STAMPS[3], None, STAMPS[4]]
    log = XFactory.create_log()
    for row in case:
        trace = XFactory.create_trace()
        for number, stamp in row:
            one = event(stamps[stamp])
            one.set_id(ids[number])
            trace.append(one)
        log.append(trace)
    info = XLogInfo.create(log)
    for each, what in ((info, ""), (copy.deepcopy(info), " of a copy"), (pickle.loads(pickle.dumps(info)), " of an unpickled one")):
        for trace, row in zip(each.get_log(), case):
            bounds_are(ctx, each.get_trace_time_boundaries(trace), [stamps[s] for _, s in row], (), "a trace" + what)
        bounds_are(ctx, each.get_log_time_boundaries(), [stamps[s] for row in case for _, s in row], (), "the log" + what)
    if [] not in case:
        same(info.get_trace_time_boundaries(XFactory.create_trace()), None, "the boundaries of a trace that is not in the log")


def families(tier):
    quick = tier == "quick"
    return [
        looks.family("P16"),
        Family("registered", lambda _: sequences(len(STAMPS) + 1, 4 if quick else 5), lambda ctx, c: registered(ctx, c, STAMPS)),
        Family("without-zone", lambda _: sequences(len(NAIVE) + 1, 4), lambda ctx, c: registered(ctx, c, NAIVE)),
        Family("mixed-zones", lambda _: sequences(len(MIXED) + 1, 4), lambda ctx, c: registered(ctx, c, MIXED)),
        Family("mixed-zones-in-logs", lambda _: log_cases(len(MIXED) + 1, quick), lambda ctx, c: in_log(ctx, c, MIXED)),
        Family("in-logs", lambda _: log_cases(len(STAMPS) + 1, quick), lambda ctx, c: in_log(ctx, c, STAMPS)),
        Family("far-apart", lambda _: sequences(len(FAR) + 1, 3 if quick else 4), lambda ctx, c: registered(ctx, c, FAR)),
        Family("far-apart-in-logs", lambda _: log_cases(len(FAR) + 1, True), lambda ctx, c: in_log(ctx, c, FAR)),
        Family("equal-events", lambda _: equal_cases(quick), equal_events),
        Family("sizes", lambda _: size_cases(tier), sizes),
        Family("boundaries", lambda _: (list(c) for n in (2, 4, 6) for c in itertools.product(range(len(STAMPS)), repeat=n)), ranges),
    ]
