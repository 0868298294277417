"""Logs whose parts are the same objects: an event that is in a trace twice or
in several traces, events with equal ids, a trace that is in the log twice, one
attribute at several places, one attribute map of several elements.  What such a
log says is what the same log made of different objects says."""
import itertools
from mc import model

EVENTS = [[["string", "concept:name", "e", []], ["date", "time:timestamp", [2016, 2, 29, 1, 2, 3, 4000, 60], []]], [["string", "concept:name", "f", []]], []]
SAME_ID = 3                  # an event like the first one, with its id and another name
EVENTS.append([["string", "concept:name", "g", []], ["date", "time:timestamp", [2016, 2, 28, 1, 2, 3, 4000, 60], []]])
TRACES = [[["string", "concept:name", "t", []]], [["string", "concept:name", "u", []], ["int", "n", 1, []]]]

PLACES = ["log", "trace", "event", "gt", "ge", "below", "list", "list again", "other event"]
KINDS = {"string": ["string", "k", "v", [["int", "m", 1, []]]], "date": ["date", "k", [2016, 2, 29, 1, 2, 3, 4000, 60], []],
         "id": ["id", "k", "00000000-0000-0000-0000-00000000000a", []],
         "list": ["list", "k", "c", [["string", "x", "1", []], ["string", "x", "2", []]]],
         "container": ["container", "k", "c", [["string", "x", "1", []]]]}


def event_cases(quick):
    one = range(len(EVENTS))
    for n in range(4 if quick else 5):
        for events in itertools.product(one, repeat=n):
            yield ["events", [list(events)]]
    for first in itertools.product(one, repeat=2):
        for n in (1, 2):
            for second in itertools.product(one, repeat=n):
                yield ["events", [list(first), list(second)]]
    for n in (2, 3):
        for traces in itertools.product(range(3), repeat=n):
            yield ["traces", list(traces)]


def attribute_cases(quick):
    for kind in KINDS:
        for mask in range(1 << len(PLACES)):
            if quick and mask >> 8 & 1 and not mask >> 2 & 1:
                continue
            yield ["attribute", kind, [p for i, p in enumerate(PLACES) if mask >> i & 1]]
    for mask in range(64):
        yield ["map", [p for i, p in enumerate(("log", "trace", "event", "other event", "below", "attribute"))
                       if mask >> i & 1]]


def cases(quick=True):
    yield from event_cases(quick)
    yield from attribute_cases(quick)


def of_events(lists):
    events = [model.build_event(e) for e in EVENTS]
    events[SAME_ID].set_id(events[0].get_id())
    log_model = {"t": [[TRACES[i], [EVENTS[e] for e in each]] for i, each in enumerate(lists)]}
    log = model.build_log({})
    for i, each in enumerate(lists):
        trace = model.build_trace(TRACES[i], [])
        for e in each:
            trace.append(events[e])
        log.append(trace)
    return log, log_model


def of_traces(order):
    """Traces 0 and 1 share their events; trace 2 has the content of trace 0."""
    made = [[TRACES[0], [EVENTS[0], EVENTS[1]]], [TRACES[1], [EVENTS[1], EVENTS[0]]], [TRACES[0], [EVENTS[0], EVENTS[1]]]]
    events = [model.build_event(EVENTS[0]), model.build_event(EVENTS[1])]
    traces = [model.build_trace(attrs, []) for attrs, _ in made]
    for trace, which in zip(traces, ((0, 1), (1, 0))):
        for e in which:
            trace.append(events[e])
    for e in made[2][1]:
        traces[2].append(model.build_event(e))
    log = model.build_log({})
    for i in order:
        log.append(traces[i])
    return log, {"t": [made[i] for i in order]}


def of_attribute(kind, places):
    attr = KINDS[kind]
    inside = [["string", "i", "1", []]]
    outer = ["string", "o", "1", [attr] if "below" in places else []]
    members = [["string", "i", "1", []]] + [attr] * (("list" in places) + ("list again" in places)) + [["string", "j", "1", []]]
    holder = ["list", "h", "c", members]
    plain = {"a": [outer, holder], "gt": [], "ge": [], "t": [[[["string", "concept:name", "t", []]], [inside, inside]]]}
    log = model.build_log({"t": plain["t"], "a": [["string", "o", "1", []], ["list", "h", "c", members[:1]]]})
    one = model.build_attr(attr)
    put = lambda element: element.get_attributes().__setitem__(one.get_key(), one)
    if "below" in places:
        put(log.get_attributes()["o"])
    for _ in members[1:-1]:
        log.get_attributes()["h"].add_to_collection(one)
    log.get_attributes()["h"].add_to_collection(model.build_attr(members[-1]))
    if "log" in places:
        put(log)
        plain["a"] = plain["a"] + [attr]
    trace_attrs, events = plain["t"][0]
    if "trace" in places:
        put(log[0])
        trace_attrs = trace_attrs + [attr]
    for i, place in enumerate(("event", "other event")):
        if place in places:
            put(log[0][i])
            events = events[:i] + [events[i] + [attr]] + events[i + 1:]
    plain["t"] = [[trace_attrs, events]]
    for name, globals_ in (("gt", log.get_global_trace_attributes()), ("ge", log.get_global_event_attributes())):
        if name in places:
            globals_.append(one)
            plain[name] = [attr]
    return log, plain


def of_map(places):
    common = [["string", "concept:name", "c", [["int", "m", 1, []]]], ["date", "time:timestamp", [2016, 2, 29, 1, 2, 3, 4000, 60], []]]
    log = model.build_log({"a": [["string", "o", "1", []]], "t": [[[], [[], []]]]})
    trace = log[0]
    # an event gets its own map from the model; the log or another event lends it
    lender = model.put_attrs(model.build_event([]), common)
    shared = lender.get_attributes()
    attribute = log.get_attributes()["o"]
    said = {"log": [["string", "o", "1", []]], "trace": [], "event": [], "other event": []}
    below = common if "below" in places else []
    if "below" in places:
        attribute.set_attributes(shared)
    said["log"] = [["string", "o", "1", below]]
    for place, element in (("trace", trace), ("event", trace[0]), ("other event", trace[1])):
        if place in places:
            element.set_attributes(shared)
            said[place] = common
    if "log" in places:
        log.set_attributes(shared)
        said["log"] = common
    globals_ = []
    if "attribute" in places:
        from opyenxes.factory.XFactory import XFactory
        one = XFactory.create_attribute_literal("p", "2", None)
        one.set_attributes(shared)
        log.get_global_event_attributes().append(one)
        globals_ = [["string", "p", "2", common]]
    return log, {"a": said["log"], "ge": globals_, "t": [[said["trace"], [said["event"], said["other event"]]]]}


def build(case):
    made = {"events": of_events, "traces": of_traces, "attribute": of_attribute, "map": of_map}[case[0]](*case[1:])
    return made


def family(then, quick=True, which=cases, name="shared-parts"):
    """then(ctx, log_model, log)"""
    from mc.core import Family

    def run(ctx, case):
        log, log_model = build(case)
        then(ctx, log_model, log)
    return Family(name, lambda _: which(quick), run)
