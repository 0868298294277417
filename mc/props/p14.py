"""P14: the summary of a log agrees with a recount of the log."""
import itertools
from mc import looks, model, origin, shared, spaces
from mc.core import Family, same, expect
from mc.mxmldoc import text
from mc.props import p15, p16

LEVEL = "model_checking"
ASSUMPTIONS = ["the log is not changed while it is summarised or while the summary is used"]
STANDARD = {("MXML Legacy Classifier", ("concept:name", "lifecycle:transition")), ("Event Name", ("concept:name",)),
            ("Resource", ("org:resource",)), ("Lifecycle transition", ("lifecycle:transition",))}
POOL = [["mine", ["a"]], ["Event Name", ["concept:name"]], ["Event Name", ["a"]], ["other", ["concept:name", "a", "org:resource"]],
        ["Resource", ["org:resource"]], ["mine", ["lifecycle:transition", "a"]]]


def key_of(classifier):
    return classifier.name(), tuple(classifier.get_defining_attribute_keys())


def identity(event, keys):
    """Class identity of an event model."""
    values = {a[1]: text(a) for a in event}
    return "&&".join(values.get(k, "") for k in keys)


def classes_of(log, keys):
    sizes = {}
    for _, events in log["t"]:
        for event in events:
            name = identity(event, keys)
            sizes[name] = sizes.get(name, 0) + 1
    return [(name, i, sizes[name]) for i, name in enumerate(sorted(sizes))]


def seen_classes(classes):
    return sorted(((c.get_id(), c.get_index(), c.size()) for c in classes.get_classes()), key=lambda c: c[1])


def check(ctx, log, default=None, extra=None, through_factory=False, built=None):
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    from opyenxes.info.XLogInfo import XLogInfo
    from opyenxes.info.XLogInfoFactory import XLogInfoFactory
    built = model.build_log(log) if built is None else built
    before = model.seen_log(built)
    made_default = None if default is None else XEventAttributeClassifier(default[0], list(default[1]))
    made_extra = None if extra is None else [XEventAttributeClassifier(n, list(k)) for n, k in extra]
    if through_factory:
        info = XLogInfoFactory.create_log_info(built, made_default)
    else:
        info = XLogInfo.create(built, made_default, made_extra)
    same(model.seen_log(built), before, "the log after it was summarised")
    expect(info.get_log() is built, "get_log of the summary is another log")
    same(info.get_number_of_traces(), len(log["t"]), "number of traces")
    same(info.get_number_of_event(), sum(len(events) for _, events in log["t"]), "number of events")
    wanted = set(STANDARD) - {("MXML Legacy Classifier", ("concept:name", "lifecycle:transition"))}
    wanted |= {(n, tuple(k)) for n, k in extra or []}
    first = ("MXML Legacy Classifier", ("concept:name", "lifecycle:transition")) if default is None else (default[0], tuple(default[1]))
    wanted.add(first)
    same(sorted(key_of(c) for c in info.get_event_classifiers()), sorted(wanted), "classifiers of the summary")
    for name, keys in wanted:
        found = info.get_event_classes(XEventAttributeClassifier(name, list(keys)))
        expect(found is not None, "no classes for", name)
        same(key_of(found.get_classifier()), (name, keys), "classifier of the classes")
        same(seen_classes(found), classes_of(log, keys), "classes (identity, index, size) for %s %r" % (name, keys))
        ctx.step(1 + len(found))
    for what, found, keys in (("default", info.get_event_classes(), first[1]), ("name", info.get_name_classes(), ["concept:name"]),
                              ("resource", info.get_resource_classes(), ["org:resource"]),
                              ("transition", info.get_transition_classes(), ["lifecycle:transition"])):
        same(seen_classes(found), classes_of(log, keys), what + " classes")
    same(info.get_event_classes(XEventAttributeClassifier("not covered", ["x"])), None, "classes for a classifier that is not covered")
    names = info.get_name_classes()
    for trace, (_, events) in zip(built, log["t"]):
        for one, event in zip(trace, events):
            same(names.get_class_of(one).get_id(), identity(event, ["concept:name"]), "class of an event")
    ctx.state(repr((classes_of(log, first[1]), sorted(wanted), len(log["t"]))))
    return built, info


EVENTS = [[], [["string", "concept:name", "x", []]], [["string", "concept:name", "y", []], ["string", "lifecycle:transition", "start", []]],
          [["string", "concept:name", "x", []], ["string", "lifecycle:transition", "complete", []], ["string", "org:resource", "R", []],
           ["int", "a", 0, []]], [["string", "org:resource", "", []], ["string", "a", "x", []]],
          [["string", "concept:name", "x", []], ["string", "lifecycle:transition", "start", []], ["boolean", "a", False, []]]]


def content_cases(size):
    for counts in ([], [0], [1], [2], [1, 1], [0, 2, 0], [3], [1, 2], [size]):
        for chosen in itertools.product(range(len(EVENTS)), repeat=sum(counts)):
            yield [counts, list(chosen)]


def content_log(case):
    counts, chosen = case
    chosen = iter(chosen)
    return {"t": [[[["string", "concept:name", "t%d" % i, []]], [EVENTS[next(chosen)] for _ in range(n)]] for i, n in enumerate(counts)]}


def content(ctx, case):
    check(ctx, content_log(case))
    check(ctx, content_log(case), POOL[sum(case[1]) % len(POOL)], None, True)


def timed(log):
    """The timestamps of all events are dates."""
    return all(a[0] == "date" for _, events in log["t"] for event in events for a in event if a[1] == "time:timestamp")


def literal(ctx, word):
    log = spaces.literal_log(word)
    if not timed(log):
        return
    check(ctx, log)
    check(ctx, log, [word, ["concept:name", word]], [["a", ["plain"]], ["b", ["q", "org:role"]]])
    p15.through_log(ctx, log)


def classifier_cases():
    for default in range(-1, len(POOL)):
        for mask in range(1 << len(POOL)):
            yield [default, mask]


def classifiers(ctx, case):
    default, mask = case
    extra = [c for i, c in enumerate(POOL) if mask >> i & 1]
    log = content_log([[3, 0, 3], [5, 3, 3, 4, 1, 2]])
    check(ctx, log, None if default < 0 else POOL[default], extra if mask else None)
    if extra:
        check(ctx, log, None if default < 0 else POOL[default], extra[::-1] + extra[:1])


def shapes(ctx, case):
    check(ctx, spaces.shape_log(case))


def sizes(ctx, case):
    n, m = case
    check(ctx, {"t": [[[], [EVENTS[(i * 5 + t) % len(EVENTS)] for i in range(m)]] for t in range(n)]}, POOL[3], POOL[:2])


def same_events(ctx, case):
    """The same events, and equal traces, are counted every time they occur."""
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.info.XLogInfo import XLogInfo
    pattern = case
    log = XFactory.create_log()
    pool = [model.build_event(e) for e in EVENTS[1:4]]
    for numbers in pattern:
        trace = XFactory.create_trace()
        for n in numbers:
            trace.append(pool[n])
        log.append(trace)
    info = XLogInfo.create(log)
    flat = [n for numbers in pattern for n in numbers]
    same((info.get_number_of_traces(), info.get_number_of_event()), (len(pattern), len(flat)), "traces and events")
    counts = {}
    for n in flat:
        counts["xyx"[n]] = counts.get("xyx"[n], 0) + 1
    same({c.get_id(): c.size() for c in info.get_name_classes().get_classes()}, counts, "sizes of the classes")
    ctx.state(repr(sorted(counts.items())))
    ctx.step()


def same_event_cases():
    for lengths in ([1], [2], [1, 1], [2, 1], [2, 2], [3, 1, 0], [1, 1, 1]):
        for chosen in itertools.product(range(3), repeat=sum(lengths)):
            chosen = list(chosen)
            yield [[chosen.pop() for _ in range(n)] for n in lengths]


TIMES = [p16.STAMPS[0], p16.STAMPS[1], p16.STAMPS[3]]


def times(ctx, case):
    """The time boundaries of the log and of every trace."""
    p16.in_log(ctx, case, TIMES)


def time_cases(quick):
    for counts in itertools.product(range(3), repeat=3):
        for chosen in itertools.product(range(len(TIMES) + 1), repeat=sum(counts)):
            if not quick or sum(counts) < 6:
                yield [list(counts), list(chosen)]


def odd_sizes(ctx, case):
    """Logs of all sizes with contents of all sorts: classes, attribute
    statistics and time boundaries."""
    log = spaces.odd_log(case)
    if not timed(log):
        return
    built, info = check(ctx, log, ["two", ["lifecycle:transition", "concept:name"]], [["keys", ["k%d" % i for i in range(12)]]])
    rows = [[a[2] for e in events for a in e if a[1] == "time:timestamp"] for _, events in log["t"]]
    stamps = [[model.model_datetime(s) for s in row] for row in rows]
    p16.bounds_are(ctx, info.get_log_time_boundaries(), [s for row in stamps for s in row], p16.probes_of(p16.STAMPS), "the log")
    for trace, row in zip(built, stamps):
        p16.bounds_are(ctx, info.get_trace_time_boundaries(trace), row, (), "a trace")
    p15.through_log(ctx, log)


def shared_parts(ctx, log, built):
    """Events, traces and attributes that are the same objects."""
    if timed(log):
        check(ctx, log, POOL[3], POOL[:2], False, built)


def odd_cases(tier):
    return (c for c in spaces.odd_cases(tier) if c[0] in ("odd events", "odd traces", "odd attributes", "odd text", "odd key"))


def nested(ctx, case):
    """Attributes with many nested ones, which have some of their own."""
    where, n = case
    p15.through_log(ctx, spaces.host(where, [["string", "k", "v", [[spaces.KINDS[i % 6], "n%d" % i, spaces.SAMPLE[spaces.KINDS[i % 6]], [["int", "m", 1, []]] * (i % 7 == 3)] for i in range(n)]]]))


def families(tier):
    quick = tier == "quick"
    return [
        looks.family("P14"),
        shared.family(shared_parts, quick),
        origin.family(shared_parts),
        Family("contents", lambda _: content_cases(4 if quick else 5), content),
        Family("classifiers", lambda _: classifier_cases(), classifiers),
        Family("shapes", lambda _: spaces.shape_cases(3 if quick else 5, 3), shapes),
        Family("times", lambda _: time_cases(quick), times),
        Family("attributes", lambda _: spaces.position_cases(1), lambda ctx, c: timed(spaces.position_log(c)) and p15.through_log(ctx, spaces.position_log(c))),
        Family("attribute-trees", lambda _: (c for c in spaces.tree_cases(3) if c[1] != "c"),
               lambda ctx, c: p15.through_log(ctx, spaces.host(c[0], spaces.tree_attrs(c[2], c[1])))),
        Family("literals", lambda _: spaces.literals()[0], literal),
        Family("sizes", lambda _: itertools.product((1, 2, 10, 100), (0, 1, 2, 33, 100)), sizes),
        Family("odd-sizes", lambda _: odd_cases(tier), odd_sizes),
        Family("nested", lambda _: ((w, n) for w in ("log", "trace", "event") for n in spaces.steps("quick")), nested),
        Family("equal-events", lambda _: p16.equal_cases(True), p16.equal_events),
        Family("shared-events", lambda _: same_event_cases(), same_events),
    ]
