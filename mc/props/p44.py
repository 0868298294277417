"""P44: threads that read the same log at the same time each get what they get alone, and the log stays as it is."""
import importlib
import io
import itertools
import pickle

from mc import sched
sched.install()

from mc import model, mxmldoc, tasks, xesdoc  # noqa: E402
from mc.core import Family, same, expect  # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["threads are preempted between lines of the library's own code; modules are imported before they start",
               "at most the stated number of preemptions, at the stated number of first visits of a line by a thread",
               "no thread changes the log; a summary that is kept with the log is no change of it"]
LOGS = {"small": {"x": ["concept"], "ge": [["int", "n", 0, []]], "c": [["C", ["concept:name", "lifecycle:transition", "a"]]], "a": [["string", "source", "s", [["string", "m", "y", []]]], ["list", "l", "b", [["string", "y", "z", []]]]],
                  "t": [[[["string", "concept:name", "t", []]], [[["string", "concept:name", "e", []], ["date", "time:timestamp", [2016, 2, 29, 1, 2, 3, 4000, 60], []]],
                                                                 [["string", "lifecycle:transition", "start", []], ["string", "a", "x", [["int", "n", 2, []]]], ["string", "b", "z", [["string", "m", "w", []]]]]]]]},
        "one": {"t": [[[], [[["string", "concept:name", "e", []]]]]]},
        "rich": tasks.LOG_A}


def make(path, name):
    return getattr(importlib.import_module("opyenxes." + path + "." + name), name)


def classifier(name):
    return {"name": lambda: make("classification", "XEventNameClassifier")(), "resource": lambda: make("classification", "XEventResourceClassifier")(),
            "own": lambda: make("classification", "XEventAttributeClassifier")("Own", ["a", "concept:name"]), None: lambda: None}[name]()


def writes(name, read):
    def run(log, tools):
        out = io.BytesIO()
        if name not in tools:
            tools[name] = make("data_out", name)()
        tools[name].serialize(log, out, True)
        return read(out.getvalue())
    return run


def read_xes(data):
    content, extensions = xesdoc.strict(data)
    return model.expected_log(content), extensions


def summary(name):
    def run(log, tools):
        one = make("info", "XLogInfoFactory").create_log_info(log, classifier(name))
        given = classifier(name)
        if given is not None:
            expect(one.get_event_classes().get_classifier() == given, "the summary is one for", one.get_event_classes().get_classifier().name())
        bounds = one.get_log_time_boundaries()
        return (one.get_number_of_event(), one.get_number_of_traces(), str(bounds.get_start_date()), str(bounds.get_end_date()),
                [sorted((c.get_id(), c.get_index(), c.size()) for c in classes.get_classes())
                 for classes in (one.get_event_classes(), one.get_name_classes(), one.get_resource_classes(), one.get_transition_classes())],
                [sorted((key, attributes.get_frequency(key)) for key in attributes.get_attribute_keys())
                 for attributes in (one.get_log_attribute_info(), one.get_trace_attribute_info(), one.get_event_attribute_info(), one.get_meta_attribute_info())])
    return run


def kept(log, tools):
    """A summary for one's own classifier, put there and asked for."""
    from opyenxes.info.XLogInfo import XLogInfo
    own = make("classification", "XEventAttributeClassifier")("Kept", ["n"])
    log.set_info(own, XLogInfo.create(log, own))
    got = log.get_info(make("classification", "XEventAttributeClassifier")("Kept", ["n"]))
    # another thread may have put another one there
    return got is None or [got.get_event_classes().get_classifier().name(), got.get_number_of_event()] == ["Kept", sum(map(len, log))]


def clone(log, tools):
    copy = log.clone()
    return model.seen_log(copy)


def pickled(log, tools):
    return model.seen_log(pickle.loads(pickle.dumps(log)))


def extensions(log, tools):
    return [sorted(e.get_prefix() for e in one.get_extensions()) for one in [log] + list(log) + [e for t in log for e in t]] + [
        sorted(a.get_key() for e in log.get_extensions() for a in e.get_defined_attributes())]


def identities(log, tools):
    both = make("classification", "XEventAndClassifier")([classifier("name"), classifier("resource")])
    shared = tools.setdefault("classifier", make("classification", "XEventAndClassifier")([classifier("own"), both]))
    classes = make("classification", "XEventClasses").derive_event_classes(both, log)
    return [[c.get_class_identity(e) for c in [both, classifier("own"), shared] + list(log.get_classifiers())] for t in log for e in t], sorted((c.get_id(), c.size()) for c in classes.get_classes())


def wrapped(log, tools):
    found = []
    for trace in log:
        for event in trace:
            one = make("extension.std", "XExtendedEvent")(event)
            found.append((one.get_name(), str(one.get_time_stamp()), one.get_resourse(), one.get_transition(), one.get_group()))
    return found


def values(log, tools):
    def below(attributes):
        return [(str(a), hash(a) == hash(a.clone()), a == a.clone(), a.compare_to(a.clone()), below(a.get_attributes())) for a in attributes.values()]
    return [below(one.get_attributes()) for one in [log] + list(log) + [e for t in log for e in t]]


READS = {"write xes": writes("XesXmlSerializer", read_xes), "write mxml": writes("XMxmlSerializer", lambda data: mxmldoc.stripped(mxmldoc.parse_tree(data))),
         "summary": summary(None), "summary name": summary("name"), "summary own": summary("own"), "kept": kept, "clone": clone, "pickle": pickled,
         "extensions": extensions, "identities": identities, "wrapped": wrapped, "values": values}
wanted = {}


def alone(which, name):
    if (which, name) not in wanted:
        wanted[which, name] = READS[name](model.build_log(LOGS[which]), {})
    return wanted[which, name]


def scenario(which, names, shared):
    def start():
        log, tools = model.build_log(LOGS[which]), {}
        before = model.seen_log(log)
        bodies = [lambda name=name: READS[name](log, tools if shared else {}) for name in names]

        def check(results):
            for name, result in zip(names, results):
                same(result, wanted[which, name], "%s while other threads did %s with the same log" % (name, names))
            same(model.seen_log(log), before, "the log after threads did %s with it" % (names,))
            for name in ("summary", "summary name", "summary own"):
                same(READS[name](log, {}), alone(which, name), "%s after threads did %s" % (name, names))
            return names
        return bodies, check
    return start


def explored(ctx, case):
    which, names, shared, bound, opcodes, visits, shard, shards = case
    for name in names:
        alone(which, name)
    sched.explore(ctx, scenario(which, names, shared), bound, bool(opcodes), shard, shards, visits or None, len(set(names)) == 1)


def spread(which, names, shared, bound, opcodes, visits, shards):
    for shard in range(shards):
        yield [which, names, shared, bound, opcodes, visits, shard, shards]


def pairs(quick):
    for names in itertools.combinations_with_replacement(READS, 2):
        for shared in (0, 1) if names[0] == names[1] else (1,):
            yield from spread("small" if quick else "rich", list(names), shared, 1, 0, 1 if quick else 3, 2)


KEEPING = ["summary", "summary name", "summary own", "kept"]


def keeping(quick):
    """Summaries for several classifiers, three at a time, of a log with few events."""
    for names in itertools.combinations_with_replacement(KEEPING, 3):
        if quick and len(set(names)) < 3:
            continue
        yield from spread("one", list(names), 0, 1, 0, 1, 8)
    if not quick:
        for names in itertools.combinations_with_replacement(KEEPING, 2):
            yield from spread("one", list(names), 0, 1, 1, 1, 16)
            yield from spread("one", list(names), 0, 2, 0, 1, 64)


def cached(ctx, case):
    """Summaries made before are put into the log and asked for."""
    programs, bound, opcodes, shard, shards = case

    def start():
        from opyenxes.info.XLogInfo import XLogInfo
        log = model.build_log(LOGS["one"])
        infos = {name: XLogInfo.create(log, classifier(name)) for name in ("name", "resource", "own")}

        def body(program):
            found = []
            for what, name in program:
                if what == "put":
                    log.set_info(classifier(name), infos[name])
                    continue
                got = log.get_info(classifier(name))
                expect(got is None or got is infos[name], "asked for the summary for", name, "it gave the one for",
                       got and got.get_event_classes().get_classifier().name())
                found.append(got is not None)
            return found

        def check(results):
            left = [name for name in infos if log.get_info(classifier(name)) is infos[name]]
            last = {program[-1][1] for program in programs if program[-1][0] == "put"} | {
                [n for w, n in program if w == "put"][-1] for program in programs if any(w == "put" for w, _ in program)}
            expect(len(left) == 1 and left[0] in last, "at the end there are summaries for", left)
            return results
        return [lambda p=p: body(p) for p in programs], check
    sched.explore(ctx, start, bound, bool(opcodes), shard, shards, None, programs[0] == programs[1])


def cached_cases(quick):
    puts, gets = [["put", n] for n in ("name", "resource", "own")], [["get", n] for n in ("name", "resource", "own")]
    programs = [[a] for a in puts] + [[a, b] for a in puts for b in puts + gets] + [[b, a] for a in puts for b in gets] + [[b, c] for b in gets[:2] for c in gets]
    for a, b in itertools.combinations_with_replacement(programs, 2):
        if any(w == "put" for w, _ in a + b):
            yield [[a, b], 2 if not quick or len(a + b) < 4 else 1, 0, 0, 1]
            if not quick or len(a + b) < 3:
                yield [[a, b], 1, 1, 0, 1]


def three(quick):
    if not quick:
        for names in itertools.combinations_with_replacement(READS, 3):
            yield from spread("small", list(names), 1, 1, 0, 1, 8)


def families(tier):
    quick = tier == "quick"
    tasks.load_all()
    return [
        Family("pairs", lambda _: pairs(quick), explored),
        Family("kept-summaries", lambda _: keeping(quick), explored),
        Family("put-and-get", lambda _: cached_cases(quick), cached),
        Family("three-threads", lambda _: three(quick), explored),
    ]
