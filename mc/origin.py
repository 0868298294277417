"""One log, made in every way there is: by hand, read, cloned, copied, unpickled,
and combinations of these.  What is checked of a log holds whatever it came from."""
import copy
import itertools
import pickle
from mc import model, spaces


def reread(log):
    return model.read_xes(model.write_xes(log))


def pickled(log):
    return pickle.loads(pickle.dumps(log))


def taken_apart(log):
    """Its clones and parts in a new log."""
    other = log.clone()
    result = model.build_log({})
    result.get_extensions().update(other.get_extensions())
    result.get_classifiers().extend(other.get_classifiers())
    result.get_global_trace_attributes().extend(other.get_global_trace_attributes())
    result.get_global_event_attributes().extend(other.get_global_event_attributes())
    result.set_attributes(other.get_attributes())
    for trace in other:
        mine = model.build_trace([], [])
        mine.set_attributes(trace.get_attributes().clone())
        for event in trace:
            mine.append(event)
        result.append(mine)
    return result


STEPS = {"read": reread, "clone": lambda log: log.clone(), "deepcopy": copy.deepcopy, "pickle": pickled, "parts": taken_apart}
ROUTES = [[a] for a in STEPS if a != "clone"] + [[a, b] for a, b in itertools.permutations(STEPS, 2) if "read" in (a, b)] + [["read", "pickle", "clone"], ["parts", "deepcopy", "read"]]
RICH = {"x": ["concept", "time", "org"], "gt": [["string", "concept:name", "x", [["int", "n", 1, []]]]],
        "ge": [["list", "l", "b", [["date", "d", [2016, 2, 29, 1, 2, 3, 4000, 60], []]]], ["id", "i", spaces.UUID, []]],
        "c": [["c1", ["concept:name"]], ["c2", ["a b", "it's"]]],
        "a": [["container", "c", "b", [["string", "a", "1", []], ["list", "m", "b", [["int", "q", 1, []]]]]], ["string", "lifecycle:model", "standard", []]],
        "t": [[[["boolean", "b", True, [["float", "f", 0.5, []]]]], [[["string", "concept:name", "e", [["id", "i", spaces.UUID, []]]],
                ["date", "time:timestamp", [2016, 2, 29, 1, 2, 3, 4000, 60], []]], [], [["string", "concept:name", "e", []], ["string", "org:resource", "r", []]]]],
              [[], []], [[["string", "concept:name", "t", []]], [[["list", "l", "b", [["int", "z", 3, []], ["int", "z", 4, []]]]]]]]}


def models():
    yield RICH
    for case in spaces.position_cases(1):
        yield spaces.position_log(case)
    for case in spaces.shape_cases(2, 2):
        yield spaces.shape_log(case)
    for word in list(spaces.literals()[0])[::9]:
        yield spaces.literal_log(word)


_models = []


def cases():
    if not _models:
        _models.extend(models())
    for route in ROUTES:
        for i in range(0, len(_models), 3 if len(route) == 1 else 11):
            yield [route, i]


def build(case):
    route, i = case
    if not _models:
        _models.extend(models())
    log_model = _models[i]
    log = model.build_log(log_model)
    expected = model.expected_log(log_model)
    for step in route:
        log = STEPS[step](log)
    if model.seen_log(log) != expected:
        # in another form: P01, P09 and P41 decide whether it may be
        return None, None
    return log, log_model


def family(then):
    """then(ctx, log_model, log)"""
    from mc.core import Family

    def run(ctx, case):
        log, log_model = build(case)
        if log is None:
            ctx.count("in another form")
        else:
            then(ctx, log_model, log)
    return Family("origins", lambda _: cases(), run)
