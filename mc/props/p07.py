"""P07: MXML round trip."""
import io
from mc import looks, model, mxmldoc, origin, shared, spaces
from mc.core import Family, same, Violation
from mc.logspaces import value_spaces, structure_spaces
import itertools

LEVEL = "model_checking"
ASSUMPTIONS = ["MXML keeps text without leading and trailing white space, drops empty texts and traces without events and "
               "names attributes below others parent:child; the reference says exactly what remains"]


def write(log):
    from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
    out = io.BytesIO()
    XMxmlSerializer().serialize(log, out, True)
    return out.getvalue()


def read(data):
    from opyenxes.data_in.XMxmlParser import XMxmlParser
    return XMxmlParser().parse(io.BytesIO(data))


def check(ctx, log_model, log=None):
    document = mxmldoc.document(log_model)
    expected = mxmldoc.reference(document)
    ctx.state(repr(expected))
    log = model.build_log(log_model) if log is None else log
    before = model.seen_log(log)
    data = write(log)
    same(model.seen_log(log), before, "log after it was written")
    same(mxmldoc.stripped(mxmldoc.parse_tree(data)), mxmldoc.stripped(document), "written document")
    same([model.seen_log(l) for l in read(data)], expected, "logs read back")
    ctx.step(model.size(log_model) + 2)


KEYS = ["concept:name", "lifecycle:transition", "org:resource", "org:role", "org:group", "time:timestamp",
        "semantic:modelReference", "description", "plain"]
VALUES = {"time:timestamp": ["date", [2016, 2, 29, 1, 2, 3, 4000, 330]], "lifecycle:transition": ["string", "Start"],
          "plain": ["int", 5]}
TRANSITIONS = mxmldoc.KNOWN + [t.upper() for t in mxmldoc.KNOWN] + [" Start ", "unknown", "UNKNOWN", "other", "x y", "startx",
                                                                   "complete\n", "Ate_Abort", "ate abort", "\u0130"]


def one(key, below=()):
    kind, value = VALUES.get(key, ["string", "v of " + key])
    return [kind, key, value, list(below)]


REFERENCE = ["string", "semantic:modelReference", "http://a#b http://c#d", []]


def event_cases():
    for mask in range(1 << len(KEYS)):
        for nested in (0, 1):
            yield [mask, nested]


def event_log(case):
    mask, nested = case
    attrs = [one(k, [REFERENCE, ["string", "sub", "s", []]] if nested and k != "semantic:modelReference" else [])
             for i, k in enumerate(KEYS) if mask >> i & 1]
    return {"t": [[[], [attrs, [["string", "concept:name", "next", []]]]]]}


def element_cases():
    keys = ["concept:name", "description", "semantic:modelReference", "lifecycle:model", "source", "plain"]
    for where in ("log", "trace"):
        for n in range(len(keys) + 1):
            for chosen in itertools.combinations(keys, n):
                for nested in (0, 1):
                    yield [where, list(chosen), nested]


def element_log(case):
    where, keys, nested = case
    attrs = [one(k, [REFERENCE, ["int", "sub", 1, []]] if nested and k != "semantic:modelReference" else []) for k in keys]
    return {"a": attrs if where == "log" else [],
            "t": [[attrs if where == "trace" else [], [[]]], [[["string", "concept:name", "t2", []]], [[one("concept:name")]]]]}


def transition_log(value):
    return {"t": [[[], [[["string", "lifecycle:transition", value, []]], [["string", "lifecycle:transition", value, [REFERENCE]],
                                                                      ["string", "concept:name", value, []]]]]]}


KINDS = [["string", "s"], ["int", 7], ["float", 1.5], ["boolean", True], ["date", [2016, 2, 29, 1, 2, 3, 4000, 330]],
         ["id", "00000000-0000-0000-0000-00000000000a"], ["list", "b"], ["container", "b"], ["string", "2016-02-29T01:02:03Z"], ["string", "start"]]


def kind_cases():
    """One or two standard attributes of every kind on the log, a trace and an
    event, with and without a reference of every kind below them."""
    for key in KEYS:
        for kind in range(len(KINDS)):
            for below in [None] + list(range(len(KINDS))):
                yield [[[key, kind, below]]]
    for a, b in itertools.combinations(KEYS, 2):
        for kind_a in range(len(KINDS)):
            for kind_b in range(len(KINDS)):
                yield [[[a, kind_a, None], [b, kind_b, None]]]


def kind_log(case):
    attrs = []
    for key, kind, below in case[0]:
        nested = []
        if KINDS[kind][0] in ("list", "container"):
            nested.append(["string", "child", "c", []])
        if below is not None:
            nested.append([KINDS[below][0], "semantic:modelReference", KINDS[below][1], []])
        attrs.append([KINDS[kind][0], key, KINDS[kind][1], nested])
    return {"a": attrs, "t": [[attrs, [attrs, [one("concept:name")]]]]}


def families(tier):
    quick = tier == "quick"
    result = [
        Family("event-attributes", lambda _: event_cases(), lambda ctx, c: check(ctx, event_log(c))),
        Family("log-and-trace-attributes", lambda _: element_cases(), lambda ctx, c: check(ctx, element_log(c))),
        Family("transitions", lambda _: list(TRANSITIONS), lambda ctx, c: check(ctx, transition_log(c))),
        Family("originators", lambda _: (list(c) for c in spaces.strings(2, ["a", " ", "\n", "\r", "<", "&", "\u00e9"]) if c),
               lambda ctx, c: check(ctx, {"t": [[[["string", "concept:name", "".join(c), []]], [
                   [["string", k, "".join(c), []]] for k in KEYS[:5]]]]})),
        Family("kinds-of-standard-attributes", lambda _: kind_cases(), lambda ctx, c: check(ctx, kind_log(c))),
    ]
    for name, cases, log_of in value_spaces(tier) + structure_spaces(tier):
        if name in ("extensions", "classifiers", "globals"):
            continue
        result.append(Family(name, lambda _, cases=cases: cases(),
                             lambda ctx, case, log_of=log_of: check(ctx, log_of(case))))
    return [looks.family("P07"), shared.family(check, quick), origin.family(check)] + result
