"""P09: clones are equal to their originals and share nothing that can change."""
import itertools
from mc import apart, looks, model, origin, shared, spaces, values
from mc.core import Family, same, expect
from mc.logspaces import structure_spaces
from mc.model import COLLECTIONS

LEVEL = "model_checking"
ASSUMPTIONS = ["extensions and classifiers are registered definitions and may be shared"]


def full(log):
    """Everything of a log, with features and whether collections and maps of
    attributes hold the same objects."""
    return (model.seen_log(log), dict(log.get_features()), [links(a) for a in attributes(log)])


def own(element):
    yield from element.get_attributes().values()
    if hasattr(element, "get_collection"):
        below = {id(a) for a in element.get_attributes().values()}
        for child in element.get_collection():
            if id(child) not in below:
                yield child


def below(attribute):
    yield attribute
    for child in own(attribute):
        yield from below(child)


def elements(log):
    yield log
    for trace in log:
        yield trace
        yield from trace


def attributes(log):
    roots = list(log.get_global_trace_attributes()) + list(log.get_global_event_attributes())
    for element in elements(log):
        roots.extend(element.get_attributes().values())
    for root in roots:
        yield from below(root)


def links(attribute):
    if not hasattr(attribute, "get_collection"):
        return None
    inside = attribute.get_attributes()
    return [inside.get(c.get_key()) is c for c in attribute.get_collection()]


def mutable(log):
    """Identities of everything that can change, by path."""
    found = {id(log): "log", id(log.get_attributes()): "map of log", id(log.get_extensions()): "extensions",
             id(log.get_classifiers()): "classifiers", id(log.get_features()): "features",
             id(log.get_global_trace_attributes()): "global trace attributes",
             id(log.get_global_event_attributes()): "global event attributes"}
    for element in elements(log):
        found[id(element)] = type(element).__name__
        found[id(element.get_attributes())] = "map of a " + type(element).__name__
    for attribute in attributes(log):
        found[id(attribute)] = "attribute " + attribute.get_key()
        found[id(attribute.get_attributes())] = "map of attribute " + attribute.get_key()
        if hasattr(attribute, "get_value") and model.kind_of(attribute) == "id":
            found[id(attribute.get_value())] = "value of " + attribute.get_key()
    return found


def mutations(log):
    """Every single change of a log, as (what, function)."""
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.id.XID import XID

    def new():
        return XFactory.create_attribute_literal("new", "new", None)

    yield "append a trace", lambda: log.append(XFactory.create_trace())
    yield "add a feature", lambda: log.set_features("xes.new", "1")
    yield "add a classifier", lambda: log.get_classifiers().append(XEventAttributeClassifier("new", ["new"]))
    yield "add extensions", lambda: log.get_extensions().update(XExtensionManager().get_by_prefix(p) for p in spaces.PREFIXES)
    yield "clear extensions", lambda: log.get_extensions().clear()
    yield "clear classifiers", lambda: log.get_classifiers().clear()
    yield "add a global trace attribute", lambda: log.get_global_trace_attributes().append(new())
    yield "add a global event attribute", lambda: log.get_global_event_attributes().append(new())
    yield "clear globals", lambda: (log.get_global_event_attributes().clear(), log.get_global_trace_attributes().clear())
    for trace in log:
        yield "append an event", lambda trace=trace: trace.append(XFactory.create_event())
        yield "clear a trace", trace.clear
        yield "reverse a trace", trace.reverse
    for element in elements(log):
        yield "add an attribute", lambda e=element: e.get_attributes().__setitem__("new", new())
        yield "clear attributes", lambda e=element: e.get_attributes().clear()
        yield "replace attributes", lambda e=element: e.set_attributes(XFactory.create_attribute_map())
    for attribute in attributes(log):
        kind = model.kind_of(attribute)
        if kind not in COLLECTIONS:
            value = model.build_value(kind, spaces.OTHER[kind])
            yield "set a value", lambda a=attribute, v=value: a.set_value(v)
            if kind == "id":
                yield "set an id", lambda a=attribute: a.get_value().set_uuid(XID().get_uuid())
            if kind == "date":
                yield "set milliseconds", lambda a=attribute: a.set_value_millis(123456789)
        else:
            yield "add to a collection", lambda a=attribute: a.add_to_collection(new())
        yield "add a nested attribute", lambda a=attribute: a.get_attributes().__setitem__("new", new())
        yield "clear nested attributes", lambda a=attribute: a.get_attributes().clear()
        yield "replace nested attributes", lambda a=attribute: a.set_attributes(XFactory.create_attribute_map())
    yield "clear the log", log.clear


def build(log_model):
    log = model.build_log(log_model)
    log.set_features("xes.version", "1.0")
    log.set_features("xes.other", "x")
    return log


def clone_log(ctx, log_model, mutate=True):
    log = build(log_model)
    before = full(log)
    ctx.state(repr(before))
    clone = log.clone()
    same(full(clone), before, "clone of a log")
    same(full(log), before, "log after it was cloned")
    same(type(clone), type(log), "type of the clone")
    shared = mutable(log).keys() & mutable(clone).keys()
    expect(not shared, "clone shares with the original:", [mutable(log)[i] for i in shared])
    ids = [e.get_id() for t in log for e in t] + [e.get_id() for t in clone for e in t]
    same(len(set(ids)), len(ids), "number of different event ids in log and clone")
    same(full(clone.clone()), before, "clone of the clone")
    for element, copy in zip(elements(log), elements(clone)):
        part = element.clone()
        same(type(part), type(copy), "type of a cloned element")
        same(model.seen_map(part.get_attributes()), model.seen_map(element.get_attributes()), "attributes of a cloned element")
        same(model.seen_map(element.get_attributes().clone()), model.seen_map(element.get_attributes()), "cloned attribute map")
        if element is not log and hasattr(element, "get_id"):
            expect(part.get_id() != element.get_id(), "cloned event keeps the identity of the original")
    for attribute in attributes(log):
        copy = attribute.clone()
        expect(type(copy) is type(attribute), "clone of a", type(attribute).__name__, "is a", type(copy).__name__)
        same(model.seen_attr(copy), model.seen_attr(attribute), "cloned attribute")
        expect(copy.get_extension() is attribute.get_extension(), "cloned attribute has another extension")
        expect(copy == attribute and not copy != attribute and hash(copy) == hash(attribute),
               "cloned attribute is not equal to its original:", attribute.get_key())
        same([links(c) for c in below(copy)], [links(c) for c in below(attribute)], "collections and maps of a cloned attribute")
    ctx.step(3 + sum(1 for _ in attributes(log)))
    same(full(log), before, "log after its parts were cloned")
    if not mutate:
        return
    number = sum(1 for _ in mutations(log))
    for side in (0, 1):
        for i in range(number):
            pair = [build(log_model)]
            pair.append(pair[0].clone())
            what, change = [m for j, m in enumerate(mutations(pair[side])) if j == i][0]
            change()
            same(full(pair[1 - side]), before, "%s after: %s of the %s" % (
                ["clone", "original"][side], what, ["original", "clone"][side]))
            ctx.step(2)
        pair = [build(log_model)]
        pair.append(pair[0].clone())
        for _, change in list(mutations(pair[side])):
            change()
        same(full(pair[1 - side]), before, "other side after all mutations")


RICH = {"x": ["concept", "time"], "gt": [["string", "g", "x", [["int", "n", 1, []]]]],
        "ge": [["list", "l", "b", [["date", "d", spaces.SAMPLE["date"], []]]], ["id", "i", spaces.UUID, []]],
        "c": [["c1", ["concept:name"]], ["c2", ["a", "b"]]],
        "a": [["container", "c", "b", [["string", "a", "1", []], ["string", "a", "2", []], ["list", "m", "c", [["int", "q", 1, []]]]]]],
        "t": [[[["boolean", "b", True, [["float", "f", 0.5, []]]]], [[["string", "concept:name", "e", [["id", "i", spaces.UUID, []]]]], []]],
              [[], [[["list", "l", "m", [["int", "z", 3, []]]]]]]]}


APART = [["string", "concept:name", "x", []], ["string", "a", "", []], ["int", "b", 3, []], ["id", "i", spaces.UUID, []], ["boolean", "c", True, []],
         ["float", "f", 1.5, []], ["date", "time:timestamp", spaces.SAMPLE["date"], []],
         ["string", "n", "x", [["string", "concept:name", "x", []], ["id", "m", spaces.UUID, [["string", "a", "", []]]]]],
         ["list", "l", "c", [["string", "concept:name", "x", []], ["string", "concept:name", "x", []], ["list", "l", "c", []]]],
         ["container", "k", "b", [["int", "b", 3, []], ["date", "e", spaces.SAMPLE["date"], [["int", "b", 3, []]]]]]]


def apart_cases(most):
    for n in range(most + 1):
        for chosen in itertools.combinations(range(len(APART)), n):
            for events in ([0], [2], [2, 1]):
                yield [list(chosen), events]


def elements_apart(ctx, case):
    """A clone of a log whose elements all say the same, and its clone: what is changed in one element stays there."""
    chosen, events = case
    attrs = [APART[i] for i in chosen]
    log = build({"x": ["concept"], "gt": attrs, "ge": attrs, "c": [], "a": attrs, "t": [[attrs, [attrs] * k] for k in events]})
    first = log.clone()
    apart.check(ctx, [log, first, first.clone()], "the log and its clones")


def foreign_cases():
    """Attributes of every kind that belong to an extension whatever their key is."""
    for kind in spaces.KINDS:
        for key in ("k", "concept:name", "time:x", "unknown:x", ":"):
            for extension in (None, "concept", "time", "identity"):
                for nested in ("k", "org:x"):
                    yield [kind, key, extension, nested]


def foreign(case):
    kind, key, extension, nested = case
    one = spaces.attr(kind, key, [spaces.attr(k, nested + k) + ["cost"] for k in spaces.KINDS])[:4] + [extension]
    return {"x": ["micro"], "gt": [one], "ge": [one], "c": [], "a": [one], "t": [[[one], [[one], []]]]}


def clone_shared(ctx, log_model, log):
    """The clone of a log in which one object is at several places shares
    nothing with it either."""
    before = full(log)
    ids = [str(e.get_id()) for t in log for e in t]
    ctx.state(repr(before))
    for what, clone in (("clone", log.clone()), ("clone of the clone", log.clone().clone())):
        same(full(clone), before, what)
        both = mutable(log).keys() & mutable(clone).keys()
        expect(not both, what, "shares with the original:", [mutable(log)[i] for i in both])
        expect(not set(ids) & {str(e.get_id()) for t in clone for e in t}, what, "has event ids of the original")
        for element in elements(clone):
            element.get_attributes()["changed"] = model.build_attr(["string", "changed", "x", []])
        for attribute in list(attributes(clone)):
            attribute.get_attributes()["changed"] = model.build_attr(["string", "changed", "x", []])
        same(full(log), before, "log after its clone was changed")
        ctx.step(2)
    for element in elements(log):
        same(model.seen_map(element.clone().get_attributes()), model.seen_map(element.get_attributes()), "attributes of a cloned element")
        expect(not hasattr(element, "get_id") or element.clone().get_id() != element.get_id(), "cloned event keeps the identity of the original")
    same([str(e.get_id()) for t in log for e in t], ids, "event ids of the log")


def families(tier):
    quick = tier == "quick"
    result = [shared.family(clone_shared, quick), origin.family(clone_shared), Family("elements-apart", lambda _: apart_cases(2 if quick else 3), elements_apart),
              Family("rich-log", lambda _: [0], lambda ctx, c: clone_log(ctx, RICH)),
              Family("all-kinds", lambda _: list(spaces.KINDS), lambda ctx, k: clone_log(
                  ctx, spaces.host("event", [spaces.attr(k, "k", [spaces.attr(k2, "n" + k2) for k2 in spaces.KINDS])]))),
              Family("small-trees", lambda _: (c for c in spaces.tree_cases(3 if not quick else 2) if c[0] in ("log", "trace", "event", "ge")),
                     lambda ctx, c: clone_log(ctx, {"t": [[[], [[]]]], **{
                         "log": {"a": spaces.tree_attrs(c[2], c[1])}, "ge": {"ge": spaces.tree_attrs(c[2], c[1])},
                         "trace": {"t": [[spaces.tree_attrs(c[2], c[1]), [[]]]]},
                         "event": {"t": [[[], [spaces.tree_attrs(c[2], c[1])]]]}}[c[0]]}))]
    result.append(Family("extensions-of-attributes", lambda _: foreign_cases(), lambda ctx, c: clone_log(ctx, foreign(c), c[2] == "time")))
    for name, cases, log_of in structure_spaces(tier):
        if name == "positions":
            cases = lambda: spaces.position_cases(2 if quick else 3)  # noqa: E731
        if name == "attribute-trees":
            cases = lambda: spaces.tree_cases(3 if quick else 4)  # noqa: E731
        result.append(Family(name, lambda _, cases=cases: cases(),
                             lambda ctx, case, log_of=log_of: clone_log(ctx, log_of(case), False)))
    return [looks.family("P09"), values.cloned(tier)] + result
