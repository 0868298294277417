"""P33: a wrapped event shows and changes the event itself, through the standard extensions."""
import itertools
from mc import looks, model, spaces
from mc.core import Family, same, expect
from mc.props import p20
from mc.props.p20 import TABLE, STRIPPED, extension

LEVEL = "model_checking"
ASSUMPTIONS = ["resource, role and group are given as text; the wrapper has an id of its own"]
# row of the table, getter, setter, does the setter strip
ACCESS = [(0, "get_name", "set_name", False), (1, "get_instance", "set_instance", False), (2, "get_resourse", "set_resource", True),
          (3, "get_role", "set_role", True), (4, "get_group", "set_group", True), (6, "get_transition", "set_transition", False),
          (16, "get_time_stamp", "set_time_stamp", False), (17, "get_model_references", "set_model_references", False)]
STANDARD = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete", "autoskip",
            "manualskip", "unknown"]


def kept(access, value):
    row = TABLE[access[0]]
    if access[3] or row[2] in STRIPPED:
        return value.strip()
    return value


def compare(ctx, wrappers, event, reference, what):
    for wrapper in wrappers:
        for access in ACCESS:
            row = TABLE[access[0]]
            seen = getattr(wrapper, access[1])()
            if row[3] == "date" and seen is not None:
                seen = model.canon_datetime(seen)
            if seen is not None and row[1] == "model_references":
                seen = list(seen)
            wanted = p20.extracted(row, reference.get(access[0]))
            same(seen, wanted, "%s after %s" % (access[1], what))
        transition = reference.get(5 + 1)
        same(wrapper.get_standard_transition(), None if transition is None else
             transition.strip().lower() if transition.strip().lower() in STANDARD else "unknown", "get_standard_transition after %s" % what)
        same([u.geturl() for u in wrapper.get_model_references_uris()], list(reference.get(17, [])), "get_model_references_uris after %s" % what)
        expect(wrapper == wrapper and not wrapper != wrapper and hash(wrapper) == hash(wrapper), "the wrapper does not equal itself")
        expect(wrapper.get_attributes() is event.get_attributes(), "the wrapper has other attributes than the event")
        same(wrapper.has_attributes(), event.has_attributes(), "has_attributes")
        same(sorted(e.get_name() for e in wrapper.get_extensions()), sorted({model.STANDARD[TABLE[n][0]][0] for n in reference}), "extensions")
        ctx.step(len(ACCESS) + 5)
    same(sorted(k for k in event.get_attributes() if k != "other"), sorted(TABLE[n][2] for n in reference), "keys of the event after %s" % what)


def values(access):
    row = TABLE[access[0]]
    return [row[4][0], row[4][1]]


OPS = [[how, a, v] for how in ("wrapper", "extension") for a in range(len(ACCESS)) for v in (0, 1)] + \
      [["remove", a, 0] for a in range(len(ACCESS))] + [["standard", s, 0] for s in (0, 9)] + [["uris", v, 0] for v in (0, 1)] + \
      [["attributes", 0, 0], ["wrap", 0, 0], ["clone", 0, 0]]


def history(ctx, ops):
    for other in (True, False) if len(ops) < 3 else (sum(ops) % 2,):
        of_event(ctx, ops, other)


def of_event(ctx, ops, other):
    from urllib.parse import urlparse
    from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
    from opyenxes.factory.XFactory import XFactory
    event = XFactory.create_event()
    identity = event.get_id()
    if other:
        event.get_attributes()["other"] = model.build_attr(["string", "other", "o", []])
    wrappers = [XExtendedEvent(event), XExtendedEvent.wrap(event)]
    wrappers.append(XExtendedEvent.wrap(wrappers[0]))
    reference = {}
    for n in ops:
        how, a, v = OPS[n]
        wrapper = wrappers[n % 3]
        if how in ("wrapper", "extension"):
            access = ACCESS[a]
            row = TABLE[access[0]]
            value = values(access)[v]
            given = p20.given(row[3], value)
            if how == "wrapper":
                getattr(wrapper, access[2])(given)
                reference[access[0]] = kept(access, value)
            else:
                getattr(extension(row[0]), "assign_" + row[1])(event, given)
                reference[access[0]] = value.strip() if row[2] in STRIPPED else value
        elif how == "remove":
            event.get_attributes().pop(TABLE[ACCESS[a][0]][2], None)
            reference.pop(ACCESS[a][0], None)
        elif how == "standard":
            wrapper.set_standard_transition(STANDARD[a])
            reference[6] = STANDARD[a]
        elif how == "uris":
            wrapper.set_model_references_uris([urlparse(u) for u in values(ACCESS[7])[a]])
            reference[17] = values(ACCESS[7])[a]
        elif how == "attributes":
            fresh = XFactory.create_attribute_map()
            fresh["concept:name"] = model.build_attr(["string", "concept:name", "replaced", []])
            wrapper.set_attributes(fresh)
            reference = {0: "replaced"}
        elif how == "wrap":
            wrappers.append(XExtendedEvent.wrap(event))
        else:
            copy = wrapper.clone()
            before = model.seen_map(event.get_attributes())
            same(model.seen_map(copy.get_attributes()), before, "attributes of the copy")
            expect(copy.get_attributes() is not event.get_attributes() and copy != wrapper and copy.get_id() != wrapper.get_id(), "the copy is the wrapper")
            copy.set_name("changed in the copy")
            copy.set_group("g")
            same(model.seen_map(event.get_attributes()), before, "attributes of the event after its copy changed")
        expect(event.get_id() == identity, "the event got another id")
        compare(ctx, wrappers, event, reference, [OPS[o] for o in ops])
    ctx.state(repr(sorted(reference.items())))


def histories(depth):
    for n in range(1, depth + 1):
        for ops in itertools.product(range(len(OPS)), repeat=n):
            yield list(ops)


def one_value(ctx, case):
    """Every value through the wrapper, with and without surrounding space; blank ones are not assigned."""
    from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
    from opyenxes.factory.XFactory import XFactory
    a, value, earlier = case
    access = ACCESS[a]
    row = TABLE[access[0]]
    event = XFactory.create_event()
    wrapper = XExtendedEvent(event)
    reference = {}
    if earlier:
        getattr(wrapper, access[2])(p20.given(row[3], values(access)[0]))
        reference[access[0]] = kept(access, values(access)[0])
    getattr(wrapper, access[2])(p20.given(row[3], value))
    if not isinstance(value, str) or value.strip():
        reference[access[0]] = kept(access, value)
    compare(ctx, [wrapper], event, reference, case)
    ctx.state(repr(reference))


def value_cases():
    for a, access in enumerate(ACCESS):
        row = TABLE[access[0]]
        given = list(row[4])
        if row[3] == "string" and row[1] != "model_references":
            given += ["", " ", "\t\n", " padded ", "MiXed Case", "\u00e9\u4e2d", "a\tb", "0", "None"] + [c for c in spaces.SPECIAL] + spaces.literals()[0]
        for value in given:
            yield [a, value, 0]
            yield [a, value, 1]


def identity(ctx, kinds):
    """Wrappers, copies of wrappers and events: which are equal, and how they are found in sets."""
    from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
    from opyenxes.factory.XFactory import XFactory
    events = [XFactory.create_event(), XFactory.create_event()]
    made = []
    for kind in kinds:
        if kind < 2:
            made.append(XExtendedEvent(events[kind]))
        elif kind < 4:
            made.append(XExtendedEvent.wrap(events[kind - 2]))
        else:
            made.append(made[0].clone() if made else XExtendedEvent(events[0]).clone())
    for i, a in enumerate(made):
        for j, b in enumerate(made):
            same((a == b, a != b), (i == j, i != j), "comparison of wrappers %d and %d" % (i, j))
        for other in events + [None, 0, a.get_id(), str(a.get_id()), a.get_attributes(), object()]:
            same((a == other, a != other), (False, True), "comparison with %s" % type(other).__name__)
        same(hash(a), hash(a), "hash")
    same(len(set(made)), len(made), "number of wrappers")
    same([made.index(a) for a in made], list(range(len(made))), "places of wrappers")
    ctx.step(len(made) ** 2)
    ctx.state(repr(kinds))


def found_kinds(access):
    """Attributes that may be in the event already: of other kinds, without the extension, with something nested."""
    row = TABLE[access[0]]
    key = row[2]
    text = values(access)[0]
    if row[3] == "date":
        return [["date", key, text, [], None], ["date", key, text, [["string", "x", "n", []]], None], ["string", key, "2016", []]]
    text = " ".join(text) if isinstance(text, (list, tuple)) else text
    return [[kind, key, value, nested, extension] for value in (text, text.strip(), " " + text, text.upper(), "other")
            for kind in ("string",) for extension in (None, "concept", "org") for nested in ([], [["string", "x", "n", []]])] + [
        ["boolean", key, True, []], ["int", key, 5, []], ["id", key, "123e4567-e89b-12d3-a456-426614174000", []]]


def found(ctx, case):
    """An event that has the attribute already: set through the wrapper it is as the extension assigns it."""
    from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
    a, n, v, twice = case
    access = ACCESS[a]
    row = TABLE[access[0]]
    start = [["string", "other", "o", []], found_kinds(access)[n]]
    mine, wanted = model.build_event(start), model.build_event(start)
    value = values(access)[v]
    if v and row[3] == "string" and isinstance(value, str):
        value = values(access)[0].strip()
    wrapper = XExtendedEvent(mine)
    for again in range(1 + twice):
        for wrong in (0, 1) if twice else (0,):
            # asking does not change anything
            before = model.seen_map(mine.get_attributes())
            try:
                wrapper.get_standard_transition()
                getattr(wrapper, access[1])()
            except (AttributeError, TypeError, ValueError):
                expect(found_kinds(access)[n][0] not in ("string", "date"), access[1], "failed")
            same(model.seen_map(mine.get_attributes()), before, "attributes after %s" % access[1])
        getattr(wrapper, access[2])(p20.given(row[3], value))
        getattr(extension(row[0]), "assign_" + row[1])(wanted, p20.given(row[3], kept(access, value)))
        same(model.seen_map(mine.get_attributes()), model.seen_map(wanted.get_attributes()), "attributes after %s" % access[2])
    ctx.step(3)
    ctx.state(repr(case))


def found_cases():
    for a, access in enumerate(ACCESS):
        for n in range(len(found_kinds(access))):
            for v in (0, 1):
                for twice in (0, 1):
                    yield [a, n, v, twice]


def sizes(ctx, case):
    """Long texts; many other attributes; many references; many wrappers."""
    from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
    what, n = case
    if what == "text":
        word = "x" + spaces.odd_text(n)
        for a in range(7):
            if TABLE[ACCESS[a][0]][3] == "string":
                one_value(ctx, [a, word, n % 2])
        return
    event = model.build_event([] if what != "attributes" else [a for a in spaces.odd_attributes(n) if a[1] != "concept:name"])
    others = set(event.get_attributes())
    wrappers = [XExtendedEvent(event)] * 1
    for i in range(n if what == "wrappers" else 3):
        for a, access in enumerate(ACCESS):
            row = TABLE[access[0]]
            value = values(access)[(i + a) % 2]
            if row[1] == "model_references" and what == "references":
                value = ["http://a/b#%d" % (k * 7 % 31) for k in range(n + 1)]
            getattr(wrappers[-1], access[2])(p20.given(row[3], value))
            for wrapper in (wrappers[0], wrappers[-1]):
                seen = getattr(wrapper, access[1])()
                seen = model.canon_datetime(seen) if row[3] == "date" else list(seen) if row[1] == "model_references" else seen
                same(seen, p20.extracted(row, kept(access, value)), access[1])
        wrappers.append(XExtendedEvent.wrap(event))
    same(set(event.get_attributes()) - {TABLE[access[0]][2] for access in ACCESS}, others - {TABLE[access[0]][2] for access in ACCESS}, "other attributes")
    same(len(set(wrappers)), len(wrappers), "number of wrappers")
    ctx.step(n)
    ctx.state(repr(case))


def size_cases(tier):
    for n in spaces.steps(tier):
        yield from (["attributes", n], ["references", n], ["wrappers", n], ["text", n])
    for n in spaces.LENGTHS:
        yield ["text", n]


def families(tier):
    return [Family("identity", lambda _: (list(c) for n in range(1, 5) for c in itertools.product(range(5), repeat=n)), identity),
        looks.family("P33"), Family("histories", lambda _: histories(2 if tier == "quick" else 3), history),
            Family("found-attributes", lambda _: found_cases(), found),
            Family("sizes", lambda _: size_cases(tier), sizes),
            Family("values", lambda _: value_cases(), one_value)]
