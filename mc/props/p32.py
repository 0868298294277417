"""P32: traces and logs are lists of their members; elements that were made apart share nothing; events are told by their ids."""
import itertools
from urllib.parse import urlparse
from mc import looks, model, spaces
from mc.core import Family, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = ["all members of traces are events and all members of logs are traces"]


def factory():
    from opyenxes.factory.XFactory import XFactory
    return XFactory


# every operation is applied to the trace or log and to a plain list
OPS = [lambda l, p, f: l.append(f), lambda l, p, f: l.insert(0, f), lambda l, p, f: l.insert(1, p[0]), lambda l, p, f: l.append(p[0]),
       lambda l, p, f: l.extend([p[1], f]), lambda l, p, f: l.reverse(), lambda l, p, f: l.pop(), lambda l, p, f: l.pop(0),
       lambda l, p, f: l.remove(p[0]), lambda l, p, f: l.__delitem__(slice(0, 2)), lambda l, p, f: l.__setitem__(0, p[1]),
       lambda l, p, f: l.clear(), lambda l, p, f: l.__setitem__(slice(1, 1), [p[0], p[1]]), lambda l, p, f: l.insert(-1, f),
       lambda l, p, f: l.__iadd__([p[1]]), lambda l, p, f: l.__imul__(2)]
QUERIES = [lambda l, p: l.index(p[0]), lambda l, p: l.count(p[0]), lambda l, p: p[1] in l, lambda l, p: len(l), lambda l, p: bool(l)]


def attempt(action):
    try:
        return "value", action()
    except (IndexError, KeyError, ValueError) as error:
        return "error", type(error).__name__


def as_list(ctx, case):
    kind, ops = case
    make = factory().create_event if kind == "trace" else factory().create_trace
    holder = factory().create_trace() if kind == "trace" else factory().create_log()
    holder.get_attributes()["a"] = model.build_attr(["string", "a", "v", []])
    plain = []
    pool = [make(), make()]
    if kind == "log":
        # traces are compared by their events
        pool[0].append(factory().create_event())
        pool[1].append(factory().create_event())
    for op in ops:
        fresh = make()
        if kind == "log":
            fresh.append(factory().create_event())
        got = attempt(lambda: OPS[op](holder, pool, fresh))
        wanted = attempt(lambda: OPS[op](plain, pool, fresh))
        same(got[0], wanted[0], "operation %d" % op)
        if got[0] == "error" or op in (6, 7):
            expect(got[1] is wanted[1] or got[1] == wanted[1], "operation", op, "gave", got[1], "not", wanted[1])
        expect(len(holder) == len(plain) and all(a is b for a, b in zip(holder, plain)), "members after operations", ops)
        expect(all(holder[i] is plain[i] for i in range(-len(plain), len(plain))), "indexing after operations", ops)
        for query in QUERIES:
            same(attempt(lambda: query(holder, pool)), attempt(lambda: query(plain, pool)), "query after operations %s" % ops)
        same(model.seen_map(holder.get_attributes()), model.expected_attrs([["string", "a", "v", []]]), "attributes")
        ctx.step()
    ctx.state(repr([pool.index(m) if m in pool else "new" for m in plain]))
    if kind == "trace":
        other = factory().create_trace()
        other.extend(plain)
        expect(other == holder and hash(other) == hash(holder), "a trace with the same events differs")
        expect(hash(holder) == hash(holder), "the hash of a trace changes")
        if plain:
            other.pop()
            expect(other != holder, "a trace with fewer events is equal")


def list_cases(depth):
    for kind in ("trace", "log"):
        for n in range(1, depth + 1):
            for ops in itertools.product(range(len(OPS)), repeat=n):
                yield [kind, list(ops)]


# every operation is applied to an attribute map and to a dictionary
MAP_OPS = [lambda m, p: m.__setitem__("a", p[0]), lambda m, p: m.__setitem__("a", p[1]), lambda m, p: m.__setitem__("b", p[2]),
           lambda m, p: m.__delitem__("a"), lambda m, p: m.pop("a"), lambda m, p: m.pop("b", None), lambda m, p: m.popitem(),
           lambda m, p: m.setdefault("a", p[1]), lambda m, p: m.setdefault("c", p[3]), lambda m, p: m.update({"b": p[2], "a": p[0]}),
           lambda m, p: m.update([("c", p[3])]), lambda m, p: m.update(a=p[1]), lambda m, p: m.clear(), lambda m, p: m.__ior__({"c": p[3]})]
MAP_QUERIES = [lambda m, p: m["a"], lambda m, p: m.get("a"), lambda m, p: m.get("b", p[0]), lambda m, p: "a" in m, lambda m, p: None in m, len, bool]


def as_dictionary(ctx, case):
    holder, ops = case
    one = makers()[holder]()
    pool = [model.build_attr(a) for a in (["string", "a", "x", []], ["int", "a", 1, []], ["list", "b", "b", [["string", "x", "y", []]]],
                                          ["boolean", "c", False, [["int", "n", 0, []]]])]
    plain = {}
    attributes = one.get_attributes()
    for op in ops:
        got, wanted = (attempt(lambda m=m: MAP_OPS[op](m, pool)) for m in (attributes, plain))
        same(got[0], wanted[0], "operation %d" % op)
        if op != 13:
            expect(got[1] is wanted[1] or got[1] == wanted[1], "operation", op, "gave", got[1], "not", wanted[1])
        expect(one.get_attributes() is attributes, "the element has another map after operations", ops)
        for seen, known in ((list(attributes), list(plain)), (list(attributes.keys()), list(plain.keys()))):
            same(seen, known, "keys after operations %s" % ops)
        expect(all(a is b for a, b in itertools.zip_longest(attributes.values(), plain.values())), "values after operations", ops)
        expect(all(a == k and b is v for (a, b), (k, v) in itertools.zip_longest(attributes.items(), plain.items())), "items after operations", ops)
        for query in MAP_QUERIES:
            if query in (len, bool):
                same(query(attributes), query(plain), "size after operations %s" % ops)
            else:
                a, b = (attempt(lambda m=m: query(m, pool)) for m in (attributes, plain))
                expect(a[0] == b[0] and (a[1] is b[1] or a[1] == b[1]), "query after operations", ops, "gave", a, "not", b)
        same((attributes.is_empty(), one.has_attributes()), (not plain, bool(plain)), "emptiness after operations %s" % ops)
        expect(attributes == plain and not attributes != plain, "the map differs from the dictionary after operations", ops)
        copy = attributes.clone()
        same(list(copy), list(plain), "keys of a clone after operations %s" % ops)
        expect(type(copy) is type(attributes) and copy == attributes and all(a is not b for a, b in zip(copy.values(), plain.values())), "clone after operations", ops)
        ctx.step()
    ctx.state(repr((holder, [(k, pool.index(v)) for k, v in plain.items()])))


def map_histories(depth):
    for holder in ("event", "trace", "log", "string", "list"):
        for n in range(1, depth + 1):
            for ops in itertools.product(range(len(MAP_OPS)), repeat=n):
                yield [holder, list(ops)]


def makers():
    from opyenxes.model.XEvent import XEvent
    from opyenxes.model.XTrace import XTrace
    from opyenxes.model.XLog import XLog
    from opyenxes.model.XAttributeMap import XAttributeMap
    f = factory()
    made = {"event": f.create_event, "event by class": XEvent, "event with a map": lambda: XEvent(XAttributeMap()), "trace": f.create_trace,
            "trace by class": lambda: XTrace(XAttributeMap()), "trace without a map": lambda: XTrace(None), "log": f.create_log,
            "log by class": lambda: XLog(XAttributeMap()), "log without a map": lambda: XLog(None),
            "string": lambda: f.create_attribute_literal("k", "v", None), "int": lambda: f.create_attribute_discrete("k", 1, None),
            "float": lambda: f.create_attribute_continuous("k", 1.0, None), "boolean": lambda: f.create_attribute_boolean("k", True, None),
            "date": lambda: f.create_attribute_timestamp("k", 0, None),
            "id": lambda: f.create_attribute_id("k", model.build_value("id", "00000000-0000-4000-8000-000000000001"), None),
            "list": lambda: f.create_attribute_list("k", None), "container": lambda: f.create_attribute_container("k", None)}
    return made


def contents(one):
    seen = [sorted(one.get_attributes())]
    if hasattr(one, "get_collection"):
        seen.append(list(one.get_collection()))
    if isinstance(one, list):
        seen.append(list(one))
    for name in ("get_classifiers", "get_global_event_attributes", "get_global_trace_attributes", "get_features"):
        if hasattr(one, name):
            seen.append(list(getattr(one, name)()))
    if hasattr(one, "get_classifiers"):
        seen.append(sorted(e.get_name() for e in one.get_extensions()))
    return seen


def change(one):
    """Puts something everywhere."""
    from opyenxes.extension.XExtension import XExtension
    from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
    attribute = model.build_attr(["string", "new", "x", []])
    one.get_attributes()["new"] = attribute
    if hasattr(one, "get_collection"):
        one.add_to_collection(attribute)
    if hasattr(one, "get_classifiers"):
        one.append(factory().create_trace())
        one.get_classifiers().append(XEventNameClassifier())
        one.get_global_event_attributes().append(attribute)
        one.get_global_trace_attributes().append(attribute)
        one.set_features("f", "v")
        one.get_extensions().add(XExtension("E", "e", urlparse("http://e")))
        one.set_info(XEventNameClassifier(), "info")
    elif isinstance(one, list):
        one.append(factory().create_event())


def separate(ctx, case):
    """What is done to one element is not seen in any other, made before or after."""
    made = makers()
    before = {name: [make(), make()] for name, make in made.items()}
    empty = {name: contents(pair[0]) for name, pair in before.items()}
    for name in case:
        change(before[name][0])
        expect(contents(before[name][0]) != empty[name], "the change of a", name, "is lost")
    for name, pair in before.items():
        for one in (pair[1], made[name]()) + ((pair[0],) if name not in case else ()):
            same(contents(one), empty[name], "contents of a %s after others were changed: %s" % (name, case))
            if hasattr(one, "get_info"):
                from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
                same(one.get_info(XEventNameClassifier()), None, "info of another log")
            ctx.step()
    ctx.state(repr(case))


def separate_cases(most):
    names = ["event", "event by class", "event with a map", "trace", "trace by class", "trace without a map", "log", "log by class",
             "log without a map", "string", "int", "float", "boolean", "date", "id", "list", "container"]
    for n in range(1, most + 1):
        for c in itertools.combinations(names, n):
            yield list(c)


def given_maps(ctx, case):
    """An element made with attributes has exactly these."""
    from opyenxes.id.XID import XID
    kind, attrs, holder = case
    from opyenxes.model.XAttributeMap import XAttributeMap
    from opyenxes.model.XEvent import XEvent
    from opyenxes.model.XTrace import XTrace
    from opyenxes.model.XLog import XLog
    attributes = {"map": XAttributeMap, "subclass": type("OwnMap", (XAttributeMap,), {})}[holder]({a[1]: model.build_attr(a) for a in attrs})
    identity = XID.parse("00000000-0000-4000-8000-000000000007")
    one = {"event": lambda: factory().create_event(attributes), "event with id": lambda: factory().create_event(attributes, identity),
           "event by class": lambda: XEvent(attributes), "trace by class": lambda: XTrace(attributes), "log by class": lambda: XLog(attributes),
           "trace": lambda: factory().create_trace(attributes), "log": lambda: factory().create_log(attributes)}[kind]()
    same(model.seen_map(one.get_attributes()), model.expected_attrs(attrs), "attributes of a new " + kind)
    if kind == "event with id":
        expect(one.get_id() == identity, "the id of a new event is", str(one.get_id()))
    if not kind.startswith("event"):
        same(len(one), 0, "members of a new " + kind)
    other = XAttributeMap(attributes)
    other["more"] = model.build_attr(["int", "more", 1, []])
    same(sorted(attributes), sorted(a[1] for a in attrs), "keys of a map after its copy changed")
    same((len(attributes) == 0, one.has_attributes()), (not attrs, bool(attrs)), "emptiness")
    expect(all(one.get_attributes()[k] is v for k, v in attributes.items()), "the attributes of a new", kind, "are other ones than given")
    one.get_attributes()["yet more"] = model.build_attr(["int", "yet more", 1, []])
    same(sorted(one.get_attributes()), sorted([a[1] for a in attrs] + ["yet more"]), "keys after adding one")
    ctx.state(repr(case))
    ctx.step(3)


def map_cases():
    pool = [["string", "a", "x", []], ["int", "b", 0, [["int", "c", 1, []]]], ["boolean", "d", False, []]]
    for kind in ("event", "event with id", "event by class", "trace", "trace by class", "log", "log by class"):
        for n in range(len(pool) + 1):
            for c in itertools.permutations(pool, n):
                for holder in ("map", "subclass"):
                    yield [kind, list(c), holder]


def identities(ctx, ops):
    """Events are equal exactly when their ids are; attributes do not matter."""
    from opyenxes.id.XID import XID
    ids = [XID.parse("00000000-0000-4000-8000-00000000000%d" % i) for i in range(2)]
    events = [factory().create_event(), factory().create_event(None, ids[0]), model.build_event([["string", "a", "x", []]])]
    tags = ["own0", 0, "own2"]
    for op in ops:
        which, what = op % 3, op // 3
        if what < 2:
            events[which].set_id(XID.parse(str(ids[what])))
            tags[which] = what
        elif what == 2:
            events[which] = events[which].clone()
            tags[which] = "new%d" % len(ctx.states) + repr(ops[:1]) + str(which) + str(id(events[which]))
        else:
            events[which].get_attributes()["b"] = model.build_attr(["int", "b", op, []])
        for (a, ta), (b, tb) in itertools.product(zip(events, tags), repeat=2):
            equal = a is b or ta == tb
            expect((a == b) is equal and (a != b) is not equal, "equality of events after", ops, "is wrong")
            if equal:
                expect(hash(a) == hash(b), "equal events have different hashes")
        trace = factory().create_trace()
        trace.append(events[0])
        same(events[1] in trace, tags[0] == tags[1], "membership in a trace")
        expect(events[0] != "x" and not events[0] == None, "an event equals something else")  # noqa: E711
        ctx.step()
    ctx.state(repr([t for t in tags if not isinstance(t, str)]))


def identity_cases(depth):
    for n in range(1, depth + 1):
        for ops in itertools.product(range(12), repeat=n):
            yield list(ops)


def sizes(ctx, case):
    """Operations on traces, logs and maps with many members."""
    kind, n, op = case
    if kind == "map":
        pool = [model.build_attr(a) for a in (["string", "a", "x", []], ["int", "a", 1, []], ["list", "b", "b", [["string", "x", "y", []]]],
                                              ["boolean", "c", False, [["int", "n", 0, []]]])]
        attributes, plain = factory().create_event().get_attributes(), {}
        for i, a in enumerate(spaces.odd_attributes(n)):
            made = model.build_attr(a)
            attributes[a[1]] = plain[a[1]] = made
        for number in (op, 0, op, 9, op):
            got, wanted = (attempt(lambda m=m: MAP_OPS[number](m, pool)) for m in (attributes, plain))
            same(got[0], wanted[0], "operation %d" % number)
            expect(list(attributes) == list(plain) and all(attributes[k] is plain[k] and attributes.get(k) is plain[k] and k in attributes for k in plain), "map after operation", number)
            expect(attributes == plain and len(attributes) == len(plain), "the map differs from the dictionary after operation", number)
            copy = attributes.clone()
            same([(k, model.seen_attr(a)) for k, a in copy.items()], [(k, model.seen_attr(a)) for k, a in plain.items()], "clone")
            ctx.step()
        ctx.state(repr(case))
        return
    make = factory().create_event if kind == "trace" else factory().create_trace
    holder = factory().create_trace() if kind == "trace" else factory().create_log()
    plain, pool = [], [make(), make()]
    for i in range(n):
        one = make() if i % 4 else pool[i // 4 % 2]
        if kind == "log" and i % 4:
            one.append(factory().create_event())
        holder.append(one)
        plain.append(one)
    if kind == "log":
        pool[0].append(factory().create_event())
        pool[1].append(factory().create_event())
    for number in (op, 3, op, 5, op):
        fresh = make()
        if kind == "log":
            fresh.append(factory().create_event())
        got, wanted = (attempt(lambda m=m: OPS[number](m, pool, fresh)) for m in (holder, plain))
        same(got[0], wanted[0], "operation %d" % number)
        expect(len(holder) == len(plain) and all(a is b for a, b in zip(holder, plain)), "members after operation", number)
        expect(all(holder[i] is plain[i] for i in range(-len(plain), len(plain))), "indexing after operation", number)
        for query in QUERIES:
            same(attempt(lambda: query(holder, pool)), attempt(lambda: query(plain, pool)), "query after operation %d" % number)
        ctx.step()
    ctx.state(repr(case))


def size_cases(tier):
    for kind, ops in (("trace", OPS), ("log", OPS), ("map", MAP_OPS)):
        for n in spaces.steps(tier, 300 if tier == "quick" else 1025):
            for op in range(len(ops)):
                yield [kind, n, op]


def many_insertions(ctx, case):
    """Events put into a trace by their time stay in the order of their times."""
    n, way = case
    from datetime import datetime, timedelta, timezone
    trace = factory().create_trace()
    plain = []
    for i in range(n):
        one = model.build_event([["int", "n", i, []]])
        stamp = None
        if way < 2 or i % 5:
            stamp = datetime(2020, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=[i, -i, i * 37 % 101, 5][way])
            one.get_attributes()["time:timestamp"] = factory().create_attribute_timestamp("time:timestamp", stamp, None)
        trace.append(one)
        plain.append(one)
    other = factory().create_trace()
    other.extend(plain)
    expect(other == trace and hash(other) == hash(trace), "a trace with the same events differs")
    expect(all(a is b for a, b in zip(trace, plain)) and len(trace) == n, "events of the trace")
    ctx.state(repr(case))
    ctx.step()


def families(tier):
    quick = tier == "quick"
    return [
        looks.family("P32"),
        Family("list-operations", lambda _: list_cases(4 if quick else 5), as_list),
        Family("map-operations", lambda _: map_histories(3 if quick else 4), as_dictionary),
        Family("sizes", lambda _: size_cases(tier), sizes),
        Family("many-events", lambda _: [[n, w] for n in spaces.steps(tier) for w in range(4)], many_insertions),
        Family("separate-elements", lambda _: separate_cases(2 if quick else 4), separate),
        Family("given-attributes", lambda _: map_cases(), given_maps),
        Family("event-identities", lambda _: identity_cases(3 if quick else 4), identities),
    ]
