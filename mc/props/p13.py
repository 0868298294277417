"""P13: event classes are a partition of the registered events, with exact sizes and dense unique indices."""
import itertools
from mc import looks, model, spaces
from mc.core import Family, Violation, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = []
NAMES = ["b", "a", "", "B", "\u00e9", "ab", None, "a&&b", "10", "9", "\U0001f600", "\uffff", "a ", " ", "\tA"]


def classifier(keys=("concept:name",)):
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    return XEventAttributeClassifier("c", list(keys))


def event(name, transition=None):
    return model.build_event([["string", k, v, []] for k, v in (("concept:name", name), ("lifecycle:transition", transition))
                              if v is not None])


def trace(names):
    from opyenxes.factory.XFactory import XFactory
    result = XFactory.create_trace()
    for name in names:
        result.append(event(name))
    return result


def log(lists):
    from opyenxes.factory.XFactory import XFactory
    result = XFactory.create_log()
    for names in lists:
        result.append(trace(names))
    return result


class Reference:
    def __init__(self):
        self.order = []
        self.sizes = {}

    def add(self, identity, n=1):
        if identity not in self.sizes:
            self.order.append(identity)
            self.sizes[identity] = 0
        self.sizes[identity] += n

    def harmonize(self):
        self.order = sorted(self.order)


def compare(ctx, classes, reference, harmonized):
    seen = list(classes.get_classes())
    same(len(classes), len(reference.order), "number of classes")
    same(sorted(c.get_id() for c in seen), sorted(reference.order), "identities of the classes")
    same({c.get_id(): c.size() for c in seen}, reference.sizes, "sizes of the classes")
    same({c.get_id(): c.get_index() for c in seen}, {i: n for n, i in enumerate(reference.order)}, "indices of the classes")
    if harmonized:
        same([c.get_id() for c in sorted(seen)], reference.order, "sorted classes")
    for n, identity in enumerate(reference.order):
        one = classes.get_by_identity(identity)
        expect(one is not None and one.get_id() == identity and str(one) == identity, "get_by_identity of", identity)
        expect(classes.get_by_index(n) is one, "get_by_index of", n)
        expect(any(one is c for c in seen), "class", identity, "is not among the classes")
    for n in (-1, len(reference.order), len(reference.order) + 1):
        same(classes.get_by_index(n), None, "get_by_index of %d" % n)
    same(classes.get_by_identity("not there"), None, "get_by_identity of an unknown identity")
    expect(classes.get_classifier().name() in str(classes), "the text", str(classes), "does not name the classifier", classes.get_classifier().name())
    expect(classes == classes and not classes != classes, "classes differ from themselves")
    ctx.step()
    ctx.state(repr((reference.order, sorted(reference.sizes.items()))))


# the same events and traces again and again
SHARED = {}


def shared():
    if not SHARED:
        first, second = event("b"), event(None)
        SHARED["trace"] = trace([])
        SHARED["trace"].extend([first, second, first])
        SHARED["log"] = log([])
        SHARED["log"].extend([SHARED["trace"], trace("a"), SHARED["trace"]])
        SHARED["event"] = first
    return SHARED


OPS = ["shared event", "shared trace", "shared log", "event b", "event a", "event none", "event \u00e9", "text b", "text ", "text b ", "event  A", "trace a a b", "trace", "log ab/b/", "harmonize"]


def apply(classes, reference, op):
    what, _, rest = op.partition(" ")
    if what == "event":
        name = None if rest == "none" else rest
        one = event(name)
        classes.register(one)
        reference.add(name or "")
        found = classes.get_class_of(one)
        expect(found is not None and found is classes.get_by_identity(name or ""), "class of the registered event")
    elif what == "shared":
        classes.register(shared()[rest])
        for name in {"event": ["b"], "trace": ["b", "", "b"], "log": ["b", "", "b", "a", "b", "", "b"]}[rest]:
            reference.add(name)
    elif what == "text":
        classes.register(rest)
        reference.add(rest)
    elif what == "trace":
        classes.register(trace(rest.split()))
        for name in rest.split():
            reference.add(name)
    elif what == "log":
        classes.register(log([list(part) for part in rest.split("/")]))
        for name in "abb":
            reference.add(name)
    else:
        classes.harmonize_indices()
        reference.harmonize()


def history(ctx, case):
    from opyenxes.classification.XEventClasses import XEventClasses
    used = classifier()
    classes, reference = XEventClasses(used), Reference()
    expect(classes.get_classifier() is used, "get_classifier is another one")
    same(classes.get_class_of(event("a")), None, "class of an event in an empty set")
    harmonized = False
    for number in case:
        apply(classes, reference, OPS[number])
        harmonized = OPS[number] == "harmonize"
        compare(ctx, classes, reference, harmonized)
    for other in (None, 5, b"b", ["b"]):
        try:
            classes.register(other)
        except Exception:
            pass
        else:
            raise Violation("registering %r is taken as something" % (other,))
    compare(ctx, classes, reference, harmonized)
    for same_keys, equal in ((classifier(), True), (classifier(("concept:name", "x")), False)):
        other = XEventClasses(same_keys)
        same((classes == other, classes != other, other == classes), (equal, not equal, equal), "classes of an equal or another classifier are equal")
    same((classes == "c", classes != None), (False, True), "classes and something else are equal")


def histories(depth):
    for n in range(1, depth + 1):
        for ops in itertools.product(range(len(OPS)), repeat=n):
            yield list(ops)


def derived(ctx, case):
    """Classes derived from a log: the recount of its events, indices in the
    order of the identities, every event in its class."""
    from opyenxes.classification.XEventClasses import XEventClasses
    from opyenxes.factory.XFactory import XFactory
    keys, lists = case
    made = XFactory.create_log()
    reference = Reference()
    events = []
    for numbers in lists:
        row = XFactory.create_trace()
        for n in numbers:
            name, transition = NAMES[n], NAMES[(n * 4 + 1) % len(NAMES)]
            values = {"concept:name": name, "lifecycle:transition": transition}
            row.append(event(name, transition))
            identity = "&&".join(values.get(k) or "" for k in keys)
            reference.add(identity)
            events.append((row[-1], identity))
        made.append(row)
    reference.harmonize()
    classes = XEventClasses.derive_event_classes(classifier(keys), made)
    compare(ctx, classes, reference, True)
    for one, identity in events:
        found = classes.get_class_of(one)
        expect(found is not None, "an event of the log has no class")
        same(found.get_id(), identity, "class of an event of the log")
        expect(found is classes.get_by_identity(identity), "class of an event is not one of the set")
    same(classes.get_class_of(event("unseen")), None, "class of an event that is not in the log")
    # a log with its first trace twice, and that one's first event twice
    if made and made[0]:
        made.append(made[0])
        made[0].insert(0, made[0][0])
        twice = Reference()
        for row in made:
            for one in row:
                twice.add("&&".join(one.get_attributes()[k].get_value() if k in one.get_attributes() else "" for k in keys))
        twice.harmonize()
        compare(ctx, XEventClasses.derive_event_classes(classifier(keys), made), twice, True)
        made.pop()
        del made[0][0]
    # deriving again gives the same result, and the first one is not changed
    again = XEventClasses.derive_event_classes(classifier(keys), made)
    compare(ctx, again, reference, True)
    compare(ctx, classes, reference, True)


def derived_cases(quick):
    for keys in (["concept:name"], ["concept:name", "lifecycle:transition"], ["lifecycle:transition", "concept:name", "x"]):
        for n in range(4 if quick else 5):
            for numbers in itertools.product(range(len(NAMES) if n < 4 else 6), repeat=n):
                yield [keys, [list(numbers)]]
                if n == 3:
                    yield [keys, [[numbers[0]], [], list(numbers[1:])]]
        for n in (10, 64, 300):
            yield [keys, [[(i * 7 + t) % len(NAMES) for i in range(n)] for t in range(3)]]


def many(ctx, case):
    """Many classes, registered in different orders."""
    from opyenxes.classification.XEventClasses import XEventClasses
    n, way = case
    numbers = {"up": range(n), "down": range(n - 1, -1, -1), "mixed": [(i * 7919) % n for i in range(n)] * 2}[way]
    classes, reference = XEventClasses(classifier()), Reference()
    for i in numbers:
        classes.register(str(i))
        reference.add(str(i))
    compare(ctx, classes, reference, False)
    classes.harmonize_indices()
    reference.harmonize()
    compare(ctx, classes, reference, True)


def sizes(ctx, case):
    """Many classes of different sizes, registered as texts and as events, in
    traces and logs, again after the indices were put in order."""
    from opyenxes.classification.XEventClasses import XEventClasses
    n, way, most = case
    classes, reference = XEventClasses(classifier()), Reference()
    names = [spaces.ODD[i % len(spaces.ODD)] + ("%d" % i if i >= len(spaces.ODD) else "") for i in range(n)]
    for again in range(2):
        for i, name in enumerate(names[again:]):
            count = most if i % max(1, n // 3) == again else i % 3
            if way == "texts":
                for _ in range(count):
                    classes.register(name)
            elif way == "events":
                one = event(name)
                for _ in range(count):
                    classes.register(one)
            elif way == "traces":
                classes.register(trace([name] * count))
            else:
                classes.register(log([[name] * (count // 2), [], [name] * (count - count // 2)]))
            if count:
                reference.add(name, count)
        compare(ctx, classes, reference, False)
        classes.harmonize_indices()
        reference.harmonize()
        compare(ctx, classes, reference, True)


def size_cases(tier):
    for n in spaces.steps(tier):
        for way in ("texts", "events", "traces", "logs"):
            yield [n, way, 1 + n % 5]
            if n < 20:
                yield [n, way, 50]
    for most in spaces.COUNTS + [2000, 4097]:
        for way in ("texts", "events", "traces", "logs"):
            yield [3, way, most]
            yield [101, way, most]


def one_class(ctx, case):
    """A class by itself: its size is what was set and counted since."""
    from opyenxes.classification.XEventClass import XEventClass
    word, ops = case
    made, size = XEventClass(word, 7), 0
    other = XEventClass(word, 8)
    for op in ops:
        if op < 0:
            made.increment_size()
            size += 1
        else:
            made.set_size(op)
            size = op
        same((made.size(), made.get_id(), made.get_index(), str(made), other.size()), (size, word, 7, word, 0), "a class after %r" % (ops,))
        ctx.step()
    ctx.state(repr((word, size)))


def word(ctx, text):
    """A text the code knows: as an identity like any other."""
    from opyenxes.classification.XEventClasses import XEventClasses
    classes, reference = XEventClasses(classifier()), Reference()
    for one in ("m", text, event(text), event("m"), text, event(text), "a", trace([text, "m"])):
        classes.register(one)
    for identity in ("m", text, text, "m", text, text, "a", text, "m"):
        reference.add(identity)
    compare(ctx, classes, reference, False)
    classes.harmonize_indices()
    reference.harmonize()
    compare(ctx, classes, reference, True)
    same(classes.get_class_of(event(text)).get_id(), text, "class of an event")


def families(tier):
    quick = tier == "quick"
    return [
        looks.family("P13"),
        Family("histories", lambda _: histories(4 if quick else 5), history),
        Family("derived-from-logs", lambda _: derived_cases(quick), derived),
        Family("one-class", lambda _: [[w, list(c)] for w in ("", "a", "None") for n in range(5) for c in itertools.product((-1, 0, 3), repeat=n)], one_class),
        Family("literals", lambda _: spaces.literals()[0], word),
        Family("sizes", lambda _: size_cases(tier), sizes),
        Family("many-classes", lambda _: [[n, w] for n in (2, 9, 10, 11, 100, 101, 300) for w in ("up", "down", "mixed")], many),
    ]
