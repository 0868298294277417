"""P12: a classifier assigns events to one class exactly when they agree on all its attributes."""
import itertools
from mc import looks, model, spaces
from mc.core import Family, same, expect
from mc.mxmldoc import text

LEVEL = "model_checking"
ASSUMPTIONS = ["values of several keys do not contain the separator && and do not end or begin with &; a missing value counts as the empty one"]
KEYS = ["concept:name", "lifecycle:transition", "a", "org:resource"]
VALUES = [None, ["string", ""], ["string", "x"], ["string", "y"], ["int", 0], ["boolean", False], ["string", "None"], ["string", " x"], ["string", "X"]]

DISTINCT = [0, 1, 2, 4, 5, 7, 8]


def event_model(choice):
    return [[v[0], k, v[1], []] for k, v in zip(KEYS, (VALUES[i] for i in choice)) if v is not None]


def parts(choice, keys):
    by_key = {k: VALUES[i] for k, i in zip(KEYS, choice)}
    return ["" if by_key.get(k) is None else text([by_key[k][0], k, by_key[k][1], []]) for k in keys]


_events = {}


def event(choice):
    choice = tuple(choice)
    if choice not in _events:
        _events[choice] = model.build_event(event_model(choice))
    return _events[choice]


def classifier(keys):
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    return XEventAttributeClassifier("c", list(keys))


def key_lists():
    for n in range(1, 5):
        yield from itertools.permutations(KEYS, n)
    yield ("a", "a")
    yield ("missing",)
    yield ("missing", "a", "also")


def identity_cases(size):
    for keys in key_lists():
        for choice in itertools.product(range(len(VALUES)), repeat=size):
            yield [list(keys), list(choice)]


def identity(ctx, case):
    keys, choice = case
    ctx.state(repr((keys, parts(choice, keys))))
    same(classifier(keys).get_class_identity(event(choice)), "&&".join(parts(choice, keys)), "class of the event")
    ctx.step()


def same_class_cases(size):
    for keys in key_lists():
        for first in itertools.product(DISTINCT, repeat=size):
            yield [list(keys), list(first)]


def same_class(ctx, case):
    keys, first = case
    used = classifier(keys)
    mine = parts(first, keys)
    ctx.state(repr((keys, mine)))
    for second in itertools.product(DISTINCT, repeat=len(first)):
        agree = mine == parts(second, keys)
        same(bool(used.same_event_class(event(first), event(second))), agree, "same_event_class for %r and %r" % (first, second))
        same(used.get_class_identity(event(first)) == used.get_class_identity(event(second)), agree, "equality of class identities")
        ctx.step(2)


def equal_ids(ctx, case):
    """Events with one id, and an event and its copy: the attributes decide."""
    from opyenxes.factory.XFactory import XFactory
    keys, first, second = case
    used = classifier(keys)
    one, two = XFactory.create_event(), XFactory.create_event()
    two.set_id(one.get_id())
    copy = one.clone()
    for made, choice in ((one, first), (two, second), (copy, second)):
        model.put_attrs(made, event_model(choice))
    agree = parts(first, keys) == parts(second, keys)
    for other in (two, copy):
        same(bool(used.same_event_class(one, other)), agree, "same_event_class for events with one id")
        same(used.get_class_identity(other), "&&".join(parts(second, keys)), "class identity")
    expect(used.same_event_class(one, one), "an event is not in the class of itself")
    # one event that changes
    before = used.get_class_identity(one)
    same(before, "&&".join(parts(first, keys)), "class identity")
    one.get_attributes().clear()
    model.put_attrs(one, event_model(second))
    same(used.get_class_identity(one), "&&".join(parts(second, keys)), "class identity of an event that was changed")
    ctx.state(repr((keys, parts(first, keys), parts(second, keys))))
    ctx.step(6)


def equal_id_cases():
    for keys in (["a"], ["concept:name"], ["concept:name", "lifecycle:transition"], ["a", "org:resource", "concept:name"]):
        for first in itertools.product((0, 2, 3, 4), repeat=4):
            for second in itertools.product((0, 2, 3), repeat=4):
                yield [keys, list(first), list(second)]


def kinds(ctx, case):
    """Attributes of every kind and value give their text; nested attributes,
    the extension and other attributes do not matter."""
    keys, kind, where = case
    for sample in (spaces.SAMPLE, spaces.OTHER):
        attr = spaces.attr(kind, keys[where], [["string", "sub", "s", []]] if kind not in model.COLLECTIONS else [["int", "n", 7, []]], sample)
        one = model.build_event([attr, ["string", "other", "1", []]])
        two = model.build_event([["string", "other", "2", []], attr[:3] + [attr[3]]])
        wanted = "&&".join(text(attr) if i == where else "" for i in range(len(keys)))
        same(classifier(keys).get_class_identity(one), wanted, "class identity")
        expect(classifier(keys).same_event_class(one, two), "events that agree on all keys are in different classes")
        ctx.state(repr((keys, wanted)))
        ctx.step(2)


def kind_cases():
    for n in range(1, 6):
        keys = (KEYS + ["e"])[:n]
        for kind in spaces.KINDS:
            for where in range(n):
                yield [keys, kind, where]


STANDARD = [("XEventNameClassifier", "Event Name", ["concept:name"]), ("XEventResourceClassifier", "Resource", ["org:resource"]),
            ("XEventLifeTransClassifier", "Lifecycle transition", ["lifecycle:transition"])]


def standard(ctx, case):
    import importlib
    name, title, keys = STANDARD[case]
    made = getattr(importlib.import_module("opyenxes.classification." + name), name)()
    same((made.name(), str(made), list(made.get_defining_attribute_keys())), (title, title, keys), "standard classifier " + name)
    for choice in itertools.product(range(len(VALUES)), repeat=4):
        same(made.get_class_identity(event(choice)), parts(choice, keys)[0], "class identity of " + name)
        ctx.step()
    from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
    try:
        XEventAndClassifier([])
    except ValueError:
        ctx.step()
    else:
        expect(False, "a classifier was made of no classifiers")
    ctx.state(name)


def and_cases():
    pool = [["concept:name"], ["lifecycle:transition"], ["a", "org:resource"], ["org:resource", "concept:name"], ["a"],
            ["lifecycle:transition", "a", "concept:name"]]
    for n in range(1, 4):
        for chosen in itertools.product(range(len(pool)), repeat=n):
            yield [[pool[i] for i in chosen]]


def combined(ctx, case):
    """The conjunction puts two events into one class exactly if all its
    members do."""
    from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
    members = [classifier(keys) for keys in case[0]]
    both = XEventAndClassifier(members)
    wanted = sorted(set(k for keys in case[0] for k in keys))
    same(sorted(both.get_defining_attribute_keys()), wanted, "keys of the conjunction")
    same(both.name(), "(" + " AND ".join("c" for _ in members) + ")", "name of the conjunction")
    ctx.state(repr(wanted))
    choices = list(itertools.product((0, 2, 3), repeat=4))
    for first in choices:
        for second in choices:
            agree = all(m.same_event_class(event(first), event(second)) for m in members)
            same(bool(both.same_event_class(event(first), event(second))), agree, "conjunction of %r" % (case[0],))
            ctx.step()


ALIKE = ["k", "K", " k", "k ", "kk", "k:k", "K:k", "\u212a", "k&", "k\u0301", "k\u200b", "1", "01", "None", ""]


def alike_cases():
    for n in (1, 2, 3):
        for keys in itertools.permutations(ALIKE, n):
            yield list(keys)


def alike(ctx, keys):
    """Keys that differ in case, blanks or normal form are different keys, in a
    classifier of several keys and in a conjunction."""
    from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
    mine = model.build_event([["string", k, "v%d" % i, []] for i, k in enumerate(keys)])
    same(classifier(keys).get_class_identity(mine), "&&".join("v%d" % i for i in range(len(keys))), "class identity")
    same(classifier(keys).get_defining_attribute_keys(), list(keys), "keys")
    both = XEventAndClassifier([classifier([k]) for k in keys])
    same(sorted(both.get_defining_attribute_keys()), sorted(keys), "keys of the conjunction")
    for used in (classifier(keys), both):
        for i, key in enumerate(keys):
            other = model.build_event([["string", k, "w" if k == key else "v%d" % j, []] for j, k in enumerate(keys)])
            same(bool(used.same_event_class(mine, other)), False, "same class as an event with another value for %r" % key)
            moved = model.build_event([["string", k, "v%d" % j, []] for j, k in reversed(list(enumerate(keys)))])
            same(bool(used.same_event_class(mine, moved)), True, "same class as an event with the attributes in another order")
            ctx.step(2)
        for key in ALIKE:
            if key not in keys:
                more = model.build_event([["string", k, "v%d" % j, []] for j, k in enumerate(keys)] + [["string", key, "z", []]])
                same(bool(used.same_event_class(mine, more)), True, "same class as an event with %r" % key)
    ctx.state(repr(keys))


def words(ctx, word):
    """The word as a value of each key in turn, and as a key."""
    for keys in ((KEYS + ["e"])[:n] for n in range(1, 6)):
        for where in range(len(keys)):
            used = list(keys)
            event = model.build_event([["string", keys[where], word, []]])
            same(classifier(used).get_class_identity(event), "&&".join(word if i == where else "" for i in range(len(keys))), "class identity")
            event = model.build_event([["string", k, word if i == where else "v%d" % i, []] for i, k in enumerate(keys)])
            same(classifier(used).get_class_identity(event), "&&".join(word if i == where else "v%d" % i for i in range(len(keys))), "class identity")
            without = model.build_event([["string", k, "v%d" % i, []] for i, k in enumerate(keys) if i != where])
            same(bool(classifier(used).same_event_class(event, without)), word == "", "same class as without the attribute")
            used[where] = word
            if len(set(used)) == len(used):
                event = model.build_event([["string", k, "w%d" % i, []] for i, k in enumerate(used)])
                same(classifier(used).get_class_identity(event), "&&".join("w%d" % i for i in range(len(keys))), "class identity")
            ctx.step(4)
    ctx.state(word)


ALONE = ["".join(c) for n in range(5) for c in itertools.product("a& ", repeat=n)] + ["&amp;", "a&&b&&c", "&&&&&", "\uff06", "A", "a&b"]


def one_key(ctx, value):
    """With a single key the value is all that counts, whatever is in it."""
    for keys in (["a"], ["concept:name"]):
        used = classifier(keys) if keys == ["a"] else by_name()
        mine = model.build_event([["string", keys[0], value, []]])
        same(bool(used.same_event_class(mine, model.build_event([]))), value == "", "same class as without the attribute")
        for other in ALONE:
            same(bool(used.same_event_class(mine, model.build_event([["string", keys[0], other, []]]))), value == other, "same class as an event of %r" % other)
            ctx.step()
    ctx.state(value)


def by_name():
    from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
    return XEventNameClassifier()


VALUED = [v for v in spaces.ODD if "&" not in v]


def size_cases(tier):
    for n in spaces.steps(tier):
        if n:
            for first in range(3):
                yield [n, first]
    for n in spaces.LENGTHS:
        yield [-n, 0]


def sizes(ctx, case):
    """Many keys: events with all of them, with one of them, lacking one of
    them, and differing in one."""
    n, first = case
    if n < 0:
        word = spaces.odd_text(-n).replace("&", "+")
        keys, all_of = [word + "k", "a"], [["string", word + "k", word + "v", []], ["string", "a", word, []]]
    else:
        keys = ["k%d %s" % (i, spaces.ODD[i % 7]) for i in range(n)]
        all_of = [["string", k, VALUED[(i + first * 5) % len(VALUED)], []] for i, k in enumerate(keys)]
    where = range(len(keys)) if n <= 40 else (0, 1, 2, n // 3, n // 2, n - 2, n - 1)
    events = [all_of, []]
    for i in where if n > 0 else (0, 1):
        events.append([all_of[i]])
        events.append(all_of[:i] + all_of[i + 1:])
        events.append(all_of[:i] + [[["string", "int"][i % 2], keys[i], ["other", 7][i % 2], []]] + all_of[i + 1:])
        events.append(all_of[:i] + [["string", keys[i], "", []]] + all_of[i + 1:])
    used = classifier(keys)
    identities, made = [], [model.build_event(e) for e in events]
    for one, event in zip(made, events):
        values = {a[1]: text(a) for a in event}
        identities.append("&&".join(values.get(k, "") for k in keys))
        same(used.get_class_identity(one), identities[-1], "class of an event with %d attributes" % len(event))
    for i, one in enumerate(made):
        for j, two in enumerate(made) if n <= 40 else list(enumerate(made))[:3] + list(enumerate(made))[i - 1:i + 2]:
            same(bool(used.same_event_class(one, two)), identities[i] == identities[j], "same class of events %d and %d" % (i, j))
            ctx.step()
    ctx.state(repr(case))


def families(tier):
    quick = tier == "quick"
    return [
        looks.family("P12"),
        Family("identities", lambda _: identity_cases(4), identity),
        Family("same-class", lambda _: same_class_cases(3), same_class),
        Family("equal-ids", lambda _: equal_id_cases(), equal_ids),
        Family("kinds", lambda _: kind_cases(), kinds),
        Family("standard-classifiers", lambda _: list(range(len(STANDARD))), standard),
        Family("literals", lambda _: [w for w in spaces.literals()[0] if "&" not in w], words),
        Family("similar-keys", lambda _: alike_cases(), alike),
        Family("one-key", lambda _: ALONE, one_key),
        Family("sizes", lambda _: size_cases(tier), sizes),
        Family("conjunctions", lambda _: and_cases(), combined),
    ]
