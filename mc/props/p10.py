"""P10: comparison, equality and hash of attributes, ids, classes and classifiers obey the order laws."""
import itertools
import math
from datetime import datetime, timedelta, timezone
from urllib.parse import urlparse
from mc import looks, model, spaces
from mc.core import Family, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = ["values of one kind are compared with each other; numbers are not nan"]
KEYS = ["", "a", "b", "ab", "A", "concept:name", "\u00e9", "a "]


def moments():
    base = datetime(2016, 3, 27, 1, 30, 0, 0)
    for offset in (0, 60, -60, 330, -840, 840):
        for delta in (timedelta(0), timedelta(minutes=60), timedelta(minutes=-330), timedelta(milliseconds=1),
                      timedelta(microseconds=1), timedelta(days=-40000)):
            yield (base + delta).replace(tzinfo=timezone(timedelta(minutes=offset)))
    for offset in (0, 60, -840):
        for delta in (timedelta(0), timedelta(minutes=60), timedelta(hours=-14, microseconds=1)):
            yield (datetime(2015, 12, 31, 23, 30) + delta).replace(tzinfo=timezone(timedelta(minutes=offset)))
    for delta in (timedelta(0), timedelta(microseconds=1), timedelta(minutes=-330)):
        yield base + delta
    for twice in model.TWICE:
        yield twice
    for twice in (model.TWICE[1], model.TWICE[2]):
        yield twice.astimezone(timezone.utc)
    yield model.TWICE[2].astimezone(timezone.utc).replace(tzinfo=None)
    yield model.TWICE[0].astimezone(timezone(timedelta(hours=9)))
    yield datetime.max.replace(tzinfo=timezone(timedelta(hours=-14)))
    yield datetime.max
    yield datetime.min
    yield datetime.min.replace(tzinfo=timezone(timedelta(hours=14)))


def values():
    """kind -> [(value, order key)]"""
    from opyenxes.id.XID import XID
    from uuid import UUID
    texts = ["", "a", "A", "b", "ab", "a ", " a", "1", "10", "2", "\u00e9", "e\u0301", "z", "\U0001f600", "\uffff", "\n", "ss", "\u00df"]
    ints = [0, 1, -1, 2, 10, -10, 2 ** 31, 2 ** 53, 2 ** 53 + 1, -2 ** 63, 2 ** 64, 2 ** 64 + 1, 10 ** 30]
    floats = [0.0, 1.0, -1.0, 0.1, 0.2, 0.1 + 0.2, 0.3, 1e300, -1e300, 5e-324, 1e-300, 2.0 ** 53, math.inf, -math.inf, 1 + 2 ** -52]
    uuids = [UUID(int=n) for n in (0, 1, 2, 2 ** 32, 2 ** 40, 2 ** 64 - 1, 2 ** 64, 2 ** 72, 2 ** 80, 2 ** 88, 2 ** 96, 2 ** 104, 2 ** 127, 2 ** 128 - 1)]
    dates = list(moments())
    return {"string": [(t, t) for t in texts], "int": [(n, n) for n in ints], "float": [(n, n) for n in floats],
            "boolean": [(False, 0), (True, 1)], "id": [(XID(u), u.int) for u in uuids],
            "date": [(d, model.microseconds(d)) for d in dates],
            "list": [(None, 0)], "container": [(None, 0)]}


_made = {}


def items(what):
    """[(object, order key)]: equal order keys mean equal objects."""
    if what in _made:
        return _made[what]
    result = []
    if what in spaces.KINDS:
        from opyenxes.extension.std.XConceptExtension import XConceptExtension
        cls = model.kinds()[what]
        for key in KEYS if what not in ("date",) else KEYS[:3]:
            for value, order in values()[what]:
                for variant in (0, 1):
                    extension = XConceptExtension() if variant else None
                    made = cls(key, extension) if value is None else cls(key, value, extension)
                    if variant:
                        child = model.build_attr(["string", "child", "x", []])
                        made.get_attributes()["child"] = child
                        if what in ("list", "container"):
                            made.add_to_collection(child)
                    result.append((made, (key, order)))
    elif what == "xid":
        from opyenxes.id.XID import XID
        from uuid import UUID
        for n in (0, 1, 255, 2 ** 16, 2 ** 63, 2 ** 64, 2 ** 127, 2 ** 128 - 1, 2 ** 128 - 2):
            result.append((XID(UUID(int=n)), n))
            result.append((XID.parse(str(UUID(int=n)).upper()), n))
    elif what == "class":
        from opyenxes.classification.XEventClass import XEventClass
        for text in ("", "a", "b", "a&&b", "&&", "A", "\u00e9", "10", "9"):
            for index in (0, 1):
                made = XEventClass(text, index)
                made.set_size(index * 3)
                result.append((made, text))
    elif what == "classifier":
        from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
        for name in ("a", "b", "Event Name"):
            for keys in ([], ["a"], ["b"], ["a", "b"], ["b", "a"], ["a", "a"], ["a", "b", "c"], ["concept:name"], ["ab"]):
                for _ in (0, 1):
                    result.append((XEventAttributeClassifier(name, list(keys)), (name, len(keys), keys)))
        from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
        result.append((XEventNameClassifier(), ("Event Name", 1, ["concept:name"])))
    elif what == "extension":
        from opyenxes.extension.XExtension import XExtension
        for n, uri in enumerate(("http://a/b.xesext", "http://a/c.xesext", "http://A/b.xesext", "", "http://a/b.xesext#f")):
            for name in ("X", "Y"):
                result.append((XExtension(name, name.lower(), urlparse(uri)), n))
    elif what == "event":
        from opyenxes.model.XEvent import XEvent
        from opyenxes.id.XID import XID
        from uuid import UUID
        for n in (1, 2, 3):
            for text in ("a", "b"):
                event = XEvent(None, XID(UUID(int=n)))
                event.get_attributes()["k"] = model.build_attr(["string", "k", text, []])
                result.append((event, n))
    _made[what] = result
    return result


ORDERED = spaces.KINDS + ["xid", "class", "classifier"]
WHATS = ORDERED + ["extension", "event"]


def pair_cases():
    for what in WHATS:
        for i in range(len(items(what))):
            yield [what, i]


def pairs(ctx, case):
    what, i = case
    (a, ka) = items(what)[i]
    ctx.state("%s %r" % (what, ka))
    same(hash(a), hash(a), "hash taken twice")
    for b, kb in items(what):
        equal = ka == kb
        label = "%s %r and %r" % (what, ka, kb)
        same((a == b, b == a, a != b), (equal, equal, not equal), "==, reversed ==, != of " + label)
        if equal:
            same(hash(a), hash(b), "hashes of equal " + label)
        same(b in {a}, equal, "membership in a set, " + label)
        same(b in [a], equal, "membership in a list, " + label)
        if what in ORDERED:
            sign = (ka > kb) - (ka < kb)
            got = a.compare_to(b)
            same((got > 0) - (got < 0), sign, "compare_to of " + label)
            same((a < b, a <= b, a > b, a >= b), (sign < 0, sign <= 0, sign > 0, sign >= 0), "<, <=, >, >= of " + label)
        ctx.step(6)


def sort_cases():
    for what in ORDERED:
        for start in range(len(items(what))):
            yield [what, start]


def sorts(ctx, case):
    """All arrangements of four items, and the whole list from here on, are
    sorted into one order."""
    what, start = case
    all_items = items(what)
    chosen = [all_items[(start + j * 7) % len(all_items)] for j in range(4)]
    wanted = sorted(k for _, k in chosen)
    keys = {id(o): k for o, k in all_items}
    for order in itertools.permutations(chosen):
        same([keys[id(o)] for o in sorted(o for o, _ in order)], wanted, "sorted " + what)
        ctx.step()
    ctx.state(repr((what, wanted)))
    rotated = [o for o, _ in all_items[start:] + all_items[:start]]
    same([keys[id(o)] for o in sorted(rotated)], sorted(k for _, k in all_items), "all sorted " + what)
    same(keys[id(max(rotated))], max(k for _, k in all_items), "max of " + what)
    same(keys[id(min(rotated))], min(k for _, k in all_items), "min of " + what)


def mutated(ctx, case):
    """Comparison follows the value: after set_value the attribute compares as
    a fresh one."""
    what, i, j = case
    options = values()[what]
    cls = model.kinds()[what]
    attr = cls("k", options[i][0])
    hash(attr), str(attr)
    attr.set_value(options[j][0])
    fresh = cls("k", options[j][0])
    ctx.state(repr(case))
    same((attr == fresh, hash(attr) == hash(fresh), attr.compare_to(fresh), str(attr)), (True, True, 0, str(fresh)), "attribute after set_value")
    same(attr.get_value(), options[j][0], "value after set_value")
    ctx.step(5)


def identified(ctx, case):
    """An id, or an event, that is given another identity equals what has it,
    whatever was asked before."""
    from opyenxes.id.XID import XID
    from opyenxes.model.XEvent import XEvent
    from uuid import UUID
    what, numbers = case
    made = {"xid": lambda n: XID(UUID(int=n)), "event": lambda n: XEvent(None, XID(UUID(int=n))),
            "event by its id": lambda n: XEvent(None, XID(UUID(int=n))), "id attribute": lambda n: model.kinds()["id"]("k", XID(UUID(int=n))),
            "id attribute by its id": lambda n: model.kinds()["id"]("k", XID(UUID(int=n)))}[what]
    change = {"xid": lambda one, n: one.set_uuid(UUID(int=n)), "event": lambda one, n: one.set_id(XID(UUID(int=n))),
              "event by its id": lambda one, n: one.get_id().set_uuid(UUID(int=n)), "id attribute": lambda one, n: one.set_value(XID(UUID(int=n))),
              "id attribute by its id": lambda one, n: one.get_value().set_uuid(UUID(int=n))}[what]
    one = made(numbers[0])
    for number in numbers:
        change(one, number)
        for n in IDS:
            other = made(n)
            same((one == other, other == one, one != other, hash(one) == hash(other) or n != number), (n == number, n == number, n != number, True),
                 "%s after its identity was changed" % what)
            same(other in {one}, n == number, "membership in a set")
            if "event" not in what:
                same((one < other, one > other, one.compare_to(other) == 0), (number < n, number > n, number == n), "order of ids")
            ctx.step(4)
        same(str(one).lower() == str(UUID(int=number)) or "event" in what, True, "text of an id")
    ctx.state(repr(case))


IDS = [0, 1, 2 ** 64, 2 ** 128 - 1]


def identified_cases():
    for what in ("xid", "event", "event by its id", "id attribute", "id attribute by its id"):
        for numbers in itertools.product(IDS, repeat=3):
            yield [what, list(numbers)]


def mutated_cases():
    for what in ("string", "int", "float", "boolean", "id", "date"):
        for i in range(len(values()[what])):
            for j in range(len(values()[what])):
                yield [what, i, j]


def foreign_cases():
    for what in WHATS:
        yield [what]


def foreign(ctx, case):
    """Nothing equals an object of another sort."""
    from opyenxes.model.XAttribute import XAttribute
    what = case[0]
    for a, _ in items(what)[:20]:
        for other in WHATS:
            if other == what or other in ("list", "container") or what in ("list", "container"):
                continue
            for b, _ in items(other)[:12]:
                same((a == b, a != b), (False, True), "== and != of %s and %s" % (what, other))
        for b in (None, "a", "", 0, 1, 0.0, True, [], (), object()):
            same((a == b, a != b), (False, True), "== and != of %s and %r" % (what, b))
        ctx.step(100)
    ctx.state(what)


def words(ctx, word):
    """A text the code knows is compared with all others like any text."""
    from opyenxes.classification.XEventClass import XEventClass
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    literal = model.kinds()["string"]
    makers = (lambda t: literal("k", t), lambda t: literal(t, "v"), lambda t: model.kinds()["list"](t), lambda t: model.kinds()["int"](t, 1),
              lambda t: XEventClass(t, 0), lambda t: XEventAttributeClassifier(t, ["k"]), lambda t: XEventAttributeClassifier("n", [t]),
              lambda t: XEventAttributeClassifier("n", ["k", t]))
    others = _made.setdefault("literals", spaces.literals()[0])
    for make in makers:
        mine = make(word)
        for text in others:
            other = make(text)
            sign = (word > text) - (word < text)
            got = mine.compare_to(other)
            same(((got > 0) - (got < 0), mine == other, mine != other, mine < other, mine <= other, mine > other, mine >= other),
                 (sign, sign == 0, sign != 0, sign < 0, sign <= 0, sign > 0, sign >= 0), "comparisons of %r and %r" % (word, text))
            if sign == 0:
                same(hash(mine), hash(other), "hashes of equal ones, %r" % word)
        ctx.step(len(others))
    ctx.state(word)


def numbers(ctx, chosen):
    others = _made.setdefault("numbers", list(spaces.integers(40)))
    for value in chosen:
        for kind in ("int", "float"):
            def make(n):
                return model.kinds()[kind]("k", n if kind == "int" else n / 2 if abs(n) < 2 ** 1000 else 0.5)
            mine = make(value)
            for n in others:
                other = make(n)
                a, b = mine.get_value(), other.get_value()
                sign = (a > b) - (a < b)
                got = mine.compare_to(other)
                same(((got > 0) - (got < 0), mine == other, mine < other, mine <= other, mine > other, mine >= other),
                     (sign, sign == 0, sign < 0, sign <= 0, sign > 0, sign >= 0), "comparisons of %r and %r" % (a, b))
                if sign == 0:
                    same(hash(mine), hash(other), "hashes of equal numbers %r" % a)
            ctx.step(len(others))
    ctx.state(repr(chosen))


def size_cases(tier):
    for n in itertools.chain(range(0, 60), spaces.COUNTS, spaces.LENGTHS):
        yield ["text", n]
    for n in spaces.steps(tier):
        yield from (["keys", n], ["children", n])


def sizes(ctx, case):
    """Long texts that differ at one place, lists of many keys, attributes
    with many children."""
    from opyenxes.classification.XEventClass import XEventClass
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    what, n = case
    cls = model.kinds()["string"]
    if what == "text":
        base = spaces.odd_text(n)
        texts = [base, base + "", base + "a", base + "b", "a" + base, base[:n // 2] + "#" + base[n // 2:], base[:n // 2] + "$" + base[n // 2:], base[:-1], base.upper()]
        makers = (lambda t: cls("k", t), lambda t: cls(t, "v"), lambda t: XEventClass(t, 0), lambda t: XEventAttributeClassifier("n", ["k", t]), lambda t: XEventAttributeClassifier(t, ["k"]))
        ordered = [(t, t) for t in texts]
    elif what == "keys":
        keys = ["k%d" % i for i in range(n)]
        lists = [keys, list(keys), keys + ["a"], keys[1:], keys[:-1], keys[::-1], ["a"] + keys, keys[:n // 2] + ["j"] + keys[n // 2 + 1:], keys[:n // 2] + ["l"] + keys[n // 2 + 1:]]
        makers = [lambda k: XEventAttributeClassifier("n", list(k))]
        ordered = [(k, (len(k), k)) for k in lists]
    else:
        rows = [list(spaces.odd_attributes(n)), list(spaces.odd_attributes(n, 1)), []]
        makers = [model.build_attr]
        ordered = [(["string", "k", v, row], v) for row in rows for v in ("a", "b")]
    groups = [[(make(argument), order) for argument, order in ordered] for make in makers]
    for group in groups:
        for a, ka in group:
            for b, kb in group:
                sign = (ka > kb) - (ka < kb)
                got = a.compare_to(b)
                same(((got > 0) - (got < 0), a == b, a != b, a < b, a <= b, a > b, a >= b),
                     (sign, sign == 0, sign != 0, sign < 0, sign <= 0, sign > 0, sign >= 0), "comparisons")
                if sign == 0:
                    same(hash(a), hash(b), "hashes of equal ones")
                ctx.step()
        same([k for _, k in sorted(group, key=lambda p: p[0])], sorted(k for _, k in group), "sorted")
    ctx.state(repr(case))


def families(tier):
    return [
        looks.family("P10"),
        Family("pairs", lambda _: pair_cases(), pairs),
        Family("sorting", lambda _: sort_cases(), sorts),
        Family("changed-values", lambda _: mutated_cases(), mutated),
        Family("changed-identities", lambda _: identified_cases(), identified),
        Family("literals", lambda _: spaces.literals()[0], words),
        Family("sizes", lambda _: size_cases(tier), sizes),
        Family("numbers", lambda _: spaces.chunked(spaces.integers(40), 10), numbers),
        Family("other-sorts", lambda _: foreign_cases(), foreign),
    ]
