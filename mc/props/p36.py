"""P36: an attribute keeps the key, kind, extension and value it was given; prototypes differ from it in the value only."""
import itertools
from mc import looks, model, spaces
from mc.core import Family, same, expect, Violation
from mc.mxmldoc import text

LEVEL = "model_checking"
ASSUMPTIONS = ["values belong to the kind of their attribute"]
NAMES = {"string": "LITERAL", "date": "TIMESTAMP", "int": "DISCRETE", "float": "CONTINUOUS", "boolean": "BOOLEAN", "id": "ID", "list": "LIST",
         "container": "CONTAINER"}
VALUES = {"string": ["x", "", " ", "UNKNOWN", "a&&b", "\u4e2d\n"], "int": [0, 1, -1, 10 ** 20], "float": [0.0, -0.5, 1e300, 5e-324],
          "boolean": [True, False], "date": [[2016, 2, 29, 23, 59, 58, 7000, 330], [1, 1, 1, 0, 0, 0, 0, 0], [1969, 12, 31, 23, 59, 59, 999000, -210],
                                             [2016, 1, 1, 0, 0, 0, 0, None]],
          "id": ["00000000-0000-0000-0000-000000000000", "a" * 8 + "-bbbb-4ccc-8ddd-" + "e" * 12], "list": ["b", "c", "m"], "container": ["b", "c", "m"]}
BELOW = [[], [["string", "concept:name", "n", []]], [["int", "n", 1, [["list", "l", "b", [["boolean", "x", True, []]]]]], ["string", "a", "b", []]]]
DEFAULT = {"string": "UNKNOWN", "int": 0, "float": model.canon_value("float", 0.0), "boolean": True, "date": (0, 0)}


def utils():
    from opyenxes.utils.XAttributeUtils import XAttributeUtils
    return XAttributeUtils


def look(ctx, attr):
    """Everything about one attribute made from a model."""
    one = model.build_attr(attr)
    kind = attr[0]
    form = model.seen_attr(one)
    if kind not in model.COLLECTIONS or attr[2] == "b":
        same(form, model.expected_attr(attr), "a new attribute")
    same(str(one), text(attr), "its text")
    expect(utils().get_type(one) is model.kinds()[kind], "type of a", kind, "is", utils().get_type(one))
    same(utils().get_type_string(one), NAMES[kind], "type string of a " + kind)
    ctx.step(4)
    ctx.state(repr(form))
    return one, form


def prototype(ctx, case):
    kind, value, key, below = case
    prototype_of(ctx, [kind, key, value, BELOW[below]])


def prototype_of(ctx, attr):
    kind = attr[0]
    one, form = look(ctx, attr)
    made = utils().derive_prototype(one)
    seen = model.seen_attr(made)
    same((seen[0], seen[1], seen[3], seen[4], seen[5]), (form[0], form[1], form[3], form[4], form[5]), "kind, key, extension and children of the prototype")
    if kind in DEFAULT:
        same(seen[2], DEFAULT[kind], "value of the prototype")
    if kind == "id":
        expect(seen[2] not in (form[2], model.seen_attr(utils().derive_prototype(one))[2]), "the prototype of an id attribute has no id of its own")
    same(model.seen_attr(one), form, "the attribute after a prototype was made from it")
    made.get_attributes()["more"] = model.build_attr(["string", "more", "x", []])
    if kind not in model.COLLECTIONS:
        for other in VALUES[kind]:
            made.set_value(model.build_value(kind, other))
    for child in list(made.get_attributes().values()):
        child.get_attributes()["more"] = model.build_attr(["string", "more", "x", []])
    same(model.seen_attr(one), form, "the attribute after its prototype changed")
    again = utils().derive_prototype(utils().derive_prototype(one))
    same(model.seen_attr(again)[:2], form[:2], "a prototype's prototype")
    ctx.step(4)


def prototype_cases():
    for kind in spaces.KINDS:
        for value in VALUES[kind]:
            for key in ("k", "concept:name", "time:x", "", "unknown:k"):
                for below in range(len(BELOW)):
                    yield [kind, value, key, below]


def changed(ctx, case):
    """A sequence of values; everything else stays."""
    kind, numbers = case
    attr = [kind, "concept:k", VALUES[kind][0], BELOW[2]]
    one, form = look(ctx, attr)
    others = [model.build_attr([kind, "concept:k", VALUES[kind][0], []]), model.build_attr(attr)]
    forms = [model.seen_attr(o) for o in others]
    for n in numbers:
        value = VALUES[kind][n]
        one.set_value(model.build_value(kind, value))
        now = model.expected_attr([kind, "concept:k", value, BELOW[2]])
        same(model.seen_attr(one), now, "an attribute whose value was set to %r" % (value,))
        same(str(one), text([kind, "", value, []]), "its text")
        same([model.seen_attr(o) for o in others], forms, "other attributes")
        ctx.step(3)
    ctx.state(repr((kind, numbers[-1:])))


def changed_cases(depth):
    for kind in NAMES:
        if kind in model.COLLECTIONS:
            continue
        for n in range(1, depth + 1):
            for c in itertools.product(range(len(VALUES[kind])), repeat=n):
                yield [kind, list(c)]


def collection(ctx, case):
    """Members of a list or container: in the order they were added, duplicates and all; the copy handed out is the caller's."""
    kind, ops = case
    from opyenxes.factory.XFactory import XFactory
    one = XFactory.create_attribute_list("l", None) if kind == "list" else XFactory.create_attribute_container("l", None)
    members, attributes = [], {}
    pool = [model.build_attr(["string", "a", "1", []]), model.build_attr(["string", "a", "2", []]), model.build_attr(["int", "b", 3, []])]
    for op in ops:
        member = pool[op % 3]
        if op < 3:
            one.add_to_collection(member)
            members.append(member)
        elif op < 6:
            one.get_attributes()[member.get_key()] = member
            attributes[member.get_key()] = member
        else:
            handed = one.get_collection()
            if isinstance(handed, list):
                handed.append(member)
        seen = list(one.get_collection())
        expect(len(seen) == len(members) and all(a is b for a, b in zip(seen, members)), "members after", ops, "are", [str(s) for s in seen])
        expect(sorted(one.get_attributes()) == sorted(attributes) and all(one.get_attributes()[k] is v for k, v in attributes.items()),
               "attributes after", ops)
        same(str(one), "[" + ",".join(m.get_key() + ":" + str(m) for m in members) + "]", "text of the " + kind)
        ctx.step(3)
    ctx.state(repr((kind, [str(m) for m in members], sorted(attributes))))


def collection_cases(depth):
    for kind in ("list", "container"):
        for n in range(1, depth + 1):
            for ops in itertools.product(range(9), repeat=n):
                yield [kind, list(ops)]


def refused(ctx, which):
    """What is not an attribute has no type and no prototype."""
    one = [None, "x", 1, object(), {}][which]
    for function in (utils().get_type, utils().get_type_string, utils().derive_prototype):
        try:
            got = function(one)
        except Exception:
            ctx.step()
            continue
        raise Violation("%s of %r is %r" % (function.__name__, one, got))


def words(ctx, word):
    """A text the code knows, as key and as value of every kind of attribute."""
    for kind in spaces.KINDS:
        prototype(ctx, [kind, VALUES[kind][0], word, 1])
    prototype(ctx, ["string", word, "k", 0])
    prototype(ctx, ["string", word, "concept:name", 1])
    one = model.build_attr(["string", "k", "v", []])
    one.set_value(word)
    same((one.get_value(), str(one), one.get_key()), (word, word, "k"), "an attribute whose value was set")


def numbers(ctx, values):
    for value in values:
        for kind, number in (("int", value), ("float", float(value) / 8 if abs(value) < 1 << 1000 else 1.5)):
            prototype(ctx, [kind, number, "k", 0])
            one = model.build_attr([kind, "k", model.build_value(kind, 5), []])
            one.set_value(number)
            same((one.get_value(), str(one)), (number, str(number)), "an attribute whose value was set")


def size_cases(tier):
    for n in spaces.steps(tier):
        yield from (["children", n], ["members", n], ["deep", min(n, 100)], ["changes", n])
    for n in itertools.chain(range(60), spaces.COUNTS, spaces.LENGTHS):
        yield ["text", n]


def sizes(ctx, case):
    """Many children, members and changes, and long texts."""
    what, n = case
    if what == "children":
        for kind in ("string", "int", "list", "date") if n > 20 else spaces.KINDS:
            prototype_of(ctx, [kind, "k", VALUES[kind][0], list(spaces.odd_attributes(n))])
    elif what == "members":
        for kind in model.COLLECTIONS:
            pool = [model.build_attr(["string", "a%d" % (i % 9), "v%d" % i, []]) for i in range(7)]
            one = model.build_attr([kind, "l", "c", []])
            for i in range(n):
                one.add_to_collection(pool[i * 5 % 7])
            seen = list(one.get_collection())
            expect(len(seen) == n and all(m is pool[i * 5 % 7] for i, m in enumerate(seen)), "members of a", kind, "are", [str(m) for m in seen][:20])
            same(str(one), "[" + ",".join(m.get_key() + ":" + str(m) for m in seen) + "]", "text of the " + kind)
            same(len(utils().derive_prototype(one).get_collection()), n, "members of the prototype")
    elif what == "deep":
        inner = [["string", "leaf", "x", []]]
        for i in range(n):
            kind = spaces.KINDS[i % 8]
            inner = [[kind, "k%d" % i, VALUES[kind][0], [["int", "before", i, []]] + inner]]
        prototype_of(ctx, inner[0] if n else ["string", "k", "x", []])
    elif what == "changes":
        for kind in NAMES:
            if kind in model.COLLECTIONS:
                continue
            one, other = (model.build_attr([kind, "concept:k", VALUES[kind][0], BELOW[1]]) for _ in (0, 1))
            form = model.seen_attr(other)
            for i in range(n):
                one.set_value(model.build_value(kind, VALUES[kind][i % 7 % len(VALUES[kind])]))
                same(str(one), text([kind, "", VALUES[kind][i % 7 % len(VALUES[kind])], []]), "its text")
            if n:
                same(model.seen_attr(one), model.expected_attr([kind, "concept:k", VALUES[kind][(n - 1) % 7 % len(VALUES[kind])], BELOW[1]]), "after %d changes" % n)
            same(model.seen_attr(other), form, "another attribute")
    else:
        word = spaces.odd_text(n)
        words(ctx, word)
        prototype_of(ctx, ["string", "concept:" + word, word + "x", [["string", word, word, []]]])
    ctx.state(repr(case))


def families(tier):
    quick = tier == "quick"
    return [
        looks.family("P36"),
        Family("prototypes", lambda _: prototype_cases(), prototype),
        Family("values", lambda _: spaces.chunked(([k, v] for k in NAMES if k not in model.COLLECTIONS for v in VALUES[k]), 1),
               lambda ctx, c: look(ctx, [c[0][0], "k", c[0][1], []])),
        Family("changed-values", lambda _: changed_cases(3 if quick else 5), changed),
        Family("collections", lambda _: collection_cases(4 if quick else 5), collection),
        Family("literals", lambda _: spaces.literals()[0], words),
        Family("numbers", lambda _: spaces.chunked(spaces.integers(300), 20), numbers),
        Family("sizes", lambda _: size_cases(tier), sizes),
        Family("no-attributes", lambda _: range(5), refused),
    ]
