"""P21: nested cost values are stored at, and read from, exactly the key paths given."""
import itertools
from mc import looks, model, spaces
from mc.core import Family, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = ["amounts are positive, drivers and types are not blank; keys on the paths are not those of the cost extension itself"]
# all paths over two keys up to depth 3
PATHS = [list(p) for n in (1, 2, 3) for p in itertools.product("ab", repeat=n)]
WHAT = [("amounts", "cost:amount", "float", [1.5, 2.25, 1e-9, 7.0]), ("drivers", "cost:driver", "string", ["d1", "d2", " d ", "0"]),
        ("types", "cost:type", "string", ["Fixed", "t2", "UNKNOWN", "x y"])]


def cost():
    from opyenxes.extension.std.XCostExtension import XCostExtension
    return XCostExtension()


def host(number):
    from opyenxes.factory.XFactory import XFactory
    return [XFactory.create_event, XFactory.create_trace][number]()


def tree(element):
    """The attributes as nested dictionaries: key -> (kind, value, extension, below)."""
    return {c[1]: (c[0], c[2], c[3], below(c)) for c in model.seen_map(element.get_attributes())}


def below(form):
    return {c[1]: (c[0], c[2], c[3], below(c)) for c in form[4]}


def put(reference, path, what, value):
    """Reference of an assignment: attributes on the way are created as empty
    texts, existing ones are kept."""
    here = reference
    for key in path:
        here = here.setdefault(key, ("string", "", None, {}))[3]
    key, kind = WHAT[what][1], WHAT[what][2]
    here[key] = (kind, model.canon_value(kind, value), "cost", {})


def values_in(reference, what, path=()):
    found = {}
    for key, (_, value, _, children) in reference.items():
        here = path + (key,)
        if WHAT[what][1] in children:
            found[here] = children[WHAT[what][1]][1]
        found.update(values_in(children, what, here))
    return found


def plain(found, what):
    return {path: model.canon_value(WHAT[what][2], value) for path, value in found.items()}


def compare(ctx, element, reference):
    same(tree(element), reference, "attributes of the element")
    for what, (name, key, kind, _) in enumerate(WHAT):
        nested = getattr(cost(), "extract_nested_" + name)(element)
        expect(all(isinstance(path, tuple) for path in nested), "key paths are not tuples")
        same(plain(nested, what), values_in(reference, what), "extract_nested_" + name)
        flat = getattr(cost(), "extract_" + name)(element)
        same(plain(flat, what), {path[0]: v for path, v in values_in(reference, what).items() if len(path) == 1}, "extract_" + name)
        ctx.step(2)


def assign(ctx, case):
    """One assignment of a set of paths in a given order, to an element that
    has some attributes already."""
    where, order, kinds, before = case
    element, reference = host(where), {}
    if before:
        for attr in BEFORE[before]:
            element.get_attributes()[attr[1]] = model.build_attr(attr)
        reference = tree(element)
    values = {}
    for i, n in enumerate(order):
        what = kinds[i % len(kinds)]
        value = WHAT[what][3][(n + i) % 4]
        values.setdefault(what, {})[tuple(PATHS[n])] = value
        put(reference, PATHS[n], what, value)
    for what in kinds:
        if what in values:
            getattr(cost(), "assign_nested_" + WHAT[what][0])(element, values[what])
    compare(ctx, element, reference)
    flat = {p[0]: v for p, v in values.get(kinds[0], {}).items() if len(p) == 1}
    if flat:
        other, wanted = host(1 - where), {}
        getattr(cost(), "assign_" + WHAT[kinds[0]][0])(other, flat)
        for key, value in flat.items():
            put(wanted, [key], kinds[0], value)
        compare(ctx, other, wanted)
    # what was read can be assigned to another element and is read there again
    copy = host(where)
    for what, (name, _, _, _) in enumerate(WHAT):
        getattr(cost(), "assign_nested_" + name)(copy, getattr(cost(), "extract_nested_" + name)(element))
        same(plain(getattr(cost(), "extract_nested_" + name)(copy), what), values_in(reference, what), "nested %s after copying" % name)
    ctx.state(repr(sorted(reference.items(), key=repr)))


BEFORE = [None, [["int", "a", 7, [["string", "z", "zz", []]]]],
          [["string", "a", "keep", [["float", "cost:amount", 100.0, []], ["string", "b", "kept", [["string", "cost:type", "old", []]]]]]],
          [["string", "concept:name", "n", [["string", "cost:driver", "other", []]]], ["boolean", "b", False, []]]]


def odd_cases(quick):
    """Paths over every key the code knows, keys that look like those of the
    extension, and odd ones."""
    own = {"cost:amount", "cost:driver", "cost:type"}
    for key in ["", "cost", "cost:", ":", "cost:labour", "cost:amounts", "Cost:Amount", "COST:AMOUNT", "cost:total", "cost:currency", "a:b", " ", "\u00e9", "a.b",
                "a/b", "0", "None", "a,b", "('a',)"] + [w for w in spaces.literals()[0] if w not in own and len(w) < 40]:
        for what in range(3):
            yield [key, what]


def odd(ctx, case):
    key, what = case
    for paths in ([[key]], [[key, key]], [["a", key]], [[key, "a"], [key]], [["a", key, "b"], ["a", "b", key], ["a"]], [[key] * 4, [key]]):
        element, reference = host(len(paths) % 2), {}
        values = {}
        for i, path in enumerate(paths):
            values[tuple(path)] = WHAT[what][3][i % 4]
            put(reference, path, what, WHAT[what][3][i % 4])
        getattr(cost(), "assign_nested_" + WHAT[what][0])(element, values)
        compare(ctx, element, reference)
    flat, wanted = host(0), {}
    getattr(cost(), "assign_" + WHAT[what][0])(flat, {key: WHAT[what][3][0], "a": WHAT[what][3][1]})
    put(wanted, [key], what, WHAT[what][3][0])
    put(wanted, ["a"], what, WHAT[what][3][1])
    compare(ctx, flat, wanted)
    ctx.state(repr(case))


HERE = ["a", "concept:name", "time:timestamp", "org:resource", "cost:currency", "unknown:k"]
SHAPES = [["string", "keep"], ["int", 7], ["float", -0.5], ["boolean", False], ["date", [2016, 2, 29, 1, 2, 3, 4000, 330]],
          ["id", "00000000-0000-0000-0000-00000000000a"], ["list", "m"], ["container", "m"]]


def existing_cases():
    """Paths of up to three keys on which a part of the attributes is there,
    of every kind, with and without an extension."""
    for length in (1, 2, 3):
        for there in range(1, length + 1):
            for key in HERE:
                for shape in range(len(SHAPES)):
                    for what in range(3):
                        yield [length, there, key, shape, what]


def existing(ctx, case):
    length, there, key, shape, what = case
    path = [key, "b", key][:length]
    attr = None
    for i in reversed(range(there)):
        kind, value = SHAPES[(shape + i) % len(SHAPES)]
        inside = [["string", "side", "s", [["float", "cost:amount", 3.0, []]]]]
        attr = [kind, path[i], value, inside + ([attr] if attr else [])]
    element = host(what % 2)
    element.get_attributes()[key] = model.build_attr(attr)
    reference, one = tree(element), element.get_attributes()[key]
    for value in WHAT[what][3][:2]:
        getattr(cost(), "assign_nested_" + WHAT[what][0])(element, {tuple(path): value})
        put(reference, path, what, value)
        compare(ctx, element, reference)
        expect(element.get_attributes()[key] is one, "the attribute", key, "was replaced")
    if length == 1:
        getattr(cost(), "assign_" + WHAT[what][0])(element, {key: WHAT[what][3][2]})
        put(reference, path, what, WHAT[what][3][2])
        compare(ctx, element, reference)
    ctx.state(repr(case))


def assign_cases(quick):
    for size in (0, 1, 2, 3):
        for order in itertools.permutations(range(len(PATHS) if size < 3 or not quick else 6), size):
            for kinds in ([0], [1], [2], [0, 1], [2, 0, 1]):
                for before in range(len(BEFORE)):
                    yield [(sum(order) + before) % 2, list(order), kinds, before]


def sequence(ctx, case):
    """A sequence of assignments to single attributes and to paths; later
    values take the place of earlier ones."""
    element, reference = host(len(case) % 2), {}
    for step, op in enumerate(case):
        what, n = op % 3, op // 3
        path = SEQUENCE_PATHS[n]
        value = WHAT[what][3][(step + op) % 4]
        getattr(cost(), "assign_nested_" + WHAT[what][0])(element, {tuple(path): value})
        put(reference, path, what, value)
        compare(ctx, element, reference)
    ctx.state(repr(sorted(reference.items(), key=repr)))


SEQUENCE_PATHS = [["a"], ["a", "b"], ["b"], ["b", "a", "a"], [""], ["", "concept:name"]]


def sequences(depth):
    for ops in itertools.product(range(3 * len(SEQUENCE_PATHS)), repeat=depth):
        yield list(ops)


def trees(ctx, case):
    """Extraction from every tree shape, with values at a subset of the nodes,
    zero and blank values included (an attribute that is there counts)."""
    forest, mask, what = case
    number = [0]

    def build(nodes, depth):
        out = []
        for label, children in nodes:
            i = number[0]
            number[0] += 1
            inner = build(children, depth + 1)
            if mask >> i & 1:
                inner.append([WHAT[what][2], WHAT[what][1], [0.0, -1.0, 2.5][i % 3] if what == 0 else ["", "x", " "][i % 3], []])
            out.append([["string", "int", "boolean"][i % 3], label, ["s", 0, False][i % 3], inner])
        return out
    element = host(mask % 2)
    for attr in build(forest, 0):
        element.get_attributes()[attr[1]] = model.build_attr(attr)
    before = tree(element)
    compare(ctx, element, before)
    ctx.state(repr(sorted(before.items(), key=repr)))


def distinct(forest):
    labels = [l for l, _ in forest]
    return len(set(labels)) == len(labels) and all(distinct(c) for _, c in forest)


def tree_cases(size):
    for n in range(size + 1):
        for forest in spaces.forests(n, ["a", "b", "c:d"]):
            if distinct(forest):
                for mask in range(1 << n):
                    for what in range(3) if n < 3 else [mask % 3]:
                        yield [forest, mask, what]


def deep(ctx, n):
    path = tuple("k%d" % (i % 3) for i in range(n))
    values = {path[:i]: float(i) for i in range(1, n + 1)}
    element, reference = host(n % 2), {}
    cost().assign_nested_amounts(element, values)
    for p, v in values.items():
        put(reference, p, 0, v)
    same(plain(cost().extract_nested_amounts(element), 0), values_in(reference, 0), "amounts on a path of %d keys" % n)
    ctx.state(n)
    ctx.step()


def words(ctx, word):
    """A text the code knows, as a key on the paths, a driver and a type."""
    if word.startswith("cost:"):
        return
    for paths in ([[word]], [[word, "a"], [word]], [["a", word]], [["a", word, word], ["b"]]):
        for what in range(3):
            element, reference = host(what % 2), {}
            for i, path in enumerate(paths):
                value = WHAT[what][3][i] if what == 0 or not word.strip() else word
                getattr(cost(), "assign_nested_" + WHAT[what][0])(element, {tuple(path): value})
                put(reference, path, what, value)
            compare(ctx, element, reference)
    ctx.state(word)


def sizes(ctx, case):
    """Many keys, many paths, long keys and values."""
    way, n, what = case
    element, reference, values = host(n % 2), {}, {}
    if n % 3 == 0:
        for attr in BEFORE[2] + [["int", "k%d" % (n // 2), 5, []]]:
            element.get_attributes()[attr[1]] = model.build_attr(attr)
        reference = tree(element)

    def value(i):
        return [0.25 + i, "d%d" % i, spaces.ODD[i % len(spaces.ODD)].strip() or "t"][what]
    if way == "level":
        paths = [["k%d" % i] for i in range(n)]
    elif way == "below":
        paths = [["a"]] + [["a", "k%d" % i] for i in range(n)] + [["a", "k%d" % (n // 2), "b"], ["b"]]
    elif way == "twos":
        # every path over two keys, and n of them longer
        paths = [["%d" % (i >> bit & 1) for bit in range(i.bit_length())] for i in range(2, n + 2)]
    elif way == "far":
        paths = [["k%d" % i, "b"] + ["c"] * (i % 5) for i in range(n)] + [["k%d" % (n - 1)], ["k0"]][:2 if n else 0]
    else:
        paths = [[spaces.odd_text(n) or "k"], ["a", "x" * n + "y", spaces.odd_text(n) + "z"], ["a"]]
    for i, path in enumerate(paths):
        one = value(i) if way != "long" or what == 0 else spaces.odd_text(n) + "v%d" % i
        values[tuple(path)] = one
        put(reference, path, what, one)
    getattr(cost(), "assign_nested_" + WHAT[what][0])(element, values)
    compare(ctx, element, reference)
    if way == "level":
        other = host(1 - n % 2)
        getattr(cost(), "assign_" + WHAT[what][0])(other, {path[0]: one for path, one in values.items()})
        wanted = {}
        for path, one in values.items():
            put(wanted, path, what, one)
        compare(ctx, other, wanted)
    ctx.state(repr(case))


def size_cases(tier):
    for way in ("level", "below", "twos", "far", "long"):
        for n in spaces.steps(tier, 515 if tier == "quick" else 1025) if way != "long" else list(range(100)) + spaces.COUNTS + spaces.LENGTHS:
            for what in range(3):
                yield [way, n, what]


def families(tier):
    quick = tier == "quick"
    return [
        looks.family("P21"),
        Family("odd-keys", lambda _: odd_cases(quick), odd),
        Family("existing", lambda _: existing_cases(), existing),
        Family("assigned", lambda _: assign_cases(quick), assign),
        Family("sequences", lambda _: sequences(3 if quick else 4), sequence),
        Family("trees", lambda _: tree_cases(4 if quick else 5), trees),
        Family("literals", lambda _: spaces.literals()[0], words),
        Family("deep", lambda _: list(range(1, 60)), deep),
        Family("sizes", lambda _: size_cases(tier), sizes),
    ]
