"""P30: the extensions of an element are those of its attributes at any depth, now."""
import itertools
from urllib.parse import urlparse
from mc import looks, model, spaces
from mc.core import Family, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = ["members of a list or container that are not also attributes of it do not count"]
LABELS = [0, 1, 2, 3]
HOSTS = ["event", "trace"] + spaces.KINDS
own = []


def extension(number):
    """None, two standard ones, one that is not registered, one with the same name."""
    if not own:
        from opyenxes.extension.std.XConceptExtension import XConceptExtension
        from opyenxes.extension.std.XTimeExtension import XTimeExtension
        from opyenxes.extension.XExtension import XExtension
        own.extend([None, XConceptExtension(), XTimeExtension(), XExtension("Own", "own", urlparse("http://own.org/x"))])
    while number >= len(own):
        from opyenxes.extension.XExtension import XExtension
        own.append(XExtension("Own %d" % len(own), "own%d" % len(own), urlparse("http://own.org/%d" % len(own))))
    return own[number]


def attribute(kind, key, number):
    from opyenxes.factory.XFactory import XFactory
    create = {"string": XFactory.create_attribute_literal, "date": XFactory.create_attribute_timestamp, "int": XFactory.create_attribute_discrete,
              "float": XFactory.create_attribute_continuous, "boolean": XFactory.create_attribute_boolean, "id": XFactory.create_attribute_id}
    if kind in create:
        return create[kind](key, model.build_value(kind, spaces.SAMPLE[kind]), extension(number))
    return (XFactory.create_attribute_list if kind == "list" else XFactory.create_attribute_container)(key, extension(number))


def host(name):
    from opyenxes.factory.XFactory import XFactory
    if name == "event":
        return XFactory.create_event()
    if name == "trace":
        return XFactory.create_trace()
    return attribute(name, "concept:host", 1)


def compare(ctx, element, numbers, what):
    """The host's own extension (an attribute's) is not among them."""
    seen = element.get_extensions()
    wanted = {extension(n) for n in numbers if n}
    same(set(e.get_name() for e in seen), set(e.get_name() for e in wanted), "extensions of " + what)
    expect(all(any(e is w for w in wanted) for e in seen) and len(seen) == len(wanted), "other extensions of", what)
    ctx.step()


def fill(ctx, element, forest, kinds):
    """Returns the numbers of the extensions below."""
    numbers = set()
    for i, (label, children) in enumerate(forest):
        one = attribute(next(kinds), "k%d" % i, label)
        below = fill(ctx, one, children, kinds)
        compare(ctx, one, below, "an attribute with children")
        element.get_attributes()["k%d" % i] = one
        numbers |= below | {label}
    return numbers


def trees(ctx, case):
    name, start, forest = case
    element = host(name)
    kinds = itertools.islice(itertools.cycle(spaces.KINDS), start, None)
    numbers = fill(ctx, element, forest, kinds)
    compare(ctx, element, numbers, name)
    copy = element.clone()
    compare(ctx, copy, numbers, "the clone of a " + name)
    ctx.state(repr((name, forest)))


def tree_cases(nodes):
    count = 0
    for n in range(nodes + 1):
        for forest in spaces.forests(n, LABELS):
            count += 1
            yield [HOSTS[count % len(HOSTS)], count % 7, forest]
    for name in HOSTS:
        for forest in spaces.forests(2, LABELS):
            yield [name, 0, forest]


def history(ctx, case):
    """Attributes are set, replaced, removed, nested and whole maps replaced."""
    name, ops = case
    from opyenxes.factory.XFactory import XFactory
    element = host(name)
    has = {}                       # key -> [number, {key: number} below]
    for op in ops:
        key, what = "ab"[op % 2], op // 2
        if what < 3:
            element.get_attributes()[key] = attribute(spaces.KINDS[op], key, what)
            has[key] = [what, {}]
        elif what < 5:
            if key in has:
                element.get_attributes()[key].get_attributes()["n"] = attribute("string", "n", what - 2)
                has[key][1]["n"] = what - 2
        elif what == 5:
            if key in has:
                del element.get_attributes()[key]
                del has[key]
        else:
            fresh = XFactory.create_attribute_map()
            fresh[key] = attribute("int", key, 3)
            element.set_attributes(fresh)
            has = {key: [3, {}]}
        compare(ctx, element, {n for n, below in has.values()} | {n for _, below in has.values() for n in below.values()}, "%s after %s" % (name, ops))
        same(element.has_attributes(), bool(has), "has_attributes")
    ctx.state(repr(has))


def history_cases(depth, names):
    for name in names:
        for n in range(1, depth + 1):
            for ops in itertools.product(range(14), repeat=n):
                yield [name, list(ops)]


def logs(ctx, mask):
    """A log has the extensions declared on it, whatever its attributes use."""
    from opyenxes.factory.XFactory import XFactory
    log = XFactory.create_log()
    for number in (1, 2, 3):
        if mask >> number & 1:
            log.get_extensions().add(extension(number))
    expect(not XFactory.create_log().get_extensions(), "a new log has extensions")
    if mask & 1:
        log.get_attributes()["a"] = attribute("string", "a", 1)
        log.append(host("trace"))
    compare(ctx, log, [n for n in (1, 2, 3) if mask >> n & 1], "a log")
    compare(ctx, log.clone(), [n for n in (1, 2, 3) if mask >> n & 1], "a cloned log")
    log.get_extensions().discard(extension(1))
    compare(ctx, log, [n for n in (2, 3) if mask >> n & 1], "a log")


def sizes(ctx, case):
    """Many attributes and deep ones, the ones with extensions here and there."""
    name, n, way = case
    element = host(name)
    numbers = set()
    for i in range(n):
        label = {0: i % 4, 1: 0, 2: 1, 3: i % 40}[way]
        if i == n - 1:
            label = 2
        one = attribute(spaces.KINDS[i % 8], "k%d" % i, label)
        element.get_attributes()["k%d" % i] = one
        numbers.add(label)
        if i in (n // 2, n - 1):
            one.get_attributes()["n"] = attribute("string", "n", 41 + i)
            numbers.add(41 + i)
        if i in (n // 2, n - 1, n // 3):
            compare(ctx, element, numbers, "%s with %d attributes" % (name, i + 1))
    if n < 61:
        inner = attribute("int", "deep", 3)
        for i in range(n):
            outer = attribute(spaces.KINDS[i % 8], "k", [i % 3, 0, 0, 4 + i][way])
            outer.get_attributes()["before"] = attribute("int", "before", 0)
            outer.get_attributes()["k"] = inner
            compare(ctx, outer, {3} | {[k % 3, 0, 0, 4 + k][way] for k in range(i)}, "an attribute %d levels above" % i)
            inner = outer
    ctx.state(repr(case))


def families(tier):
    quick = tier == "quick"
    return [
        looks.family("P30"),
        Family("trees", lambda _: tree_cases(4 if quick else 5), trees),
        Family("histories", lambda _: history_cases(3 if quick else 4, HOSTS[:4] if quick else HOSTS), history),
        Family("sizes", lambda _: [[h, n, w] for n in spaces.steps(tier) for w in range(4) for h in (HOSTS if n < 12 else HOSTS[:3])], sizes),
        Family("logs", lambda _: range(16), logs),
    ]
