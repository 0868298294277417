"""P15: attribute statistics agree with a recount of the attributes at each level."""
import itertools
from mc import looks, model, origin, shared, spaces
from mc.core import Family, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = ["the kind and extension reported for a key are those of the first attribute registered with it"]
DEFAULTS = {"string": "UNKNOWN", "int": 0, "float": 0.0, "boolean": True}


class Recount:
    def __init__(self):
        self.first = {}
        self.counts = {}
        self.total = 0

    def add(self, attr, registered=model.STANDARD):
        self.total += 1
        self.counts[attr[1]] = self.counts.get(attr[1], 0) + 1
        self.first.setdefault(attr[1], attr)


def distinct(attrs):
    return list({a[1]: a for a in attrs}.values())


def add_meta(recount, attr):
    for child in distinct(attr[3]):
        recount.add(child)
        add_meta(recount, child)


def compare(ctx, info, recount, what):
    from opyenxes.extension.XExtensionManager import XExtensionManager
    keys = sorted(recount.counts)
    same(sorted(info.get_attribute_keys()), keys, "keys of " + what)
    prototypes = {a.get_key(): a for a in info.get_attributes()}
    same(len(info.get_attributes()), len(keys), "number of prototypes of " + what)
    same(sorted(prototypes), keys, "prototypes of " + what)
    for key in keys:
        first = recount.first[key]
        prototype = prototypes[key]
        same(model.kind_of(prototype), first[0], "kind of the prototype of %r in %s" % (key, what))
        same(info.get_frequency(key), recount.counts[key], "frequency of %r in %s" % (key, what))
        same(info.get_frequency(prototype), recount.counts[key], "frequency by attribute of %r in %s" % (key, what))
        same(info.get_relative_frequency(key), recount.counts[key] / recount.total, "relative frequency of %r in %s" % (key, what))
        same(info.get_relative_frequency(prototype), recount.counts[key] / recount.total, "relative frequency by attribute of " + what)
        if first[0] in DEFAULTS:
            same(prototype.get_value(), DEFAULTS[first[0]], "value of the prototype of %r in %s" % (key, what))
        elif first[0] == "date":
            same(prototype.get_value_millis(), 0, "value of the prototype of %r in %s" % (key, what))
    for kind, cls in model.kinds().items():
        wanted = [k for k in keys if recount.first[k][0] == kind]
        same(sorted(info.get_keys_for_type(cls)), wanted, "keys of type %s of %s" % (kind, what))
        same(sorted(a.get_key() for a in info.get_attributes_for_type(cls)), wanted, "attributes of type %s of %s" % (kind, what))
    manager = XExtensionManager()
    for prefix in list(model.STANDARD) + [None]:
        wanted = [k for k in keys if model.prefix_of(k) == prefix]
        extension = None if prefix is None else manager.get_by_prefix(prefix)
        same(sorted(info.get_keys_for_extension(extension)), wanted, "keys of extension %s of %s" % (prefix, what))
        same(sorted(a.get_key() for a in info.get_attributes_for_extension(extension)), wanted,
             "attributes of extension %s of %s" % (prefix, what))
        if prefix is None:
            same(sorted(info.get_keys_without_extension()), wanted, "keys without extension of " + what)
            same(sorted(a.get_key() for a in info.get_attributes_without_extension()), wanted,
                 "attributes without extension of " + what)
    same(info.get_frequency("not there"), None, "frequency of an unknown key of " + what)
    ctx.step(8 + len(keys) * 4)


ATTRS = [spaces.attr("string", "a"), spaces.attr("int", "a"), spaces.attr("date", "time:timestamp"), spaces.attr("float", "b"),
         spaces.attr("boolean", "concept:name"), spaces.attr("string", "concept:name"), spaces.attr("list", "a", [["int", "x", 1, []]]),
         spaces.attr("container", "cost:total", [["int", "x", 1, []]]), spaces.attr("id", "identity:id"), spaces.attr("string", "", [["int", "a", 1, []]]),
         spaces.attr("string", "unknown:thing")]


def history(ctx, case):
    """Registrations in every order; checked after every one, and the
    registered attributes stay as they are."""
    from opyenxes.info.XAttributeInfo import XAttributeInfo
    info, recount = XAttributeInfo(), Recount()
    for number in case:
        attr = model.build_attr(ATTRS[number])
        before = model.seen_attr(attr)
        info.register(attr)
        recount.add(ATTRS[number])
        same(model.seen_attr(attr), before, "the registered attribute")
    compare(ctx, info, recount, "the attributes")
    ctx.state(repr((sorted(recount.counts.items()), sorted((k, v[0]) for k, v in recount.first.items()))))


def histories(depth):
    for n in range(depth + 1):
        for ops in itertools.product(range(len(ATTRS)), repeat=n):
            yield list(ops)


def through_log(ctx, log, built=None):
    from opyenxes.info.XLogInfo import XLogInfo
    built = model.build_log(log) if built is None else built
    before = model.seen_log(built)
    info = XLogInfo.create(built)
    same(model.seen_log(built), before, "the log after it was summarised")
    levels = [Recount() for _ in range(4)]
    for attr in distinct(log.get("a", [])):
        levels[0].add(attr)
        add_meta(levels[3], attr)
    for attrs, events in log["t"]:
        for attr in distinct(attrs):
            levels[1].add(attr)
            add_meta(levels[3], attr)
        for event in events:
            for attr in distinct(event):
                levels[2].add(attr)
                add_meta(levels[3], attr)
    for recount, found, what in zip(levels, (info.get_log_attribute_info(), info.get_trace_attribute_info(),
                                             info.get_event_attribute_info(), info.get_meta_attribute_info()),
                                    ("log", "trace", "event", "meta")):
        compare(ctx, found, recount, what + " attributes")
    ctx.state(repr([sorted(r.counts.items()) for r in levels]))


def in_maps(attr):
    """Members of a list or container that are in its collection only are no meta attributes."""
    kind, key, value, children = attr
    return [kind, key, value, [] if value == "c" and kind in model.COLLECTIONS else [in_maps(c) for c in children]]


def shared_parts(ctx, log, built):
    if any(a[1] == "time:timestamp" and a[0] != "date" for _, events in log["t"] for e in events for a in e):
        return
    maps = lambda attrs: [in_maps(a) for a in attrs]
    through_log(ctx, {"a": maps(log.get("a", [])), "t": [[maps(attrs), [maps(e) for e in events]] for attrs, events in log["t"]]}, built)


def place_cases(quick):
    """Each of the places gets a subset of the attributes."""
    base = [ATTRS[0], ATTRS[2], ATTRS[7]]
    for masks in itertools.product(range(8), repeat=4):
        yield ["masks", list(masks)]
    for n in range(0, 60 if quick else 300):
        yield ["many", [n]]
    for path in itertools.product(spaces.KINDS, repeat=3 if quick else 4):
        for where in ("log", "trace", "event"):
            yield ["nested", [where] + list(path)]


def places(ctx, case):
    what, rest = case
    base = [ATTRS[0], ATTRS[2], ATTRS[7]]
    if what == "masks":
        sets = [[a for i, a in enumerate(base) if mask >> i & 1] for mask in rest]
        log = {"a": sets[0], "t": [[sets[1], [sets[2], sets[3]]], [sets[3], [sets[2]]]]}
    elif what == "many":
        n = rest[0]
        log = {"a": [["int", "l%d" % i, i, []] for i in range(n % 7)],
               "t": [[[["int", "t%d" % (i % 3), i, []]], [[["string", "e%d" % (j % 5), "x", []]] for j in range(n)]] for i in range(n % 4 + 1)]}
    else:
        inner = []
        for depth, kind in enumerate(reversed(rest[1:])):
            inner = [spaces.attr(kind, ["k", "concept:name", "time:x"][depth % 3], inner), spaces.attr(kind, "twice", inner)]
        log = spaces.host(rest[0], inner)
        log.pop("gt"), log.pop("ge")
    through_log(ctx, log)


# name, prefix, URI: equal in one or two of them
OWN = [("same", "p", "http://own/1"), ("same", "p", "http://own/2"), ("same", "q", "http://own/3"), ("other", "p", "http://own/4"), ("Concept", "concept", "http://own/5"),
       ("", "", "http://own/6")]


def own_cases(depth):
    for extensions in itertools.product(range(len(OWN) + 2), repeat=depth):
        for keys in itertools.product(range(depth), repeat=depth):
            yield [list(extensions), list(keys)]


def own(ctx, case):
    """Attributes of extensions that are not registered, or not those of their
    prefix: grouped by the extension they have."""
    from urllib.parse import urlparse
    from opyenxes.extension.XExtension import XExtension
    from opyenxes.extension.std.XConceptExtension import XConceptExtension
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.info.XAttributeInfo import XAttributeInfo
    numbers, keys = case
    known = [XExtension(n, p, urlparse(u)) for n, p, u in OWN] + [XConceptExtension(), None]
    info, first, counts = XAttributeInfo(), {}, {}
    for number, key in zip(numbers, keys):
        key = ["concept:name", "p:k", "k"][key]
        info.register(XFactory.create_attribute_literal(key, "v", known[number]))
        first.setdefault(key, number)
        counts[key] = counts.get(key, 0) + 1
    for number, extension in enumerate(known):
        wanted = sorted(k for k in first if first[k] == number)
        same(sorted(info.get_keys_for_extension(extension)), wanted, "keys of extension %d" % number)
        same(sorted(a.get_key() for a in info.get_attributes_for_extension(extension)), wanted, "attributes of extension %d" % number)
        if extension is None:
            same(sorted(info.get_keys_without_extension()), wanted, "keys without extension")
        else:
            again = XExtension("an equal one", "x", urlparse(extension.get_uri().geturl()))
            same(sorted(info.get_keys_for_extension(again)), wanted, "keys of an extension equal to %d" % number)
    for attribute in info.get_attributes():
        expect(attribute.get_extension() is known[first[attribute.get_key()]], "extension of the prototype of", attribute.get_key())
    for key in counts:
        same(info.get_frequency(key), counts[key], "frequency of " + key)
    ctx.step(3 * len(known))
    ctx.state(repr(case))


def sizes(ctx, case):
    """One key again and again, and many keys."""
    from opyenxes.info.XAttributeInfo import XAttributeInfo
    what, n = case
    info, recount = XAttributeInfo(), Recount()
    attrs = list(spaces.odd_attributes(n)) if what == "keys" else [ATTRS[0] if i % 5 else ATTRS[2 + i // 5 % 9] for i in range(n)]
    if what == "both":
        attrs = [[a[0], "k%d" % (i * i % 37), a[2], a[3]] for i, a in enumerate(spaces.odd_attributes(n))]
    for i, attr in enumerate(attrs):
        info.register(model.build_attr(attr))
        recount.add(attr)
        if i in (n // 3, n - 2):
            compare(ctx, info, recount, "the first %d attributes" % (i + 1))
    compare(ctx, info, recount, "%d attributes" % n)
    ctx.state(repr(case))


def families(tier):
    quick = tier == "quick"
    return [
        looks.family("P15"),
        shared.family(shared_parts, quick),
        origin.family(shared_parts),
        Family("histories", lambda _: histories(4 if quick else 5), history),
        Family("log-levels", lambda _: place_cases(quick), places),
        Family("own-extensions", lambda _: own_cases(3), own),
        Family("literals", lambda _: [w for w in spaces.literals()[0] if w != "time:timestamp"],
               lambda ctx, c: through_log(ctx, spaces.literal_log(c))),
        Family("sizes", lambda _: [[w, n] for n in spaces.steps(tier) for w in ("one key", "keys", "both")], sizes),
        Family("shapes", lambda _: spaces.shape_cases(3, 3), lambda ctx, c: through_log(ctx, {k: v for k, v in spaces.shape_log(c).items() if k in "at"})),
    ]
