"""P20: a standard extension's accessor reads and writes its own attribute of the element given, and nothing else."""
import itertools
from urllib.parse import urlparse
from mc import looks, model, spaces
from mc.core import Family, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = ["blank texts, costs and levels that are not positive and negative lengths are not assigned; whether a zero cost is is left open"]
D = [[2016, 2, 29, 23, 59, 58, 7000, 330], [1969, 12, 31, 23, 59, 59, 999000, -210]]
TEXTS = ["x", " y\u00e9 ", "a b", "UNKNOWN", "0"]
IGNORED = [None, "", "  \t"]
# extension, part of the accessor names, key, kind, values, ignored values, value when missing
TABLE = [
    ("concept", "name", "concept:name", "string", TEXTS, IGNORED, None),
    ("concept", "instance", "concept:instance", "string", TEXTS, IGNORED, None),
    ("org", "resource", "org:resource", "string", TEXTS, IGNORED, None),
    ("org", "role", "org:role", "string", TEXTS, IGNORED, None),
    ("org", "group", "org:group", "string", TEXTS, IGNORED, None),
    ("lifecycle", "model", "lifecycle:model", "string", TEXTS, IGNORED, None),
    ("lifecycle", "transition", "lifecycle:transition", "string", TEXTS, IGNORED, None),
    ("cost", "total", "cost:total", "float", [1.5, 1e-9, 1e300], [None], None),
    ("cost", "currency", "cost:currency", "string", TEXTS, IGNORED, None),
    ("cost", "amount", "cost:amount", "float", [2.5, 0.25], [None], None),
    ("cost", "driver", "cost:driver", "string", TEXTS, IGNORED, None),
    ("cost", "type", "cost:type", "string", TEXTS, IGNORED, None),
    ("identity", "id", "identity:id", "id", [spaces.UUID, spaces.OTHER["id"], "00000000-0000-0000-0000-000000000000"], [None], None),
    ("micro", "level", "micro:level", "int", [1, 2, 10 ** 12], [0, -1, -7], -1),
    ("micro", "parent_id", "micro:parentId", "id", [spaces.UUID, spaces.OTHER["id"]], [], None),
    ("micro", "length", "micro:length", "int", [0, 1, 10 ** 12], [-1, -5], -1),
    ("time", "timestamp", "time:timestamp", "date", D, [], None),
    ("semantic", "model_references", "semantic:modelReference", "string", [["http://a/b#c"], ["urn:X", "http://A/b?q=1"], ["a", "b", "a"]], [[]], []),
]
STRIPPED = ("lifecycle:model", "lifecycle:transition")
_extensions = {}


def extension(prefix):
    if not _extensions:
        from opyenxes.extension.std.XConceptExtension import XConceptExtension
        from opyenxes.extension.std.XCostExtension import XCostExtension
        from opyenxes.extension.std.XIdentityExtension import XIdentityExtension
        from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
        from opyenxes.extension.std.XMicroExtension import XMicroExtension
        from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExtension
        from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
        from opyenxes.extension.std.XTimeExtension import XTimeExtension
        _extensions.update(concept=XConceptExtension(), cost=XCostExtension(), identity=XIdentityExtension(),
                           lifecycle=XLifecycleExtension(), micro=XMicroExtension(), org=XOrganizationalExtension(),
                           semantic=XSemanticExtension(), time=XTimeExtension())
    return _extensions[prefix]


def xid(text):
    from opyenxes.id.XID import XID
    return XID.parse(text)


def given(kind, value):
    """What is passed to assign_..."""
    if value is not None and kind == "id":
        return xid(value)
    if value is not None and kind == "date":
        return model.model_datetime(value)
    return value


def stored(row, value):
    """The canonical value of the attribute after assigning."""
    if row[1] == "model_references":
        return None
    if row[2] in STRIPPED:
        return value.strip()
    return model.canon_value(row[3], value)


def extracted(row, value):
    if value is None:
        return row[6]
    if row[1] == "model_references":
        return value
    if row[3] == "date":
        return model.canon_datetime(model.model_datetime(value))
    return value.strip() if row[2] in STRIPPED else value


def seen_extracted(row, element):
    value = getattr(extension(row[0]), "extract_" + row[1])(element)
    if value is None or row[6] is not None and value == row[6]:
        return value
    if row[3] == "date":
        return model.canon_datetime(value)
    if row[3] == "id":
        return str(value.get_uuid())
    return value


OPS = []
for number, entry in enumerate(TABLE):
    for v in range(2):
        OPS.append(["assign", number, v])
    if entry[5]:
        OPS.append(["ignored", number, 0])
    if entry[0] == "micro":
        OPS.append(["remove", number, 0])
OPS.append(["none", 14, 0])


def compare(ctx, elements, references):
    for element, reference in zip(elements, references):
        attributes = element.get_attributes()
        same(sorted(attributes), sorted(["other"] + [TABLE[n][2] for n in reference]), "keys of the attributes")
        for n, value in reference.items():
            row = TABLE[n]
            attr = attributes[row[2]]
            form = model.seen_attr(attr)
            wanted = stored(row, value)
            same((form[0], form[1], form[3], form[4]), (row[3], row[2], row[0], ()), "kind, key, extension and children of " + row[2])
            if wanted is not None:
                same(form[2], wanted, "value of " + row[2])
            expect(attr.get_extension() is extension(row[0]), "extension of", row[2], "is another object")
        same(attributes["other"].get_value(), "o", "another attribute")
        for n, row in enumerate(TABLE):
            same(seen_extracted(row, element), extracted(row, reference.get(n)), "extract_%s of the %s extension" % (row[1], row[0]))
        model_text = reference.get(5)
        same(extension("lifecycle").uses_standard_model(element), False if model_text is None else model_text.strip() == "standard",
             "uses_standard_model")
        named = extension("identity").extract_name(element)
        same(None if named is None else str(named.get_uuid()), reference.get(12), "extract_name of the identity extension")
        same([u.geturl() for u in extension("semantic").extract_model_reference_uris(element)], reference.get(17, []), "model reference URIs")
        ctx.step(len(TABLE))
    owned = [id(a) for e in elements for a in e.get_attributes().values()]
    same(len(set(owned)), len(owned), "number of attribute objects that are not shared")


def hosts():
    from opyenxes.factory.XFactory import XFactory
    return [XFactory.create_event(), XFactory.create_trace(), XFactory.create_log(), XFactory.create_attribute_literal("k", "v", None)]


def history(ctx, case):
    """Operations on two elements in turn."""
    first, ops, places = case
    elements = [hosts()[first], hosts()[(first + len(ops)) % 4]]
    for element in elements:
        element.get_attributes()["other"] = model.build_attr(["string", "other", "o", []])
    references = [{}, {}]
    for turn, op in enumerate(ops):
        what, n, v = OPS[op]
        row = TABLE[n]
        where = int(places[turn])
        element, reference = elements[where], references[where]
        target = extension(row[0])
        if what == "assign":
            getattr(target, "assign_" + row[1])(element, given(row[3], row[4][v]))
            reference[n] = row[4][v]
        elif what == "ignored":
            for value in row[5]:
                getattr(target, "assign_" + row[1])(element, value)
        elif what == "none":
            target.assign_parent_id(element, None)
            reference.pop(n, None)
        else:
            getattr(target, "remove_" + row[1])(element)
            reference.pop(n, None)
        compare(ctx, elements, references)
    ctx.state(repr(references))


def histories(depth):
    for n in range(1, depth + 1):
        for ops in itertools.product(range(len(OPS)), repeat=n):
            for first in range(4) if n < 3 else [sum(ops) % 4]:
                for places in {1: ["0"], 2: ["00", "01"], 3: ["010", "000"]}[n]:
                    yield [first, list(ops), places]


def three_cases():
    """Three operations on one element, with one value each."""
    few = [i for i, op in enumerate(OPS) if op[0] != "assign" or op[2] == 0]
    for ops in itertools.product(few, repeat=3):
        yield [sum(ops) % 4, list(ops), "000"]


def value_cases():
    for n, row in enumerate(TABLE):
        for v in range(len(row[4])):
            for w in range(len(row[4])):
                for first in range(4):
                    yield [n, v, w, first]


def values(ctx, case):
    """Assign, change what is stored and what was passed, assign again: always
    a new attribute with the value given last."""
    n, v, w, first = case
    row = TABLE[n]
    target = extension(row[0])
    element, other = hosts()[first], hosts()[first]
    for e in (element, other):
        e.get_attributes()["other"] = model.build_attr(["string", "other", "o", []])
        getattr(target, "assign_" + row[1])(e, given(row[3], row[4][v]))
    compare(ctx, [element, other], [{n: row[4][v]}] * 2)
    attr = element.get_attributes()[row[2]]
    attr.set_value(other.get_attributes()[row[2]].get_value())
    attr.get_attributes()["nested"] = model.build_attr(["int", "nested", 1, []])
    getattr(target, "assign_" + row[1])(element, given(row[3], row[4][w]))
    expect(element.get_attributes()[row[2]] is not attr, "the attribute assigned before is changed instead of replaced")
    compare(ctx, [element, other], [{n: row[4][w]}, {n: row[4][v]}])
    if row[3] == "date":
        millis = model.canon_datetime(model.model_datetime(row[4][v]))[0]
        target.assign_timestamp(element, millis)
        same(model.canon_datetime(target.extract_timestamp(element))[0], millis, "timestamp assigned in milliseconds")
    if row[1] == "model_references":
        target.assign_model_reference_uris(element, [urlparse(u) for u in row[4][v]])
        compare(ctx, [element, other], [{n: row[4][v]}, {n: row[4][v]}])
    ctx.state(repr(case[:3]))


STANDARD = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete",
            "autoskip", "manualskip", "unknown"]


def transition_cases():
    for name in STANDARD:
        for text in (name, name.upper(), name.title(), "  " + name, name + "\t", "\n" + name.upper() + " ", name[:-1], name + "x", name[1:],
                     name.replace("_", ""), name.replace("_", " ")):
            yield text
        yield from spaces.similar(name)
    yield from ("", " ", "none", "Complete ", "co mplete", "piabort", "ate-abort", "0")


def transition(ctx, text):
    """Decoding of standard lifecycle transitions."""
    one = extension("lifecycle")
    plain = text.strip().lower()
    wanted = plain if plain in STANDARD else "unknown"
    event = hosts()[0]
    decoder = type(one).StandardModel()
    same(decoder.decode(text), wanted, "decode(%r)" % text)
    same(sorted(decoder.values()), sorted(STANDARD), "standard transitions")
    same(one.extract_standard_transition(event), None, "standard transition of an event without one")
    one.assign_standard_transition(event, text)
    same((one.extract_transition(event), one.extract_standard_transition(event)), (wanted, wanted), "assigned standard transition %r" % text)
    other = hosts()[0]
    one.assign_transition(other, text)
    same(one.extract_transition(other), text.strip() or None, "assigned transition %r" % text)
    same(one.extract_standard_transition(other), wanted if text.strip() else None, "standard transition for %r" % text)
    ctx.state(wanted)
    ctx.step(6)


LEVELS = {"concept": ["concept:name", "concept:name", "concept:instance concept:name", ""],
          "cost": ["", "cost:currency cost:total", "cost:amount cost:currency cost:driver cost:total cost:type", ""],
          "identity": ["identity:id", "identity:id", "identity:id", "identity:id"],
          "lifecycle": ["lifecycle:model", "", "lifecycle:transition", ""],
          "micro": ["", "", "micro:length micro:level micro:parentId", ""],
          "org": ["", "", "org:group org:resource org:role", ""],
          "semantic": ["semantic:modelReference"] * 4,
          "time": ["", "", "time:timestamp", ""]}


DEFAULT = {"string": "UNKNOWN", "float": model.canon_value("float", 0.0), "int": -1, "date": (0, 0)}
DEFAULTS = {"lifecycle:model": "standard", "lifecycle:transition": "complete"}


def definition(ctx, prefix):
    """What the extension says it defines on each level."""
    one = extension(prefix)
    same(str(one), one.get_name(), "text of the extension")
    same((one.get_name(), one.get_uri().geturl(), one.get_prefix()), model.STANDARD[prefix] + (prefix,), "name, URI, prefix")
    levels = [one.get_log_attributes(), one.get_trace_attributes(), one.get_event_attributes(), one.get_meta_attributes()]
    same([" ".join(sorted(a.get_key() for a in level)) for level in levels], LEVELS[prefix], "defined attributes of " + prefix)
    kinds = {row[2]: row[3] for row in TABLE}
    for level in levels:
        for attr in level:
            if kinds[attr.get_key()] != "id":
                same(model.seen_attr(attr)[2], DEFAULTS.get(attr.get_key(), DEFAULT.get(kinds[attr.get_key()])), "default value of " + attr.get_key())
            same(model.seen_attr(attr)[4], (), "children of " + attr.get_key())
            same((model.kind_of(attr), attr.get_extension() is one), (kinds[attr.get_key()], True), "kind and extension of " + attr.get_key())
    same(sorted(set(a.get_key() for a in one.get_defined_attributes())), sorted({k for text in LEVELS[prefix] for k in text.split()}),
         "all defined attributes of " + prefix)
    for level in levels:
        for attr in level:
            attr.get_attributes()["more"] = model.build_attr(["string", "more", "x", []])
            same(sum("more" in a.get_attributes() for l in levels for a in l), 1, "definitions on other levels that changed too")
            element = hosts()[0]
            for row in TABLE:
                if row[0] == prefix:
                    getattr(one, "assign_" + row[1])(element, given(row[3], row[4][0]))
                    same(len(element.get_attributes()[row[2]].get_attributes()), 0, "children of an assigned " + row[2])
            del attr.get_attributes()["more"]
    ctx.state(prefix)
    ctx.step(6)


def read_cases():
    for n, row in enumerate(TABLE):
        for v in range(len(row[4])):
            for nested in (0, 1):
                yield [n, v, nested]


def read(ctx, case):
    """Attributes that came from a document are extracted like assigned ones."""
    n, v, nested = case
    row = TABLE[n]
    value = " ".join(row[4][v]) if row[1] == "model_references" else row[4][v]
    attr = [row[3], row[2], value, [["string", "concept:name", "inner", []]] if nested else []]
    log = model.build_log({"a": [attr], "t": [[[attr], [[attr], []]]]})
    log = model.read_xes(model.write_xes(log))
    for element in (log, log[0], log[0][0]):
        wanted = row[4][v]
        got = seen_extracted(row, element)
        same(got, model.canon_datetime(model.model_datetime(wanted)) if row[3] == "date" else wanted, "extract_%s from a document" % row[1])
        ctx.step()
    same(seen_extracted(row, log[0][1]), row[6], "extract_%s where there is none" % row[1])
    ctx.state(repr(case))


def words(ctx, word):
    """A text the code knows, assigned to every attribute that takes one."""
    blank = not word.strip()
    for n, row in enumerate(TABLE):
        if row[3] != "string" or row[1] == "model_references":
            continue
        target = extension(row[0])
        element, other = hosts()[n % 4], hosts()[n % 4]
        for e in (element, other):
            e.get_attributes()["other"] = model.build_attr(["string", "other", "o", []])
        getattr(target, "assign_" + row[1])(element, word)
        compare(ctx, [element, other], [{} if blank else {n: word}, {}])
        getattr(target, "assign_" + row[1])(element, "x")
        compare(ctx, [element, other], [{n: "x"}, {}])
        getattr(target, "assign_" + row[1])(element, word)
        compare(ctx, [element, other], [{n: "x" if blank else word}, {}])
    ctx.state(word)


def numbers(ctx, value):
    for n, row in enumerate(TABLE):
        if row[3] not in ("int", "float") or value <= 0:
            continue
        element = hosts()[n % 3]
        element.get_attributes()["other"] = model.build_attr(["string", "other", "o", []])
        getattr(extension(row[0]), "assign_" + row[1])(element, value if row[3] == "int" else value / 4)
        compare(ctx, [element], [{n: value if row[3] == "int" else value / 4}])
    ctx.state(value)


def sizes(ctx, case):
    """Long texts, elements with many other attributes, many references, many assignments."""
    what, n = case
    if what == "text":
        words(ctx, "x" + spaces.odd_text(n))
        return
    for which in range(4):
        element, other = hosts()[which], hosts()[which]
        extra = ["k%d" % i for i in range(n)] if what == "attributes" else []
        for e in (element, other):
            e.get_attributes()["other"] = model.build_attr(["string", "other", "o", []])
            for k in extra:
                e.get_attributes()[k] = model.build_attr(["string", k, spaces.ODD[len(k) % 7], []])
        before = [(k, model.seen_attr(a)) for k, a in element.get_attributes().items()]
        reference = {}
        for i in range(n if what == "assignments" else 1):
            for number, row in enumerate(TABLE):
                value = row[4][(i + number) % len(row[4])]
                if what == "references" and row[1] == "model_references":
                    value = ["http://a/b#%d" % (k * 7 % 31) for k in range(n + 1)]
                getattr(extension(row[0]), "assign_" + row[1])(element, given(row[3], value))
                reference[number] = value
        same([(k, model.seen_attr(a)) for k, a in element.get_attributes().items() if k in dict(before)], before, "attributes that were there")
        same([(k, model.seen_attr(a)) for k, a in other.get_attributes().items()], before, "another element's attributes")
        for k in extra:
            del element.get_attributes()[k], other.get_attributes()[k]
        compare(ctx, [element, other], [reference, {}])
    ctx.state(repr(case))


def size_cases(tier):
    for n in spaces.steps(tier, 300 if tier == "quick" else 1025):
        yield from (["attributes", n], ["references", n], ["assignments", n], ["text", n])
    for n in spaces.LENGTHS:
        yield ["text", n]


def number_values():
    near = {int(n) + d for n in spaces.literals()[1] for d in (-1, 0, 1)} | {2 ** n + d for n in range(70) for d in (-1, 0, 1)}
    return sorted(near | set(range(1, 300)))


def families(tier):
    quick = tier == "quick"
    return [
        looks.family("P20"),
        Family("histories", lambda _: histories(2 if quick else 3), history),
        Family("three-operations", lambda _: three_cases(), history),
        Family("values", lambda _: value_cases(), values),
        Family("standard-transitions", lambda _: transition_cases(), transition),
        Family("literals", lambda _: spaces.literals()[0], words),
        Family("numbers", lambda _: number_values(), numbers),
        Family("sizes", lambda _: size_cases(tier), sizes),
        Family("definitions", lambda _: list(LEVELS), definition),
        Family("from-documents", lambda _: read_cases(), read),
    ]
