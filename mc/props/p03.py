"""P03: reading an XES document gives exactly the log it describes."""
import io
import itertools
from mc import apart, doctype, model, xesdoc, spaces
from mc.core import Family, same
from mc.model import STANDARD

LEVEL = "model_checking"
ASSUMPTIONS = ["values of the typed attributes are valid for their type, except dates",
               "the reference reader interprets the document tree and shares no code with the library"]
BY_URI = {uri: prefix for prefix, (_, uri) in STANDARD.items()}


def n(tag, attributes=None, *children):
    return [tag, attributes or {}, list(children)]


def leaf(kind, key, value):
    return n(kind, {"key": key, "value": value})


def escape(text):
    for a, b in (("&", "&amp;"), ("<", "&lt;"), (">", "&gt;"), ('"', "&quot;"), ("'", "&apos;"), ("\t", "&#9;"),
                 ("\n", "&#10;"), ("\r", "&#xD;")):
        text = text.replace(a, b)
    return text


def render(node, style="plain", depth=0):
    tag, attributes, children = node
    quote = "'" if style == "single" else '"'
    names = sorted(attributes, reverse=True) if style == "reordered" else list(attributes)
    if style == "numeric":
        values = {k: "".join("&#%d;" % ord(c) if i % 2 else "&#x%x;" % ord(c) for i, c in enumerate(v))
                  for k, v in attributes.items()}
    else:
        values = {k: escape(v) for k, v in attributes.items()}
    space = "\n  " if style == "spread" else " "
    head = tag + "".join(space + k + ("\t= \n" if style == "spread" else "=") + quote + values[k] + quote for k in names)
    if style == "upper":
        head = head.replace(tag, tag.upper(), 1)
        tag = tag.upper()
    if style == "mixed":
        head = head.replace(tag, tag.title(), 1)
        tag = tag.title()
    between = {"indent": "\n" + "  " * depth, "comments": "<!-- <event> & -->", "instructions": "<?event x?>",
               "spread": "\r\n\t", "cdata": "<![CDATA[<trace/>]]>", "text": "some text"}.get(style, "")
    if not children and style not in ("explicit", "comments"):
        return "<" + head + ("\n/>" if style == "spread" else "/>")
    return "<" + head + ">" + between + "".join(render(c, style, depth + 1) + between for c in children) + "</" + tag + ">"


STYLES = ["plain", "single", "reordered", "numeric", "spread", "upper", "mixed", "indent", "comments", "instructions",
          "cdata", "text", "explicit"]


def check(ctx, root, style="plain", data=None):
    document, features = xesdoc.reference(root, BY_URI)
    expected = model.expected_log(document)
    if data is None:
        data = ('<?xml version="1.0" encoding="UTF-8"?>' + render(root, style)).encode()
    ctx.state(repr((expected, features)))
    log = model.read_xes(data)
    same(model.seen_log(log), expected, "log read")
    same(log.get_features(), features, "features of the log")
    ctx.step(data.count(b"<") if isinstance(data, bytes) else data.count("<"))


HEAD = {"xes.version": "1.0", "xes.features": "nested-attributes"}

# fragments of an event, trace or log: attributes
FRAGMENTS = [
    leaf("string", "a", "1"),
    leaf("string", "b", "2"),
    leaf("int", "a", "3"),
    n("string", {"value": "no key"}),
    n("string", {"key": "b"}),
    leaf("date", "a", "not a date"),
    n("date", {"key": "d", "value": ""}, leaf("string", "a", "inside bad date"),
      n("list", {"key": "l"}, leaf("int", "b", "1"))),
    n("date", {"key": "d", "value": "2016-01-02T03:04:05.678+02:00"}, leaf("string", "a", "inside date")),
    n("list", {"key": "l"}, leaf("string", "a", "x"), leaf("date", "a", "bad"), leaf("string", "a", "y")),
    n("container", {"key": "l"}, leaf("int", "b", "7"), n("list", {"key": "a"}, leaf("boolean", "b", "1"))),
    n("boolean", {"key": "concept:name", "value": "True"}, n("float", {"key": "a", "value": "1e3"},
                                                             leaf("id", "b", spaces.UUID.upper()))),
    n("STRING", {"key": "time:timestamp", "value": "upper"}),
    n("unknown", {"key": "a", "value": "9"}),
]
# fragments of a trace and of a log that are no attributes
EVENT = n("event", {}, leaf("string", "a", "e"))
TRACE_FRAGMENTS = [EVENT, n("event"), n("Event", {}, n("list", {"key": "l"}, leaf("int", "x", "1")))]
LOG_FRAGMENTS = [
    n("extension", {"name": "Concept", "prefix": "concept", "uri": STANDARD["concept"][1]}),
    n("extension", {"uri": STANDARD["time"][1]}),
    n("extension", {"name": "My", "prefix": "my", "uri": "http://example.org/my.xesext"}),
    n("extension", {"name": "nothing"}),
    n("extension", {"name": "Other", "prefix": "org", "uri": "http://example.org/other.xesext"}),
    n("global", {"scope": "trace"}, leaf("string", "a", "gt"), n("int", {"key": "b", "value": "4"}, leaf("string", "c", "n"))),
    n("global", {"scope": "event"}, n("list", {"key": "l"}, leaf("string", "a", "ge")), leaf("date", "a", "bad"),
      leaf("string", "a", "after")),
    n("GLOBAL", {"scope": "Event"}, leaf("string", "b", "second")),
    n("global", {"scope": "trace"}),
    n("classifier", {"name": "Activity", "keys": "concept:name lifecycle:transition"}),
    n("classifier", {"name": "Q", "keys": "'a b'  it\\'s\tc"}),
    n("classifier", {"name": "", "keys": "x"}),
    n("classifier", {"name": "x"}),
    n("trace", {}, leaf("string", "a", "t"), EVENT, n("event", {}, leaf("string", "b", "f"))),
    n("trace"),
    n("Trace", {}, EVENT, leaf("int", "b", "5")),
    n("comment", {"key": "z"}, n("nothing")),
    n("classifier", {"name": "x", "keys": ""}),
]


def sequence_cases(count, length):
    for size in range(length + 1):
        for chosen in itertools.product(range(count), repeat=size):
            yield list(chosen)


def in_log(children):
    return n("log", HEAD, *children)


def of_event(case):
    chosen = [FRAGMENTS[i] for i in case]
    return in_log([leaf("string", "a", "log"), n("trace", {}, leaf("string", "a", "trace"), n("event", {}, *chosen),
                                                 n("event", {}, leaf("string", "z", "next")))])


def of_trace(case):
    all_of = FRAGMENTS + TRACE_FRAGMENTS
    return in_log([leaf("string", "a", "log"), n("trace", {}, *[all_of[i] for i in case]),
                   n("trace", {}, EVENT)])


def of_log(case):
    all_of = LOG_FRAGMENTS + FRAGMENTS[:9]
    return in_log([all_of[i] for i in case])


def of_nested(case):
    parent, chosen = case
    attributes = {"key": "p"}
    if parent not in ("list", "container"):
        attributes["value"] = LEXICAL[parent][0]
    return in_log([n("trace", {}, n("event", {}, n(parent, attributes, *[FRAGMENTS[i] for i in chosen]),
                                    leaf("string", "z", "next")))])


def nested_cases(length):
    for parent in spaces.KINDS:
        for chosen in sequence_cases(len(FRAGMENTS), length):
            yield [parent, chosen]


LEXICAL = {
    "string": ["", " ", "x", " x ", "\t\n\r", "<&>\"'", "\u00e9\u4e2d\U0001f600", "UNKNOWN"],
    "int": ["0", "-0", "+5", "007", " 12 ", "-3\n", "9223372036854775807", "-9223372036854775808", "123456789012345678901234567890"],
    "float": ["0", "-0", "1", "1.", ".5", "+1.5E+3", "1e-400", "1e400", " 2.5 ", "INF", "-INF", "0.1", "123456789.123456789", "1e22", "4.9E-324"],
    "boolean": ["true", "false", "1", "0", "True", "FALSE", " true ", "", "yes"],
    "id": [spaces.UUID, spaces.UUID.upper(), "00000000-0000-0000-0000-000000000000"],
    "date": ["2016-01-02T03:04:05", "2016-01-02T03:04:05Z", " 2016-01-02T03:04:05Z", "\n2016-01-02T03:04:05-01:00\t ", "2016-01-02T03:04:05.1Z", "2016-01-02T03:04:05.12+00:00",
             "2016-01-02T03:04:05.123-00:30", "2016-01-02T03:04:05.1234+14:00", "2016-01-02T03:04:05.123456789-14:00",
             "0001-01-01T00:00:00.000+01:00", "9999-12-31T23:59:59.999-01:00", "1969-12-31T23:59:59.999Z",
             "2000-02-29T00:00:00.000+05:45", "", "x", "2016-13-01T00:00:00", "2015-02-29T00:00:00Z", "2016-01-02",
             "2016-01-02T25:00:00", "2016-01-02 03:04:05", "03:04:05", "2016-01-02T03:04", "T", "Z", "+01:00", "-", ":"],
}


def lexical_cases():
    for kind, texts in LEXICAL.items():
        for text in texts:
            for where in ("event", "trace", "log", "global", "list", "nested"):
                yield [kind, text, where]


def of_lexical(case):
    kind, text, where = case
    one = n(kind, {"key": "k", "value": text}, leaf("string", "sub", "s"))
    rest = leaf("string", "z", "next")
    if where == "event":
        return in_log([n("trace", {}, n("event", {}, one, rest))])
    if where == "trace":
        return in_log([n("trace", {}, one, rest)])
    if where == "log":
        return in_log([one, rest])
    if where == "global":
        return in_log([n("global", {"scope": "event"}, one, rest)])
    if where == "list":
        return in_log([n("list", {"key": "l"}, rest, one, rest)])
    return in_log([n("string", {"key": "l", "value": "v"}, one, rest)])


FEATURES = [("xes.version", "1.0"), ("xes.version", ""), ("xes.features", "nested-attributes"), ("openxes.version", "1.0RC7"),
            ("xes.creator", "me"), ("xmlns", "http://www.xes-standard.org/"), ("version", "2"), ("xesversion", "2"),
            ("openxes.", "x"), ("xes.Features", "y"), ("creator", "xes.version"),
            ("my.own", "x"), ("a.xes.version", "x"), ("XES.version", "x"), ("openxes", "x"), ("xesx.b", "x")]


def feature_cases():
    for mask in range(1 << len(FEATURES)):
        chosen = [i for i in range(len(FEATURES)) if mask >> i & 1]
        if 0 in chosen and 1 in chosen or len(chosen) > 5:
            continue
        yield chosen


KEYS = ["concept:name:old", ":name", "concept:", "CONCEPT:name", "concept:name ", "my:concept:name", "concept", " concept:name", "concept::name",
        "my:k", "time:timestamp:x:y", "", ":", "::", "org:concept:", "cost:amount", "a:b", "identity:id", "http://x/y", "concept\u00e9:name", "conceptname:x",
        "micro:length", "semantic:modelReference", "lifecycle:model", "Time:timestamp"]


def key_cases():
    for key in KEYS:
        for kind in spaces.KINDS:
            for where in range(5):
                yield [key, kind, where]


def of_key(case):
    """Keys of all forms: which extension, if any, they belong to."""
    key, kind, where = case
    attributes = {"key": key}
    if kind not in ("list", "container"):
        attributes["value"] = LEXICAL[kind][0]
    one = n(kind, attributes, leaf("string", key, "sub"))
    rest = leaf("string", "z", "next")
    if where == 0:
        return in_log([LOG_FRAGMENTS[0], one, rest])
    if where == 1:
        return in_log([n("trace", {}, one, rest)])
    if where == 2:
        return in_log([n("trace", {}, n("event", {}, rest, one))])
    if where == 3:
        return in_log([n("global", {"scope": "trace"}, one, rest)])
    return in_log([n("list", {"key": "l"}, one, rest)])


def pair_cases(quick):
    """Contents of two events, of two traces and of two globals, one after the other."""
    few = list(sequence_cases(len(FRAGMENTS), 1))
    many = list(sequence_cases(len(FRAGMENTS), 2))
    for tag in ("event", "trace", "global"):
        for a, b in itertools.product(few if quick else many, many):
            yield [tag, a, b]
            if quick and len(b) == 2:
                yield [tag, b, a]


def of_pair(case):
    tag, a, b = case
    if tag == "global":
        return in_log([n(tag, {"scope": "trace"}, *[FRAGMENTS[i] for i in a]), n(tag, {"scope": "event"}, *[FRAGMENTS[i] for i in b]),
                       leaf("string", "z", "next"), n("trace", {}, EVENT)])
    both = [n(tag, {}, *[FRAGMENTS[i] for i in part]) for part in (a, b)]
    return in_log([n("trace", {}, *both)] if tag == "event" else both)


def of_word(word):
    """The word as key and value at every place, as the name of a classifier
    and of an extension, and as a scope."""
    own = [leaf("string", word, word), n("list", {"key": word}, leaf("string", word, "x"), leaf("string", "q", word)),
           n("string", {"key": "p", "value": word}, leaf("string", word, word), leaf("int", "z", "1"))]
    return in_log([n("extension", {"name": word, "prefix": "my", "uri": "http://example.org/my.xesext"}),
                   n("global", {"scope": "Trace"}, *own), n("global", {"scope": "event"}, *own[::-1]),
                   n("classifier", {"name": word, "keys": "a b"}), n("classifier", {"name": "n", "keys": "a" if set(word) & set("'\\") or word.split() != word.split(" ") else word})] + own +
                  [n("trace", {}, *own, n("event", {}, *own)),
                   n("trace", {}, n("event", {}, own[0]), n("event", {}, *[leaf("string", k, word) for k in spaces.LITERAL_KEYS]))])


def size_cases(tier):
    for count in spaces.steps(tier):
        for what in ("event", "trace", "log", "list", "nested", "globals", "events", "traces", "full events", "keys", "odd attributes", "names"):
            yield [what, count]
    for count in itertools.chain(range(0, 100), spaces.COUNTS, spaces.LENGTHS):
        yield ["text", count]
    for count in range(1, 60):
        yield ["depth", count]


def of_size(case):
    """Many of everything, one sort after the other."""
    what, count = case
    many = [FRAGMENTS[(i * 5 + count) % len(FRAGMENTS)] for i in range(count)]
    z = leaf("string", "z", "next")
    if what == "event":
        return in_log([n("trace", {}, n("event", {}, *many), n("event", {}, *(many[:3] + [z])))])
    if what == "trace":
        return in_log([n("trace", {}, *[c for i, m in enumerate(many) for c in (m, TRACE_FRAGMENTS[i % 3])][count % 3:]), n("trace", {}, EVENT)])
    if what == "log":
        # a prefix that is declared twice belongs to one of the two: left open
        some = [f for i, f in enumerate(LOG_FRAGMENTS) if i != 4]
        return in_log([c for i, m in enumerate(many) for c in (m, some[i * 5 % len(some)])][count % 3:])
    if what == "globals":
        return in_log([n("global", {"scope": "EVENT"}, *many), n("global", {"scope": "TRACE"}, *many[::-1]), n("trace", {}, *many[:2])])
    if what in ("list", "nested"):
        one = n("list", {"key": "l"}, *many) if what == "list" else n("string", {"key": "l", "value": "v"}, *many)
        return in_log([one, z, n("trace", {}, n("event", {}, one, z), n("event", {}, z))])
    if what == "events":
        return in_log([n("trace", {}, *[n("event", {}, *(many[i:i + i % 3])) for i in range(count)])])
    if what == "full events":
        return in_log([n("trace", {}, leaf("string", "a", "t"), *([n("event", {}, *FRAGMENTS)] * (count % 7) + [n("event")] * count + [EVENT]))])
    if what == "names":
        # all names differ and are in no order
        name = lambda i: leaf("string", "concept:name", str(i * 7919 % 10007))
        return in_log([n("trace", {}, name(i), n("event", {}, name(i + 3)), n("event", {}, name(i))) for i in range(count)])
    if what == "traces":
        return in_log([n("trace", {}, *([EVENT, many[i], n("event")][i % 2:i % 5])) for i in range(count)])
    if what == "keys":
        return in_log([n("classifier", {"name": "c%d" % i, "keys": " ".join("'k %d'" % j if j % 4 == 1 else "k\\'%d" % j if j % 4 == 2 else "k%d" % j for j in range(i + 1))})
                       for i in range(0, count, max(1, count // 5))] + [n("trace", {}, EVENT)])
    if what == "odd attributes":
        some = [n(a[0], dict({"key": a[1]}, **({} if a[0] in ("list", "container") else {"value": LEXICAL[a[0]][i % 2]})), *[leaf("string", c[1], str(c[2])) for c in a[3][:1]])
                for i, a in enumerate(spaces.odd_attributes(count))]
        return in_log(some + [n("trace", {}, *(some + [n("event", {}, *some)]))])
    if what == "text":
        word = spaces.odd_text(count)
        own = [leaf("string", "a", word), leaf("string", "k" + word, "v"), n("list", {"key": "l"}, leaf("string", "q", word + "x"))]
        return in_log(own + [n("global", {"scope": "event"}, *own), n("classifier", {"name": "c" + word, "keys": "a"}), n("trace", {}, *own, n("event", {}, *own, z))])
    inner = z
    for i in range(count):
        inner = n(spaces.KINDS[i % 8], {"key": "p"} if spaces.KINDS[i % 8] in ("list", "container") else {"key": "p", "value": LEXICAL[spaces.KINDS[i % 8]][0]},
                  FRAGMENTS[i % len(FRAGMENTS)], inner, leaf("int", "after", "1"))
    return in_log([inner, n("trace", {}, inner, n("event", {}, inner, z))])


RICH = in_log([LOG_FRAGMENTS[0], LOG_FRAGMENTS[5], LOG_FRAGMENTS[6], LOG_FRAGMENTS[9], leaf("string", "a", "v <&\"'> w"),
               leaf("string", "ws", "a\tb\nc\rd"),
               n("trace", {}, FRAGMENTS[8], EVENT, n("event", {}, FRAGMENTS[10], FRAGMENTS[9], FRAGMENTS[7])), n("trace")])
UNICODE = in_log([leaf("string", "k\u00e9", "\u00e9\u00ff"), n("trace", {}, n("event", {}, leaf("string", "a", "\u00df")))])
WIDE = in_log([leaf("string", "k\u4e2d", "\u4e2d\U0001f600\u2028\u0085"), n("trace", {}, n("event", {}, leaf("string", "\U0001f600", "x")))])


SIMILAR = sorted(xesdoc.ATTRIBUTES) + ["event", "trace", "log", "global", "extension", "classifier"]


def similar_cases():
    """Elements whose tags or attributes have almost the names of known ones."""
    for tag in SIMILAR:
        for word in spaces.similar(tag):
            if spaces.is_name(word) and word.lower() not in SIMILAR:
                yield ["tag", word]
    for name in ("key", "value"):
        for word in spaces.similar(name) + [name.upper(), name.title()]:
            if spaces.is_name(word) and word not in ("key", "value"):
                yield [name, word]
    for value in ("true", "false", "1", "0"):
        for word in spaces.similar(value) + ["01", "1.0", "+1", "\uff11", "yes", "t", "on"]:
            if word != "1":
                yield ["boolean", word]


def of_similar(case):
    where, word = case
    if where == "boolean":
        return in_log([leaf("boolean", "a", word), n("trace", {}, n("event", {}, leaf("boolean", "b", word), leaf("boolean", "c", "1")))])
    if where == "tag":
        one = n(word, {"key": "a", "value": "1", "name": "Concept", "prefix": "concept", "uri": STANDARD["concept"][1], "scope": "event", "keys": "k"})
    else:
        one = n("string", {word: "w", {"key": "value", "value": "key"}[where]: "o"})
    z = leaf("string", "z", "next")
    return in_log([one, n("global", {"scope": "trace"}, one, z), leaf("string", "y", "l"), one, n("list", {"key": "l"}, one, z, one),
                   n("trace", {}, one, z, n("event", {}, one, z, one), one, n("event", {}, z), one), one, n("trace", {}, n("event", {}, n("int", {"key": "i", "value": "1"}, one)))])


def style_cases():
    for style in STYLES:
        for which in range(3):
            yield [style, which]


def typed(ctx, case):
    """The same document by means of its document type."""
    which, form, number = case
    root = [RICH, UNICODE, WIDE][which]
    check(ctx, root, data=('<?xml version="1.0" encoding="UTF-8"?>' + doctype.rewrite(render(root), form, number)).encode())


def encoding_cases():
    for which, encodings in ((0, ["utf-8", "us-ascii", "iso-8859-1", "utf-16", "utf-16-le", "utf-16-be", "utf-8-sig", "none"]),
                             (1, ["utf-8", "iso-8859-1", "utf-16", "utf-16-le", "utf-16-be", "utf-8-sig", "none"]),
                             (2, ["utf-8", "utf-16", "utf-16-le", "utf-16-be", "utf-8-sig", "none"])):
        for encoding in encodings:
            for prolog in range(4):
                yield [which, encoding, prolog]


def encoded(ctx, case):
    which, encoding, prolog = case
    root = [RICH, UNICODE, WIDE][which]
    declared = {"utf-8-sig": "utf-8", "utf-16-le": "utf-16", "utf-16-be": "utf-16"}.get(encoding, encoding)
    text = "" if encoding == "none" else '<?xml version="1.0" encoding="%s"?>' % declared
    text += ["", "\n<!-- <log/> -->\n", "<!DOCTYPE log>", "<?target data?>\n"][prolog]
    text += render(root) + ["", "\n", "<!-- end -->", "<?end?>"][prolog]
    data = text.encode("utf-8" if encoding == "none" else encoding)
    if encoding == "utf-16-le":
        data = b"\xff\xfe" + data
    if encoding == "utf-16-be":
        data = b"\xfe\xff" + data
    check(ctx, root, data=data)


APART = [
    leaf("string", "concept:name", "x"), leaf("string", "a", ""), leaf("int", "a", "3"), leaf("id", "b", spaces.UUID), leaf("boolean", "c", "true"),
    leaf("float", "f", "1.5"), leaf("date", "time:timestamp", "2016-01-02T03:04:05.678+02:00"),
    n("string", {"key": "n", "value": "x"}, leaf("string", "concept:name", "x"), n("id", {"key": "m", "value": spaces.UUID}, leaf("string", "a", ""))),
    n("list", {"key": "l"}, leaf("string", "concept:name", "x"), leaf("string", "concept:name", "x"), n("list", {"key": "l"})),
    n("container", {"key": "k"}, leaf("int", "a", "3"), n("date", {"key": "e", "value": "1999-01-01T00:00:00Z"}, leaf("int", "a", "3"))),
]


def apart_cases(most):
    for n_ in range(most + 1):
        for chosen in itertools.combinations(range(len(APART)), n_):
            for events in ([0], [2], [2, 1]):
                yield [list(chosen), events]


def elements_apart(ctx, case):
    """Everything says the same; what is changed in one element stays there."""
    chosen, events = case
    attributes = [APART[i] for i in chosen]
    root = in_log([n("global", {"scope": "trace"}, *attributes), n("global", {"scope": "event"}, *attributes)] + attributes + [
        n("trace", {}, *(attributes + [n("event", {}, *attributes)] * k)) for k in events])
    data = render(root).encode()
    # two logs read from the same document
    apart.check(ctx, [model.read_xes(data), model.read_xes(data)], "the logs read")


def families(tier):
    quick = tier == "quick"
    return [
        Family("event-contents", lambda _: sequence_cases(len(FRAGMENTS), 4 if quick else 5), lambda ctx, c: check(ctx, of_event(c))),
        Family("trace-contents", lambda _: sequence_cases(len(FRAGMENTS) + 3, 4 if quick else 5), lambda ctx, c: check(ctx, of_trace(c))),
        Family("log-contents", lambda _: sequence_cases(len(LOG_FRAGMENTS) + 9, 3 if quick else 4), lambda ctx, c: check(ctx, of_log(c))),
        Family("nested-contents", lambda _: nested_cases(3), lambda ctx, c: check(ctx, of_nested(c))),
        Family("two-elements", lambda _: pair_cases(quick), lambda ctx, c: check(ctx, of_pair(c))),
        Family("elements-apart", lambda _: apart_cases(2 if quick else 3), elements_apart),
        Family("keys", lambda _: key_cases(), lambda ctx, c: check(ctx, of_key(c))),
        Family("lexical-forms", lambda _: lexical_cases(), lambda ctx, c: check(ctx, of_lexical(c))),
        Family("features", lambda _: feature_cases(),
               lambda ctx, c: check(ctx, n("log", dict(FEATURES[i] for i in c), EVENT_TRACE))),
        Family("literals", lambda _: spaces.literals()[0], lambda ctx, c: check(ctx, of_word(c))),
        Family("sizes", lambda _: size_cases(tier), lambda ctx, c: check(ctx, of_size(c))),
        Family("similar-names", lambda _: similar_cases(), lambda ctx, c: check(ctx, of_similar(c))),
        Family("styles", lambda _: style_cases(), lambda ctx, c: check(ctx, [RICH, UNICODE, WIDE][c[1]], c[0])),
        Family("document-types", lambda _: doctype.cases(3, 40), typed),
        Family("encodings", lambda _: encoding_cases(), encoded),
    ]


EVENT_TRACE = n("trace", {}, EVENT)
