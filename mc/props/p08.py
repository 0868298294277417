"""P08: reading an MXML document gives exactly the logs it describes."""
import io
import itertools
from mc import apart, doctype, model, mxmldoc, spaces
from mc.core import Family, same
from mc.props.p07 import read

LEVEL = "model_checking"
ASSUMPTIONS = ["audit trail entries hold well-formed or clearly unreadable dates",
               "the reference reader interprets the document tree and shares no code with the library"]


def n(tag, attributes=None, *content):
    if len(content) == 1 and isinstance(content[0], str):
        return [tag, attributes or {}, content[0]]
    return [tag, attributes or {}, list(content)]


def attribute(name, value, **more):
    return n("Attribute", dict({"name": name}, **more), value)


REF = {"modelReference": "http://o#x http://o#y"}
ENTRY = [
    n("Data", {}, attribute("a", "1"), attribute("b", " two words \n")),
    n("Data", {}, attribute("a", "3", **REF), attribute("concept:name", "from data"), attribute(" spaced ", "\n"), attribute("e", "")),
    n("Data"),
    n("WorkflowModelElement", {}, "Name <&>"),
    n("WorkflowModelElement", REF, " other "),
    n("WorkflowModelElement", REF, ""),
    n("EventType", {}, "start"),
    n("EventType", {"unknowntype": "mine"}, "unknown"),
    n("EventType", dict({"unknownType": "Mine"}, **REF), "unknown"),
    n("EventType", REF, "Complete"),
    n("EventType", {}, ""),
    n("Originator", {}, "Jo"),
    n("Originator", REF, " Mo\n"),
    n("Timestamp", {}, "2016-02-29T23:59:59.123+05:30"),
    n("Timestamp", {}, " 2015-01-01T00:00:00Z\n"),
    n("Timestamp", {}, "never"),
    n("Unknown", {"name": "q"}, ""),
    n("Originator", {}, ""),
    n("Timestamp", {}, ""),
    n("WorkflowModelElement", {}, " \n"),
]
FULL = n("AuditTrailEntry", {}, ENTRY[0], ENTRY[3], ENTRY[6], ENTRY[13], ENTRY[11])
EARLIER = n("AuditTrailEntry", {}, n("Data", {}, attribute("n", "2")), n("WorkflowModelElement", {}, "second"), ENTRY[9],
            n("Timestamp", {}, "2001-01-01T00:00:00.000Z"))
EMPTY = n("AuditTrailEntry")
INSTANCE = [
    n("Data", {}, attribute("a", "i1"), attribute("b", "i2", **REF)),
    n("Data", {}, attribute("concept:name", "renamed"), attribute("description", "other"), attribute("e", " ")),
    FULL, EARLIER, EMPTY,
    n("Data"),
    n("AuditTrailEntry", {}, ENTRY[15], ENTRY[3]),
]


def instance(attributes, *content):
    return n("ProcessInstance", attributes, *content)


PROCESS = [
    n("Data", {}, attribute("a", "p1"), attribute("b", "p2", **REF)),
    n("Data", {}, attribute("concept:name", "renamed"), attribute("source", "x"), attribute("lifecycle:model", "m")),
    instance({"id": "1"}, FULL),
    instance(dict({"id": "2", "description": "d"}, **REF), n("Data", {}, attribute("a", "i")), EARLIER, FULL),
    instance({}, EMPTY, n("Data", {}, attribute("late", "x"))),
    instance({"id": "empty"}, n("Data", {}, attribute("a", "dropped"))),
    instance({"id": " ", "description": " "}, FULL, EMPTY, EARLIER),
]
PROCESSES = [
    n("Process", {"id": "p"}),
    n("Process", dict({"id": "q", "description": "text <&>"}, **REF), PROCESS[0], PROCESS[2]),
    n("Process", {"description": ""}, PROCESS[3], PROCESS[2]),
    n("Process", {"id": "r"}, PROCESS[2], PROCESS[1]),
    n("Data", {}, attribute("a", "outside")),
]
SOURCES = [
    None,
    n("Source", {"program": "prog"}),
    n("Source", dict({"program": "prog <&>"}, **REF), n("Data", {}, attribute("sa", "sv"), attribute("sb", "", **REF))),
    n("Source", {"program": "p", "openxes.version": "1"}, n("Data", {}, attribute("sa", "1")), n("Data", {}, attribute("sa", "2"))),
]
CASES = {"lower": str.lower, "upper": str.upper, "swap": str.swapcase, "plain": None}


def check(ctx, root, between="", case=None, prolog='<?xml version="1.0" encoding="UTF-8"?>', encoding="utf-8", text=None):
    # an unreadable date is no date; data outside of any process belongs to nothing
    kept = [root[0], root[1], [c for c in root[2] if c[0] != "Data"]]
    expected = mxmldoc.reference(kept)
    ctx.state(repr(expected))
    data = (prolog + (text or mxmldoc.render(root, between, case))).encode(encoding)
    same([model.seen_log(log) for log in read(data)], expected, "logs read")
    ctx.step(data.count(b"<"))


def wrap(entry_parts=None, instance_parts=None, process_parts=None):
    if entry_parts is not None:
        instance_parts = [n("AuditTrailEntry", {}, *entry_parts), EARLIER]
    if instance_parts is not None:
        process_parts = [instance({"id": "i", "description": "di"}, *instance_parts), PROCESS[2]]
    return n("WorkflowLog", {}, SOURCES[1], n("Process", {"id": "p", "description": "dp"}, *process_parts))


def sequences(items, length):
    for size in range(length + 1):
        yield from (list(c) for c in itertools.product(range(len(items)), repeat=size))


def pair_cases(quick):
    """Contents of two entries, one after the other, of one or two instances."""
    few = list(sequences(ENTRY, 1))
    many = list(sequences(ENTRY, 2))
    for a, b in itertools.product(few if quick else many, many):
        for apart in (0, 1):
            yield [a, b, apart]
            if quick and len(b) == 2:
                yield [b, a, apart]


def of_pair(case):
    a, b, apart = case
    a, b = [n("AuditTrailEntry", {}, *[ENTRY[i] for i in part]) for part in (a, b)]
    return wrap(process_parts=[instance({"id": "1"}, a), instance({"id": "2"}, b)] if apart else [instance({"id": "1"}, a, b)])


def document_cases():
    for source in range(len(SOURCES)):
        for chosen in sequences(PROCESSES, 3):
            yield [source, chosen]


def document(case):
    source, chosen = case
    parts = [PROCESSES[i] for i in chosen]
    return n("WorkflowLog", {"xmlns:xsi": "http://www.w3.org/2001/XMLSchema-instance", "description": "x"},
             *([SOURCES[source]] if SOURCES[source] else []), *parts)


BETWEEN = ["", "\n\t", "<!-- <Process id='x'> -->", "<?AuditTrailEntry x?>", "\r\n", "<Comment/>"]


def style_cases():
    for between in range(len(BETWEEN)):
        for case in CASES:
            for source in range(len(SOURCES)):
                for encoding in ("utf-8", "utf-16", "us-ascii"):
                    yield [between, case, source, encoding]


def style(ctx, c):
    between, case, source, encoding = c
    root = document([source, [1, 2, 3]])
    root[2].append(n("Process", {"id": "all"}, *PROCESS))
    check(ctx, root, BETWEEN[between], CASES[case], '<?xml version="1.0" encoding="%s"?>' % encoding, encoding)


def typed(ctx, c):
    """The same document by means of its document type."""
    source, form, number = c
    root = document([source, [1, 2, 3]])
    root[2].append(n("Process", {"id": "all"}, *PROCESS))
    check(ctx, root, prolog='<?xml version="1.0" encoding="UTF-8"?>', text=doctype.rewrite(mxmldoc.render(root), form, number))


def word_document(word):
    """The word at every place of a document that takes a text."""
    entries = [
        [n("WorkflowModelElement", {}, word)], [n("EventType", {}, word)], [n("Originator", {}, word)],
        [n("EventType", {"unknowntype": word}, "unknown")], [n("EventType", {"unknownType": word}, "UNKNOWN"), n("Originator", {}, word)],
        [n("Data", {}, attribute(word, word), attribute("z", word)), n("WorkflowModelElement", {}, word), ENTRY[13]],
        [n("Data", {}, attribute("y", word)), n("WorkflowModelElement", {}, word), n("EventType", {}, word), ENTRY[14],
         n("Originator", {}, word)],
        [n("WorkflowModelElement", {"modelReference": word}, "m"), n("EventType", {"modelReference": word}, "start"),
         n("Originator", {"modelReference": word}, "o")],
    ]
    parts = [n("AuditTrailEntry", {}, *e) for e in entries]
    rows = [instance({"id": word}, n("Data", {}, attribute(word, "x"), attribute("w", word)), parts[0]),
            instance({"description": word}, parts[1], parts[2]),
            instance({"id": word, "description": word, "modelReference": word}, *parts)]
    return n("WorkflowLog", {}, n("Source", {"program": word}, n("Data", {}, attribute(word, word))),
             n("Process", {"id": word}, *rows), n("Process", {"description": word}, n("Data", {}, attribute("w", word)), rows[0]),
             n("Process", {"id": word, "description": word, "modelReference": word}, *rows[::-1]))


KNOWN_TAGS = ["WorkflowLog", "Source", "Process", "ProcessInstance",
              "AuditTrailEntry", "Data", "Attribute", "WorkflowModelElement", "EventType", "Originator", "Timestamp"]


def similar_cases():
    """Elements whose tags have almost the names of known ones."""
    for tag in KNOWN_TAGS:
        for word in spaces.similar(tag):
            if spaces.is_name(word) and word.lower() not in [t.lower() for t in KNOWN_TAGS]:
                yield word


def of_similar(word):
    one = n(word, {"id": "x", "name": "x", "program": "x", "description": "x", "unknowntype": "x"}, "text")
    entry = n("AuditTrailEntry", {}, one, n("WorkflowModelElement", {}, "m"), one, n("EventType", {}, "start"), one,
              n("Timestamp", {}, "2016-01-02T03:04:05.678Z"), n("Originator", {}, "o"), one, n("Data", {}, one, attribute("a", "1"), one), one)
    return n("WorkflowLog", {}, one, SOURCES[2], one, n("Process", {"id": "p"}, one, n("Data", {}, attribute("b", "2"), one), one,
             instance({"id": "i"}, one, entry, one, EARLIER, one), instance({"id": "j"}, n("Data", {}, one, attribute("c", "3")), entry), one), one,
             n("Process", {"id": "q"}, instance({"id": "k"}, one, entry)), one)


def size_cases(tier):
    for count in spaces.steps(tier):
        for what in ("parts", "data", "entries", "timed entries", "instances", "processes", "sources", "references", "names"):
            yield [what, count]
    for count in itertools.chain(range(0, 100), spaces.COUNTS, spaces.LENGTHS):
        yield ["text", count]


def of_size(case):
    """Many of everything, one sort after the other."""
    what, count = case
    if what == "parts":
        return wrap(entry_parts=[ENTRY[(i * 7 + count) % len(ENTRY)] for i in range(count)])
    if what == "data":
        data = n("Data", {}, *[attribute(("d%d" if i % 5 else "d%d ") % (i if i % 3 else i // 2), " v\t%d" % i if i % 4 else "", **(REF if i % 7 == 3 else {})) for i in range(count)])
        entry = n("AuditTrailEntry", {}, data, ENTRY[3])
        return n("WorkflowLog", {}, n("Source", {"program": "p"}, data), n("Process", {"id": "p"}, data, instance({"id": "1"}, data, entry, FULL), instance({"id": "2"}, FULL)))
    if what in ("entries", "timed entries"):
        entries = [n("AuditTrailEntry", {}, *([ENTRY[(i * 3 + k * 7) % len(ENTRY)] for k in range(i % 4)])) for i in range(count)]
        if what[0] == "t":
            entries = [n("AuditTrailEntry", {}, ENTRY[3], n("Timestamp", {}, "20%02d-0%d-01T%02d:00:00Z" % (i * 37 % 100, 1 + i % 9, i % 24))) if i % 5 else FULL for i in range(count)]
        return wrap(instance_parts=entries + [EARLIER])
    if what == "names":
        # all names differ and are in no order
        name = lambda i: n("AuditTrailEntry", {}, n("WorkflowModelElement", {}, str(i * 7919 % 10007)))
        return wrap(process_parts=[instance({"id": str(i * 7919 % 10007)}, name(i + 3), name(i)) for i in range(count)])
    if what == "instances":
        return wrap(process_parts=[instance({"id": "i%d" % i} if i % 3 else {"description": "d%d" % i}, *[INSTANCE[(i + k) % len(INSTANCE)] for k in range(i % 4)]) for i in range(count)])
    if what == "processes":
        return n("WorkflowLog", {}, SOURCES[2], *[[PROCESSES[i % 4], n("Process", {"id": "p%d" % i}, PROCESS[2 + i % 5])][i % 2] for i in range(count)])
    if what == "sources":
        return n("WorkflowLog", {}, n("Source", {"program": "p"}, *[n("Data", {}, attribute("s%d" % (i % 9), str(i))) for i in range(count)]), PROCESSES[1], PROCESSES[2])
    if what == "references":
        ref = {"modelReference": " ".join("http://o#x%d" % (i % 11) for i in range(count))}
        return n("WorkflowLog", {}, n("Process", dict({"id": "p"}, **ref), instance(dict({"id": "1"}, **ref), n("AuditTrailEntry", {}, n("WorkflowModelElement", ref, "m"), n("Originator", ref, "o")))))
    # attributes of elements take white space as the parser normalises it
    return word_document(spaces.odd_text(count))


def apart_cases(most):
    for size in range(most + 1):
        for chosen in itertools.combinations(range(len(ENTRY)), size):
            for counts in ([1], [2], [2, 1]):
                yield [list(chosen), counts]


def elements_apart(ctx, case):
    """Everything says the same; what is changed in one element stays there."""
    chosen, counts = case
    parts = [ENTRY[i] for i in chosen]
    data = [p for p in parts if p[0] == "Data"]
    instances = [instance(dict({"id": "1", "description": "d"}, **REF), *(data + [n("AuditTrailEntry", {}, *parts)] * k)) for k in counts]
    process = n("Process", dict({"id": "q", "description": "d"}, **REF), *(data + instances))
    root = n("WorkflowLog", {}, SOURCES[2], process, process)
    apart.check(ctx, read(mxmldoc.render(root).encode()), "the logs read")


EMPTY_ONES = [n("EventType", REF, ""), n("Originator", REF, ""), n("WorkflowModelElement", REF, " "), n("Timestamp", REF, ""), n("Data", {}, attribute("a", "", **REF)),
              n("EventType", dict({"unknowntype": ""}, **REF), ""), n("Originator", REF, " \n")]


def left_over_cases():
    size = len(ENTRY) + len(EMPTY_ONES)
    for first in range(len(EMPTY_ONES)):
        for second in range(size):
            for apart in range(4):
                yield [first, second, apart]


def left_over(ctx, case):
    """Elements without text but with a reference, and what comes after and before them: in the same entry, the next one, the next instance."""
    first, second, apart = case
    a, b = EMPTY_ONES[first], (ENTRY + EMPTY_ONES)[second]
    entry = lambda *parts: n("AuditTrailEntry", {}, *parts)  # noqa: E731
    check(ctx, wrap(process_parts=[
        [instance({"id": "1"}, entry(a, b), entry(b))], [instance({"id": "1"}, entry(b, a), FULL)], [instance({"id": "1"}, entry(a), entry(b))],
        [instance({"id": "1"}, entry(a)), instance({"id": "2"}, entry(b), EMPTY)]][apart]))


def families(tier):
    quick = tier == "quick"
    return [
        Family("entry-contents", lambda _: sequences(ENTRY, 4 if quick else 5),
               lambda ctx, c: check(ctx, wrap(entry_parts=[ENTRY[i] for i in c]))),
        Family("two-entries", lambda _: pair_cases(quick), lambda ctx, c: check(ctx, of_pair(c))),
        Family("instance-contents", lambda _: sequences(INSTANCE, 5 if quick else 7),
               lambda ctx, c: check(ctx, wrap(instance_parts=[INSTANCE[i] for i in c]))),
        Family("process-contents", lambda _: sequences(PROCESS, 4 if quick else 6),
               lambda ctx, c: check(ctx, wrap(process_parts=[PROCESS[i] for i in c]))),
        Family("elements-apart", lambda _: apart_cases(2 if quick else 3), elements_apart),
        Family("left-over", lambda _: left_over_cases(), left_over),
        Family("documents", lambda _: document_cases(), lambda ctx, c: check(ctx, document(c))),
        Family("literals", lambda _: spaces.literals()[0], lambda ctx, c: check(ctx, word_document(c))),
        Family("sizes", lambda _: size_cases(tier), lambda ctx, c: check(ctx, of_size(c))),
        Family("similar-names", lambda _: similar_cases(), lambda ctx, c: check(ctx, of_similar(c))),
        Family("document-types", lambda _: doctype.cases(4, 120), typed),
        Family("styles", lambda _: style_cases(), style),
    ]
