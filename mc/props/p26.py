"""P26: what a parser reads is made by its own factory, else by the current default factory."""
import gzip
import itertools
import os
from mc import model, mxmldoc, spaces
from mc.core import Family, isolated, same, expect
from mc.props import p03, p08

LEVEL = "model_checking"
ASSUMPTIONS = ["factories make objects that belong to the library's element classes"]
METHODS = ["create_log", "create_trace", "create_event", "create_attribute_boolean", "create_attribute_continuous", "create_attribute_discrete",
           "create_attribute_literal", "create_attribute_timestamp", "create_attribute_id", "create_attribute_list", "create_attribute_container"]


def recorder():
    """A factory that knows what it made."""
    from opyenxes.factory.XFactory import XFactory

    class Recorder(XFactory):
        """Counts as false, and is equal to every factory."""
        def __init__(self):
            self.made = {}

        def __len__(self):
            return 0

        def __eq__(self, other):
            return isinstance(other, XFactory)

        __hash__ = object.__hash__

    def method(name):
        def create(self, *arguments, **named):
            one = getattr(XFactory, name)(*arguments, **named)
            self.made[id(one)] = one
            return one
        return create
    for name in METHODS:
        setattr(Recorder, name, method(name))
    return Recorder()


XES = p03.RICH
MXML = ["WorkflowLog", {}, [p08.SOURCES[-1], p08.n("Process", {"id": "p", "description": "d"}, p08.n("Data", {}, p08.attribute("a", "1")),
        p08.n("ProcessInstance", {"id": "i", "description": "e"}, p08.n("Data", {}, p08.attribute("b", "2")), p08.FULL, p08.EARLIER, p08.EMPTY))]]
DOCUMENTS = {}


def document(kind):
    if not DOCUMENTS:
        DOCUMENTS["xes"] = ('<?xml version="1.0" encoding="UTF-8"?>' + p03.render(XES)).encode()
        DOCUMENTS["mxml"] = ('<?xml version="1.0" encoding="UTF-8"?>' + mxmldoc.render(MXML)).encode()
    return DOCUMENTS[kind]


PARSERS = ["XesXmlParser", "XMxmlParser", "XesXmlGZIPParser", "XMxmlGZIPParser"]


def make_parser(name, factory=None):
    import importlib
    cls = getattr(importlib.import_module("opyenxes.data_in." + name), name)
    return cls() if factory is None else cls(factory)


def elements(log, mxml):
    """What must have been made by the factory: for XES everything."""
    def below(attributes):
        for attribute in attributes:
            yield attribute
            inside = {id(a): a for a in attribute.get_attributes().values() if not mxml or ":" not in a.get_key()}
            if hasattr(attribute, "get_collection"):
                inside.update((id(a), a) for a in attribute.get_collection())
            yield from below(inside.values())
    yield log
    owned = [log]
    for trace in log:
        yield trace
        owned.append(trace)
        for event in trace:
            yield event
            owned.append(event)
    for element in owned:
        # the well-known attributes of MXML are assigned by the extensions,
        # the one that tells its source is copied to each process
        yield from below(a for a in element.get_attributes().values()
                         if not mxml or ":" not in a.get_key() and a.get_key() != "source")
    if not mxml:
        yield from below(log.get_global_trace_attributes())
        yield from below(log.get_global_event_attributes())


def stored(ctx, name):
    suffix = (".mxml" if "Mxml" in name else ".xes") + (".gz" if "GZIP" in name else "")
    path = os.path.join(ctx.scratch, "log" + suffix)
    if not os.path.exists(path):
        data = document("mxml" if "Mxml" in name else "xes")
        with open(path, "wb") as out:
            out.write(gzip.compress(data, mtime=0) if "GZIP" in name else data)
    return path


def read(ctx, parser, name):
    with open(stored(ctx, name), "rb") as stream:
        return parser.parse(stream)


def origin(ctx, logs, name, wanted, factories, what):
    mxml = "Mxml" in name
    expect(len(logs) == 1, what, "gave", len(logs), "logs")
    count = 0
    for one in elements(logs[0], mxml):
        for label, factory in factories.items():
            expect((id(one) in factory.made) == (label == wanted), what, "used an element", type(one).__name__,
                   getattr(one, "get_key", str)(), "made by" if label != wanted else "not made by", label, "where", wanted, "was to be used")
        count += 1
    ctx.step(count)
    expect(count > 10, "only", count, "elements")
    return model.seen_log(logs[0])


# operations: change the default factory or register one, make a parser, use one
def run(ctx, case):
    name, operations = case
    from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
    registry = XFactoryRegistry()
    content = model.seen_log(read(ctx, make_parser(name), name)[0])
    factories = {"A": recorder(), "B": recorder()}
    default = None
    plain, own = make_parser(name), make_parser(name, factories["A"])
    for position, op in enumerate(operations):
        if op == "default A" or op == "default B":
            default = op[-1]
            registry.set_current_default(factories[default])
        elif op == "register B":
            registry.register(factories["B"])
        elif op == "new":
            plain = make_parser(name)
        elif op == "new B":
            own = make_parser(name, factories["B"])
        elif op == "give B":
            own.factory = factories["B"]
        elif op == "take away":
            own.factory = None
        elif op in ("read", "registered", "universal"):
            if op == "read":
                logs = read(ctx, plain, name)
            elif op == "registered":
                from opyenxes.data_in.XParserRegistry import XParserRegistry
                logs = read(ctx, [p for p in XParserRegistry().get_available() if type(p).__name__ == name][0], name)
            else:
                from opyenxes.data_in.XUniversalParser import XUniversalParser
                logs = read(ctx, XUniversalParser(), name)
            same(origin(ctx, logs, name, default, factories, op), content, "content read")
        elif op == "read own":
            label = "A"
            for earlier in operations[:position]:
                label = {"new B": "B", "give B": "B", "take away": None}.get(earlier, label)
            label = label or default
            same(origin(ctx, read(ctx, own, name), name, label, factories, op), content, "content read")
        for factory in factories.values():
            factory.made.clear()
    ctx.state(repr((name, default, operations)))


CHANGES = ["default A", "default B", "register B", "new", "new B", "give B", "take away"]
READS = ["read", "read own", "registered", "universal"]


def cases(depth):
    for name in PARSERS:
        for n in range(depth + 1):
            for ops in itertools.product(CHANGES, repeat=n):
                for op in READS:
                    yield [name, list(ops) + [op]]
        # reading in between
        for a, b in itertools.product(CHANGES, repeat=2):
            for x, y in itertools.product(READS, repeat=2):
                yield [name, [a, x, b, y]]


def sizes(ctx, case):
    """Documents with many elements, read by a parser with a factory of its own."""
    import io
    kind, way, n = case
    if kind == "xes":
        from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
        out = io.BytesIO()
        XesXmlSerializer().serialize(model.build_log(spaces.odd_log([way, n])), out, True)
        data = out.getvalue()
    else:
        attributes = [p08.attribute("k%d" % i, "v") for i in range(n)]
        parts = {"events": [p08.n("ProcessInstance", {"id": "i"}, *[[p08.FULL, p08.EARLIER, p08.EMPTY][i % 3] for i in range(n)])],
                 "traces": [p08.n("ProcessInstance", {"id": "i%d" % i}, *[p08.FULL] * (i % 3)) for i in range(n)],
                 "attributes": [p08.n("Data", {}, *attributes), p08.n("ProcessInstance", {"id": "i"}, p08.n("Data", {}, *attributes))]}[way]
        data = ('<?xml version="1.0" encoding="UTF-8"?>' + mxmldoc.render(p08.n("WorkflowLog", {}, p08.n("Process", {"id": "p"}, *parts)))).encode()
    name = PARSERS[(kind == "mxml") + 2 * (n % 2)]
    if n % 2:
        data = gzip.compress(data, mtime=0)
    path = os.path.join(ctx.scratch, "sizes")
    with open(path, "wb") as out:
        out.write(data)
    from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
    one, other = recorder(), recorder()
    XFactoryRegistry().set_current_default(other)
    seen = []
    for parser, wanted in ((make_parser(name, one), one), (make_parser(name), other)):
        with open(path, "rb") as stream:
            logs = parser.parse(stream)
        expect(len(logs) == 1, len(logs), "logs")
        for element in elements(logs[0], kind == "mxml"):
            expect(id(element) in wanted.made and id(element) not in (other if wanted is one else one).made,
                   "an element", type(element).__name__, getattr(element, "get_key", str)(), "was not made by the factory to be used")
            ctx.step()
        seen.append(model.seen_log(logs[0]))
        one.made.clear()
        other.made.clear()
    same(seen[1], seen[0], "content read")
    ctx.state(repr(case))


def size_cases(tier):
    for way in ("odd events", "odd traces", "odd attributes", "odd globals", "odd members"):
        for n in spaces.steps(tier, 515 if tier == "quick" else 1025):
            yield ["xes", way, n]
    for way in ("events", "traces", "attributes"):
        for n in spaces.steps(tier, 515 if tier == "quick" else 1025):
            yield ["mxml", way, n]
    for n in range(1, 60):
        yield ["xes", "odd depth", n]


def families(tier):
    quick = tier == "quick"
    import opyenxes.data_in.XUniversalParser, opyenxes.data_in.XParserRegistry  # noqa: F401, E401
    return [Family("histories", lambda _: cases(2 if quick else 4), lambda ctx, c: isolated(ctx, run, c)),
            Family("sizes", lambda _: size_cases(tier), lambda ctx, c: isolated(ctx, sizes, c))]
