"""Looking at a log, changing it, looking again: what is seen afterwards must
be what is seen in a log that was made and changed the same way and never
looked at. LOOKS are operations that only look (canonical results), CHANGES are
changes of every part a log has; both work on a World, whose tools (parsers,
serializers, classifiers, wrappers, sets of classes) live as long as its log."""
import importlib
import io
import itertools
from mc import model, mxmldoc, xesdoc
from mc.core import Family, same

D = "date"
LOG = {"x": ["concept"], "gt": [["string", "concept:name", "g", []]], "ge": [["int", "n", 0, []]], "c": [["C", ["concept:name", "a b"]]],
       "a": [["string", "concept:name", "log", [["string", "note", "below", []]]],
             ["list", "l", "b", [["int", "x", 1, []], ["string", "y", "z", []]]], ["container", "box", "b", [["int", "in", 1, []]]]],
       "t": [[[["string", "concept:name", "t1", []], ["float", "cost:total", 5.5, []]],
              [[["string", "concept:name", "a", [["float", "cost:amount", 2.5, []]]], [D, "time:timestamp", [2016, 2, 29, 1, 2, 3, 4000, 60], []],
                ["string", "org:resource", "r", []], ["string", "lifecycle:transition", "start", []],
                ["string", "sub", "s", [["float", "cost:amount", 1.5, []], ["string", "cost:type", "fix", []], ["string", "deep", "d", [["id", "identity:id", "12345678-1234-5678-1234-567812345678", []]]]]]],
               [["string", "concept:name", "b", []], [D, "time:timestamp", [2016, 3, 1, 1, 2, 3, 0, 0], []], ["int", "n", 5, []], ["boolean", "yes", True, []],
                ["string", "lifecycle:transition", "complete", []]],
               [["string", "concept:name", "a", []]]]],
             [[["string", "concept:name", "t2", []]], [[["string", "org:resource", "q", []], ["string", "org:role", "boss", []], ["float", "f", 0.5, []], ["id", "k", "12345678-1234-5678-1234-567812345678", []]]]],
             [[], []]]}


def make(path, name):
    return getattr(importlib.import_module("opyenxes." + path + "." + name), name)


class World:
    def __init__(self):
        from opyenxes.factory.XFactory import XFactory
        self.log = model.build_log(LOG)
        # an event with the id of another one, and one outside the log
        self.twin = XFactory.create_event(identity=self.log[0][0].get_id())
        model.put_attrs(self.twin, [["string", "concept:name", "twin", []]])
        self.lone = model.build_event(LOG["t"][0][1][0])
        keys = [["concept:name"], ["concept:name", "lifecycle:transition"], ["org:resource", "concept:name", "sub"]]
        self.classifiers = [make("classification", "XEventAttributeClassifier")("c", k) for k in keys] + \
            [make("classification", n)() for n in ("XEventNameClassifier", "XEventResourceClassifier", "XEventLifeTransClassifier")]
        self.classifiers.append(make("classification", "XEventAndClassifier")(self.classifiers[3:5]))
        self.classes = make("classification", "XEventClasses")(self.classifiers[0])
        for name in ("a", "b", "", "twin", "changed"):
            self.classes.register(name)
        self.xes, self.mxml = make("data_out", "XesXmlSerializer")(), make("data_out", "XMxmlSerializer")()
        self.first = self.log[0][0]
        self.wrappers = [make("extension.std", "XExtendedEvent").wrap(e) for e in (self.first, self.log[0][1], self.twin, self.lone)]
        self.bounds = make("info", "XTimeBounds")

    def events(self):
        return [e for t in self.log for e in t] + [self.twin, self.lone]

    def elements(self):
        return [self.log] + list(self.log) + self.events()

    def attributes(self):
        def walk(attributes):
            for a in attributes:
                yield a
                yield from walk(a.get_attributes().values())
                if isinstance(a, (make("model", "XAttributeList"), make("model", "XAttributeContainer"))):
                    inside = {id(c) for c in a.get_attributes().values()}
                    yield from walk(c for c in a.get_collection() if id(c) not in inside)
        for e in self.elements():
            yield from walk(e.get_attributes().values())
        yield from walk(self.log.get_global_trace_attributes() + self.log.get_global_event_attributes())


def names(extensions):
    return sorted(e.get_name() for e in extensions)


def kind_value(a):
    return model.kind_of(a), a.get_key(), model.seen_value(model.kind_of(a), a)


LOOKS = {}


def look(*properties):
    def add(function):
        LOOKS[function.__name__] = (function, properties)
        return function
    return add


@look("P02", "P01")
def written_xes(w):
    out = io.BytesIO()
    w.xes.serialize(w.log, out, True)
    content, extensions = xesdoc.strict(out.getvalue())
    return model.expected_log(content), extensions


@look("P07")
def written_mxml(w):
    out = io.BytesIO()
    w.mxml.serialize(w.log, out, True)
    return mxmldoc.stripped(mxmldoc.parse_tree(out.getvalue()))


@look("P01", "P09", "P32", "P36")
def content(w):
    return model.seen_log(w.log), [model.seen_map(e.get_attributes()) for e in (w.twin, w.lone)]


@look("P09")
def cloned(w):
    return (model.seen_log(w.log.clone()), [model.seen_map(e.clone().get_attributes()) for e in w.events()], [[model.seen_map(e.get_attributes()) for e in t.clone()] for t in w.log],
            [model.seen_attr(a.clone()) for a in w.attributes()], model.seen_map(w.first.get_attributes().clone()))


@look("P30")
def extensions(w):
    return [names(e.get_extensions()) for e in w.elements()[1:]], [names(a.get_extensions()) for a in w.attributes()], names(w.log.get_extensions())


@look("P12")
def identities(w):
    return [[c.get_class_identity(e) for e in w.events()] for c in w.classifiers], \
        [[c.same_event_class(a, b) for a in w.events() for b in w.events()] for c in w.classifiers[:4]]


@look("P10", "P12")
def classifiers(w):
    return [(c.name(), c.get_defining_attribute_keys(), [c == d for d in w.classifiers], [hash(c) == hash(d) for d in w.classifiers if c == d], str(c)) for c in w.classifiers], \
        [(c.name(), c.get_defining_attribute_keys(), [c == d for d in w.classifiers]) for c in w.log.get_classifiers()]


@look("P13")
def class_of(w):
    found = [w.classes.get_class_of(e) for e in w.events()]
    return [c and c.get_id() for c in found], [(c.get_id(), c.size(), c.get_index()) for c in w.classes.get_classes()], \
        [w.classes.get_by_index(i).get_id() for i in range(len(w.classes))], [c is None or w.classes.get_by_identity(c.get_id()) is c for c in found]


@look("P13")
def class_of_one(w):
    found = w.classes.get_class_of(at(w))
    return found and found.get_id()


@look("P12")
def identity_of_one(w):
    return [c.get_class_identity(at(w)) for c in w.classifiers]


@look("P20", "P21", "P33", "P06")
def of_one(w):
    e, std = at(w), "extension.std"
    return [make(std, "XConceptExtension")().extract_name(e), make(std, "XTimeExtension")().extract_timestamp(e), make(std, "XOrganizationalExtension")().extract_resource(e),
            sorted(make(std, "XCostExtension")().extract_nested_amounts(e).items()), w.wrappers[0].get_name(), w.wrappers[0].get_role()]


@look("P30")
def extensions_of_one(w):
    return names(at(w).get_extensions())


@look("P16")
def boundaries_of_one(w):
    bounds = make("info", "XTimeBounds")()
    bounds.register(at(w))
    return limits(bounds)


@look("P13")
def derived_classes(w):
    result = []
    for c in w.classifiers:
        classes = make("classification", "XEventClasses").derive_event_classes(c, w.log)
        result.append([(k.get_id(), k.size(), k.get_index()) for k in classes.get_classes()] + [classes.get_class_of(e).get_id() for t in w.log for e in t])
    return result


def summary(info, log):
    return (info.get_number_of_event(), info.get_number_of_traces(),
            [sorted((c.get_id(), c.size(), c.get_index()) for c in k.get_classes())
             for k in (info.get_event_classes(), info.get_name_classes(), info.get_resource_classes(), info.get_transition_classes())],
            [statistics(a) for a in (info.get_log_attribute_info(), info.get_trace_attribute_info(), info.get_event_attribute_info(), info.get_meta_attribute_info())],
            limits(info.get_log_time_boundaries()), [limits(info.get_trace_time_boundaries(t)) for t in log])


def limits(bounds):
    return [d and model.canon_datetime(d) for d in (bounds.get_start_date(), bounds.get_end_date())]


def statistics(info):
    return sorted((k, info.get_frequency(k), round(info.get_relative_frequency(k), 9)) for k in info.get_attribute_keys()), \
        sorted((model.kind_of(a), a.get_key()) for a in info.get_attributes()), sorted(info.get_keys_without_extension())


@look("P14", "P15", "P16")
def summarised(w):
    return [summary(make("info", "XLogInfo").create(w.log, c), w.log) for c in (None, w.classifiers[2])]


@look("P16")
def boundaries(w):
    result = []
    for some in [[e] for e in w.events()] + [list(t) for t in w.log]:
        bounds = make("info", "XTimeBounds")()
        for e in some:
            bounds.register(e)
        result.append(limits(bounds))
    return result


@look("P20")
def extracted(w):
    std = "extension.std"
    concept, time, org, life, semantic, cost, identity, micro = [make(std, n)() for n in (
        "XConceptExtension", "XTimeExtension", "XOrganizationalExtension", "XLifecycleExtension", "XSemanticExtension", "XCostExtension", "XIdentityExtension", "XMicroExtension")]
    result = []
    for e in w.elements():
        date = time.extract_timestamp(e)
        result.append([concept.extract_name(e), concept.extract_instance(e), date and model.canon_datetime(date), org.extract_resource(e), org.extract_role(e), org.extract_group(e),
                       life.extract_transition(e), life.extract_standard_transition(e), life.extract_model(e), life.uses_standard_model(e), semantic.extract_model_references(e),
                       [u.geturl() for u in semantic.extract_model_reference_uris(e)], cost.extract_total(e), cost.extract_currency(e), str(identity.extract_id(e)),
                       micro.extract_level(e), micro.extract_length(e), str(micro.extract_parent_id(e))])
    return result


@look("P21")
def costs(w):
    cost = make("extension.std", "XCostExtension")()
    return [[sorted(f(e).items()) for f in (cost.extract_amounts, cost.extract_nested_amounts, cost.extract_drivers, cost.extract_nested_drivers, cost.extract_types, cost.extract_nested_types)]
            for e in w.elements()], [[cost.extract_amount(a), cost.extract_driver(a), cost.extract_type(a)] for a in w.attributes()]


@look("P33")
def through_wrappers(w):
    result = []
    for x in w.wrappers + [make("extension.std", "XExtendedEvent").wrap(w.first)]:
        date = x.get_time_stamp()
        result.append([x.get_name(), x.get_instance(), date and model.canon_datetime(date), x.get_resourse(), x.get_role(), x.get_group(), x.get_transition(), x.get_standard_transition(),
                       x.get_model_references(), [u.geturl() for u in x.get_model_references_uris()], model.seen_map(x.get_attributes()), names(x.get_extensions()), x.has_attributes()])
    return result


@look("P36")
def texts(w):
    utils = make("utils", "XAttributeUtils")
    return [(kind_value(a), str(a), utils.get_type(a).__name__, utils.get_type_string(a)) for a in w.attributes()], \
        [[kind_value(c) for c in a.get_collection()] for a in w.attributes() if model.kind_of(a) in model.COLLECTIONS], [e.has_attributes() for e in w.elements()]


@look("P36")
def prototypes(w):
    made = [make("utils", "XAttributeUtils").derive_prototype(a) for a in w.attributes()]
    return [(model.kind_of(a), a.get_key(), a.get_extension() and a.get_extension().get_name(), sorted(a.get_attributes())) for a in made]


@look("P06")
def dates(w):
    return [(str(a), a.get_value_millis()) for a in w.attributes() if model.kind_of(a) == D]


@look("P10")
def compared(w):
    every = [a for a in w.attributes() if model.kind_of(a) not in model.COLLECTIONS]
    pairs = [(a, b) for a in every for b in every if model.kind_of(a) == model.kind_of(b)]
    return [(a == b, a != b, a < b, a <= b, a > b, a >= b, a.compare_to(b)) for a, b in pairs], [hash(a) == hash(b) for a, b in pairs if a == b], \
        [a == a.clone() and hash(a) == hash(a.clone()) for a in every], [a == b for a in every[:5] for b in every]


@look("P32")
def as_lists(w):
    events = w.events()
    return [len(t) for t in w.log], [w.log.index(t) for t in w.log], [[e in t for t in w.log] for e in events], [[a == b for b in events] for a in events], \
        [[hash(a) == hash(b) for b in events if a == b] for a in events]


@look("P11")
def inserted(w):
    """On copies: where an event would go."""
    result = []
    for t in w.log:
        for e in w.events():
            copy = t.clone()
            one = e.clone()
            at = copy.insert_ordered(one)
            result.append((at, copy[at] is one))
    return result


@look("P19")
def aliases(w):
    known = make("info", "XGlobalAttributeNameMap")()
    return [[known.map_safely(a, m) for m in ("EN", "DE", "none")] for a in w.attributes()], [known.map(a) for a in w.attributes()]


CHANGES = {}


def change(function):
    CHANGES[function.__name__] = function
    return function


def at(w):
    return w.log[0][0] if len(w.log) and len(w.log[0]) else w.lone


def attr(kind, key, value, children=()):
    return model.build_attr([kind, key, value, list(children)])


def put(element, *attrs):
    model.put_attrs(element, attrs)


def set_value(element, key, value):
    one = element.get_attributes().get(key)
    if one is not None and type(one.get_value()) is type(value):
        one.set_value(value)


@change
def new_name_value(w):
    set_value(at(w), "concept:name", "changed")


@change
def new_name_attribute(w):
    put(at(w), ["string", "concept:name", "changed", []])


@change
def other_kind(w):
    put(at(w), ["int", "concept:name", 7, []])


@change
def without_name(w):
    at(w).get_attributes().pop("concept:name", None)


@change
def later(w):
    set_value(at(w), "time:timestamp", model.model_datetime([2017, 1, 1, 0, 0, 0, 0, 0]))


@change
def earlier_millis(w):
    for t in w.log:
        for e in t:
            if "time:timestamp" in e.get_attributes():
                e.get_attributes()["time:timestamp"].set_value_millis(e.get_attributes()["time:timestamp"].get_value_millis() - 86400000)


@change
def without_time(w):
    at(w).get_attributes().pop("time:timestamp", None)


@change
def nested_deep(w):
    for a in list(at(w).get_attributes().values())[-1:]:
        put(a, ["string", "time:x", "t", [["float", "cost:amount", 9.5, []], ["string", "semantic:modelReference", "http://m", []]]])


@change
def nested_value(w):
    for a in at(w).get_attributes().values():
        set_value(a, "cost:amount", 77.0)


@change
def nested_away(w):
    for a in at(w).get_attributes().values():
        a.get_attributes().clear()


@change
def new_map(w):
    fresh = make("model", "XAttributeMap")()
    at(w).set_attributes(fresh)
    fresh["org:role"] = attr("string", "org:role", "new")


@change
def cleared(w):
    at(w).get_attributes().clear()


@change
def swapped_maps(w):
    a, b = at(w), w.lone
    one, other = a.get_attributes(), b.get_attributes()
    a.set_attributes(other)
    b.set_attributes(one)


@change
def same_new_id(w):
    at(w).set_id(w.lone.get_id())


@change
def twin_name(w):
    set_value(w.twin, "concept:name", "b")


@change
def swapped_events(w):
    if len(w.log) and len(w.log[0]) > 1:
        w.log[0][0], w.log[0][1] = w.log[0][1], w.log[0][0]


@change
def event_away(w):
    if len(w.log) and len(w.log[0]):
        del w.log[0][0]


@change
def event_more(w):
    if len(w.log):
        w.log[0].append(model.build_event([["string", "concept:name", "more", []], ["string", "org:resource", "r", []]]))


@change
def event_ordered(w):
    if len(w.log):
        w.log[0].insert_ordered(model.build_event([[D, "time:timestamp", [2016, 2, 29, 12, 0, 0, 0, 0], []]]))


@change
def event_moved(w):
    if len(w.log) > 1 and len(w.log[0]):
        w.log[-1].append(w.log[0].pop())


@change
def event_replaced(w):
    if len(w.log) and len(w.log[0]):
        w.log[0][0] = w.lone.clone()


@change
def trace_reversed(w):
    for t in w.log:
        t.reverse()


@change
def trace_away(w):
    if len(w.log):
        w.log.pop(0)


@change
def traces_swapped(w):
    w.log.reverse()


@change
def trace_more(w):
    w.log.append(model.build_trace([["string", "concept:name", "t3", []]], [[["string", "concept:name", "z", []]]]))


@change
def trace_twice(w):
    if len(w.log):
        w.log.append(w.log[0].clone())


@change
def log_values(w):
    set_value(w.log, "concept:name", "other log")
    put(w.log, ["date", "since", [2000, 1, 1, 0, 0, 0, 0, 0], []])


@change
def members(w):
    for key in ("l", "box"):
        one = w.log.get_attributes().get(key)
        if one is not None:
            more = attr("string", "cost:driver", "d")
            one.add_to_collection(more)
            one.get_attributes()[more.get_key()] = more


@change
def member_value(w):
    one = w.log.get_attributes().get("l")
    for member in one.get_collection() if one is not None else ():
        member.set_value(5 if model.kind_of(member) == "int" else "five")


@change
def new_globals(w):
    w.log.get_global_trace_attributes().append(attr("string", "org:group", "g"))
    w.log.get_global_event_attributes().clear()
    w.log.get_global_trace_attributes()[0].set_value("changed")


@change
def new_classifiers(w):
    w.log.get_classifiers().append(make("classification", "XEventAttributeClassifier")("D", ["x", "y"]))
    w.log.get_classifiers()[0].set_name("E")


@change
def new_extension(w):
    w.log.get_extensions().add(make("extension.std", "XMicroExtension")())
    w.log.get_extensions().discard(make("extension.std", "XConceptExtension")())


@change
def through_extension(w):
    make("extension.std", "XConceptExtension")().assign_name(at(w), "assigned")
    make("extension.std", "XOrganizationalExtension")().assign_resource(at(w), "assigned")
    make("extension.std", "XLifecycleExtension")().assign_transition(at(w), "suspend")
    make("extension.std", "XCostExtension")().assign_total(at(w), 3.5)


@change
def through_wrapper(w):
    w.wrappers[0].set_name("wrapped")
    w.wrappers[0].set_role("wrapped")
    w.wrappers[2].set_transition("abort")


@change
def through_costs(w):
    make("extension.std", "XCostExtension")().assign_nested_amounts(at(w), {("sub", "new"): 4.5, ("sub",): 6.5})


@change
def renamed_classifier(w):
    w.classifiers[0].set_name("renamed")


@change
def harmonized(w):
    w.classes.harmonize_indices()
    w.classes.register("changed")


def names_for(prop):
    return [n for n, (_, properties) in LOOKS.items() if prop == "P25" or prop in properties]


_wanted = {}


def result(world, which):
    return LOOKS[which][0](world)


def wanted(changes, which):
    key = (tuple(changes), which)
    if key not in _wanted:
        world = World()
        for c in changes:
            CHANGES[c](world)
        _wanted[key] = result(world, which)
    return _wanted[key]


def run(ctx, case):
    """before: looks; then for every change: the change and the looks after."""
    before, changes, after = case
    world = World()
    for which in before:
        same(result(world, which), wanted((), which), "%s at first" % which)
    for n, c in enumerate(changes):
        CHANGES[c](world)
        for which in after:
            same(result(world, which), wanted(changes[:n + 1], which), "%s after looking (%s) and changing (%s)" % (which, ", ".join(before), ", ".join(changes[:n + 1])))
        ctx.step(len(after) + 1)
    ctx.state(repr((changes, after)))


def cases(prop, quick):
    mine = names_for(prop)
    for c in CHANGES:
        for a in mine:
            for b in LOOKS if prop == "P25" or not quick else mine:
                yield [[b], [c], [a]]
    for pair in itertools.product(CHANGES, repeat=2):
        yield [mine, list(pair), mine]
    if not quick:
        for triple in itertools.product(CHANGES, repeat=3):
            yield [mine, list(triple), mine]


def family(prop):
    return Family("looked-at-and-changed", lambda tier: cases(prop, tier == "quick"), run)
