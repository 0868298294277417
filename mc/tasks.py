"""Things a program does with the library, each on logs of its own. A task
returns what it saw in canonical form; logs it made are put in env["kept"] with
their canonical form, to be looked at again later. Parsers and serializers come
from `tool`, so that one instance serves all tasks of a program."""
import gzip
import importlib
import io
import os
from mc import model, mxmldoc, xesdoc
from mc.props import p03, p07, p08, p22

CUT = 0.7
LOG_A = {"x": ["concept", "time"], "gt": [["string", "concept:name", "g", []]], "ge": [["int", "n", 0, []], ["string", "a", "x", []]],
         "c": [["C", ["concept:name", "a b"]]], "a": [["string", "source", "s", []], ["list", "l", "b", [["int", "x", 1, []], ["string", "y", "z", []]]]],
         "t": [[[["string", "concept:name", "t1", []]], [[["date", "time:timestamp", [2016, 2, 29, 1, 2, 3, 4000, 60], []],
                                                         ["string", "concept:name", "e", []], ["string", "org:resource", "r", []]],
                                                        [["string", "concept:name", "f", []], ["string", "lifecycle:transition", "start", []]]]],
               [[], []]]}
LOG_B = {"a": [["string", "concept:name", "b", [["string", "note", "below", []]]]],
         "t": [[[["string", "concept:name", "u", []]], [[["string", "concept:name", "e", []], ["int", "n", 5, []],
                                                        ["date", "time:timestamp", [2015, 1, 1, 0, 0, 0, 0, 0], [["string", "semantic:modelReference", "m1", []]]],
                                                        ["string", "lifecycle:transition", "complete", [["string", "semantic:modelReference", "m2", []]]]],
                                                       [["string", "lifecycle:transition", " Checked Twice", []], ["string", "org:role", "ro", []],
                                                        ["string", "semantic:modelReference", "m3", []]],
                                                       [["string", "lifecycle:transition", "START ", []], ["string", "org:group", "gr", []]],
                                                       [["string", "lifecycle:transition", "checked twice", []], ["string", "concept:instance", "1", []]]]],
               [[["string", "semantic:modelReference", "m4", []]], []]]}
DEFINITION = ["Own", "own", "http://own.org/own.xesext", [["event", [["string", "s", []], ["int", "i", []]]], ["log", [["date", "d", []]]]]]
PROLOG = '<?xml version="1.0" encoding="UTF-8"?>'
_documents = {}


def document(name):
    if not _documents:
        _documents["rich"] = PROLOG + p03.render(p03.RICH)
        _documents["globals"] = PROLOG + p03.render(p03.in_log([
            p03.LOG_FRAGMENTS[9], p03.LOG_FRAGMENTS[5], p03.LOG_FRAGMENTS[6], p03.FRAGMENTS[8], p03.n("trace", {}, p03.EVENT, p03.n("event"))]))
        _documents["bad date"] = PROLOG + p03.render(p03.in_log([
            p03.FRAGMENTS[6], p03.n("trace", {}, p03.n("event", {}, p03.FRAGMENTS[5], p03.FRAGMENTS[6], p03.FRAGMENTS[0], p03.FRAGMENTS[12]))]))
        _documents["empty"] = PROLOG + p03.render(p03.in_log([]))
        _documents["mxml"] = PROLOG + mxmldoc.render(p08.n("WorkflowLog", {}, p08.SOURCES[2], p08.n(
            "Process", {"id": "p", "description": "d"}, p08.n("Data", {}, p08.attribute("a", "1")), p08.instance({"id": "i"}, p08.FULL, p08.EARLIER)),
            p08.n("Process", {"id": "q"}, p08.instance({"id": "j"}, p08.EMPTY))))
        _documents["mxml without source"] = PROLOG + mxmldoc.render(p08.n("WorkflowLog", {}, p08.n(
            "Process", {"id": "r"}, p08.instance({}, p08.EARLIER, p08.EMPTY, p08.FULL))))
    return _documents[name].encode()


def make(path, name):
    return getattr(importlib.import_module("opyenxes." + path + "." + name), name)


def tool(env, path, name):
    if name not in env["tools"]:
        env["tools"][name] = make(path, name)()
    return env["tools"][name]


def keep(env, logs):
    seen = [model.seen_log(log) for log in logs]
    env["kept"].extend(zip(logs, seen))
    return seen


def refused(action):
    try:
        return "not refused", action()
    except Exception:
        return "refused"


def parse(name, parser="XesXmlParser", own=False):
    def run(env):
        one = make("data_in", parser)() if own else tool(env, "data_in", parser)
        logs = one.parse(io.BytesIO(document(name)))
        return keep(env, logs), [sorted(log.get_features().items()) for log in logs]
    return run


def broken(name, parser):
    def run(env):
        data = document(name)
        return [refused(lambda: len(tool(env, "data_in", parser).parse(io.BytesIO(data[:int(len(data) * part)])))) for part in (CUT, 0.5, 0.9)]
    return run


def universal(suffix, name):
    def run(env):
        data = document(name)
        path = os.path.join(env["scratch"], "universal-%s%s" % (env["id"], suffix))
        with open(path, "wb") as out:
            out.write(gzip.compress(data, mtime=0) if suffix.endswith("gz") else data)
        with open(path, "rb") as stream:
            return keep(env, tool(env, "data_in", "XUniversalParser").parse(stream))
    return run


def wrong_file(env):
    path = os.path.join(env["scratch"], "wrong-%s.xes" % env["id"])
    with open(path, "wb") as out:
        out.write(document("rich")[:200])
    with open(path, "rb") as stream:
        return refused(lambda: tool(env, "data_in", "XUniversalParser").parse(stream))


def write_xes(log_model):
    def run(env):
        log = model.build_log(log_model)
        keep(env, [log])
        out = io.BytesIO()
        tool(env, "data_out", "XesXmlSerializer").serialize(log, out, True)
        content, extensions = xesdoc.strict(out.getvalue())
        return model.expected_log(content), extensions
    return run


def write_mxml(log_model):
    def run(env):
        log = model.build_log(log_model)
        keep(env, [log])
        out = io.BytesIO()
        tool(env, "data_out", "XMxmlSerializer").serialize(log, out, True)
        return mxmldoc.stripped(mxmldoc.parse_tree(out.getvalue()))
    return run


def write_gzip(env):
    path = os.path.join(env["scratch"], "written-%s.xes.gz" % env["id"])
    log = model.build_log(LOG_A)
    with open(path, "wb") as out:
        tool(env, "data_out", "XesXmlGZIPSerializer").serialize(log, out)
    with gzip.open(path) as stream:
        return model.expected_log(xesdoc.strict(stream.read())[0])


class Full:
    def write(self, piece):
        raise OSError(28, "No space left on device")


def failing_write(env):
    log = model.build_log(LOG_B)
    return [refused(lambda: tool(env, "data_out", name).serialize(log, Full(), True)) for name in ("XesXmlSerializer", "XMxmlSerializer")]


def info(env):
    result = []
    for content in (LOG_A, LOG_B):
        log = model.build_log(content)
        one = make("info", "XLogInfoFactory").create_log_info(log)
        bounds = one.get_log_time_boundaries()
        result.append((one.get_number_of_event(), one.get_number_of_traces(), str(bounds.get_start_date()), str(bounds.get_end_date()),
                       [sorted((c.get_id(), c.get_index(), c.size()) for c in classes.get_classes())
                        for classes in (one.get_event_classes(), one.get_name_classes(), one.get_resource_classes(), one.get_transition_classes())],
                       [sorted((key, attributes.get_frequency(key)) for key in attributes.get_attribute_keys())
                        for attributes in (one.get_log_attribute_info(), one.get_trace_attribute_info(), one.get_event_attribute_info(),
                                           one.get_meta_attribute_info())]))
        keep(env, [log])
        env["infos"].append(one)
    return result


def clone(env):
    log = model.build_log(LOG_A)
    copy = log.clone()
    before = model.seen_log(copy)
    copy[0][0].get_attributes()["concept:name"].set_value("changed")
    copy.get_global_event_attributes()[0].set_value(99)
    copy.get_attributes()["l"].get_collection()[0].set_value(-1)
    del copy[0][1]
    return before, keep(env, [log, copy])


def classify(env):
    log = model.build_log(LOG_A)
    result = []
    for name in ("XEventNameClassifier", "XEventResourceClassifier", "XEventLifeTransClassifier"):
        one = make("classification", name)()
        result.append([one.name(), list(one.get_defining_attribute_keys()), [one.get_class_identity(e) for e in log[0]]])
    both = make("classification", "XEventAndClassifier")([make("classification", "XEventNameClassifier")(), make("classification", "XEventResourceClassifier")()])
    result.append([both.name(), list(both.get_defining_attribute_keys()), [both.get_class_identity(e) for e in log[0]]])
    classes = make("classification", "XEventClasses").derive_event_classes(both, log)
    return result, sorted((c.get_id(), c.get_index(), c.size()) for c in classes.get_classes())


def costs(env):
    cost = make("extension.std", "XCostExtension")()
    event = model.build_event([["string", "concept:name", "e", []]])
    cost.assign_nested_amounts(event, {("a",): 1.5, ("a", "b"): 2.5, ("c", "d"): 3.0})
    cost.assign_nested_drivers(event, {("a", "b"): "x"})
    cost.assign_total(event, 7.0)
    cost.assign_currency(event, "EUR")
    return (sorted(cost.extract_nested_amounts(event).items()), sorted(cost.extract_nested_drivers(event).items()), cost.extract_total(event),
            cost.extract_currency(event), model.seen_map(event.get_attributes()))


def wrapped(env):
    event = make("extension.std", "XExtendedEvent").wrap(model.build_event([["string", "other", "o", []]]))
    event.set_name("n")
    event.set_resource("res")
    event.set_group("g")
    event.set_transition("start")
    event.set_model_references(["http://a#b"])
    event.set_time_stamp(model.model_datetime([2016, 1, 2, 3, 4, 5, 6000, 120]))
    return model.seen_map(event.get_attributes()), event.get_name(), event.get_resourse(), event.get_group(), event.get_standard_transition(), event.get_role()


def definition(env):
    path = os.path.join(env["scratch"], "definition-%s.xesext" % env["id"])
    with open(path, "wb") as out:
        out.write(p22.render(DEFINITION))
    one = make("extension", "XExtensionParser")().parse(path)
    return (one.get_name(), one.get_prefix(), one.get_uri().geturl(), sorted(model.seen_attr(a)[:2] for a in one.get_event_attributes()),
            sorted(model.seen_attr(a)[:2] for a in one.get_log_attributes()), sorted(a.get_key() for a in one.get_defined_attributes()))


def broken_definition(env):
    path = os.path.join(env["scratch"], "broken-%s.xesext" % env["id"])
    with open(path, "wb") as out:
        out.write(p22.render(DEFINITION)[:-60])
    result = refused(lambda: make("extension", "XExtensionParser")().parse(path))
    return "refused" if result[1:] == (None,) else result


def odd_definition(env):
    """Definitions without a URI, with aliases of nothing and attributes of no level."""
    path = os.path.join(env["scratch"], "odd-%s.xesext" % env["id"])
    found = []
    for text in ('<xesextension name="M" prefix="m" uri="http://["><event><string key="a"><alias mapping="EN" name="M"/></string></event></xesextension>',
                 '<xesextension name="N" prefix="n" uri="http://n/"><alias mapping="QQ" name="none"/><string key="s"/><event/><int key="i"/></xesextension>'):
        with open(path, "w") as out:
            out.write(text)
        one = make("extension", "XExtensionParser")().parse(path)
        found.append(one and (one.get_name(), sorted(a.get_key() for a in one.get_log_attributes()), sorted(a.get_key() for a in one.get_event_attributes())))
    names = make("info", "XGlobalAttributeNameMap")()
    return found, "QQ" in names.get_available_mapping_names(), [names.map_safely(k, "QQ") for k in ("own:i", "own:s", "own:d", "n:s")]


def prototypes(env):
    """What the standard extensions define, and the manager's view of them."""
    manager = make("extension", "XExtensionManager")()
    result = []
    for prefix in sorted(model.STANDARD):
        one = manager.get_by_prefix(prefix)
        seen = [model.seen_attr(a) for a in one.get_defined_attributes()]
        # the value of an id prototype is random
        seen = [s[:2] + [None] + list(s[3:]) if s[0] == "id" else s for s in map(list, seen)]
        result.append((one.get_name(), one.get_uri().geturl(), sorted(seen, key=repr)))
    result.append(list(make("model", "XLog")(None).get_attributes()) + list(make("factory", "XFactory").create_event().get_attributes()))
    result.append([(c.name(), list(c.get_defining_attribute_keys())) for c in make("data_in", "XMxmlParser").MXML_CLASSIFIERS])
    result.append([make("info", "XGlobalAttributeNameMap")().map_safely("concept:name", n) for n in ("EN", "DE", "FR")])
    return result


def dates(env):
    parse_date = importlib.import_module("opyenxes.utils.XsDateTimeConversion").parse_date_time
    found = [parse_date(t) for t in ("2016-02-29T23:59:58.123+05:30", "no date", "1969-12-31T23:59:59Z", "2016-02-30T00:00:00Z", "2016-01-01T00:00:00")]
    texts = [str(make("model", "XAttributeTimestamp")("d", d)) for d in found if d is not None]
    bounds = make("info", "XTimeBounds")()
    for d in found:
        if d is not None and d.tzinfo is not None:
            bounds.register(d)
    return [str(d) for d in found], texts, str(bounds.get_start_date()), str(bounds.get_end_date())


def ordered(env):
    trace = make("factory", "XFactory").create_trace()
    positions = []
    for second in (3, 1, 2, 3, 0):
        event = model.build_event([["date", "time:timestamp", [2016, 1, 1, 0, 0, second, 0, 0], []]])
        positions.append(trace.insert_ordered(event))
    return positions, [model.seen_map(e.get_attributes()) for e in trace]


TASKS = {
    "xes": parse("rich"), "xes globals": parse("globals"), "xes bad date": parse("bad date"), "xes empty": parse("empty"),
    "xes own parser": parse("rich", own=True), "mxml": parse("mxml", "XMxmlParser"), "mxml without source": parse("mxml without source", "XMxmlParser"),
    "broken xes": broken("rich", "XesXmlParser"), "broken globals": broken("globals", "XesXmlParser"), "broken mxml": broken("mxml", "XMxmlParser"),
    "xes.gz": universal(".xes.gz", "rich"), "mxml.gz": universal(".mxml.gz", "mxml"), ".xes": universal(".xes", "globals"), "wrong file": wrong_file,
    "write xes": write_xes(LOG_A), "write xes b": write_xes(LOG_B), "write mxml": write_mxml(LOG_A), "write mxml b": write_mxml(LOG_B),
    "write gzip": write_gzip, "failing write": failing_write, "info": info, "clone": clone, "classify": classify, "costs": costs,
    "wrapped": wrapped, "definition": definition, "broken definition": broken_definition, "odd definition": odd_definition, "prototypes": prototypes, "dates": dates, "ordered": ordered,
}

FOREIGN = {"x": ["concept"], "c": [["\u00c4", ["concept:name", "\u4e2d k"]]],
           "a": [["string", "\u00fc", "\u00df\u20ac", []], ["string", "description", "\u0416", []]],
           "t": [[[["string", "concept:name", "\u00e9", []]], [[["string", "concept:name", "\u4e2d\u6587 \U0001f600", []],
                                                              ["string", "org:resource", "Jos\u00e9", []]]]]]}
FOREIGN_DEFINITION = ["\u00c4rger", "own", "http://own.org/own.xesext", [["event", [["string", "s\u00e9", [["EN", "\u4e2d\u6587"], ["DE", "\u00dfx"]]]]]]]


def foreign(env):
    """Letters of many languages, written to files by every serializer and read again by every parser."""
    result = []
    for name, suffix in (("XesXmlSerializer", ".xes"), ("XesXmlGZIPSerializer", ".xes.gz"), ("XMxmlSerializer", ".mxml"), ("XMxmlGZIPSerializer", ".mxml.gz")):
        path = os.path.join(env["scratch"], "foreign-%s%s" % (env["id"], suffix))
        with open(path, "w") as out:
            make("data_out", name)().serialize(model.build_log(FOREIGN), out)
        for reader in ("XUniversalParser", {".xes": "XesXmlParser", ".mxml": "XMxmlParser"}.get(suffix)):
            if reader:
                with open(path, "rb") as stream:
                    result.append([model.seen_log(log) for log in make("data_in", reader)().parse(stream)])
    log = model.build_log(FOREIGN)
    one = make("info", "XLogInfoFactory").create_log_info(log)
    result.append(sorted((c.get_id(), c.size()) for c in one.get_event_classes().get_classes()))
    result.append([str(a) for a in log.get_attributes().values()] + [str(c) for c in log.get_classifiers()])
    return result


def foreign_definition(env):
    path = os.path.join(env["scratch"], "foreign-%s.xesext" % env["id"])
    with open(path, "wb") as out:
        out.write(p22.render(FOREIGN_DEFINITION))
    one = make("extension", "XExtensionParser")().parse(path)
    everything = make("info", "XGlobalAttributeNameMap")()
    return one.get_name(), sorted((a.get_key(), everything.map_safely(a, "EN"), everything.map_safely(a, "DE")) for a in one.get_defined_attributes())


NUMBERS = [0.5, -1234567.25, 1e300, -5e-324, 1e16, 123456789.0]


def all_kinds(env):
    """Values of every kind: their texts, written and read again, in both formats, and compared."""
    attrs = [["float", "f%d" % i, f, []] for i, f in enumerate(NUMBERS)] + [["int", "i%d" % i, n, []] for i, n in enumerate((0, -1234567, 10 ** 20))]
    attrs += [["date", "d%d" % month, [2016, month, 28, 13, 4, 5, 6000, 60 * month - 360], []] for month in range(1, 13)]
    attrs += [["boolean", "b", True, []], ["boolean", "c", False, []], ["id", "u", "0123abcd-4567-89ef-0123-456789abcdef", []],
              ["string", "I\u0131\u0130i", "I\u0131\u0130i", []], ["list", "l", "b", [["float", "x", 1.5, []]]]]
    log_model = {"a": attrs, "ge": attrs[:3], "t": [[attrs, [attrs]]]}
    log = model.build_log(log_model)
    result = [[str(a) for a in log.get_attributes().values()]]
    out = io.BytesIO()
    make("data_out", "XesXmlSerializer")().serialize(log, out, True)
    result.append(model.expected_log(xesdoc.strict(out.getvalue())[0]))
    result.append([model.seen_log(one) for one in make("data_in", "XesXmlParser")().parse(io.BytesIO(out.getvalue()))])
    out = io.BytesIO()
    make("data_out", "XMxmlSerializer")().serialize(log, out, True)
    result.append(mxmldoc.stripped(mxmldoc.parse_tree(out.getvalue())))
    result.append([a.get_key() for a in sorted(log.get_attributes().values(), key=lambda a: a.get_key())])
    result.append([make("utils", "XTimer").format_duration(n) for n in (0, 999.5, 1234567, 10 ** 10)])
    cost = make("extension.std", "XCostExtension")()
    element = model.build_event([])
    cost.assign_total(element, 1234.5)
    cost.assign_amounts(element, {"a": 0.25})
    result.append([cost.extract_total(element), cost.extract_amounts(element), model.seen_map(element.get_attributes())])
    classifier = make("classification", "XEventAttributeClassifier")("c", ["f1", "i1", "d3", "b", "I\u0131\u0130i"])
    result.append(classifier.get_class_identity(log[0][0]))
    return result


MORE = {"foreign": foreign, "foreign definition": foreign_definition, "all kinds": all_kinds}


def environment(scratch, number):
    return {"tools": {}, "kept": [], "infos": [], "scratch": scratch, "id": number}


def spoil_attributes(attributes):
    """Changes every attribute, at every depth, and adds one everywhere."""
    seen = set()

    def walk(one):
        if id(one) in seen:
            return
        seen.add(id(one))
        for attribute in list(one.values()):
            walk(attribute.get_attributes())
            kind = model.kind_of(attribute)
            if kind in model.COLLECTIONS:
                for member in attribute.get_collection():
                    walk(member.get_attributes())
                attribute.add_to_collection(model.build_attr(["string", "spoilt", "x", []]))
            else:
                attribute.set_value({"string": "spoilt", "int": -99, "float": -99.5, "boolean": not attribute.get_value(), "id": model.build_value("id", "9" * 8 + "-9999-4999-8999-" + "9" * 12),
                                     "date": model.model_datetime([1999, 9, 9, 9, 9, 9, 9000, 0])}[kind])
        one["spoilt"] = model.build_attr(["string", "spoilt", "x", [["int", "n", 1, []]]])
    walk(attributes)


def spoil(env):
    """The program changes all it was given: every part of every log that a
    task read or made, and what it was told about them."""
    for log, _ in env["kept"]:
        for trace in log:
            for event in trace:
                spoil_attributes(event.get_attributes())
            spoil_attributes(trace.get_attributes())
            trace.append(model.build_event([["string", "concept:name", "spoilt", []]]))
        spoil_attributes(log.get_attributes())
        for some in (log.get_global_trace_attributes(), log.get_global_event_attributes()):
            spoil_attributes({a.get_key(): a for a in some})
            some.append(model.build_attr(["string", "spoilt", "x", []]))
        for classifier in log.get_classifiers():
            classifier.set_name("spoilt")
            keys = classifier.get_defining_attribute_keys()
            if isinstance(keys, list):
                keys.append("spoilt")
        log.get_classifiers().append(make("classification", "XEventAttributeClassifier")("more", ["spoilt"]))
        log.get_extensions().add(make("extension.std", "XMicroExtension")())
        log.get_extensions().discard(make("extension.std", "XConceptExtension")())
        log.get_features()["spoilt"] = "x"
        log.append(model.build_trace([["string", "concept:name", "spoilt", []]], []))
    for one in env["infos"]:
        for classes in (one.get_event_classes(), one.get_name_classes(), one.get_resource_classes(), one.get_transition_classes()):
            classes.register("spoilt")
            for c in list(classes.get_classes()):
                c.set_size(99)
        for attributes in (one.get_log_attribute_info(), one.get_trace_attribute_info(), one.get_event_attribute_info(), one.get_meta_attribute_info()):
            attributes.register(model.build_attr(["string", "spoilt", "x", []]))
        one.get_log_time_boundaries().register(model.model_datetime([1900, 1, 1, 0, 0, 0, 0, 0]))
    env["kept"].clear()
    env["infos"].clear()


def load_all():
    """Imports every module of the library; makes its shared objects."""
    root = os.path.dirname(importlib.import_module("opyenxes").__file__)
    for folder, _, files in sorted(os.walk(root)):
        for name in sorted(files):
            if name.endswith(".py") and name not in ("__init__.py", "cli.py"):
                path = os.path.relpath(os.path.join(folder, name), os.path.dirname(root))
                importlib.import_module(path[:-3].replace(os.sep, "."))
