"""The reference model of event logs: plain JSON-able values, no code of the
library. `build_*` turns a model into library objects through the public API,
`seen_*` reads library objects back into canonical tuples, `expected_*` computes
the canonical tuple a model stands for.

attribute  [type, key, value, [children]]
           type: string date int float boolean id list container
           value of date: [y, mo, d, h, mi, s, microsecond, offset minutes or None]
           value of list/container: how children are attached:
             "c" add_to_collection only, "m" attribute map only, "b" both
log        {"x": [extension prefixes], "gt": [attr], "ge": [attr],
            "c": [[name, [key]] or [name, [key], class]], "a": [attr], "t": [[[attr], [[attr], ...]], ...]}
"""
import io
import struct
from datetime import datetime, timedelta, timezone, tzinfo

from mc.core import Violation

STANDARD = {
    "concept": ("Concept", "http://www.xes-standard.org/concept.xesext"),
    "cost": ("Cost", "http://www.xes-standard.org/cost.xesext"),
    "identity": ("Identity", "http://www.xes-standard.org/identity.xesext"),
    "lifecycle": ("Lifecycle", "http://www.xes-standard.org/lifecycle.xesext"),
    "micro": ("Micro", "http://www.xes-standard.org/micro.xesext"),
    "org": ("Organizational", "http://www.xes-standard.org/org.xesext"),
    "semantic": ("Semantic", "http://www.xes-standard.org/semantic.xesext"),
    "time": ("Time", "http://www.xes-standard.org/time.xesext"),
}
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
COLLECTIONS = ("list", "container")


def model_datetime(value):
    y, mo, d, h, mi, s, us, offset = value
    zone = None if offset is None else timezone(timedelta(minutes=offset))
    return datetime(y, mo, d, h, mi, s, us, tzinfo=zone)


class SummerTime(tzinfo):
    """One hour ahead of UTC, and two hours in the summer of 2020 (up to 25 October, 01:00 UTC)."""
    SUMMER = (datetime(2020, 3, 29, 1), datetime(2020, 10, 25, 1))

    def utcoffset(self, when):
        wall = when.replace(tzinfo=None)
        start, end = (t + timedelta(hours=1) for t in self.SUMMER)
        # the clock goes from 02:00 to 03:00 in spring; the hour up to 03:00 comes twice in autumn
        summer = start <= wall < end or (end <= wall < end + timedelta(hours=1) and not when.fold)
        return timedelta(hours=2 if summer else 1)

    def dst(self, when):
        return self.utcoffset(when) - timedelta(hours=1)

    def tzname(self, when):
        return "S" if self.dst(when) else "W"

    def fromutc(self, when):
        wall = when.replace(tzinfo=None)
        summer = self.SUMMER[0] <= wall < self.SUMMER[1]
        again = self.SUMMER[1] <= wall < self.SUMMER[1] + timedelta(hours=1)
        return (wall + timedelta(hours=2 if summer else 1)).replace(tzinfo=self, fold=int(again))

    def __reduce__(self):
        return "SUMMER_TIME"

    def __deepcopy__(self, memo):
        return self


SUMMER_TIME = SummerTime()
# the instants 00:10, 00:40, 01:10 and 01:40 UTC: the wall clock shows 02:10 and 02:40 twice
TWICE = [datetime(2020, 10, 25, 2, minute, fold=fold, tzinfo=SUMMER_TIME) for fold in (0, 1) for minute in (10, 40)]


def microseconds(value):
    """Microseconds since the epoch, as a date without zone is in UTC; by integers only."""
    offset = value.utcoffset() or timedelta(0)
    return (value.replace(tzinfo=None, fold=0) - datetime(1970, 1, 1) - offset) // timedelta(microseconds=1)


def canon_datetime(value):
    """(milliseconds since the epoch, offset in minutes); naive means UTC."""
    if type(value) is not datetime:
        raise Violation("date value is a %s: %r" % (type(value).__name__, value))
    if value.tzinfo is None:
        value = value.replace(tzinfo=timezone.utc)
    return ((value - EPOCH) // timedelta(milliseconds=1), value.utcoffset() // timedelta(minutes=1))


def canon_value(kind, value):
    if kind == "date":
        return canon_datetime(model_datetime(value))
    if kind == "float":
        return struct.pack(">d", value).hex()
    if kind == "id":
        return str(value).lower()
    if kind in COLLECTIONS:
        return None
    return value


def by_key(children):
    return tuple(sorted(children, key=lambda c: c[1]))


def prefix_of(key, registered=STANDARD):
    if ":" in key and key[:key.index(":")] in registered:
        return key[:key.index(":")]
    return None


def linked_map(children, collection):
    """The map of a list or container: a child that is also in the collection
    is given by its rank among the children with its key (and not written out
    twice, which would double the form at every level)."""
    result = []
    for child, ranks in children:
        same_key = [c for c in collection if c[1] == child[1]]
        if ranks is None and child in same_key:
            ranks = len(same_key) - 1 - same_key[::-1].index(child)
        result.append(child if ranks is None else ("@", child[1], ranks))
    return by_key(result)


def last_by_key(canonical):
    return by_key({c[1]: c for c in canonical}.values())


def expected_attr(attr, registered=STANDARD):
    kind, key, value, children = attr
    below = [expected_attr(c, registered) for c in children]
    if kind in COLLECTIONS:
        counts = {}
        for child in below:
            counts[child[1]] = counts.get(child[1], -1) + 1
        map_part = linked_map([(child, counts[child[1]]) for child in {c[1]: c for c in below}.values()], below)
        collection = tuple(below) if kind == "list" else tuple(sorted(below, key=repr))
    else:
        map_part = last_by_key(below)
        collection = None
    return (kind, key, canon_value(kind, value), prefix_of(key, registered), map_part, collection)


def expected_attrs(attrs, registered=STANDARD):
    return last_by_key([expected_attr(a, registered) for a in attrs])


def expected_log(log, registered=STANDARD):
    return (tuple(sorted(registered[p] + (p,) for p in log.get("x", []))),
            tuple(expected_attr(a, registered) for a in log.get("gt", [])),
            tuple(expected_attr(a, registered) for a in log.get("ge", [])),
            tuple((name, tuple(keys)) for name, keys, *_ in log.get("c", [])),
            expected_attrs(log.get("a", []), registered),
            tuple((expected_attrs(attrs, registered), tuple(expected_attrs(e, registered) for e in events))
                  for attrs, events in log.get("t", [])))


# ---------------------------------------------------------------- library side

def kinds():
    from opyenxes.model.XAttributeLiteral import XAttributeLiteral
    from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
    from opyenxes.model.XAttributeDiscrete import XAttributeDiscrete
    from opyenxes.model.XAttributeContinuous import XAttributeContinuous
    from opyenxes.model.XAttributeBoolean import XAttributeBoolean
    from opyenxes.model.XAttributeID import XAttributeID
    from opyenxes.model.XAttributeList import XAttributeList
    from opyenxes.model.XAttributeContainer import XAttributeContainer
    return {"string": XAttributeLiteral, "date": XAttributeTimestamp, "int": XAttributeDiscrete,
            "float": XAttributeContinuous, "boolean": XAttributeBoolean, "id": XAttributeID,
            "list": XAttributeList, "container": XAttributeContainer}


VALUE_TYPES = {"string": str, "int": int, "float": float, "boolean": bool}
_kinds = []


def kind_of(attribute):
    if not _kinds:
        _kinds.extend(kinds().items())
    found = [kind for kind, cls in _kinds if isinstance(attribute, cls)]
    if len(found) != 1:
        raise Violation("not an attribute of one kind: %r" % (attribute,))
    return found[0]


def seen_value(kind, attribute):
    if kind in COLLECTIONS:
        return None
    value = attribute.get_value()
    if kind == "date":
        return canon_datetime(value)
    if kind == "id":
        from opyenxes.id.XID import XID
        if not isinstance(value, XID):
            raise Violation("id value is a %s" % type(value).__name__)
        return str(value.get_uuid())
    if type(value) is not VALUE_TYPES[kind]:
        raise Violation("%s value is a %s: %r" % (kind, type(value).__name__, value))
    return struct.pack(">d", value).hex() if kind == "float" else value


def seen_map(attributes):
    result = []
    for key, attribute in attributes.items():
        if key != attribute.get_key():
            raise Violation("attribute %r is stored under key %r" % (attribute.get_key(), key))
        result.append(seen_attr(attribute))
    return by_key(result)


def seen_attr(attribute):
    kind = kind_of(attribute)
    extension = attribute.get_extension()
    collection = None
    if kind in COLLECTIONS:
        ranks = {}
        seen = {}
        counts = {}
        collection = []
        for child in attribute.get_collection():
            if id(child) not in seen:
                seen[id(child)] = seen_attr(child)
            collection.append(seen[id(child)])
            counts[child.get_key()] = ranks[id(child)] = counts.get(child.get_key(), -1) + 1
        children = []
        for key, child in attribute.get_attributes().items():
            if key != child.get_key():
                raise Violation("attribute %r is stored under key %r" % (child.get_key(), key))
            children.append((seen[id(child)] if id(child) in seen else seen_attr(child), ranks.get(id(child))))
        map_part = linked_map(children, collection)
        collection = tuple(collection) if kind == "list" else tuple(sorted(collection, key=repr))
    else:
        map_part = seen_map(attribute.get_attributes())
    return (kind, attribute.get_key(), seen_value(kind, attribute),
            None if extension is None else extension.get_prefix(), map_part, collection)


def seen_log(log):
    return (tuple(sorted((e.get_name(), e.get_uri().geturl(), e.get_prefix()) for e in log.get_extensions())),
            tuple(seen_attr(a) for a in log.get_global_trace_attributes()),
            tuple(seen_attr(a) for a in log.get_global_event_attributes()),
            tuple((c.name(), tuple(c.get_defining_attribute_keys())) for c in log.get_classifiers()),
            seen_map(log.get_attributes()),
            tuple((seen_map(t.get_attributes()), tuple(seen_map(e.get_attributes()) for e in t)) for t in log))


def build_value(kind, value):
    if kind == "date":
        return model_datetime(value)
    if kind == "id":
        from opyenxes.id.XID import XID
        return XID.parse(value)
    if kind == "float":
        return float(value)
    return value


def build_attr(attr, factory=None):
    from opyenxes.extension.XExtensionManager import XExtensionManager
    if factory is None:
        from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
        factory = XFactoryRegistry().current_default()
    kind, key, value, children, *other = attr
    extension = XExtensionManager().get_by_prefix(key[:key.index(":")]) if ":" in key else None
    if other:
        extension = other[0] and XExtensionManager().get_by_prefix(other[0])
    if kind in COLLECTIONS:
        create = factory.create_attribute_list if kind == "list" else factory.create_attribute_container
        result = create(key, extension)
        for child in children:
            built = build_attr(child, factory)
            if value in ("c", "b"):
                result.add_to_collection(built)
            if value in ("m", "b"):
                result.get_attributes()[built.get_key()] = built
        return result
    create = {"string": factory.create_attribute_literal, "date": factory.create_attribute_timestamp,
              "int": factory.create_attribute_discrete, "float": factory.create_attribute_continuous,
              "boolean": factory.create_attribute_boolean, "id": factory.create_attribute_id}[kind]
    result = create(key, build_value(kind, value), extension)
    for child in children:
        built = build_attr(child, factory)
        result.get_attributes()[built.get_key()] = built
    return result


def put_attrs(element, attrs, factory=None):
    for attr in attrs:
        built = build_attr(attr, factory)
        element.get_attributes()[built.get_key()] = built
    return element


def build_event(attrs, factory=None):
    from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
    factory = factory or XFactoryRegistry().current_default()
    return put_attrs(factory.create_event(), attrs, factory)


def build_trace(attrs, events, factory=None):
    from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
    factory = factory or XFactoryRegistry().current_default()
    trace = put_attrs(factory.create_trace(), attrs, factory)
    for event in events:
        trace.append(build_event(event, factory))
    return trace


def special_classifier(which):
    """One of the classifiers that come with the library; a list stands for the
    conjunction of its members."""
    from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
    from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
    from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
    from opyenxes.classification.XEventLifeTransClassifier import XEventLifeTransClassifier
    if isinstance(which, list):
        return XEventAndClassifier([special_classifier(w) for w in which])
    return {"name": XEventNameClassifier, "resource": XEventResourceClassifier, "transition": XEventLifeTransClassifier}[which]()


def build_log(model, factory=None):
    from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    factory = factory or XFactoryRegistry().current_default()
    log = factory.create_log()
    for prefix in model.get("x", []):
        log.get_extensions().add(XExtensionManager().get_by_prefix(prefix))
    for attr in model.get("gt", []):
        log.get_global_trace_attributes().append(build_attr(attr, factory))
    for attr in model.get("ge", []):
        log.get_global_event_attributes().append(build_attr(attr, factory))
    for name, keys, *special in model.get("c", []):
        log.get_classifiers().append(special_classifier(special[0]) if special else XEventAttributeClassifier(name, list(keys)))
    put_attrs(log, model.get("a", []), factory)
    for attrs, events in model.get("t", []):
        log.append(build_trace(attrs, events, factory))
    return log


def size(model):
    """Number of operations that build a model."""
    def attrs(items):
        return sum(1 + attrs(a[3]) for a in items)
    return (len(model.get("x", [])) + len(model.get("c", [])) + attrs(model.get("gt", [])) +
            attrs(model.get("ge", [])) + attrs(model.get("a", [])) +
            sum(1 + attrs(t) + sum(1 + attrs(e) for e in events) for t, events in model.get("t", [])))


def write_xes(log):
    from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
    out = io.StringIO()
    XesXmlSerializer().serialize(log, out)
    return out.getvalue()


def read_xes(text):
    from opyenxes.data_in.XesXmlParser import XesXmlParser
    stream = io.BytesIO(text) if isinstance(text, bytes) else io.StringIO(text)
    logs = XesXmlParser().parse(stream)
    if len(logs) != 1:
        raise Violation("reading one XES document gave %d logs" % len(logs))
    return logs[0]
