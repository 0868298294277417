"""Reference reading and writing of MXML documents, as trees
[tag, {attributes}, [children] or text]."""
import xml.etree.ElementTree as Et

from mc import model, xesdoc
from mc.model import by_key
from mc.core import Violation

KNOWN = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort",
         "complete", "autoskip", "manualskip"]
EXTENSIONS = tuple(sorted(model.STANDARD[p] + (p,) for p in ("concept", "org", "lifecycle", "semantic", "time")))
CLASSIFIERS = (("MXML Legacy Classifier", ("concept:name", "lifecycle:transition")), ("Event Name", ("concept:name",)),
               ("Resource", ("org:resource",)))


def literal(key, value, prefix=None, below=()):
    return ("string", key, value, prefix, by_key(below), None)


GLOBAL_TRACE = (literal("concept:name", "UNKNOWN", "concept"),)
GLOBAL_EVENT = (literal("concept:name", "UNKNOWN", "concept"), literal("lifecycle:transition", "complete", "lifecycle"))


def reference_of(attributes):
    if attributes.get("modelReference"):
        return [literal("semantic:modelReference", attributes["modelReference"], "semantic")]
    return []


def put(target, attribute):
    target[attribute[1]] = attribute


def put_data(node, target):
    for tag, attributes, content in node[2]:
        if tag.lower() == "attribute":
            text = "" if isinstance(content, list) else content.strip()
            if text:
                put(target, literal(attributes["name"].strip(), text, None, reference_of(attributes)))


def text_of(content):
    return "" if isinstance(content, list) else content.strip()


def put_references(target, attributes):
    for attribute in reference_of(attributes):
        put(target, attribute)


def entry(node):
    seen = {}
    for child in node[2]:
        tag, attributes, content = child
        tag = tag.lower()
        text = text_of(content)
        if tag == "data":
            put_data(child, seen)
        elif tag == "workflowmodelelement":
            put_references(seen, attributes)
            if text:
                put(seen, literal("concept:name", text, "concept"))
        elif tag == "eventtype":
            value = attributes.get("unknowntype") or attributes.get("unknownType") or text
            if value:
                put(seen, literal("lifecycle:transition", value, "lifecycle", reference_of(attributes)))
        elif tag == "originator":
            put(seen, literal("org:resource", text or "UNKNOWN", "org", reference_of(attributes)))
        elif tag == "timestamp":
            value = xesdoc.date_value(text)
            if value is not None:
                put(seen, ("date", "time:timestamp", model.canon_value("date", value), "time", (), None))
    return by_key(seen.values())


def reference(root):
    """Canonical logs (as model.seen_log) that a document stands for."""
    logs = []
    source = None
    for node in root[2]:
        tag, attributes, content = node
        tag = tag.lower()
        if tag == "source":
            nested = {a[1]: a for a in reference_of(attributes)}
            for child in content:
                if child[0].lower() == "data":
                    put_data(child, nested)
            source = literal("source", attributes["program"], None, nested.values())
        elif tag == "process":
            seen = {}
            if source:
                put(seen, source)
            if (attributes.get("id") or "").strip():
                put(seen, literal("concept:name", attributes["id"], "concept"))
            put(seen, literal("lifecycle:model", "standard", "lifecycle"))
            if attributes.get("description"):
                put(seen, literal("description", attributes["description"]))
            put_references(seen, attributes)
            traces = []
            for child in content:
                if child[0].lower() == "data":
                    put_data(child, seen)
                elif child[0].lower() == "processinstance":
                    trace = instance(child)
                    if trace[1]:
                        traces.append(trace)
            logs.append((EXTENSIONS, GLOBAL_TRACE, GLOBAL_EVENT, CLASSIFIERS, by_key(seen.values()), tuple(traces)))
    return logs


def instance(node):
    _, attributes, content = node
    seen = {}
    if attributes.get("id", "None").strip():
        put(seen, literal("concept:name", attributes.get("id", "None"), "concept"))
    if attributes.get("description", "").strip():
        put(seen, literal("description", attributes["description"]))
    put_references(seen, attributes)
    events = []
    for child in content:
        if child[0].lower() == "data":
            put_data(child, seen)
        elif child[0].lower() == "audittrailentry":
            events.append(entry(child))
    return (by_key(seen.values()), tuple(events))


# -------------------------------------------------------------------- writing

def text(attr):
    """The text that stands for the value of a model attribute."""
    kind, _, value, children = attr
    if kind == "string":
        return value
    if kind == "boolean":
        return "true" if value else "false"
    if kind == "date":
        y, mo, d, h, mi, s, us, offset = value
        zone = "Z" if not offset else "%s%02d:%02d" % ("-" if offset < 0 else "+", abs(offset) // 60, abs(offset) % 60)
        return "%04d-%02d-%02dT%02d:%02d:%02d.%03d%s" % (y, mo, d, h, mi, s, us // 1000, zone)
    if kind == "float":
        return repr(float(value))
    if kind in ("list", "container"):
        # the text of a collection is made of the children added to the collection
        return "[" + ",".join(c[1] + ":" + text(c) for c in children if value != "m") + "]"
    return value.upper() if kind == "id" else str(value)


def find(attrs, key):
    found = [a for a in attrs if a[1] == key]
    return found[-1] if found else None


def with_reference(attrs, attributes):
    reference_attr = find(attrs, "semantic:modelReference")
    if reference_attr:
        attributes["modelReference"] = text(reference_attr)
    return attributes


def last_of_each(attrs):
    return {a[1]: a for a in attrs}.values()


def flat(attrs, prefix=""):
    for attr in last_of_each(attrs):
        if attr[1] != "semantic:modelReference":
            yield ["Attribute", with_reference(attr[3], {"name": prefix + attr[1]}), text(attr)]
            # and the nested attributes are those in the map
            if not (attr[0] in ("list", "container") and attr[2] == "c"):
                yield from flat(attr[3], prefix + attr[1] + ":")


def data(attrs):
    return ["Data", {}, list(flat(attrs))]


def document(log):
    name = find(log.get("a", []), "concept:name")
    process = ["Process", with_reference(log.get("a", []), {
        "id": text(name) if name else "none", "description": "process with id " + (text(name) if name else "None")}),
        [data(log.get("a", []))]]
    for attrs, events in log.get("t", []):
        name = find(attrs, "concept:name")
        name = text(name) if name else "None"
        node = ["ProcessInstance", with_reference(attrs, {"id": name, "description": "instance with id " + name}),
                [data(attrs)]]
        for event in events:
            parts = [data(event)]
            name = find(event, "concept:name")
            parts.append(["WorkflowModelElement", with_reference(event, {}), text(name) if name else ""])
            transition = find(event, "lifecycle:transition")
            if transition is None:
                parts.append(["EventType", {}, "complete"])
            elif text(transition).strip().lower() in KNOWN:
                parts.append(["EventType", with_reference(transition[3], {}), text(transition).strip().lower()])
            else:
                parts.append(["EventType", with_reference(transition[3], {"unknowntype": text(transition)}), "unknown"])
            originator = find(event, "org:resource") or find(event, "org:role") or find(event, "org:group")
            if originator:
                parts.append(["Originator", with_reference(originator[3], {}), text(originator)])
            stamp = find(event, "time:timestamp")
            if stamp:
                parts.append(["Timestamp", with_reference(stamp[3], {}), text(stamp)])
            node[2].append(["AuditTrailEntry", {}, parts])
        process[2].append(node)
    return ["WorkflowLog", {}, [["Source", {"program": "XES MXML serialization", "openxes.version": "1.0RC7"}, []], process]]


def parse_tree(data_bytes):
    """The document as a tree, read by xml.etree."""
    try:
        root = Et.fromstring(data_bytes)
    except Et.ParseError as error:
        raise Violation("written document is not well-formed: %s" % error)
    return tree(root)


def tree(element):
    children = [tree(c) for c in element]
    content = children if children else (element.text or "")
    return [element.tag, dict(element.attrib), content]


def stripped(node):
    """Tree with the white space around texts removed; no text and no children
    are the same."""
    tag, attributes, content = node
    if isinstance(content, list):
        return [tag, attributes, [stripped(c) for c in content] or ""]
    return [tag, attributes, content.strip()]


def escape(value):
    for a, b in (("&", "&amp;"), ("<", "&lt;"), (">", "&gt;"), ('"', "&quot;"), ("\t", "&#9;"), ("\n", "&#10;"), ("\r", "&#13;")):
        value = value.replace(a, b)
    return value


def render(node, between="", case=None):
    tag, attributes, content = node
    tag = case(tag) if case else tag
    head = "<" + tag + "".join(' %s="%s"' % (k, escape(v)) for k, v in attributes.items()) + ">"
    inner = escape(content) if not isinstance(content, list) else (
        between + "".join(render(c, between, case) + between for c in content))
    return head + inner + "</" + tag + ">"
