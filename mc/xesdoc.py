"""Independent reading of XES documents: `strict` is a conformance check of a
written document and the log model it stands for; `reference` says which log a
document tree [tag, {attributes}, [children]] stands for when read leniently."""
import datetime
import re
import xml.etree.ElementTree as Et

from mc.core import Violation
from mc.model import expected_log

DATE = re.compile(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z|[+-]\d\d:\d\d)?\Z", re.A)
LEXICAL = {
    "int": re.compile(r"[+-]?[0-9]+\Z"),
    "float": re.compile(r"([+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|-?INF|NaN)\Z"),
    "boolean": re.compile(r"(true|false|1|0)\Z"),
    "id": re.compile(r"[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}\Z"),
    "date": DATE,
    "string": re.compile(r".*\Z", re.S),
}
ATTRIBUTES = set(LEXICAL) | {"list", "container"}
ORDER = ["extension", "global", "classifier", "attribute", "trace"]


def fail(*message):
    raise Violation("written document: " + " ".join(m if isinstance(m, str) else repr(m) for m in message))


def date_value(text):
    """Model value of an xs:dateTime text, or None."""
    match = DATE.match(text.strip(" \t\r\n"))
    if not match:
        return None
    y, mo, d, h, mi, s = (int(match.group(i)) for i in range(1, 7))
    us = int(((match.group(7) or ".0")[1:] + "000000")[:6])
    zone = match.group(8)
    offset = None if zone is None else 0 if zone == "Z" else (
        (1 if zone[0] == "+" else -1) * (int(zone[1:3]) * 60 + int(zone[4:])))
    if abs(offset or 0) >= 1440:
        return None
    try:
        if h == 24 and mi == s == 0 and not (match.group(7) or "").strip(".0"):
            # the end of the day
            after = datetime.datetime(y, mo, d) + datetime.timedelta(days=1)
            y, mo, d, h = after.year, after.month, after.day, 0
        datetime.datetime(y, mo, d, h, mi, s, us)
    except (ValueError, OverflowError):
        return None
    return [y, mo, d, h, mi, s, us, offset]


def value_of(kind, text):
    if kind == "int":
        return int(text)
    if kind == "float":
        return float(text)
    if kind == "boolean":
        return text in ("true", "1")
    if kind == "date":
        return date_value(text)
    return text


def only(element, *names):
    for name in element.keys():
        if name not in names:
            fail("attribute", name, "of element", element.tag)
    if (element.text or "").strip() or (element.tail or "").strip():
        fail("text in or after element", element.tag)


def strict_attribute(element):
    kind = element.tag
    if kind in ("list", "container"):
        only(element, "key")
        value = "b"
    else:
        only(element, "key", "value")
        text = element.get("value")
        if text is None:
            fail("no value in element", kind)
        if not LEXICAL[kind].match(text):
            fail("value", text, "is not of type", kind)
        value = value_of(kind, text)
        if value is None:
            fail("unreadable date", text)
    if element.get("key") is None:
        fail("no key in element", kind)
    return [kind, element.get("key"), value, [strict_attribute(c) for c in checked(element, ["attribute"])]]


def checked(element, order):
    position = 0
    for child in element:
        if not isinstance(child.tag, str):
            continue
        rank = "attribute" if child.tag in ATTRIBUTES else child.tag
        if rank not in order:
            fail("element", child.tag, "in", element.tag)
        if order.index(rank) < position:
            fail("element", child.tag, "comes too late in", element.tag)
        position = order.index(rank)
        yield child


def strict(text):
    data = text if isinstance(text, bytes) else text.encode("utf-8")
    try:
        root = Et.fromstring(data)
    except Et.ParseError as error:
        fail("not well-formed:", str(error))
    if root.tag != "log":
        fail("root element", root.tag)
    if not re.match(r"[0-9]+(\.[0-9]+)?\Z", root.get("xes.version", "")):
        fail("xes.version", root.get("xes.version"))
    only(root, "xes.version", "xes.features", "openxes.version")
    log = {"x": [], "gt": [], "ge": [], "c": [], "a": [], "t": []}
    names = []
    for child in checked(root, ORDER):
        if child.tag == "extension":
            only(child, "name", "prefix", "uri")
            log["x"].append(child.get("prefix"))
            names.append((child.get("name"), child.get("uri"), child.get("prefix")))
        elif child.tag == "global":
            only(child, "scope")
            scope = {"trace": "gt", "event": "ge"}.get(child.get("scope"))
            if scope is None or log[scope]:
                fail("scope", child.get("scope"))
            log[scope] = [strict_attribute(c) for c in checked(child, ["attribute"])]
        elif child.tag == "classifier":
            only(child, "name", "keys")
            log["c"].append([child.get("name"), tokens(child.get("keys"))])
        elif child.tag == "trace":
            only(child)
            attrs, events = [], []
            for part in checked(child, ["attribute", "event"]):
                if part.tag == "event":
                    only(part)
                    events.append([strict_attribute(c) for c in checked(part, ["attribute"])])
                else:
                    attrs.append(strict_attribute(part))
            log["t"].append([attrs, events])
        else:
            log["a"].append(strict_attribute(child))
    for what, attrs in attribute_sets(log):
        keys = [a[1] for a in attrs]
        if len(set(keys)) < len(keys):
            fail("two attributes with one key:", what, keys)
    return log, tuple(sorted(names))


def attribute_sets(log):
    yield "log", log.get("a", [])
    for attrs, events in log.get("t", []):
        yield "trace", attrs
        for event in events:
            yield "event", event


def tokens(text):
    """Whitespace separated; single quotes enclose; a backslash takes the next
    character as it is."""
    result, token, quoted, started, escaped = [], "", False, False, False
    for c in text:
        if escaped:
            token, escaped, started = token + c, False, True
        elif c == "\\":
            escaped = True
        elif c == "'":
            quoted, started = not quoted, True
        elif c in " \t\n\r\f\v" and not quoted:
            if token.strip():
                result.append(token)
            token, started = "", False
        else:
            token, started = token + c, True
    if token.strip():
        result.append(token)
    return result


# ------------------------------------------------------------ lenient reading

def reference_attribute(node):
    tag, attributes, children = node
    kind = tag.lower()
    key = attributes.get("key", "UNKNOWN")
    text = attributes.get("value", "")
    below = reference_attributes(children)
    if kind in ("list", "container"):
        return [kind, key, "b", below]
    if kind == "string":
        return [kind, key, text, below]
    text = text.strip(" \t\r\n")
    if kind == "date":
        value = date_value(text)
        return None if value is None else [kind, key, value, below]
    if kind == "boolean":
        return [kind, key, text.lower() in ("true", "1"), below]
    if kind == "id":
        return [kind, key, text, below]
    return [kind, key, value_of(kind, text), below]


def reference_attributes(nodes):
    result = [reference_attribute(n) for n in nodes if n[0].lower() in ATTRIBUTES]
    return [a for a in result if a is not None]


def reference(root, by_uri):
    """(log model, features) of a document tree. `by_uri`: prefix of the
    registered extensions by their URI."""
    log = {"x": [], "gt": [], "ge": [], "c": [], "a": reference_attributes(root[2]), "t": []}
    for tag, attributes, children in root[2]:
        tag = tag.lower()
        if tag == "extension":
            prefix = attributes.get("prefix")
            if prefix is None:
                prefix = by_uri.get(attributes.get("uri"))
            if prefix in by_uri.values() and prefix not in log["x"]:
                log["x"].append(prefix)
        elif tag == "global":
            log[{"trace": "gt", "event": "ge"}[attributes["scope"].lower()]].extend(reference_attributes(children))
        elif tag == "classifier":
            if attributes.get("name") and attributes.get("keys"):
                log["c"].append([attributes["name"], tokens(attributes["keys"])])
        elif tag == "trace":
            events = [reference_attributes(c[2]) for c in children if c[0].lower() == "event"]
            log["t"].append([reference_attributes(children), events])
    features = {k: v for k, v in root[1].items() if k.startswith("xes.") or k.startswith("openxes.")}
    return log, features


def expected(log):
    return expected_log(log)
