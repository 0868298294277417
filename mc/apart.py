"""The elements of one log are apart: what is changed in one is not seen in any other."""
from mc import model, spaces
from mc.core import Violation
from mc.model import COLLECTIONS


def below(path, attribute):
    yield path, attribute
    yield from inside(path, attribute)


def inside(path, element):
    attributes = element.get_attributes()
    for key, child in attributes.items():
        yield from below(path + (("attribute", key),), child)
    if hasattr(element, "get_collection"):
        known = {id(a) for a in attributes.values()}
        for n, child in enumerate(element.get_collection()):
            if id(child) not in known:
                yield from below(path + (("member", n),), child)


def places(log, start=()):
    """[(path, object)] of everything that has attributes."""
    found = [(start, log)] + list(inside(start, log))
    for n, trace in enumerate(log):
        at = start + (("trace", n),)
        found.append((at, trace))
        found.extend(inside(at, trace))
        for m, event in enumerate(trace):
            found.append((at + (("event", m),), event))
            found.extend(inside(at + (("event", m),), event))
    for name, some in (("global of traces", log.get_global_trace_attributes()), ("global of events", log.get_global_event_attributes())):
        for n, attribute in enumerate(some):
            found.extend(below(start + ((name, n),), attribute))
    return found


def alone(element):
    """What belongs to an element itself, without what is nested in it."""
    seen = [sorted(element.get_attributes())]
    if isinstance(element, list):
        seen.append(len(element))
        if hasattr(element, "get_classifiers"):
            seen.append([(c.name(), list(c.get_defining_attribute_keys())) for c in element.get_classifiers()])
            seen.append(sorted(e.get_name() for e in element.get_extensions()))
            seen.append(dict(element.get_features()))
            seen.append([len(element.get_global_trace_attributes()), len(element.get_global_event_attributes())])
    elif hasattr(element, "get_key"):
        kind = model.kind_of(element)
        seen.extend([kind, element.get_key(), model.seen_value(kind, element)])
        if kind in COLLECTIONS:
            seen.append([a.get_key() for a in element.get_collection()])
    else:
        seen.append(str(element.get_id()))
    return seen


def changes(element):
    """Every kind of change of one element."""
    from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
    from opyenxes.extension.XExtension import XExtension
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.id.XID import XID
    from urllib.parse import urlparse

    def new():
        return XFactory.create_attribute_literal("~new", "new", None)

    yield "a new attribute", lambda: element.get_attributes().__setitem__("~new", new())
    if hasattr(element, "get_classifiers"):
        yield "a new trace", lambda: element.append(XFactory.create_trace())
        yield "a new classifier", lambda: element.get_classifiers().append(XEventNameClassifier())
        yield "a new extension", lambda: element.get_extensions().add(XExtension("E", "e", urlparse("http://e")))
        yield "a new feature", lambda: element.set_features("~new", "1")
        yield "new globals", lambda: (element.get_global_trace_attributes().append(new()), element.get_global_event_attributes().append(new()))
    elif isinstance(element, list):
        yield "a new event", lambda: element.append(XFactory.create_event())
    elif hasattr(element, "get_key"):
        kind = model.kind_of(element)
        if kind == "id":
            # before the value is replaced
            yield "a new uuid", lambda: element.get_value().set_uuid(XID().get_uuid())
        if kind in COLLECTIONS:
            yield "a new member", lambda: element.add_to_collection(new())
        else:
            yield "a new value", lambda: element.set_value(model.build_value(kind, spaces.OTHER[kind]))
    else:
        yield "a new id", lambda: element.set_id(XID())
    yield "no attributes", lambda: element.get_attributes().clear()


def check(ctx, logs, what):
    """Changes every element of the logs in every way; nothing outside of it may change."""
    found = [place for n, log in enumerate(logs) for place in places(log, (("log", n),))]
    # what is nested last, before what it is nested in is emptied
    for path, element in sorted(found, key=lambda p: -len(p[0])):
        for name, action in changes(element):
            before = [(q, one, repr(alone(one))) for q, one in found if q[:len(path)] != path]
            here = repr(alone(element))
            action()
            ctx.step()
            for q, one, seen in before:
                if repr(alone(one)) != seen:
                    raise Violation("%s of %s changes %s in %s: %s, before %s" % (name, path, q, what, repr(alone(one)), seen))
            if name not in ("no attributes", "a new value") and repr(alone(element)) == here:
                raise Violation("%s of %s in %s is lost" % (name, path, what))
            ctx.state(repr((what, path, name)))
