"""P41: a log that is copied by the copy module, or sent to another process, arrives as it is and shares nothing."""
import copy
import itertools
import os
import pickle
import subprocess
import sys
from mc import apart, core, model, origin, shared, spaces, values
from mc.core import Family, isolated, same, expect
from mc.logspaces import structure_spaces
from mc.props.p09 import APART, RICH, attributes, build, elements, foreign, foreign_cases, full

LEVEL = "model_checking"
ASSUMPTIONS = ["the attributes by which extensions define theirs are no elements of logs (their copies are)"]
WAYS = dict([("deepcopy", copy.deepcopy)] + [("pickle %d" % n, lambda one, n=n: pickle.loads(pickle.dumps(one, n)))
                                             for n in range(2, pickle.HIGHEST_PROTOCOL + 1)])


def ids(log):
    return [[str(e.get_id()) for e in t] for t in log]


def document(log):
    """The extensions are a set and come in any order."""
    lines = model.write_xes(log).split("\n")
    return [sorted(line for line in lines if line.startswith("\t<extension ")), [line for line in lines if not line.startswith("\t<extension ")]]


def extensions(log):
    return [a.get_extension() for a in attributes(log)]


def copied(ctx, log_model, ways=None, parts=True, log=None):
    from opyenxes.extension.XExtensionManager import XExtensionManager
    log = build(log_model) if log is None else log
    before, known, text = full(log), ids(log), document(log)
    ctx.state(repr(before))
    for way in ways or WAYS:
        make = WAYS[way]
        other = make(log)
        same(full(other), before, "log after " + way)
        same(full(log), before, "original after " + way)
        same(type(other), type(log), "type after " + way)
        same(ids(other), known, "event ids after " + way)
        expect(all(a == b and not a != b and hash(a) == hash(b) for x, y in zip(log, other) for a, b in zip(x, y)), "events differ after", way)
        expect(all(a == b and hash(a) == hash(b) for a, b in zip(log, other)), "traces differ after", way)
        same(document(other), text, "document of the log after " + way)
        expect(extensions(other) == extensions(log) and other.get_extensions() == log.get_extensions(), "extensions differ after", way)
        same(full(other.clone()), before, "clone after " + way)
        for element, its in zip(elements(log), elements(other)):
            expect(element.get_extensions() == its.get_extensions(), "extensions of an element differ after", way)
            if parts:
                part = make(element)
                same((type(part), model.seen_map(part.get_attributes())), (type(element), model.seen_map(element.get_attributes())), "element after " + way)
                same(model.seen_map(make(element.get_attributes())), model.seen_map(element.get_attributes()), "attribute map after " + way)
                ctx.step(2)
        for attribute, its in zip(attributes(log), attributes(other)):
            expect(attribute == its and not attribute != its and hash(attribute) == hash(its) and type(attribute) is type(its) and str(attribute) == str(its),
                   "attribute", attribute.get_key(), "differs after", way)
            if parts:
                same(model.seen_attr(make(attribute)), model.seen_attr(attribute), "attribute after " + way)
                ctx.step()
        for classifier, its in zip(log.get_classifiers(), other.get_classifiers()):
            expect(classifier == its and hash(classifier) == hash(its) and type(classifier) is type(its), "classifier differs after", way)
            expect(make(classifier) == classifier, "classifier by itself differs after", way)
            for trace in other:
                for event in trace:
                    same(its.get_class_identity(event), classifier.get_class_identity(event), "class after " + way)
        for prefix in spaces.PREFIXES:
            one = XExtensionManager().get_by_prefix(prefix)
            expect(one is type(one)() and make(one) == one, "the standard extension", prefix, "after", way)
        ctx.step(9)


def pattern(log):
    """Which of the parts of a log are the same objects."""
    parts = [e for e in elements(log)] + list(attributes(log)) + [e.get_attributes() for e in elements(log)] + [a.get_attributes() for a in attributes(log)]
    first = {}
    return [first.setdefault(id(p), i) for i, p in enumerate(parts)]


def copied_shared(ctx, log_model, log):
    ways = ["deepcopy", "pickle 2", "pickle 4"]
    copied(ctx, log_model, ways, False, log)
    for way in ways:
        same(pattern(WAYS[way](log)), pattern(log), "parts that are the same objects after " + way)
        ctx.step()


def apart_cases(most):
    for n in range(most + 1):
        for chosen in itertools.combinations(range(len(APART)), n):
            for events in ([0], [2], [2, 1]):
                for way in WAYS:
                    yield [list(chosen), events, way]


def elements_apart(ctx, case):
    chosen, events, way = case
    attrs = [APART[i] for i in chosen]
    log = build({"x": ["concept"], "gt": attrs, "ge": attrs, "c": [], "a": attrs, "t": [[attrs, [attrs] * k] for k in events]})
    other = WAYS[way](log)
    same(full(other), full(log), "log after " + way)
    apart.check(ctx, [log, other], "the log and the one after " + way)


def summarised(ctx, case):
    """A summary, its log and their copies belong together."""
    from opyenxes.info.XLogInfo import XLogInfo
    from opyenxes.info.XLogInfoFactory import XLogInfoFactory
    from mc import looks
    way, kept, by = case
    log = build(RICH)
    classifier = None if by is None else log.get_classifiers()[by]
    info = XLogInfoFactory.create_log_info(log, classifier)
    content = full(log)
    before = looks.summary(info, log)
    other = WAYS[way](log if kept == "log" else info)
    same(full(log), content, "log after its summary after " + way)
    its = XLogInfoFactory.create_log_info(other, classifier) if kept == "log" else other
    expect(its is not info, "the summary of the log after", way, "is that of the original")
    same(looks.summary(its, its.get_log()), before, "summary after " + way)
    expect(its.get_log() is not log and (kept != "log" or its.get_log() is other), "the summary after", way, "describes another log")
    same(full(its.get_log()), content, "log of the summary after " + way)
    log.append(log[0].clone())
    same(looks.summary(XLogInfo.create(its.get_log(), *([] if classifier is None else [classifier])), its.get_log()), before, "new summary after " + way)
    ctx.step(4)
    ctx.state(repr((case, before)))


def dates(ctx, case):
    """Dates without zone, and in the hour that comes twice."""
    from opyenxes.factory.XFactory import XFactory
    from datetime import datetime
    # the elder protocols of pickle do not know which of two equal hours a date is in
    pool = (model.TWICE if case in ("deepcopy", "pickle 4", "pickle 5") else model.TWICE[:2]) + [datetime(2020, 10, 25, 2, 10), datetime(1, 1, 1), datetime.max]
    event = XFactory.create_event()
    for n, date in enumerate(pool):
        event.get_attributes()[str(n)] = XFactory.create_attribute_timestamp(str(n), date, None)
    other = WAYS[case](event)
    for n, date in enumerate(pool):
        seen = other.get_attributes()[str(n)]
        same((model.canon_datetime(seen.get_value()), seen.get_value().tzinfo is None, str(seen)),
             (model.canon_datetime(date), date.tzinfo is None, str(event.get_attributes()[str(n)])), "date after " + case)
        expect(seen == event.get_attributes()[str(n)], "date", date, "is not equal after", case)
        ctx.step()
    ctx.state(case)


def own_log(registered):
    """A log with an extension of one's own, which is registered or not."""
    from urllib.parse import urlparse
    from opyenxes.extension.XExtension import XExtension
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.factory.XFactory import XFactory
    one = XExtension("Own %d" % registered, "own%d" % registered, urlparse("http://own.org/%d" % registered))
    one.get_event_attributes().add(XFactory.create_attribute_literal("own%d:k" % registered, "v", one))
    if registered:
        XExtensionManager().register(one)
    log = build(RICH)
    log.get_extensions().add(one)
    for element in [log, log[0], log[0][0]]:
        element.get_attributes()["own%d:k" % registered] = XFactory.create_attribute_discrete("own%d:k" % registered, 5, one)
        element.get_attributes()["plain"] = XFactory.create_attribute_literal("plain", "x", one)
    return log


def own(ctx, case):
    way, registered = case
    log = own_log(registered)
    other = WAYS[way](log)
    same(full(other), full(log), "log after " + way)
    expect(other.get_extensions() == log.get_extensions() and other[0][0].get_extensions() == log[0][0].get_extensions(), "extensions after", way)
    for one in other.get_extensions():
        if one.get_prefix().startswith("own"):
            same([(a.get_key(), a.get_value(), a.get_extension().get_name()) for a in one.get_defined_attributes()],
                 [("own%d:k" % registered, "v", "Own %d" % registered)], "what the extension defines after " + way)
    ctx.step(3)
    ctx.state(repr(case))


def sent(ctx, case):
    """There and back, through an interpreter with other hashes."""
    protocol, seed, back = case
    models = [RICH] + [spaces.position_log(c) for c in itertools.islice(spaces.position_cases(2), 0, None, 9)] + [spaces.shape_log(c) for c in spaces.shape_cases(2, 2)]
    logs = [build(m) for m in models] + [own_log(n) for n in (0, 1)]
    wanted = [(model.seen_log(log), dict(log.get_features()), ids(log), document(log)) for log in logs]
    source, target = os.path.join(ctx.scratch, "sent"), os.path.join(ctx.scratch, "answer")
    with open(source, "wb") as out:
        pickle.dump(logs, out, protocol)
    if os.path.exists(target):
        os.remove(target)
    done = subprocess.run([sys.executable, "-B", os.path.join(core.VERIF, "mc", "other.py"), core.REPO, source, target, str(back)],
                          env=dict(os.environ, PYTHONHASHSEED=seed), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    expect(os.path.exists(target), "the other interpreter failed:", done.stderr.decode("utf-8", "replace")[-400:])
    with open(target, "rb") as stream:
        answer, returned = pickle.load(stream)
    returned = pickle.loads(returned)
    same(len(answer), len(wanted), "logs that arrived")
    for n, log in enumerate(logs):
        same(answer[n], wanted[n], "log in the other interpreter")
        same(full(returned[n]), full(log), "log that came back")
        expect(all(a == b and hash(a) == hash(b) for x, y in zip(log, returned[n]) for a, b in zip(x, y)), "events that came back differ")
        expect(extensions(returned[n]) == extensions(log), "extensions of what came back")
        expect(list(log.get_classifiers()) == list(returned[n].get_classifiers()), "classifiers that came back")
        ctx.step(5)
        ctx.state(repr((case, n)))


def families(tier):
    quick = tier == "quick"
    result = [values.sent(tier), shared.family(copied_shared, quick), origin.family(copied_shared), Family("elements-apart", lambda _: apart_cases(1 if quick else 3), elements_apart),
              Family("rich-log", lambda _: [[way] for way in WAYS], lambda ctx, c: copied(ctx, RICH, c)),
              Family("all-kinds", lambda _: list(spaces.KINDS), lambda ctx, k: copied(
                  ctx, spaces.host("event", [spaces.attr(k, "k", [spaces.attr(k2, "n" + k2) for k2 in spaces.KINDS])]))),
              Family("summaries", lambda _: itertools.product(WAYS, ("log", "info"), [None] + list(range(len(RICH["c"])))), summarised),
              Family("dates", lambda _: list(WAYS), dates),
              Family("other-interpreters", lambda _: itertools.product(range(2, pickle.HIGHEST_PROTOCOL + 1), ("0", "1") if quick else map(str, range(8)),
                                                                       (2, 4) if quick else range(2, 6)), lambda ctx, c: isolated(ctx, sent, c))]
    some = ["deepcopy", "pickle 2", "pickle 4"] if quick else list(WAYS)
    result.append(Family("extensions-of-attributes", lambda _: foreign_cases(), lambda ctx, c: copied(ctx, foreign(c), some, False)))
    result.append(Family("own-extensions", lambda _: itertools.product(WAYS, (0, 1)), lambda ctx, c: isolated(ctx, own, c)))
    for name, cases, log_of in structure_spaces(tier):
        if name == "positions":
            cases = lambda: spaces.position_cases(2 if quick else 3)  # noqa: E731
        if name == "attribute-trees":
            cases = lambda: spaces.tree_cases(3 if quick else 4)  # noqa: E731
        result.append(Family(name, lambda _, cases=cases: cases(), lambda ctx, case, log_of=log_of: copied(ctx, log_of(case), some, False)))
    return result
