"""P31: the summary kept for a log is the one of this log and this classifier."""
import itertools
from mc import model, spaces
from mc.core import Family, same, expect
from mc.props.p14 import EVENTS, classes_of, key_of, seen_classes

LEVEL = "model_checking"
ASSUMPTIONS = ["the logs are not changed after their first summary"]
LEGACY = ("MXML Legacy Classifier", ("concept:name", "lifecycle:transition"))
# the third equals the first, the fourth has its name, the fifth its keys
POOL = [("A", ("a",)), ("B", ("concept:name", "a")), ("A", ("a",)), ("A", ("org:resource",)), ("C", ("a",)), ("Event Name", ("concept:name",)), None]
LOGS = [{"t": [[[], [EVENTS[1], EVENTS[3], EVENTS[4]]], [[], [EVENTS[5], EVENTS[5]]]]}, {"t": [[[], [EVENTS[2], EVENTS[4]]]]}]
SMALL = LOGS + [{"t": []}, {"t": [[[], []]]}, {"t": [[[], [EVENTS[0]]]]}]


def classifier(number):
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    return None if POOL[number] is None else XEventAttributeClassifier(POOL[number][0], list(POOL[number][1]))


def right(ctx, info, log, content, key):
    expect(info.get_log() is log, "the summary is one of another log")
    same(key_of(info.get_event_classes().get_classifier()), key, "classifier of the summary")
    same(seen_classes(info.get_event_classes()), classes_of(content, key[1]), "classes of the summary")
    same((info.get_number_of_traces(), info.get_number_of_event()), (len(content["t"]), sum(len(e) for _, e in content["t"])), "counts")
    ctx.step()


def run(ctx, ops):
    from opyenxes.info.XLogInfo import XLogInfo
    from opyenxes.info.XLogInfoFactory import XLogInfoFactory
    logs = [model.build_log(m) for m in LOGS]
    contents = list(LOGS)
    last = [None, None]             # key and summary kept last
    given_out = []
    for op in ops:
        what, number = op // len(POOL), op % len(POOL)
        given = classifier(number)
        key = POOL[number] or LEGACY
        if what < 2:
            info = XLogInfoFactory.create_log_info(logs[what], given)
            given_out.append((info, logs[what], contents[what], key))
            right(ctx, *given_out[-1])
            if last[what] is not None and last[what][0] == key:
                expect(info is last[what][1], "a second summary for the same classifier was made")
            expect(XLogInfoFactory.create_log_info(logs[what], classifier(number)) is info, "asked again, another summary was made")
            last[what] = (key, info)
        elif what == 2 and given is not None:
            info = XLogInfo.create(logs[0], given)
            logs[0].set_info(given, info)
            last[0] = (key, info)
        elif what == 3:
            logs[1] = logs[0].clone()
            contents[1] = contents[0]
            last[1] = None
        for i, log in enumerate(logs):
            for n in range(len(POOL) - 1):
                kept = log.get_info(classifier(n))
                if last[i] is not None and last[i][0] == POOL[n]:
                    expect(kept is last[i][1], "get_info does not give the summary kept last, for", POOL[n])
                elif kept is not None:
                    right(ctx, kept, log, contents[i], POOL[n])
    for earlier in given_out:
        right(ctx, *earlier)
    ctx.state(repr([None if x is None else x[0] for x in last]) + repr(len(contents[1]["t"])))


def cases(depth):
    ops = list(range(3 * len(POOL) + 1))
    for n in range(1, depth + 1):
        for c in itertools.product(ops, repeat=n):
            yield list(c)


def many(ctx, case):
    """Many logs and many classifiers."""
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    from opyenxes.info.XLogInfoFactory import XLogInfoFactory
    n, way = case
    if way == 0:
        logs = [(model.build_log(SMALL[i % 5]), SMALL[i % 5]) for i in range(n)]
        infos = [XLogInfoFactory.create_log_info(log, classifier(i % 5)) for i, (log, _) in enumerate(logs)]
        for again in (0, 1):
            for i, (log, content) in enumerate(logs):
                right(ctx, infos[i], log, content, POOL[i % 5])
                expect(XLogInfoFactory.create_log_info(log, classifier(i % 5)) is infos[i], "asked again, another summary was made")
    else:
        log = model.build_log(LOGS[0])
        for i in range(n):
            key = ("c%d" % (i % 7), ("a", "concept:name")[:1 + i % 2] + ("k%d" % (i // way),))
            given = XEventAttributeClassifier(key[0], list(key[1]))
            info = XLogInfoFactory.create_log_info(log, given)
            right(ctx, info, log, LOGS[0], key)
            expect(XLogInfoFactory.create_log_info(log, XEventAttributeClassifier(key[0], list(key[1]))) is info, "asked again, another summary was made")
    ctx.state(repr(case))


def families(tier):
    return [Family("sizes", lambda _: [[n, w] for n in spaces.steps(tier, 300) for w in (0, 1, 3)], many),
        Family("histories", lambda _: cases(3 if tier == "quick" else 4), run)]
