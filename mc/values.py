"""Every value of every kind in a copy, however it is made."""
import copy
import itertools
import pickle
from mc import model, spaces
from mc.core import Family, same, expect

DATES = [date + [offset] for date in ([1, 1, 2, 0, 0, 0, 0], [1969, 12, 31, 23, 59, 59, 999999], [1970, 1, 1, 0, 0, 0, 1], [2016, 2, 29, 23, 59, 58, 7000],
                                      [2020, 10, 25, 2, 30, 0, 0], [9999, 12, 30, 23, 59, 59, 999000]) for offset in (None, 0, 1, -1, 330, -840, 840)]


def values(tier):
    texts, numbers = spaces.literals()
    return {"string": list(texts) + spaces.ODD, "int": list(spaces.integers(50)), "float": [0.0, -0.0] + list(spaces.floats())[::1 if tier != "quick" else 3] + [float("inf"), float("nan")],
            "boolean": [True, False], "date": DATES + list(spaces.dates("quick"))[::1 if tier != "quick" else 7], "id": list(spaces.uuids())}


def cases(tier):
    for kind, every in values(tier).items():
        for chunk in spaces.chunked(every, 100):
            yield [kind, chunk]


def copies(ways):
    def check(ctx, case):
        kind, chunk = case
        for value in chunk:
            for children in ([], [[kind, "in", value, []]]):
                one = model.build_attr([kind, "k", value, children])
                before = model.seen_attr(one)
                ctx.state(repr(before))
                for name, way in ways.items():
                    other = way(one)
                    expect(other is not one, "the same object from", name)
                    same(model.seen_attr(other), before, "attribute from " + name)
                    same(str(other), str(one), "text of the attribute from " + name)
                    ctx.step()
                same(model.seen_attr(one), before, "attribute that was copied")
    return check


def cloned(tier):
    ways = {"clone": lambda a: a.clone(), "a clone of the map": lambda a: in_map(a).clone()["k"], "a clone of a clone": lambda a: a.clone().clone()}
    return Family("values", lambda _: cases(tier), copies(ways))


def sent(tier):
    ways = {"copy.deepcopy": copy.deepcopy}
    for protocol in range(2, pickle.HIGHEST_PROTOCOL + 1):
        ways["pickle %d" % protocol] = lambda a, p=protocol: pickle.loads(pickle.dumps(a, p))
    return Family("values", lambda _: cases(tier), copies(ways))


def in_map(attribute):
    from opyenxes.model.XAttributeMap import XAttributeMap
    return XAttributeMap({"k": attribute})
