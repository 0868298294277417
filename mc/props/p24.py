"""P24: however threads interleave when they first ask for the library's shared objects, all get the same complete one."""
import importlib
import itertools

from mc import sched
sched.install()

from mc import model  # noqa: E402
from mc.core import Family, same, expect  # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["threads are preempted between lines (or bytecodes) of the library's own code; modules are imported before the threads start",
               "at most the stated number of preemptions; switches where a thread blocks or ends are not limited"]
SHARED = [("extension.std.XConceptExtension", "XConceptExtension"), ("extension.std.XCostExtension", "XCostExtension"),
          ("extension.std.XCostExtension", "XCostAmount"), ("extension.std.XCostExtension", "XCostDriver"), ("extension.std.XCostExtension", "XCostType"),
          ("extension.std.XIdentityExtension", "XIdentityExtension"), ("extension.std.XLifecycleExtension", "XLifecycleExtension"),
          ("extension.std.XMicroExtension", "XMicroExtension"), ("extension.std.XOrganizationalExtension", "XOrganizationalExtension"),
          ("extension.std.XSemanticExtension", "XSemanticExtension"), ("extension.std.XTimeExtension", "XTimeExtension"),
          ("extension.XExtensionManager", "XExtensionManager"), ("extension.XExtensionParser", "XExtensionParser"),
          ("factory.XFactoryRegistry", "XFactoryRegistry"), ("id.XIDFactory", "XIDFactory"),
          ("info.XGlobalAttributeNameMap", "XGlobalAttributeNameMap"), ("data_in.XParserRegistry", "XParserRegistry"),
          ("data_out.XSerializerRegistry", "XSerializerRegistry")]
SMALL = [2, 3, 4, 12, 13, 14, 15]


def shared(number):
    module, name = SHARED[number]
    return getattr(importlib.import_module("opyenxes." + module), name)


def complete(number, one):
    """A digest of what the shared object offers; it must be all there as soon
    as a thread has the object."""
    name = SHARED[number][1]
    if name == "XExtensionManager":
        return sorted(p for p in model.STANDARD if one.get_by_prefix(p) is not None and one.get_by_name(model.STANDARD[p][0]) is not None)
    if name.endswith("Extension"):
        return [one.get_name(), one.get_prefix(), one.get_uri().geturl(), sorted(set(a.get_key() for a in one.get_defined_attributes()))]
    if name.endswith("Registry"):
        return [type(one.current_default()).__name__, sorted(type(i).__name__ for i in one.get_available())]
    if name == "XGlobalAttributeNameMap":
        return [one.get_standard_mapping().get_mapping_name(), one.map_safely("k", "EN"), "EN" in one.get_available_mapping_names()]
    if name == "XIDFactory":
        return type(one.create_id()).__name__
    return type(one).__name__


WANTED = {"XExtensionManager": sorted(model.STANDARD),
          "XFactoryRegistry": ["XFactory", ["XFactory"]],
          "XGlobalAttributeNameMap": ["EN", "k", True]}


def scenario(numbers, again=False):
    def start():
        classes = [shared(n) for n in numbers]

        def body(n, cls):
            def run():
                one = cls()
                digest = complete(n, one)
                if again:
                    expect(cls() is one, "a second call gives another", SHARED[n][1])
                return one, digest
            return run

        def check(results):
            seen = {}
            for n, cls, (one, digest) in zip(numbers, classes, results):
                name = SHARED[n][1]
                expect(type(one) is cls, "the shared", name, "is a", type(one).__name__)
                expect(one is seen.setdefault(n, one), "two threads got different instances of", name)
                expect(cls() is one, "a later call gives another instance of", name)
                same(digest, complete(n, one), "what a thread saw of the shared " + name)
                same(digest, WANTED.get(name, digest), "contents of the shared " + name)
            if not any(n < 12 for n in numbers):
                return [SHARED[n][1] for n in numbers]
            # everything still works together
            from opyenxes.extension.XExtensionManager import XExtensionManager
            manager = XExtensionManager()
            same(complete(11, manager), sorted(model.STANDARD), "extensions of the manager")
            for n in list(range(2)) + list(range(5, 11)):
                expect(manager.get_by_name(complete(n, shared(n)())[0]) is shared(n)(), "the manager has another", SHARED[n][1])
            return [SHARED[n][1] for n in numbers]
        return [body(n, cls) for n, cls in zip(numbers, classes)], check
    return start


def explored(ctx, case):
    numbers, bound, opcodes, visits, shard, shards = case
    sched.explore(ctx, scenario(numbers), bound, bool(opcodes), shard, shards, visits or None, len(set(numbers)) == 1)


def spread(numbers, bound, opcodes, visits, shards):
    for shard in range(shards):
        yield [numbers, bound, opcodes, visits, shard, shards]


def same_pairs(quick):
    """Two threads ask for the same object."""
    for n in range(len(SHARED)):
        if n in SMALL:
            yield from spread([n, n], 1, 1, 0, 4)
            if n != 15 or not quick:
                yield from spread([n, n], 2, 0, 0, 4 if quick else 16)
            if not quick or n != 15:
                yield from spread([n, n], 2, 1, 0 if not quick or n < 13 else 1, 32)
        elif quick:
            yield from spread([n, n], 1, 0, 1, 8)
            yield from spread([n, n], 1, 1, 1, 8)
        else:
            yield from spread([n, n], 1, 0, 3 if n == 11 else 0, 32)
            yield from spread([n, n], 1, 1, 1, 32)
            if n > 11:
                yield from spread([n, n], 2, 0, 1, 16)


def other_pairs(quick):
    """Two threads ask for different objects, one of which may need the other."""
    for a, b in itertools.permutations(range(len(SHARED)), 2):
        needed = b in (13, 15) and a < 12 or a == 11 and b < 11 and b not in (2, 3, 4) or a in (11, 12, 16, 17) and b == 13
        if needed or a == 0 and b in (1, 11) or not quick:
            yield from spread([a, b], 1, 0, 1 if quick else 2, 2 if quick else 8)


def three(quick):
    for numbers in ([14, 14, 14], [3, 3, 3], [13, 13, 13], [15, 15, 13], [2, 3, 4]) if quick else \
            [list(c) for c in itertools.combinations_with_replacement([0, 2, 3, 11, 13, 14, 15], 3)]:
        yield from spread(numbers, 1, 0, 1, 4)
    if not quick:
        for numbers in ([14, 14, 14], [3, 3, 3], [13, 13, 13]):
            yield from spread(numbers, 2, 0, 1, 32)


def families(tier):
    quick = tier == "quick"
    for module, _ in SHARED:
        importlib.import_module("opyenxes." + module)
    return [
        Family("same-object", lambda _: same_pairs(quick), explored),
        Family("two-objects", lambda _: other_pairs(quick), explored),
        Family("three-threads", lambda _: three(quick), explored),
    ]
