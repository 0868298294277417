"""P18: a registry holds exactly what was registered; its default changes only as told."""
import itertools
from mc import spaces
from mc.core import Family, isolated, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = ["registered instances are hashable, and do not change their hash"]


class Thing:
    """Equal to every thing with the same name."""
    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Thing) and self.name == other.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "Thing(%s)" % self.name


class Plain:
    pass


def pool():
    # falsy ones, equal ones that are not identical, ones compared by identity
    return [Thing("a"), Thing("a"), Thing("b"), Plain(), Plain(), "", 0, ()]


def compare(ctx, registry, things, held, default, initial=()):
    available = registry.get_available()
    expect(isinstance(available, tuple), "get_available is not a tuple")
    mine = [a for a in available if not any(a is i for i in initial)]
    same(len(mine), len(held), "number of registered instances")
    for one in held:
        expect(sum(1 for a in mine if a == one) == 1, "registered", repr(one), "is not available exactly once")
    for one in things:
        same(one in registry, one in held, "membership of %r" % (one,))
    expect(all(any(a is i for a in available) for i in initial), "an initial instance is no longer available")
    expect(registry.current_default() is default or (default is not None and registry.current_default() == default and default in held),
           "default is", repr(registry.current_default()), "instead of", repr(default))
    ctx.step(len(things) + 2)


def history(ctx, case, registry=None, initial=(), default=None):
    from opyenxes.utils.XRegistry import XRegistry
    registry = registry or XRegistry()
    things = pool()
    held = []
    compare(ctx, registry, things, held, default, initial)
    for number in case:
        which, what = number >> 1, number & 1
        one = things[which]
        if what:
            registry.set_current_default(one)
            default = one
        else:
            registry.register(one)
            if default is None:
                default = one
        if one not in held:
            held.append(one)
        compare(ctx, registry, things, held, default, initial)
        ctx.state(repr((sorted(map(things.index, held)), things.index(default) if default in things else "first")))


def two(ctx, case):
    """Registries do not share anything."""
    from opyenxes.utils.XRegistry import XRegistry
    things = pool()
    registries = [XRegistry(), XRegistry()]
    held = [[], []]
    default = [None, None]
    for number in case:
        which, what, where = number >> 2, number >> 1 & 1, number & 1
        one = things[which]
        if what:
            registries[where].set_current_default(one)
            default[where] = one
        else:
            registries[where].register(one)
            if default[where] is None:
                default[where] = one
        if one not in held[where]:
            held[where].append(one)
        for i in (0, 1):
            compare(ctx, registries[i], things, held[i], default[i])
    ctx.state(repr((case, held)))


def histories(depth, size):
    for n in range(depth + 1):
        for ops in itertools.product(range(size), repeat=n):
            yield list(ops)


SYSTEM = [("opyenxes.factory.XFactoryRegistry", "XFactoryRegistry", ["XFactory"], "XFactory"),
          ("opyenxes.data_in.XParserRegistry", "XParserRegistry", ["XMxmlGZIPParser", "XMxmlParser", "XesXmlGZIPParser", "XesXmlParser"], "XesXmlGZIPParser"),
          ("opyenxes.data_out.XSerializerRegistry", "XSerializerRegistry",
           ["XMxmlGZIPSerializer", "XMxmlSerializer", "XesXmlGZIPSerializer", "XesXmlSerializer"], "XesXmlGZIPSerializer")]


def run_system(ctx, case):
    import importlib
    which, ops = case
    module, name, names, default = SYSTEM[which]
    registry = getattr(importlib.import_module(module), name)()
    initial = registry.get_available()
    same(sorted(type(i).__name__ for i in initial), names, "instances of the " + name)
    same(type(registry.current_default()).__name__, default, "default of the " + name)
    expect(registry is getattr(importlib.import_module(module), name)(), name, "is not one instance")
    history(ctx, ops, registry, initial, registry.current_default())


def system_cases(depth):
    for which in range(len(SYSTEM)):
        for ops in itertools.product(range(10), repeat=depth):
            yield [which, list(ops)]


def sizes(ctx, case):
    """Many members, among them equal ones; the default is kept or set."""
    from opyenxes.utils.XRegistry import XRegistry
    n, way = case
    registry = XRegistry()
    things = pool() + [Plain() if i % 3 else Thing("t%d" % (i // 2)) for i in range(n)]
    order = things[::-1] if way % 2 else things
    held, default = [], None
    for i, one in enumerate(order):
        if way > 1 and i % 10 == 7:
            registry.set_current_default(one)
            default = one
        else:
            registry.register(one)
            default = one if default is None else default
        if one not in held:
            held.append(one)
        if i in (n // 2, len(order) - 1):
            compare(ctx, registry, things, held, default)
    registry.register(order[0])
    compare(ctx, registry, things + [Thing("no"), Plain()], held, default)
    ctx.state(repr(case))


def size_cases(tier):
    return [[n, way] for n in spaces.steps(tier, 300 if tier == "quick" else 1025) for way in range(4)]


def families(tier):
    import importlib
    for module, _, _, _ in SYSTEM:
        importlib.import_module(module)  # the children of fork need not import it
    quick = tier == "quick"
    return [
        Family("histories", lambda _: histories(4 if quick else 5, 16), history),
        Family("two-registries", lambda _: histories(3 if quick else 4, 20), two),
        Family("sizes", lambda _: size_cases(tier), sizes),
        Family("system-registries", lambda _: system_cases(3 if quick else 4), lambda ctx, c: isolated(ctx, run_system, c)),
    ]
