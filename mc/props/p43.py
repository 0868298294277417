"""P43: what several threads register at the same time with a shared object all counts, and looking things up meanwhile works."""
import itertools
import os
import pickle
from urllib.parse import urlparse

from mc import sched
sched.install()

from mc import model  # noqa: E402
from mc.core import Family, expect  # noqa: E402
from mc.props import p22, p23  # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["threads are preempted between lines or bytecodes of the library's own code; modules are imported and the shared objects made before the threads start",
               "at most the stated number of preemptions, at the stated number of first visits of a line by a thread",
               "single lookups and the state at the end are judged, not whether several lookups of one thread agree with each other while another one registers"]
EXTENSIONS = {"a": ("A", "a", "http://own.org/a.xesext"), "b": ("B", "b", "http://own.org/b.xesext"), "a2": ("A2", "a2", "http://own.org/a.xesext"),
              "same prefix": ("C", "a", "http://own.org/c.xesext"), "time": ("Own time", "time", model.STANDARD["time"][1])}
made = {}


def extension(name):
    from opyenxes.extension.XExtension import XExtension
    if name not in made:
        title, prefix, uri = EXTENSIONS[name]
        made[name] = XExtension(title, prefix, urlparse(uri))
    return made[name]


def known(one):
    """An extension, by the name it has here."""
    if one is None:
        return None
    for name in made:
        if made[name] is one:
            return "own " + name
    return one.get_name()


class Manager:
    OPS = ["register a", "register b", "register a2", "register same prefix", "register time", "uri a", "prefix a", "name A", "index a", "all", "prefix time",
           "name Concept", "prefix concept", "uri time"]
    WRITES = OPS[:5]

    def __init__(self):
        from opyenxes.extension.XExtensionManager import XExtensionManager
        self.manager = XExtensionManager()
        for name in EXTENSIONS:
            extension(name)

    def do(self, op):
        what, name = (op.split(" ", 1) + [""])[:2]
        if what == "register":
            return self.manager.register(extension(name))
        if what == "uri":
            return known(self.manager.get_by_uri(urlparse(EXTENSIONS[name][2])))
        if what == "prefix":
            return known(self.manager.get_by_prefix(name))
        if what == "name":
            return known(self.manager.get_by_name(name))
        if what == "index":
            return self.manager.get_index(extension(name)) >= 0
        return self.listed()

    def listed(self):
        found = []
        while self.manager.get_by_index(len(found)) is not None:
            found.append(self.manager.get_by_index(len(found)))
        return sorted(map(known, found))

    def end(self):
        indices = [self.manager.get_index(self.manager.get_by_index(i)) for i in range(len(self.listed()))]
        return [self.listed(), indices, [known(self.manager.get_by_uri(urlparse(e[2]))) for e in EXTENSIONS.values()],
                [known(self.manager.get_by_name(e[0])) for e in EXTENSIONS.values()]]


class Registry:
    OPS = ["register x", "register y", "default x", "default z", "list", "current", "has x", "has z"]
    WRITES = OPS[:4]
    start = ()

    def __init__(self):
        from opyenxes.utils.XRegistry import XRegistry
        self.registry = XRegistry()
        for name in self.start:
            self.registry.register(name)

    def do(self, op):
        what, name = (op.split(" ") + [""])[:2]
        if what == "register":
            return self.registry.register(name)
        if what == "default":
            return self.registry.set_current_default(name)
        if what == "has":
            return name in self.registry
        if what == "list":
            return sorted(self.registry.get_available())
        return self.registry.current_default()

    def end(self):
        return [sorted(self.registry.get_available()), self.registry.current_default(), ["x" in self.registry, "y" in self.registry, "z" in self.registry]]


class Filled(Registry):
    start = ("w",)


class Names:
    OPS = ["alias QQ k A", "alias QQ l B", "alias QQ k C", "alias DE concept:name D", "alias EN k E", "names", "maps", "safely k QQ", "safely concept:name DE", "map k", "text"]
    WRITES = OPS[:5]

    def __init__(self):
        from opyenxes.extension.XExtensionManager import XExtensionManager
        from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
        XExtensionManager()
        self.names = XGlobalAttributeNameMap()

    def do(self, op):
        what, *words = op.split(" ")
        if what == "alias":
            mapping, key, alias = words
            return self.names.get_mapping(mapping).register_mapping(key, alias)
        if what == "names":
            return sorted(self.names.get_available_mapping_names())
        if what == "maps":
            return sorted(m.get_mapping_name() for m in self.names.get_available_mappings())
        if what == "safely":
            return self.names.map_safely(*words)
        if what == "map":
            return self.names.map(*words)
        return str(self.names).count("concept:name -> ") > 0

    def end(self):
        return [sorted(self.names.get_available_mapping_names()),
                [[m, k, self.names.get_mapping(m).map(k)] for m in ("QQ", "DE", "EN") for k in ("k", "l", "concept:name")]]


class Definitions(Manager):
    """Definitions that are parsed, cached and loaded."""
    OPS = ["parse 1", "parse 2", "parse 1 again", "load", "cache 3", "alias QQ x1:s1", "uri 1"]
    WRITES = OPS[:5]

    def __init__(self):
        import shutil
        from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
        from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
        super().__init__()
        self.names = XGlobalAttributeNameMap()
        self.home = os.path.join(Definitions.scratch, "home%d" % os.getpid())
        shutil.rmtree(self.home, ignore_errors=True)
        os.mkdir(self.home)
        os.environ["HOME"] = self.home
        self.folder = XRuntimeUtils().get_extension_cache_folder()
        for n in (1, 2, 3):
            one = p23.definition(n)
            one[3][0][1].append(["int", "j", [["QQ", "J%d" % n]]])
            for path in [os.path.join(self.home, "x%d.xesext" % n)] + ([os.path.join(self.folder, "x%d.xesext" % n)] if n < 3 else []):
                with open(path, "wb") as out:
                    out.write(p22.render(one))

    def do(self, op):
        from opyenxes.extension.XExtensionParser import XExtensionParser
        what, name = (op.split(" ", 1) + [""])[:2]
        if what == "parse":
            one = XExtensionParser().parse(os.path.join(self.home, "x%s.xesext" % name[0]))
            return [one.get_name(), one.get_prefix(), sorted(a.get_key() for a in one.get_defined_attributes())]
        if what == "load":
            return self.manager.load_extension_cache()
        if what == "cache":
            return self.manager.cache_extension(urlparse("file://" + os.path.join(self.home, "x3.xesext")))
        if what == "alias":
            return self.names.map_safely(*name.split(" ")[::-1])
        return known(self.manager.get_by_uri(urlparse(p23.definition(int(name))[2])))

    def end(self):
        import shutil
        files = sorted((name, len(open(os.path.join(self.folder, name), "rb").read())) for name in os.listdir(self.folder))
        shutil.rmtree(self.home)
        return [self.listed(), files, [[m, k, self.names.get_mapping(m).map(k)] for m in ("EN", "QQ") for n in "123" for k in ("x%s:s%s" % (n, n), "x%s:j" % n)]]


OBJECTS = {"definitions": Definitions, "manager": Manager, "registry": Registry, "filled registry": Filled, "names": Names}


def in_order(which, programs, order):
    """The operations one after the other, in a process of their own."""
    reader, writer = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            one = OBJECTS[which]()
            todo = [list(p) for p in programs]
            results = [[] for _ in programs]
            for thread in order:
                results[thread].append(one.do(todo[thread].pop(0)))
            os.write(writer, pickle.dumps((results, one.end())))
        finally:
            os._exit(0)
    os.close(writer)
    with os.fdopen(reader, "rb") as stream:
        data = stream.read()
    os.waitpid(pid, 0)
    expect(data, "the operations", programs, "failed one after the other")
    return pickle.loads(data)


known_outcomes = {}


def outcomes(which, programs):
    """What each operation may give, and how things may be at the end."""
    key = repr((which, programs))
    if key not in known_outcomes:
        each, ends = [[set() for _ in p] for p in programs], set()
        for order in set(itertools.permutations([t for t, p in enumerate(programs) for _ in p])):
            results, end = in_order(which, programs, order)
            ends.add(repr(end))
            for mine, seen in zip(results, each):
                for result, allowed in zip(mine, seen):
                    allowed.add(repr(result))
        known_outcomes[key] = each, ends
    return known_outcomes[key]


def scenario(which, programs):
    each, ends = outcomes(which, programs)

    def start():
        one = OBJECTS[which]()
        bodies = [lambda p=p: [one.do(op) for op in p] for p in programs]

        def check(results):
            for program, mine, allowed in zip(programs, results, each):
                for op, result, right in zip(program, mine, allowed):
                    expect(repr(result) in right, op, "gave", result, "while the threads did", programs, "; one after the other it gives", sorted(right))
            end = one.end()
            expect(repr(end) in ends, "after the threads did", programs, "there is", end, "; one after the other", sorted(ends))
            return repr(end)
        return bodies, check
    return start


def explored(ctx, case):
    which, programs, bound, opcodes, visits, shard, shards = case
    Definitions.scratch = ctx.scratch
    sched.explore(ctx, scenario(which, programs), bound, bool(opcodes), shard, shards, visits or None, len(set(map(tuple, programs))) == 1)


def spread(which, programs, bound, opcodes, visits, shards):
    for shard in range(shards):
        yield [which, programs, bound, opcodes, visits, shard, shards]


def pairs(quick):
    """Each registration with each operation."""
    for a, b in itertools.product(Definitions.WRITES, Definitions.OPS):
        if b not in Definitions.WRITES or Definitions.WRITES.index(b) >= Definitions.WRITES.index(a):
            yield from spread("definitions", [[a], [b]], 1, 0, 1 if quick else 3, 8)
    for which, cls in OBJECTS.items():
        if which == "definitions":
            continue
        for a in cls.WRITES:
            for b in cls.OPS:
                if b not in cls.WRITES or cls.WRITES.index(b) >= cls.WRITES.index(a):
                    yield from spread(which, [[a], [b]], 2, 0, 2 if quick else 0, 1)
                    yield from spread(which, [[a], [b]], 1, 1, 2 if quick else 0, 1)


def longer(quick):
    """Two operations of each of two threads."""
    for which, cls in OBJECTS.items():
        if which == "definitions" and quick:
            continue
        for a, b in itertools.combinations_with_replacement(itertools.product(cls.WRITES, cls.OPS if not quick else cls.WRITES), 2):
            yield from spread(which, [list(a), list(b)], 1, 0, 1 if quick else 3, 1)


def three(quick):
    for which, cls in OBJECTS.items():
        if which == "definitions" and quick:
            continue
        for programs in itertools.combinations_with_replacement(cls.WRITES if quick else cls.OPS, 3):
            yield from spread(which, [[p] for p in programs], 1 if quick else 2, 0, 1 if quick else 3, 1)


def families(tier):
    quick = tier == "quick"
    for cls in OBJECTS.values():
        __import__("opyenxes.extension.XExtensionManager")
        __import__("opyenxes.info.XGlobalAttributeNameMap")
        __import__("opyenxes.utils.XRegistry")
    return [
        Family("pairs", lambda _: pairs(quick), explored),
        Family("longer", lambda _: longer(quick), explored),
        Family("three-threads", lambda _: three(quick), explored),
    ]
