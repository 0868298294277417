"""P25: what the library does for one log does not depend on what it did before."""
import io
import itertools
import os
import pickle
import time
from mc import looks, model, tasks
from mc.props import p03, p22
from mc.core import Family, isolated, same, Violation

LEVEL = "model_checking"
ASSUMPTIONS = ["programs that change the library's registries on purpose (default factory, extensions, mappings) are compared with programs "
               "that make the same changes and do nothing else before"]
NAMES = list(tasks.TASKS)
CORE = ["xes", "broken xes", "xes globals", "mxml", "broken mxml", "mxml without source", "xes bad date", "write xes", "write mxml", "info",
        "prototypes", "wrapped"]
ZONES = ["UTC", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45"]
alone = {}


def result_alone(ctx, name):
    """The task's result as the first thing a process does."""
    if name not in alone:
        reader, writer = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(reader)
            try:
                answer = ("value", tasks.TASKS[name](tasks.environment(ctx.scratch, os.getpid())))
            except BaseException as error:
                answer = ("failed", "%s: %s" % (type(error).__name__, error))
            with os.fdopen(writer, "wb") as out:
                out.write(pickle.dumps(answer))
            os._exit(0)
        os.close(writer)
        with os.fdopen(reader, "rb") as stream:
            answer = pickle.loads(stream.read())
        os.waitpid(pid, 0)
        if answer[0] == "failed":
            raise Violation("%s alone failed: %s" % (name, answer[1]))
        alone[name] = answer[1]
    return alone[name]


def run(ctx, names):
    env = tasks.environment(ctx.scratch, os.getpid())
    for name in names:
        got = tasks.TASKS[name](env)
        same(got, alone[name], "%s after %s" % (name, names))
        for log, seen in env["kept"]:
            same(model.seen_log(log), seen, "a log that was made before the last task of %s" % names)
        ctx.step()
    ctx.state(repr(names))


def spoilt(ctx, case):
    """After each task the program changes everything it was given."""
    for name in case:
        result_alone(ctx, name)

    def run_spoiling(ctx, names):
        env = tasks.environment(ctx.scratch, os.getpid())
        for name in names:
            same(tasks.TASKS[name](env), alone[name], "%s, all given before being changed, after %s" % (name, names))
            tasks.spoil(env)
            ctx.step()
        ctx.state(repr(("spoilt", names)))
    isolated(ctx, run_spoiling, case)


def programs(ctx, case):
    for name in case:
        result_alone(ctx, name)
    isolated(ctx, run, case)


def zoned(ctx, case):
    """Alone, in another time zone, working folder and home."""
    name, zone = case
    wanted = result_alone(ctx, name)

    def there(ctx):
        os.environ["TZ"] = zone
        time.tzset()
        os.makedirs(os.path.join(ctx.scratch, "elsewhere"), exist_ok=True)
        os.chdir(os.path.join(ctx.scratch, "elsewhere"))
        os.environ["HOME"] = os.path.join(ctx.scratch, "elsewhere")
        got = tasks.TASKS[name](tasks.environment(ctx.scratch, os.getpid()))
        same(got, wanted, "%s in the time zone %s" % (name, zone))
        ctx.step()
        ctx.state(repr(case))
    isolated(ctx, there)


def unused(ctx, name):
    """What modules were imported, and whether shared objects were used, makes no difference."""
    wanted = result_alone(ctx, name)

    def warm(ctx):
        tasks.load_all()
        for other in NAMES:
            tasks.TASKS[other](tasks.environment(ctx.scratch, os.getpid()))
        same(tasks.TASKS[name](tasks.environment(ctx.scratch, os.getpid())), wanted, "%s with tools of its own after everything else" % name)
        ctx.step(len(NAMES))
        ctx.state("warm " + name)
    isolated(ctx, warm)


def repeated(ctx, case):
    """One task many times, with the same tools."""
    name, times = case
    wanted = result_alone(ctx, name)

    def again(ctx):
        env = tasks.environment(ctx.scratch, os.getpid())
        for i in range(times):
            same(tasks.TASKS[name](env), wanted, "%s the %d. time" % (name, i + 1))
            ctx.step()
        for log, seen in env["kept"]:
            same(model.seen_log(log), seen, "a log made by an earlier round")
        ctx.state(repr(case))
    isolated(ctx, again)


def cases(quick):
    for name in NAMES:
        yield [name]
    for pair in itertools.product(NAMES, repeat=2):
        yield list(pair)
    for triple in itertools.product(CORE if quick else NAMES, repeat=3):
        yield list(triple)
    if not quick:
        for four in itertools.product(CORE, repeat=4):
            yield list(four)


# lasting changes that a program may make on purpose
def register_own(env):
    from opyenxes.extension.XExtensionManager import XExtensionManager
    one = own_definition(env, tasks.DEFINITION)
    XExtensionManager().register(one)


def register_other(env):
    from opyenxes.extension.XExtensionManager import XExtensionManager
    XExtensionManager().register(own_definition(env, ["Other", "other", "http://own.org/other.xesext", [["event", [["string", "s", []]]]]]))


def register_again(env):
    """Another extension with the same prefix."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    XExtensionManager().register(own_definition(env, ["Later", "own", "http://own.org/later.xesext", [["trace", [["int", "s", []]]]]]))


def own_definition(env, definition):
    from opyenxes.extension.XExtensionParser import XExtensionParser
    path = os.path.join(env["scratch"], "registered-%s.xesext" % env["id"])
    with open(path, "wb") as out:
        out.write(p22.render(definition))
    return XExtensionParser().parse(path)


def alias(env):
    # that making the standard extensions registers their aliases is a change of its own
    from opyenxes.extension.XExtensionManager import XExtensionManager
    XExtensionManager()
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    XGlobalAttributeNameMap().register_mapping("EN", "concept:name", "Called")
    XGlobalAttributeNameMap().register_mapping("QQ", "own:s", "Own S")


def factory(env):
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
    XFactoryRegistry().set_current_default(type("OwnFactory", (XFactory,), {})())


CHANGES = {"own": register_own, "other": register_other, "again": register_again, "alias": alias, "factory": factory}
OWN_LOG = p03.in_log([p03.n("extension", {"name": "Own", "prefix": "own", "uri": "http://own.org/own.xesext"}),
                      p03.n("extension", {"name": "Other", "prefix": "other", "uri": "http://own.org/other.xesext"}),
                      p03.n("extension", {"name": "Concept", "prefix": "concept", "uri": "http://www.xes-standard.org/concept.xesext"}),
                      p03.leaf("string", "own:s", "x"), p03.n("trace", {}, p03.leaf("string", "other:s", "t"), p03.leaf("string", "concept:name", "n"),
                              p03.n("event", {}, p03.leaf("string", "own:s", "y"), p03.leaf("int", "own:i", "1"), p03.leaf("string", "unknown:s", "z")))])


def extensions_of(env, own=False):
    from opyenxes.data_in.XesXmlParser import XesXmlParser
    one = XesXmlParser() if own else tasks.tool(env, "data_in", "XesXmlParser")
    log = one.parse(io.BytesIO((tasks.PROLOG + p03.render(OWN_LOG)).encode()))[0]
    found = []
    for element in (log, log[0], log[0][0]):
        found.append(sorted((k, a.get_extension() and (a.get_extension().get_name(), a.get_extension().get_uri().geturl()))
                            for k, a in element.get_attributes().items()))
        found.append(sorted(e.get_uri().geturl() for e in element.get_extensions()))
    return found


def names_of(env):
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from urllib.parse import urlparse
    manager = XExtensionManager()
    return ([XGlobalAttributeNameMap().map_safely(k, m) for k in ("concept:name", "own:s", "time:timestamp") for m in ("EN", "QQ", "DE")],
            [e and e.get_uri().geturl() for e in map(manager.get_by_prefix, ("own", "other", "concept", "none"))],
            [e and e.get_prefix() for e in map(manager.get_by_name, ("Own", "Later", "Other", "Concept"))],
            [e and e.get_name() for e in map(manager.get_by_uri, map(urlparse, ("http://own.org/own.xesext", "http://own.org/other.xesext", "http://own.org/later.xesext")))])


LOOKS = {"look extensions": extensions_of, "look again": lambda env: extensions_of(env, True), "look names": names_of}


def changed(ctx, case):
    """Tasks between lasting changes: the last one gives what it gives when
    the program consists of the changes and it only."""
    everything = dict(tasks.TASKS, **LOOKS)

    def program(names, last):
        env = tasks.environment(ctx.scratch, os.getpid())
        for name in names:
            if name in CHANGES:
                CHANGES[name](env)
            else:
                everything[name](env)
        return everything[last](env)
    wanted = in_child(lambda: program([n for n in case[:-1] if n in CHANGES], case[-1]))
    got = in_child(lambda: program(case[:-1], case[-1]))
    same(got, wanted, "%s after %s" % (case[-1], case[:-1]))
    ctx.state(repr(case))
    ctx.step(len(case))


def in_child(action):
    reader, writer = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(reader)
        try:
            answer = ("value", action())
        except BaseException as error:
            answer = ("failed", "%s: %s" % (type(error).__name__, error))
        with os.fdopen(writer, "wb") as out:
            out.write(pickle.dumps(answer))
        os._exit(0)
    os.close(writer)
    with os.fdopen(reader, "rb") as stream:
        answer = pickle.loads(stream.read())
    os.waitpid(pid, 0)
    if answer[0] == "failed":
        raise Violation("a program failed: %s" % answer[1])
    return answer[1]


def changed_cases(quick):
    """Every order of changes with a look before, between and after them."""
    for n in (1, 2) if quick else (1, 2, 3):
        for changes in itertools.permutations(CHANGES, n):
            for last in LOOKS:
                for where in range(1, 1 << n):
                    names = []
                    for i, change in enumerate(changes):
                        if where >> i & 1:
                            names += list(LOOKS)
                        names.append(change)
                    yield names + [last]
    for change in CHANGES:
        for before in NAMES:
            for last in NAMES if not quick else [before] + CORE:
                yield [before, change, last]


def families(tier):
    quick = tier == "quick"
    tasks.load_all()
    for name in ("rich", "globals", "bad date", "empty", "mxml", "mxml without source"):
        tasks.document(name)
    return [
        looks.family("P25"),
        Family("programs", lambda _: cases(quick), programs),
        Family("spoilt", lambda _: itertools.chain(itertools.product(NAMES, repeat=2), itertools.product(CORE if quick else NAMES, repeat=3)), spoilt),
        Family("lasting-changes", lambda _: changed_cases(quick), changed),
        Family("surroundings", lambda _: itertools.product(NAMES, ZONES), zoned),
        Family("after-everything", lambda _: NAMES, unused),
        Family("repeated", lambda _: ([n, 130 if quick else 600] for n in NAMES), repeated),
    ]
