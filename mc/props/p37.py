"""P37: threads that work on logs of their own do not disturb each other."""
import itertools
import os

from mc import sched
sched.install()

from mc import model, tasks  # noqa: E402
from mc.core import Family, same  # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["threads are preempted between lines of the library's own code (and its callbacks from the XML reader); modules are imported before they start",
               "at most the stated number of preemptions, at the stated number of first visits of a line by a thread",
               "each thread uses parsers, serializers and logs of its own; programs that change the library's registries on purpose are left out"]
NAMES = list(tasks.TASKS)
CORE = ["xes", "mxml", "write xes", "write mxml b", "info", "xes bad date", "xes globals"]
TOOLS = [("data_in", "XesXmlParser"), ("data_in", "XMxmlParser"), ("data_in", "XesXmlGZIPParser"), ("data_in", "XMxmlGZIPParser"), ("data_in", "XUniversalParser"),
         ("data_out", "XesXmlSerializer"), ("data_out", "XMxmlSerializer"), ("data_out", "XesXmlGZIPSerializer")]
SHARING = ["xes", "mxml", "xes bad date", "write xes", "write mxml b", "xes.gz"]
wanted = {}


def alone(scratch, name):
    if name not in wanted:
        wanted[name] = tasks.TASKS[name](tasks.environment(scratch, "alone"))
    return wanted[name]


def scenario(ctx, names, shared=False):
    def start():
        envs = [tasks.environment(ctx.scratch, "%d-%d" % (os.getpid(), i)) for i in range(len(names))]
        if shared:
            for path, tool in TOOLS:
                tasks.tool(envs[0], path, tool)
            for env in envs:
                env["tools"] = envs[0]["tools"]
        bodies = [lambda name=name, env=env: tasks.TASKS[name](env) for name, env in zip(names, envs)]

        def check(results):
            for name, env, result in zip(names, envs, results):
                same(result, wanted[name], "%s while other threads ran %s" % (name, names))
                for log, seen in env["kept"]:
                    same(model.seen_log(log), seen, "a log made by %s while other threads ran %s" % (name, names))
                for path in os.listdir(ctx.scratch):
                    if env["id"] in path:
                        os.unlink(os.path.join(ctx.scratch, path))
            return names
        return bodies, check
    return start


def explored(ctx, case):
    names, bound, visits, shard, shards, *shared = case
    for name in names:
        alone(ctx.scratch, name)
    sched.explore(ctx, scenario(ctx, names, bool(shared)), bound, False, shard, shards, visits or None, len(set(names)) == 1)


def spread(names, bound, visits, shards):
    for shard in range(shards):
        yield [names, bound, visits, shard, shards]


def pairs(quick):
    for pair in itertools.combinations_with_replacement(CORE if quick else NAMES, 2):
        yield from spread(list(pair), 1, 1 if quick else 3, 8 if quick else 16)


def others(quick):
    """The other things a program does, each twice at the same time."""
    if quick:
        for name in NAMES:
            if name not in CORE and name not in ("xes own parser", "xes.gz", "mxml.gz", ".xes", "write xes b", "write mxml", "xes empty"):
                yield from spread([name, name], 1, 1, 8)


def together(quick):
    """Threads use the same parsers and serializers."""
    for pair in itertools.combinations_with_replacement(SHARING, 2):
        for shard in range(8):
            yield [list(pair), 1, 1 if quick else 3, shard, 8, 1]


def deep(quick):
    if not quick:
        for pair in itertools.combinations_with_replacement(CORE, 2):
            yield from spread(list(pair), 2, 1, 64)
        for triple in itertools.combinations_with_replacement(CORE, 3):
            yield from spread(list(triple), 1, 1, 16)


def families(tier):
    quick = tier == "quick"
    tasks.load_all()
    for name in ("rich", "globals", "bad date", "empty", "mxml", "mxml without source"):
        tasks.document(name)
    return [
        Family("pairs", lambda _: pairs(quick), explored),
        Family("same-task", lambda _: others(quick), explored),
        Family("same-tools", lambda _: together(quick), explored),
        Family("deep", lambda _: deep(quick), explored),
    ]
