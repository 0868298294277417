"""The explorer shared by all checks.

A property module (mc/props/<id>.py) declares families. A family is a finite,
deterministically ordered space of cases (`cases(tier)`, JSON-able values: an
operation sequence, a document shape, a schedule, a crash point, ...) and a
function `run(ctx, case)` that executes one case on the real code and compares
what it observes with a reference model; it raises Violation (or lets any
exception of the code under test escape) when they differ.  Every case of
every family is executed: the space is split over worker processes by index.

ctx.state(x)  - x is a canonical form of a model state that this case reached
ctx.step(n)   - n operations of the implementation were executed and compared
"""
import hashlib
import importlib
import json
import mmap
import os
import pickle
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OPYENXES_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")
WORKERS = int(os.environ.get("MC_WORKERS", "8"))
CASE_SECONDS = int(os.environ.get("MC_CASE_SECONDS", "120"))


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def expect(condition, *message):
    if not condition:
        raise Violation(" ".join(m if isinstance(m, str) else repr(m) for m in message))


def same(observed, expected, what):
    if observed != expected:
        where, a, b = difference(observed, expected)
        raise Violation("%s%s: observed %s, expected %s" % (what, where, short(a), short(b)))


def difference(a, b, path=""):
    """The innermost place where two nested structures differ."""
    if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return difference(x, y, path + "[%d]" % i)
    if type(a) is type(b) is dict and a.keys() == b.keys():
        for key in a:
            if a[key] != b[key]:
                return difference(a[key], b[key], path + "[%r]" % (key,))
    return path, a, b


def short(value, limit=700):
    text = repr(value)
    return text if len(text) <= limit else text[:limit] + "...(%d chars)" % len(text)


class Family:
    def __init__(self, name, cases, run, what=""):
        self.name = name
        self.cases = cases
        self.run = run
        self.what = what


class Ctx:
    def __init__(self, tier, scratch):
        self.tier = tier
        self.scratch = scratch
        self.states = set()
        self.steps = 0
        self.cases = 0
        self.extra = {}

    def state(self, canonical):
        if not isinstance(canonical, (str, bytes)):
            canonical = repr(canonical)
        if isinstance(canonical, str):
            canonical = canonical.encode("utf-8", "surrogatepass")
        self.states.add(hashlib.blake2b(canonical, digest_size=8).digest())

    def step(self, n=1):
        self.steps += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def top(self, name, n):
        self.extra["max_" + name] = max(self.extra.get("max_" + name, 0), n)


def on_alarm(signum, frame):
    raise CaseTimeout()


def load(prop):
    return importlib.import_module("mc.props." + prop.lower())


def isolated(ctx, function, *arguments):
    """Runs one case in a forked child, so that process-wide state of the code
    under test (singletons, registries) starts out untouched."""
    reader, writer = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(reader)
        child = Ctx(ctx.tier, ctx.scratch)
        message = None
        try:
            function(child, *arguments)
        except Violation as error:
            message = str(error)
        except BaseException as error:
            tail = traceback.format_exc().strip().splitlines()
            message = "unexpected %s: %s [%s]" % (type(error).__name__, error, " | ".join(t.strip() for t in tail[-5:-1]))
        with os.fdopen(writer, "wb") as out:
            out.write(pickle.dumps((message, child.states, child.steps, child.extra)))
        os._exit(0)
    os.close(writer)
    try:
        with os.fdopen(reader, "rb") as stream:
            data = stream.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise Violation("the process running this case died")
    message, states, steps, extra = pickle.loads(data)
    ctx.states |= states
    ctx.steps += steps
    for name, n in extra.items():
        ctx.extra[name] = max(ctx.extra.get(name, 0), n) if name.startswith("max_") else ctx.extra.get(name, 0) + n
    if message is not None:
        raise Violation(message)


def import_target():
    """Puts /repo's working tree first on the path and checks that it is what
    gets imported."""
    sys.path.insert(0, os.path.join(REPO, "src"))
    import opyenxes
    where = os.path.realpath(opyenxes.__file__)
    assert where.startswith(os.path.realpath(REPO) + os.sep), where


def run_case(ctx, family, case):
    """Returns None, or the description of the violation."""
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_SECONDS)
    try:
        family.run(ctx, case)
        return None
    except Violation as error:
        return str(error)
    except CaseTimeout:
        return "did not terminate within %d s" % CASE_SECONDS
    except MemoryError:
        return "ran out of memory"
    except Exception as error:
        tail = traceback.format_exc().strip().splitlines()
        return "unexpected %s: %s [%s]" % (type(error).__name__, error, " | ".join(t.strip() for t in tail[-5:-1]))
    finally:
        signal.alarm(0)


def known_findings(prop):
    """Lines `known: property=P01 family=f case=<json> what` of the committed
    file. `fixed:` lines suppress nothing."""
    found = {}
    try:
        with open(KNOWN, encoding="utf-8") as lines:
            for line in lines:
                if line.startswith("known: property=%s " % prop):
                    rest = line.split(" family=", 1)[1]
                    family, rest = rest.split(" case=", 1)
                    case, end = json.JSONDecoder().raw_decode(rest)
                    found[(family, json.dumps(case))] = rest[end:].strip()
    except FileNotFoundError:
        pass
    return found


def worker(prop, tier, index, count, progress, pipe, families=None, upto=None):
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(null, 2)
    scratch = tempfile.mkdtemp(prefix="mc-%s-%d-" % (prop, index))
    os.environ["HOME"] = scratch
    result = {"violations": [], "known": [], "error": None, "families": {}}
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        import_target()
        module = load(prop)
        known = known_findings(prop)
        ctx = Ctx(tier, scratch)
        for f, family in enumerate(module.families(tier)):
            if families is not None and family.name not in families:
                continue
            total = 0
            began = time.time()
            samples = []
            for i, case in enumerate(family.cases(tier)):
                total += 1
                if upto is not None and i > upto:
                    break
                if i % count != index:
                    continue
                if progress[0]:
                    break
                struct.pack_into("<ii", progress, 8 + 8 * index, f, i)
                message = run_case(ctx, family, case)
                ctx.cases += 1
                if len(samples) < 2:
                    samples.append(case)
                if message is not None:
                    text = json.dumps(case)
                    if (family.name, text) in known:
                        result["known"].append((family.name, case, known[(family.name, text)]))
                        continue
                    result["violations"].append((f, i, family.name, case, message))
                    progress[0] = 1
                    break
            result["families"][family.name] = (total, samples, time.time() - began)
        result["meta"] = {"level": module.LEVEL, "rule": getattr(module, "RULE", ""),
                          "assumptions": getattr(module, "ASSUMPTIONS", [])}
        result["cases"] = ctx.cases
        result["states"] = ctx.states
        result["steps"] = ctx.steps
        result["extra"] = ctx.extra
    except BaseException:
        result["error"] = traceback.format_exc()
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    data = pickle.dumps(result)
    with os.fdopen(pipe, "wb") as out:
        out.write(data)
    os._exit(0)


def explore(prop, tier, count=WORKERS, families=None, only=None, upto=None):
    """Runs all workers; returns their results and the last case each began."""
    progress = mmap.mmap(-1, 4096)
    running = []
    for index in range(count) if only is None else [only]:
        reader, writer = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(reader)
            os.setpgid(0, 0)
            worker(prop, tier, index, count, progress, writer, families, upto)
        os.close(writer)
        running.append((index, pid, reader))
    results = []
    for index, pid, reader in running:
        with os.fdopen(reader, "rb") as stream:
            data = stream.read()
        os.waitpid(pid, 0)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        if data:
            results.append((index, pickle.loads(data)))
        else:
            results.append((index, {"died": struct.unpack_from("<ii", progress, 8 + 8 * index)}))
    return results


def write_replay(prop, tier, family, index, case, message, shard):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "%s-%s.json" % (prop, family))
    with open(path, "w") as out:
        json.dump({"property": prop, "tier": tier, "family": family, "index": index, "case": case,
                   "shard": shard, "workers": WORKERS, "message": message}, out, indent=1)
    return path


def case_at(prop, tier, family_index, case_index):
    import_target()
    family = load(prop).families(tier)[family_index]
    for i, case in enumerate(family.cases(tier)):
        if i == case_index:
            return family.name, case
    return family.name, None


# the checks live where local time is never UTC: dates without zone stand for UTC everywhere
ZONE = "<-0345>3:45<-0245>,M3.5.0,M10.5.0"


def check(prop, tier):
    began = time.time()
    os.environ["TZ"] = ZONE
    time.tzset()
    results = explore(prop, tier)
    for _, result in results:
        if result.get("error"):
            sys.stdout.write(result["error"])
            # code under test that cannot even be imported or set up is broken
            if "opyenxes" in result["error"]:
                path = write_replay(prop, tier, "import", 0, None, result["error"], 0)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
            return 2
    violations = []
    for index, result in results:
        if "died" in result:
            f, i = result["died"]
            name, case = case_at(prop, tier, f, i)
            violations.append((f, i, name, case, "the process running this case died", index))
        else:
            violations.extend(v + (index,) for v in result["violations"])
    alive = [r for _, r in results if "died" not in r]
    module = alive[0]["meta"] if alive else {"level": "other", "rule": "", "assumptions": []}
    states = set()
    for result in alive:
        states |= result["states"]
    families = {}
    for result in alive:
        for name, (total, samples, seconds) in result["families"].items():
            entry = families.setdefault(name, {"cases": 0, "seconds": 0.0, "samples": []})
            entry["cases"] = max(entry["cases"], total)
            entry["seconds"] = round(max(entry["seconds"], seconds), 2)
            if not entry["samples"]:
                entry["samples"] = samples[:1]
    extra = {}
    for result in alive:
        for name, n in result["extra"].items():
            extra[name] = max(extra.get(name, 0), n) if name.startswith("max_") else extra.get(name, 0) + n
    cases = sum(r["cases"] for r in alive)
    steps = sum(r["steps"] for r in alive)
    samples = [{"family": name, "case": json.loads(short_json(s))}
               for name, entry in families.items() for s in entry["samples"]]
    level = module["level"]
    coverage = {"families": {n: {"cases": e["cases"], "seconds": e["seconds"]} for n, e in families.items()},
                "exhaustive": not violations, "samples": samples}
    if level == "model_checking":
        coverage.update(states=len(states), transitions=steps, traces_validated_against_impl=extra.get("schedules", cases))
    else:
        coverage.update(evaluations=cases, distinct_nontrivial=len(states), rule=module["rule"],
                        implementation_steps=steps)
    coverage.update(extra)
    evidence = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
                "level": level, "coverage": coverage, "assumptions": module["assumptions"],
                "wall_s": round(time.time() - began, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as out:
        json.dump(evidence, out, indent=1)
        out.write("\n")
    listed = {}
    for result in alive:
        for name, case, what in result["known"]:
            listed[(name, json.dumps(case))] = what
    for (name, case), what in sorted(listed.items()):
        print("KNOWN-FINDING: property=%s %s (%s %s)" % (prop, what, name, case))
    for name, entry in families.items():
        print("%s %-28s %8d cases %7.2f s" % (prop, name, entry["cases"], entry["seconds"]))
    print("%s %s: %d cases, %d distinct states, %d steps, %.1f s" % (
        prop, tier, cases, len(states), steps, time.time() - began))
    if violations:
        f, i, name, case, message, index = min(violations, key=lambda v: (v[0], v[1]))
        path = write_replay(prop, tier, name, i, case, message, index)
        print("  family %s case %s" % (name, short(case)))
        print("  " + message[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def short_json(case):
    text = json.dumps(case)
    return text if len(text) < 600 else json.dumps(text[:600] + "...")


def replay(path):
    with open(path) as stream:
        record = json.load(stream)
    prop = record["property"]
    os.environ["TZ"] = ZONE
    time.tzset()
    pid = os.fork()
    if pid == 0:
        saved = os.dup(1)
        null = os.open(os.devnull, os.O_RDWR)
        os.dup2(null, 1)
        scratch = tempfile.mkdtemp(prefix="mc-replay-")
        os.environ["HOME"] = scratch
        import_target()
        family = [f for f in load(prop).families(record["tier"]) if f.name == record["family"]][0]
        message = run_case(Ctx(record["tier"], scratch), family, record["case"])
        shutil.rmtree(scratch, ignore_errors=True)
        if message is not None:
            os.write(saved, ("reproduced in a fresh process: %s\n" % message).encode())
        os._exit(0 if message is None else 1)
    _, status = os.waitpid(pid, 0)
    if status != 0:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("the case alone passes in a fresh process; running the cases before it too")
    results = explore(prop, record["tier"], record["workers"], None, record["shard"])
    for _, result in results:
        if result.get("violations"):
            print("reproduced after its history: %s" % (result["violations"][0][4],))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
    print("not reproduced")
    return 0


def main(arguments):
    if len(arguments) >= 2 and arguments[0] == "--replay":
        return replay(arguments[1])
    prop = arguments[0].upper()
    tier = arguments[1] if len(arguments) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(prop, tier)
