"""P40: results do not depend on the surroundings of the process."""
import itertools
import os
import pickle
import shutil
import subprocess
import sys
from mc import core, tasks
from mc.core import Family, same, Violation

LEVEL = "model_checking"
ASSUMPTIONS = ["the interpreter, its version and the operating system stay the same"]
LOCALES = {"utf-8": {"LC_ALL": "C.UTF-8"}, "ascii": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
           "latin-1 streams": {"LC_ALL": "C.UTF-8", "PYTHONIOENCODING": "latin-1:strict"}}
# locales with other decimal points, names of months and letters; made here, because the system may have none
COUNTRIES = ["de_DE", "tr_TR", "th_TH"]
ZONES = ["UTC", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45"]
FLAGS = ["", "-O", "-OO"]
OUTPUT = ["kept", "closed"]
BASE = ["1", "utf-8", "UTC", "", "kept", "xes"]
_base = []


def perform(ctx, case):
    seed, locale, zone, flag, output, first = case
    home = os.path.join(ctx.scratch, "surroundings")
    os.makedirs(home, exist_ok=True)
    target = os.path.join(ctx.scratch, "seen")
    if os.path.exists(target):
        os.remove(target)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON"))}
    if locale in COUNTRIES:
        env.update(LC_ALL=country(ctx, locale), LOCPATH=os.path.join(ctx.scratch, "locales"))
    else:
        env.update(LOCALES[locale])
    env.update(PYTHONHASHSEED=seed, TZ=zone, HOME=home)
    command = [sys.executable, "-B"] + flag.split() + [os.path.join(core.VERIF, "mc", "inside.py"), core.REPO, ctx.scratch, target, first]
    if output == "closed":
        command = ["/bin/sh", "-c", 'exec "$@" >&-', "sh"] + command
    done = subprocess.run(command, env=env, cwd=home, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if not os.path.exists(target):
        raise Violation("with %s the program ended early: %s" % (case, done.stderr.decode("utf-8", "replace")[-400:]))
    with open(target, "rb") as stream:
        return pickle.load(stream)


def country(ctx, name):
    path = os.path.join(ctx.scratch, "locales", name + ".UTF-8")
    if not os.path.exists(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        subprocess.run(["localedef", "-i", name, "-f", "UTF-8", path], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return name + ".UTF-8"


def run(ctx, case):
    if not _base:
        _base.append(perform(ctx, BASE))
    seen = perform(ctx, case)
    for name, answer in sorted(seen.items()):
        if answer[0] == "failed":
            raise Violation("%s failed with %s: %s" % (name, case, answer[1]))
        same(answer[1], _base[0][name][1], "%s with %s" % (name, case))
        ctx.step()
        ctx.state(repr((name, case)))


def cases(seeds):
    yield BASE
    for seed, locale, zone, flag, output in itertools.product(map(str, range(seeds)), LOCALES, ZONES, FLAGS, OUTPUT):
        yield [seed, locale, zone, flag, output, "xes"]
    if shutil.which("localedef"):
        for seed, locale, zone, flag in itertools.product(map(str, range(seeds // 2)), COUNTRIES, ZONES, FLAGS):
            yield [seed, locale, zone, flag, "kept", "xes"]
    for first in list(tasks.TASKS) + list(tasks.MORE):
        for seed, locale in itertools.product(map(str, range(seeds)), LOCALES):
            yield [seed, locale, "UTC", "", "kept", first]


def families(tier):
    return [Family("surroundings", lambda _: cases(4 if tier == "quick" else 16), run)]
