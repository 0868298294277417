"""Run by P40 in an interpreter of its own: performs all tasks, writes what they saw to the file given."""
import locale
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(sys.argv[1], "src"))
from mc import tasks  # noqa: E402


def main():
    scratch, target, first = sys.argv[2:5]
    if "LOCPATH" in os.environ:
        # as programs do that show numbers and dates to their users
        locale.setlocale(locale.LC_ALL, "")
    names = list(tasks.TASKS) + list(tasks.MORE)
    start = names.index(first)
    seen = {}
    for name in names[start:] + names[:start]:
        task = tasks.TASKS.get(name) or tasks.MORE[name]
        try:
            seen[name] = ("value", task(tasks.environment(scratch, os.getpid())))
        except Exception as error:
            seen[name] = ("failed", "%s: %s" % (type(error).__name__, error))
    with open(target, "wb") as out:
        out.write(pickle.dumps(seen))


main()
