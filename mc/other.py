"""Run by P41 in an interpreter of its own: takes the logs sent to it, says what they are and sends them back."""
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(sys.argv[1], "src"))
from mc import model  # noqa: E402


def document(log):
    lines = model.write_xes(log).split("\n")
    return [sorted(line for line in lines if line.startswith("\t<extension ")), [line for line in lines if not line.startswith("\t<extension ")]]


def main():
    source, target, protocol = sys.argv[2:5]
    with open(source, "rb") as stream:
        logs = pickle.load(stream)
    answer = [(model.seen_log(log), dict(log.get_features()), [[str(e.get_id()) for e in t] for t in log], document(log)) for log in logs]
    with open(target, "wb") as out:
        out.write(pickle.dumps((answer, pickle.dumps(logs, int(protocol))), 4))


main()
