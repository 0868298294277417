"""P35: a log that could not be written completely is reported, and stays as it was."""
import gzip
import io
import itertools
import os
import resource
import signal
from mc import model, mxmldoc
from mc.core import Family, isolated, same, expect
from mc.props import p07

LEVEL = "fault_enumeration"
RULE = ("a case is one byte at which the target of a serializer fails, for one log, one serializer and one kind of target; "
        "distinct ones differ in one of these")
ASSUMPTIONS = ["the target reports its failure; one that accepts a part of what is written says so, being an unbuffered file"]
LOGS = {"small": {"a": [["string", "concept:name", "p", []]], "t": [[[["string", "concept:name", "i", []]], [[["string", "concept:name", "e", []]]]]]},
        "rich": {"x": ["concept", "time"], "gt": [["string", "concept:name", "g", []]], "ge": [["int", "n", 0, []]],
                 "c": [["C", ["concept:name", "a b"]]], "a": [["string", "k\u00e9", "v\u4e2d <&>", [["int", "below", 7, []]]]],
                 "t": [[[], [[["date", "time:timestamp", [2016, 2, 29, 1, 2, 3, 4000, 60], []], ["string", "concept:name", "e", []]], []]],
                       [[["string", "concept:name", "t2", []]], [[["boolean", "b", False, []], ["float", "f", 1.5, []]]]]]},
        "standard": {"a": [["string", "semantic:modelReference", "http://m", []], ["string", "lifecycle:model", "standard", [["string", "semantic:modelReference", "u", []]]]],
                     "t": [[[["string", "semantic:modelReference", "t", []], ["list", "l", "b", [["int", "n", 1, []]]]],
                            [[["string", "semantic:modelReference", "e", []], ["string", "lifecycle:transition", "start", []], ["string", "org:resource", "r", []],
                              ["string", "org:role", "o", []], ["id", "identity:id", "12345678-1234-5678-1234-567812345678", []]]]]]},
        "long": {"t": [[[], [[["string", "concept:name", "x" * 40000 + str(i), []]] for i in range(4)]]]}}
def spread(n, what):
    if what == "events":
        traces = [[[["string", "concept:name", "t", []]], [[["string", "concept:name", "e%d" % i, []]] for i in range(n)]]]
    elif what == "traces":
        traces = [[[["string", "concept:name", "t%d" % i, []]], [[["string", "concept:name", "e", []]]]] for i in range(n)]
    else:
        traces = [[[["string", "concept:name", "t", []]], [[["string", "concept:name", "e", []], ["string", "k%d" % i, "v" * 500, []]] for i in range(n)]]]
    return {"a": [["string", "concept:name", "p", []]], "t": traces}


# many small parts
MANY = {"many events": spread(700, "events"), "many traces": spread(300, "traces"), "many values": spread(60, "values")}
LOGS.update(MANY)
SERIALIZERS = ["XesXmlSerializer", "XMxmlSerializer", "XesXmlGZIPSerializer", "XMxmlGZIPSerializer"]


def serializer(name):
    import importlib
    return getattr(importlib.import_module("opyenxes.data_out." + name), name)()


class Target:
    """Takes `room` bytes or characters altogether, then fails."""

    def __init__(self, room, binary):
        self.room, self.binary, self.parts = room, binary, []

    def write(self, piece):
        expected = bytes if self.binary else str
        expect(isinstance(piece, expected), "a", type(piece).__name__, "was written")
        if len(piece) > self.room:
            self.room = 0
            raise OSError(28, "No space left on device")
        self.room -= len(piece)
        self.parts.append(piece)
        return len(piece)

    def flush(self):
        pass

    def close(self):
        pass

    def content(self):
        return (b"" if self.binary else "").join(self.parts)


def failed(action):
    try:
        action()
    except Exception:
        return True
    return False


def read_back(name, data):
    if "Mxml" in name:
        return [model.seen_log(l) for l in p07.read(data)]
    return [model.seen_log(model.read_xes(data))]


def wanted(name, which):
    if "Mxml" in name:
        return mxmldoc.reference(mxmldoc.document(LOGS[which]))
    return [model.expected_log(LOGS[which])]


_sizes = {}


def size_of(name, which, binary):
    key = (name.replace("GZIP", ""), which, binary)
    if key not in _sizes:
        target = Target(10 ** 9, binary)
        if binary:
            serializer(key[0]).serialize(model.build_log(LOGS[which]), target, True)
        else:
            serializer(key[0]).serialize(model.build_log(LOGS[which]), target)
        _sizes[key] = len(target.content())
    return _sizes[key]


def stream(ctx, case):
    name, which, binary, rooms = case
    log = model.build_log(LOGS[which])
    before = model.seen_log(log)
    one = serializer(name)
    total = size_of(name, which, binary)
    for room in rooms:
        target = Target(room, binary)
        did = failed(lambda: one.serialize(log, target, True) if binary else one.serialize(log, target))
        same(did, room < total, "failure reported with room for %d of %d" % (room, total))
        same(model.seen_log(log), before, "the log after writing to a target with room for %d" % room)
        ctx.state("%s %s %s %d" % (name, which, binary, room))
        ctx.step()
    target = Target(10 ** 9, True)
    one.serialize(log, target, True)
    same(read_back(name, target.content()), wanted(name, which), "the log written after the failures")


def stream_cases(quick):
    for name in SERIALIZERS[:2]:
        for which in LOGS:
            for binary in (False, True):
                total = size_of(name, which, binary)
                rooms = list(range(0, total + 2)) if which != "long" else [0, 1, 4095, 4096, 8191, 8192, 65535, 65536, total - 1, total]
                if which in MANY:
                    rooms = list(range(0, total, 997 if quick else 97)) + list(range(total - (16 if quick else 400), total + 1))
                    rooms += [b + i for b in (8192, 16384, 65536) for i in (-1, 0, 1) if b < total]
                for i in range(0, len(rooms), 16):
                    yield [name, which, binary, rooms[i:i + 16]]


def limited(ctx, case):
    """A file system that takes no file larger than `limit`."""
    name, which, mode, limits = case
    log = model.build_log(LOGS[which])
    before = model.seen_log(log)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    path = os.path.join(ctx.scratch, "limited")
    hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]

    def write():
        if mode == "text":
            with open(path, "w", encoding="utf-8") as out:
                serializer(name).serialize(log, out)
        elif mode in ("small buffer", "unbuffered"):
            with open(path, "wb", buffering=16 if mode == "small buffer" else 0) as out:
                serializer(name).serialize(log, out, True)
        else:
            with open(path, "wb") as out:
                serializer(name).serialize(log, out, True)
    for limit in limits:
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
        try:
            did = failed(write)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
        complete = False
        with open(path, "rb") as written:
            data = written.read()
        try:
            complete = read_back(name, gzip.decompress(data) if "GZIP" in name else data) == wanted(name, which)
        except Exception:
            pass
        expect(did or complete, "only", len(data), "bytes of the document could be written, and nothing was reported")
        expect(limit < 10 ** 8 or complete, "the whole document was not written")
        same(model.seen_log(log), before, "the log after writing to a file of at most %d bytes" % limit)
        ctx.state("%s %s %s %d" % (name, which, mode, limit))
        ctx.count("failed", did)
        ctx.step()
    if limits:
        write()
        with open(path, "rb") as written:
            data = written.read()
        same(read_back(name, gzip.decompress(data) if "GZIP" in name else data), wanted(name, which), "the log written after the failures")
    os.remove(path)


def limited_cases(quick):
    for name in SERIALIZERS:
        gz = "GZIP" in name
        for which in LOGS:
            for mode in ("binary", "text", "small buffer", "unbuffered"):
                if gz and "buffer" in mode:
                    continue
                total = 700 if gz else size_of(name, which, True)
                if gz and which in MANY:
                    limits = [0, 1, 10, 500, 1023, 1024, 2047, 2048, 4095, 4096, 10 ** 9]
                elif which in MANY:
                    limits = [0, 1, 8191, 8192, 16384, total // 2, total - 9000, total - 2, total - 1, 10 ** 9]
                elif which == "long":
                    limits = [0, 1, 10, 100, 500, 4095, 4096, 8192, 65536, total - 1, 10 ** 9]
                else:
                    limits = list(range(total + 1)) + [total - 1, 10 ** 9]
                for i in range(0, len(limits), 32):
                    yield [name, which, mode, limits[i:i + 32]]


class Unbuffered(io.RawIOBase):
    """Takes at most `most` bytes at a time, and `room` altogether."""

    def __init__(self, most, room):
        super().__init__()
        self.most, self.room, self.parts = most, room, []

    def writable(self):
        return True

    def write(self, piece):
        piece = bytes(piece)
        if self.room == 0 and piece:
            raise OSError(28, "No space left on device")
        took = piece[:min(self.most, self.room)]
        self.room -= len(took)
        self.parts.append(took)
        return len(took)


def unbuffered(ctx, case):
    """A target that takes a part of what it is given."""
    name, which, most, rooms = case
    log = model.build_log(LOGS[which])
    before = model.seen_log(log)
    total = size_of(name, which, True)
    for room in rooms + [10 ** 9]:
        target = Unbuffered(most, room)
        did = failed(lambda: serializer(name).serialize(log, target, True))
        same(did, room < total, "failure reported with room for %d of %d" % (room, total))
        same(model.seen_log(log), before, "the log after writing to a target with room for %d" % room)
        ctx.state("%s %s %d %d" % (name, which, most, room))
        ctx.step()
    same(read_back(name, b"".join(target.parts)), wanted(name, which), "the log written %d bytes at a time" % most)


def unbuffered_cases(quick):
    for name in SERIALIZERS[:2]:
        for which in LOGS:
            total = size_of(name, which, True)
            if which == "long" or which in MANY:
                yield [name, which, 65536, [0, 1, 65535, 65536, 65537, total - 1, total]]
                continue
            for most in list(range(1, 33)) + [total // 2, total - 1, total, total + 1]:
                yield [name, which, most, [0, 1, most - 1, most, most + 1, total - most, total - 1, total] if most < total - 1 else [0, 1, total - 1, total]]


class Quiet(Target):
    """Does not say how much it took."""

    def write(self, piece):
        super().write(piece)


def quiet(ctx, case):
    """Targets that say nothing take everything, or fail."""
    name, which, binary, room = case
    log = model.build_log(LOGS[which])
    total = size_of(name, which, binary)
    target = Quiet(total + room, binary)
    did = failed(lambda: serializer(name).serialize(log, target, True) if binary else serializer(name).serialize(log, target))
    same(did, room < 0, "failure reported with room for %d more than %d" % (room, total))
    if not did:
        same(len(target.content()), total, "what was written")
        data = target.content() if binary else target.content().encode()
        same(read_back(name, data), wanted(name, which), "the log written")
    ctx.state(repr(case))
    ctx.step()


def full(ctx, case):
    """The device that is always full."""
    name, which, mode = case
    log = model.build_log(LOGS[which])
    before = model.seen_log(log)

    def write():
        with open("/dev/full", "w" if mode == "text" else "wb", buffering=0 if mode == "unbuffered" else -1) as out:
            if mode == "text":
                serializer(name).serialize(log, out)
            else:
                serializer(name).serialize(log, out, True)
    expect(failed(write), "nothing was reported by a full device")
    same(model.seen_log(log), before, "the log after writing to a full device")
    ctx.state(repr(case))
    ctx.step()


def families(tier):
    quick = tier == "quick"
    return [
        Family("failing-targets", lambda _: stream_cases(quick), stream),
        Family("limited-files", lambda _: limited_cases(quick), lambda ctx, c: isolated(ctx, limited, c)),
        Family("full-device", lambda _: ([n, w, m] for n in SERIALIZERS for w in LOGS for m in ("text", "binary", "unbuffered")), full),
        Family("quiet-targets", lambda _: itertools.product(SERIALIZERS[:2], LOGS, (False, True), (-1, 0, 1)), quiet),
        Family("unbuffered-targets", lambda _: unbuffered_cases(quick), unbuffered),
    ]
