"""P34: a document that ends too early, cannot be read to its end or was damaged in its compressed form never yields a log."""
import gzip
import io
import os
from mc import model, mxmldoc
from mc.core import Family, same, expect
from mc.props import p03, p08

LEVEL = "fault_enumeration"
RULE = ("a case is one byte after which the document ends, at which its source fails, or one damaged bit of its compressed form, "
        "for one format and one way of reading; distinct ones differ in one of these")
ASSUMPTIONS = ["white space after the end of the root element is not part of the document"]
_data = {}


def content(kind):
    if kind not in _data:
        if kind == "xes":
            root = p03.in_log([p03.LOG_FRAGMENTS[5], p03.LOG_FRAGMENTS[6], p03.leaf("string", "k\u00e9", "v <&> \u4e2d"),
                               p03.n("trace", {}, p03.EVENT, p03.n("event", {}, p03.leaf("int", "i", "12"))), p03.n("trace")])
            text = p03.render(root, "indent")
        else:
            root = p08.n("WorkflowLog", {}, p08.n("Source", {"program": "p"}), p08.n("Process", {"id": "a"}, p08.instance(
                {"id": "i"}, p08.FULL, p08.n("AuditTrailEntry", {}, p08.n("Data", {}, p08.attribute("k\u00e9", "\u4e2d"))))),
                p08.n("Process", {"id": "b"}, p08.instance({"id": "j"}, p08.FULL)))
            text = mxmldoc.render(root, "\n")
        _data[kind] = ('<?xml version="1.0" encoding="UTF-8"?>\n' + text).encode().rstrip()
        _data[kind + " logs"] = [model.seen_log(l) for l in parser(kind).parse(io.BytesIO(_data[kind]))]
    return _data[kind]


def parser(kind, gz=False):
    import importlib
    name = ("X" + "Mxml" if kind == "mxml" else "XesXml") + ("GZIP" if gz else "") + "Parser"
    return getattr(importlib.import_module("opyenxes.data_in." + name), name)()


def universal():
    from opyenxes.data_in.XUniversalParser import XUniversalParser
    return XUniversalParser()


class Source:
    """Delivers pieces of the given size; fails when it comes to byte `end`."""

    def __init__(self, data, size, end):
        self.data, self.size, self.end, self.at = data, size, end, 0

    def read(self, n=-1):
        if self.at >= self.end:
            raise OSError("the disk cannot be read")
        n = self.size if n is None or n < 0 else min(n, self.size)
        piece = self.data[self.at:min(self.end, self.at + n)]
        self.at += len(piece)
        return piece

    def close(self):
        pass


def attempt(read):
    """What was read, or None if that was refused."""
    try:
        logs = read()
    except Exception:
        return None
    return [None if log is None else model.seen_log(log) for log in logs]


def reading(ctx, kind, data, way, path):
    if way in ("file", "universal", "text file"):
        with open(path, "wb") as out:
            out.write(data)
        try:
            if way == "text file":
                with open(path, encoding="utf-8") as stream:
                    return attempt(lambda: parser(kind).parse(stream))
            with open(path, "rb") as stream:
                return attempt(lambda: (parser(kind) if way == "file" else universal()).parse(stream))
        finally:
            os.remove(path)
    if way == "path":
        with open(path, "wb") as out:
            out.write(data)
        try:
            return attempt(lambda: parser(kind).parse(path))
        finally:
            os.remove(path)
    if way == "bytes":
        return attempt(lambda: parser(kind).parse(io.BytesIO(data)))
    text = data.decode("utf-8", "ignore").replace(' encoding="UTF-8"', "")
    return attempt(lambda: parser(kind).parse(io.StringIO(text)))


WAYS = ["bytes", "string", "file", "text file", "path", "universal"]


def cut(ctx, case):
    kind, way, end = case
    whole = content(kind)
    got = reading(ctx, kind, whole[:end], way, os.path.join(ctx.scratch, "cut." + kind))
    ctx.state("%s %s %d" % tuple(case))
    if end < len(whole):
        expect(got is None, "of", len(whole), "bytes the first", end, "were read as", got)
    else:
        same(got, _data[kind + " logs"], "the whole document")
    ctx.step()


def cut_cases():
    for kind in ("xes", "mxml"):
        for end in range(len(content(kind)) + 1):
            for way in WAYS:
                yield [kind, way, end]


def failing(ctx, case):
    kind, size, end = case
    one = parser(kind)
    got = attempt(lambda: one.parse(Source(content(kind), size, end)))
    ctx.state("%s fails %d %d" % tuple(case))
    expect(got is None, "a source that fails at byte", end, "was read as", got)
    same(attempt(lambda: one.parse(io.BytesIO(content(kind)))), _data[kind + " logs"], "what the parser reads next")
    ctx.step(2)


def failing_cases():
    for kind in ("xes", "mxml"):
        for size in (1, 7, 1 << 16):
            for end in range(0, len(content(kind)), 5 if size == 1 else 1):
                yield [kind, size, end]


def packed(kind, level):
    return gzip.compress(content(kind), level, mtime=0)


def compressed(ctx, case):
    """Cut or damaged after compression."""
    kind, level, how, number = case
    data = packed(kind, level)
    if how == "cut":
        data = data[:number]
    elif how == "bit":
        damaged = bytearray(data)
        damaged[number // 8] ^= 1 << number % 8
        data = bytes(damaged)
    elif how == "member":
        # the second of two members is cut
        whole = content(kind)
        half = len(whole) // 2
        first, second = gzip.compress(whole[:half], level, mtime=0), gzip.compress(whole[half:], level, mtime=0)
        data = first + second[:number]
    elif how == "length":
        # the document goes on behind what the trailer covers
        data = data[:-4] + (len(content(kind)) + number).to_bytes(4, "little")
    path = os.path.join(ctx.scratch, "damaged.%s.gz" % kind)
    with open(path, "wb") as out:
        out.write(data)
    ctx.state("%s %d %s %d" % tuple(case))
    for any_parser in (parser(kind, True), universal()):
        with open(path, "rb") as stream:
            got = attempt(lambda: any_parser.parse(stream))
        if how == "cut" and number < len(packed(kind, level)):
            expect(got is None, "a compressed file cut after", number, "bytes was read as", got)
        expect(got is None or got == _data[kind + " logs"], "a damaged compressed file was read as", got)
        ctx.step()
    os.remove(path)


def compressed_cases(quick):
    for kind in ("xes", "mxml"):
        for level in (9,) if quick else (0, 1, 9):
            size = len(packed(kind, level))
            for n in range(size + 1):
                yield [kind, level, "cut", n]
            for n in range(8 * size):
                yield [kind, level, "bit", n]
            for n in range(0, size - 20):
                yield [kind, level, "member", n]
            for n in (-1, 1, 256, 0):
                yield [kind, level, "length", n]


def swap_cases():
    """A document whose bytes are damaged in the middle of a character."""
    for kind in ("xes", "mxml"):
        data = content(kind)
        for at in range(len(data)):
            if data[at] >= 0xC0:
                for bad in (0xFF, 0x20, 0x80):
                    yield [kind, at, bad]


def bad_utf8(ctx, case):
    kind, at, bad = case
    data = bytearray(content(kind))
    data[at] = bad
    got = reading(ctx, kind, bytes(data), "bytes", None)
    ctx.state(repr(case))
    expect(got is None, "a document that is not UTF-8 at byte", at, "was read as", got)
    ctx.step()


PIECES = [b"<", b"&", b">", b'"', b"'", b"/", b"=", b"-", b"!", b"x", b"\x00", b" ", b"<x>", b"</x>", b"<x/>", b"&u;", b"<![CDATA[", b"]]>", b"<!--", b"<?x", b"\xc3"]


def well_formed(data):
    from xml.parsers import expat
    try:
        expat.ParserCreate().Parse(data, True)
    except (expat.ExpatError, LookupError):
        return False
    return True


def broken_markup(ctx, case):
    """A byte of the document replaced by a piece, or a piece put before it:
    what is not well-formed any more is refused."""
    kind, at = case
    whole = content(kind)
    for piece in PIECES:
        for data in (whole[:at] + piece + whole[at + 1:], whole[:at] + piece + whole[at:]):
            if not well_formed(data):
                got = reading(ctx, kind, data, "bytes", None)
                expect(got is None, "a document broken by", piece, "at byte", at, "was read as", got)
                ctx.step()
    ctx.state(repr(case))


def markup_cases():
    for kind in ("xes", "mxml"):
        for at in range(len(content(kind)) + 1):
            yield [kind, at]


def behind_cases():
    for kind in ("xes", "mxml"):
        for more in ("x", "<x/>", "<x>", "</x>", "&x;", "]]>", "\x00", "<", "<!--", "<?xml version='1.0'?>", "same", "other", "<!DOCTYPE x>", "\n\nx", "<![CDATA[]]>"):
            for way in WAYS:
                for spaces in ("", "\n"):
                    yield [kind, more, way, spaces]


def behind(ctx, case):
    """Something behind the end of the document."""
    kind, more, way, spaces = case
    other = {"xes": "mxml", "mxml": "xes"}[kind]
    more = {"same": content(kind), "other": content(other)}.get(more, more.encode())
    got = reading(ctx, kind, content(kind) + spaces.encode() + more, way, os.path.join(ctx.scratch, "behind." + kind))
    expect(got is None, "a document followed by", more[:30], "was read as", got)
    ctx.step()
    ctx.state(repr(case))


LONG = {"values": 40, "traces": 900, "events": 2500, "deep": 60}
_long = {}


def long_content(kind, what):
    """A document of many blocks, its end, and what it contains."""
    if (kind, what) not in _long:
        n = LONG[what]
        if what == "values":
            log = {"t": [[[["string", "concept:name", "t", []]], [[["string", "concept:name", "e%d" % i, []], ["string", "k", "x" * 4000 + str(i), []]] for i in range(n)]]]}
        elif what == "traces":
            log = {"t": [[[["string", "concept:name", "t%d" % i, []]], [[["string", "concept:name", "e", []]]]] for i in range(n)]}
        elif what == "events":
            log = {"t": [[[["string", "concept:name", "t", []]], [[["string", "concept:name", "e%d" % i, []]] for i in range(n)]], [[], []]]}
        else:
            inner = ["string", "leaf", "x" * 2000, []]
            for level in range(n):
                inner = ["string", "l%d" % level, "s" * 1000, [inner]]
            log = {"t": [[[["string", "concept:name", "t", []]], [[inner, ["string", "concept:name", "e", []]]]]]}
        out = io.BytesIO()
        if kind == "xes":
            from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer as Serializer
        else:
            from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer as Serializer
        Serializer().serialize(model.build_log(log), out, True)
        data = out.getvalue().rstrip()
        _long[kind, what] = data, [model.seen_log(l) for l in parser(kind).parse(io.BytesIO(data))], gzip.compress(data, 6, mtime=0)
        _data[kind + " " + what] = data
    return _long[kind, what]


def long_cut(ctx, case):
    """Documents of many blocks, cut near the ends of blocks, and near their own."""
    kind, what, way, end = case
    data, wanted, zipped = long_content(kind, what)
    if way == "compressed":
        path = os.path.join(ctx.scratch, "cut.%s.gz" % kind)
        with open(path, "wb") as out:
            out.write(zipped[:end])
        with open(path, "rb") as stream:
            got = attempt(lambda: parser(kind, True).parse(stream))
        with open(path, "rb") as stream:
            same(attempt(lambda: universal().parse(stream)), got, "what the universal parser reads")
        os.remove(path)
        whole = end >= len(zipped)
    elif way == "fails":
        got = attempt(lambda: parser(kind).parse(Source(data, 1 << 16, end)))
        whole = False
    else:
        got = reading(ctx, kind, data[:end], way, os.path.join(ctx.scratch, "cut." + kind))
        whole = end >= len(data)
    ctx.state(repr(case))
    if whole:
        same(got, wanted, "the whole document")
    else:
        expect(got is None, "of", len(data), "bytes the first", end, "were read as a log", got and len(got))
    ctx.step()


def long_cases(quick):
    for kind in ("xes", "mxml"):
        for what in LONG:
            data, _, zipped = long_content(kind, what)
            for way in WAYS[:1] + ["path", "text file", "compressed", "fails"] if quick else WAYS + ["compressed", "fails"]:
                total = len(zipped) if way == "compressed" else len(data)
                ends = {0, total, *range(max(0, total - (12 if quick else 40)), total)}
                for block in (4096, 8192, 16384, 65536) if not quick else (16384, 65536):
                    for start in range(block, total, block):
                        ends.update((start - 1, start, start + 1) if not quick or start % 65536 == 0 else (start,))
                # behind the ends of elements
                at = data.rfind(b"</")
                for _ in range(6):
                    if way != "compressed" and at > 0:
                        ends.update((at, data.index(b">", at) + 1))
                        at = data.rfind(b"</", 0, at)
                for end in sorted(ends):
                    if way != "fails" or end < total:
                        yield [kind, what, way, end]


def families(tier):
    quick = tier == "quick"
    content("xes"), content("mxml")
    return [
        Family("every-prefix", lambda _: cut_cases(), cut),
        Family("failing-sources", lambda _: failing_cases(), failing),
        Family("compressed", lambda _: compressed_cases(quick), compressed),
        Family("broken-markup", lambda _: markup_cases(), broken_markup),
        Family("more-than-a-document", lambda _: behind_cases(), behind),
        Family("long-documents", lambda _: long_cases(quick), long_cut),
        Family("broken-characters", lambda _: swap_cases(), bad_utf8),
    ]
