"""P04: what is read does not depend on how the document's bytes are delivered."""
import gzip
import io
import os
import itertools
from mc import model, mxmldoc, xesdoc
from mc.core import Family, same
from mc.props import p03, p08

LEVEL = "model_checking"
ASSUMPTIONS = ["a reader delivers at least one byte or character per call until the document ends"]


class Pieces:
    """A file object that delivers the document in the given pieces, whatever
    is asked for (never more than asked for)."""
    def __init__(self, data, cuts):
        edges = [0] + list(cuts) + [len(data)]
        self.pieces = [data[a:b] for a, b in zip(edges, edges[1:]) if a < b]
        self.empty = data[:0]

    def read(self, size=-1):
        if size == 0 or not self.pieces:
            return self.empty
        piece = self.pieces.pop(0)
        if 0 <= size < len(piece):
            self.pieces.insert(0, piece[size:])
            piece = piece[:size]
        return piece

    def close(self):
        pass


_documents = {}


def documents():
    if not _documents:
        rich = p03.in_log(p03.RICH[2] + p03.WIDE[2] + p03.UNICODE[2])
        mxml = p08.document([2, [1, 2, 3]])
        mxml[2].append(p08.n("Process", {"id": "\u4e2d"}, *p08.PROCESS))
        mxml[2][0][2][0][2].append(p08.attribute("k\u00e9", "a\u00e9b\U0001f600c\u4e2d d\u2028e\nf"))
        _documents["xes"] = (rich, p03.render(rich, "indent"))
        _documents["mxml"] = (mxml, mxmldoc.render(mxml, "\n "))
        big = p03.in_log([p03.leaf("string", "\u4e2d%d" % i, "\u00e9" * (i % 97) + "\U0001f600") for i in range(900)] + [
            p03.n("trace", {}, *[p03.n("event", {}, p03.leaf("string", "long", "\u4e2d" * n + "x"))
                                 for n in (70000, 65514, 65515, 65516, 65535, 65536, 65537, 131072)])])
        _documents["big-xes"] = (big, p03.render(big))
        bigm = p08.n("WorkflowLog", {}, p08.n("Process", {"id": "big"}, *[
            p08.instance({"id": str(i)}, p08.n("AuditTrailEntry", {}, p08.n("Data", {}, p08.attribute("a", "\u4e2d" * n + "y")),
                                               p08.n("WorkflowModelElement", {}, "n" * n)))
            for i, n in enumerate((1, 65000, 65515, 65516, 65536, 70000))]))
        _documents["big-mxml"] = (bigm, mxmldoc.render(bigm, ""))
    return _documents


def expected(name):
    key = "expected-" + name
    if key not in _documents:
        root, _ = documents()[name]
        if "mxml" in name:
            _documents[key] = mxmldoc.reference(root)
        else:
            document, _ = xesdoc.reference(root, p03.BY_URI)
            _documents[key] = [model.expected_log(document)]
    return _documents[key]


def parser(name):
    from opyenxes.data_in.XMxmlParser import XMxmlParser
    from opyenxes.data_in.XesXmlParser import XesXmlParser
    return XMxmlParser() if "mxml" in name else XesXmlParser()


def compare(ctx, name, source, what):
    same([model.seen_log(log) for log in parser(name).parse(source)], expected(name), "logs read " + what)
    ctx.step()


def content(name, encoding):
    text = documents()[name][1]
    if encoding == "text":
        return '<?xml version="1.0"?>' + text
    return ('<?xml version="1.0" encoding="%s"?>' % encoding + text).encode(encoding)


def split_cases():
    for name in ("xes", "mxml"):
        for encoding in ("utf-8", "utf-16", "text"):
            for cut in range(1, len(content(name, encoding))):
                yield [name, encoding, cut]


def split(ctx, case):
    name, encoding, cut = case
    ctx.state("%s %s %d" % tuple(case))
    compare(ctx, name, Pieces(content(name, encoding), [cut]), "in two pieces")


def chunk_cases(limit):
    for name in ("xes", "mxml"):
        for encoding in ("utf-8", "utf-16", "text"):
            for size in range(1, limit):
                yield [name, encoding, size, 0]
    for name in ("big-xes", "big-mxml"):
        for encoding in ("utf-8", "utf-16", "text"):
            for size in (1021, 4096, 16384, 65515, 65516, 65517, 65535, 65536, 65537, 131072, 1 << 20):
                for first in (0, 1, 2, 3):
                    yield [name, encoding, size, first]


def chunk(ctx, case):
    name, encoding, size, first = case
    data = content(name, encoding)
    ctx.state("%s %s chunks %d %d" % tuple(case))
    compare(ctx, name, Pieces(data, ([first] if first else []) + list(range(first + size, len(data), size))), "in pieces")


def pair_cases():
    for name in ("xes", "mxml"):
        length = len(content(name, "utf-8"))
        for a in range(1, length):
            for b in range(a + 1, min(a + 7, length)):
                yield [name, a, b]


def pair(ctx, case):
    name, a, b = case
    ctx.state("%s pair %d %d" % tuple(case))
    compare(ctx, name, Pieces(content(name, "utf-8"), [a, b]), "in three pieces")


ENCODINGS = ["utf-8", "utf-16"]
WAYS = ["path", "binary file", "text file", "unbuffered", "bytes", "string", "small buffer", "input source"]


def way_cases():
    for name in ("xes", "mxml", "big-xes", "big-mxml"):
        for encoding in ENCODINGS:
            for way in WAYS:
                yield [name, encoding, way]


def way(ctx, case):
    name, encoding, kind = case
    ctx.state("%s %s %s" % tuple(case))
    data = content(name, encoding)
    path = os.path.join(ctx.scratch, "document." + name)
    with open(path, "wb") as out:
        out.write(data)
    try:
        if kind == "path":
            compare(ctx, name, path, kind)
        elif kind == "binary file":
            with open(path, "rb") as stream:
                compare(ctx, name, stream, kind)
        elif kind == "unbuffered":
            with open(path, "rb", buffering=0) as stream:
                compare(ctx, name, stream, kind)
        elif kind == "small buffer":
            with open(path, "rb", buffering=5) as stream:
                compare(ctx, name, stream, kind)
        elif kind == "text file":
            with open(path, encoding=encoding) as stream:
                compare(ctx, name, stream, kind)
        elif kind == "bytes":
            compare(ctx, name, io.BytesIO(data), kind)
        elif kind == "string":
            compare(ctx, name, io.StringIO(content(name, "text")), kind)
        else:
            from xml.sax.xmlreader import InputSource
            source = InputSource()
            source.setByteStream(io.BytesIO(data))
            compare(ctx, name, source, kind)
    finally:
        os.remove(path)


def declared_cases():
    for name in ("xes", "mxml", "big-xes", "big-mxml"):
        for encoding in ("utf-8", "UTF-16", "ISO-8859-1", "us-ascii", "windows-1252", "UTF-8"):
            for way in ("string", "text file", "pieces", "character stream", "wrapper"):
                yield [name, encoding, way]


def declared(ctx, case):
    """A document given as text is what the text says, whatever encoding it once had."""
    name, encoding, way = case
    ctx.state("declared %s %s %s" % tuple(case))
    text = '<?xml version="1.0" encoding="%s"?>' % encoding + documents()[name][1]
    if way == "string":
        compare(ctx, name, io.StringIO(text), "as %s" % case)
    elif way == "wrapper":
        compare(ctx, name, io.TextIOWrapper(io.BytesIO(text.encode("utf-32")), "utf-32"), "as %s" % case)
    elif way == "pieces":
        compare(ctx, name, Pieces(text, range(7, len(text), 1001)), "as %s" % case)
    elif way == "character stream":
        from xml.sax.xmlreader import InputSource
        source = InputSource()
        source.setCharacterStream(io.StringIO(text))
        compare(ctx, name, source, "as %s" % case)
    else:
        path = os.path.join(ctx.scratch, "document." + name)
        with open(path, "w", encoding="utf-8") as out:
            out.write(text)
        with open(path, encoding="utf-8") as stream:
            compare(ctx, name, stream, "as %s" % case)
        os.remove(path)


def compressed_parser(name):
    from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
    from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
    return XMxmlGZIPParser() if "mxml" in name else XesXmlGZIPParser()


def member(data, level, named):
    out = io.BytesIO()
    with gzip.GzipFile("n\u00e9 name.xes" if named else "", "wb", level, out, 86400 * named) as stream:
        stream.write(data)
    return out.getvalue()


def compressed(ctx, case):
    """A compressed document, of members that end at the given places."""
    name, cuts, level, named, opened, padding = case
    data = content(name, "utf-8")
    edges = [0] + list(cuts) + [len(data)]
    path = os.path.join(ctx.scratch, "document.gz")
    with open(path, "wb") as out:
        out.write(b"".join(member(data[a:b], level, named) for a, b in zip(edges, edges[1:])) + b"\0" * padding)
    ctx.state("%s gz %s" % (name, case))
    try:
        with open(path, opened) as stream:
            same([model.seen_log(log) for log in compressed_parser(name).parse(stream)], expected(name), "logs read from a compressed file")
        ctx.step()
    finally:
        os.remove(path)


def compressed_cases(quick):
    for name in ("xes", "mxml"):
        length = len(content(name, "utf-8"))
        for cut in range(0, length + 1, 1 if not quick else 3):
            yield [name, [cut], 6, 0, "r", 0]
        for a, b in itertools.product(range(0, length + 1, length // 12), repeat=2):
            if a <= b:
                yield [name, [a, b], 1, 1, "rb", 0]
        for size in (1, 7, 50):
            yield [name, list(range(size, length, size)), 9, 0, "rb", 0]
    for name in ("xes", "mxml", "big-xes", "big-mxml"):
        for level in range(10):
            for named in (0, 1):
                for opened in ("r", "rb"):
                    for padding in (0, 1, 512):
                        if not name.startswith("big") or level in (0, 9) and padding < 2:
                            yield [name, [], level, named, opened, padding]
    for name in ("big-xes", "big-mxml"):
        length = len(content(name, "utf-8"))
        for size in (65536, 131072, length // 2, length - 1, length - 10):
            yield [name, list(range(size, length, size)), 6, 0, "r", 0]


def families(tier):
    quick = tier == "quick"
    return [
        Family("two-pieces", lambda _: split_cases(), split),
        Family("equal-pieces", lambda _: chunk_cases(40 if quick else 300), chunk),
        Family("three-pieces", lambda _: pair_cases(), pair),
        Family("compressed", lambda _: compressed_cases(quick), compressed),
        Family("sources", lambda _: way_cases(), way),
        Family("declared-encodings", lambda _: declared_cases(), declared),
    ]
