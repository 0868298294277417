"""P05: file names choose the format; compressed and plain files say the same."""
import gzip
import io
import itertools
import os
from mc import model, mxmldoc, spaces
from mc.core import Family, same, expect, Violation
from mc.logspaces import structure_spaces
from mc.props import p03, p04, p07, p08

LEVEL = "model_checking"
ASSUMPTIONS = ["file names have at least one character before the suffix"]
SUFFIXES = {".xes": "XesXmlParser", ".xes.gz": "XesXmlGZIPParser", ".xez": "XesXmlGZIPParser", ".mxml": "XMxmlParser",
            ".xml": "XMxmlParser", ".mxml.gz": "XMxmlGZIPParser"}
OTHER = ["", ".", ".x", ".xe", ".xess", ".axes", "xes", "xes.gz", "mxml", ".gz", ".xes.gzip", ".xes.zip", ".xml.gz", ".xez.gz",
         ".mxm", ".mxml.", ".xes ", ".xes.txt", ".mxml.gz.tmp", ".xes_", ".csv", ".gz.xe", ".xesgz", ".xes.g", "axml", ".\u0445es",
         ".xe\u017f", ".XE\u017f", ".xe\u017f.gz", ".m\u00d7ml", ".\uff58es", ".xe\uff53", ".xe\u1e9e", ".x\u0435s", ".xes\u0307", ".xes\u200b", ".mxm\u217c", ".xe\u0455", ".xe\u1d22",
         ".xes\n", ".xes.gz\n", ".xez\n", ".mxml\n", ".xml\n", ".mxml.gz\n", ".xes\t", ".xes/", ".xes\\", ".xes?", ".xes#a", ".xes*", "_xes", "/xes", "-xez", ".mxml_gz", "xgz"]
BASES = ["a", "a.b", "log", "dir/a", "dir.xes/a", "/x.mxml/y", "a b", "\u4e2d", "a.xes", "a.gz", "a.mxml", ".a", "a\n", "\n", "a\n.b", "*", "%", "C:\\a", "file:///a", "a?b=c", "A.XES.GZ", "x" * 200]


def cased(suffix):
    letters = [i for i, c in enumerate(suffix) if c.isalpha()]
    for mask in range(1 << len(letters)):
        upper = {letters[i] for i in range(len(letters)) if mask >> i & 1}
        yield "".join(c.upper() if i in upper else c for i, c in enumerate(suffix))


def name_cases():
    for suffix, parser in SUFFIXES.items():
        for s in cased(suffix):
            for base in BASES:
                yield [base + s, parser]
    for suffix in OTHER:
        for base in BASES:
            if not any((base + suffix).lower().endswith(s) for s in SUFFIXES):
                yield [base + suffix, None]


def parsers():
    from opyenxes.data_in.XMxmlParser import XMxmlParser
    from opyenxes.data_in.XesXmlParser import XesXmlParser
    from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
    from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
    return {"XesXmlParser": XesXmlParser(), "XesXmlGZIPParser": XesXmlGZIPParser(), "XMxmlParser": XMxmlParser(),
            "XMxmlGZIPParser": XMxmlGZIPParser()}


def long_names():
    """Names of all lengths, in many folders and with many dots."""
    for n in itertools.chain(range(1, 40), spaces.COUNTS, (4095, 4096, 4097, 65536)):
        for suffix, parser in list(SUFFIXES.items()) + [(s, None) for s in (".x", ".xes.", "xes", ".gz", ".xes.zip")]:
            for base in ("x" * n, "a." * n + "b", "d/" * n + "a", ".xes" * n + "x", ".gz" * n + "/a", "\u4e2d " * n):
                yield [base + suffix, parser]
                yield [base + suffix.upper(), parser]


def name_check(ctx, case):
    from opyenxes.data_in.XUniversalParser import XUniversalParser
    name, wanted = case
    ctx.state(name)
    for parser, instance in parsers().items():
        same(bool(instance.can_parse(name)), parser == wanted, "can_parse of %s for %r" % (parser, name))
    same(bool(XUniversalParser().can_parse(name)), wanted is not None, "can_parse of the universal parser for %r" % name)
    ctx.step(5)


def serializers():
    from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
    from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
    from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
    from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
    return {"xes": XesXmlSerializer(), "xes.gz": XesXmlGZIPSerializer(), "xez": XesXmlGZIPSerializer(),
            "mxml": XMxmlSerializer(), "mxml.gz": XMxmlGZIPSerializer()}


def suffices_case(ctx, case):
    from opyenxes.data_out.XSerializerRegistry import XSerializerRegistry
    from opyenxes.data_in.XParserRegistry import XParserRegistry
    found = sorted(s for serializer in XSerializerRegistry().get_available() for s in serializer.get_suffices())
    same(found, ["mxml", "mxml.gz", "xes", "xes.gz", "xez"], "suffixes of the registered serializers")
    same(sorted(type(p).__name__ for p in XParserRegistry().get_available()), sorted(set(SUFFIXES.values())), "registered parsers")
    same(type(XParserRegistry().current_default()).__name__, "XesXmlGZIPParser", "default parser")
    same(type(XSerializerRegistry().current_default()).__name__, "XesXmlGZIPSerializer", "default serializer")
    ctx.state("registry")
    ctx.step(3)


def open_for(path, suffix, how):
    if how == "text":
        return open(path, "w", encoding="utf-8")
    return open(path, "wb")


def write_cases(tier):
    for name, cases, _ in structure_spaces(tier):
        if name == "log-shapes" or name == "extensions" or name == "globals":
            for i, case in enumerate(cases()):
                if i % (3 if tier == "quick" else 1) == 0:
                    yield [name, case]
    for case in spaces.position_cases(1):
        yield ["positions", case]
    for case in spaces.tree_cases(2):
        yield ["attribute-trees", case]
    for n in (0, 1, 100, 1000, 5000):
        yield ["sizes", ["events", n]]
        yield ["sizes", ["value", n * 40]]
    for low in range(0, 0x3000, 0x100):
        yield ["characters", low]
    yield ["characters", 0x1f600]


def model_of(tier, case):
    name, inner = case
    for known, _, log_of in structure_spaces(tier):
        if known == name:
            return log_of(inner)
    text = spaces.block_text(inner)
    return {"a": [["string", "k" + text, "v" + text, []]], "t": [[[], [[["string", "concept:name", text, []]]]]]}


def write_check(ctx, case):
    from opyenxes.data_in.XUniversalParser import XUniversalParser
    log_model = model_of(ctx.tier, case)
    xes = model.expected_log(log_model)
    ctx.state(repr(xes))
    formats = {"xes": [xes]}
    formats["mxml"] = mxmldoc.reference(mxmldoc.document(log_model))
    log = model.build_log(log_model)
    plain = {}
    for suffix, serializer in serializers().items():
        kind = suffix.split(".")[0].replace("xez", "xes")
        if kind not in formats:
            continue
        path = os.path.join(ctx.scratch, "w." + suffix)
        for how in ("text", "binary"):
            if how == "binary" and suffix in ("xes", "mxml"):
                with open(path, "wb") as out:
                    serializer.serialize(log, out, True)
            else:
                with open_for(path, suffix, how) as out:
                    serializer.serialize(log, out)
            with open(path, "rb") as stream:
                data = stream.read()
            if suffix in ("xes", "mxml"):
                same(mxmldoc.parse_tree(data), plain.setdefault(kind, mxmldoc.parse_tree(data)), "document written to a %s file (%s)" % (suffix, how))
            else:
                try:
                    data = gzip.decompress(data)
                except Exception as error:
                    raise Violation("file written for suffix %s is not gzip: %s" % (suffix, error))
                same(mxmldoc.parse_tree(data), plain[kind], "decompressed %s file against the plain one" % suffix)
            for mode in ("r", "rb"):
                with open(path, mode, **({"encoding": "utf-8"} if mode == "r" else {})) as stream:
                    same([model.seen_log(l) for l in XUniversalParser().parse(stream)], formats[kind],
                         "%s file read by the universal parser" % suffix)
            ctx.step(3)
        os.remove(path)


ENCODINGS = ["ascii", "latin-1", "cp1252", "cp932", "koi8-r", "utf-8", "utf-8-sig", "utf-16"]
NEWLINES = [None, "", "\n", "\r\n"]
LETTERS = ["\u00e9", "\u00df \u20ac", "\u0416", "\u4e2d", "\U0001f600", "plain", "a\nb", "<&>'\"", "\u0085\u2028"]


def text_cases():
    for kind in ("xes", "mxml"):
        for encoding in ENCODINGS:
            for newline in NEWLINES:
                for a in range(len(LETTERS)):
                    for b in range(len(LETTERS)):
                        yield [kind, encoding, newline, a, b]


def text_check(ctx, case):
    """A text file of any encoding holds a document that is read as the log."""
    kind, encoding, newline, a, b = case
    from opyenxes.data_in.XUniversalParser import XUniversalParser
    log_model = {"a": [["string", "concept:name", LETTERS[a], []]], "c": [[LETTERS[b], ["k"]]] if kind == "xes" else [],
                 "t": [[[["string", "concept:name", LETTERS[b], []]], [[["string", "concept:name", LETTERS[a] + LETTERS[b], []], ["string", "d" + LETTERS[b], "x", []]]]]]}
    if kind == "mxml":
        wanted = mxmldoc.reference(mxmldoc.document(log_model))
    else:
        wanted = [model.expected_log(log_model)]
    path = os.path.join(ctx.scratch, "text." + kind)
    with open(path, "w", encoding=encoding, newline=newline) as out:
        serializers()[kind].serialize(model.build_log(log_model), out)
    with open(path, "rb") as stream:
        seen = [model.seen_log(log) for log in XUniversalParser().parse(stream)]
    same(seen, wanted, "log written to a text file in %s" % encoding)
    os.remove(path)
    ctx.step()
    ctx.state(repr((kind, a, b)))


def gzip_cases():
    for kind in ("xes", "mxml"):
        for way in ("level0", "level1", "level9", "members", "many members", "empty member", "named", "text"):
            for encoding in ("utf-8", "utf-16"):
                for suffix in ([".xes.gz", ".xez", ".XES.GZ", ".Xez"] if kind == "xes" else [".mxml.gz", ".MXML.GZ"]):
                    yield [kind, way, encoding, suffix]
                    yield ["big-" + kind, way, encoding, suffix]


def gzip_check(ctx, case):
    from opyenxes.data_in.XUniversalParser import XUniversalParser
    kind, way, encoding, suffix = case
    data = p04.content(kind, encoding)
    if way.startswith("level"):
        packed = gzip.compress(data, int(way[5:]))
    elif way == "members":
        packed = gzip.compress(data[:len(data) // 2], 9, mtime=1) + gzip.compress(data[len(data) // 2:], 1, mtime=2)
    elif way == "many members":
        step = max(37, len(data) // 50)
        packed = b"".join(gzip.compress(data[i:i + step], i % 10, mtime=i) for i in range(0, len(data), step))
    elif way == "empty member":
        packed = gzip.compress(b"", mtime=0) + gzip.compress(data, mtime=2 ** 31) + gzip.compress(b"", mtime=7)
    else:
        stream = io.BytesIO()
        with gzip.GzipFile("inner-name.mxml" if way == "named" else "", "wb", 6, stream, 12345) as out:
            out.write(data)
        packed = stream.getvalue()
    path = os.path.join(ctx.scratch, "g" + suffix)
    with open(path, "wb") as out:
        out.write(packed)
    ctx.state("%s %s %s %s" % tuple(case))
    for universal in (True, False):
        with open(path, "rb") as stream:
            if universal:
                logs = XUniversalParser().parse(stream)
            else:
                logs = parsers()["XesXmlGZIPParser" if "xes" in kind else "XMxmlGZIPParser"].parse(stream)
            same([model.seen_log(l) for l in logs], p04.expected(kind), "compressed document")
        ctx.step()
    os.remove(path)


def refuse_cases():
    for suffix in list(SUFFIXES) + [".txt", ".gz", ""]:
        for what in ("empty", "garbage", "other format", "unclosed"):
            yield [suffix, what]


def refuse(ctx, case):
    """Files that no parser can read raise; they never give a log."""
    from opyenxes.data_in.XUniversalParser import XUniversalParser
    suffix, what = case
    data = {"empty": b"", "garbage": b"\x00\xff not xml", "unclosed": p04.content("xes" if "xe" in suffix else "mxml", "utf-8")[:-3],
            "other format": b"key;value\n1;2\n"}[what]
    if suffix in (".txt", ".gz", ""):
        data = p04.content("xes", "utf-8")
    elif suffix.endswith("gz") or suffix == ".xez":
        data = gzip.compress(data) if what != "garbage" else data
    path = os.path.join(ctx.scratch, "r" + suffix)
    with open(path, "wb") as out:
        out.write(data)
    ctx.state("%s %s" % tuple(case))
    try:
        with open(path, "rb") as stream:
            logs = XUniversalParser().parse(stream)
    except Exception:
        logs = None
    finally:
        os.remove(path)
    ctx.step()
    expect(logs is None, "a file no parser can read was read as", logs)


def families(tier):
    return [
        Family("file-names", lambda _: name_cases(), name_check),
        Family("long-names", lambda _: long_names(), name_check),
        Family("registries", lambda _: [0], suffices_case),
        Family("written-files", lambda _: write_cases(tier), write_check),
        Family("text-files", lambda _: text_cases(), text_check),
        Family("compressed-files", lambda _: gzip_cases(), gzip_check),
        Family("unreadable-files", lambda _: refuse_cases(), refuse),
    ]
