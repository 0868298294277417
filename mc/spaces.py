"""Finite spaces shared by the properties, all enumerated completely and in a
fixed order. Log spaces yield small JSON descriptors that `log_of` turns into
log models (mc.model)."""
import ast
import itertools
import math
import os
import struct
from mc.core import REPO

KINDS = ["string", "date", "int", "float", "boolean", "id", "list", "container"]
UUID = "6e1d9a3c-2b4f-4c8d-9e0a-1b2c3d4e5f60"
SAMPLE = {"string": "v", "date": [2016, 2, 29, 23, 59, 58, 7000, 330], "int": -42, "float": 2.5,
          "boolean": True, "id": UUID, "list": "b", "container": "b"}
OTHER = {"string": "w<&\"'>\n", "date": [1969, 12, 31, 23, 59, 59, 999000, -210], "int": 10 ** 20, "float": -1e-300,
         "boolean": False, "id": "ffffffff-ffff-ffff-ffff-ffffffffffff", "list": "b", "container": "b"}
# one character of every class that XML, SAX, gzip or an encoding treats on its own
SPECIAL = ["<", ">", "&", '"', "'", "\t", "\n", "\r", " ", "]", "a", "\u00e9", "\u2028", "\U0001f600"]
KEYS = ["k", "", "concept:name", "org:resource", "time:timestamp", "unknown:thing", ":x", "time:", "concept",
        "Concept:name", "a:b:c", "cost:total:x", "k k", "\u00e9\u4e2d:\U0001f600", "key", "value", "xes.version"]


def attr(kind, key, children=(), sample=SAMPLE):
    return [kind, key, sample[kind], list(children)]


def xml_chars(limit=0x110000):
    for ranges in ((0x9, 0xB), (0xD, 0xE), (0x20, 0xD800), (0xE000, 0xFFFE), (0x10000, 0x110000)):
        for code in range(ranges[0], min(ranges[1], limit)):
            yield code


def char_blocks(block=256):
    """Every character XML 1.0 allows, in blocks of consecutive characters."""
    for low in range(0, 0x110000, block):
        yield low


def block_text(low, block=256):
    return "".join(chr(c) for c in range(low, low + block)
                   if c in (9, 10, 13) or 0x20 <= c < 0xD800 or 0xE000 <= c < 0xFFFE or 0x10000 <= c)


def strings(length, alphabet=SPECIAL):
    for n in range(length + 1):
        for letters in itertools.product(alphabet, repeat=n):
            yield "".join(letters)


def chunked(items, n):
    chunk = []
    for item in items:
        chunk.append(item)
        if len(chunk) == n:
            yield chunk
            chunk = []
    if chunk:
        yield chunk


def integers(dense):
    seen = set()
    for n in itertools.chain(range(-dense, dense + 1),
                             (s * (2 ** k + d) for k in range(71) for d in (-1, 0, 1) for s in (1, -1)),
                             (s * 10 ** k + d for k in range(31) for d in (-1, 0, 1) for s in (1, -1)),
                             (s * int(n) + d for n in literals()[1] for d in (-1, 0, 1) for s in (1, -1))):
        if n not in seen:
            seen.add(n)
            yield n


def bits(value):
    return struct.pack(">d", value).hex()


def floats():
    """0, denormals, powers of two and ten with both neighbours, short decimals;
    as the 16 hex digits of their bits."""
    def some():
        yield 0.0
        for k in range(-1074, 1024):
            yield math.ldexp(1.0, k)
        for k in range(-323, 309):
            yield float("1e%d" % k)
        for n in range(1, 2000):
            yield n / 10
            yield n / 100
        for n in (1 / 3, math.pi, 1.7976931348623157e308, 123456789.123456789, 2 ** 53 + 0.0, 2 ** 53 - 0.5,
                  1e16, 1e15 + 0.3, 9007199254740993.0):
            yield n
    seen = set()
    for n in some():
        for near in (n, math.nextafter(n, math.inf), math.nextafter(n, -math.inf), -n):
            if near - near == 0 and bits(near) not in seen:
                seen.add(bits(near))
                yield near
    yield from (math.inf, -math.inf, math.nan)


def days_of(year):
    for month in range(1, 13):
        leap = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
        for day in range(1, [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][month - 1] + 1):
            yield month, day


YEARS = [1, 2, 4, 99, 100, 999, 1000, 1582, 1600, 1752, 1899, 1900, 1901, 1968, 1969, 1970, 1971, 1972, 1999, 2000,
         2001, 2004, 2015, 2016, 2017, 2024, 2038, 2039, 2099, 2100, 2400, 9998, 9999]


def dates(tier):
    """Date values, grouped by what is varied: days, times, milliseconds,
    microseconds, offsets."""
    for year in YEARS if tier == "quick" else range(1, 10000):
        for month, day in days_of(year) if tier == "quick" or year in YEARS else ((1, 1), (2, 28), (3, 1), (12, 31)):
            yield [year, month, day, 12, 34, 56, 789000, (year * 37 + day * 53) % 1681 - 840]
    for h in range(24):
        for mi in range(60):
            for s in (0, 1, 59) if tier == "quick" and h not in (0, 23) else range(60):
                yield [2015, 6, 7, h, mi, s, 5000, (h * 60 - mi) % 1681 - 840]
    for ms in range(1000):
        yield [1970, 1, 1, 0, 0, 0, ms * 1000, 0]
        yield [1969, 12, 31, 23, 59, 59, ms * 1000 + ms, 60]
    for ms in range(1000):
        for us in (1, 499, 500, 501, 999) if tier == "quick" else range(1, 1000, 2):
            for offset in (-60, 0, None, 330) if ms % 111 == 0 or tier != "quick" else (-60, 0):
                yield [2038, 1, 19, 3, 14, 7, ms * 1000 + us, offset]
    for offset in range(-840, 841):
        yield [2012, 12, 31, 23, 59, 59, 1000, offset]
        yield [1899, 3, 1, 0, 0, 0, 0, offset]
    for year, month, day in ((1, 1, 1), (1970, 1, 1), (2000, 2, 29), (9999, 12, 31)):
        for h, mi, s, us in ((0, 0, 0, 0), (0, 0, 0, 1000), (23, 59, 59, 999000), (12, 0, 0, 500000)):
            for offset in (None, 0, 1, -1, 840, -840):
                yield [year, month, day, h, mi, s, us, offset]


def uuids():
    for bit in range(128):
        n = "%032x" % (1 << bit)
        yield "-".join((n[:8], n[8:12], n[12:16], n[16:20], n[20:]))
        n = "%032x" % ((1 << 128) - 1 - (1 << bit))
        yield "-".join((n[:8], n[8:12], n[12:16], n[16:20], n[20:]))
    yield "00000000-0000-0000-0000-000000000000"
    yield UUID


# ------------------------------------------------------------------- positions

HOSTS = ["log", "trace", "event", "gt", "ge"]


def host(where, attrs):
    """A log that carries the attributes at one place, and something else at
    every other place so that a misplaced attribute collides."""
    log = {"gt": [["string", "g1", "x", []]], "ge": [["string", "g2", "x", []]],
           "a": [["string", "own", "log", []]],
           "t": [[[["string", "own", "t0", []]], [[["string", "own", "e0", []]], [["string", "own", "e1", []]]]],
                 [[["string", "own", "t1", []]], [[["string", "own", "e2", []]]]]]}
    place = {"log": log["a"], "gt": log["gt"], "ge": log["ge"], "trace": log["t"][0][0],
             "event": log["t"][0][1][0]}[where]
    place.extend(attrs)
    return log


def position_cases(depth):
    """host, kinds of the enclosing attributes outermost first, kind of the
    attribute itself, index of the key."""
    for where in HOSTS:
        for n in range(depth + 1):
            for path in itertools.product(KINDS, repeat=n):
                for kind in KINDS:
                    yield [where, "/".join(path), kind, 0]
        for k in range(1, len(KEYS)):
            for kind in KINDS:
                for parent in ("", "string", "list", "container"):
                    yield [where, parent, kind, k]


def position_log(case):
    where, path, kind, key = case
    inner = attr(kind, KEYS[key])
    for depth, parent in enumerate(reversed(path.split("/") if path else [])):
        # a sibling before and after, so that a child attached too high or too
        # low is seen
        before = ["string", "before%d" % depth, "x", [["int", "sub", 1, []]]]
        after = ["string", "after%d" % depth, "y", []]
        inner = attr(parent, "p%d" % depth, [before, inner, after])
    return host(where, [inner, ["string", "last", "z", []]])


# ----------------------------------------------------------------------- trees

def forests(n, labels):
    """All ordered forests with n labelled nodes: nested lists [label, children]."""
    if n == 0:
        yield []
        return
    for first in range(1, n + 1):
        for label in labels:
            for children in forests(first - 1, labels):
                for rest in forests(n - first, labels):
                    yield [[label, children]] + rest


TREE_LABELS = [kind + "/" + key for kind in ("string", "list", "container") for key in ("a", "b")]


def has_duplicates(forest, below="string"):
    keys = [label.split("/")[1] for label, _ in forest]
    if below not in ("list", "container") and len(set(keys)) < len(keys):
        return True
    return any(has_duplicates(children, label.split("/")[0]) for label, children in forest)


def tree_attrs(forest, mode="b", counter=None):
    counter = counter if counter is not None else [0]
    result = []
    for label, children in forest:
        kind, key = label.split("/")
        counter[0] += 1
        value = mode if kind != "string" else str(counter[0])
        result.append([kind, key, value, tree_attrs(children, mode, counter)])
    return result


def tree_cases(nodes):
    """host, mode in which children are attached to collections, forest."""
    for n in range(nodes + 1):
        for forest in forests(n, TREE_LABELS):
            if has_duplicates(forest):
                continue
            for where in HOSTS if n <= 2 else HOSTS[(len(repr(forest)) + n) % 5:][:1]:
                yield [where, "b", forest]
                if n == 2 or n == 3 and where in ("event", "trace"):
                    yield [where, "c", forest]
                    if not has_duplicate_anywhere(forest):
                        yield [where, "m", forest]


def has_duplicate_anywhere(forest):
    return has_duplicates(forest, "string") or any(
        has_duplicates(children, "string") for _, children in forest) or any(
        has_duplicate_anywhere(children) for _, children in forest)


# ------------------------------------------------------------------ log shapes

def shape_cases(traces, events):
    """Event counts of the traces, and which parts of the log are present."""
    for n in range(traces + 1):
        for counts in itertools.product(range(events + 1), repeat=n):
            for present in range(8) if n < 3 else (0, 7):
                yield [list(counts), present]


def shape_log(case):
    counts, present = case
    log = {"t": []}
    if present & 1:
        log["a"] = [["string", "concept:name", "log", []]]
        log["x"] = ["concept", "time"]
    if present & 2:
        log["gt"] = [["string", "concept:name", "d", []]]
        log["ge"] = [["string", "concept:name", "d", []], ["int", "n", 0, []]]
        log["c"] = [["one", ["concept:name"]], ["two", ["concept:name", "n"]]]
    number = 0
    for t, n in enumerate(counts):
        attrs = [["string", "concept:name", "t%d" % t, []]] if present & 4 else []
        events = []
        for _ in range(n):
            number += 1
            events.append([["string", "concept:name", "e%d" % number, []], ["int", "n", number, []]]
                          if present & 4 or number % 2 else [])
        log["t"].append([attrs, events])
    return log


ODD = ["x\ty", "it's \"q\"", "a\\b", "<&>]]>", "\u00e9", "\u4e2d\U0001f600", "", " lead", "trail ", "a\nb", "UNKNOWN", "0", "None", "b c", "&amp;", "plain", "\r", "''"]
LENGTHS = [4095, 4096, 4097, 8191, 8192, 8193, 10001, 16385, 32769, 65535, 65536, 65537, 100001, 131073, 262145]
COUNTS = [50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]


def steps(tier, most=1025, small=40):
    """Numbers of things: all small ones, and those about which code changes its ways."""
    return [n for n in itertools.chain(range(small + 1), COUNTS) if n <= most and (n <= small or tier != "quick" or n % 2 or n < 130)]


def odd_text(n):
    """n characters, all kinds of texts one after the other."""
    return ("|".join(ODD) * (n // 40 + 1))[:n]


def odd_attributes(n, first=0):
    for i in range(first, first + n):
        kind = KINDS[i % len(KINDS)]
        if i % 11 == 3:
            yield [kind, "concept:name" if i == 3 else ODD[i % len(ODD)] + "%d" % i, "b" if kind in ("list", "container") else (SAMPLE if i % 2 else OTHER)[kind],
                   [["string", "in", ODD[i % 7], []], ["date", "time:timestamp", SAMPLE["date"], []]]]
        elif kind in ("list", "container"):
            yield [kind, "k%d" % i, "b", [["string", "in", ODD[i % 5], []]] * (i % 3 > 1)]
        elif kind == "string":
            yield [kind, "k%d" % i, ODD[i // 8 % len(ODD)], []]
        else:
            yield [kind, ("time:%d" if i % 3 else "k%d") % i, (SAMPLE if i // 8 % 2 else OTHER)[kind], []]


def odd_event(i):
    """Different from most others."""
    attrs = []
    if i % 5 != 4:
        attrs.append(["string", "concept:name", ODD[i % len(ODD)], [] if i % 13 else [["int", "n", i, []]]])
    if i % 3 == 1:
        attrs.append(["date", "time:timestamp", [2016 + i % 3, 1 + i % 12, 1 + i % 28, i % 24, i % 60, 0, 0, 60], []])
    if i % 4 == 2:
        attrs.append(["string", "lifecycle:transition", ("start", "complete", "Other")[i % 3], []])
    if i % 7 == 0:
        attrs.append(["string", "org:resource", "r%d" % (i % 10), []])
    return attrs


def odd_log(case):
    what, n = case
    if what == "odd events":
        return {"c": [["c", ["concept:name", "n"]]], "t": [[[], [[]]], [[["string", "concept:name", "t", []]], [odd_event(i) for i in range(n)]], [[], []]]}
    if what == "odd traces":
        return {"a": [["int", "n", n, []]], "t": [[odd_event(i)[:1], [odd_event(i + k) for k in range(i % 4)]] for i in range(n)]}
    if what == "odd attributes":
        return {"a": list(odd_attributes(n)), "t": [[list(odd_attributes(n, 1)), [list(odd_attributes(n, 2)), list(odd_attributes(1, n))]]]}
    if what == "odd globals":
        return {"gt": list(odd_attributes(n)), "ge": list(odd_attributes(n, 5)), "t": [[[], [[]]]]}
    if what == "odd classifiers":
        return {"c": [["c%s%d" % (ODD[i % 6], i), ["concept:name", "b c", "a\\b", "it's"][:1 + i % 4]] for i in range(n)], "t": [[[], [odd_event(0)]]]}
    if what == "odd classifier keys":
        return {"c": [["one", [ODD[i % len(ODD)].strip() + "%d" % i for i in range(n + 1)]], ["two", ["concept:name"]]], "t": [[[], [odd_event(0)]]]}
    if what == "odd members":
        members = [[a[0], ODD[i % 4] or "x", a[2], a[3]] for i, a in enumerate(odd_attributes(n))]
        return {"a": [["list", "l", "c", members]], "t": [[[["container", "p", "c", [m for m in members]]], [[["list", "l", "c", members], ["string", "after", "x", []]]]]]}
    if what == "odd text":
        return {"a": [["string", "a", odd_text(n), []]], "c": [["c", ["a"]]], "t": [[[["string", "concept:name", odd_text(n) + "x", []]], [[["string", "concept:name", "y" + odd_text(n), [
            ["string", "in", odd_text(n), []]]], ["string", "after", "z", []]]]]]}
    if what == "odd key":
        return {"ge": [["int", odd_text(n), 1, []]], "c": [["c" + odd_text(n), ["a", "k" + "\\ '" * (n // 4)]]], "t": [[[], [[["string", odd_text(n), "y", []], ["string", odd_text(n) + "x", "z", []]]]]]}
    inner = ["string", "leaf", "x", []]
    for level in range(n):
        kind = ("list", "string", "container", "int", "date")[level % 5]
        inner = [kind, "l%d" % level, "b" if level % 5 in (0, 2) else SAMPLE[kind], [["string", "before", "b", []], inner, ["string", "l", "a", []]]]
    return {"a": [inner], "t": [[[], [[inner]]]]}


def odd_cases(tier):
    for what in ("odd events", "odd traces", "odd attributes", "odd globals", "odd classifiers", "odd classifier keys", "odd members"):
        for n in itertools.chain(range(0, 36), COUNTS[::1 if tier != "quick" else 2]):
            yield [what, n]
    for what in ("odd text", "odd key"):
        for n in itertools.chain(range(0, 100 if tier == "quick" else 1000), COUNTS, LENGTHS):
            yield [what, n]
    for n in itertools.chain(range(1, 30), (40, 64)):
        yield ["odd depth", n]


def size_cases(tier):
    yield from odd_cases(tier)
    for n in itertools.chain(range(0, 40), (63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025)):
        for what in ("events", "traces", "attributes", "children", "list", "value", "names"):
            yield [what, n]
    for n in itertools.chain(range(1, 40), (64, 100, 128) if tier == "quick" else range(40, 160)):
        for kind in ("string", "list", "container"):
            yield ["depth-" + kind, n]
    if tier != "quick":
        for what in ("events", "traces", "attributes", "value"):
            for n in (4095, 4096, 8191, 16384, 32767, 65535, 65536, 65537):
                yield [what, n]


def size_log(case):
    what, n = case
    if what.startswith("odd"):
        return odd_log(case)
    if what == "events":
        return {"t": [[[], [[["int", "n", i, []]] for i in range(n)]]]}
    if what == "traces":
        return {"t": [[[["int", "n", i, []]], [[["int", "n", i, []]]]] for i in range(n)]}
    if what == "names":
        # every trace and event has its own name, in no order
        named = lambda i: ["string", "concept:name", "%d" % (i * 7919 % 10007), []]
        return {"t": [[[named(i)], [[named(i + 3)], [named(i)]]] for i in range(n)]}
    if what == "attributes":
        return {"t": [[[], [[["int", "n%d" % i, i, []] for i in range(n)]]]]}
    if what == "children":
        return {"a": [["string", "p", "x", [["int", "n%d" % i, i, []] for i in range(n)]]]}
    if what == "list":
        return {"a": [["list", "p", "b", [["int", "n", i, []] for i in range(n)]]]}
    if what == "value":
        return {"a": [["string", "p", "0123456789abcdef"[n % 16] * n, []]]}
    kind = what[6:]
    inner = ["string", "leaf", "x", []]
    for level in range(n):
        inner = [kind, "l%d" % level, "b" if kind != "string" else "s", [inner]]
    return {"t": [[[], [[inner]]]]}


PREFIXES = ["concept", "cost", "identity", "lifecycle", "micro", "org", "semantic", "time"]


def extension_cases():
    for mask in range(256):
        yield [p for i, p in enumerate(PREFIXES) if mask >> i & 1]


CLASSIFIER_KEYS = ["concept:name", "org:resource", "lifecycle:transition", "a", "a b", "it's", "\\", "'", "tab\tkey",
                   "new\nline", "\u00e9", "<&>\"", "''", "a'b c", " lead", "trail ", "back\\slash it's"]


SPECIAL_CLASSIFIERS = {"name": ["Event Name", ["concept:name"], "name"], "resource": ["Resource", ["org:resource"], "resource"],
                       "transition": ["Lifecycle transition", ["lifecycle:transition"], "transition"]}


def joined(members):
    """The conjunction of classifiers: [name, keys, members]."""
    parts = [joined(m) if isinstance(m, list) else SPECIAL_CLASSIFIERS[m] for m in members]
    return ["(" + " AND ".join(p[0] for p in parts) + ")", sorted({k for p in parts for k in p[1]}), members]


def classifier_cases(tier):
    """Lists of classifiers [name, keys] of a log."""
    for keys in itertools.chain(itertools.product(CLASSIFIER_KEYS, repeat=1),
                                itertools.product(CLASSIFIER_KEYS, repeat=2)):
        yield [["c", list(keys)]]
    for keys in itertools.permutations(CLASSIFIER_KEYS[:5], 3):
        yield [["three", list(keys)]]
    for text in strings(2 if tier == "quick" else 3, SPECIAL + ["'", "\\"]):
        if text != "":
            yield [[text, ["k"]]]
        if text.strip() != "":
            yield [["name", [text]], ["two", ["x", text, "y"]]]
    special = [SPECIAL_CLASSIFIERS[i] for i in ("name", "resource", "transition")]
    pairs = [joined(list(p)) for n in (1, 2, 3) for p in itertools.permutations(SPECIAL_CLASSIFIERS, n)]
    pairs.append(joined([["name", "resource"], "transition"]))
    for chosen in itertools.chain(special, pairs):
        yield [chosen]
        yield [["own", ["k"]], chosen, ["last", ["z", "a"]]]
    for chosen in itertools.permutations(special + [["own", ["k"]]]):
        yield [list(c) for c in chosen]
    for n in range(2, 12):
        yield [["c%d" % i, ["k%d" % i, "k"]] for i in range(n)]
        yield [["many", ["k%d" % i for i in range(n)]], ["same", ["z"]], ["same", ["y"]]]


def global_cases():
    """Kinds of the global trace and event attributes."""
    for n in range(3):
        for m in range(3):
            for one in itertools.product(KINDS, repeat=n):
                for two in itertools.product(KINDS, repeat=m) if n < 2 else [KINDS[:m]]:
                    yield [list(one), list(two)]
    for n in (3, 5, 8, 16):
        yield [(KINDS * 2)[:n], (KINDS * 2)[::-1][:n + 1]]


def global_log(case):
    return {"gt": [attr(k, "t%d" % i, [["string", "c", "x", []]]) for i, k in enumerate(case[0])],
            "ge": [attr(k, "e%d" % i, [["string", "c", "x", []]]) for i, k in enumerate(case[1])],
            "t": [[[], [[]]]]}


# --------------------------------------------------------- batches of one value

def batch_cases(kind, values, n):
    for i, chunk in enumerate(chunked(values, n)):
        yield [kind, i, chunk]


def batch_log(kind, values, parent=None):
    """One event (or parent attribute) per value."""
    attrs = [[kind, "k", v, []] for v in values]
    if parent:
        return {"t": [[[], [[["list", "l", "b", attrs]]]]]}
    return {"t": [[[], [[a] for a in attrs]]]}


# ------------------------------------------------------------------- word list

WORDS = ["", "None", "none", "null", "true", "True", "false", "0", "1", "-1", "nan", "inf", "UNKNOWN", "DEFAULT_VALUE",
         "__INVALID__", "default", "key", "value", "string", "date", "int", "float", "boolean", "id", "list", "container",
         "log", "trace", "event", "global", "extension", "classifier", "[]", "{}", "[a,b]", "&&", "a&&b", "2016-01-01",
         "2016-01-01T00:00:00.000Z", UUID, "12", "1e5", "&amp;", "&#10;", "<![CDATA[x]]>", "<!-- -->", "%s", "{0}",
         "concept:name", "time:timestamp", "\\n", "C:\\temp", "a=b", "http://x/y?z=1&w=2", "]]>", "  two  blanks  ",
         "\t", "\n", "\r\n", " lead", "trail ", "UPPER", "\u0130\u0131\u00df", "e\u0301", "\ufeffbom", "\u200b", "\u0085"]


def sources():
    for folder, folders, names in os.walk(os.path.join(REPO, "src")):
        folders.sort()
        for name in sorted(names):
            if name.endswith(".py"):
                yield os.path.join(folder, name)


def literals():
    """The texts and numbers that occur as literals in the code under test
    (documentation aside): values that code can single out."""
    texts, numbers = set(WORDS), set()
    for name in sources():
        with open(name, "rb") as file:
            tree = ast.parse(file.read())
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant):
                if isinstance(node.value, str) and len(node.value) <= 80 and "\n    " not in node.value:
                    texts.add(node.value)
                elif type(node.value) in (int, float) and abs(node.value) < 1e100:
                    numbers.add(node.value)
    allowed = set(map(chr, xml_chars(0x10000)))
    return sorted(t for t in texts if set(t) <= allowed), sorted(numbers)


LITERAL_KEYS = ["concept:name", "concept:instance", "lifecycle:transition", "lifecycle:model", "org:resource", "org:role",
                "org:group", "semantic:modelReference", "description", "source", "cost:currency", "cost:driver", "plain"]


def literal_log(word):
    """The word as the value of every one of some keys, alone and next to
    others, and as the key of an attribute, at every place."""
    every = [["string", k, word, []] for k in LITERAL_KEYS]
    own = [["string", word, "value of it", []], ["int", "p", 1, [["string", word, word, []], ["string", "q", word, []]]],
           ["list", "l", "b", [["string", word, word, []], ["string", "r", word, []]]]]
    events = [[["string", word, word, [["string", word, "below", []]]]], own, every]
    for key in LITERAL_KEYS:
        events.append([["string", key, word, []]])
        events.append([["string", k, word if k == key else "v of " + k, []] for k in LITERAL_KEYS])
        events.append([["string", k, "v of " + k if k == key else word, []] for k in LITERAL_KEYS])
    return {"gt": own[:2], "ge": own[:1], "a": every + own[2:], "t": [[own, []], [every, events], [every[:1], [[]]], [own[:1], [[]]]]}


def word_cases():
    for where in HOSTS:
        for word in WORDS:
            for kind in ("", "string", "list", "container", "int"):
                yield [where, word, kind]


def word_log(case):
    where, word, parent = case
    inner = [["string", word, word, []], ["string", "other", word, [["string", word, word, []]]]]
    return host(where, [attr(parent, "p", inner)] if parent else inner)


def similar(word):
    """Words that look like the given one or become it by some way of
    disregarding case, and are other words."""
    found = []
    for i, c in enumerate(word):
        others = {"i": "\u0131\u0130", "s": "\u017f", "I": "\u0131\u0130", "S": "\u017f", "f": "\ufb01"}.get(c, "")
        if "a" <= c.lower() <= "z":
            others += chr(ord(c) + 0xFEE0)  # full width
        for o in others:
            found.append(word[:i] + o + word[i + 1:])
        found.append(word[:i] + word[i + 1:])
        found.append(word[:i] + c + word[i:])
        found.append(word[:i] + "_" + word[i:])
        found.append(word[:i + 1] + "\u0301" + word[i + 1:])
        found.append(word[:i] + word[i + 1:i + 2] + c + word[i + 2:])
        found.append(word[:i + 1])
        found.append(word[i:])
    found += [word.replace("ss", "\u00df"), word.replace("fi", "\ufb01"), "x:" + word, word + ":x", ":" + word, word + "s", word + "1", word + ".", word + "-x", "xes." + word,
              "_" + word, word[::-1], word + word]
    return [w for w in dict.fromkeys(found) if w and w.lower() != word.lower()]


def is_name(word):
    """Whether it can be the name of an XML element."""
    from xml.parsers import expat
    try:
        expat.ParserCreate().Parse("<%s/>" % word, True)
    except expat.ExpatError:
        return False
    return " " not in word
