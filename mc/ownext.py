"""Logs that declare extensions of one's own, with every kind of URI, name and prefix."""
from mc import model, spaces
from mc.core import isolated

URIS = ["http://own.org/own.xesext?version=2&a=b", "http://own.org/own.xesext#part", "http://own.org/x?q#f", "http://own.org", "http://own.org/",
        "http://own.org/a;b=c", "http://own.org:8080/own.xesext", "http://user@own.org/own.xesext", "HTTP://OWN.org/Own.xesext", "https://own.org/own.xesext",
        "urn:own:extension", "file:///tmp/own.xesext", "own.xesext", "/own.xesext", "//own.org/own.xesext", "http://own.org/a b", "http://own.org/a%20b",
        "http://own.org/\u00e9\u4e2d", "http://own.org/a//b/../c/", "http://www.xes-standard.org/own.xesext", "http://own.org/'\"<>&", "http://[::1]/own.xesext",
        "http://own.org/?", "http://own.org/#", "mailto:own@own.org", "a:b:c", "http://own.org/x.xesext?uri=http://www.xes-standard.org/concept.xesext"]
NAMES = ["Own", "", " ", " padded ", "concept", "Concept", "a\tb", "a\nb", "<&>\"'", "\u00e9\u4e2d\U0001f600", "None"]
PREFIXES = ["own", "OWN", "Concept", "own-2", "own.x", "o", "\u00e9", "concept2", "con", "a b", "<&>\"'", "None"]


def cases():
    """[[name, prefix, uri], ...] of extensions that are in the log."""
    for uri in URIS:
        yield [["Own", "own", uri]]
        yield [["Own", "own", uri], ["Other", "other", "http://other.org/o.xesext"]]
    for name in NAMES + list(spaces.SPECIAL):
        yield [[name, "own", "http://own.org/own.xesext"]]
    for prefix in PREFIXES + [c for c in spaces.SPECIAL if c != ":"]:
        yield [["Own", prefix, "http://own.org/own.xesext"]]
    for a in URIS[:10]:
        for b in URIS[:10]:
            if a != b:
                yield [["A", "a", a], ["B", "b", b], ["A", "c", "http://own.org/c"]]
    for n in (3, 8, 20):
        yield [["Own %d" % i, "own%d" % i, URIS[i % len(URIS)] + str(i)] for i in range(n)]


def log(extensions):
    prefixes = [p for _, p, _ in extensions]
    attributes = [["string", p + ":k", "v", [["int", p + ":n", 1, []]]] for p in prefixes] + [["string", "concept:name", "l", []], ["string", "other", "o", []]]
    return {"x": prefixes + ["concept"], "gt": attributes[:1], "ge": attributes[1:], "c": [["Own", [a[1].strip() for a in attributes if a[1].split() == [a[1]]]]],
            "a": attributes, "t": [[attributes[:1], [attributes, [["date", prefixes[-1] + ":d", [2016, 2, 29, 1, 2, 3, 4000, 60], []]]]]]}


def run(ctx, extensions, then):
    from urllib.parse import urlparse
    from opyenxes.extension.XExtension import XExtension
    from opyenxes.extension.XExtensionManager import XExtensionManager
    for name, prefix, uri in extensions:
        XExtensionManager().register(XExtension(name, prefix, urlparse(uri)))
        model.STANDARD[prefix] = (name, urlparse(uri).geturl())
    then(ctx, log(extensions))


def family(then):
    from mc.core import Family
    return Family("own-extensions", lambda _: cases(), lambda ctx, case: isolated(ctx, run, case, then))
