"""P17: the extension manager finds every registered extension, each URI once, the latest under its first index."""
import itertools
from urllib.parse import urlparse
from mc import model, spaces
from mc.core import Family, Violation, isolated, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = ["when several registered extensions share a name or prefix, any one of them may be found by it"]
# name, prefix, uri
POOL = [("One", "one", "http://x.org/one.xesext"), ("One again", "uno", "http://x.org/one.xesext"), ("Two", "two", "http://x.org/two.xesext"),
        ("One", "three", "http://x.org/three.xesext"), ("Four", "one", "file:///four"), ("Time", "time", "http://www.xes-standard.org/time.xesext"),
        ("Concept", "concept", "http://other.org/concept.xesext"), ("", "", "")]


def extension(number):
    from opyenxes.extension.XExtension import XExtension
    name, prefix, uri = POOL[number]
    return XExtension(name, prefix, urlparse(uri))


def describe(e):
    return e.get_name(), e.get_prefix(), e.get_uri().geturl()


def compare(ctx, manager, reference, others=()):
    """reference: [extension object] in the order of their indices; others:
    more texts to ask for"""
    for i, one in enumerate(reference):
        expect(manager.get_by_index(i) is one, "index", i, "gives", repr(manager.get_by_index(i) and describe(manager.get_by_index(i))),
               "instead of", repr(describe(one)))
        same(manager.get_index(one), i, "index of %r" % (describe(one),))
        expect(manager.get_by_uri(urlparse(one.get_uri().geturl())) is one, "URI", one.get_uri().geturl(), "gives another extension")
        for what, find, get in (("name", manager.get_by_name, one.get_name), ("prefix", manager.get_by_prefix, one.get_prefix)):
            found = find(get())
            owners = [e for e in reference if (e.get_name() if what == "name" else e.get_prefix()) == get()]
            expect(any(found is e for e in owners), what, repr(get()), "gives", repr(found and describe(found)))
        ctx.step(5)
    for i in (-1, len(reference), len(reference) + 7, -len(reference)):
        same(manager.get_by_index(i), None, "index %d" % i)
    names = {e.get_name() for e in reference}
    prefixes = {e.get_prefix() for e in reference}
    uris = {e.get_uri().geturl() for e in reference}
    for name, prefix, uri in POOL + [("none", "none", "http://none/")] + [(o, o, o) for o in others]:
        if name not in names:
            same(manager.get_by_name(name), None, "unknown name %r" % name)
        if prefix not in prefixes:
            same(manager.get_by_prefix(prefix), None, "unknown prefix %r" % prefix)
        if urlparse(uri).geturl() not in uris:
            same(manager.get_by_uri(urlparse(uri)), None, "unknown URI %r" % uri)
            from opyenxes.extension.XExtension import XExtension
            same(manager.get_index(XExtension("n", "p", urlparse(uri))), -1, "index of an unknown extension")
    ctx.state(repr([describe(e) for e in reference]))


def standard(ctx):
    """The standard extensions, as registered by the manager itself."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    manager = XExtensionManager()
    reference = []
    while manager.get_by_index(len(reference)) is not None:
        reference.append(manager.get_by_index(len(reference)))
    same(sorted(describe(e) for e in reference), sorted((n, p, u) for p, (n, u) in model.STANDARD.items()), "standard extensions")
    for prefix, (name, uri) in model.STANDARD.items():
        one = [e for e in reference if e.get_prefix() == prefix][0]
        for found in (manager.get_by_name(name), manager.get_by_prefix(prefix), manager.get_by_uri(urlparse(uri))):
            expect(found is one, "standard extension", prefix, "is not found")
    compare(ctx, manager, reference)
    return manager, reference


def run_history(ctx, case):
    from opyenxes.extension.XExtensionManager import XExtensionManager
    manager, reference = standard(ctx)
    made = {}
    for number in case:
        # an odd number registers the same object again, if there is one
        which, again = number >> 1, number & 1
        one = made[which] if again and which in made else extension(which)
        made[which] = one
        manager.register(one)
        same_uri = [i for i, e in enumerate(reference) if e.get_uri().geturl() == one.get_uri().geturl()]
        if same_uri:
            reference[same_uri[0]] = one
        else:
            reference.append(one)
        compare(ctx, XExtensionManager(), reference)


def histories(depth):
    # all sequences of exactly this depth: their prefixes are checked on the way
    for ops in itertools.product(range(2 * len(POOL)), repeat=depth):
        # a repeated registration needs an earlier one
        if all(not n & 1 or (n - 1) in ops[:i] or n in ops[:i] for i, n in enumerate(ops)):
            yield list(ops)


DOCUMENT = '<log xes.version="1.0" xes.features="" openxes.version="1"><extension name="%s" prefix="%s" uri="%s"/><trace><event>' \
    '<string key="%s:k" value="v"/><string key="time:x" value="v"/></event></trace></log>'


def run_documents(ctx, case):
    """Extensions a document declares resolve to the registered ones; reading
    it does not change what is registered, and a registered extension becomes
    the one of the attributes with its prefix."""
    from opyenxes.data_in.XesXmlParser import XesXmlParser
    manager, reference = standard(ctx)
    for number in case:
        which, register = number >> 1, number & 1
        name, prefix, uri = POOL[which]
        if register:
            one = extension(which)
            manager.register(one)
            same_uri = [i for i, e in enumerate(reference) if e.get_uri().geturl() == uri]
            if same_uri:
                reference[same_uri[0]] = one
            else:
                reference.append(one)
        log = model.read_xes(DOCUMENT % (name, prefix, uri, prefix))
        same_prefix = [e for e in reference if e.get_prefix() == prefix]
        owners = same_prefix or [e for e in reference if e.get_uri().geturl() == uri]
        found = list(log.get_extensions())
        if prefix != "":
            # whether a known URI declared under an unknown prefix is resolved is left open
            expect((len(found) == 1 if same_prefix else len(found) < 2) and all(any(f is o for o in owners) for f in found),
                   "declared extension", repr(POOL[which]), "is", repr([describe(e) for e in found]))
            for key, owner in ((prefix + ":k", same_prefix), ("time:x", [e for e in reference if e.get_prefix() == "time"])):
                attached = log[0][0].get_attributes()[key].get_extension()
                if not owner:
                    same(attached, None, "extension of attribute %r" % key)
                else:
                    expect(any(attached is o for o in owner), "extension of attribute", key)
        compare(ctx, manager, reference)


def document_cases(depth):
    for ops in itertools.product(range(2 * len(POOL)), repeat=depth):
        yield list(ops)


def run_word(ctx, word):
    """A text the code knows, as the name, prefix or URI of extensions."""
    from opyenxes.extension.XExtension import XExtension
    from opyenxes.extension.XExtensionManager import XExtensionManager
    manager, reference = standard(ctx)
    made = [XExtension(word, "own", urlparse("http://own.org/1")), XExtension("Own", word, urlparse("http://own.org/2"))]
    if word == word.strip() and word.isascii() and word.isprintable() and not set(word) & set("[]"):
        made.append(XExtension("Third", "third", urlparse(word)))
    for one in made + made[:1]:
        manager.register(one)
        uri = one.get_uri().geturl()
        at = [i for i, e in enumerate(reference) if e.get_uri().geturl() == uri]
        if at:
            reference[at[0]] = one
        else:
            reference.append(one)
        compare(ctx, XExtensionManager(), reference)


WORDS = ["One", "concept", "Time", "two words"]
URIS = ["http://x.org/one.xesext", "http://www.xes-standard.org/time.xesext", "http://X.org:80/a%20b/;p?q=1#f", "urn:a:b"]


def variants(uri):
    """Other URIs that some way of simplifying them may take for this one."""
    from urllib.parse import quote, unquote
    bare = uri.split("#")[0]
    found = [uri + "/", uri + "#", uri + "#g", uri + "?", uri + "?q", uri + ";x", uri + "/.", uri + "//", bare, bare.split("?")[0], uri + " x", uri + "x", uri[:-1],
             uri.upper(), uri.lower(), uri.replace("http:", "https:"), uri.replace("http:", ""), uri.replace("http:", "HTTP:"), uri.replace("www.", ""), uri.replace(".org", ".org:80"),
             uri.replace(":80", ""), uri.replace("http://", "http://user@"), unquote(uri), quote(uri), quote(uri, safe=":/?#;=%"), uri.replace("/", "//"), uri.replace("org/", "org/./"),
             uri.replace("org/", "org/../"), uri.rsplit("/")[-1], uri.replace(".xesext", ""), uri.replace(".xesext", ".XESEXT"), uri.replace(":", "%3A"), uri.replace("x", "\u0445")]
    # the library compares what urlparse makes of them
    return [v for v in dict.fromkeys(found) if urlparse(v).geturl() != urlparse(uri).geturl() and urlparse(urlparse(v).geturl()) == urlparse(v)]


def similar_cases():
    for word in WORDS:
        for other in spaces.similar(word) + [word.upper(), word.lower(), word.swapcase(), " " + word, word + " ", word + "\n", word + ":", word.replace(" ", ""), word.replace(" ", "  ")]:
            if other != word:
                for back in (False, True):
                    yield ["word", word, other, back]
    for uri in URIS:
        for other in variants(uri):
            for back in (False, True):
                yield ["uri", uri, other, back]


def run_similar(ctx, case):
    """Two names, prefixes or URIs that are almost the same are two."""
    from opyenxes.extension.XExtension import XExtension
    from opyenxes.extension.XExtensionManager import XExtensionManager
    what, one, other, back = case
    if back:
        one, other = other, one
    manager, reference = standard(ctx)

    def add(name, prefix, uri):
        made = XExtension(name, prefix, urlparse(uri))
        at = [i for i, e in enumerate(reference) if e.get_uri().geturl() == made.get_uri().geturl()]
        manager.register(made)
        if at:
            reference[at[0]] = made
        else:
            reference.append(made)
        compare(ctx, XExtensionManager(), reference, () if what == "uri" and "//" not in one + other else (one, other))
    for i, text in enumerate((one, other, one)):
        if what == "word":
            add(text, "p%d" % (i % 2), "http://similar.org/n%d" % (i % 2))
            add("n%d" % (i % 2), text, "http://similar.org/p%d" % (i % 2))
        else:
            add("N%d" % i, "p%d" % i, text)


def size_cases(tier):
    most = 130 if tier == "quick" else 520
    for n in spaces.steps(tier, most):
        for way in range(4):
            yield [n, way]


def run_sizes(ctx, case):
    """Many extensions: all different, with few names and prefixes, and
    registered again."""
    from opyenxes.extension.XExtension import XExtension
    from opyenxes.extension.XExtensionManager import XExtensionManager
    n, way = case
    manager, reference = standard(ctx)
    for i in range(n):
        name, prefix, uri = "n%d" % i, "p%d" % i, "http://many.org/%d" % i
        if way == 1:
            name, prefix = "n%d" % (i % 5), "p%d" % (i % 7)
        if way == 2:
            uri = "http://many.org/%d" % (i * 7 % 31)
        if way == 3:
            name, prefix, uri = spaces.odd_text(i), "p" + spaces.odd_text(i), "http://many.org/" + "x" * i
            if i == n - 1:
                reference, uri = list(reference), reference[3].get_uri().geturl()
        one = XExtension(name, prefix, urlparse(uri))
        manager.register(one)
        at = [j for j, e in enumerate(reference) if e.get_uri().geturl() == uri]
        if at:
            reference[at[0]] = one
        else:
            reference.append(one)
        if i in (n // 2, n - 1):
            compare(ctx, XExtensionManager(), reference)


def families(tier):
    import opyenxes.data_in.XesXmlParser  # noqa: F401 the children of fork need not import it
    import opyenxes.extension.XExtensionManager  # noqa: F401
    quick = tier == "quick"
    return [
        Family("histories", lambda _: histories(3 if quick else 4), lambda ctx, c: isolated(ctx, run_history, c)),
        Family("literals", lambda _: spaces.literals()[0], lambda ctx, c: isolated(ctx, run_word, c)),
        Family("similar-identities", lambda _: similar_cases(), lambda ctx, c: isolated(ctx, run_similar, c)),
        Family("sizes", lambda _: size_cases(tier), lambda ctx, c: isolated(ctx, run_sizes, c)),
        Family("documents", lambda _: document_cases(2 if quick else 3), lambda ctx, c: isolated(ctx, run_documents, c)),
    ]
