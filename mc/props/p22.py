"""P22: an extension definition is read as written: identity, attributes of each level with kind and prefix, aliases."""
import itertools
import os
from xml.sax.saxutils import quoteattr
from mc import doctype, model, spaces
from mc.core import Family, isolated, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = ["definitions are well-formed; a level defines a key once"]
LEVELS = ["log", "trace", "event", "meta"]
KINDS = ["string", "date", "int", "float", "boolean", "id"]
DEFAULTS = {"string": "DEFAULT", "int": 0, "float": 0.0, "boolean": False}


def render(definition, style=0):
    """definition: [name, prefix, uri, [[level, [[kind, key, [[mapping, alias]]]]]]]"""
    name, prefix, uri, levels = definition
    tag = [str, str.upper, str.title, str][style % 4]
    pad = ["", "\n  ", " <!-- string key='x' --> ", "\n"][style % 4]
    encoding = ["UTF-8", "UTF-8", "UTF-16", "ISO-8859-1"][style // 4 % 4]
    root = ["xesextension", "xesExtension", "XesExtension", "XESEXTENSION"][style % 4]
    out = ['<?xml version="1.0" encoding="%s" ?>' % encoding, pad,
           "<%s name=%s prefix=%s uri=%s>" % (root, quoteattr(name), quoteattr(prefix), quoteattr(uri)), pad]
    for level, attributes in levels:
        out += ["<%s>" % tag(level), pad]
        for kind, key, aliases in attributes:
            out += ["<%s key=%s>" % (tag(kind), quoteattr(key)), pad]
            for mapping, alias in aliases:
                out += ["<%s mapping=%s name=%s/>" % (tag("alias"), quoteattr(mapping), quoteattr(alias)), pad]
            out += ["</%s>" % tag(kind), pad]
        out += ["</%s>" % tag(level), pad]
    out.append("</%s>" % root)
    return "".join(out).encode(encoding, "xmlcharrefreplace")


def compare(ctx, extension, definition):
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    name, prefix, uri, levels = definition
    expect(extension is not None, "no extension was read")
    same((extension.get_name(), extension.get_prefix(), extension.get_uri().geturl()), (name, prefix, uri), "name, prefix, URI")
    wanted = {level: {} for level in LEVELS}
    aliases = {}
    for level, attributes in levels:
        for kind, key, names in attributes:
            wanted[level][prefix + ":" + key] = kind
            for mapping, alias in names:
                aliases[(mapping, prefix + ":" + key)] = alias
    seen = dict(zip(LEVELS, (extension.get_log_attributes(), extension.get_trace_attributes(), extension.get_event_attributes(),
                             extension.get_meta_attributes())))
    for level in LEVELS:
        same(sorted((a.get_key(), model.kind_of(a)) for a in seen[level]), sorted(wanted[level].items()), "attributes of level " + level)
        for attr in seen[level]:
            expect(attr.get_extension() is extension, "extension of", attr.get_key(), "is another one")
            if model.kind_of(attr) in DEFAULTS:
                same(attr.get_value(), DEFAULTS[model.kind_of(attr)], "default value of " + attr.get_key())
            elif model.kind_of(attr) == "date":
                same(attr.get_value_millis(), 0, "default value of " + attr.get_key())
    every = extension.get_defined_attributes()
    same(sorted(set(a.get_key() for a in every)), sorted(set(k for level in LEVELS for k in wanted[level])), "all defined attributes")
    same([sorted(a.get_key() for a in level) for level in (extension.get_log_attributes(), extension.get_trace_attributes(),
                                                           extension.get_event_attributes(), extension.get_meta_attributes())],
         [sorted(wanted[level]) for level in LEVELS], "attributes of the levels after all were asked for")
    expect(len(every) >= len(set(a.get_key() for a in every)) and all(any(a is b for level in LEVELS for b in seen[level]) for a in every),
           "defined attributes that no level has")
    for (mapping, key), alias in aliases.items():
        same(XGlobalAttributeNameMap().get_mapping(mapping).map(key), alias, "alias of %s in %s" % (key, mapping))
    for key in {k for level in LEVELS for k in wanted[level]}:
        for mapping in ("EN", "DE", "QQ"):
            if (mapping, key) not in aliases:
                same(XGlobalAttributeNameMap().map_safely(key, mapping), aliases.get(("EN", key), key), "safe alias of %s in %s" % (key, mapping))
    ctx.step(6 + len(every))


def run(ctx, definition, style):
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.extension.XExtensionParser import XExtensionParser
    manager = XExtensionManager()
    before = [manager.get_by_prefix(p) for p in model.STANDARD]
    # plain text in the locale's own encoding would hide how the file is read
    path = os.path.join(ctx.scratch, "definition.xesext")
    with open(path, "wb") as out:
        out.write(render(definition, style))
    for _ in (1, 2):
        compare(ctx, XExtensionParser().parse(path), definition)
    compare(ctx, XExtensionParser.parse("file://" + path), definition)
    expect(all(a is b for a, b in zip(before, [manager.get_by_prefix(p) for p in model.STANDARD])), "parsing changed what is registered")
    ctx.state(repr(definition))


POOL = [["string", "name", [["EN", "Name"], ["DE", "Name (de)"]]], ["date", "when", []], ["int", "n", [["EN", "Number"]]],
        ["float", "x", []], ["boolean", "flag", [["QQ", "Flagge \u00e9"]]], ["id", "id", []]]


def level_cases():
    """Each attribute is on one of the levels or absent."""
    for places in itertools.product(range(5), repeat=len(POOL)):
        yield list(places)


def by_level(ctx, places):
    levels = [[level, [POOL[i] for i, where in enumerate(places) if where == n]] for n, level in enumerate(LEVELS)]
    levels = [entry for entry in levels if entry[1] or sum(places) % 2]
    order = sum(places) % 3
    run(ctx, ["Mine", "mine%d" % (sum(p * 5 ** i for i, p in enumerate(places))), "http://mine.org/m.xesext",
              levels[order:] + levels[:order]], 0)


def mask_cases():
    """The same keys on several levels."""
    for masks in itertools.product(range(16), repeat=3):
        yield list(masks)


def on_levels(ctx, masks):
    levels = [[level, [POOL[i] for i in range(3) if masks[i] >> n & 1]] for n, level in enumerate(LEVELS)]
    run(ctx, ["Mine", "m" + "-".join(map(str, masks)), "http://mine.org/m.xesext", levels], 1)


def interleaved_cases():
    """A level can be opened several times; levels in any order."""
    for order in itertools.product(range(4), repeat=4):
        yield list(order)


def interleaved(ctx, order):
    levels = [[LEVELS[n], [[KINDS[(i + n) % 6], "k%d" % i, [["EN", "alias %d" % i]]]]] for i, n in enumerate(order)]
    run(ctx, ["Mine", "i" + "".join(map(str, order)), "", levels], 2)


TEXTS = ["A", "two words", "\u00e9\u00fc", "<&\"'>", "", " lead", "\u4e2d\U0001f600", "a:b", "UPPER", "http://x/y?z=1&w=2#f"]


def text_cases():
    for where in range(5):
        for t in range(len(TEXTS)):
            for style in range(16):
                if where == 2 and TEXTS[t] != TEXTS[t].strip():
                    continue  # the library strips URIs
                yield [where, t, style]


def texts(ctx, case):
    where, t, style = case
    fields = ["Name", "pre%d-%d-%d" % tuple(case), "http://mine.org/m.xesext", "key", "alias"]
    fields[where] = TEXTS[t]
    if where == 1:
        # every definition has its own prefix, so that aliases do not meet
        fields[1] = TEXTS[t] + "%d" % style
    name, prefix, uri, key, alias = fields
    run(ctx, [name, prefix, uri, [["event", [["string", key, [["EN", alias]]], ["int", "other", []]]]]], style)


def words(ctx, case):
    """A text the code knows, as name, key, alias and mapping."""
    number, word = case
    word = "".join(c for c in word if c in "\t\n\r" or ord(c) >= 32)
    run(ctx, [word, "w%d" % number, "http://mine.org/w%d.xesext" % number,
              [["log", [["string", word, [["EN", word]]], ["int", "other", [["ZZ", word]]]]], ["event", [["float", word, []]]],
               ["meta", [["boolean", "m", [["ZZ", word], ["XX", "x"]]]]]]], 0)
    if word.strip() and ":" not in word and word not in model.STANDARD and word == word.strip():
        run(ctx, ["N", word, "http://mine.org/p%d.xesext" % number, [["trace", [["string", "own%d" % number, [["EN", "e"]]]]]]], 0)


def alias_cases():
    for n in range(4):
        for chosen in itertools.product(range(6), repeat=n):
            yield list(chosen)


def aliases(ctx, chosen):
    """Aliases go to the attribute they are nested in, per mapping, the last
    one counts."""
    mapping = ["EN", "DE", "ZZ"]
    names = [[], []]
    for i, n in enumerate(chosen):
        names[n % 2].append([mapping[n // 2], "alias %d" % i])
    run(ctx, ["Mine", "al" + "".join(map(str, chosen)), "http://mine.org/m.xesext",
              [["trace", [["string", "a", names[0]], ["date", "b", names[1]], ["int", "c", []]]]]], 3)


STRAY = ["before the levels", "before the attributes", "between attributes", "after the attributes", "after the levels"]


def stray(ctx, case):
    """An alias that is nested in no attribute names none."""
    from opyenxes.extension.XExtensionParser import XExtensionParser
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    where, kinds, level, style = case
    tag = [str, str.upper, str.title][style]
    alias = "<%s mapping='YY' name='stray'/>" % tag("alias")
    parts = ["<xesextension name='S' prefix='stray' uri='http://s/'>", "<%s>" % tag(level),
             "<{0} key='a'><{1} mapping='YY' name='A'/></{0}>".format(tag(kinds[0]), tag("alias")), "<{0} key='b'></{0}>".format(tag(kinds[1])),
             "</%s>" % tag(level), "</xesextension>"]
    if where == 5:
        # in an attribute, but no alias
        parts[2] = parts[2].replace("'/></", "'/>" + alias.replace(tag("alias"), "note") + "</", 1)
        parts[3] = parts[3].replace("></", ">" + alias.replace(tag("alias"), "names") + "</", 1)
        text = "".join(parts)
    else:
        text = "".join(parts[:where + 1] + [alias] + parts[where + 1:])
    path = os.path.join(ctx.scratch, "definition.xesext")
    with open(path, "w") as out:
        out.write(text)
    one = XExtensionParser.parse(path)
    same(sorted(a.get_key() for a in one.get_defined_attributes()), ["stray:a", "stray:b"], "attributes defined by " + text)
    mapping = XGlobalAttributeNameMap().get_mapping("YY")
    same([mapping.map("stray:a"), mapping.map("stray:b")], ["A", None], "aliases after " + text)
    ctx.step(2)
    ctx.state(repr(case))


def stray_cases():
    for where in range(6):
        for kinds in itertools.product(KINDS, repeat=2):
            for level in LEVELS:
                for style in range(3):
                    yield [where, list(kinds), level, style]


def nothing(ctx, case):
    """What is not an extension definition gives no extension (or an error),
    never another definition's."""
    from opyenxes.extension.XExtensionParser import XExtensionParser
    path = os.path.join(ctx.scratch, "definition.xesext")
    with open(path, "wb") as out:
        out.write(render(["Good", "good", "http://good/", []]))
    expect(XExtensionParser.parse(path) is not None, "a good definition gives nothing")
    with open(path, "w") as out:
        out.write(NOTHING[case])
    try:
        found = XExtensionParser.parse(path)
    except Exception:
        found = None
    same(found, None, "extension read from %r" % NOTHING[case])
    ctx.state(NOTHING[case])


NOTHING = ["", "<log/>", "<log><string key='a' value='b'/><event/></log>", "text", "<xesextension name='a' prefix='b' uri='http://[bad'/>",
           "<xesextension name='a' prefix='b' uri='http://a/'>", "<xesextension name='a' prefix='b'/>", "<xesextension prefix='a' uri='b'/>"]


def odd_key_cases():
    for prefix in ("odd", "concept", "o:p", "K"):
        pieces = [prefix, ":", "a", "concept:", "named", " "]
        for n in range(4):
            for parts in itertools.product(pieces, repeat=n):
                yield [prefix, "".join(parts)]


def odd_key(ctx, case):
    """Keys that begin with a prefix of their own, the extension's or another
    one, or are made of colons."""
    prefix, key = case
    run(ctx, ["Odd", prefix, "http://odd/", [[level, [[KINDS[(i + n) % 6], key + "12345"[:i], [["EN", "alias %d" % (i + n)]] if n == 0 else []] for i in range(6 if n == 1 else 3)]]
                                             for n, level in enumerate(LEVELS[:2 if prefix == "odd" else 4])]], 0)
    ctx.state(key)


def size_cases(tier):
    most = 300 if tier == "quick" else 1025
    for n in spaces.steps(tier, most):
        yield from (["attributes", n], ["aliases", n], ["levels", n], ["alone", n])
    for n in itertools.chain(range(1, 60), spaces.COUNTS[::3], spaces.LENGTHS[:-3 if tier == "quick" else None]):
        yield ["text", n]


def sizes(ctx, case):
    """Many attributes, aliases and levels, and long texts."""
    what, n = case
    if what == "attributes":
        levels = [[level, [[KINDS[(i + k) % 6], "k%d" % (i * 3 // (k + 1)), [["EN", "a%d" % (i * 3 // (k + 1))]] if i % 3 == 0 and k == 0 else []] for i in range(n)]] for k, level in enumerate(LEVELS)]
        levels = [[level, list({a[1]: a for a in attributes}.values())] for level, attributes in levels]
    elif what == "aliases":
        levels = [["trace", [["string", "a", [["M%d" % i, "alias %d" % i] for i in range(n)]], ["int", "b", [["EN", "Be"]]],
                             ["date", "c", [["EN" if i % 2 else "DE", "c%d" % i] for i in range(n)]]]]]
    elif what == "levels":
        levels = [[LEVELS[i * 3 % 4], [[KINDS[i % 6], "k%d" % i, [["EN", "alias %d" % i]] * (i % 3)]]] for i in range(n)]
    elif what == "alone":
        levels = [[level, [[KINDS[i % 6], "%s%d" % (level, i), []] for i in range(n if k == n % 4 else 1)]] for k, level in enumerate(LEVELS)]
    else:
        text = spaces.odd_text(n).replace("|", "/") + "."
        run(ctx, ["N" + text, "size%d" % n, "http://mine.org/" + "x" * n, [["event", [["string", "k" + text, [["EN", "a" + text]]], ["int", "other", [["M" + text, "m"]]]]]]], 0)
        return
    run(ctx, ["Mine", "size-%s-%d" % (what, n), "http://mine.org/m.xesext", levels], n % 16)


KNOWN_TAGS = LEVELS + KINDS + ["alias", "xesextension"]


def similar_cases():
    for tag in KNOWN_TAGS:
        for word in spaces.similar(tag):
            if spaces.is_name(word) and word.lower() not in KNOWN_TAGS:
                yield word


def similar(ctx, word):
    """Elements whose tags have almost the names of known ones define nothing."""
    from opyenxes.extension.XExtensionParser import XExtensionParser
    odd = "<%s key='a' mapping='EN' name='odd'/>" % word
    plain = render(["S", "sim", "http://sim/", [["log", [["string", "a", [["EN", "A"]]], ["int", "b", []]]], ["event", [["date", "c", [["DE", "C"]]]]]]]).decode()
    head, rest = plain[:plain.index("?>") + 2], plain[plain.index("?>") + 2:]
    for text in (rest.replace("><", ">" + odd + "<"), rest.replace("</", odd + "</"), rest.replace("><", ">" + odd + "<", 1)):
        path = os.path.join(ctx.scratch, "definition.xesext")
        with open(path, "wb") as out:
            out.write((head + text).encode())
        compare(ctx, XExtensionParser.parse(path), ["S", "sim", "http://sim/", [["log", [["string", "a", [["EN", "A"]]], ["int", "b", []]]], ["event", [["date", "c", [["DE", "C"]]]]]]])
    ctx.state(word)


def typed(ctx, case):
    """The same definition by means of its document type."""
    from opyenxes.extension.XExtensionParser import XExtensionParser
    _, form, number = case
    definition = ["S <&> n", "sim", "http://sim/?a&b", [["log", [["string", "a", [["EN", "A & '%'"], ["DE", "\u00e4"]]], ["int", "b", []]]], ["trace", [["id", "a", []]]],
                                                        ["event", [["date", "c", [["DE", "C"]]]]], ["meta", [["float", "f", [["EN", "A & '%'"]]], ["boolean", "g", []]]]]]
    plain = render(definition).decode()
    at = plain.index("?>") + 2
    path = os.path.join(ctx.scratch, "definition.xesext")
    with open(path, "wb") as out:
        out.write((plain[:at] + doctype.rewrite(plain[at:], form, number)).encode())
    compare(ctx, XExtensionParser.parse(path), definition)
    ctx.state(repr(case))


def families(tier):
    import opyenxes.extension.XExtensionManager  # noqa: F401 the children of fork need not import it
    import urllib.request
    urllib.request.urlopen("file:///dev/null").close()  # nor set up URL handling

    def alone(function):
        return lambda ctx, case: isolated(ctx, function, case)
    return [
        Family("levels", lambda _: level_cases(), by_level),
        Family("repeated-keys", lambda _: mask_cases(), on_levels),
        Family("interleaved-levels", lambda _: interleaved_cases(), interleaved),
        Family("texts", lambda _: text_cases(), alone(texts)),
        Family("literals", lambda _: enumerate(spaces.literals()[0]), alone(words)),
        Family("aliases", lambda _: alias_cases(), alone(aliases)),
        Family("stray-aliases", lambda _: stray_cases(), alone(stray)),
        Family("odd-keys", lambda _: odd_key_cases(), alone(odd_key)),
        Family("sizes", lambda _: size_cases(tier), alone(sizes)),
        Family("similar-names", lambda _: similar_cases(), alone(similar)),
        Family("document-types", lambda _: doctype.cases(1, 20), alone(typed)),
        Family("no-definition", lambda _: list(range(len(NOTHING))), alone(nothing)),
    ]
