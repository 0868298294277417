"""P27: the text of a classifier's keys stands for exactly these keys."""
import itertools
from mc import model, spaces
from mc.core import Family, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = ["keys are not blank (blank ones are dropped)", "a quoted key is set off from its neighbours by white space"]
LETTERS = ["a", " ", "'", "\\", "\n", "\u00e9", "\t", ":"]


def helper():
    from opyenxes.utils.XTokenHelper import XTokenHelper
    return XTokenHelper


def there_and_back(ctx, tokens):
    given = list(tokens)
    text = helper().format_token(given)
    same(given, list(tokens), "keys after formatting")
    expect(type(text) is str, "text is a", type(text).__name__)
    back = helper().extract_tokens(text)
    same(back, [t for t in tokens if t.strip()], "keys of the text %r" % text)
    same(helper().format_token(back), text, "text of the keys read")
    ctx.step(3)
    ctx.state(text)


def words(length, letters=LETTERS):
    return [w for w in spaces.strings(length, letters)]


def round_trips(ctx, case):
    first, others, more = case
    there_and_back(ctx, [first])
    rest = words(others)
    for second in rest:
        there_and_back(ctx, [first, second])
    if len(first) <= more:
        few = words(more)
        for second, third in itertools.product(few, few):
            there_and_back(ctx, [first, second, third])


# written forms of keys: the form and the key it stands for
FORMS = [("a", "a"), ("'a'", "a"), ("'a b'", "a b"), ("\\'", "'"), ("\\\\", "\\"), ("a\\ b", "a b"), ("'a\\'b c'", "a'b c"),
         ("' a '", " a "), ("'\t\n'", None), ("''", None), ("\u00e9:\u4e2d", "\u00e9:\u4e2d"), ("'a\\\\'", "a\\"), ("\\a", "a")]
BETWEEN = [" ", "  ", "\t", "\n", "\r\n "]


def written(ctx, case):
    outside, forms = case
    for gaps in itertools.product(BETWEEN, repeat=max(0, len(forms) - 1)):
        text = outside + "".join(FORMS[f][0] + gap for f, gap in zip(forms, gaps + (outside,)))
        same(helper().extract_tokens(text), [FORMS[f][1] for f in forms if FORMS[f][1]], "keys of the text %r" % text)
        ctx.step()
        ctx.state(text)


def written_cases(length):
    for n in range(length + 1):
        for forms in itertools.product(range(len(FORMS)), repeat=n):
            for outside in ["", " ", "\n\t"]:
                yield [outside, list(forms)]


def any_text(ctx, prefix):
    """No text is refused; what is read can be written and read again."""
    for rest in words(4, LETTERS[:5]):
        text = prefix + rest
        keys = helper().extract_tokens(text)
        expect(type(keys) is list and all(type(k) is str and k.strip() for k in keys), "keys of", text, ":", keys)
        same(helper().extract_tokens(helper().format_token(keys)), keys, "keys of %r written and read" % text)
        ctx.step(2)


def in_document(ctx, keys):
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    log = model.build_log({"t": []})
    log.get_classifiers().append(XEventAttributeClassifier("C", list(keys)))
    read = model.read_xes(model.write_xes(log))
    same([(c.name(), list(c.get_defining_attribute_keys())) for c in read.get_classifiers()],
         [("C", [k for k in keys])], "classifier read back")
    ctx.step(2)
    ctx.state(repr(keys))


def document_cases():
    kept = [w for w in words(2) if w.strip()]
    for w in kept:
        yield [w]
        yield ["x", w]
        yield [w, "y", w + "z"]


def literals(ctx, word):
    """The texts the code knows, as keys, alone and next to every other."""
    there_and_back(ctx, [word])
    others = spaces.literals()[0] if not _literals else _literals
    _literals[:] = others
    for other in others:
        there_and_back(ctx, [word, other])
        there_and_back(ctx, ["a", other, word, "b c"])


_literals = []


def characters(ctx, low):
    """Every character, within keys and at their ends."""
    for code in range(low, low + 0x100):
        if not 0xD800 <= code < 0xE000:
            c = chr(code)
            there_and_back(ctx, ["a" + c + "b"])
            there_and_back(ctx, [c + "a", "b"])
            there_and_back(ctx, ["b", "a" + c])
            there_and_back(ctx, ["a b", c, "c" + c + c + "'d"])


def sizes(ctx, case):
    """Many keys and long ones."""
    what, n = case
    if what == "keys":
        there_and_back(ctx, ["k%d%s" % (i, spaces.ODD[i * (1 + n % 5) % len(spaces.ODD)]) for i in range(n)])
        there_and_back(ctx, ["a%d" % i for i in range(n)] + ["it's", "b c", "d\\"])
        there_and_back(ctx, [["b c", "\\", "'", "x"][(i + n) % 4] for i in range(n)])
        in_document(ctx, ["k%d%s" % (i, spaces.ODD[i % 7]) for i in range(n)] + ["z"])
    else:
        word = "x" + spaces.odd_text(n)
        there_and_back(ctx, [word])
        there_and_back(ctx, ["a", word, "b c", word + "y"])
        there_and_back(ctx, [("\\" * n + "x"), "'" * n + "y", " " * n + "z"])
        there_and_back(ctx, ["x" * n + end for end in ("a", " ", "'", "\\", "\n")])


def size_cases(tier):
    for n in spaces.steps(tier):
        yield ["keys", n]
    for n in itertools.chain(range(100), spaces.COUNTS, spaces.LENGTHS[:-3 if tier == "quick" else None]):
        yield ["text", n]


def families(tier):
    quick = tier == "quick"
    return [
        Family("round-trips", lambda _: ([w, 2 if quick else 3, 1 if quick else 2] for w in words(3)), round_trips),
        Family("written-forms", lambda _: written_cases(3 if quick else 4), written),
        Family("literals", lambda _: spaces.literals()[0], literals),
        Family("sizes", lambda _: size_cases(tier), sizes),
        Family("characters", lambda _: list(range(0, 0x10000 if quick else 0x110000, 0x100)) + [0x1f600, 0xe0000], characters),
        Family("any-text", lambda _: words(2 if quick else 3, LETTERS[:5]), any_text),
        Family("in-documents", lambda _: document_cases(), in_document),
    ]
