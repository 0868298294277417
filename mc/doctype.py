"""Other ways to write the same document: with entities and default attributes declared in its document type."""
import re

FORMS = ["whole", "halves", "letters", "nested", "declared-twice", "defaults", "subtrees", "comments"]
TOKEN = re.compile(r"<[^>]*>|[^<]+")
ATTRIBUTE = re.compile(r"([^\s=<>]+)=\"([^\"]*)\"")
PIECE = re.compile(r"&[^;]*;|.", re.S)


def literal(markup):
    """Entity value which stands for this markup."""
    for a, b in (("&", "&#38;"), ("%", "&#37;"), ('"', "&#34;")):
        markup = markup.replace(a, b)
    return '"' + markup + '"'


def tree(tokens):
    """Ends of the elements by the positions of their start tags."""
    ends, stack = {}, []
    for n, token in enumerate(tokens):
        if token.startswith("</"):
            ends[stack.pop()] = n
        elif token.startswith("<"):
            if token.endswith("/>"):
                ends[n] = n
            else:
                stack.append(n)
    return ends


def rewrite(text, form, number=0):
    """The document, which has one root, no prolog, no comments and double quotes, with a document type."""
    tokens = TOKEN.findall(text)
    name = re.match(r"<([^\s/>]+)", tokens[0]).group(1)
    declared = []

    def entity(markup):
        key = "e%d" % len(declared)
        declared.append("<!ENTITY %s %s>" % (key, literal(markup)))
        return "&%s;" % key

    def value(markup):
        if not markup:
            return markup
        if form == "whole":
            return entity(markup)
        pieces = PIECE.findall(markup)
        middle = (len(pieces) + 1) // 2
        if form == "halves":
            return entity("".join(pieces[:middle])) + "".join(pieces[middle:])
        if form == "letters":
            return "".join(entity(piece) for piece in pieces)
        if form == "nested":
            inner = entity("".join(pieces[:middle]))
            declared.append("<!ENTITY n%d \"%s%s\">" % (len(declared), inner, literal("".join(pieces[middle:]))[1:-1]))
            return "&n%d;" % (len(declared) - 1)
        if form == "declared-twice":
            result = entity(markup)
            declared.append("<!ENTITY %s \"another\">" % result[1:-1])
            return result
        return markup

    def tag(token):
        return ATTRIBUTE.sub(lambda found: '%s="%s"' % (found.group(1), value(found.group(2))), token)
    if form == "subtrees":
        ends = tree(tokens)
        wanted = [start for start in sorted(ends) if start > 0]
        start = wanted[number % len(wanted)]
        one = "".join(tokens[start:ends[start] + 1])
        tokens[start:ends[start] + 1] = [entity(one)]
    elif form == "defaults":
        seen = {}
        for token in tokens:
            if token.startswith("<") and not token.startswith("</"):
                its = dict(ATTRIBUTE.findall(token))
                seen.setdefault(re.match(r"<([^\s/>]+)", token).group(1), []).append(its)
        defaults = {}
        for element, every in seen.items():
            always = set(every[0]).intersection(*every)
            for key in sorted(always):
                values = sorted({its[key] for its in every})
                defaults[element, key] = values[number % len(values)]
                declared.append('<!ATTLIST %s %s CDATA "%s">' % (element, key, defaults[element, key]))

        def shorter(token):
            element = re.match(r"<([^\s/>]+)", token).group(1)
            return re.sub(r"\s" + ATTRIBUTE.pattern, lambda found: "" if defaults.get((element, found.group(1))) == found.group(2) else found.group(), token)
        tokens = [shorter(token) if token.startswith("<") and not token.startswith("</") else token for token in tokens]
    elif form == "comments":
        declared += ["<!-- <!ENTITY e0 'x'> -->", "<?target <log/> ?>", "<!ELEMENT %s ANY>" % name, "<!NOTATION gif SYSTEM \"gif\">", "<!ENTITY never \"used\">",
                     "<!ENTITY outside SYSTEM \"outside.xml\">", "<!ENTITY picture SYSTEM \"a.gif\" NDATA gif>"]
    else:
        tokens = [(tag(token) if not token.startswith("</") else token) if token.startswith("<") else value(token) if token.strip() else token for token in tokens]
    return "<!DOCTYPE %s [%s]>%s" % (name, "\n".join(declared), "".join(tokens))


def cases(documents, places):
    for which in range(documents):
        for form in FORMS:
            for number in range({"subtrees": places, "defaults": 6}.get(form, 1)):
                yield [which, form, number]
