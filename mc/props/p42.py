"""P42: reading, writing and analysing logs reaches nothing but what it was given."""
import gzip
import io
import itertools
import os
import sys
import tempfile
from mc import core, model, mxmldoc, spaces, tasks
from mc.core import Family, expect, isolated, same
from mc.props import p03, p08, p22
from mc.watch import Watch

LEVEL = "model_checking"
ASSUMPTIONS = ["what code does to files, processes and the network is seen through the audit events of Python and calls of os.stat",
               "documents refer to known extensions only (the manager's documentation speaks of looking for others)"]
PROLOG = '<?xml version="1.0" encoding="UTF-8"?>'
SECRET = "secret content"
MARK = "MARK"


def words(folder):
    """Texts which something could be tempted to open, import, run or expand."""
    there = os.path.join(folder, "there.txt")
    url = "http://127.0.0.1:9/x"
    return [there, "file://" + there, "file:" + there, url, "there.txt", "../there.txt", "./there.xes", folder, folder + os.sep, "~/there.txt", "$HOME", "${HOME}/there.txt", "%HOME%",
            "/dev/tcp/127.0.0.1/9", "//127.0.0.1/share", "\\\\127.0.0.1\\share", "C:\\there.txt", "ftp://127.0.0.1:9/x", "data:text/xml,<log/>", "jar:file:" + there + "!/x",
            "__import__('os').mkdir('%s/made')" % folder, "().__class__", "{0.__class__.__init__.__globals__}", "{}", "%s%s%n", "%(a)s", "os.getcwd()", "exit()", "lambda: 0", "this", "antigravity",
            "|touch %s/made" % folder, "`touch %s/made`" % folder, "$(touch %s/made)" % folder, "; touch %s/made" % folder, "cos\nsystem\n(S'touch %s/made'\ntR." % folder,
            "!!python/object/apply:os.system ['touch %s/made']" % folder, "http://www.xes-standard.org/concept.xesext", "https://127.0.0.1:9/x.xesext", "x.gz", there + ".gz", "-", "0", "1", "con", "nul"]


NUMBER = len(words("/x"))


def place(ctx):
    """A folder with a file in it, where programs are at home."""
    folder = os.path.join(ctx.scratch, "w")
    if not os.path.exists(folder):
        os.mkdir(folder)
        os.mkdir(os.path.join(folder, "given"))
        with open(os.path.join(folder, "there.txt"), "w") as out:
            out.write(SECRET)
        with open(os.path.join(folder, "there.xes"), "w") as out:
            out.write("<log><string key='k' value='%s'/></log>" % SECRET)
        with open(os.path.join(folder, "there.dtd"), "w") as out:
            out.write("<!ENTITY inside \"%s\"><!ATTLIST string value CDATA \"%s\">" % (SECRET, SECRET))
    os.chdir(os.path.join(folder, "given"))
    os.environ["HOME"] = folder
    # files for a moment may be made beside the ones given, and in the folder for such files
    os.environ["TMPDIR"] = os.path.join(folder, "given")
    tempfile.tempdir = None
    return folder


def listing(folder):
    result = {}
    for path, names, files in os.walk(folder):
        for name in names + files:
            one = os.path.join(path, name)
            result[one] = None if os.path.isdir(one) else open(one, "rb").read()
    return result


def surroundings(folder):
    return listing(folder), dict(os.environ), os.getcwd(), sorted(os.listdir(os.path.dirname(folder))), list(sys.path)


def nothing(watch, what):
    expect(not watch.seen, what, "reached", watch.seen[:3])


def parser(name):
    import importlib
    return getattr(importlib.import_module("opyenxes.data_in." + name), name)()


ENTRANCES = ["path", "stream", "bytes", "text", "gzip", "universal"]


def entrance(kind, way, folder, data):
    """Files given and the call that reads them."""
    suffix = {"xes": ".xes", "mxml": ".mxml"}[kind] + (".gz" if way == "gzip" else "")
    path = os.path.join(folder, "given", "log" + suffix)
    with open(path, "wb") as out:
        out.write(gzip.compress(data, mtime=0) if way == "gzip" else data)
    one = parser({"xes": "XesXml", "mxml": "XMxml"}[kind] + ("GZIP" if way == "gzip" else "") + "Parser") if way != "universal" else parser("XUniversalParser")
    if way == "path":
        return [path], lambda: one.parse(path)
    if way == "bytes":
        return [], lambda: one.parse(io.BytesIO(data))
    # streams are opened by the program
    stream = open(path, "r", encoding="utf-8") if way == "text" else open(path, "rb")
    return [path], lambda: one.parse(stream)


def document(kind, word):
    clean = "".join(c for c in word if c in "\t\n\r" or ord(c) >= 32)
    if kind == "xes":
        return p03.render(p03.of_word(clean))
    return mxmldoc.render(p08.word_document(clean))


def ready(kind, folder):
    """Whatever is loaded at the first use has been."""
    tasks.load_all()
    from opyenxes.extension.XExtensionManager import XExtensionManager
    XExtensionManager()
    for way in ENTRANCES:
        for data in (document(kind, "harmless"), "<log"):
            try:
                entrance(kind, way, folder, (PROLOG + data).encode())[1]()
            except Exception:
                pass
    os.remove(os.path.join(folder, "given", "log." + kind))
    os.remove(os.path.join(folder, "given", "log." + kind + ".gz"))


def read_words(ctx, case):
    kind, number = case
    folder = place(ctx)
    word = words(folder)[number]
    ready(kind, folder)
    watch = Watch(os.path.join(core.REPO, "src"), [word])
    data = (PROLOG + document(kind, word)).encode()
    results = []
    for way in ENTRANCES:
        given, action = entrance(kind, way, folder, data)
        before = surroundings(folder)
        result, answer = watch.during(action, given, (), os.path.join(folder, "given"))
        nothing(watch, "reading %s by %s" % (kind, way))
        same(surroundings(folder), before, "surroundings after reading %s by %s" % (kind, way))
        same(result, "returned", "reading %s by %s %r" % (kind, way, answer))
        results.append([model.seen_log(log) for log in answer])
        ctx.step(data.count(b"<"))
    expect(all(one == results[0] for one in results), "what is read by the entrances differs")
    expect(SECRET not in repr(results), "the content of another file was read")
    ctx.state(repr((case, results[0])))


REFERENCES = ["entity", "two", "nested", "subset", "public subset", "parameter", "parameter in text", "unparsed", "stylesheet", "include", "plain include", "other elements", "other attributes", "schema", "base", "no namespace schema", "unused"]
TARGETS = ["{0}/there.txt", "file://{0}/there.txt", "file:{0}/there.xes", "there.txt", "../there.xes", "{0}/there.dtd", "file://{0}/there.dtd", "http://127.0.0.1:9/there.dtd", "https://127.0.0.1:9/",
           "ftp://127.0.0.1:9/x", "file:///", "/dev/stdin", "data:text/plain,secret content", "", "urn:x:y", "../there.dtd", "//127.0.0.1/x", "file://127.0.0.1{0}/there.txt"]


def referring(kind, reference, target):
    """The document, and what it would be if the reference led to nothing."""
    if kind == "xes":
        before, after = '<log xes.version="1.0"><trace><event><string key="a" value="1"/>', '<int key="b" value="2"/></event></trace></log>'
        root, attribute = "log", '<string key="k" value="%s"/>'
    else:
        before = '<WorkflowLog><Process id="p"><ProcessInstance id="i"><AuditTrailEntry><WorkflowModelElement>a'
        after = "</WorkflowModelElement><EventType>start</EventType></AuditTrailEntry></ProcessInstance></Process></WorkflowLog>"
        root, attribute = "WorkflowLog", "%s"
    head = lambda more: before.replace("<" + root, "<" + root + " " + more, 1)  # noqa: E731
    plain = before + after
    doctype = lambda inside, body: "<!DOCTYPE %s%s>%s" % (root, inside, body)  # noqa: E731
    forms = {
        "entity": doctype(' [<!ENTITY e SYSTEM "%s">]' % target, before + "&e;" + after),
        "two": doctype(' [<!ENTITY e PUBLIC "-//X//Y" "%s"><!ENTITY f SYSTEM "%s">]' % (target, target), before + "&e;&f;&e;" + after),
        "nested": doctype(' [<!ENTITY e SYSTEM "%s"><!ENTITY f "&e;">]' % target, before + "&f;" + after),
        "subset": doctype(' SYSTEM "%s"' % target, plain),
        "public subset": doctype(' PUBLIC "-//X//Y" "%s" [<!ENTITY x "y">]' % target, plain),
        "parameter": doctype(' [<!ENTITY %% e SYSTEM "%s"> %%e;]' % target, plain),
        "parameter in text": doctype(' [<!ENTITY %% e SYSTEM "%s"> %%e; <!ENTITY f "x">]' % target, before + "&inside;" + after),
        "unparsed": doctype(' [<!NOTATION n SYSTEM "%s"><!ENTITY e SYSTEM "%s" NDATA n>]' % (target, target), plain),
        "stylesheet": '<?xml-stylesheet type="text/xsl" href="%s"?>' % target + plain,
        "include": plain.replace("</event>" if kind == "xes" else "<EventType>", '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="%s" parse="text"/>' % target + (
            "</event>" if kind == "xes" else "<EventType>")),
        "plain include": plain.replace("</event>" if kind == "xes" else "<EventType>", '<include href="%s"/>' % target + ("</event>" if kind == "xes" else "<EventType>")),
        "other elements": plain.replace("</event>" if kind == "xes" else "<EventType>", "".join('<%s href="%s" src="%s" uri="%s" location="%s"/>' % ((tag,) + (target,) * 4) for tag in (
            "import", "link", "object", "file", "source-file", "external", "ref", "schema")) + ("</event>" if kind == "xes" else "<EventType>")),
        "other attributes": head('href="%s" src="%s" uri="%s" file="%s" location="%s" schema="%s"' % ((target,) * 6)) + after,
        "schema": head('xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:schemaLocation="%s %s"' % (target or "x", target or "x")) + after,
        "base": head('xml:base="%s"' % target) + after,
        "no namespace schema": head('xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="%s"' % target) + after,
        "unused": doctype(' [<!ENTITY e SYSTEM "%s"><!ENTITY %% f SYSTEM "%s">]' % (target, target), plain),
    }
    return forms[reference], plain


def references(ctx, case):
    kind, reference, target = case
    folder = place(ctx)
    ready(kind, folder)
    text, plain = referring(kind, REFERENCES[reference], TARGETS[target].format(folder))
    expected = [model.seen_log(log) for log in parser("XesXmlParser" if kind == "xes" else "XMxmlParser").parse(io.BytesIO(plain.encode()))]
    watch = Watch(os.path.join(core.REPO, "src"), [text])
    data = (PROLOG + text).encode()
    for way in ENTRANCES:
        given, action = entrance(kind, way, folder, data)
        before = surroundings(folder)
        result, answer = watch.during(action, given, (), os.path.join(folder, "given"))
        what = "reading %s with a reference (%s) by %s" % (kind, REFERENCES[reference], way)
        nothing(watch, what)
        same(surroundings(folder), before, "surroundings after " + what)
        if result == "returned":
            same([model.seen_log(log) for log in answer], expected, "logs after " + what)
        else:
            # entities may be refused, or be unknown; the rest is no reason
            expect("entity" in REFERENCES[reference] or "parameter" in REFERENCES[reference] or REFERENCES[reference] in ("two", "nested", "subset", "public subset", "unparsed", "unused"),
                   what, "failed:", repr(answer))
        ctx.step(data.count(b"<"))
    ctx.state(repr((case, expected)))


UNREADABLE = [("xes", '<log><trace><event><%s key="a" value="@"/></event></trace></log>' % kind) for kind in spaces.KINDS] + [
    ("xes", '<log><global scope="@"><string key="a" value="b"/></global></log>'), ("xes", '<log><classifier name="a" keys="@"/></log>'),
    ("xes", '<log><classifier name="a" scope="@" keys="a"/></log>'), ("xes", '<log xes.version="@" xes.features="@" openxes.version="@" xmlns="@"/>'),
    ("xes", '<log><@/></log>'), ("xes", "@"), ("xes", '<log><trace></log>@'), ("xes", "<!DOCTYPE @><log/>"), ("xes", "<?@?><log/>"),
    ("mxml", "<WorkflowLog><Process><ProcessInstance><AuditTrailEntry><Timestamp>@</Timestamp></AuditTrailEntry></ProcessInstance></Process></WorkflowLog>"),
    ("mxml", '<WorkflowLog xmlns="@" description="@"><Source program="@"/><Process id="@" description="@"/></WorkflowLog>'),
    ("mxml", '<WorkflowLog><Process modelReference="@"><ProcessInstance modelReference="@ @"/></Process></WorkflowLog>'), ("mxml", "<WorkflowLog><@/></WorkflowLog>"), ("mxml", "@"),
    ("mxml", "<WorkflowLog><Process></WorkflowLog>@")]


def unreadable(ctx, case):
    """Whether they can be read or not, and however they are cut."""
    form, number, cut = case
    folder = place(ctx)
    kind, text = UNREADABLE[form]
    ready(kind, folder)
    word = words(folder)[number]
    text = text.replace("@", "".join(p03.escape(c) for c in word if c in "\t\n\r" or ord(c) >= 32))
    watch = Watch(os.path.join(core.REPO, "src"), [word] if len(word) > 3 else [])
    for end in range(1, len(text)) if cut else [len(text)]:
        for way in ["bytes", "universal"] if cut else ENTRANCES:
            given, action = entrance(kind, way, folder, text[:end].encode())
            before = surroundings(folder)
            result, answer = watch.during(action, given, (), os.path.join(folder, "given"))
            nothing(watch, "reading %r by %s" % (text[:end], way))
            same(surroundings(folder), before, "surroundings after reading %r by %s" % (text[:end], way))
            expect(SECRET not in repr([model.seen_log(log) for log in answer] if result == "returned" else answer), "another file was read")
            ctx.step()
    ctx.state(repr(case))


def used(log):
    """All kinds of uses of a log."""
    from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
    from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
    from opyenxes.extension.std.XCostExtension import XCostExtension
    from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    from opyenxes.info.XLogInfoFactory import XLogInfoFactory
    from opyenxes.utils.XTokenHelper import XTokenHelper
    from opyenxes.log.XLogging import XLogging
    from mc import looks
    seen = []

    def attempt(action):
        try:
            seen.append(repr(action()))
        except Exception as error:
            # texts that are no ids, dates or numbers
            seen.append(type(error).__name__)
    for classifier in list(log.get_classifiers()) + [XEventNameClassifier(), XEventAttributeClassifier("own", ["a", "b"])]:
        attempt(lambda: looks.summary(XLogInfoFactory.create_log_info(log, classifier), log))
        attempt(lambda: str(classifier))
        attempt(lambda: XTokenHelper.extract_tokens(str(classifier)))
    attempt(lambda: log.clone())
    for key in sorted({k for t in log for e in t for k in e.get_attributes()}):
        attempt(lambda: XGlobalAttributeNameMap().map_safely(key, key))
        attempt(lambda: (XExtensionManager().get_by_name(key), XExtensionManager().get_by_prefix(key), XTokenHelper.extract_tokens(key)))
        attempt(lambda: XGlobalAttributeNameMap().register_mapping(key, key, key))
        attempt(lambda: XLogging().log(key, XLogging.Importance.INFO))
    for event in (e for t in log for e in t):
        one = XExtendedEvent.wrap(event)
        for name in sorted(n for n in dir(one) if n.startswith("get_")):
            attempt(lambda: getattr(one, name)())
        attempt(lambda: XCostExtension().extract_nested_amounts(event))
        attempt(lambda: [str(a) for a in event.get_attributes().values()])
        attempt(lambda: hash(event))
    return seen


def log_of(folder, word):
    clean = "".join(c for c in word if c in "\t\n\r" or ord(c) >= 32)
    log = spaces.literal_log(clean)
    return log


SERIALIZERS = [("XesXmlSerializer", ".xes"), ("XesXmlGZIPSerializer", ".xes.gz"), ("XMxmlSerializer", ".mxml"), ("XMxmlGZIPSerializer", ".mxml.gz")]


def write_words(ctx, number):
    """A log with the word everywhere is written and used."""
    import importlib
    folder = place(ctx)
    word = words(folder)[number]
    tasks.load_all()
    target = os.path.join(folder, "given", "out")

    def write(name, log, out):
        return getattr(importlib.import_module("opyenxes.data_out." + name), name)().serialize(log, out)

    def open_and_write(name, suffix, log):
        with open(target + suffix, "w") as out:
            return write(name, log, out)
    harmless = model.build_log(log_of(folder, "harmless"))
    used(harmless)
    for name, suffix in SERIALIZERS:
        open_and_write(name, suffix, harmless)
        os.remove(target + suffix)
    log = model.build_log(log_of(folder, word))
    content = model.seen_log(log)
    watch = Watch(os.path.join(core.REPO, "src"), [word] if len(word) > 3 else [])
    for name, suffix in SERIALIZERS:
        before = surroundings(folder)
        result, answer = watch.during(lambda: open_and_write(name, suffix, log), (), [target + suffix], os.path.join(folder, "given"))
        nothing(watch, "writing by " + name)
        same(result, "returned", "writing by %s %r" % (name, answer))
        expect(os.path.exists(target + suffix), "nothing was written by", name)
        os.remove(target + suffix)
        same(surroundings(folder), before, "surroundings after writing by " + name)
        if not suffix.endswith("gz"):
            watch.during(lambda: write(name, log, io.StringIO()), (), (), os.path.join(folder, "given"))
            nothing(watch, "writing to memory by " + name)
            same(surroundings(folder), before, "surroundings after writing by " + name)
        ctx.step(2)
    before = surroundings(folder)
    result, answer = watch.during(lambda: used(log))
    nothing(watch, "using a log")
    same(result, "returned", "using a log %r" % (answer,))
    same(surroundings(folder), before, "surroundings after using a log")
    same(model.seen_log(log), content, "log after all uses")
    ctx.step(len(answer))
    ctx.state(repr((number, len(answer))))


def neighbours(ctx, case):
    """Files that stand where the library itself would put one for a moment stay as they are."""
    import importlib
    direction, name, way = case
    folder = place(ctx)
    tasks.load_all()
    given = os.path.realpath(os.path.join(folder, "given"))
    for one in os.listdir(given):
        os.remove(os.path.join(given, one))
    log = model.build_log(log_of(folder, "harmless"))
    used(log)
    if direction == "read":
        ready(name, folder)

    def given_and_action():
        if direction == "read":
            return entrance(name, way, folder, (PROLOG + document(name, "harmless")).encode())
        target = os.path.join(given, "out" + way)

        def action():
            with open(target, "w") as out:
                getattr(importlib.import_module("opyenxes.data_out." + name), name)().serialize(log, out)
        return [target], action
    watch = Watch(os.path.join(core.REPO, "src"))
    mine = set()
    for n in range(4):
        files, action = given_and_action()
        if n == 1:
            mine = {one for one in watch.touched if one not in map(os.path.realpath, files) and not os.path.exists(one)}
            for one in mine:
                if os.path.isdir(os.path.dirname(one)):
                    with open(one, "w") as out:
                        out.write("mine " + one)
        before = {one: data for one, data in listing(given).items() if one not in map(os.path.realpath, files)}
        result, answer = watch.during(action, files, files if direction == "write" else (), given)
        nothing(watch, "%s %s %s" % tuple(case))
        same(result, "returned", "%s %s %s with other files beside it %r" % (*case, answer))
        if direction == "read":
            first = model.seen_log(answer[0]) if n == 0 else first
            same(model.seen_log(answer[0]), first, "what is read")
        same({one: data for one, data in listing(given).items() if one not in map(os.path.realpath, files)}, before, "files beside the ones given")
        ctx.step()
    ctx.state(repr((case, len(mine))))


def definition(ctx, number):
    """Reading the definition of an extension opens that file only."""
    from opyenxes.extension.XExtensionParser import XExtensionParser
    folder = place(ctx)
    word = words(folder)[number]
    clean = "".join(c for c in word if c in "\t\n\r" or ord(c) >= 32)
    tasks.load_all()
    path = os.path.join(folder, "given", "own.xesext")
    for text in ("harmless", clean):
        data = p22.render([text, "own" + text[:3], text if "://" in text else "http://x.org/" + str(number),
                           [["log", [["string", text, [["EN", text]]], ["int", "other", [["ZZ", text]]]]], ["event", [["float", text, []]]]]])
        with open(path, "wb") as out:
            out.write(data)
        if text == "harmless":
            XExtensionParser.parse(path)
    variants = [data]
    body = data.decode()[len('<?xml version="1.0" encoding="UTF-8" ?>'):]
    for inside in (' SYSTEM "%s/there.dtd"' % folder, ' [<!ENTITY %% e SYSTEM "%s/there.dtd"> %%e;]' % folder, ' [<!ENTITY e SYSTEM "file://%s/there.txt">]' % folder):
        variants.append((PROLOG + "<!DOCTYPE xesextension%s>%s" % (inside, body.replace("</xesextension>", "&e;</xesextension>") if inside.endswith('txt">]') else body)).encode())
    watch = Watch(os.path.join(core.REPO, "src"), [word] if len(word) > 3 else [])
    for n, data in enumerate(variants):
        with open(path, "wb") as out:
            out.write(data)
        before = surroundings(folder)
        result, answer = watch.during(lambda: XExtensionParser.parse(path), [path], (), os.path.join(folder, "given"))
        nothing(watch, "reading a definition")
        same(surroundings(folder), before, "surroundings after reading a definition")
        expect(result == "returned" or n, "the definition was not read:", repr(answer))
        if result == "returned":
            expect(SECRET not in repr([(a.get_key(), str(a)) for a in answer.get_defined_attributes()]), "another file was read")
        ctx.step(3)
    ctx.state(str(number))


def task(ctx, name):
    """What programs do, P25's tasks: within their own folder only."""
    folder = place(ctx)
    tasks.load_all()
    one = tasks.TASKS.get(name) or tasks.MORE[name]
    own = os.path.join(folder, "given")
    tasks.environment(own, 0)
    wanted = one(tasks.environment(own, 1))
    watch = Watch(os.path.join(core.REPO, "src"))
    outside = lambda: ([os.path.join(folder, n) for n in sorted(os.listdir(folder))], dict(os.environ), os.getcwd(), sorted(os.listdir(ctx.scratch)), list(sys.path))  # noqa: E731
    before = outside()
    result, answer = watch.during(lambda: one(tasks.environment(own, 2)), (), (), own)
    nothing(watch, "task " + name)
    same(result, "returned", "task %s %r" % (name, answer))
    same(repr(answer), repr(wanted), "what the task " + name + " saw")
    same(outside(), before, "surroundings after the task " + name)
    ctx.step()
    ctx.state(name)


def families(tier):
    def alone(function):
        return lambda ctx, case: isolated(ctx, function, case)
    pairs = lambda *sizes: itertools.product(*[s if isinstance(s, list) else range(s) for s in sizes])  # noqa: E731
    kinds = ["xes", "mxml"]
    return [Family("words-in-documents", lambda _: pairs(kinds, NUMBER), alone(read_words)),
            Family("references-in-documents", lambda _: pairs(kinds, len(REFERENCES), len(TARGETS)), alone(references)),
            Family("words-in-odd-documents", lambda _: pairs(len(UNREADABLE), NUMBER, [0]), alone(unreadable)),
            Family("cut-documents", lambda _: pairs(len(UNREADABLE), [3] if tier == "quick" else NUMBER, [1]), alone(unreadable)),
            Family("words-in-logs", lambda _: list(range(NUMBER)), alone(write_words)),
            Family("neighbours", lambda _: [["read", k, w] for k in kinds for w in ENTRANCES] + [["write", *one] for one in SERIALIZERS], alone(neighbours)),
            Family("words-in-definitions", lambda _: list(range(NUMBER)), alone(definition)),
            Family("tasks", lambda _: list(tasks.TASKS) + list(tasks.MORE), alone(task))]
