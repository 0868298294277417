"""P23: the extension cache gives back what was cached, skips what is damaged or too old, and survives every interruption."""
import builtins
import io
import itertools
import os
import resource
import shutil
import signal
import time
from urllib.parse import urlparse
from mc import model, spaces
from mc.core import Family, isolated, same, expect
from mc.props import p22

LEVEL = "fault_enumeration"
RULE = ("a case is one content of the cache folder, one sequence of cache operations, or one interruption point (byte at which "
        "the source or the disk fails, or at which the cached file ends); distinct ones are those that differ in the folder's content and the result")
ASSUMPTIONS = ["the cache folder is private to the user (HOME of the check), whose other processes use it in the same way"]
DAY = 86400


def definition(n, uri=None):
    return ["Ext%d" % n, "x%d" % n, uri or "http://mine.org/x%d.xesext" % n,
            [["event", [["string", "s%d" % n, [["EN", "S%d" % n]]], ["int", "i", []]]], ["log", [["date", "d", []]]]]]


def folder():
    from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
    path = XRuntimeUtils().get_extension_cache_folder()
    expect(os.path.isdir(path), "the cache folder does not exist")
    expect(os.path.realpath(path).startswith(os.path.realpath(os.environ["HOME"]) + os.sep), "cache folder", path, "is outside the home directory")
    return path


def fresh_home(ctx):
    home = os.path.join(ctx.scratch, "home")
    shutil.rmtree(home, ignore_errors=True)
    os.mkdir(home)
    os.environ["HOME"] = home
    return home


def put(path, data, age=0):
    with open(path, "wb") as out:
        out.write(data)
    if age:
        then = time.time() - age
        os.utime(path, (then, then))


def listing(path):
    out = {}
    for name in sorted(os.listdir(path)):
        full = os.path.join(path, name)
        out[name] = open(full, "rb").read() if os.path.isfile(full) else None
    return out


def loaded(ctx, wanted, absent=()):
    """The manager has the standard extensions, the wanted definitions, and
    nothing else."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    manager = XExtensionManager()
    found = []
    while manager.get_by_index(len(found)) is not None:
        found.append(manager.get_by_index(len(found)))
    same(sorted(e.get_uri().geturl() for e in found), sorted([u for _, u in model.STANDARD.values()] + [d[2] for d in wanted]), "extensions after loading")
    for prefix, (name, uri) in model.STANDARD.items():
        one = manager.get_by_uri(urlparse(uri))
        same((one.get_name(), one.get_prefix(), type(one).__name__[0]), (name, prefix, "X"), "standard extension")
        expect(type(one).__name__ != "XExtension", "the standard extension", name, "was replaced")
    for one in wanted:
        for extension in (manager.get_by_uri(urlparse(one[2])), manager.get_by_prefix(one[1]), manager.get_by_name(one[0])):
            p22.compare(ctx, extension, one)
    ctx.step(1 + len(wanted))


# what a file of the cache folder can be: name, bytes, age, the definition it gives or None, whether it is removed
def files():
    one, two, three = definition(1), definition(2), definition(3)
    standard = ["Time", "time", model.STANDARD["time"][1], [["event", [["string", "fake", []]]]]]
    good = p22.render(one)
    return [("one.xesext", good, 0, one, False),
            ("TWO.XESEXT", p22.render(two, 1), 29 * DAY + 23 * 3600, two, False),
            ("old.xesext", p22.render(three), 30 * DAY + 3600, None, True),
            ("cut.xesext", p22.render(three)[:-9], 0, None, False),
            ("empty.xesext", b"", 0, None, False),
            ("other.txt", p22.render(definition(4)), 0, None, False),
            ("old.txt", b"keep", 400 * DAY, None, False),
            ("time.xesext", p22.render(standard), 0, None, False),
            ("again.xesext", p22.render(["Copy", "copy", one[2], []]), 0, "copy", False),
            ("directory.xesext", None, 0, None, False),
            ("log.xesext", b"<log/>", 0, None, False)]


def run_folder(ctx, mask):
    from opyenxes.extension.XExtensionManager import XExtensionManager
    fresh_home(ctx)
    path = folder()
    wanted, kept = [], {}
    chosen = [f for i, f in enumerate(files()) if mask >> i & 1]
    for name, data, age, gives, removed in chosen:
        if data is None:
            os.mkdir(os.path.join(path, name))
        else:
            put(os.path.join(path, name), data, age)
        if not removed:
            kept[name] = data
        if isinstance(gives, list):
            wanted.append(gives)
    names = [f[0] for f in chosen]
    manager = XExtensionManager()
    loaded(ctx, [])
    manager.load_extension_cache()
    if "again.xesext" in names:
        # two files define one URI: exactly one of them counts
        copy = manager.get_by_uri(urlparse(definition(1)[2]))
        expect(copy is not None, "none of two definitions of one URI was loaded")
        if copy.get_name() == "Copy":
            wanted = [w for w in wanted if w[2] != definition(1)[2]] + [["Copy", "copy", definition(1)[2], []]]
        elif "one.xesext" not in names:
            expect(False, "definition of one URI is", copy.get_name())
    loaded(ctx, wanted)
    same(listing(path), kept, "files of the cache folder after loading")
    manager.load_extension_cache()
    loaded(ctx, wanted)
    same(listing(path), kept, "files of the cache folder after loading again")
    ctx.state(repr((mask, sorted(kept))))


def run_prefix(ctx, case):
    """The cached file ends after any of its bytes: nothing is loaded from it,
    the files before and after it are, and caching again repairs it."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    style, length = case
    fresh_home(ctx)
    path = folder()
    data = p22.render(definition(2), style)
    put(os.path.join(path, "x2.xesext"), data[:length])
    for n in (1, 3):
        put(os.path.join(path, "x%d.xesext" % n), p22.render(definition(n)))
    manager = XExtensionManager()
    manager.load_extension_cache()
    loaded(ctx, [definition(1), definition(3)] + ([definition(2)] if length == len(data) else []))
    same(open(os.path.join(path, "x2.xesext"), "rb").read(), data[:length], "the damaged file")
    source = os.path.join(ctx.scratch, "x2.xesext")
    put(source, data)
    manager.cache_extension(urlparse("file://" + source))
    same(open(os.path.join(path, "x2.xesext"), "rb").read(), data, "the file after caching it again")
    manager.load_extension_cache()
    loaded(ctx, [definition(1), definition(3), definition(2)])
    ctx.state(repr(case))


def prefix_cases(styles):
    for style in styles:
        for length in range(len(p22.render(definition(2), style)) + 1):
            yield [style, length]


class Source(io.RawIOBase):
    """A source that fails after some bytes."""
    def __init__(self, data, limit, error, most=1 << 20):
        super().__init__()
        self.most = most
        self.data, self.limit, self.error, self.at = data, limit, error, 0
        self.status, self.headers, self.msg, self.code = 200, {}, "", 200

    def readable(self):
        return True

    def info(self):
        return {}

    def geturl(self):
        return "fault://source/x2.xesext"

    def readinto(self, buffer):
        end = min(self.limit, len(self.data), self.at + min(self.most, len(buffer)))
        chunk = self.data[self.at:end]
        if not chunk and self.limit <= len(self.data) and self.error:
            raise OSError(5, "the source failed")
        buffer[:len(chunk)] = chunk
        self.at = end
        return len(chunk)


def run_fault(ctx, case):
    """The source or the disk fails while an extension is cached: the caller
    goes on, nothing half-read is ever loaded, and a retry succeeds."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from urllib import request
    what, size, limit, before = case
    fresh_home(ctx)
    path = folder()
    one = definition(2)
    if size > 1:
        one[3][0][1].extend(["string", "k%d" % i, []] for i in range(size))
    data = p22.render(one)
    if limit > len(data):
        return
    cached = os.path.join(path, "x2.xesext")
    if before:
        put(cached, p22.render(definition(2)))
    put(os.path.join(path, "x1.xesext"), p22.render(definition(1)))
    manager = XExtensionManager()

    class Handler(request.BaseHandler):
        def fault_open(self, req):
            if what == "connect":
                raise OSError(111, "refused")
            return Source(data, limit, True)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    if what == "disk":
        source = os.path.join(ctx.scratch, "x2.xesext")
        put(source, data)
        uri = "file://" + source
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    elif what == "missing":
        uri = "file://" + os.path.join(ctx.scratch, "nothing", "x2.xesext")
    else:
        request.install_opener(request.build_opener(Handler))
        uri = "fault://source/x2.xesext"
    try:
        # an error reading or writing may be reported, but only as an IOError
        manager.cache_extension(urlparse(uri))
    except IOError:
        ctx.count("errors_reported")
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    now = open(cached, "rb").read() if os.path.exists(cached) else None
    if what in ("connect", "missing"):
        same(now, p22.render(definition(2)) if before else None, "cached file when the source cannot be opened")
    elif now is not None:
        expect(data.startswith(now) or (before and now == p22.render(definition(2))), "the cached file holds something else", repr(now))
    manager.load_extension_cache()
    complete = now == data
    older = before and now == p22.render(definition(2)) and not complete
    loaded(ctx, [definition(1)] + ([one] if complete else [definition(2)] if older else []))
    source = os.path.join(ctx.scratch, "retry", "x2.xesext")
    os.makedirs(os.path.dirname(source), exist_ok=True)
    put(source, data)
    manager.cache_extension(urlparse("file://" + source))
    same(open(cached, "rb").read(), data, "cached file after a retry")
    manager.load_extension_cache()
    loaded(ctx, [definition(1), definition(2) if older else one])
    ctx.state(repr((case, now is None or len(now))))


def run_slow(ctx, case):
    """A source that hands out its content in small pieces gives the same file."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from urllib import request
    size, most = case
    fresh_home(ctx)
    path = folder()
    one = definition(2)
    one[3][0][1].extend(["string", "k%d" % i, []] for i in range(size))
    data = p22.render(one)

    class Handler(request.BaseHandler):
        def fault_open(self, req):
            return Source(data, 1 << 30, False, most)
    request.install_opener(request.build_opener(Handler))
    manager = XExtensionManager()
    manager.cache_extension(urlparse("fault://source/x2.xesext"))
    same(listing(path), {"x2.xesext": data}, "cached file of a source that hands out %d bytes at most" % most)
    manager.load_extension_cache()
    loaded(ctx, [one])
    ctx.state(repr(case))


REPLIES = ["length", "chunked", "until closed", "long", "status", "lines"]


def reply_of(form, data):
    """What an HTTP server sends, and how much of it is the file."""
    head = b"HTTP/1.1 200 OK\r\nContent-Type: text/xml\r\n"
    if form == "length":
        return head + b"Content-Length: %d\r\n\r\n" % len(data) + data
    if form == "chunked":
        chunks = [data[i:i + 37] for i in range(0, len(data), 37)] + [b""]
        return head + b"Transfer-Encoding: chunked\r\n\r\n" + b"".join(b"%x\r\n%s\r\n" % (len(c), c) for c in chunks)
    if form == "until closed":
        return head + b"\r\n" + data
    if form == "long":
        return head + b"Content-Length: %d\r\n\r\n" % (len(data) + 100) + data
    if form == "status":
        return b"<html>busy</html>\r\n\r\n" + data
    return head + b"X-Line: " + b"x" * 70000 + b"\r\n\r\n" + data


def run_http(ctx, case):
    """A server of HTTP whose reply ends after any of its bytes, or is none."""
    import http.client
    import socket
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from urllib import request
    form, limit = case
    fresh_home(ctx)
    path = folder()
    one = definition(2)
    data = p22.render(one)
    reply = reply_of(form, data)
    put(os.path.join(path, "x1.xesext"), p22.render(definition(1)))

    class Handler(request.BaseHandler):
        def fault_open(self, req):
            here, there = socket.socketpair()
            there.sendall(reply[:limit])
            there.close()
            response = http.client.HTTPResponse(here, method="GET", url=req.full_url)
            here.close()
            # as urllib does
            try:
                response.begin()
            except OSError as error:
                raise request.URLError(error)
            response.msg = response.reason
            return response
    request.install_opener(request.build_opener(Handler))
    manager = XExtensionManager()
    manager.cache_extension(urlparse("fault://source/x2.xesext"))
    cached = os.path.join(path, "x2.xesext")
    now = open(cached, "rb").read() if os.path.exists(cached) else None
    if now is not None:
        expect(data.startswith(now), "the cached file holds something else", repr(now))
    if limit >= len(reply) and form in REPLIES[:3]:
        same(now, data, "cached file of a complete reply")
    manager.load_extension_cache()
    loaded(ctx, [definition(1)] + ([one] if now == data else []))
    source = os.path.join(ctx.scratch, "x2.xesext")
    put(source, data)
    manager.cache_extension(urlparse("file://" + source))
    same(open(cached, "rb").read(), data, "cached file after a retry")
    manager.load_extension_cache()
    loaded(ctx, [definition(1), one])
    ctx.state(repr((case, now is None or len(now))))


def http_cases():
    for form in REPLIES:
        length = len(reply_of(form, p22.render(definition(2))))
        for limit in list(range(length + 1)) if length < 5000 else list(range(100)) + list(range(65000, 65700)) + [length]:
            yield [form, limit]


def slow_cases(quick):
    for size in (0, 30, 200):
        for most in itertools.chain(range(1, 70 if quick else 1100), (511, 512, 1000, 1023, 1024, 1025, 2048, 4096, 8192)):
            yield [size, most]


def fault_cases(quick):
    length = len(p22.render(definition(2)))
    for what in ("source", "disk"):
        for limit in range(length + 1):
            for before in (0, 1):
                yield [what, 1, limit, before]
        # longer than any buffer
        for size in (60, 400):
            total = len(p22.render(definition(2))) + 35 * size
            for block in (1024, 4096, 8192):
                for limit in range(block, total, block):
                    for near in (-1, 0, 1):
                        for before in (0, 1):
                            yield [what, size, limit + near, before]
    for what in ("connect", "missing"):
        for before in (0, 1):
            yield [what, 1, 0, before]


def run_name(ctx, case):
    """The last part of a URI names the file, with or without suffix or slash at the end."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from urllib import request
    n, suffix, slash, before = case
    fresh_home(ctx)
    path = folder()
    name = ["x2", "x.2", "x 2%20", "\u00e92", "xesext", ".xesext"][n] + suffix
    one = definition(2)
    data = p22.render(one)
    cached = name if name.endswith(".xesext") else name + ".xesext"
    if before:
        put(os.path.join(path, cached), data[:50])
    asked = []

    class Handler(request.BaseHandler):
        def fault_open(self, req):
            asked.append(req.full_url)
            return Source(data, 1 << 30, False)
    request.install_opener(request.build_opener(Handler))
    uri = "fault://source/folder/" + name + slash
    manager = XExtensionManager()
    manager.cache_extension(urlparse(uri))
    same(asked, [uri], "what the source was asked for")
    same(listing(path), {cached: data}, "cache folder")
    manager.load_extension_cache()
    loaded(ctx, [one])
    ctx.state(repr(case))


ENDS = ["x2", "X2", "x2?v=1", "x2?v=2", "x2#a", "x2#b", "x2;a", "x2.xml", "x2.xesext", "x2.xesext.xesext", "x2%20", "2x", "\u00e92", "e\u03012", "x2&a=1", "x2.", "a" * 60 + "1", "a" * 60 + "2"]


def end_cases(quick):
    for a, b in itertools.combinations(range(len(ENDS)), 2):
        if {ENDS[a], ENDS[b]} != {"x2", "x2.xesext"}:
            for order in ((a, b), (b, a)) if not quick else ((a, b),):
                yield list(order)
    if not quick:
        for three in itertools.combinations([i for i in range(len(ENDS)) if ENDS[i] != "x2.xesext"], 3):
            yield list(three)


def run_ends(ctx, case):
    """Definitions whose URIs end differently are kept apart."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from urllib import request
    fresh_home(ctx)
    path = folder()
    uris = ["fault://source/folder/" + ENDS[n] for n in case]
    wanted = [definition(10 + i, uri) for i, uri in enumerate(uris)]

    class Handler(request.BaseHandler):
        def fault_open(self, req):
            return Source(p22.render(wanted[uris.index(req.full_url)]), 1 << 30, False)
    request.install_opener(request.build_opener(Handler))
    manager = XExtensionManager()
    for uri in uris:
        manager.cache_extension(urlparse(uri))
    same(len(listing(path)), len(uris), "number of files in the cache folder")
    manager.load_extension_cache()
    loaded(ctx, wanted)
    ctx.state(repr(case))


def run_sizes(ctx, case):
    """Many files in the folder, of all kinds, or long definitions."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    way, n = case
    fresh_home(ctx)
    path = folder()
    manager = XExtensionManager()
    if way == "long":
        one = definition(2)
        one[0] += "x" * n
        one[3][0][1].append(["string", "k" * (n + 1), [["EN", "y" * n]]])
        wanted = [one]
    elif way == "many attributes":
        one = definition(2)
        one[3][0][1].extend([p22.KINDS[i % 6], "k%d" % i, [["EN", "alias %d" % i]] * (i % 2)] for i in range(n))
        wanted = [one, definition(3)]
    else:
        wanted = [definition(i + 1) for i in range(n)]
    if way == "folder":
        kept, gone_files = {}, []
        for i, one in enumerate(wanted):
            data = p22.render(one, i % 4)
            place = [0, 0, 1, 0, 2, 0, 3, 0, 4, 5][i % 10]
            name = "x%d.%s" % (i, "XESEXT" if place == 4 else "txt" if place == 5 else "xesext")
            data = [data, data[:-7], data, b"", data, data][place]
            put(os.path.join(path, name), data, 31 * DAY if place == 2 else 29 * DAY if i % 4 == 1 else 0)
            if place != 2:
                kept[name] = data
            if place not in (0, 4):
                gone_files.append(one)
        wanted = [one for one in wanted if one not in gone_files]
    else:
        kept = {}
        for i, one in enumerate(wanted):
            source = os.path.join(ctx.scratch, "source%d.xesext" % i)
            put(source, p22.render(one))
            manager.cache_extension(urlparse("file://" + source))
            kept["source%d.xesext" % i] = p22.render(one)
            os.remove(source)
    same(listing(path), kept, "files of the cache folder") if way != "folder" else None
    for _ in (1, 2):
        manager.load_extension_cache()
        loaded(ctx, wanted)
        same(listing(path), kept, "files of the cache folder after loading")
    ctx.state(repr(case))


def size_cases(tier):
    most = 130 if tier == "quick" else 515
    for way in ("folder", "cached"):
        for n in spaces.steps(tier, most):
            yield [way, n]
    for n in spaces.steps(tier, 1025):
        yield ["many attributes", n]
    for n in itertools.chain(range(0, 100 if tier == "quick" else 9000), spaces.COUNTS, spaces.LENGTHS):
        yield ["long", n]


OPS = ["cache 1", "cache 2", "cache 2 changed", "load", "expire 1", "damage 2", "cache slash"]


class Points:
    """Calls that look at or change files; before the n-th one something happens."""
    NAMES = [(os, "stat"), (os, "lstat"), (os, "listdir"), (os, "scandir"), (os, "remove"), (os, "unlink"), (os, "rename"), (os, "replace"),
             (builtins, "open"), (io, "open"), (os, "open")]

    def __init__(self, actions, backwards=None):
        self.actions = actions
        self.backwards = backwards
        self.count = 0
        self.inside = False
        self.saved = [(module, name, getattr(module, name)) for module, name in self.NAMES]

    def __enter__(self):
        for module, name, function in self.saved:
            setattr(module, name, self.stand_in(function))
        return self

    def __exit__(self, *_):
        for module, name, function in self.saved:
            setattr(module, name, function)

    def stand_in(self, function):
        def call(*args, **more):
            if not self.inside:
                self.inside = True
                try:
                    self.at(function.__name__, args)
                finally:
                    self.inside = False
            result = function(*args, **more)
            # file systems list their files in any order
            return sorted(result, reverse=self.backwards) if self.backwards is not None and function.__name__ == "listdir" else result
        return call

    def at(self, name, args):
        for point, action in self.actions:
            if point == self.count:
                action()
        self.count += 1


def gone(path):
    if os.path.exists(path):
        os.remove(path)


# what another process of the user does to the cache: name, action, definitions which may be found or not afterwards
OTHERS = [("removes what is old", lambda path: gone(os.path.join(path, "old.xesext")), ()),
          ("removes all", lambda path: [gone(os.path.join(path, name)) for name in os.listdir(path)], (1, 2)),
          ("begins to cache again", lambda path: put(os.path.join(path, "one.xesext"), p22.render(definition(1))[:40]), (1,)),
          ("caches again", lambda path: put(os.path.join(path, "one.xesext"), p22.render(definition(1))), ()),
          ("caches another one", lambda path: put(os.path.join(path, "nine.xesext"), p22.render(definition(9))), (9,)),
          ("caches what is old", lambda path: put(os.path.join(path, "old.xesext"), p22.render(definition(3))), (3,)),
          ("removes the first", lambda path: gone(os.path.join(path, "one.xesext")), (1,)),
          ("removes the second", lambda path: gone(os.path.join(path, "two.xesext")), (2,)),
          ("empties a file", lambda path: put(os.path.join(path, "two.xesext"), b""), (2,))]


def run_other(ctx, case):
    """Other processes change the folder while it is loaded; what they do not touch is loaded, nothing partial is."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    case, backwards = case
    fresh_home(ctx)
    path = folder()
    put(os.path.join(path, "one.xesext"), p22.render(definition(1)))
    put(os.path.join(path, "two.xesext"), p22.render(definition(2)))
    put(os.path.join(path, "old.xesext"), p22.render(definition(3)), 31 * DAY)
    manager = XExtensionManager()
    maybe = {n for which, _ in case for n in OTHERS[which][2]}
    with Points([(point, lambda which=which: OTHERS[which][1](path)) for which, point in case], backwards) as points:
        manager.load_extension_cache()
    there = {n for n in (1, 2, 3, 9) if manager.get_by_uri(urlparse(definition(n)[2])) is not None}
    expect({1, 2} - maybe <= there <= {1, 2} | maybe, "while another process", [OTHERS[which][0] for which, _ in case], "definitions", sorted(there), "were loaded")
    loaded(ctx, [definition(n) for n in sorted(there)])
    manager.load_extension_cache()
    whole = {n for n in (1, 2, 3, 9) for name in os.listdir(path) if open(os.path.join(path, name), "rb").read() == p22.render(definition(n))
             and time.time() - os.path.getmtime(os.path.join(path, name)) < DAY}
    loaded(ctx, [definition(n) for n in sorted(there | whole)])
    ctx.state(repr((case, sorted(there), sorted(whole), points.count)))


def other_cases(quick):
    for which in range(len(OTHERS)):
        for point in range(48):
            for backwards in (None, False, True):
                yield [[[which, point]], backwards]
    for pair in itertools.permutations(range(len(OTHERS)), 2):
        for points in itertools.combinations(range(0, 24), 2) if not quick else ((n, n + k) for n in range(1, 20) for k in (1, 2, 3, 7)):
            yield [[[which, point] for which, point in zip(pair, points)], None]


def run_refused(ctx, case):
    """One file cannot be looked at, removed or read: the others are loaded."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    call, number = case
    fresh_home(ctx)
    path = folder()
    names = ["one.xesext", "two.xesext", "old.xesext", "old2.xesext"]
    for n, name in enumerate(names):
        put(os.path.join(path, name), p22.render(definition(n + 1)), 31 * DAY if n > 1 else 0)
    known = {"stat": ("stat", "lstat"), "remove": ("remove", "unlink"), "open": ("open",)}[call]

    class Refusing(Points):
        def at(self, name, args):
            if name in known and args and isinstance(args[0], str) and os.path.basename(args[0]) == names[number]:
                # the file itself is looked at by listing the folder, it was there then
                raise PermissionError(13, "Permission denied", args[0])
    manager = XExtensionManager()
    with Refusing([]):
        manager.load_extension_cache()
    refused = number if call != "remove" else None
    loaded(ctx, [definition(n + 1) for n in (0, 1) if n != refused])
    manager.load_extension_cache()
    loaded(ctx, [definition(1), definition(2)])
    same(sorted(os.listdir(path)), sorted(names[:2]), "files of the cache folder")
    ctx.state(repr(case))


def run_history(ctx, ops):
    """Sequences of cache operations against a model of the folder and of what
    is registered (a URI that is registered is not replaced by loading)."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    fresh_home(ctx)
    path = folder()
    sources = os.path.join(ctx.scratch, "sources")
    shutil.rmtree(sources, ignore_errors=True)
    os.mkdir(sources)
    manager = XExtensionManager()
    cache, registered = {}, {}
    for number in ops:
        op = OPS[number]
        if op.startswith("cache"):
            n = {"1": 1, "2": 2, "slash": 3}[op.split()[1]]
            one = definition(n)
            if op.endswith("changed"):
                one[3].append(["meta", [["boolean", "new", []]]])
            # without the suffix, which is added
            name = "x%d" % n if n == 1 else "x%d.xesext" % n
            put(os.path.join(sources, name), p22.render(one))
            manager.cache_extension(urlparse("file://" + os.path.join(sources, name)))
            cache["x%d.xesext" % n] = (one, p22.render(one), False)
        elif op == "load":
            manager.load_extension_cache()
            for name in list(cache):
                one, data, old = cache[name]
                if old:
                    del cache[name]
                elif one is not None:
                    registered.setdefault(one[2], one)
        elif op == "expire 1" and "x1.xesext" in cache:
            then = time.time() - 31 * DAY
            os.utime(os.path.join(path, "x1.xesext"), (then, then))
            cache["x1.xesext"] = cache["x1.xesext"][:2] + (True,)
        elif op == "damage 2" and "x2.xesext" in cache:
            put(os.path.join(path, "x2.xesext"), cache["x2.xesext"][1][:-5])
            cache["x2.xesext"] = (None, cache["x2.xesext"][1][:-5], False)
        same(listing(path), {name: entry[1] for name, entry in cache.items()}, "files of the cache folder")
        loaded(ctx, list(registered.values()))
    ctx.state(repr((sorted(cache), sorted(registered), ops)))


def families(tier):
    import opyenxes.extension.XExtensionManager  # noqa: F401 the children of fork need not import it
    import urllib.request
    urllib.request.urlopen("file:///dev/null").close()
    quick = tier == "quick"
    everything = range(1 << len(files()))

    def alone(function):
        return lambda ctx, case: isolated(ctx, function, case)
    return [
        Family("folders", lambda _: everything, alone(run_folder)),
        Family("every-prefix", lambda _: prefix_cases([0] if quick else [0, 1, 8, 12]), alone(run_prefix)),
        Family("failing-source-or-disk", lambda _: fault_cases(quick), alone(run_fault)),
        Family("names", lambda _: itertools.product(range(6), ("", ".xesext", ".xml", ".XESEXT"), ("", "/"), (0, 1)), alone(run_name)),
        Family("ends-of-names", lambda _: end_cases(quick), alone(run_ends)),
        Family("other-processes", lambda _: other_cases(quick), alone(run_other)),
        Family("refused-calls", lambda _: itertools.product(("stat", "remove", "open"), range(4)), alone(run_refused)),
        Family("http-source", lambda _: http_cases(), alone(run_http)),
        Family("sizes", lambda _: size_cases(tier), alone(run_sizes)),
        Family("slow-source", lambda _: slow_cases(quick), alone(run_slow)),
        Family("histories", lambda _: (list(o) for o in itertools.product(range(len(OPS)), repeat=4 if quick else 5)), alone(run_history)),
    ]
