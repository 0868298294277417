"""P38: the support and cache folders are the platform's own, exist once asked for, and keep what is in them."""
import itertools
import os
import shutil
import sys
import tempfile
from mc.core import Family, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = ["the home folder can be written; platforms other than Linux are simulated by what sys.platform says"]
PLATFORMS = ["linux", "linux2", "darwin", "win32", "freebsd13", "cygwin", "aix", "sunos5", "wasi", "emscripten", "netbsd9", "openbsd7"]
HOMES = ["home", "my home", "h\u00f6me", "a.b", "d/e/f", "with'quote", "OpenXES", ".OpenXES", "$WHERE", "${WHERE}x", "a$$", "%WHERE%",
         "~", "~root", "a ", " a", "-r", "*", "{}", "a\\b", "ExtensionCache", "Library", "x" * 120]


def folders(platform, home):
    if platform == "win32":
        return home + "\\OpenXES\\", home + "\\OpenXES\\ExtensionCache"
    if platform == "darwin":
        return home + "/Library/Application Support/OpenXES/", home + "/Library/Application Support/OpenXES/ExtensionCache"
    return home + "/.OpenXES/", home + "/.OpenXES/ExtensionCache"


def below(root):
    """All folders and files with their content."""
    found = {}
    for folder, names, files in os.walk(root):
        for name in names:
            found[os.path.relpath(os.path.join(folder, name), root)] = None
        for name in files:
            with open(os.path.join(folder, name), "rb") as stream:
                found[os.path.relpath(os.path.join(folder, name), root)] = stream.read()
    return found


def with_parents(path, root, found):
    path = path.rstrip("/\\")
    while os.path.normpath(path) != os.path.normpath(root):
        found[os.path.relpath(path, root)] = None
        path = os.path.dirname(path)


def run(ctx, case):
    """Histories: ask for the folders (of the same or a new helper), put a file in, change the home folder."""
    platform, home_name, ops = case
    from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
    root = tempfile.mkdtemp(dir=ctx.scratch)
    before = os.environ["HOME"], sys.platform
    files = {}
    try:
        homes = [os.path.join(root, "x", home_name), os.path.join(root, "y", home_name)]
        for home in homes:
            os.makedirs(home)
        expected = below(root)
        sys.platform = platform
        os.environ["WHERE"] = os.path.join(root, "elsewhere")
        os.environ["XDG_CONFIG_HOME"] = os.environ["USERPROFILE"] = os.environ["APPDATA"] = os.environ["WHERE"]
        kept = XRuntimeUtils()
        now = 0
        os.environ["HOME"] = homes[now]
        for op in ops:
            one = kept if op < 2 else XRuntimeUtils()
            support, cache = folders(platform, homes[now])
            if op in (0, 2):
                same(one.get_support_folder(), support, "support folder on " + platform)
                with_parents(support, root, expected)
            elif op in (1, 3):
                got = one.get_extension_cache_folder()
                same(os.path.normpath(got), cache, "cache folder on " + platform)
                with_parents(support, root, expected)
                with_parents(cache, root, expected)
            elif op == 4:
                got = one.get_extension_cache_folder()
                with_parents(support, root, expected)
                with_parents(cache, root, expected)
                pattern, content, moment, mode = FILES[(len(files) + len(ops)) % len(FILES)]
                name = os.path.join(got, pattern % len(files))
                with open(name, "wb") as out:
                    out.write(content)
                os.chmod(name, mode)
                if moment is not None:
                    os.utime(name, (moment, moment))
                files[os.path.relpath(name, root)] = content
            else:
                now = 1 - now
                os.environ["HOME"] = homes[now]
            same(below(root), dict(expected, **files), "folders and files below the home folders")
            ctx.step()
        ctx.state(repr((platform, sorted(expected), sorted(files))))
    finally:
        os.environ["HOME"], sys.platform = before
        for name in ("WHERE", "XDG_CONFIG_HOME", "USERPROFILE", "APPDATA"):
            os.environ.pop(name, None)
        shutil.rmtree(root)


# name, content, time (none: now), mode
FILES = [("file%d", b"content", None, 0o644), ("old%d.xesext", b"<xesextension/>", 10 ** 9, 0o644), (".hidden%d", b"", 1, 0o400), ("future%d.tmp", b"content", 4 * 10 ** 9, 0o644)]


def cases(depth):
    for n in range(1, depth + 1):
        for ops in itertools.product(range(6), repeat=n):
            for platform in PLATFORMS[:4]:
                yield [platform, "home", list(ops)]
    for platform in PLATFORMS:
        for home in HOMES:
            for ops in itertools.product(range(6), repeat=2):
                yield [platform, home, list(ops)]


def asked(ctx, platform):
    """The questions about the platform agree with each other, for one helper however often and in whatever order it is asked."""
    from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
    wanted = {"determine_os": platform, "is_running_windows": platform == "win32", "is_running_mac_os_x": platform == "darwin",
              "is_running_linux": platform.startswith("linux"),
              "is_running_unix": platform.startswith(("linux", "freebsd")) or platform == "darwin"}
    before = sys.platform
    try:
        sys.platform = platform
        for order in itertools.permutations(wanted):
            one = XRuntimeUtils()
            for question in order + order[:2]:
                same(getattr(one, question)(), wanted[question], "%s on %s" % (question, platform))
                ctx.step()
    finally:
        sys.platform = before
    ctx.state(platform)


def families(tier):
    quick = tier == "quick"
    return [
        Family("folders", lambda _: cases(4 if quick else 5), run),
        Family("platforms", lambda _: PLATFORMS, asked),
    ]
