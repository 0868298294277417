"""Records, and keeps from happening, what a piece of code does to the world beyond the files it was given."""
import os
import sys

FORBIDDEN = ("os.", "socket.", "urllib.", "subprocess.", "shutil.", "tempfile.", "glob.", "pathlib.", "http.", "ftplib.", "smtplib.", "poplib.", "imaplib.", "telnetlib.",
             "nntplib.", "ctypes.", "mmap.", "fcntl.", "pty.", "signal.", "webbrowser.", "sqlite3.", "resource.", "syslog.", "pickle.find_class", "msvcrt.", "winreg.")
HOMES = tuple({os.path.realpath(p) + os.sep for p in (sys.prefix, sys.base_prefix, os.path.dirname(os.__file__))}) + ("/usr/share/zoneinfo", "/etc/localtime") + ((sys.pycache_prefix,) if sys.pycache_prefix else ())
_watch = None


class Refused(OSError):
    pass


class Watch:
    """Within a process that ends soon: hooks cannot be taken away."""

    def __init__(self, source, lures=()):
        self.own = HOMES + (os.path.realpath(source) + os.sep,)
        self.lures = set(lures)
        self.seen = []
        self.readable = self.writable = ()
        self.folder = None
        # places in the folder that were written, removed or renamed
        self.touched = set()
        self.active = False
        for name in ("stat", "lstat"):
            setattr(os, name, self.stand_in(getattr(os, name)))
        sys.addaudithook(self.hook)

    def allowed(self, path, writes):
        if not isinstance(path, (str, bytes)):
            return True
        path = os.fsdecode(path)
        known = self.writable if writes else self.readable + self.writable
        if path in known or (self.folder and os.path.abspath(path).startswith(self.folder)):
            return True
        # what Python itself has to load
        return not writes and os.path.abspath(path).startswith(self.own)

    def note(self, *what):
        self.active = False
        self.seen.append(tuple(str(one)[:200] for one in what))
        self.active = True
        raise Refused(1, "not permitted while watched")

    def stand_in(self, function):
        def call(path, *args, **more):
            if self.active and not self.allowed(path, False):
                self.note("os." + function.__name__, path)
            return function(path, *args, **more)
        return call

    def hook(self, event, args):
        if not self.active:
            return
        if event == "open":
            mode, flags = args[1], args[2]
            writes = any(c in mode for c in "wax+") if isinstance(mode, str) else bool(isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR))
            if writes:
                self.touch(args[0])
            if not self.allowed(args[0], writes):
                self.note(event, args[0], mode, flags)
        elif event == "import":
            if args[0] in self.lures:
                self.note(event, args[0])
        elif event in ("exec", "compile"):
            name = args[0].co_filename if event == "exec" else args[1]
            if not isinstance(name, (str, bytes)) or not (os.fsdecode(name).startswith(self.own) or os.fsdecode(name).startswith("<frozen")):
                source = args[0] if event == "compile" else name
                if any(lure and lure in str(source) for lure in self.lures) or event == "exec" and name == "<string>" and self.lures:
                    self.note(event, source)
        elif event in ("os.listdir", "os.scandir"):
            if not self.allowed(args[0] if args and args[0] is not None else os.curdir, False):
                self.note(event, args[0])
        elif event.startswith(FORBIDDEN):
            for one in args[:2]:
                self.touch(one)
            if self.folder and args and isinstance(args[0], str) and os.path.abspath(args[0]).startswith(self.folder):
                return
            self.note(event, *args[:2])

    def touch(self, path):
        if self.folder and isinstance(path, (str, bytes)) and os.path.abspath(os.fsdecode(path)).startswith(self.folder):
            self.touched.add(os.path.abspath(os.fsdecode(path)))

    def during(self, action, readable=(), writable=(), folder=None):
        """What the action returned or raised; what it reached for is in seen."""
        self.readable, self.writable, self.folder = tuple(readable), tuple(writable), folder and os.path.realpath(folder) + os.sep
        self.active = True
        try:
            return "returned", action()
        except Exception as error:
            return "raised", error
        finally:
            self.active = False
