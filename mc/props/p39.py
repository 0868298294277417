"""P39: a log message reaches exactly the listener set last, once, as it was given; without one it is dropped."""
import contextlib
import io
import itertools

from mc import sched
sched.install()

from mc import model, tasks  # noqa: E402
from mc.core import Family, same, expect  # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["what the default listener prints is looked at for the message and its importance, not for its layout",
               "which messages the library itself has is left open, except that writing a log has some"]
MESSAGES = ["m", "", "a\nb", "\u4e2d {} %s {0}", None, 0]
LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR"]
OTHER_LEVELS = ["", 0, False, "debug", "CRITICAL", 10, (), "Warning\n"]
SERIALIZERS = ["XesXmlSerializer", "XMxmlSerializer"]


class Listener:
    def __init__(self):
        self.heard = []

    def __len__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, Listener)

    def log(self, message, importance):
        self.heard.append((message, importance))


def default():
    from opyenxes.log.XStdoutLoggingListener import XStdOutLoggingListener
    return XStdOutLoggingListener()


def run(ctx, ops):
    """Two facilities kept and new ones, two listeners, the default one and none; operations: who listens, messages, and writing a log."""
    from opyenxes.log.XLogging import XLogging
    listeners = [Listener(), Listener(), None, default()]
    heard = [[], []]
    facilities = [XLogging(), XLogging()]
    facilities[0].set_listener(listeners[3])
    charge = 3
    try:
        for number, op in enumerate(ops):
            message = "msg%d" % number
            with contextlib.redirect_stdout(io.StringIO()) as out:
                if op < 8:
                    facilities[op % 2].set_listener(listeners[op // 2])
                    charge = op // 2
                    message = None
                elif op < 13:
                    level = (LEVELS + [None])[op - 8]
                    one = (facilities + [XLogging()])[number % 3]
                    if level is None:
                        one.log(message)
                        level = "DEBUG"
                    else:
                        one.log(message, level)
                    if charge < 2:
                        heard[charge].append((message, level))
                else:
                    tasks.make("data_out", SERIALIZERS[op - 13])().serialize(model.build_log(tasks.LOG_B), io.StringIO())
                    message = None
                    if charge < 2:
                        new = listeners[charge].heard[len(heard[charge]):]
                        expect(len(new) > 0 and all(isinstance(text, str) and level == "DEBUG" for text, level in new), "messages about writing a log", new)
                        heard[charge] += new
            text = out.getvalue()
            if charge == 3 and message:
                expect(text.count(message) == 1 and text.count(level) == 1, "printed", repr(text), "for", message, level)
            elif charge == 3 and op >= 13:
                expect("DEBUG" in text, "nothing printed about writing a log", repr(text))
            else:
                same(text, "", "what was printed")
            same([one.heard for one in listeners[:2]], heard, "messages after %s" % (ops,))
            ctx.step()
        ctx.state(repr((charge, [[m for m in h if m[0].startswith("msg")] for h in heard])))
    finally:
        XLogging().set_listener(default())


def cases(depth):
    for n in range(1, depth + 1):
        for ops in itertools.product(range(15), repeat=n):
            yield list(ops)


def content(ctx, case):
    """Any message arrives as it was given."""
    from opyenxes.log.XLogging import XLogging
    m, level = case
    message = MESSAGES[m]
    one = XLogging()
    listener = Listener()
    one.set_listener(listener)
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            if level is None:
                one.log(message)
            else:
                one.log(message, getattr(XLogging.Importance, level))
            same(out.getvalue(), "", "what was printed")
            same(listener.heard, [(message, level or "DEBUG")], "what the listener heard")
            expect(listener.heard[0][0] is message, "the listener heard another object")
            default().log(message, level or "DEBUG")
            one.set_listener(default())
            XLogging().log(message, level)
        expect(out.getvalue().count(str(message)) >= 2 and out.getvalue().count(level or "DEBUG") == 2, "printed", repr(out.getvalue()), "for", message, level)
    finally:
        XLogging().set_listener(default())
    ctx.step(3)
    ctx.state(repr((message, level)))


def other_importance(ctx, case):
    """Importances of one's own arrive as they were given, also those that count as false."""
    from opyenxes.log.XLogging import XLogging
    m, n = case
    listener = Listener()
    XLogging().set_listener(listener)
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            XLogging().log(MESSAGES[m], OTHER_LEVELS[n])
            XLogging().log(MESSAGES[m], importance=OTHER_LEVELS[n - 1])
        same(out.getvalue(), "", "what was printed")
        same(listener.heard, [(MESSAGES[m], OTHER_LEVELS[n]), (MESSAGES[m], OTHER_LEVELS[n - 1])], "what the listener heard")
    finally:
        XLogging().set_listener(default())
    ctx.step(2)
    ctx.state(repr(case))


def sizes(ctx, case):
    """Many messages and listeners, and long messages."""
    from opyenxes.log.XLogging import XLogging
    what, n = case
    one = XLogging()
    try:
        if what == "messages":
            listeners = [Listener(), Listener()]
            one.set_listener(listeners[0])
            wanted = [[], []]
            for i in range(n):
                if i == n // 2 and n % 2:
                    one.set_listener(listeners[1])
                for _ in range(1 + (i % 3 == 1)):
                    # the same one twice in a row
                    (one if i % 2 else XLogging()).log("msg%d" % i, LEVELS[i % 4])
                    wanted[i >= n // 2 and n % 2].append(("msg%d" % i, LEVELS[i % 4]))
            same([l.heard for l in listeners], wanted, "messages")
        elif what == "listeners":
            for i in range(n):
                listener = Listener()
                one.set_listener(listener)
                XLogging().log("msg%d" % i)
                one.set_listener(None)
                one.log("nobody hears it")
                same(listener.heard, [("msg%d" % i, "DEBUG")], "what listener %d heard" % i)
        else:
            from mc import spaces
            text = spaces.odd_text(n)
            listener = Listener()
            one.set_listener(listener)
            one.log(text, "INFO")
            one.log(text)
            same(listener.heard, [(text, "INFO"), (text, "DEBUG")], "messages heard")
            with contextlib.redirect_stdout(io.StringIO(newline="")) as out:
                one.set_listener(default())
                one.log(text, "ERROR")
            expect(text in out.getvalue() and "ERROR" in out.getvalue(), "printed", repr(out.getvalue()[:200]))
    finally:
        XLogging().set_listener(default())
    ctx.state(repr(case))
    ctx.step(n)


def size_cases(tier):
    from mc import spaces
    for n in spaces.steps(tier):
        yield from (["messages", n], ["listeners", n], ["text", n])
    for n in spaces.LENGTHS:
        yield ["text", n]


ACTIONS = ["nothing", "log", "raise", "log and raise", "second listens", "second listens, log", "nobody listens, log", "log twice", "log deep"]


class Refused(Exception):
    pass


class Acting(Listener):
    """A listener that does something when it hears its first messages."""
    def __init__(self, actions, other):
        super().__init__()
        self.actions, self.other = list(actions), other

    def log(self, message, importance):
        from opyenxes.log.XLogging import XLogging
        super().log(message, importance)
        action = self.actions.pop(0) if self.actions else "nothing"
        if action.startswith("second"):
            XLogging().set_listener(self.other)
        if action.startswith("nobody"):
            XLogging().set_listener(None)
        if "log" in action:
            for n in range(1 + action.count("twice")):
                XLogging().log(message + ".%d" % n, "ERROR")
        if action == "log deep":
            XLogging().log("x" * len(message))
        if "raise" in action:
            raise Refused(message)


def said(actions):
    """What the two listeners hear of three messages: the model of `Acting`."""
    actions, heard, charge = list(actions), [[], []], [0]

    def log(message, importance):
        if charge[0] is None:
            return
        heard[charge[0]].append((message, importance))
        if charge[0] == 1:
            return
        action = actions.pop(0) if actions else "nothing"
        if action.startswith("second"):
            charge[0] = 1
        if action.startswith("nobody"):
            charge[0] = None
        if "log" in action:
            for n in range(1 + action.count("twice")):
                log(message + ".%d" % n, "ERROR")
        if action == "log deep":
            log("x" * len(message), "DEBUG")
        if "raise" in action:
            raise Refused(message)
    return log, heard


def acting(ctx, case):
    """Listeners that log, give their place away or fail while a message is delivered."""
    from opyenxes.log.XLogging import XLogging
    actions = [ACTIONS[i] for i in case]
    other = Listener()
    one = Acting(actions, other)
    wanted, heard = said(actions)
    XLogging().set_listener(one)
    try:
        for number in range(3):
            message = "msg%d" % number
            ends = []
            for way in (wanted, XLogging().log):
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        way(message, "INFO")
                    ends.append(None)
                except Refused as error:
                    ends.append(str(error))
            # whether the caller gets to know of a listener's failure is not stated
            same([one.heard, other.heard], heard, "messages after %s with a listener that does %s" % (message, actions))
            ctx.count("failures_passed_on" if ends[1] else "quiet_ends")
            ctx.step(1)
    finally:
        XLogging().set_listener(default())
    ctx.state(repr((actions, heard)))


def together(ctx, case):
    """Threads that log at the same time, another one changes who listens."""
    plans, bound, shard, shards = case

    def start():
        from opyenxes.log.XLogging import XLogging
        listeners = [Listener(), Listener()]
        XLogging().set_listener(listeners[0])

        def body(number, plan):
            def act():
                for at, step in enumerate(plan):
                    if step == "listen":
                        XLogging().set_listener(listeners[1])
                    elif step == "plain":
                        XLogging().log("%d.%d" % (number, at))
                    else:
                        XLogging().log("%d.%d" % (number, at), step)
            return act

        def check(_):
            wanted = [[("%d.%d" % (number, at), "DEBUG" if step == "plain" else step) for at, step in enumerate(plan) if step != "listen"]
                      for number, plan in enumerate(plans)]
            heard = listeners[0].heard + listeners[1].heard
            for number, messages in enumerate(wanted):
                # each thread's messages, once each, in their order
                same([m for m in heard if m[0].startswith("%d." % number)], messages, "messages of thread %d" % number)
            same(len(heard), sum(len(w) for w in wanted), "number of messages")
            for number, plan in enumerate(plans):
                if "listen" in plan:
                    later = [m for m in wanted[number] if int(m[0].split(".")[1]) > plan.index("listen")]
                    expect(all(m in listeners[1].heard for m in later), "messages after the other one listens", listeners[1].heard)
            if not any("listen" in plan for plan in plans):
                same(listeners[1].heard, [], "messages of the one that does not listen")
            return [len(one.heard) for one in listeners]
        return [body(number, plan) for number, plan in enumerate(plans)], check
    with contextlib.redirect_stdout(io.StringIO()):
        sched.explore(ctx, start, bound, True, shard, shards)


def together_cases(quick):
    plans = [[["plain", "INFO"], ["ERROR", "plain"]], [["plain"], ["listen", "plain"]], [["INFO", "listen", "plain"], ["listen", "INFO"]],
             [["plain"], ["INFO"], ["listen"]]]
    for plan in plans:
        for shard in range(8):
            yield [plan, 2 if quick and len(plan) < 3 else 1 if quick else 3, shard, 8]


def first_cases():
    for first in range(5):
        for second in range(5):
            yield [first, second]


def first(ctx, case):
    """Before anybody set a listener."""
    from opyenxes.log.XLogging import XLogging
    for number, level in enumerate(case):
        with contextlib.redirect_stdout(io.StringIO()) as out:
            if level == 4:
                XLogging().log("msg%d" % number)
            else:
                XLogging().log("msg%d" % number, LEVELS[level])
        expect(out.getvalue().count("msg%d" % number) == 1 and out.getvalue().count((LEVELS + ["DEBUG"])[level]) == 1, "printed", repr(out.getvalue()))
        ctx.step()
    ctx.state(repr(case))


def families(tier):
    quick = tier == "quick"
    return [
        Family("first-messages", lambda _: first_cases(), first),
        Family("acting-listeners", lambda _: (list(c) for n in range(1, 4 if quick else 5) for c in itertools.product(range(len(ACTIONS)), repeat=n)), acting),
        Family("threads", lambda _: together_cases(quick), together),
        Family("histories", lambda _: cases(4 if quick else 5), run),
        Family("sizes", lambda _: size_cases(tier), sizes),
        Family("other-importances", lambda _: itertools.product(range(len(MESSAGES)), range(len(OTHER_LEVELS))), other_importance),
        Family("messages", lambda _: ([m, level] for m in range(len(MESSAGES)) for level in LEVELS + [None]), content),
    ]
