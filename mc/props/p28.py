"""P28: ids: text and back, copies, no id twice."""
import copy as copying
import itertools
import os
import uuid
from mc.core import Family, same, expect, Violation
from mc.props import p10

LEVEL = "model_checking"
ASSUMPTIONS = ["that ids never repeat is decided on the ids made here only: within one process, in forked processes and by threads"]


def hexes(quick):
    bits = [0, (1 << 128) - 1] + [1 << b for b in range(128)] + [(1 << b) - 1 for b in range(1, 128)]
    if not quick:
        bits += [1 << a | 1 << b for a in range(128) for b in range(a)]
    digits = ["%x" % d * 32 for d in range(16)] + ["0123456789abcdef" * 2, "fedcba9876543210" * 2]
    return ["%032x" % b for b in bits] + digits


def hyphens(text):
    return "-".join((text[:8], text[8:12], text[12:16], text[16:20], text[20:]))


def forms(text):
    plain = hyphens(text)
    yield plain
    yield plain.upper()
    yield "".join(c.upper() if i % 2 else c for i, c in enumerate(plain))
    yield text
    yield "{" + plain + "}"
    yield "urn:uuid:" + plain


def xid():
    from opyenxes.id.XID import XID
    return XID


def texts(ctx, text):
    value = uuid.UUID(hyphens(text))
    one = xid()(value)
    same(one.get_uuid(), value, "uuid of the id")
    same(str(one), hyphens(text).upper(), "text of the id")
    for form in forms(text):
        other = xid().parse(form)
        same(other.get_uuid(), value, "uuid of the id read from %r" % form)
        same(str(other), str(one), "text of the id read from %r" % form)
        expect(other == one and one == other and not other != one and hash(other) == hash(one), "ids read from", form, "differ")
        same(one.compare_to(other), 0, "comparison with the id read from %r" % form)
    copy = one.clone()
    expect(copy is not one and copy == one and hash(copy) == hash(one) and str(copy) == str(one), "the copy differs")
    for way, made in (("copy", copying.copy(one)), ("deep copy", copying.deepcopy(one)), ("deep copy in a list", copying.deepcopy([one, one])[1])):
        expect(made == one and hash(made) == hash(one) and str(made) == str(one) and made.get_uuid() == value, "the", way, "of an id differs:", str(made))
    changed = uuid.UUID(int=value.int ^ 1)
    copy.set_uuid(changed)
    same((one.get_uuid(), copy.get_uuid(), str(copy)), (value, changed, str(changed).upper()), "id and changed copy")
    expect(copy != one, "the changed copy equals the id")
    for odd in ("", "x", str(value), None, 0, value):
        expect(not one == odd and one != odd, "an id equals", odd)
    ctx.step(20)
    ctx.state(text)


def refused(ctx, case):
    text, position = case
    plain = hyphens(text)
    if plain[position] == "-":
        return
    for broken in (plain[:position] + plain[position + 1:], plain[:position] + "g" + plain[position + 1:],
                   plain[:position] + "0" + plain[position:], plain[:position]):
        try:
            one = xid().parse(broken)
        except ValueError:
            ctx.step()
            continue
        raise Violation("%r was read as the id %s" % (broken, one))


def fresh(ctx, case):
    """Ids made in all ways the library has, in several processes."""
    processes, ways = case
    from opyenxes.id.XIDFactory import XIDFactory
    from opyenxes.model.XEvent import XEvent
    from opyenxes.factory.XFactory import XFactory
    base = XEvent()
    make = {"factory": lambda: XIDFactory().create_id(), "class": xid(), "event": lambda: XEvent().get_id(),
            "created event": lambda: XFactory.create_event().get_id(), "copied event": lambda: base.clone().get_id()}
    start = [str(base.get_id())]
    readers = []
    for _ in range(processes):
        reader, writer = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(reader)
            with os.fdopen(writer, "w") as out:
                try:
                    for _ in range(40):
                        for way in ways:
                            out.write(str(make[way]()) + "\n")
                except BaseException as error:
                    out.write("failed: %r\n" % error)
            os._exit(0)
        os.close(writer)
        readers.append((pid, reader))
    seen = set(start)
    for pid, reader in readers:
        with os.fdopen(reader) as stream:
            lines = stream.read().split()
        os.waitpid(pid, 0)
        same(len(lines), 40 * len(ways), "number of ids made (%s)" % lines[-3:])
        for line in lines:
            expect(line not in seen, "the id", line, "was made twice")
            seen.add(line)
            same(str(uuid.UUID(line)).upper(), line, "text of a new id")
    ctx.step(len(seen))
    ctx.state(repr(case))


def seeded(ctx, case):
    """Ids made after the program set the state of the random module to what it
    was before, as programs do to repeat an experiment."""
    import random
    way, seed, rounds = case
    from opyenxes.id.XIDFactory import XIDFactory
    from opyenxes.model.XEvent import XEvent
    from opyenxes.factory.XFactory import XFactory
    base = XEvent()
    make = [lambda: XIDFactory().create_id(), lambda: xid()(), lambda: XEvent().get_id(), lambda: XFactory.create_event().get_id(),
            lambda: base.clone().get_id(), lambda: xid().parse(str(xid()())), lambda: xid()(uuid.uuid4())][way]
    seen, state = set(), random.getstate()
    try:
        for _ in range(rounds):
            random.seed(seed)
            for _ in range(3):
                text = str(make())
                expect(text not in seen, "the id", text, "was made twice")
                seen.add(text)
                ctx.step()
    finally:
        random.setstate(state)
    ctx.state(repr(case))


def families(tier):
    quick = tier == "quick"
    ways = ["factory", "class", "event", "created event", "copied event"]
    return [
        Family("texts", lambda _: hexes(quick), texts),
        Family("refused-texts", lambda _: ([t, p] for t in hexes(True)[128::50] for p in range(36)), refused),
        Family("changed-identities", lambda _: p10.identified_cases(), p10.identified),
        Family("no-id-twice", lambda _: ([n, list(w)] for n in (1, 2, 5) for k in range(1, len(ways) + 1) for w in itertools.combinations(ways, k)), fresh),
        Family("random-module-seeded", lambda _: ([w, s, r] for w in range(7) for s in (0, 1, "x", None) for r in (2, 5)), seeded),
    ]
