"""Systematic exploration of thread interleavings of the real code.

One schedule runs in a forked child of a pristine process. Exactly one thread
runs at a time; at every line (or bytecode) of the library's own code it may
be preempted. A schedule is the set of decisions that deviate from "go on with
the running thread"; all schedules with at most `bound` preemptions are run
(choices forced by a blocked or finished thread are free), depth first and
without sampling.

Locks the library makes with the threading module are replaced (before it is
imported) by ones that tell the scheduler when a thread is blocked, so that
deadlocks are seen. A thread that blocks in something else is noticed by a
watchdog, and the others go on.
"""
import _thread
import os
import pickle
import signal
import sys
import threading
import time
import traceback

from mc import core
from mc.core import Violation

real_lock = _thread.allocate_lock
active = None
STALLED = 5


class Lock:
    def __init__(self):
        self.real = real_lock()

    def acquire(self, blocking=True, timeout=-1):
        me = active.mine() if active else None
        if me is None:
            return self.real.acquire(blocking, timeout)
        while not self.real.acquire(False):
            if not blocking or not active.block(me, timeout is not None and timeout >= 0):
                return False
        return True

    def release(self):
        self.real.release()
        if active:
            active.unblock()

    def locked(self):
        return self.real.locked()

    def _at_fork_reinit(self):
        self.real = real_lock()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()


class RLock:
    def __init__(self):
        self.lock = Lock()
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.owner == me:
            self.count += 1
            return True
        if not self.lock.acquire(blocking, timeout):
            return False
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            self.lock.release()

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        state, self.count, self.owner = (self.count, self.owner), 0, None
        self.lock.release()
        return state

    def _acquire_restore(self, state):
        self.lock.acquire()
        self.count, self.owner = state

    def _recursion_count(self):
        return self.count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self.__init__()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()


def install():
    """Before the library is imported."""
    assert not any(name.startswith("opyenxes.") for name in sys.modules), "too late"
    threading.Lock = threading._allocate_lock = Lock
    threading.RLock = RLock
    _thread.allocate_lock = _thread.allocate = Lock
    _thread.RLock = RLock


class Stop(BaseException):
    pass


class Scheduler:
    def __init__(self, count, deviations, opcodes, root, visits=None):
        self.visits = visits             # preempt a thread only at its first visits of a place
        self.visited = {}
        self.deviations = deviations
        self.opcodes = opcodes
        self.root = root
        self.guard = real_lock()
        self.gates = [real_lock() for _ in range(count)]
        for gate in self.gates:
            gate.acquire()
        self.state = ["ready"] * count   # ready, blocked, timed, foreign, done
        self.idents = {}
        self.current = None
        self.decisions = []              # (enabled, default, chosen, preemption possible)
        self.ticks = 0
        self.finished = real_lock()
        self.finished.acquire()
        self.deadlock = False
        self.stopping = False
        self.switches = 0

    def mine(self):
        return self.idents.get(_thread.get_ident())

    def choose(self):
        """Called with the guard held: whose turn is it next?"""
        self.ticks += 1
        enabled = [i for i, s in enumerate(self.state) if s == "ready"]
        if not enabled:
            timed = [i for i, s in enumerate(self.state) if s == "timed"]
            if timed:
                self.state[timed[0]] = "timeout"
                return timed[0]
            if all(s == "done" for s in self.state):
                self.finished.release()
            elif "foreign" not in self.state:
                self.deadlock = True
                self.finished.release()
            return None
        default = self.current if self.current in enabled else enabled[0]
        chosen = default
        if len(enabled) > 1:
            chosen = self.deviations.get(len(self.decisions), default)
            if chosen not in enabled:
                chosen = default
            self.decisions.append((enabled, default, chosen, self.current in enabled))
        return chosen

    def hand_over(self, me):
        """Gives the turn to the next thread; returns when it is ours again."""
        with self.guard:
            following = self.choose()
            if following == me:
                self.current = me
                return
            self.switches += 1
            self.current = following
        if following is not None:
            self.gates[following].release()
        if me is not None and self.state[me] != "done":
            self.gates[me].acquire()
            if self.stopping:
                raise Stop()

    def point(self, me):
        if self.state[me] == "foreign":
            # back from a block the scheduler did not know of
            with self.guard:
                self.state[me] = "ready"
                idle = self.current is None
                if idle:
                    self.current = me
            if idle:
                return
            self.gates[me].acquire()
            if self.stopping:
                raise Stop()
            return
        self.hand_over(me)

    def block(self, me, timed):
        self.state[me] = "timed" if timed else "blocked"
        self.hand_over(me)
        if self.state[me] == "timeout":
            self.state[me] = "ready"
            return False
        return True

    def unblock(self):
        for i, s in enumerate(self.state):
            if s in ("blocked", "timed"):
                self.state[i] = "ready"

    def trace(self, frame, event, _):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        me = self.mine()

        def local(frame, event, _):
            if event == "line":
                self.place(me, frame.f_code, frame.f_lasti)
            return local
        return local

    def place(self, me, code, offset):
        if self.visits is not None:
            place = (me, code, offset)
            self.visited[place] = self.visited.get(place, 0) + 1
            if self.visited[place] > self.visits and self.state[me] != "foreign":
                return
        self.point(me)

    def instruction(self, code, offset):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        me = self.mine()
        if me is not None and self.state[me] != "done":
            self.place(me, code, offset)

    def thread(self, me, body, results):
        self.idents[_thread.get_ident()] = me
        self.gates[me].acquire()
        if self.stopping:
            return
        if not self.opcodes:
            sys.settrace(self.trace)
        try:
            results[me] = ("value", body())
        except Stop:
            return
        except Violation as error:
            results[me] = ("violation", str(error))
        except BaseException as error:
            tail = traceback.format_exc().strip().splitlines()
            results[me] = ("violation", "thread %d: unexpected %s: %s [%s]" % (
                me, type(error).__name__, error, " | ".join(t.strip() for t in tail[-5:-1])))
        finally:
            sys.settrace(None)
        if self.state[me] == "foreign":
            with self.guard:
                self.state[me] = "done"
                idle = self.current is None
            if not idle:
                return
        self.state[me] = "done"
        self.unblock()
        self.hand_over(me)

    def run(self, bodies):
        global active
        results = [None] * len(bodies)
        active = self
        if self.opcodes:
            # CPython 3.12 does not survive settrace of opcodes in several threads
            sys.monitoring.use_tool_id(3, "schedules")
            sys.monitoring.register_callback(3, sys.monitoring.events.INSTRUCTION, self.instruction)
            sys.monitoring.set_events(3, sys.monitoring.events.INSTRUCTION)
        for i, body in enumerate(bodies):
            _thread.start_new_thread(self.thread, (i, body, results))
        while len(self.idents) < len(bodies):
            time.sleep(0)
        self.hand_over(None)
        seen, since = -1, time.time()
        while not self.finished.acquire(True, 0.2):
            if self.ticks != seen:
                seen, since = self.ticks, time.time()
            elif time.time() - since > STALLED:
                with self.guard:
                    # the running thread waits for something unknown
                    if self.current is not None and self.state[self.current] == "ready":
                        self.state[self.current] = "foreign"
                    if not any(s in ("ready", "timed") for s in self.state):
                        self.deadlock = True
                        break
                    self.current = None
                    following = self.choose()
                    self.current = following
                if following is not None:
                    self.gates[following].release()
                seen = -1
        active = None
        if self.deadlock:
            stuck = [i for i, s in enumerate(self.state) if s != "done"]
            where = []
            frames = sys._current_frames()
            for ident, i in self.idents.items():
                if i in stuck and ident in frames:
                    frame = frames[ident]
                    while frame is not None and not frame.f_code.co_filename.startswith(self.root):
                        frame = frame.f_back
                    if frame is not None:
                        where.append("%d at %s:%d" % (i, os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            raise Violation("deadlock: threads %s wait for each other (%s)" % (stuck, ", ".join(where)))
        for result in results:
            if result is not None and result[0] == "violation":
                raise Violation(result[1])
        return [r[1] for r in results]


def one(scenario, deviations, opcodes, visits=None):
    """Runs one schedule in a child. Returns (message, decisions, summary)."""
    reader, writer = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(reader)
        message, summary, decisions = None, None, []
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(40)
            bodies, check = scenario()
            scheduler = Scheduler(len(bodies), deviations, opcodes, os.path.join(os.path.realpath(core.REPO), "src") + os.sep, visits)
            try:
                summary = check(scheduler.run(bodies))
            except Violation as error:
                message = str(error)
            decisions = scheduler.decisions
        except BaseException as error:
            tail = traceback.format_exc().strip().splitlines()
            message = "unexpected %s: %s [%s]" % (type(error).__name__, error, " | ".join(t.strip() for t in tail[-5:-1]))
        data = pickle.dumps((message, decisions, summary))
        with os.fdopen(writer, "wb") as out:
            out.write(data)
        os._exit(0)
    os.close(writer)
    try:
        with os.fdopen(reader, "rb") as stream:
            data = stream.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        return "a schedule did not terminate", [], None
    return pickle.loads(data)


def explore(ctx, scenario, bound, opcodes=False, shard=0, shards=1, visits=None, symmetric=False):
    """All schedules with at most `bound` preemptions; of those with some, the
    ones whose first preemption is at decision number = shard (mod shards).
    If the threads do the same, it does not matter which one begins."""
    stack = [({}, 0 if symmetric else -1, 0)]
    while stack:
        deviations, last, used = stack.pop()
        message, decisions, summary = one(scenario, deviations, opcodes, visits)
        if used or shard == 0:
            ctx.count("schedules")
            ctx.step(len(decisions))
            ctx.top("decisions", len(decisions))
            ctx.top("preemptions", used)
            ctx.state(repr((summary, sorted(deviations.items()))))
        if message is not None:
            raise Violation("%s; schedule %s" % (message, sorted(deviations.items())))
        for i in range(last + 1, len(decisions)):
            enabled, default, _, preemptive = decisions[i]
            cost = used + (1 if preemptive else 0)
            if cost > bound or preemptive and not used and i % shards != shard:
                continue
            for thread in enabled:
                if thread != default:
                    stack.append(({**deviations, i: thread}, i, cost))
