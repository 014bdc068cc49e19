"""Threads under a controlled scheduler, and calls that are interrupted.

Every line (or every bytecode instruction) of the code under test is a point where the scheduler may let another
thread run; one thread runs at a time, the choices come from mc.core.explore, so that all schedules up to a number of
preemptions are enumerated, on the real code.  A thread that waits for something the scheduler does not see (a lock
the code takes) stalls the schedule: then all threads run freely, and the results are judged all the same.
"""
import os
import sys
import threading

from mc.core import Chooser

REPO = os.path.realpath(os.environ.get('MC_REPO', '/repo'))
ROOT = tuple(os.path.join(REPO, d) + os.sep for d in ('nlcodec', 'experimental'))
_OURS = {}


def ours(code):
    r = _OURS.get(code)
    if r is None:
        r = _OURS[code] = os.path.realpath(code.co_filename).startswith(ROOT) and code.co_name != '<module>'
    return r


class Interrupt(BaseException):
    """what ends a call from outside, such as Ctrl-C"""


class Tracer:
    def __init__(self, at, opcodes):
        self.at, self.opcodes = at, opcodes

    def begin(self, frame, event, arg):
        if event != 'call' or not ours(frame.f_code):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.inside

    def inside(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.at()
        return self.inside


def count_points(fn, opcodes=False):
    """number of points of one call, and its result"""
    n = [0]

    def at():
        n[0] += 1
    for _ in range(2 if opcodes else 1):    # the first time a function is traced has no instructions
        n[0] = 0
        sys.settrace(Tracer(at, opcodes).begin)
        try:
            res = fn()
        finally:
            sys.settrace(None)
    return n[0], res


def interrupted(fn, k, opcodes=False):
    """runs the call and interrupts it at point k (from 0); True when it ended by that"""
    n = [0]

    def at():
        n[0] += 1
        if n[0] == k + 1:
            sys.settrace(None)
            raise Interrupt()
    sys.settrace(Tracer(at, opcodes).begin)
    try:
        fn()
    except Interrupt:
        return True
    finally:
        sys.settrace(None)
    return False


class Run:
    """one execution of several calls, each in its own thread"""

    def __init__(self, fns, choose, opcodes=False, quantum=.25, patience=40):
        self.choose, self.opcodes = choose, opcodes
        self.n = len(fns)
        self.live = list(range(self.n))
        self.gates = [threading.Lock() for _ in fns]
        for g in self.gates:
            g.acquire()
        self.done = threading.Event()
        self.free = self.stuck = False
        self.points = self.switches = 0
        self.results = [None] * self.n
        threads = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in threads:
            t.start()
        self.gates[self.live[self.choose(self.n)]].release()
        seen, waited = -1, 0
        while not self.done.wait(quantum):
            if self.free:
                waited += quantum
                if waited > patience:
                    self.stuck = True
                    return
            elif seen == self.points:
                self.free = True
                for g in self.gates:
                    try:
                        g.release()
                    except RuntimeError:
                        pass
            seen = self.points
        for t in threads:
            t.join()

    def point(self, me):
        if self.free:
            return
        self.points += 1
        if len(self.live) == 1:
            return
        c = self.choose(len(self.live))
        if c and not self.free:
            self.switches += 1
            other = [t for t in self.live if t != me][c - 1]
            self.gates[other].release()
            self.gates[me].acquire()

    def body(self, me, fn):
        self.gates[me].acquire()
        sys.settrace(Tracer(lambda: self.point(me), self.opcodes).begin)
        try:
            self.results[me] = ('ok', fn())
        except BaseException as e:      # judged by the caller
            self.results[me] = ('error', f'{type(e).__name__}: {e}'[:300])
        finally:
            sys.settrace(None)
            self.live.remove(me)
            if not self.live:
                self.done.set()
            elif not self.free:
                try:
                    self.gates[self.live[self.choose(len(self.live))]].release()
                except RuntimeError:
                    pass


class Lenient(Chooser):
    """the code may take another number of steps the second time (what it keeps): then the choice is the default"""

    def choose(self, n, label=None):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        c = c if c < n else 0
        self.taken.append(c)
        self.arity.append(n)
        return c


def schedules(make, preemptions, rec, opcodes=False, limit=None, stalls=12, start=None):
    """runs make() -> (list of calls, judge) under every schedule with at most that many preemptions.
    judge(results) is called after each.  `start` fixes which thread is first."""
    prefix, n = [] if start is None else [start], 0
    while True:
        ch = Lenient(prefix)
        fns, judge = make()
        run = Run(fns, ch.choose, opcodes)
        n += 1
        rec.trace()
        rec.step(run.points + 1)
        rec.count('schedules')
        rec.count('preemptions', run.switches)
        if run.stuck:
            rec.fail(f'the threads wait for each other forever; schedule: {brief(ch.taken)}')
        judge(run.results, lambda: brief(ch.taken))
        if run.free:
            rec.count('stalled')
            stalls -= 1
        if stalls <= 0 or limit is not None and n >= limit:
            rec.truncated = True
            rec.count('exploration_limits_hit')
            return n
        taken, arity = ch.taken, ch.arity
        i = len(taken) - 1
        low = 0 if start is None else 1
        devs = [0]
        for j, c in enumerate(taken):
            devs.append(devs[-1] + (1 if c and j else 0))
        while i >= low:
            if taken[i] + 1 < arity[i] and (i == 0 or devs[i] + 1 <= preemptions):
                break
            i -= 1
        if i < low:
            return n
        prefix = taken[:i] + [taken[i] + 1]


def brief(taken):
    return 'thread %d first, switches at points %s' % (
        taken[0] if taken else 0, [(i, c) for i, c in enumerate(taken) if c and i])
