"""Deterministic scheduling of threads at the statements of the code under test.

Every thread runs under sys.settrace; each line (or, if asked for and reported by the
interpreter, each bytecode) executed in a file below the package is a scheduling point at which a policy picks the thread to go on.  Only one thread runs at a
time, unless the running one blocks (the code under test may use locks of its own): then,
after a while, another one is let loose as well.
"""
import os
import random
import sys
import threading
import time
from rv import core

ROOT = os.path.realpath(os.path.join(core.REPO, 'segeval')) + os.sep
_inside = {}


def traced_file(name):
    r = _inside.get(name)
    if r is None:
        r = _inside[name] = os.path.realpath(name).startswith(ROOT)
    return r


class Policy(object):
    """spec: ['random', p] | ['rr', quantum] | ['stall', victim, after] | ['pct', depth, length]"""

    def __init__(self, spec, n, seed):
        self.kind = spec[0]
        self.rng = random.Random(seed)
        self.spec = spec
        self.n = n
        self.count = 0
        self.counts = [0] * n
        self.released = False
        if self.kind == 'pct':
            self.priority = list(range(n))
            self.rng.shuffle(self.priority)
            self.changes = sorted(self.rng.randrange(max(1, spec[2])) for _ in range(spec[1]))
            self.low = -1

    def first(self, runnable):
        if self.kind == 'stall':
            return self.spec[1] % self.n
        if self.kind == 'pct':
            return max(runnable, key=lambda t: self.priority[t])
        return self.rng.choice(sorted(runnable))

    def next(self, me, others):
        """the thread to go on at a scheduling point of 'me'; others are parked"""
        self.count += 1
        self.counts[me] += 1
        if not others:
            return me
        if self.kind == 'random':
            return self.rng.choice(sorted(others)) if self.rng.random() < self.spec[1] else me
        if self.kind == 'rr':
            return min(others, key=lambda t: (t - me) % self.n) if self.counts[me] % self.spec[1] == 0 else me
        if self.kind == 'stall':
            # the victim stops at one point, everyone else runs to the end first
            if me == self.spec[1] % self.n and not self.released and self.counts[me] >= self.spec[2]:
                self.released = True
                return self.rng.choice(sorted(others))
            return me
        if self.changes and self.count > self.changes[0]:
            self.changes.pop(0)
            self.priority[me] = self.low
            self.low -= 1
        return max([me] + sorted(others), key=lambda t: self.priority[t])

    def ended(self, parked):
        if self.kind == 'stall':
            others = [t for t in parked if t != self.spec[1] % self.n]
            return self.rng.choice(sorted(others or parked))
        if self.kind == 'pct':
            return max(sorted(parked), key=lambda t: self.priority[t])
        return self.rng.choice(sorted(parked))


class Scheduler(object):
    def __init__(self, tasks, policy, fine=False):
        self.tasks = tasks
        self.fine = fine
        self.opcodes = 0
        self.policy = policy
        self.n = len(tasks)
        self.mutex = threading.Lock()
        self.gates = [threading.Lock() for _ in tasks]
        for g in self.gates:
            g.acquire()
        self.parked = set(range(self.n))
        self.done = set()
        self.results = [None] * self.n
        self.trace = []
        self.points = 0
        self.where = set()
        self.stalls = 0
        self.over = threading.Event()

    # ---- called in the traced threads
    def point(self, me, frame):
        with self.mutex:
            self.points += 1
            nxt = self.policy.next(me, self.parked)
            if nxt == me:
                return
            self.parked.discard(nxt)
            self.parked.add(me)
            place = (os.path.basename(os.path.dirname(frame.f_code.co_filename)) + '/' +
                     os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            self.trace.append((me, nxt, self.points) + place)
            self.where.add(place)
        self.gates[nxt].release()
        self.gates[me].acquire()

    def tracer(self, me):
        def line(frame, event, arg):
            if event == 'line':
                self.point(me, frame)
            elif event == 'opcode':
                self.opcodes += 1
                self.point(me, frame)
            return line

        def call(frame, event, arg):
            if event == 'call' and traced_file(frame.f_code.co_filename):
                if self.fine:
                    frame.f_trace_opcodes = True
                return line
            return None
        return call

    def body(self, me):
        self.gates[me].acquire()
        sys.settrace(self.tracer(me))
        try:
            self.results[me] = ('ok', self.tasks[me]())
        except BaseException as exc:
            self.results[me] = ('error', exc)
        finally:
            sys.settrace(None)
            nxt = None
            with self.mutex:
                self.done.add(me)
                running = self.n - len(self.parked) - len(self.done)
                if self.parked and not running:
                    nxt = self.policy.ended(self.parked)
                    self.parked.discard(nxt)
                if len(self.done) == self.n:
                    self.over.set()
            if nxt is not None:
                self.gates[nxt].release()

    def run(self, patience=0.5):
        threads = [threading.Thread(target=self.body, args=(i,)) for i in range(self.n)]
        for t in threads:
            t.daemon = True
            t.start()
        with self.mutex:
            first = self.policy.first(self.parked)
            self.parked.discard(first)
        self.gates[first].release()
        last, since = -1, time.time()
        while not self.over.wait(0.05):
            if self.points != last:
                last, since = self.points, time.time()
            elif time.time() - since > patience:
                # the running thread is blocked (or slow): let another one run too
                nxt = None
                with self.mutex:
                    if self.parked:
                        nxt = self.policy.ended(self.parked)
                        self.parked.discard(nxt)
                        self.stalls += 1
                since = time.time()
                if nxt is not None:
                    self.gates[nxt].release()
        for t in threads:
            t.join()
        return self.results


def native(tasks, interval=1e-6):
    """the same tasks in freely running threads that start together"""
    n = len(tasks)
    barrier = threading.Barrier(n)
    results = [None] * n
    old = sys.getswitchinterval()

    def body(i):
        barrier.wait()
        try:
            results[i] = ('ok', tasks[i]())
        except BaseException as exc:
            results[i] = ('error', exc)
    threads = [threading.Thread(target=body, args=(i,)) for i in range(n)]
    sys.setswitchinterval(interval)
    try:
        for t in threads:
            t.daemon = True
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return results
