"""Controlled scheduler: exact interleavings of threads that run the package.

Every thread runs one operation on the real code.  Only one thread runs at a
time; a thread may lose the processor only at a *point*: before a line (or a
bytecode instruction) of a source file of the package.  A schedule names, per
thread, the point at which it is interrupted: thread 0 runs to its point, the
next thread runs to its own point or its end, and so on in cyclic order, the
interrupted ones being resumed where they stood.

If the running thread waits for something another one holds (a lock in the
code under test) the processor is passed on; when no thread can go on the
schedule is a deadlock.
"""
import gc
import os
import sys
import threading
import time
import types

from . import env

PACKAGE = os.path.join(env.SRC, 'emva1288') + os.sep
STALL = 1.5
DEAD = 20.


class Deadlock(Exception):
    pass


def _tracer(hit, only=None):
    """a trace function that calls hit(point) in the package's sources"""
    names = {}

    def wanted(fn):
        r = names.get(fn)
        if r is None:
            r = names[fn] = fn.startswith(PACKAGE) and fn.endswith('.py') \
                and (only is None or os.path.basename(fn) in only)
        return r

    def local(frame, event, arg):
        if event == 'line':
            hit((frame.f_code.co_filename, frame.f_lineno))
        return local

    def begin(frame, event, arg):
        if not wanted(frame.f_code.co_filename):
            return None
        return local
    return begin


class _Tracing(object):
    """calls hit(point) of the current thread, at lines by settrace, at
    instructions by the monitoring of the interpreter (switched on before
    the threads start: changing it while one is inside crashes CPython)"""
    TOOL = 4

    def __init__(self, opcodes):
        self.opcodes = opcodes
        self.hits = {}

    def begin(self, hit, only):
        if self.opcodes:
            self.hits[threading.get_ident()] = (hit, only)
        else:
            sys.settrace(_tracer(hit, only))

    def end(self):
        if self.opcodes:
            self.hits.pop(threading.get_ident(), None)
        else:
            sys.settrace(None)

    def __enter__(self):
        if self.opcodes:
            m = sys.monitoring
            self.codes = _codes()
            m.use_tool_id(self.TOOL, 'threads')
            m.register_callback(self.TOOL, m.events.INSTRUCTION, self._event)
            for c in self.codes:
                m.set_local_events(self.TOOL, c, m.events.INSTRUCTION)
        return self

    def __exit__(self, *_a):
        if self.opcodes:
            m = sys.monitoring
            for c in self.codes:
                m.set_local_events(self.TOOL, c, 0)
            m.register_callback(self.TOOL, m.events.INSTRUCTION, None)
            m.free_tool_id(self.TOOL)

    def _event(self, code, offset):
        me = self.hits.get(threading.get_ident())
        if me and (me[1] is None or
                   os.path.basename(code.co_filename) in me[1]):
            me[0]((code.co_filename, code.co_name, code.co_firstlineno,
                   offset))


def _codes():
    """all code of the package's functions"""
    todo = [f.__code__ for f in gc.get_objects()
            if isinstance(f, types.FunctionType)]
    out = {}
    while todo:
        c = todo.pop()
        if id(c) not in out and c.co_filename.startswith(PACKAGE):
            out[id(c)] = c
            todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return list(out.values())


def points(fn, visits=1, only=None, opcodes=False):
    """the points fn passes when alone: [(place, visit number)] with the
    first `visits` visits of every place, in the order of the run"""
    seen, out = {}, []

    def hit(p):
        n = seen[p] = seen.get(p, 0) + 1
        if n <= visits:
            out.append((p, n))
    with _Tracing(opcodes) as t:
        t.begin(hit, only)
        try:
            fn()
        finally:
            t.end()
    return out


class _World(object):
    def __init__(self, fns, stops, only, tracing):
        self.n = len(fns)
        self.tracing = tracing
        self.owner = 0
        self.done = [False] * self.n
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.result = [None] * self.n
        self.moved = 0
        self.all = threading.Event()
        self.threads = [threading.Thread(
            target=self._body,
            args=(i, fns[i], stops[i], only[i] if only else None),
            daemon=True) for i in range(self.n)]

    def _park(self, me):
        while self.owner != me:
            self.sem[me].acquire()

    def give(self, frm):
        for k in range(1, self.n + 1):
            j = (frm + k) % self.n
            if not self.done[j] and j != frm:
                self.owner = j
                self.sem[j].release()
                return

    def _body(self, me, fn, stop, only):
        count = [0]
        place, visit = stop if stop else (None, 0)

        def hit(p):
            if self.owner != me:
                self._park(me)
            if p == place:
                count[0] += 1
                if count[0] == visit:
                    self.moved += 1
                    self.give(me)
                    self._park(me)
        self._park(me)
        self.tracing.begin(hit, only)
        try:
            try:
                r = (True, fn())
            except Exception as e:
                r = (False, '%s: %s' % (type(e).__name__, e))
        finally:
            self.tracing.end()
        self.result[me] = r
        self.done[me] = True
        if all(self.done):
            self.all.set()
        elif self.owner == me:
            self.give(me)

    def go(self):
        for t in self.threads:
            t.start()
        if self.all.wait(STALL):
            return self._end()
        clocks = [None] * self.n
        last = [time.monotonic()] * self.n
        while not self.all.wait(.1):
            now = time.monotonic()
            for i, t in enumerate(self.threads):
                try:
                    c = time.clock_gettime(
                        time.pthread_getcpuclockid(t.ident))
                except (OSError, TypeError):
                    continue
                if c != clocks[i]:
                    clocks[i], last[i] = c, now
            i = self.owner
            if now - max(last) > DEAD:
                raise Deadlock('no thread can go on')
            if now - last[i] > STALL:
                # it waits for another thread
                last[i] = now
                self.give(i)
        return self._end()

    def _end(self):
        for t in self.threads:
            t.join()
        return self.result


def run(fns, stops, only=None, opcodes=False):
    """`only`: per thread, the files where it may be interrupted
    -> ([(ok, answer)] per thread, number of interruptions that took
    place)"""
    with _Tracing(opcodes) as t:
        w = _World(fns, stops, only, t)
        r = w.go()
    return r, w.moved
