"""
Cooperative scheduler for threads running the real code

Each thread stops at every source line of torchmps (a scheduling point, before
the line is executed; sys.monitoring reports them).  A schedule is a list of
segments (thread, number of points to pass or None to run to its end); exactly
one thread runs at any time, so that a schedule determines the execution.

When the running thread makes no progress although it has not ended (it waits
for something another thread holds), all threads are released; the execution
then is an ordinary concurrent one, and counted as such.
"""
import gc
import os
import sys
import threading
import types

import torchmps

ROOT = os.path.dirname(os.path.abspath(torchmps.__file__)) + os.sep
STALL = 0.3  # seconds without progress
LIMIT = 60.0
MON = sys.monitoring
TOOL = 4
THREADS = {}  # thread identifier -> (run, tid)
_enabled = set()


def _line(code, line, threads=THREADS, ident=threading.get_ident):
    me = threads.get(ident())
    if me is not None:
        me[0].point(me[1])


def _enable(code):
    if code in _enabled or not code.co_filename.startswith(ROOT):
        return
    _enabled.add(code)
    MON.set_local_events(TOOL, code, MON.events.LINE)
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            _enable(const)


def instrument():
    """Report the lines of every function of torchmps, however it is wrapped"""
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "torchmps schedules")
        MON.register_callback(TOOL, MON.events.LINE, _line)
    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType):
            _enable(obj.__code__)
    return len(_enabled)


class Run:
    def __init__(self, bodies, segments, on_point=None):
        self.bodies = bodies
        self.segments = list(segments)
        self.seg = 0
        self.passed = 0
        self.limit = self.segments[0][1]
        self.points = [0] * len(bodies)
        self.done = [False] * len(bodies)
        self.results = [None] * len(bodies)
        self.turn = [threading.Semaphore(0) for _ in bodies]
        self.free = False
        self.finished = threading.Semaphore(0)
        self.on_point = on_point
        self.current = None

    # -- called by the running thread only ---------------------------------

    def advance(self):
        """Hand over to the thread of the next segment that has work"""
        while True:
            self.seg += 1
            if self.seg < len(self.segments):
                tid = self.segments[self.seg][0]
            else:
                rest = [t for t, d in enumerate(self.done) if not d]
                if not rest:
                    self.finished.release()
                    return
                # after the last segment everything runs to its end, in order
                tid = rest[0]
                self.segments.append((tid, None))
                self.seg = len(self.segments) - 1
            if not self.done[tid]:
                break
        self.passed = 0
        self.limit = self.segments[self.seg][1]
        self.current = tid
        self.turn[tid].release()

    def point(self, tid):
        if self.free:
            return
        self.points[tid] += 1
        if self.on_point is not None:
            self.on_point(self.points[tid])
        limit = self.limit
        if limit is not None:
            if self.passed >= limit:
                self.advance()
                if self.current != tid:
                    self.turn[tid].acquire()
            self.passed += 1

    def body(self, tid):
        me = threading.get_ident()
        self.turn[tid].acquire()
        THREADS[me] = (self, tid)
        try:
            out = ("ok", self.bodies[tid]())
        except BaseException as e:  # reported by the caller
            out = ("raised", e)
        finally:
            del THREADS[me]
        self.results[tid] = out
        self.done[tid] = True
        if self.free:
            self.finished.release()
        else:
            self.advance()

    # -- controller ----------------------------------------------------------

    def go(self):
        threads = [
            threading.Thread(target=self.body, args=(t,), daemon=True)
            for t in range(len(self.bodies))
        ]
        for t in threads:
            t.start()
        self.current = self.segments[0][0]
        self.turn[self.current].release()
        last, waited = -1, 0.0
        while not all(self.done):
            if self.finished.acquire(timeout=STALL):
                if all(self.done):
                    break
                continue
            waited += STALL
            if waited > LIMIT:
                return "deadlock"
            total = sum(self.points)
            if total == last and not self.free:
                self.free = True
                for s in self.turn:
                    for _ in range(4):
                        s.release()
            last = total
        for t in threads:
            t.join(LIMIT)
        return "free" if self.free else "controlled"
