"""A controlled scheduler: real threads over the real code, one running at a time, switching only where the schedule says.

A schedule runs either cold, in a freshly forked process (the library is in its just-imported state), or warm, in this
process after a cache reset.  Decisions are taken at every executed line (or bytecode instruction) of the library;
enumeration is by number of preemptions.
"""
import contextlib
import os
import pickle
import sys
import threading
import time
import traceback

REPO = os.path.realpath(os.environ.get("MC_REPO", "/repo"))
PKG = os.path.join(REPO, "pylogics_modalities") + os.sep
STALL = 0.02
DEADLOCK = 20.0


TOOL = 3
MON = sys.monitoring
IDS = {}  # thread identifier -> (run, thread number)
_READY = False


def instrument(on, fine=False):
    """Have the library's code (and nothing else) report every line, or every instruction."""
    global _READY
    E = MON.events
    if not _READY:
        MON.use_tool_id(TOOL, "schedules")

        def event(code, pos, *_):
            if not code.co_filename.startswith(PKG):
                return MON.DISABLE
            me = IDS.get(threading.get_ident())
            if me is not None:
                me[0].point(me[1], code, pos)

        for e in (E.LINE, E.INSTRUCTION, E.PY_START):
            MON.register_callback(TOOL, e, event)
        _READY = True
    MON.set_events(TOOL, 0 if not on else E.INSTRUCTION if fine else E.LINE | E.PY_START)


class CoopLock:
    """A lock that hands the turn to another thread instead of blocking a scheduled one."""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        me = IDS.get(threading.get_ident())
        if me is None or not blocking:
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            me[0].blocked(me[1])
        return True

    def release(self):
        self._real.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self._real.release()

    def __getattr__(self, name):
        return getattr(self._real, name)


@contextlib.contextmanager
def cooperative_locks():
    """Locks created meanwhile (when the library is imported) cooperate with the scheduler."""
    lock, rlock = threading.Lock, threading.RLock
    threading.Lock = lambda: CoopLock(lock())
    threading.RLock = lambda: CoopLock(rlock())
    try:
        yield
    finally:
        threading.Lock, threading.RLock = lock, rlock


class Run:
    """One execution of the bodies under a schedule."""

    def __init__(self, bodies, order, preempt, fine):
        self.bodies = bodies
        self.order = list(order)
        self.preempt = dict(preempt)  # step -> thread to run next
        self.fine = fine
        n = len(bodies)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.token = None
        self.step = 0
        self.finished = [None] * n  # step at which the thread finished
        self.who = []  # thread executing each step (run-length encoded)
        self.results = [None] * n
        self.done = threading.Event()
        self.where = {}
        self.mutex = threading.Lock()

    def point(self, tid, code, pos):
        if self.token != tid:
            # overtaken while blocked: wait to be scheduled again
            self.sems[tid].acquire()
        i = self.step
        self.step = i + 1
        target = self.preempt.get(i)
        if target is not None and target != tid and self.finished[target] is None:
            self.where[i] = "%s:%s %s" % (os.path.basename(code.co_filename), pos, code.co_qualname)
            self.token = target
            self.sems[target].release()
            self.sems[tid].acquire()

    def blocked(self, tid):
        """The running thread waits for a lock: someone else continues."""
        with self.mutex:
            alive = [t for t in self.order if self.finished[t] is None and t != tid]
            if alive and self.token == tid:
                later = [t for t in alive if t > tid]
                self.token = (later or alive)[0]
                self.sems[self.token].release()
        self.sems[tid].acquire()

    def thread(self, tid):
        self.sems[tid].acquire()
        try:
            IDS[threading.get_ident()] = (self, tid)
            try:
                r = ("ok", self.bodies[tid]())
            finally:
                IDS.pop(threading.get_ident(), None)
        except Exception as e:
            r = ("err", type(e).__name__, str(e)[:300], traceback.format_exc()[-800:])
        self.results[tid] = r
        with self.mutex:
            self.finished[tid] = self.step
            nxt = [t for t in self.order if self.finished[t] is None]
            if not nxt:
                self.done.set()
            elif self.token == tid:
                self.token = nxt[0]
                self.sems[nxt[0]].release()

    def run(self):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in ts:
            t.start()
        self.token = self.order[0]
        self.sems[self.order[0]].release()
        last, since = -1, time.time()
        while not self.done.wait(STALL):
            if self.step != last:
                last, since = self.step, time.time()
                continue
            with self.mutex:
                # the running thread waits for something another one holds
                alive = [t for t in self.order if self.finished[t] is None and t != self.token]
                if alive and self.token is not None:
                    k = alive[(int((time.time() - since) / STALL)) % len(alive)]
                    self.token = k
                    self.sems[k].release()
            if time.time() - since > DEADLOCK:
                return False
        return True


def forked(fn):
    """fn() in a forked child; its picklable result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 1
        try:
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the process running a schedule ended without a result")
    return pickle.loads(data)


def execute(scenario, order, preempt, fine, cold=True):
    """Run one schedule of a scenario (setup() -> (bodies, post)), cold: in a fresh process, else in this one."""

    def go():
        bodies, post = scenario()
        instrument(True, fine)
        r = Run(bodies, order, preempt, fine)
        ok = r.run()
        instrument(False)
        results, complaint = post(r.results) if ok else (None, None)
        return {"ok": ok, "steps": r.step, "finished": r.finished, "results": results, "where": r.where, "post": complaint}

    return forked(go) if cold else go()


def explore(scenario, n, order, bound, fine, visit, first=None, cold=True):
    """All schedules with the start order and at most 'bound' preemptions; visit(preempt, result) on each.

    first: explore only schedules whose first preemption is at these steps (work division); None: all.
    """
    res = execute(scenario, order, {}, fine, cold)
    if first is None or 0 in first:
        visit({}, res)
    if bound > 0:
        _extend(scenario, n, order, {}, res, bound, fine, visit, first, cold)


def _extend(scenario, n, order, preempt, res, left, fine, visit, first, cold):
    lo = max(preempt) + 1 if preempt else 0
    for i in range(lo, res["steps"]):
        if first is not None and i not in first:
            continue
        alive = [t for t in range(n) if res["finished"][t] is None or res["finished"][t] > i]
        if len(alive) < 2:
            break
        for t in alive:
            p = dict(preempt)
            p[i] = t
            if running(res, order, preempt, i) == t:
                continue
            q = execute(scenario, order, p, fine, cold)
            visit(p, q)
            if left > 1:
                _extend(scenario, n, order, p, q, left - 1, fine, visit, None, cold)


def running(res, order, preempt, i):
    """The thread executing step i in a finished run."""
    cur = order[0]
    events = sorted([(s, 1, t) for s, t in preempt.items()] + [(res["finished"][t], 0, t) for t in order if res["finished"][t] is not None])
    fin = set()
    for s, kind, t in events:
        if s > i or (s == i and kind == 1):
            break
        if kind == 0:
            if s <= i:
                fin.add(t)
                if t == cur:
                    rest = [u for u in order if u not in fin]
                    cur = rest[0] if rest else cur
        elif t not in fin:
            cur = t
    return cur
