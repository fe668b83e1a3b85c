"""Core of the explorer: bookkeeping, parallel enumeration, verdicts, evidence.

Every check enumerates a finite space completely (bounds are stated in the evidence), runs the real
library code of /repo on every element and compares with an independent reference model.
"""
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
NPROC = max(1, min(8, int(os.environ.get("MC_PROCS") or os.cpu_count() or 1)))


class Violation(Exception):
    """The property is broken; 'data' is the replayable input."""

    def __init__(self, what, **data):
        super().__init__(what)
        self.what = what
        self.data = data


def _known_file():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["known"]


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v) for v in x), key=repr)
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return repr(x)


class Check:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.exhaustive = True
        self.t0 = time.time()
        self.known = [k for k in _known_file() if k["property"] == prop]

    @property
    def quick(self):
        return self.tier != "thorough"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- results -------------------------------------------------------------------------------
    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(jsonable(x))

    def note(self, key, value):
        self.notes[key] = jsonable(value)

    def violation(self, what, **data):
        """Report a violation, unless the very same input is a listed known finding."""
        key = data.get("key")
        for k in self.known:
            if key is not None and k["key"] == key:
                if key not in self.known_hits:
                    self.known_hits.append(key)
                return
        self.violations.append({"what": what, "data": jsonable(data)})

    def merge(self, res):
        """Merge the result (a Part) of a worker."""
        self.states += res.states
        self.transitions += res.transitions
        self.traces += res.traces
        for s in res.samples:
            self.sample(s)
        for k, v in res.counts.items():
            self.notes[k] = self.notes.get(k, 0) + v
        for what, data in res.violations:
            self.violation(what, **data)

    # ---- parallel enumeration ------------------------------------------------------------------
    def run_parallel(self, fn, chunks, stop_after=1):
        """Run fn(chunk, part) over all chunks in forked workers and merge the parts."""
        chunks = list(chunks)
        if not chunks:
            return
        if len(chunks) == 1 or NPROC == 1 or os.environ.get("MC_SERIAL"):
            for c in chunks:
                self.merge(_guard(fn, c))
                if len(self.violations) >= stop_after:
                    return
            return
        workers = {}  # read end -> (pid, write end of its commands, index of its chunk)
        todo = list(range(len(chunks)))[::-1]
        sys.stdout.flush()
        sys.stderr.flush()
        try:
            for _ in range(min(NPROC, len(chunks))):
                cr, cw = os.pipe()
                rr, rw = os.pipe()
                pid = os.fork()
                if pid == 0:
                    for fd, (_, w, _) in workers.items():
                        os.close(fd)
                        os.close(w)
                    os.close(cw)
                    os.close(rr)
                    _worker(fn, chunks, cr, rw)
                os.close(cr)
                os.close(rw)
                workers[rr] = [pid, cw, todo.pop()]
                os.write(cw, struct.pack("<q", workers[rr][2]))
            while workers:
                ready, _, _ = select.select(list(workers), [], [], 5)
                for fd in ready:
                    pid, cw, k = workers[fd]
                    res = _receive(fd)
                    if res is None:
                        res = Part()
                        res.violation("the process exploring a part of the space died", chunk=repr(chunks[k])[:300])
                        todo.clear()
                    self.merge(res)
                    if todo and len(self.violations) < stop_after:
                        workers[fd][2] = todo.pop()
                        os.write(cw, struct.pack("<q", workers[fd][2]))
                    else:
                        os.close(fd)
                        os.close(cw)
                        del workers[fd]
                        os.waitpid(pid, 0)
                if len(self.violations) >= stop_after:
                    return
        finally:
            for fd, (pid, cw, _) in workers.items():
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.close(fd)
                os.close(cw)
                os.waitpid(pid, 0)

    # ---- end of the run ------------------------------------------------------------------------
    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["-"],
            "exhaustive": bool(self.exhaustive and not self.violations),
        }
        cov.update(self.notes)
        ev = {
            "property": self.prop,
            "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        for k in self.known:
            if k["key"] in self.known_hits:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        print(
            "%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs %s"
            % (self.prop, self.tier, self.states, self.transitions, self.traces, time.time() - self.t0,
               json.dumps(self.notes, sort_keys=True)[:600])
        )
        if self.violations:
            os.makedirs(OUT, exist_ok=True)
            v = min(self.violations, key=lambda v: len(json.dumps(v)))
            path = os.path.join(OUT, "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                           "what": v["what"], "data": v["data"],
                           "others": [w["what"] for w in self.violations[:20]]}, f, indent=1)
                f.write("\n")
            print("violated: " + v["what"][:2000])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            return 1
        sys.stdout.flush()
        return 0


class Part:
    """Partial result computed by a worker."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.counts = {}

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, x, limit=1):
        if len(self.samples) < limit:
            self.samples.append(jsonable(x))

    def violation(self, what, **data):
        if len(self.violations) < 5:
            self.violations.append((what, jsonable(data)))


def _guard(fn, chunk):
    part = Part()
    try:
        fn(chunk, part)
    except Violation as e:
        part.violation(e.what, **e.data)
    except BaseException as e:  # an exception out of the library on legal input breaks the property
        part.violation(
            "unexpected %s while exploring: %s" % (type(e).__name__, str(e)[:300]),
            chunk=repr(chunk)[:300], traceback=traceback.format_exc()[-1500:],
        )
    return part


def _worker(fn, chunks, cr, rw):
    """A worker process: explore the chunks whose indices arrive."""
    code = 1
    try:
        signal.alarm(0)
        while True:
            head = os.read(cr, 8)
            if len(head) < 8:
                break
            data = pickle.dumps(_guard(fn, chunks[struct.unpack("<q", head)[0]]))
            data = struct.pack("<q", len(data)) + data
            while data:
                data = data[os.write(rw, data):]
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        os._exit(code)


def _receive(fd):
    def get(n):
        out = b""
        while len(out) < n:
            d = os.read(fd, n - len(out))
            if not d:
                return None
            out += d
        return out

    head = get(8)
    data = get(struct.unpack("<q", head)[0]) if head is not None else None
    return None if data is None else pickle.loads(data)


def chunked(items, n):
    """Split a list into about n round-robin chunks (deterministic)."""
    items = list(items)
    n = max(1, min(n, len(items)))
    return [items[i::n] for i in range(n)]


def outcome(fn):
    """('ok', value) or ('err', exception)."""
    try:
        return ("ok", fn())
    except Exception as e:
        return ("err", e)
