"""C25: calls have no effect outside the library: nothing printed, written, started or switched in the process."""
import os
import pickle
import subprocess
import sys
import tempfile

from mc import sched
from mc.checks import c21, c24
from mc.core import VERIF, Violation, chunked
from mc.effects import observed

ASSUMPTIONS = ["reading files and importing modules on first use is allowed; effects are observed through audit events, the file descriptors of the process, and its settings"]

IMPORT = r"""
import sys, os, importlib, pickle, base64
import lark, asyncio, subprocess, shutil, unittest.mock, concurrent.futures, multiprocessing
sys.path[:0] = [sys.argv[1], sys.argv[2]]
from mc.effects import observed
sys.dont_write_bytecode = True
r = observed(("import of " + m, lambda m=m: importlib.import_module(m)) for m in sys.argv[4:])
with open(sys.argv[3], "wb") as f:
    pickle.dump(r, f)
os._exit(0)
"""


def imported(order):
    """Import the modules in this order in a fresh interpreter: (label, effect, calls)."""
    with tempfile.TemporaryDirectory() as tmp:
        out = os.path.join(tmp, "out")
        env = dict({k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}, TMPDIR=tmp, HOME=tmp)
        r = subprocess.run([sys.executable, "-c", IMPORT, os.environ.get("MC_REPO", "/repo"), VERIF, out] + list(order), env=env, cwd=tmp, capture_output=True, timeout=300, umask=0o22)
        if not os.path.exists(out):
            return "import of %s" % ", ".join(order), "ends the process: %s" % (r.stderr[-300:],), 1
        with open(out, "rb") as f:
            res = pickle.load(f)
        left = sorted(set(os.listdir(tmp)) - {"out"})
        if left and not res[1]:
            return "import of %s" % ", ".join(order), "leaves files behind: %s" % left, res[2]
        return res


def every():
    yield from c21.PROBES
    yield from c21.CALLS
    yield from ((k, v) for k, v in c21.OPS.items())
    yield from c24.extra_calls()
    yield from large()


def large():
    """Bigger inputs: what only a long text, a deep formula or many lines would trigger."""
    from pylogics_modalities.semantics.pl import evaluate_pl
    from pylogics_modalities.utils.to_string import to_string

    from mc import nd
    from mc import population as POP
    from mc import terms as T

    for name, items in [*POP.families().items(), *POP.huge().items()]:
        l, t = items[0]
        if l == "term":
            yield name, lambda t=t: (str(T.build_term(t)), hash(T.build_term(t)))
        else:
            def go(l=l, t=t):
                f = T.build(t, l)
                str(f), repr(f), hash(f), f == f, ~f if l != "re" else None
                if l not in ("fol", "re"):
                    c21.PARSE[l](to_string(f))
                if l == "pl":
                    evaluate_pl(f, {"p1"})
            yield name, go
    A, B, C = c21.A, c21.B, c21.C
    for n in (10, 60):
        for name, items in nd.long_valid(n, A, B, C):
            yield "proof of %d lines: %s" % (n, name), lambda items=items: c21.proof(items, "pl")


def work(chunk, part):
    for what, calls in chunk:
        if what == "import":
            label, effect, n = imported(calls)
            part.states += n
            part.transitions += n
            part.traces += 1
            if effect:
                raise Violation("%s %s" % (label, effect), order=calls)
            continue

        def go():
            c21.old_formulas()
            if what == "long":
                kind, n = calls
                return observed((s, fn) for s, fn, _ in c21.long_calls(kind, n))
            return observed(ALL[i] for i in calls)

        label, effect, n = sched.forked(go)
        part.states += n
        part.transitions += n
        part.traces += 1
        if effect:
            raise Violation("%s %s" % (label, effect), call=label, first_calls=n)
    part.sample([what, calls if what in ("long", "import") else ALL[calls[0]][0]])


ALL = []


def run(check):
    ALL[:] = list(every())
    idx = list(range(len(ALL)))
    q = check.quick
    check.note("calls", len(ALL))
    todo = [("alone", [i]) for i in idx[: len(c21.PROBES) + len(c21.CALLS) + len(c21.OPS)]]  # the first call of a process
    todo += [("alone", c) for c in chunked(idx, 64)] + [("history", c) for c in chunked(idx[::-1], 24)]
    n = 1200 if q else 20000
    todo += [("long", (k, n)) for k in c21.LONG]
    mods = c24.modules()
    todo += [("import", (m,)) for m in mods] + [("import", tuple(mods)), ("import", tuple(mods[::-1]))]
    if not q:
        small = idx[: len(c21.PROBES) + len(c21.CALLS)]
        todo += [("pair", [i] + small[i % 7::7]) for i in small]
    check.run_parallel(work, chunked(todo, 128))
