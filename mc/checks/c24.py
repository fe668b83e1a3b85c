"""C24: the same results under every interpreter configuration and every import order."""
import base64
import itertools
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

from mc.core import NPROC, VERIF, Violation, chunked

ASSUMPTIONS = ["the same version of the interpreter and of Lark; only the configurations listed are compared"]

# ---- what runs in the interpreters to be compared ------------------------------------------------------
CHILD = r"""
import sys, os, pickle, base64, warnings
spec = pickle.loads(base64.b64decode(sys.argv[1]))
import lark
sys.path[:0] = [spec["repo"], spec["verif"]]
sys.setrecursionlimit(spec.get("limit", 4000))
fd = os.dup(1)
if "argv" in spec:
    sys.argv[:] = spec["argv"]
if spec.get("streams") == "none":
    sys.stdin = sys.stdout = sys.stderr = None
if spec.get("streams") == "closed":
    sys.stdin.close(); sys.stdout.close()
if spec.get("streams") == "terminal":
    master, slave = os.openpty()
    sys.stdin, sys.stdout, sys.stderr = open(slave), open(slave, "w", closefd=False), open(slave, "w", closefd=False)
if spec.get("streams") == "text":
    import io
    sys.stdin, sys.stdout, sys.stderr = io.StringIO(), io.StringIO(), io.StringIO()
if spec.get("umask") is not None:
    os.umask(spec["umask"])
if spec.get("clock") is not None:
    import time
    now, local, utc = time.time, time.localtime, time.gmtime
    shift = spec["clock"] - now()
    time.time = lambda: now() + shift
    time.time_ns = lambda: int((now() + shift) * 10 ** 9)
    time.localtime = lambda t=None: local(time.time() if t is None else t)
    time.gmtime = lambda t=None: utc(time.time() if t is None else t)
reads = set()
if spec.get("record"):  # which environment variables and options does the library look at?
    real = os._Environ.__getitem__
    def getitem(self, key):
        f = sys._getframe(1)
        while f and os.path.basename(f.f_code.co_filename) in ("os.py", "_collections_abc.py", "<frozen os>", "<frozen _collections_abc>"):
            f = f.f_back
        if f and "pylogics_modalities" in f.f_code.co_filename:
            reads.add(key if isinstance(key, str) else os.fsdecode(key))
        return real(self, key)
    os._Environ.__getitem__ = getitem
if spec.get("warnings"):
    warnings.simplefilter("error")
if spec.get("gc") == "off":
    import gc; gc.disable()
if spec.get("gc") == "always":
    import gc; gc.set_threshold(1, 1, 1)
import importlib
for m in spec.get("first", ()):
    importlib.import_module(m)
if spec.get("chdir"):
    os.chdir(spec["chdir"])
if spec.get("touch"):  # something else changed the process before the first call
    import locale, decimal, random
    random.seed(0); decimal.getcontext().prec = 3
    try:
        locale.setlocale(locale.LC_ALL, "")
    except Exception:
        pass
from mc.checks import c24
data = b"RESULT" + base64.b64encode(pickle.dumps((c24.results(spec), sorted(reads)))) + b"END"
while data:
    data = data[os.write(fd, data):]
os._exit(0)
"""


def results(spec):
    """{label: outcome} of every call, in this process."""
    if spec.get("thread"):
        import threading

        out = []
        threading.stack_size(64 * 1024 * 1024)
        t = threading.Thread(target=lambda: out.append(_results(spec)))
        t.start()
        t.join()
        return out[0]
    if spec.get("async"):
        import asyncio

        async def go():
            return _results(spec)

        return asyncio.run(go())
    if spec.get("traced"):
        sys.settrace(lambda *a: None)
        try:
            return _results(spec)
        finally:
            sys.settrace(None)
    if spec.get("deep"):
        def down(n):
            return down(n - 1) if n else _results(spec)
        return down(spec["deep"])
    return _results(spec)


def _results(spec):
    from mc.checks import c21

    out = {}
    c21.old_formulas()
    first = len(c21.PROBES) + len(c21.CALLS)
    for k, (label, fn) in enumerate(itertools.chain(c21.PROBES, c21.CALLS, extra_calls())):
        if spec.get("light") and k >= len(c21.PROBES) and (k % 3 if k < first else k % 17):
            continue
        r = c21.attempt(fn)
        out[k, label if "{" not in label else ""] = r[:2] if r[0] == "err" else r
    return out


def extra_calls():
    """Refusals and helpers: what an assertion could have been used for."""
    from pylogics_modalities.helpers import misc
    from pylogics_modalities.semantics.base import base_semantics
    from pylogics_modalities.semantics.pl import evaluate_pl
    from pylogics_modalities.syntax import base as B, fol as F, ldl as D, ltl as L, pl as P, pltl as Y
    from pylogics_modalities.utils.to_string import to_string

    from mc import nd
    from mc import terms as T
    from mc import space as S
    from mc.checks import c21

    kinds = {"pl": lambda: P.Atomic("a"), "ltl": lambda: L.Atomic("a"), "pltl": lambda: Y.Atomic("a"), "ldl": lambda: T.build(S.DIA, "ldl"),
             "re": lambda: D.Prop(P.Atomic("a")), "fol": lambda: F.Predicate("P", [F.Variable("x")]), "term": lambda: F.Variable("x"),
             "none": lambda: None, "int": lambda: 3, "str": lambda: "a", "list": lambda: [], "class": lambda: B.And, "true": lambda: B.TrueFormula(),
             "false ltl": lambda: B.FalseFormula(logic=B.Logic.LTL)}
    cls = [B.And, B.Or, B.Not, B.Implies, B.Equivalence, L.Next, L.WeakNext, L.Until, L.WeakUntil, L.Release, L.StrongRelease, L.Always, L.Eventually, L.Atomic,
           Y.Before, Y.WeakBefore, Y.Since, Y.Once, Y.Historically, Y.Triggers, Y.Atomic, D.Prop, D.Test, D.Star, D.Seq, D.Union, D.Diamond, D.Box, F.ForAll, F.Exists, P.Atomic]
    for c in cls:
        name = c.__module__.rsplit(".", 1)[1] + "." + c.__name__
        yield name + "()", lambda c=c: c()
        for k, f in kinds.items():
            yield "%s(%s)" % (name, k), lambda c=c, f=f: c(f())
            for k2, g in kinds.items():
                yield "%s(%s, %s)" % (name, k, k2), lambda c=c, f=f, g=g: c(f(), g())
                if k != k2:
                    yield "%s(%s, %s, %s)" % (name, k, k, k2), lambda c=c, f=f, g=g: c(f(), f(), g())
    for k, f in kinds.items():
        yield "to_string(%s)" % k, lambda f=f: to_string(f())
        yield "evaluate_pl(%s)" % k, lambda f=f: evaluate_pl(f(), {"a"})
        yield "evaluate_pl(a, %s)" % k, lambda f=f: evaluate_pl(P.Atomic("a"), f())
        yield "base_semantics(%s)" % k, lambda f=f: base_semantics(f(), evaluate_pl, {"a"})
        for q in (lambda: F.Predicate("P", [F.Variable("x")]), lambda: F.Function("f", [F.Variable("x")])):
            yield "apply %s to %s" % (q.__code__.co_firstlineno, k), lambda q=q, f=f: str(q()(f()))
            yield "apply %s to x, %s" % (q.__code__.co_firstlineno, k), lambda q=q, f=f: str(q()(F.Variable("x"), f()))
            yield "apply %s to nothing %s" % (q.__code__.co_firstlineno, k), lambda q=q, f=f: str(q()())
    yield "enforce", lambda: misc.enforce(False, "message")
    yield "enforce with", lambda: misc.enforce(False, "message", KeyError)
    yield "enforce ok", lambda: misc.enforce(True, "message")
    for x in (None, 0, 1, "", (), [], {}, set(), [1], (1,), {1}, {1: 2}):
        for fn in (misc.ensure, misc.ensure_sequence, misc.ensure_set):
            for y in (None, 0, (), [2]):
                yield "%s(%r, %r)" % (fn.__name__, x, y), lambda fn=fn, x=x, y=y: fn(x, y)
    for n in ("", "a", "A", "ab-c", "-", "a-", '"', '""', '"a"', '"é"', "é", "a\n", " a", "true", "last", "start", "end", "tt"):
        for c in (P.Atomic, L.Atomic, Y.Atomic, B.AtomName):
            yield "%s.%s(%r)" % (c.__module__, c.__name__, n), lambda c=c, n=n: c(n)
    # every step of a small proof replaced by every rule and citation
    A, Bq = S.A, S.Bq
    base = (nd.L(1, A, "premise"), nd.L(2, nd.imp(A, Bq), "premise"), nd.Bx(3, None, nd.L(3, Bq, "assumption"), nd.L(4, A, "copy", 1)))
    for r in nd.RULES:
        for c in ((), (1,), (2,), (3,), (4,), (5,), (9,), (1, 2), (2, 1), (1, 3), (3, 3), (1, 3, 3), ("x",), (None,)):
            for t in (A, Bq, ("false",), ("and", A, Bq), nd.imp(Bq, A)):
                yield "proof %r %s %r" % (t, r, c), lambda r=r, c=c, t=t: c21.proof(base + (nd.L(5, t, r, *c),), "pl")
    for n in (200, 3000):  # large inputs
        for op in (B.And, B.Or, B.Equivalence):
            yield "%d operands of %s" % (n, op.__name__), lambda n=n, op=op: str(op(*[P.Atomic("p%d" % i) for i in range(n)]))
        yield "text of %d atoms" % n, lambda n=n: str(c21.PARSE["pl"](" & ".join("p%d" % i for i in range(n))))
        yield "name of %d letters" % n, lambda n=n: str(P.Atomic("p" * n))
    for t in (S.DIA, S.BOX):
        yield "print re %r" % (t,), lambda t=t: str(T.build(t, "ldl"))


# ---- configurations ------------------------------------------------------------------------------------
def launch(spec, flags=(), env=None, cwd=None, timeout=300, reads=None):
    spec = dict({"repo": os.environ.get("MC_REPO", "/repo"), "verif": VERIF}, **spec)
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON") and k not in ("LANG", "LC_ALL", "LC_CTYPE")}
    e["PYTHONHASHSEED"] = "0"
    cache = os.environ.get("MC_CACHE")
    if cache:
        e["PYTHONPYCACHEPREFIX"] = cache
    if spec.get("bare"):
        e = {k: v for k, v in e.items() if k in ("PYTHONHASHSEED", "PYTHONPYCACHEPREFIX")}
    e.update(env or {})
    r = subprocess.run([sys.executable] + list(flags) + (["-c", CHILD] if not spec.get("script") else [spec["script"]]) + [base64.b64encode(pickle.dumps(spec)).decode()], env=e, cwd=cwd or "/", capture_output=True,
                       timeout=timeout)
    out = r.stdout
    i, j = out.find(b"RESULT"), out.find(b"END")
    if r.returncode or i < 0 or j < 0:
        return None, (out[-300:] + r.stderr[-1500:]).decode("utf-8", "replace")
    res, read = pickle.loads(base64.b64decode(out[i + 6:j]))
    if reads is not None:
        reads.update(read)
    return res, ""


CLOCKS = [86399, 4, *(951782400 + 31 * 86400 * k + 12345 * k for k in range(0, 12, 2)), 1835395199, 4102444800]  # the first day, every other month, a leap day, after 2038


def configurations(quick, tmp):
    """(label, spec, flags, env, cwd)"""
    opts = [(), ("-O",), ("-OO",)]
    seeds = ["1", "random"] if quick else ["0", "1", "2", "3", "77", "4294967295", "random"]
    locales = [{}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C.UTF-8"}, {"PYTHONUTF8": "1"}, {"LC_ALL": "POSIX", "PYTHONIOENCODING": "latin-1", "PYTHONUTF8": "0"}]
    cwds = ["/", os.path.join(tmp, "decoy")]
    for (i, o), (j, s), (k, l), (n, w) in itertools.product(*map(enumerate, (opts, seeds, locales, cwds))):
        if quick and (i + j + k + n) % 2:
            continue  # half of the combinations: every pair of settings occurs
        yield ("options %s, hash seed %s, environment %s, directory %s" % (" ".join(o) or "none", s, l, "with grammar files of the same names" if "decoy" in w else w),
               {}, o, dict(l, PYTHONHASHSEED=s), w)
    for o in opts:
        for flags in (("-X", "dev"), ("-b",), ("-bb",), ("-B",), ("-s", "-E"), ("-I",), ("-X", "utf8=0"), ("-X", "importtime"), ("-u",), ("-X", "no_debug_ranges"), ("-X", "frozen_modules=off"), ("-X", "faulthandler"), ("-X", "int_max_str_digits=640")):
            yield "options %s" % " ".join(o + flags), {}, o + flags, {}, "/"
        for spec in ({"warnings": True}, {"gc": "off"}, {"gc": "always"}, {"thread": True}, {"async": True}, {"traced": True}, {"deep": 300}, {"touch": True},
                     {"chdir": os.path.join(tmp, "decoy"), "first": ("pylogics_modalities.parsers",)}, {"chdir": tmp}):
            yield "options %s, %s" % (" ".join(o) or "none", {k: v for k, v in spec.items() if k != "chdir"} or "directory changed"), spec, o, {}, "/"
        for spec in ({"argv": []}, {"argv": ["prog", "-v", "--debug", "a", "b"]}, {"streams": "none"}, {"streams": "closed"}, {"streams": "terminal"}, {"streams": "text"}, {"umask": 0o777},
                     {"limit": 30000}, {"bare": True}, {"script": os.path.join(tmp, "child.py")}, *({"clock": c} for c in CLOCKS)):
            yield "options %s, %s" % (" ".join(o) or "none", {k: v for k, v in spec.items() if k != "script"} or "run as a script"), spec, o, {}, "/"
        # the library at other places: a path with blanks and non-ASCII letters, a relative path, a symbolic link
        yield "options %s, library in a directory with a strange name" % " ".join(o), {"repo": os.path.join(tmp, "ein ort %s \u00e9#1")}, o, {"LC_ALL": "C.UTF-8"}, "/"
        yield "options %s, library reached through a symbolic link" % " ".join(o), {"repo": os.path.join(tmp, "link")}, o, {}, "/"
        yield "options %s, library on a relative path" % " ".join(o), {"repo": "link"}, o, {}, tmp


def environments(reads):
    """Every variable the library was seen to read, at every kind of value."""
    for k in sorted(reads):
        for v in ("", "0", "1", "2", "true", "True", "false", "yes", "on", "off", "debug", "strict", "x", "/nonexistent"):
            yield "the environment variable %s=%r" % (k, v), {}, (), {k: v}, "/"


def prepare(tmp):
    with open(os.path.join(tmp, "child.py"), "w") as f:
        f.write(CHILD)
    repo = os.environ.get("MC_REPO", "/repo")
    os.mkdir(os.path.join(tmp, "decoy"))
    pk = os.path.join(repo, "pylogics_modalities")
    for root, _, files in os.walk(pk):
        for f in files:
            if f.endswith(".lark"):  # same name, another language
                for d in ("decoy", os.path.join("decoy", "parsers")):
                    os.makedirs(os.path.join(tmp, d), exist_ok=True)
                    with open(os.path.join(tmp, d, f), "w") as out:
                        out.write('start: "decoy"\n')
    far = os.path.join(tmp, "ein ort %s \u00e9#1")
    shutil.copytree(pk, os.path.join(far, "pylogics_modalities"), ignore=shutil.ignore_patterns("__pycache__"))
    os.symlink(repo, os.path.join(tmp, "link"))


def modules():
    """Every module of the library."""
    import importlib
    import pkgutil

    pkg = importlib.import_module("pylogics_modalities")
    return sorted(["pylogics_modalities"] + [m.name for m in pkgutil.walk_packages(pkg.__path__, "pylogics_modalities.")])


# ---- import orders: a process that has not imported the library, forked once per order ------------------
ZYGOTE = r"""
import sys, os, pickle, base64, itertools, importlib, hashlib
import lark, asyncio, tempfile, subprocess, shutil, unittest.mock, concurrent.futures
spec = pickle.loads(base64.b64decode(sys.stdin.buffer.read()))
sys.path[:0] = [spec["repo"], spec["verif"]]
sys.setrecursionlimit(4000)
assert not any(m.startswith("pylogics_modalities") for m in sys.modules)
bad = []
for order in spec["orders"]:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            for m in order:
                importlib.import_module(m)
            from mc.checks import c24
            res = c24.results(spec)
            got = {k: hashlib.sha256(repr(v).encode()).digest()[:8] for k, v in res.items()}
            diff = [k for k in (got if spec["light"] else spec["want"]) if got.get(k) != spec["want"].get(k)]
            out = (diff[:1], repr(res.get(diff[0]))[:300]) if diff else None
        except BaseException as e:
            out = ("import", type(e).__name__ + ": " + str(e)[:300])
        with os.fdopen(w, "wb") as f:
            pickle.dump(out, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    out = pickle.loads(data) if data else ("process", "died")
    if out:
        bad.append((order, out))
        break
sys.stdout.buffer.write(b"RESULT" + base64.b64encode(pickle.dumps(bad)) + b"END")
sys.stdout.buffer.flush()
"""


def import_orders(mods, quick):
    names = [m for m in mods if m != "pylogics_modalities"]
    for a in mods:
        yield (a,)
    for a, b in itertools.permutations(names, 2):
        yield (a, b)
    for k in range(len(names)):  # everything, from every starting point, in both directions
        rot = names[k:] + names[:k]
        yield tuple(rot)
        yield tuple(rot[::-1])
    if not quick:
        leaves = [m for m in names if not any(o.startswith(m + ".") for o in names)]
        yield from itertools.permutations(leaves, 3)


def run_zygote(orders, want, light):
    spec = {"repo": os.environ.get("MC_REPO", "/repo"), "verif": VERIF, "orders": orders, "want": want, "light": light}
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e["PYTHONHASHSEED"] = "0"
    if os.environ.get("MC_CACHE"):
        e["PYTHONPYCACHEPREFIX"] = os.environ["MC_CACHE"]
    r = subprocess.run([sys.executable, "-c", ZYGOTE], input=base64.b64encode(pickle.dumps(spec)), env=e, cwd="/", capture_output=True, timeout=3600)
    i, j = r.stdout.find(b"RESULT"), r.stdout.find(b"END")
    if i < 0:
        return [(orders[:1], ("process", r.stderr[-800:].decode("utf-8", "replace")))]
    return pickle.loads(base64.b64decode(r.stdout[i + 6:j]))


def run(check):
    import hashlib

    want, err = launch({})
    reads = set()
    launch({"record": True}, reads=reads)
    if want is None:
        raise Violation("the calls fail to run in a plain interpreter: %s" % err)
    check.note("calls", len(want))
    ok = sum(v[0] == "ok" for v in want.values())
    check.note("calls_that_succeed", ok)
    with tempfile.TemporaryDirectory() as tmp:
        prepare(tmp)
        confs = list(configurations(check.quick, tmp)) + list(environments(reads))
        check.note("environment_variables_read_by_the_library", len(reads))
        check.note("configurations", len(confs))

        def one(conf):
            if check.violations:
                return
            label, spec, flags, env, cwd = conf
            got, err = launch(spec, flags, env, cwd)
            check.states += 1
            if got is None:
                check.violation("with %s the library cannot be used: %s" % (label, err[-600:]), configuration=label)
                return
            check.transitions += len(got)
            check.traces += 1
            for k in want:
                if got.get(k) != want[k]:
                    check.violation("with %s, call %s gives %r; in a plain interpreter it gives %r" % (label, k, got.get(k), want[k]), configuration=label, call=k)
                    return

        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, confs))
        for c in confs[:2]:
            check.sample(c[0])
        if check.violations:
            return
        mods = modules()
        orders = list(dict.fromkeys(import_orders(mods, check.quick)))
        check.note("modules", len(mods))
        check.note("import_orders", len(orders))
        digest = {k: hashlib.sha256(repr(v).encode()).digest()[:8] for k, v in want.items()}
        with ThreadPoolExecutor(NPROC) as ex:
            for part, bad in zip(chunked(orders, 64), ex.map(lambda o: run_zygote(o, digest, check.quick), chunked(orders, 64))):
                check.states += len(part)
                check.traces += len(part)
                for order, (what, detail) in bad:
                    check.violation("after importing %s in this order: %s: %s" % (", ".join(order), what, detail), order=order)
        check.sample(orders[-1])
