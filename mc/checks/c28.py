"""C28: a call interrupted at any point (or out of stack at any depth) leaves everything consistent."""
import copy
import pickle
import sys

from pylogics_modalities.semantics.pl import evaluate_pl
from pylogics_modalities.syntax import base as B_
from pylogics_modalities.syntax import fol as F
from pylogics_modalities.syntax import ldl as D
from pylogics_modalities.syntax import ltl as LT
from pylogics_modalities.syntax import pltl as PT
from pylogics_modalities.syntax.base import get_cache_context, reset_cache
from pylogics_modalities.utils.to_string import to_string

from mc import nd
from mc import sched
from mc import space as S
from mc import terms as T
from mc.checks import c21
from mc.core import Violation, chunked
from mc.sched import PKG

ASSUMPTIONS = ["an interruption is an exception raised before a statement (thorough: also before a bytecode) of the library, as a signal handler raises it, or lack of stack",
               "interruptions inside Lark, pickle and the interpreter and during the import of the library are not explored"]

MON = sys.monitoring
TOOL = 4
AT = {"count": 0, "stop": None, "exc": None}


class Interrupt(KeyboardInterrupt):
    pass


def event(code, *_):
    if not code.co_filename.startswith(PKG):
        return MON.DISABLE
    AT["count"] += 1
    if AT["count"] == AT["stop"]:
        raise AT["exc"]()


def injected(fn, stop, exc=Interrupt, fine=False):
    """Run fn with an exception before its stop-th step: ('ok', value) / ('interrupted',) / ('err', type), number of steps."""
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "faults")
        for e in (MON.events.PY_START, MON.events.LINE, MON.events.INSTRUCTION):
            MON.register_callback(TOOL, e, event)
    AT.update(count=0, stop=stop, exc=exc)
    MON.set_events(TOOL, MON.events.INSTRUCTION if fine else MON.events.PY_START | MON.events.LINE)
    try:
        r = ("ok", fn())
    except Interrupt:
        r = ("interrupted",)
    except Exception as e:
        r = ("err", type(e).__name__)
    finally:
        MON.set_events(TOOL, 0)
    return r, AT["count"]


# ---- operations: (name, preparation, operation, what to compare) ------------------------------------------
A, B, C = S.A, S.Bq, S.C
X, P = c21.x, c21.P
MAIN = {"pl": ("or", ("and", A, ("not", B)), ("imp", B, C)), "ltl": ("U", ("X", A), ("and", ("F", B), C)), "pltl": ("S", ("not", A), ("or", ("O", B), C)),
        "ldl": ("dia", ("seq", ("star", ("prop", A)), ("test", S.BOX)), ("and", S.DIA, ("not", S.BOX))), "re": ("union", ("prop", A), ("star", ("prop", B))),
        "fol": ("forall", X, ("or", ("not", P(X)), ("exists", c21.y, ("pred", "R", X, c21.y))))}
SECOND = {"pl": ("and", C, A), "ltl": ("G", A), "pltl": ("H", A), "ldl": S.BOX, "re": ("seq", ("prop", B), ("prop", A)), "fol": ("and", P(c21.c), ("pred", "Q"))}
GOOD = {"pl": "a & b | !(c -> a)", "ltl": "X a U (b & last)", "pltl": "Y a S b | start", "ldl": "<a;b*>tt & ![tt?]end"}
WRONG = {"pl": "a & (b | ) c", "ltl": "a U", "pltl": "(a S b", "ldl": "<a;b>tt &"}


def see(v):
    if isinstance(v, B_.Formula):
        return ("formula", T.read_logic(v), str(v))
    if isinstance(v, F.Term):
        return ("term", T.read_term(v))
    if isinstance(v, (list, tuple)):
        return tuple(see(x) for x in v)
    if isinstance(v, bytes):
        return see(pickle.loads(v))
    return v


def ops():
    for lg, t in MAIN.items():
        one = lambda lg=lg, t=t: (T.build(t, lg),)
        two = lambda lg=lg, t=t: (T.build(t, lg), T.build(SECOND[lg], lg))
        yield "build " + lg, lambda: (), lambda t=t, lg=lg: T.build(t, lg)
        yield "hash " + lg, lambda one=one: (copy.deepcopy(one()[0]),), lambda f: hash(f) == hash(f)
        yield "compare " + lg, lambda one=one: one() + one(), lambda f, g: (f == g, g != f, f in {g})
        yield "texts " + lg, one, lambda f: (str(f), len(repr(f)))
        yield "pickle " + lg, one, lambda f: pickle.dumps(f)
        yield "unpickle " + lg, lambda one=one: (pickle.dumps(one()[0]),), lambda s: pickle.loads(s)
        yield "copy " + lg, one, lambda f: (copy.copy(f), copy.deepcopy(f))
        if lg != "re":
            yield "combine " + lg, two, lambda f, g: (f & g, f | g, ~f, f >> g, B_.Implies(f, g, f), B_.Equivalence(f, g), B_.And(f, g, ~f), B_.Or(f & g, g | f))
        if lg not in ("re", "fol"):
            yield "print " + lg, one, to_string
            yield "parse " + lg, lambda: (), lambda lg=lg: c21.PARSE[lg](GOOD[lg])
            yield "parse wrong " + lg, lambda: (), lambda lg=lg: c21.PARSE[lg](WRONG[lg])
    yield "evaluate", lambda: (T.build(MAIN["pl"], "pl"),), lambda f: [evaluate_pl(f, s) for s in ({"a"}, {"a": True, "b": True}, set())]
    at = lambda m: m.Atomic("a")
    yield "ltl operators", lambda: (at(LT), LT.Atomic("b")), lambda f, g: [LT.Until(f, g), LT.Release(f, g), LT.WeakUntil(f, g), LT.StrongRelease(f, g), LT.Next(f), LT.WeakNext(f), LT.Always(f), LT.Eventually(g), LT.Last()]
    yield "pltl operators", lambda: (at(PT), PT.Atomic("b")), lambda f, g: [PT.Since(f, g), PT.Triggers(f, g), PT.Before(f), PT.WeakBefore(f), PT.Once(f), PT.Historically(g), PT.Start()]
    yield "refusals", lambda: (T.build(A, "pl"), T.build(A, "ltl")), lambda f, g: [c21.attempt(lambda: f & g)[0], c21.attempt(lambda: LT.Until(f, f))[0], c21.attempt(lambda: B_.And())[0], c21.attempt(lambda: LT.Atomic("A"))[0]]
    for name, items, lg in (("prop", c21.PROOF, "pl"), ("fol", c21.FPROOF, "fol"), ("wrong", c21.PROOF[1:], "pl"), ("wrong fol", c21.FPROOF[1:], "fol"),
                            ("box", (nd.L(1, A, "premise"), nd.Bx(2, None, nd.L(2, B, "assumption"), nd.L(3, A, "copy", 1)), nd.L(4, nd.imp(B, A), "impl_i", 2), nd.L(5, ("or", A, C), "or_i1", 1)), "pl")):
        yield "build proof " + name, lambda items=items, lg=lg: (nd.flat(items, lg, fresh=True),), lambda fl: len(nd.ND.Proof(fl))
        yield "check " + name, lambda items=items, lg=lg: (nd.ND.Proof(nd.flat(items, lg, fresh=True)),), nd.ND.check
    yield "reset", lambda: (T.build(MAIN["pl"], "pl"),), lambda f: reset_cache()
    yield "reset and build", lambda: (T.build(MAIN["ltl"], "ltl"),), lambda f: (reset_cache(), T.build(MAIN["ltl"], "ltl"))[1]


OPS = list(ops())
COLD = [i for i, o in enumerate(OPS) if o[0].split()[0] in ("parse", "evaluate", "print", "check", "refusals") or o[0] in ("build pl", "build ldl", "build fol", "pickle pl", "hash ltl", "combine pl")]


def probe_values():
    """Short calls in every part of the library."""
    return [see(c21.PARSE[lg](s)) for lg, s in (("pl", "b | !a"), ("ltl", "b U a"), ("pltl", "b S a"), ("ldl", "<b>tt"))] + \
        [to_string(T.build(SECOND[lg], lg)) for lg in ("pl", "ltl", "pltl", "ldl")] + [evaluate_pl(T.build(SECOND["pl"], "pl"), {"a", "c"}), see(T.build(("and", B, A), "ltl")), str(T.build(SECOND["fol"], "fol")),
         c21.attempt(lambda: T.build(A, "pl") & T.build(A, "ltl"))[0], nd.ND.check(nd.ND.Proof(nd.flat((nd.L(1, A, "premise"), nd.L(2, ("or", A, B), "or_i1", 1)), "pl", fresh=True))),
         nd.ND.check(nd.ND.Proof(nd.flat((nd.L(1, A, "premise"), nd.L(2, B, "copy", 1)), "pl", fresh=True))), hash(T.build(A, "pl")) == hash(T.build(A, "pl")), pickle.loads(pickle.dumps(T.build(A, "pl"))) == T.build(A, "pl")]


def registry(where):
    for lg, entries in get_cache_context().items():
        seen = set()
        for f in list(entries):
            if f.logic != lg:
                raise Violation("%s: %r is registered under %s" % (where, f, lg))
            k = T.canon(T.read(f))
            if k in seen:
                raise Violation("%s: %r has two entries" % (where, k))
            seen.add(k)
            if f not in entries:
                raise Violation("%s: the registry does not find its own entry %r" % (where, k))


def snapshot(args):
    return [(see(x), hash(x)) if isinstance(x, (B_.Formula, F.Term)) else repr_flat(x) if isinstance(x, list) else see(x) for x in args]


def repr_flat(x):
    return tuple(repr_flat(v) if isinstance(v, (list, tuple)) else str(v) for v in x)


def entries():
    return {lg: {id(f): f for f in d} for lg, d in get_cache_context().items()}


def aftermath(i, args, before, want, probes, where, registered):
    """Everything after an interruption: arguments as before, registry consistent, the call repeated gives its result, other calls too."""
    name, prep, op = OPS[i]
    if not name.startswith("reset"):
        now = entries()
        for lg, fs in registered.items():
            for k in fs:
                if k not in now.get(lg, ()):
                    raise Violation("%s: the registry has lost %r" % (where, fs[k]))
    after = snapshot(args)
    if after != before:
        raise Violation("%s: an argument changed: %r instead of %r" % (where, after, before))
    registry(where)
    for again in range(2):
        r = outcome(lambda: op(*args) if again == 0 and name not in ("reset",) else op(*prep()))
        if r != want:
            raise Violation("%s: the same call then gives %r instead of %r" % (where, r, want))
    got = probe_values()
    if got != probes:
        k = next(k for k in range(len(probes)) if got[k] != probes[k])
        raise Violation("%s: another call then gives %r instead of %r" % (where, got[k], probes[k]))
    registry(where)


def outcome(fn):
    try:
        return "ok", see(fn())
    except Exception as e:
        return "err", type(e).__name__


def plain(i):
    """What the call gives without interruption, its number of steps, and what the probes give."""
    reset_cache()
    name, prep, op = OPS[i]
    return outcome(lambda: op(*prep())), probe_values()


def one(i, stop, exc, fine, want, probes, second=None):
    reset_cache()
    name, prep, op = OPS[i]
    args = prep()
    before = snapshot(args) if name != "hash " + name[5:] else None
    if before is None:  # the arguments have to stay without a hash: compare with a twin
        before = snapshot(prep())
    registered = entries()
    r, n = injected(lambda: op(*args), stop, exc, fine)
    where = "%s interrupted at step %d (%s)" % (name, stop, exc.__name__)
    if r[0] == "ok" and exc is Interrupt and n >= stop:
        v = ("ok", see(r[1]))
        if v != want:
            raise Violation("%s returns %r instead of %r" % (where, v, want))
    if second is not None:
        injected(lambda: op(*args), second, exc, fine)
        where += " and then at step %d" % second
    aftermath(i, args, before, want, probes, where, registered)
    return n < stop


def steps(i, fine):
    reset_cache()
    name, prep, op = OPS[i]
    args = prep()
    return injected(lambda: op(*args), None, Interrupt, fine)[1]


def down(n, fn):
    return down(n - 1, fn) if n else fn()


def starve(i, part, want, probes):
    """The call with every possible amount of stack, from too little to enough."""
    name, prep, op = OPS[i]
    depth, f = 0, sys._getframe()
    while f is not None:
        depth, f = depth + 1, f.f_back
    limit = sys.getrecursionlimit()
    misses = 0
    for room in range(6, 400):
        reset_cache()
        args = prep()
        before = snapshot(prep()) if name.startswith("hash") else snapshot(args)
        registered = entries()
        part.states += 1
        part.transitions += 1
        try:
            sys.setrecursionlimit(depth + room)
        except RecursionError:
            continue
        try:
            r = ("ok", op(*args))
        except RecursionError:
            r = ("starved",)
        except Exception as e:
            r = ("err", type(e).__name__)
        finally:
            sys.setrecursionlimit(limit)
        where = "%s with room for %d calls" % (name, room)
        if r[0] == "ok":
            v = ("ok", see(r[1]))
            if v != want and not name.startswith("check") and "refusals" not in name:
                raise Violation("%s returns %r instead of %r" % (where, v, want))
        aftermath(i, args, before, want, probes, where, registered)
        part.traces += 1
        misses = misses + 1 if r[0] != "starved" else 0
        if misses > 12:
            break


def work(chunk, part):
    for kind, i, lo, hi, exc, fine in chunk:
        name = OPS[i][0]
        want, probes = plain(i) if kind != "cold" else sched.forked(lambda: plain(i))
        if kind == "starved":
            starve(i, part, want, probes)
            continue
        n = steps(i, fine) if kind != "cold" else sched.forked(lambda: steps(i, fine))
        ks = range(1, n + 1)[lo::hi]
        for k in ks:
            part.states += 1
            part.transitions += 1
            if kind == "cold":
                bad = sched.forked(lambda: captured(lambda: one(i, k, exc, fine, want, probes)))
                if bad:
                    raise Violation("in a fresh process, " + bad, operation=name, step=k)
            elif kind == "twice":
                for m in range(1, n + 1, max(1, n // 60)):
                    part.states += 1
                    one(i, k, exc, fine, want, probes, m)
            else:
                one(i, k, exc, fine, want, probes)
            part.traces += 1
        part.count("points", len(ks))
    part.sample([chunk[-1][0], OPS[chunk[-1][1]][0]])


def captured(fn):
    try:
        fn()
    except Violation as e:
        return e.what
    return None


def run(check):
    q = check.quick
    todo = []
    idx = range(len(OPS))
    todo += [("cold", i, k, 8, Interrupt, False) for i in COLD for k in range(8)]
    todo += [("warm", i, k, 2, Interrupt, False) for i in idx for k in range(2)]
    todo += [("warm", i, k, 2, MemoryError, False) for i in idx for k in range(2)] if not q else []
    todo += [("starved", i, 0, 1, None, False) for i in idx]
    if not q:
        todo += [("warm", i, k, 8, Interrupt, True) for i in idx for k in range(8)]
        todo += [("twice", i, k, 16, Interrupt, False) for i in idx for k in range(16)]
    check.note("operations", len(OPS))
    check.note("operations_in_fresh_processes", len(COLD))
    import random

    random.Random(0).shuffle(todo)  # even load only
    check.run_parallel(work, chunked(todo, 160))
