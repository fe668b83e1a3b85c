"""C20: all interleavings of two or three threads up to a preemption bound, on the real code under a controlled scheduler."""
import copy
import functools
import itertools
import pickle

from pylogics_modalities.parsers import parse_ldl, parse_ltl, parse_pl, parse_pltl
from pylogics_modalities.semantics.base import base_semantics
from pylogics_modalities.semantics.pl import evaluate_pl
from pylogics_modalities.syntax.base import get_cache_context, reset_cache
from pylogics_modalities.utils.to_string import to_string

from mc import nd
from mc import sched
from mc import space as S
from mc import terms as T
from mc.core import Violation, chunked
from mc.nd import V, Bx, L

ASSUMPTIONS = ["threads are switched at statement (or bytecode) boundaries of the library; code of other packages runs atomically"]
A, B, C = S.A, S.Bq, S.C
x, y = V["x"], V["y"]
P = lambda *t: ("pred", "P") + t
PL1 = ("and", A, ("not", B))
PL2 = ("or", B, A)
LTL1 = ("U", A, ("X", ("not", B)))
PLTL1 = ("S", A, ("not", ("Y", B)))
LDL1 = ("dia", ("star", ("prop", A)), ("true",))
FOL1 = ("forall", x, P(("fun", "f", x)))
PROOF = (L(1, A, "premise"), Bx(2, None, L(2, B, "assumption"), L(3, A, "copy", 1)), L(4, nd.imp(B, A), "impl_i", 2))
FPROOF2 = (L(1, ("forall", y, ("pred", "Q", y, ("fun", "g", x))), "premise"), L(2, ("pred", "Q", ("fun", "f", V["z"]), ("fun", "g", x)), "forall_e", 1),
           L(3, ("exists", x, ("pred", "Q", ("fun", "f", V["z"]), ("fun", "g", x))), "exists_i", 2))
FPROOF3 = (L(1, ("forall", y, ("pred", "Q", y)), "premise"), Bx(2, x, L(2, ("pred", "Q", x), "forall_e", 1)), L(3, ("forall", y, ("pred", "Q", y)), "forall_i", 2))
EVAL = ("or", ("and", A, ("not", B)), ("iff", B, C), ("imp", A, C))
FPROOF = (L(1, ("forall", x, P(x)), "premise"), Bx(2, y, L(2, P(y), "forall_e", 1)), L(3, ("forall", x, P(x)), "forall_i", 2))


# A body is (call, read): the call runs under the scheduler, what it returned is read afterwards.
def built(t, logic):
    def read(f):
        g = T.build(t, logic)
        return T.read(f), f == g, hash(f) == hash(g), str(f), f in {g: 1}

    return lambda sh: T.build(t, logic), read


def parsed(fn, text):
    def call(sh):
        try:
            return fn(text)
        except Exception as e:
            return e

    return call, lambda f: ("refused", type(f).__name__) if isinstance(f, Exception) else (T.read(f), to_string(f), hash(f) == hash(fn(text)))


def shared(fn):
    return fn, lambda r: r


def pickled(key):
    return lambda sh: (sh[key], pickle.loads(pickle.dumps(sh[key]))), lambda r: (T.read(r[1]), r[1] == r[0], hash(r[0]) == hash(r[1]))


def copying(sh):
    return sh["pl"], copy.copy(sh["pl"]), copy.deepcopy(sh["ltl"])


def copied(r):
    f, g, h = r
    return T.read(g), T.read(h), g == f, hash(g) == hash(f), hash(h) == hash(T.build(LTL1, "ltl"))


def resetting(sh):
    reset_cache()
    return T.build(A, "pl")


def keyed(f, model):
    return f.name in model if hasattr(f, "name") else base_semantics(f, keyed, model=model)


BODIES = {
    "build pl": built(PL1, "pl"), "build pl 2": built(PL2, "pl"), "build ltl": built(LTL1, "ltl"), "build pltl": built(PLTL1, "pltl"),
    "build ldl": built(LDL1, "ldl"), "build fol": built(FOL1, "fol"), "build atom": built(A, "pl"), "build not": built(("not", A), "pl"),
    "parse pl": parsed(parse_pl, "a & !b"), "parse pl 2": parsed(parse_pl, "!c -> d"), "parse ltl": parsed(parse_ltl, "a U X[!] !b"),
    "parse pltl": parsed(parse_pltl, "a S !(Y b)"),
    "parse ldl": parsed(parse_ldl, "<a;b*>tt"), "parse ldl 2": parsed(parse_ldl, "[<c>tt?+d]ff"), "parse bad": parsed(parse_pl, "a & & b"), "parse bad ldl": parsed(parse_ldl, "<a>(tt"),
    "reset": (resetting, T.read),
    "hash": shared(lambda s: (hash(s["pl"]) == hash(s["pl2"]), hash(s["pl"]) == hash(s["pl"]), s["pl"] == s["pl2"], s["pl"] in {s["pl2"]})),
    "hash fol": shared(lambda s: (hash(s["fol"]) == hash(s["fol2"]), s["fol"] == s["fol2"], s["fol"] in {s["fol2"]})),
    "print": shared(lambda s: (to_string(s["pl"]), to_string(s["ltl"]), to_string(s["ldl"]), str(s["fol"]))),
    "evaluate": shared(lambda s: [evaluate_pl(s["pl"], i) for i in ({"a", "b"}, {"a"}, {"b"}, set(), {"a": True, "b": False})]),
    "evaluate 2": shared(lambda s: [evaluate_pl(s["eval"], i) for i in ({"b": True}, {"a", "c"}, {"a"})]),
    "evaluate 3": shared(lambda s: [evaluate_pl(s["eval"], i) for i in ({"a": True, "b": True}, {"b", "c"}, set())]),
    "evaluate kw": shared(lambda s: base_semantics(s["eval"], keyed, model={"a", "b"})), "evaluate kw 2": shared(lambda s: base_semantics(s["eval"], keyed, model={"a"})),
    "print 2": shared(lambda s: (to_string(s["eval"]), repr(s["ldl"]), str(s["ltl"]), str(s["pl"]))), "fol proof 3": shared(lambda s: nd.check(FPROOF3, "fol")), "build pltl 2": built(("O", ("not", C)), "pltl"), "build re": built(("seq", ("prop", C), ("prop", B)), "re"),
    "build re 2": built(("star", ("prop", C)), "re"), "fol proof 2": shared(lambda s: nd.check(FPROOF2, "fol")),
    "pickle": pickled("pl"), "pickle ldl": pickled("ldl"), "copy": (copying, copied),
    "proof": shared(lambda s: nd.check(PROOF, "pl")), "shared proof": shared(lambda s: nd.ND.check(s["proof"])),
    "fol proof": shared(lambda s: nd.check(FPROOF, "fol")), "rejected proof": shared(lambda s: nd.check(PROOF[:-1] + (L(4, A, "neg_i", 2),), "pl")),
}


# very short calls on one shared formula, for schedules with more preemptions
def micro(key):
    t, logic = {"atom": (A, "pl"), "fresh": (A, "pl"), "dia": (LDL1, "ldl"), "term": (FOL1, "fol")}[key]
    same = lambda g: (T.read(g), T.read(g) == T.norm(t), hash(g) == hash(T.build(t, logic)), g == T.build(t, logic), str(g))
    return {
        key + " hash": (lambda sh: (sh[key], hash(sh[key])), lambda r: r[1] == hash(T.build(t, logic)) == hash(r[0])),
        key + " dump": (lambda sh: pickle.dumps(sh[key]), lambda r: (same(pickle.loads(r)), b"__hash" in r)),
        key + " load": (lambda sh: pickle.loads(sh[key + "!"]), same),
        key + " copy": (lambda sh: copy.copy(sh[key]), same),
        key + " eq": (lambda sh: (sh[key] == sh[key + "2"], sh[key] != sh[key + "2"], sh[key + "2"] == sh[key]), lambda r: r),
        key + " str": (lambda sh: (str(sh[key]), sh[key].logic.value), lambda r: r),
        key + " negate": (lambda sh: ~sh[key], lambda f: (T.read(f), hash(f) == hash(T.build(("not", t), logic)))),
        key + " state": (lambda sh: sh[key].__getstate__(), lambda d: True),
        key + " in": (lambda sh: sh[key] in {sh[key + "2"]: 1}, lambda r: r),
    }


for _k in ("atom", "fresh", "dia", "term"):
    BODIES.update(micro(_k))
BODIES["reset only"] = (lambda sh: reset_cache(), lambda r: r)
MICRO = {k: [n for n in BODIES if n.startswith(k + " ")] for k in ("atom", "fresh", "dia", "term")}


def scenario(names):
    def setup():
        nd.lib.cache_clear()
        reset_cache()
        sh = {"pl": T.build(PL1, "pl"), "ltl": T.build(LTL1, "ltl"), "ldl": T.build(LDL1, "ldl"), "fol": T.build(FOL1, "fol"), "eval": T.build(EVAL, "pl"),
              "proof": nd.ND.Proof(nd.flat(FPROOF, "fol"))}
        T_pl = pickle.loads(pickle.dumps(sh["pl"]))
        sh["pl2"], sh["fol2"] = T_pl, pickle.loads(pickle.dumps(sh["fol"]))
        if any(n.split()[0] in MICRO for n in names):
            again = lambda f: pickle.loads(pickle.dumps(f))
            sh["atom"], sh["dia"], sh["term"] = T.build(A, "pl"), sh["ldl"], sh["fol"]
            for k in ("atom", "dia", "term"):
                hash(sh[k])
                sh[k + "!"] = pickle.dumps(sh[k])
                sh[k + "2"] = again(sh[k])
            # neither hashed nor registered
            sh["fresh"], sh["fresh!"], sh["fresh2"] = again(sh["atom"]), sh["atom!"], again(sh["atom"])
        return [lambda n=n: BODIES[n][0](sh) for n in names], lambda results: finish(names, results, sh)
    return setup


def finish(names, results, sh):
    """Read the results (no other thread runs any more); (results, complaint)."""
    order = [(logic.value, [str(f) for f in entries]) for logic, entries in list(get_cache_context().items())]
    bad, held = consistent(sh)
    out = []
    for n, r in zip(names, results):
        try:
            out.append(("ok", BODIES[n][1](r[1])) if r[0] == "ok" else r)
        except Exception as e:
            out.append(("err", "unreadable result", type(e).__name__, str(e)[:200]))
    # what is registered; and something that tells interleavings apart (evidence only)
    return out + [held, hash(repr(order))], bad


def consistent(sh):
    """None, or what is wrong with the registry, and what it holds; then everything still works."""
    held = frozenset((logic.value, repr(T.canon(T.read(f)))) for logic, entries in list(get_cache_context().items()) for f in list(entries))
    return wrong(sh), held


def wrong(sh):
    for logic, entries in list(get_cache_context().items()):
        seen = {}
        for f in list(entries):
            if f.logic != logic:
                return "%r is registered under %s" % (T.read(f), logic)
            k = T.canon(T.read(f))
            if k in seen and len(T._TAG) and logic.value != "re":
                return "%r has two entries" % (k,)
            seen[k] = f
            if f not in entries:
                return "%r is registered under a stale hash" % (k,)
    for key, t in (("pl", PL1), ("ltl", LTL1), ("ldl", LDL1), ("fol", FOL1)):
        if T.read(sh[key]) != T.norm(t) or not (T.build(t, key) == sh[key]):
            return "the shared formula %r changed" % (t,)
    if hash(sh["pl"]) != hash(T.build(PL1, "pl")):
        return "the hash of a shared formula is wrong"
    for logic, t in (("pl", A), ("pl", PL2), ("fol", FOL1)):
        f = T.build(t, logic)
        if f not in get_cache_context()[f.logic]:
            return "%r is not registered after it is built" % (t,)
    return None


@functools.lru_cache(maxsize=None)
def holds(name):
    """What is registered after the call ran alone, whether or not it was the first one in the process."""
    def go():
        return [sched.execute(scenario((name,)), (0,), {}, False, False)["results"][-2] for _ in range(2)]

    one, two = sched.forked(go)
    return one & two


def complaint(names, alone, res):
    """What is wrong with a finished schedule, or None."""
    if not res["ok"]:
        return "threads %s never finish" % (names,)
    for n, a, r in zip(names, alone, res["results"]):
        if r != a:
            return "%r returns %r when interleaved with %s, and %r alone" % (n, r[:3], [m for m in names if m != n] or names, a)
    if not any(n.startswith("reset") for n in names):
        lost = set().union(*[holds(n) for n in names]) - res["results"][-2]
        if lost:
            return "after the interleaving of %s formulas that were built are not registered, such as %s" % (names, sorted(lost)[0])
    if res["post"]:
        return "after the interleaving %s: %s" % (names, res["post"])
    return None


def work(chunk, part):
    for names, order, bound, fine, first, cold in chunk:
        alone = [sched.execute(scenario((n,)), (0,), {}, fine)["results"][0] for n in names]
        # what the calls return must itself be right, so that a consistently wrong answer is not a reference
        for n, a in zip(names, alone):
            if a[0] != "ok":
                raise Violation("the call %r fails when run alone: %s" % (n, a[1:3]), names=names)

        outcomes = set()

        def visit(preempt, res):
            part.states += 1
            part.transitions += res["steps"]
            part.traces += 1
            bad = complaint(names, alone, res)
            if res["ok"]:
                outcomes.add(res["results"][-1])
            if bad:
                # replay the recorded schedule twice, in fresh processes
                again = [complaint(names, alone, sched.execute(scenario(names), order, preempt, fine)) for _ in range(2)]
                if not res["ok"] and not all(again):
                    part.count("stalled_schedules_not_reproduced")
                    return
                raise Violation(bad, threads=names, order=order, preemptions=preempt, at=res["where"], granularity="bytecode" if fine else "line", fresh_process=cold,
                                replayed_twice_in_fresh_processes=again)

        sched.explore(scenario(names), len(names), order, bound, fine, visit, first, cold)
        part.count("explorations")
        part.count("distinct_registry_histories", len(outcomes))
    part.sample([chunk[0][0], chunk[0][1], chunk[0][2]])


def split(names, bound, fine=False, cold=False, parts=1):
    n = len(names)
    for order in itertools.permutations(range(n)):
        if any(names[i] == names[j] and i < j and order.index(i) > order.index(j) for i in range(n) for j in range(n)):
            continue  # the same up to renaming threads
        if parts == 1:
            yield (names, order, bound, fine, None, cold)
        else:
            k = sched.execute(scenario(names), order, {}, fine)["steps"]
            for p in range(parts):
                yield (names, order, bound, fine, frozenset(range(p, k + 1, parts)), cold)


CROSS = [("build pl", "build pl 2"), ("build pl", "parse pl"), ("build atom", "build not"), ("parse pl", "parse ldl"), ("parse ltl", "parse pltl"),
         ("parse ldl", "parse ldl 2"), ("parse bad", "parse pl"), ("parse bad ldl", "parse ldl"), ("hash", "pickle"), ("hash", "build pl"), ("print", "pickle ldl"), ("evaluate", "hash"),
         ("copy", "hash"), ("pickle", "build pl"), ("proof", "fol proof"), ("proof", "rejected proof"), ("hash fol", "build fol"), ("shared proof", "fol proof"), ("parse pl", "parse pl 2"),
         ("evaluate 2", "evaluate 3"), ("evaluate kw", "evaluate kw 2"), ("fol proof", "fol proof 2"), ("fol proof", "fol proof 3"), ("build pltl", "build pltl 2"), ("build re", "build re 2"), ("print", "print 2"), ("evaluate", "evaluate 2"),
         ("build ldl", "parse ldl"), ("build ltl", "build pltl"), ("evaluate", "build pl"), ("print", "copy")]
SHORT = [("build atom", "build atom"), ("build atom", "reset"), ("build atom", "build not"), ("build not", "reset"), ("hash", "hash"), ("build not", "build not"), ("hash", "reset"),
         ("hash", "pickle"), ("evaluate", "build atom"), ("hash", "build atom"), ("parse bad", "build atom"), ("pickle", "build atom"), ("copy", "build atom"), ("print", "build atom"),
         ("pickle", "pickle"), ("copy", "hash"), ("print", "print"), ("build pltl", "reset"), ("parse pltl", "reset")]
FINE = [("build atom", "build atom"), ("build atom", "reset"), ("hash", "hash"), ("build not", "reset"), ("hash fol", "hash fol"), ("pickle", "hash"), ("build not", "build not"), ("evaluate", "evaluate"),
        ("copy", "copy"), ("build pl", "reset"), ("hash", "reset"), ("build fol", "build fol"), ("build ldl", "reset"), ("parse pl", "reset"), ("parse pl", "parse pl"),
        ("parse ldl", "parse ldl 2"), ("parse ltl", "parse ltl"), ("shared proof", "shared proof"), ("fol proof", "fol proof")]
TRIPLES = [("build atom", "build not", "reset"), ("hash", "pickle", "reset"), ("build pl", "build pl 2", "reset"), ("hash", "hash", "hash"), ("parse pl", "build pl", "reset"),
           ("proof", "hash", "reset"), ("pickle", "copy", "hash")]


def run(check):
    q = check.quick
    todo = []
    names = [n for n in BODIES if n.split()[0] not in MICRO and n != "reset only"]
    pairs = [(n, n) for n in names] + [(n, "reset") for n in names if n != "reset"] + CROSS if q else list(itertools.combinations_with_replacement(names, 2))
    for p in pairs:
        todo += list(split(p, 1))
    check.note("pairs_with_one_preemption", len(pairs))
    # first use after import
    cold = [(n, n) for n in names if n in ("parse pltl", "parse bad", "build atom", "evaluate", "print", "pickle")] if q else [(n, n) for n in names] + CROSS
    for p in cold:
        todo += list(split(p, 1, cold=True, parts=1 if q else 4))
    check.note("pairs_in_fresh_processes", len(cold))
    deep = SHORT[:2] if q else SHORT
    for p in deep:
        todo += list(split(p, 2, parts=8 if q else 32))
    check.note("pairs_with_two_preemptions", len(deep))
    if not q:
        for p in SHORT[:2]:
            todo += list(split(p, 3, parts=64))
    check.note("pairs_with_three_preemptions", 0 if q else 2)
    # short calls on one formula: every pair with two preemptions
    tiny = []
    for k in MICRO:
        ns = MICRO[k] + ["reset only"]
        length = {n: sched.execute(scenario((n,)), (0,), {}, False)["steps"] for n in ns}
        tiny += [p for p in itertools.combinations_with_replacement(ns, 2) if p != ("reset only",) * 2 and length[p[0]] + length[p[1]] <= (30 if q else 150)]
    for p in tiny:
        todo += list(split(p, 2, parts=1 if q else 4))
        if not q and p[0].split()[0] in ("atom", "fresh"):
            todo += list(split(p, 1, True, parts=2))
    check.note("pairs_of_short_calls_with_two_preemptions", len(tiny))
    fine = FINE[:4] if q else FINE
    for p in fine:
        todo += list(split(p, 1, True, parts=4))
    check.note("pairs_at_bytecode_granularity", len(fine))
    triples = TRIPLES[:2] if q else TRIPLES
    for t in triples:
        todo += list(split(t, 1))
    if not q:
        for t in (("build atom", "build not", "reset"), ("build atom", "build atom", "build atom")):
            todo += list(split(t, 2, parts=8))
    check.note("triples", len(triples))
    import random

    random.Random(0).shuffle(todo)  # even load only
    check.run_parallel(work, chunked(todo, 400))
