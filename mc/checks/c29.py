"""C29: the library keeps nothing alive but through the cache context."""
import copy
import gc
import itertools
import pickle
import sys
import threading

from pylogics_modalities.deduction.fol.nd import NaturalDeduction as ND
from pylogics_modalities.deduction.fol.nd import NaturalDeductionProof
from pylogics_modalities.helpers import misc
from pylogics_modalities.parsers import parse_ldl, parse_ltl, parse_pl, parse_pltl
from pylogics_modalities.semantics.base import base_semantics
from pylogics_modalities.semantics.pl import evaluate_pl
from pylogics_modalities.syntax.base import get_cache_context, reset_cache
from pylogics_modalities.utils.to_string import to_string

from mc import nd
from mc import population as POP
from mc import sched
from mc import space as S
from mc import terms as T
from mc import text as X
from mc.checks import c17
from mc.core import Violation, chunked

ASSUMPTIONS = ["memory is reclaimed by the garbage collector of CPython; what every kind of call keeps after its first use (parsers, constants) is not counted"]
B, L, Y, D, F, P = T.B, T.L, T.Y, T.D, T.F, T.P
PARSE = {"pl": parse_pl, "ltl": parse_ltl, "pltl": parse_pltl, "ldl": parse_ldl}


# ---- what a caller may pass in, so that it can be found again -----------------------------------------
class Junk:
    pass


class List(list):
    pass


class Dict(dict):
    pass


class Set(set):
    pass


class Fn:
    def __init__(self, table):
        self.table = table

    def __call__(self, f, *args, **kw):
        return str(f) in self.table


WATCHED = (B.Formula, F.Term, NaturalDeductionProof, Junk, List, Dict, Set, Fn)


def alive():
    """Everything watched that was created since the last gc.freeze() and still exists."""
    gc.collect()
    return [o for o in gc.get_objects() if isinstance(o, WATCHED)]


def name(s, i):
    """The name for the i-th round: other symbols, same length."""
    return "v%05d%s" % (i, s) if s[:1].islower() or s[:1] == "_" else "V%05d%s" % (i, s) if s[:1].isupper() else '"v%05d%s' % (i, s[1:]) if s[:1] == '"' else s


def fresh(t, i):
    """The term over symbols that belong to the i-th round."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ("atom", "var", "fun", "pred", "const"):
        return (t[0], name(t[1], i)) + tuple(fresh(x, i) for x in t[2:])
    return tuple(fresh(x, i) for x in t)


ONLY = [None, 0]  # which of the calls of a group to make (None: all), how many there were so far


def always(fn):
    try:
        return fn()
    except Exception as e:
        return e


def attempt(fn):
    ONLY[1] += 1
    return always(fn) if ONLY[0] in (None, ONLY[1]) else None


# ---- the calls: (formula, other formula, term, logic) -> anything ---------------------------------------
def combine(f, g, t, l):
    return [attempt(x) for x in (lambda: ~f, lambda: f & g, lambda: g | f | ~f, lambda: f >> g, lambda: B.Implies(f, g, f), lambda: B.Equivalence(f, g), lambda: B.And(f, ~f, g), lambda: B.Or(g, B.Not(B.Not(f)), f))]


def wrap(f, g, t, l):
    v, w = F.Variable("x"), F.Variable("y")
    makers = [L.Next, L.WeakNext, L.Eventually, L.Always, Y.Before, Y.WeakBefore, Y.Once, Y.Historically, D.Prop, D.Test, D.Star, lambda h: F.ForAll(v, h), lambda h: F.Exists(w, h)]
    pairs = [L.Until, L.Release, L.WeakUntil, L.StrongRelease, Y.Since, Y.Triggers, D.Seq, D.Union, D.Diamond, D.Box, lambda a, b: D.Diamond(D.Prop(a), b), lambda a, b: D.Diamond(a, D.Last())]
    return [attempt(lambda: m(f)) for m in makers] + [attempt(lambda: m(f, g)) for m in pairs] + [attempt(lambda: m(g, f, f)) for m in pairs[:8]]


def compare(f, g, t, l):
    j = Junk()
    return [attempt(x) for x in (lambda: hash(f), lambda: f == g, lambda: f != g, lambda: f == T.build(t, l), lambda: f in {g}, lambda: f in {f: 1}, lambda: f == j, lambda: j == f, lambda: f in [j, g],
                                 lambda: f == None, lambda: sorted([str(f), str(g)]))]  # noqa: E711


def show(f, g, t, l):
    return [attempt(x) for x in (lambda: str(f), lambda: repr(f), lambda: to_string(f), lambda: to_string(~f), lambda: to_string(Junk()), lambda: f.logic, lambda: T.read(f), lambda: repr(g), lambda: str(g),
                                 lambda: T.read(g))]


def parse(f, g, t, l):
    if l not in PARSE:
        return attempt(lambda: parse_pl(List(["a"])))
    s = X.full(t, l)
    return [attempt(lambda: p(x)) for p in PARSE.values() for x in (s, "(%s" % s, s + " &", "(%s) & (%s)" % (s, s), List([s]), Junk())]


def evaluate(f, g, t, l):
    names = [x[1] for x in T.subterms(t) if x[0] == "atom"]
    out = [attempt(lambda: evaluate_pl(h, i)) for h in (f, g) for i in (Set(names), Set(names[:1]), Dict({n: True for n in names}), Dict({n: False for n in names}), Dict(), List(names), Junk(), frozenset(names))]
    fn = Fn(names[:1])
    return out + [attempt(x) for x in (lambda: base_semantics(f, fn), lambda: base_semantics(f, fn, Junk(), k=Junk()), lambda: base_semantics(Junk(), fn), lambda: evaluate_pl(Junk(), Set(names)),
                                       lambda: base_semantics(g, fn, List([f]), m=Dict()), lambda: base_semantics(g, Junk()))]


def serialize(f, g, t, l):
    attempt(lambda: hash(f))
    return [attempt(x) for x in (lambda: copy.copy(f), lambda: copy.deepcopy([f, g]), lambda: pickle.loads(pickle.dumps((f, g))), lambda: pickle.loads(pickle.dumps(g, 0)),
                                 lambda: f.__getstate__() if hasattr(f, "__getstate__") else None, lambda: copy.copy(g), lambda: copy.deepcopy(f), lambda: pickle.dumps(Junk), lambda: pickle.dumps(f, 5))]


def refuse(f, g, t, l):
    j = Junk()
    other = T.build(("prop", S.A), "re") if l != "re" else T.build(("X", S.A), "ltl")
    out = [attempt(lambda: m(f, x)) for m in (B.And, B.Or, B.Implies, B.Equivalence, L.Until, Y.Since, D.Seq, D.Diamond, F.ForAll) for x in (j, other, None, List([f]))]
    out += [attempt(lambda: m(x)) for m in (B.Not, L.Next, D.Star, D.Prop, D.Test, B.And, P.Atomic, L.Atomic) for x in (j, other, List([f]))]
    out += [attempt(x) for x in (lambda: f & j, lambda: j >> f, lambda: f | other, lambda: F.Predicate("P", List([F.Variable("x")]))(j), lambda: F.Function("f", List([F.Variable("y")]))(f, f))]
    return out


def apply(f, g, t, l):
    n = name("v", int("".join(c for c in str(next((x[1] for x in T.subterms(t) if x[0] in ("atom", "var", "pred")), "0")) if c.isdigit())[:5] or 0))
    ts = List([F.Variable(n + "x"), F.Function(n + "f", List([F.Constant(n + "k", Junk()), F.Variable(n + "y")]))])
    p = F.Predicate("P" + n, ts)
    return [attempt(x) for x in (lambda: p(*ts), lambda: p(ts[0]), lambda: p.operands, lambda: ts[1](*ts), lambda: str(p), lambda: hash(p), lambda: p == F.Predicate("P" + n, ts), lambda: [f.operands],
                                 lambda: f(*ts), lambda: copy.deepcopy(p), lambda: pickle.loads(pickle.dumps(p(F.Variable("u"), F.Variable("w")))), lambda: hash(ts[0]), lambda: ts[0] == ts[1],
                                 lambda: ts[0] == F.Variable(n + "x"), lambda: repr(ts[1]), lambda: ts[1] == Junk(), lambda: F.Constant(n + "k", Junk()) == ts[1].operands[0])]


def prove(f, g, t, l):
    R = ND.rule
    h, nn, i = always(lambda: f & g), always(lambda: ~~f), always(lambda: g >> f)
    lists = [List([1, f, List([R.premise]), 2, g, List([R.premise]), 3, h, List([R.and_i, 1, 2]), 4, nn, List([R.dneg_i, 1])]),
             List([1, f, List([R.premise]), 2, List([g, List([R.assumption]), 3, f, List([R.copy, 1])]), 4, i, List([R.impl_i, 2])]),
             List([1, f, List([R.assumption])]), List([1, f, List([R.premise]), 2, g, List([R.copy, 1]), 3, Junk(), List([R.copy])]), List([1, f, List([R.premise]), 2, g, List([R.copy, Junk()])])]
    if l == "fol":
        x, y = F.Variable("x"), F.Variable("y")
        lists += [List([1, F.ForAll(x, f), List([R.premise]), 2, f, List([R.forall_e, 1]), 3, F.Exists(x, f), List([R.exists_i, 2])]),
                  List([1, F.ForAll(x, f), List([R.premise]), 2, List([y, g, List([R.copy, 1])]), 3, F.ForAll(x, f), List([R.forall_i, 2])]),
                  List([1, F.Exists(x, f), List([R.premise]), 2, List([y, f, List([R.assumption]), 3, g, List([R.copy, 2])]), 4, g, List([R.exists_e, 1, 2])])]
    return [attempt(lambda: ND.check(ND.Proof(p))) for p in lists] + [attempt(lambda: ND().proof(p)) for p in lists] + [attempt(lambda: ND().check_proof(ND.Proof(lists[1]))), attempt(lambda: ND.check(Junk()))]


def registry(f, g, t, l):
    return [attempt(x) for x in (lambda: [list(d) for d in get_cache_context().values()], reset_cache, lambda: f == g, lambda: f & f, lambda: T.build(t, l))]


def helpers(f, g, t, l):
    out = []
    for fn in vars(misc).values():
        if callable(fn) and getattr(fn, "__module__", "") == misc.__name__ and not isinstance(fn, type):
            for args in ((List([f, g]), 0), (List([f]), Junk()), (f, List([g])), (None, List([f])), (List([g]), lambda h: h == f), (Fn([]), "m"), (Set([f]),), (f,), (None, False), (f, True)):
                out.append(attempt(lambda: fn(*args)))
    return out


CALLS = {"combine": combine, "wrap": wrap, "compare": compare, "print": show, "parse": parse, "evaluate": evaluate, "serialize": serialize, "refuse": refuse, "apply": apply, "prove": prove,
         "registry": registry, "helpers": helpers}


def terms(l, quick):
    pop = list(dict.fromkeys(POP.population(l)))
    return pop[:: 3 if quick else 1]


def large(l):
    return [v[0][1] for n, v in POP.families().items() if v[0][0] == l][::5]


def run_calls(l, t, u, names, i):
    """Build two formulas over fresh symbols, run the calls on them and drop everything."""
    t, u = fresh(t, i), fresh(u, i)
    f, g = T.build(t, l), T.build(u, l)
    n = 0
    for c in names:
        r = CALLS[c](f, g, t, l)
        n += len(r) if isinstance(r, list) else 1
        if c == "registry":
            f, g = T.build(t, l), g
    return n


def census(what, l, t, part, calls=None):
    """After dropping everything and a reset nothing is left."""
    reset_cache()
    left = alive()
    part.states += 1
    if left:
        kinds = sorted({type(o).__name__ for o in left})
        o = next((o for o in left if isinstance(o, (B.Formula, F.Term))), None)
        holders = sorted({type(h).__name__ for h in gc.get_referrers(left[0])} - {"list", "frame"}) if len(left) < 50 else []
        raise Violation("%s: after dropping everything and resetting the cache %d objects are still alive (%s)%s" % (what, len(left), ", ".join(kinds), ", such as %s" % o if o is not None else ""),
                        logic=l, term=t, calls=calls, held_by=holders)


def warm():
    """Every kind of call once: whatever the library sets up on first use exists now."""
    for l in POP.ALL:
        for t in POP.population(l)[:3]:
            run_calls(l, t, t, list(CALLS), 99999)
    for it, l in proofs_of(5):
        always(lambda: ND.check(ND.Proof(nd.flat(it, l, fresh=True))))
    reset_cache()
    gc.collect()
    gc.freeze()


def proofs_of(n):
    A, B_, C = S.A, S.Bq, S.C
    for name_, items in nd.long_valid(n, A, B_, C):
        yield items, "pl"
        for k, (_, e) in enumerate(nd.long_breaks(items, ("atom", "d"))):
            if k % 7 == 0:
                yield e, "pl"
    for items in c17.classics():
        yield items, "fol"
        for k, (_, e) in enumerate(nd.long_breaks(items, ("pred", "P", ("var", "z")))):
            if k % 11 == 0:
                yield e, "fol"


def relettered(items, i):
    return tuple((it[0], it[1], fresh(it[2], i)) + (it[3:] if it[0] == "L" else (relettered(it[3], i),)) for it in items)


def explore(kind, payload, part):
    if kind == "first":
        first(*payload, part)
        part.traces += 1
        return
    warm()
    if kind == "single":  # every call alone
        l, ts, n, partner = payload
        i = 0
        for t in ts:
            ONLY[:] = [None, 0]
            run_calls(l, t, partner, (n,), 0)
            size = ONLY[1]
            for k in range(1, size + 1):
                i += 1
                ONLY[:] = [k, 0]
                run_calls(l, t, partner, (n,), i)
                part.transitions += 1
                census("call %d of the group %r on a formula" % (k, n), l, t, part, n)
                part.traces += 1
        ONLY[:] = [None, 0]
    elif kind == "calls":
        l, ts, seqs, partner = payload
        i = 0
        for t in ts:
            for seq in seqs:
                i += 1
                part.transitions += run_calls(l, t, partner, seq, i)
                census("calls %s on a formula" % (list(seq),), l, t, part, seq)
                part.traces += 1
    elif kind == "bulk":  # many different inputs before anything is dropped
        l, names, n = payload
        pop = terms(l, True)
        for i in range(n):
            part.transitions += run_calls(l, pop[i % len(pop)], pop[0], names, i)
            if "registry" not in names and i % 50 == 49:
                reset_cache()
        census("%d times the calls %s" % (n, list(names)), l, None, part, names)
        part.traces += 1
    elif kind == "proofs":
        n, k, of = payload
        for i, (items, l) in enumerate(proofs_of(n)):
            if i % of == k:
                its = relettered(items, i)
                always(lambda: ND.check(ND.Proof(nd.flat(its, l, fresh=True))))
                part.transitions += 1
                census("checking a proof", l, items, part)
                part.traces += 1
    elif kind == "thread":
        l, names = payload
        for i, t in enumerate(terms(l, True)):
            th = [threading.Thread(target=run_calls, args=(l, t, terms(l, True)[0], names, 2 * i + k)) for k in (0, 1)]
            for x in th:
                x.start()
            for x in th:
                x.join()
            del th, x
            part.transitions += 2 * len(names)
            census("calls %s in threads that have ended" % (list(names),), l, t, part, names)
            part.traces += 1
    elif kind == "deep":  # calls that fail for want of stack
        l, t, names = payload
        for i, room in enumerate(range(20, 140, 6)):
            old, d, f = sys.getrecursionlimit(), 0, sys._getframe()
            while f:
                d, f = d + 1, f.f_back
            sys.setrecursionlimit(d + room)
            try:
                run_calls(l, t, t, names, i)
            except RecursionError:
                part.count("starved")
            finally:
                sys.setrecursionlimit(old)
            part.transitions += 1
            census("calls %s without enough stack" % (list(names),), l, t, part, names)
            part.traces += 1


def first(l, t, u, names, part):
    """Nothing may outlive the first reset of the process either; no reset has happened yet.  Constants set up on first use may stay, so only what
    mentions a symbol of this round counts."""
    gc.collect()
    gc.freeze()
    part.transitions += run_calls(l, t, u, names, 7)
    reset_cache()
    left = [o for o in alive() if not isinstance(o, (B.Formula, F.Term)) or "00007" in str(o)]
    part.states += 1
    if left:
        raise Violation("calls %s before the first reset of the cache: %d objects are still alive after dropping everything and resetting it, such as a %s" % (list(names), len(left), type(left[0]).__name__),
                        logic=l, term=t, calls=names)


def work(chunk, part):
    for kind, payload in chunk:
        def go():
            from mc.core import Part

            p = Part()
            try:
                explore(kind, payload, p)
            except Violation as e:
                return (e.what, {k: repr(v)[:2000] for k, v in e.data.items()}), p
            return None, p

        bad, p = sched.forked(go)
        part.states += p.states
        part.transitions += p.transitions
        part.traces += p.traces
        if bad:
            raise Violation(bad[0], **bad[1])
    part.sample([kind, repr(payload)[:300]])


def run(check):
    q = check.quick
    todo = []
    for l in POP.ALL:
        pop = terms(l, q)
        partner = POP.population(l)[1]
        for c in chunked(pop, 8 if q else 24):
            todo.append(("calls", (l, c, [(n,) for n in CALLS], partner)))
            todo.append(("calls", (l, c[:: 4 if q else 1], list(itertools.permutations(CALLS, 2)), partner)))
        todo += [("calls", (l, c, [tuple(CALLS)], partner)) for c in chunked(large(l), 4)]
        for n in CALLS:
            todo += [("single", (l, c, n, POP.population(l)[k])) for c in chunked(pop[:: 6 if q else 1], 3 if q else 16) for k in ((1,) if q else (1, 7))]
        for n in CALLS:
            todo.append(("bulk", (l, (n,), 300 if q else 3000)))
        todo.append(("bulk", (l, tuple(CALLS), 60 if q else 600)))
        for n in [(n,) for n in CALLS] + [tuple(CALLS)]:
            if n != ("registry",):
                todo += [("first", (l, t, partner, tuple(m for m in n if m != "registry"))) for t in pop[:: 6 if q else 1]]
        for n in CALLS:
            todo.append(("thread", (l, (n,))))
        for t in pop[2::9 if q else 3]:
            todo.append(("deep", (l, t, tuple(n for n in CALLS if n != "registry"))))
    todo += [("proofs", (n, k, 16)) for n in ((12, 40) if q else (12, 40, 150)) for k in range(16)]
    check.note("calls", len(CALLS))
    check.run_parallel(work, chunked(todo, 128))
