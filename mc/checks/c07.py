"""C07: no sequence of operations changes a formula that already exists."""
import copy
import itertools
import pickle

from pylogics_modalities.deduction.fol.nd import NaturalDeduction as ND
from pylogics_modalities.semantics.pl import evaluate_pl
from pylogics_modalities.syntax.base import get_cache_context, reset_cache
from pylogics_modalities.utils.to_string import to_string

from mc import population as POP
from mc import terms as T
from mc.core import Violation, chunked, outcome

ASSUMPTIONS = ["only public operations and accessors are used; overwriting private attributes is out of scope"]
B, L, Y, D, F, P = T.B, T.L, T.Y, T.D, T.F, T.P


def snap(f):
    if isinstance(f, F.Term):
        return (T.read_term(f), str(f), hash(f))
    s = outcome(lambda: to_string(f))
    return (T.read_logic(f), f.logic, str(f), hash(f), s[1] if s[0] == "ok" else type(s[1]).__name__)


def touch_returned(f, g):
    """Change every mutable collection an accessor returns."""
    for name in ("operands",):
        x = getattr(f, name, None)
        for _ in range(2):
            if isinstance(x, list):
                x.append(g)
                x.reverse()
                del x[:1]
            elif isinstance(x, set):
                x.clear()
            elif isinstance(x, dict):
                x.clear()


def proof(f, g):
    rule = ND.rule
    p = ND.Proof([1, f, [rule.premise], 2, g, [rule.premise], 3, [4, f, [rule.assumption], 5, g, [rule.copy, 2]][1:],
                  6, f & g, [rule.and_i, 1, 2], 7, f, [rule.and_e1, 6], 8, ~~f, [rule.dneg_i, 1], 9, f | g, [rule.or_i1, 1]])
    ND.check(p)
    if f.logic == T.Logic.FOL:
        x, y = F.Variable("x"), F.Variable("y")
        for q in (F.ForAll(x, f), F.Exists(x, f)):
            ND.check(ND.Proof([1, q, [rule.premise], 2, f, [rule.forall_e, 1]]))
            ND.check(ND.Proof([1, f, [rule.premise], 2, q, [rule.exists_i, 1]]))
            ND.check(ND.Proof([1, q, [rule.premise], 2, [y, g, [rule.copy, 1]], 3, q, [rule.forall_i, 2]]))
            ND.check(ND.Proof([1, q, [rule.premise], 2, [y, g, [rule.assumption], 3, g, [rule.copy, 2]], 4, g, [rule.exists_e, 1, 2]]))


def interps(f, g):
    s, d = {"a"}, {"a": True, "b": False}
    evaluate_pl(f, s)
    evaluate_pl(f, d)
    evaluate_pl(f, frozenset())
    if s != {"a"} or d != {"a": True, "b": False}:
        raise Violation("evaluation changed the interpretation")


def nary(cls):
    return lambda f, g: cls(f, g, f, ~g) if f.logic != T.Logic.RE else cls(f, g, f)


OPS = {
    "and": lambda f, g: f & g, "or": lambda f, g: g | f, "imp": lambda f, g: f >> g, "not": lambda f, g: ~f,
    "Not": lambda f, g: B.Not(B.Not(f)), "And": nary(B.And), "Or": nary(B.Or), "Implies": lambda f, g: B.Implies(f, g, f),
    "Equivalence": nary(B.Equivalence), "and-nested": lambda f, g: B.And(B.And(f, g), B.Or(f, g)),
    "compare": lambda f, g: (f == g, f != g, g == f, f in {g}, f in [g], {f: 1}.get(g)),
    "print": lambda f, g: (str(f), repr(f), outcome(lambda: to_string(f))),
    "copy": lambda f, g: (copy.copy(f), copy.deepcopy((f, g))), "pickle": lambda f, g: pickle.loads(pickle.dumps((f, g))),
    "returned": touch_returned, "reset": lambda f, g: reset_cache(), "set": lambda f, g: ({f, g}, frozenset([f]), {f: g}),
    "context": lambda f, g: [list(d) for d in get_cache_context().values()],
    "evaluate": interps, "proof": proof,
    "ltl": lambda f, g: (L.Next(f), L.WeakNext(f), L.Until(f, g, f), L.Release(g, f), L.Eventually(L.Always(f)), L.WeakUntil(f, g), L.StrongRelease(f, g)),
    "pltl": lambda f, g: (Y.Before(f), Y.WeakBefore(f), Y.Since(f, g, f), Y.Triggers(g, f), Y.Once(Y.Historically(f))),
    "ldl": lambda f, g: (D.Diamond(D.Test(f), g), D.Box(D.Test(g), f)),
    "re": lambda f, g: (D.Seq(f, g, f), D.Union(f, g), D.Star(f), D.Diamond(f, B.TrueFormula(logic=T.Logic.LDL)), D.Box(g, D.End())),
    "prop": lambda f, g: D.Diamond(D.Prop(f), D.Last()),
    "fol": lambda f, g: (F.ForAll(F.Variable("x"), f), F.Exists(F.Variable("y"), g)),
    "apply": lambda f, g: f(*[F.Variable("z") for _ in f.operands]) if isinstance(f, F.Predicate) else None,
}


def run_seq(mk, seq, part, info):
    objs = mk()
    snaps = [snap(o) for o in objs]
    f, g = objs[0], objs[1]
    for i, name in enumerate(seq):
        r = outcome(lambda: OPS[name](f, g))
        if r[0] == "err" and isinstance(r[1], Violation):
            raise Violation(r[1].what, operations=seq, formulas=info)
        part.transitions += 1
        for o, s in zip(objs, snaps):
            now = snap(o)
            if now != s:
                raise Violation("after %s the formula %r became %r" % (list(seq[: i + 1]), s, now), formulas=info, operations=seq)
        # what was built becomes an existing formula too, and is used next
        if r[0] == "ok":
            for x in r[1] if isinstance(r[1], tuple) else (r[1],):
                if isinstance(x, B.Formula):
                    objs.append(x)
                    snaps.append(snap(x))
                    f = x
                    break
    twins = mk()
    for o, s, t in zip(objs, snaps, twins):
        if not (o == t and t == o and snap(t) == s):
            raise Violation("after %s the formula is not equal to a fresh copy of itself" % (list(seq),), formulas=info, operations=seq)
    part.states += 1
    part.traces += 1


def work(chunk, part):
    for l, t, u, seq in chunk:
        reset_cache()
        run_seq(lambda: [T.build(t, l), T.build(u, l)], seq, part, [l, t, u])
    part.sample({"logic": l, "formulas": [t, u], "operations": seq})


def partners(l):
    pop = list(dict.fromkeys(POP.population(l)))
    return pop[0], pop[1], pop[min(len(pop) - 1, 8)]


def containers(check):
    """Changing a list that was passed in, and defaults shared between formulas."""
    def same(make, change, what):
        arg, f = make()
        s = snap(f)
        hash(f)
        change(arg)
        if snap(f) != s:
            check.violation("changing the list passed to %s changed the formula" % what, before=s, after=snap(f))
        if f != make()[1]:
            check.violation("changing the list passed to %s made the formula different" % what)
        check.states += 1
        check.transitions += 1

    x, y = F.Variable("x"), F.Variable("y")

    def changes():
        yield lambda l: l.append(y)
        yield lambda l: l.clear()
        yield lambda l: l.reverse()
        yield lambda l: l.__setitem__(0, y)
        yield lambda l: l.__setitem__(0, F.Function("g", [x]))
        yield lambda l: l.insert(0, y)

    for ch in changes():
        for n in (1, 2, 3):
            def mk(cls):
                def go():
                    l = [F.Variable("x%d" % i) for i in range(n)]
                    return l, cls(l)
                return go

            same(mk(lambda l: F.Predicate("P", l)), ch, "Predicate")
            same(mk(lambda l: F.Function("f", l)), ch, "Function")
            same(mk(lambda l: F.Predicate("P", [F.Function("f", l)])), ch, "a nested Function")
            same(mk(lambda l: F.Predicate("P", l)(*l)), ch, "Predicate application")
            same(mk(lambda l: F.ForAll(x, F.Predicate("P", l))), ch, "Predicate under a quantifier")
        for cls, l0 in ((B.And, "pl"), (B.Or, "ltl"), (B.Implies, "pl"), (B.Equivalence, "pltl"), (L.Until, "ltl"), (Y.Since, "pltl")):
            def go():
                l = [T.build(("atom", n), l0) for n in "abc"]
                return l, cls(*l)
            same(go, lambda l: (l.reverse(), l.clear()), cls.__name__)
    p, q = F.Predicate("P"), F.Predicate("Q")
    outcome(lambda: p.operands.append(x))
    if tuple(q.operands) != () or tuple(F.Predicate("S").operands) != ():
        check.violation("predicates share their default operands")
    gen = F.Predicate("P", (F.Variable(n) for n in "xy"))
    if len(gen.operands) != 2 or gen.operands != gen.operands:
        check.violation("operands given as an iterator were not stored")


SPECIAL = {"evaluate": "pl", "proof": ("pl", "fol"), "ltl": "ltl", "pltl": "pltl", "ldl": "ldl", "re": "re", "prop": "pl", "fol": "fol",
           "apply": "fol"}


def relevant(l):
    """Operations that are not refused outright for formulas of the logic."""
    boolean = ("and", "or", "imp", "And", "Or", "Implies", "Equivalence", "and-nested")
    return [n for n in OPS if (n not in SPECIAL or l == SPECIAL[n] or l in SPECIAL[n] and isinstance(SPECIAL[n], tuple))
            and not (l == "re" and n in boolean)]


def run(check):
    items = []
    names = list(OPS)
    for l in POP.ALL:
        pop = list(dict.fromkeys(POP.population(l)))
        ps = partners(l)
        for t in pop:
            for u in (pop if not check.quick else ps):
                items += [(l, t, u, (n,)) for n in names]
            for u in ps[:1 if check.quick else 2]:
                items += [(l, t, u, s) for s in itertools.product(relevant(l), repeat=2)]
        if not check.quick:
            for t in pop[::4]:
                items += [(l, t, ps[0], s) for s in itertools.product(relevant(l), repeat=3)]
    for name, v in [*POP.families(check.quick).items(), *POP.huge(check.quick).items()]:
        l, t = v[0]
        if l != "term":
            items += [(l, t, partners(l)[0], (n,)) for n in relevant(l)]
    check.note("operations", len(names))
    containers(check)
    check.run_parallel(work, chunked(items, 64))
