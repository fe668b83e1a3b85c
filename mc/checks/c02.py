"""C02: whatever the constructors simplify, the result is equivalent to the literal connective."""
import itertools

from mc import population as POP
from mc import space as S
from mc import terms as T
from mc.core import chunked

ASSUMPTIONS = [
    "temporal operators are interpreted over non-empty finite traces (length <= 3), FOL over structures of size <= 2",
    "an equivalence with repeated operands may have its documented deduplicated meaning (known finding)",
]

LOGICS = ("pl", "ltl", "pltl", "ldl", "fol")
_MODELS = {}


def truth_vector(t, logic):
    """The value of a term in every model in bounds."""
    names = ("a", "b", "c")
    if logic == "pl":
        return [T.ev_pl(t, m[0]) for m in models("pl", lambda: T.traces(names, 1))]
    if logic == "ltl":
        return [T.ev_ltl(t, m) for m in models("ltl", lambda: T.traces(("a", "b"), 3))]
    if logic == "pltl":
        return [T.ev_pltl(t, m, len(m) - 1) for m in models("ltl", lambda: T.traces(("a", "b"), 3))]
    if logic == "ldl":
        return [T.ev_ldl(t, m) for m in models("ldl", lambda: T.traces(("a", "b"), 2))]
    ms = models("fol", lambda: [m for n in (1, 2) for m in T.structures(
        ({"P": 1, "Q": 0}, {}, [], ["x", "y"]), n)])
    return [T.ev_fol(t, st, env) for st, env in ms]


def models(key, make):
    if key not in _MODELS:
        _MODELS[key] = make()
    return _MODELS[key]


def equivalent(got, t, logic):
    if got == t:
        return True
    v = truth_vector(got, logic)
    if v == truth_vector(t, logic):
        return True
    return T.iff_repeats(t) and v == truth_vector(T.norm(t), logic)


def verify(part, t, f, logic, how):
    part.states += 1
    got = T.read(f)
    if got != t:
        part.count("simplified")
    if not equivalent(got, t, logic):
        part.violation("%s: %s %r became %r, which is not equivalent" % (logic, how, t, got),
                       logic=logic, term=t, result=got, how=how)
    if f.logic != T.LOGIC[logic]:
        part.violation("%s: %r reports logic %s" % (logic, t, f.logic), logic=logic, term=t)
    part.traces += 1


def work(chunk, part):
    logic, items = chunk
    for t in items:
        part.transitions += T.size(t)
        verify(part, t, T.build(t, logic), logic, "constructing")
    part.sample({"logic": logic, "term": items[-1]})


def operators(chunk, part):
    """The operators ~ & | >> on all pairs and triples of pool formulas."""
    logic, pairs = chunk
    pool = S.POOL[logic]
    fs = [T.build(t, logic) for t in pool]
    for i, j in pairs:
        s, t, f, g = pool[i], pool[j], fs[i], fs[j]
        verify(part, ("and", s, t), f & g, logic, "&")
        verify(part, ("or", s, t), f | g, logic, "|")
        verify(part, ("imp", s, t), f >> g, logic, ">>")
        verify(part, ("not", s), ~f, logic, "~")
        verify(part, s, ~~f, logic, "~~")
        for k, u in enumerate(pool):
            h = fs[k]
            verify(part, ("imp", s, ("imp", t, u)), f >> (g >> h), logic, ">>>>")
            verify(part, ("imp", ("and", s, t), u), (f & g) >> h, logic, "&>>")
            verify(part, ("not", ("or", ("and", s, t), u)), ~((f & g) | h), logic, "~&|")
            verify(part, ("and", ("or", s, t), ("not", u)), (f | g) & ~h, logic, "|&~")
            part.transitions += 4


CONNECTIVES = ("not",) + T.BOOLS


def opaque(t, acc):
    """The maximal parts that are no connectives."""
    if t[0] in CONNECTIVES:
        for x in t[1:]:
            opaque(x, acc)
    elif t not in (("true",), ("false",)):
        acc.setdefault(T.canon(t))
    return acc


def ev_opaque(t, true):
    if t[0] == "not":
        return not ev_opaque(t[1], true)
    if t[0] in T.BOOLS:
        return T.ev_bool(t, lambda u: ev_opaque(u, true))
    if t in (("true",), ("false",)):
        return t == ("true",)
    return T.canon(t) in true


def patterns(names):
    if len(names) <= 8:
        for vals in itertools.product((False, True), repeat=len(names)):
            yield frozenset(n for n, v in zip(names, vals) if v)
    else:
        every = frozenset(names)
        if len(names) > 100:
            n = len(names)
            names = [names[i] for i in sorted({0, 1, 40, n // 3, n // 2, 2 * n // 3, n - 3, n - 2, n - 1})]
        for k in (0, 1, 2):
            for c in itertools.combinations(names, k):
                yield frozenset(c)
                yield every - frozenset(c)


def arities(t):
    """Rename symbols so that each has one arity."""
    if not isinstance(t, tuple):
        return t
    if t[0] in ("pred", "fun"):
        return (t[0], "%s/%d" % (t[1], len(t) - 2)) + tuple(arities(x) for x in t[2:])
    if t[0] == "const":
        return ("const", repr(t[1:]))
    return tuple(arities(x) for x in t)


def signature(t, sig):
    if t[0] in ("pred", "fun"):
        sig[0 if t[0] == "pred" else 1][t[1]] = len(t) - 2
    elif t[0] in ("const", "var"):
        sig[2 if t[0] == "const" else 3].add(t[1])
    for x in t[1:]:
        if isinstance(x, tuple):
            signature(x, sig)
    return sig


def equivalent_any(got, t, logic):
    """Equivalence of arbitrary (large) terms: over opaque parts, and by the semantics where that fails."""
    for u in (t, T.norm(t)) if T.iff_repeats(t) else (t,):
        if got == u:
            return True
        names = list(opaque(u, opaque(got, {})))
        if all(ev_opaque(got, p) == ev_opaque(u, p) for p in patterns(names)):
            return True
        used = {x[1] for v in (got, u) for x in T.subterms(v) if x[0] in ("atom", "pred")}
        if len(used) > 12 or logic not in ("pl", "fol") and not used <= {"a", "b"}:
            continue  # the opaque parts decide
        if logic == "fol":
            g, v = arities(got), arities(u)
            sig = signature(v, signature(g, ({}, {}, set(), set())))
            sig = (sig[0], sig[1], sorted(sig[2]), sorted(sig[3]))
            if all(T.ev_fol(g, st, env) == T.ev_fol(v, st, env) for n in (1, 2) for st, env in T.structures(sig, n)):
                return True
        elif logic != "pl" and truth_vector(got, logic) == truth_vector(u, logic):
            return True
    return False


def large_work(chunk, part):
    for logic, t in chunk:
        f = T.build(t, logic)
        got = T.read(f)
        part.states += 1
        part.transitions += T.size(t)
        if not equivalent_any(got, t, logic):
            part.violation("%s: constructing %r became %r, which is not equivalent" % (logic, t, got), logic=logic, term=t, result=got)
        part.traces += 1
    part.sample({"logic": logic, "term": t})


def special_lists(ops, n, z):
    """Operand lists of n distinct operands with one special operand (constant, repeated, negated, nested) in every position."""
    specials = [("true",), ("false",), ops[0], ops[n - 1], ops[n // 2], ("not", ops[0]), ("not", ops[n - 1]), ("not", ops[n // 2]), z]
    for tag in T.BOOLS:
        specials += [(tag,) + tuple(reversed(ops[:n])), (tag, ops[n - 1], z), (tag, ("not", z), ops[0]), ("not", (tag, ops[0], z))]
    places = range(n + 1) if n <= 12 else (0, 1, n // 2, n - 1, n)
    for pos in places:
        for sp in specials:
            for tag in T.BOOLS:
                yield (tag,) + tuple(ops[:pos]) + (sp,) + tuple(ops[pos:n])


def large(check):
    """Pairs of formulas of every shape, and wide and deep connectives."""
    out = []
    for logic in LOGICS:
        pop = list(dict.fromkeys(POP.population(logic)))
        if check.quick:
            for s, t in itertools.product(pop, repeat=2):
                out.append((logic, (("and", "or", "imp", "iff")[len(out) % 4], s, t)))
                out.append((logic, (("or", "and", "iff", "imp")[len(out) % 4], t, ("not", s))))
        else:
            out += [(logic, (tag, s, u)) for s, t in itertools.product(pop, repeat=2) for tag in T.BOOLS for u in (t, ("not", t))]
    wrap = {"pl": lambda a: a, "ltl": lambda a: ("X!", a), "pltl": lambda a: a, "ldl": lambda a: ("dia", ("prop", a), ("true",)), "fol": lambda a: ("pred", a[1])}
    for logic, w in wrap.items():
        for n in check.pick((5, 9, 12, 17, 33), (5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 18, 31, 32, 33, 64, 65)):
            if logic == "pl" or n in (9, 17, 33) or not check.quick:
                out += [(logic, t) for t in special_lists([w(("atom", "p%d" % i)) for i in range(n)], n, w(("atom", "z")))]
        for n in check.pick((140, 320), (140, 320, 1100)):
            if logic == "pl" or not check.quick or n == 320 and logic in ("ltl", "fol"):
                out += [(logic, t) for t in special_lists([w(("atom", "p%d" % i)) for i in range(n)], n, w(("atom", "z")))]
    return out


def run(check):
    jobs = []
    for logic in LOGICS:
        lv = S.leaves(logic)
        n = check.pick({"pl": 6, "ltl": 4, "pltl": 4, "ldl": 5, "fol": 4}, {"pl": 6, "ltl": 5, "pltl": 5, "ldl": 6, "fol": 5})[logic]
        items = list(S.upto(logic, n, lv))
        # connectives only, over a few opaque operands: larger terms
        u = {"ltl": ("X", S.A), "pltl": ("Y", S.A), "ldl": S.DIA, "fol": ("forall", S.X, S.PX)}.get(logic, S.Bq)
        lvb = (S.PX if logic == "fol" else S.BOX if logic == "ldl" else S.A, u)
        items += list(S.upto_over(check.pick(5, 6), lvb + S.CONSTS[logic][:2], ("not",), T.BOOLS, 3))
        # wide nodes
        pool = S.POOL[logic]
        items += list(S.wide(pool, T.BOOLS, 3))
        small = tuple(x for x in pool if x[0] not in ("and", "or", "iff"))[:5]
        items += list(S.wide(small, T.BOOLS, check.pick(4, 5), 4))
        lits = lvb + (("not", lvb[0]),)
        items += list(S.wide(lits, T.BOOLS, check.pick(6, 7), 5))
        jobs += [(logic, c) for c in chunked(items, 24)]
        check.note("terms_" + logic, len(items))
    check.run_parallel(work, jobs)
    jobs = []
    for logic in LOGICS:
        k = len(S.POOL[logic])
        jobs += [(logic, c) for c in chunked([(i, j) for i in range(k) for j in range(k)], 4)]
    check.run_parallel(operators, jobs)
    items = large(check)
    check.note("large", len(items))
    check.run_parallel(large_work, chunked(items, 96))
    a = T.build(S.A, "pl")
    if T.read(T.B.Equivalence(a, a)) == S.A:
        check.violation("a <-> a is a", key="a <-> a")
