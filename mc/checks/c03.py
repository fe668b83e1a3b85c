"""C03: conjunctions, disjunctions and negations are always in the documented normal form."""
from mc import space as S
from mc import terms as T
from mc.checks import c02 as C02
from mc.core import chunked

ASSUMPTIONS = ["formulas are read back through operands/argument"]
LOGICS = ("pl", "ltl", "pltl", "ldl", "fol")


def invariant(t):
    """Is every node of a term read from the library in normal form?"""
    for s in T.subterms(t):
        if s[0] == "not" and (s[1][0] == "not" or s[1][0] in T.DUAL):
            return "negation of %r" % (s[1],)
        if s[0] in ("and", "or"):
            ops = s[1:]
            keys = [T.canon(o) for o in ops]
            if len(ops) < 2:
                return "fewer than two operands"
            if len(set(keys)) < len(keys):
                return "repeated operand"
            if any(o[0] == s[0] for o in ops):
                return "nested operand with the same connective"
            if ("true",) in ops or ("false",) in ops:
                return "a logical constant as an operand"
            if any(T.canon(T.n_not(o)) in keys for o in ops):
                return "a formula and its negation"
    return None


def verify(part, t, f, logic, how="constructor"):
    part.states += 1
    got = T.read(f)
    bad = invariant(got)
    if bad:
        part.violation("%s: %r built by %s gives %r: %s" % (logic, t, how, got, bad), logic=logic, term=t, result=got)
    exp = T.norm(t)
    if got != exp:
        part.violation("%s: %r built by %s gives %r instead of %r" % (logic, t, how, got, exp),
                       logic=logic, term=t, result=got, expected=exp)
    part.traces += 1


def work(chunk, part):
    logic, items = chunk
    for t in items:
        part.transitions += T.size(t)
        verify(part, t, T.build(t, logic), logic)
    part.sample({"logic": logic, "term": items[-1], "normal_form": T.norm(items[-1])})


def operators(chunk, part):
    logic, pairs = chunk
    pool = [t for t in S.POOL[logic]]
    fs = [T.build(t, logic) for t in pool]
    for i, j in pairs:
        s, t, f, g = pool[i], pool[j], fs[i], fs[j]
        part.transitions += 3
        verify(part, ("and", s, t), f & g, logic, "&")
        verify(part, ("or", s, t), f | g, logic, "|")
        verify(part, ("not", s), ~f, logic, "~")
        verify(part, ("or", ("not", s), t), f >> g, logic, ">>")
        for k in range(len(pool)):
            u, h = pool[k], fs[k]
            part.transitions += 2
            verify(part, ("and", ("and", s, t), u), (f & g) & h, logic, "&&")
            verify(part, ("or", s, ("or", t, u)), f | (g | h), logic, "||")
            verify(part, ("and", ("or", s, t), u, s), T.B.And(f | g, h, f), logic, "mixed")


def run(check):
    jobs = []
    big = []
    for logic in LOGICS:
        first = {"fol": S.PX, "ldl": S.DIA}.get(logic, S.A)
        second = {"ltl": ("X", S.A), "pltl": ("S", S.A, S.Bq), "ldl": ("box", ("star", ("prop", S.A)), ("false",)),
                  "fol": ("forall", S.X, S.PX)}.get(logic, ("imp", S.A, S.Bq))
        items = list(S.upto_over(check.pick(6, 7), (first, second) + S.CONSTS[logic][:2], ("not",), ("and", "or"), 3))
        if len(S.CONSTS[logic]) > 2:
            items += list(S.upto_over(5, (first,) + S.CONSTS[logic], ("not",), ("and", "or"), 3))
        pool = S.POOL[logic]
        items += list(S.wide(pool, ("and", "or"), check.pick(3, 4), 2))
        lits = (first, ("not", first), second, ("not", second), ("and", first, second), ("or", second, first))
        items += list(S.wide(lits, ("and", "or"), check.pick(5, 6), 2))
        # long distinct operand lists with one special operand in every position
        if logic != "ldl" and logic != "fol":
            long_ = [("atom", "p%d" % i) for i in range(9)]
            for k in range(2, 10):
                for pos in range(k + 1):
                    for sp in (("true",), ("false",), long_[0], long_[k - 1], ("not", long_[0]), ("not", long_[k - 1]),
                               ("and",) + tuple(reversed(long_[:k])), ("or",) + tuple(long_[:k]),
                               ("and", long_[k - 1], ("atom", "z")), ("or", long_[0], ("not", ("atom", "z")))):
                        for tag in ("and", "or"):
                            items.append((tag,) + tuple(long_[:pos]) + (sp,) + tuple(long_[pos:k]))
        # towers of one connective, nested left and right
        third = pool[1]
        for tag in ("and", "or"):
            l = r = first
            for i in range(check.pick(6, 20)):
                op = (second, third, ("not", third), first)[i % 4]
                l, r = (tag, l, op), (tag, op, r)
                items += [l, r, ("not", l), ("not", ("not", r))]
        items += [t for t in S.chains(("not",), 8, list(pool))]
        check.note("terms_" + logic, len(items))
        jobs += [(logic, c) for c in chunked(items, 16)]
    # pairs of formulas of every shape (including formulas that print alike), and wide operand lists
    for logic, t in C02.large(check):
        if t[0] in ("and", "or"):
            big.append((logic, t))
    check.note("large", len(big))
    for logic in LOGICS:
        jobs += [(logic, c) for c in chunked([t for l, t in big if l == logic], 24)]
    check.run_parallel(work, jobs)
    jobs = []
    for logic in LOGICS:
        k = len(S.POOL[logic])
        jobs += [(logic, c) for c in chunked([(i, j) for i in range(k) for j in range(k)], 4)]
    check.run_parallel(operators, jobs)
