"""C01: propositional evaluation agrees with truth tables on every formula and interpretation in bounds."""
import itertools

from pylogics_modalities.parsers import parse_pl
from pylogics_modalities.semantics.base import base_semantics
from pylogics_modalities.semantics.pl import evaluate_pl

from mc import space as S
from mc import terms as T
from mc import text as X
from mc.core import chunked, outcome

ASSUMPTIONS = [
    "formulas are read back through operands/argument/name",
    "an equivalence with repeated operands may have its documented deduplicated meaning (known finding)",
]


def interps(names):
    """All interpretations: set form, and dictionary form with each name absent/True/False and a stranger."""
    for r in range(len(names) + 1):
        for c in itertools.combinations(names, r):
            yield set(c), frozenset(c)
    for vals in itertools.product((None, True, False), repeat=len(names)):
        d = {n: v for n, v in zip(names, vals) if v is not None}
        yield d, frozenset(n for n, v in d.items() if v)
    extra = {"zz": True}
    yield dict(extra), frozenset()
    yield {"zz"}, frozenset()


def check_one(part, t, f, names, how):
    part.states += 1
    actual = T.read(f)
    rep = T.iff_repeats(t)
    nt = T.norm(t) if rep else None
    for inter, true in interps(names):
        before = dict(inter) if isinstance(inter, dict) else set(inter)
        part.transitions += 1
        got = evaluate_pl(f, inter)
        if inter != before or (isinstance(inter, dict) and list(inter) != list(before)):
            part.violation("evaluation modified the interpretation", term=t, interpretation=before)
            return
        allowed = {T.ev_pl(t, true)}
        if rep:
            allowed.add(T.ev_pl(nt, true))
        if got not in allowed or got != T.ev_pl(actual, true):
            part.violation(
                "evaluate_pl gives %r for %s formula %r on %r" % (got, how, t, inter),
                term=t, interpretation=sorted(true), form=type(inter).__name__, got=got, how=how,
            )
            return
    part.traces += 1


def work(chunk, part):
    kind, items, names = chunk
    for t in items:
        check_one(part, t, T.build(t, "pl"), names, "built")
        if kind == "parse":
            check_one(part, t, parse_pl(X.full(t, "pl")), names, "parsed")
    part.sample({"term": items[-1], "names": names})


def flips(names):
    """Interpretations of many names: all, none, and everything that differs from these in at most two names."""
    every = frozenset(names)
    if len(names) > 100:
        n = len(names)
        names = tuple(names[i] for i in sorted({0, 1, 40, n // 3, 2 * n // 3, n - 2, n - 1}))
    for k in (0, 1, 2):
        for c in itertools.combinations(names, k) if k < 2 or len(names) <= 12 else zip(names, names[1:]):
            yield frozenset(c)
            yield every - frozenset(c)


def wide_work(chunk, part):
    """Very wide and very deep formulas."""
    for t, how in chunk:
        names = tuple(dict.fromkeys(s[1] for s in T.subterms(t) if s[0] == "atom"))
        f = T.build(t, "pl") if how == "built" else parse_pl(X.full(t, "pl"))
        part.states += 1
        for true in flips(names):
            want = T.ev_pl(t, true)
            for inter in (set(true), {n: n in true for n in names}, {n: True for n in true}):
                part.transitions += 1
                got = evaluate_pl(f, inter)
                if got != want:
                    part.violation("evaluate_pl gives %r for the %s formula %r on %r" % (got, how, t, sorted(true)), term=t, interpretation=sorted(true), got=got, how=how)
                    return
        part.traces += 1
    part.sample({"term": chunk[-1][0], "how": chunk[-1][1]})


def wide_items(check):
    for w in check.pick((7, 8, 9, 10, 12, 16, 17, 33, 130, 320), tuple(range(7, 41)) + (64, 65, 100, 130, 320, 1100)):
        ps = [("atom", "p%d" % i) for i in range(w)]
        for tag in S.NARY["pl"]:
            signs = [ps, [("not", p) for p in ps]]
            for k in range(w) if w <= 17 else (0, w // 2, w - 1):
                signs.append(ps[:k] + [("not", ps[k])] + ps[k + 1:])
                for inner in ("and", "or", "imp", "iff"):
                    if inner != tag:
                        signs.append(ps[:k] + [(inner, ps[k], ("not", ps[(k + 1) % w]))] + ps[k + 1:])
            for ops in signs:
                yield (tag,) + tuple(ops)
    for d in check.pick((5, 9, 14, 50), (5, 9, 14, 20, 40, 50, 101)):
        for outer, inner in itertools.product(S.NARY["pl"], repeat=2):
            for sign in (0, 1):
                l = r = ("atom", "q")
                for i in range(d):
                    p = ("atom", "p%d" % i)
                    tag = (outer, inner)[i % 2]
                    l, r = (tag, l, p), (tag, p, r)
                    if sign:
                        l, r = ("not", l), ("not", r)
                yield l
                yield r


def generic(part):
    """base_semantics with an arbitrary evaluation function and arguments, over opaque operands."""
    names = ("a", "b", "c", "d", "e")
    atoms = [T.build(("atom", n), "ltl") for n in names]
    for n in range(2, 6):
        for vals in itertools.product((True, False), repeat=n):
            table = {names[i]: vals[i] for i in range(n)}
            for args, kw in (((), {}), ((1, "x"), {}), ((), {"k": 3}), ((None, [1]), {"formula_arg": 1, "z": 2})):
                calls = []

                def fn(g, *a, **k):
                    calls.append((a, k))
                    if a != args or k != kw:
                        raise AssertionError("arguments changed: %r %r" % (a, k))
                    return table[g.name]

                for tag in ("and", "or", "imp", "iff"):
                    f = T.BOOL_CLS[tag](*atoms[:n])
                    exp = T.ev_bool(T.read(f), lambda u: table[u[1]])
                    got = base_semantics(f, fn, *args, **kw)
                    part.transitions += 1
                    if got != exp:
                        part.violation("base_semantics(%s over %r) gives %r" % (tag, vals, got),
                                       tag=tag, values=vals, got=got)
                f = T.B.Not(atoms[0])
                got = base_semantics(f, fn, *args, **kw)
                if got != (not table["a"]):
                    part.violation("base_semantics(not) wrong", values=vals, got=got)
            part.states += 1
    for f in [atoms[0], T.build(("X", ("atom", "a")), "ltl"), T.build(("true",), "pl"), "a", None, 3]:
        if outcome(lambda: base_semantics(f, lambda *a, **k: True))[0] == "ok":
            part.violation("base_semantics accepts %r" % (f,))


def errors(part):
    a, b = ("atom", "a"), ("atom", "b")
    bad = [
        (t, l)
        for l, ts in {
            "ltl": [a, ("not", a), ("and", a, b), ("or", a, b), ("imp", a, b), ("iff", a, b)]
            + [(u, a) for u in S.UNARY["ltl"]] + [(o, a, b) for o in S.NARY["ltl"]],
            "pltl": [a] + [(u, a) for u in S.UNARY["pltl"]] + [(o, a, b) for o in S.NARY["pltl"]],
            "ldl": [("dia", ("prop", a), ("true",)), ("box", ("prop", a), ("true",)),
                    ("not", ("dia", ("prop", a), ("true",)))],
            "re": [("prop", a), ("star", ("prop", a)), ("seq", ("prop", a), ("prop", b)),
                   ("union", ("prop", a), ("prop", b)), ("test", ("dia", ("prop", a), ("true",)))],
            "fol": [S.PX, S.Q0, ("forall", S.X, S.PX), ("exists", S.X, S.PX), ("and", S.PX, S.Q0)],
        }.items()
        for t in ts
    ]
    for t, l in bad:
        f = T.build(t, l)
        for inter in ({"a"}, set(), {"a": True}, {"a", "b"}, {"a": True, "b": True, "P": True}):
            part.transitions += 1
            if outcome(lambda: evaluate_pl(f, inter))[0] == "ok":
                part.violation("evaluate_pl accepts the %s formula %r" % (l, t), term=t, logic=l)
    for x in ("a", None, 1, ["a"], {"a"}):
        if outcome(lambda: evaluate_pl(x, {"a"}))[0] == "ok":
            part.violation("evaluate_pl accepts the non-formula %r" % (x,))
    for t in [a, ("not", a), ("and", a, b), ("or", a, b), ("imp", a, b), ("iff", a, b)]:
        f = T.build(t, "pl")
        for inter in (["a"], ("a",), "a", None, 3, [("a", True)], iter(["a"]), lambda n: True):
            part.transitions += 1
            if outcome(lambda: evaluate_pl(f, inter))[0] == "ok":
                part.violation("evaluate_pl accepts the interpretation %r" % (type(inter),), term=t)


def run(check):
    lv = S.leaves("pl")
    n = check.pick(6, 7)
    items = list(S.upto("pl", n, lv))
    check.note("bound_nodes", n)
    chunks = [("build", c, ("a", "b")) for c in chunked(items, 16)]
    chunks += [("parse", c, ("a", "b")) for c in chunked(list(S.upto("pl", 4, lv)), 8)]
    lv3 = (S.A, S.Bq, S.C)
    chunks += [("parse", c, ("a", "b", "c")) for c in chunked(list(S.upto("pl", check.pick(4, 5), lv3, 4)), 8)]
    # wide nodes: every operand tuple over literals and a nested connective
    pool = [S.A, ("not", S.A), S.Bq, ("imp", S.A, S.Bq), ("or", S.Bq, S.C), ("false",)]
    wide = list(S.wide(pool, S.NARY["pl"], check.pick(4, 5)))
    chunks += [("build", c, ("a", "b", "c")) for c in chunked(wide, 16)]
    long_ = [("atom", x) for x in ("p0", "p1", "p2", "p3", "p4", "p5")]
    many = [(tag,) + tuple(("not", x) if m >> i & 1 else x for i, x in enumerate(long_[:k]))
            for tag in S.NARY["pl"] for k in (5, 6) for m in range(2 ** k)]
    chunks += [("build", c, ("p0", "p1", "p2", "p3", "p4", "p5")) for c in chunked(many, 16)]
    # names of every kind, including names that look like keywords or contain each other
    names = ("a", "aa", "a-b", "_", '"a b"', '"a"', "true1", "A_x"[1:], "x_A9")
    named = [t for x in names for y in names for t in
             (("and", ("atom", x), ("atom", y)), ("imp", ("atom", x), ("atom", y)), ("or", ("not", ("atom", x)), ("atom", y)))]
    for t in named:
        ns = tuple(dict.fromkeys(s[1] for s in T.subterms(t) if s[0] == "atom"))
        chunks.append(("build", [t], ns))
    deep = list(S.chains(("not",), 6, [S.A, ("and", S.A, S.Bq), ("iff", S.A, S.Bq)]))
    for op in S.NARY["pl"]:  # left- and right-nested towers
        l = r = S.A
        for i in range(check.pick(8, 30)):
            l, r = (op, l, (S.Bq, S.C, ("not", S.A))[i % 3]), (op, (S.Bq, S.C, ("not", S.A))[i % 3], r)
            deep += [l, r]
    chunks += [("build", c, ("a", "b", "c")) for c in chunked(deep, 8)]
    check.run_parallel(work, chunks)
    big = [t for t in wide_items(check) if not T.iff_repeats(t)]
    check.note("large", len(big))
    check.run_parallel(wide_work, chunked([(t, how) for t in big for how in ("built", "parsed")], 64))
    check.run_parallel(lambda _c, p: (generic(p), errors(p)), [0])
    # known finding: equivalence with repeated operands
    f = T.B.Equivalence(T.build(S.A, "pl"), T.build(S.A, "pl"))
    if evaluate_pl(f, set()) is not True or evaluate_pl(f, {"a"}) is not True:
        check.violation("a <-> a is not true everywhere", key="a <-> a")
    check.sample({"interpretations_per_formula": len(list(interps(("a", "b"))))})
