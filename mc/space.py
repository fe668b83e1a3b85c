"""Exhaustive term spaces: every raw term with up to n nodes over a small alphabet."""
import itertools
from functools import lru_cache

A, Bq, C = ("atom", "a"), ("atom", "b"), ("atom", "c")

UNARY = {"pl": ("not",), "ltl": ("not", "X", "X!", "F", "G"), "pltl": ("not", "Y", "Z", "O", "H"), "ldl": ("not",),
         "fol": ("not",)}
NARY = {
    "pl": ("and", "or", "imp", "iff"),
    "ltl": ("and", "or", "imp", "iff", "U", "W", "R", "M"),
    "pltl": ("and", "or", "imp", "iff", "S", "T"),
    "ldl": ("and", "or", "imp", "iff"),
    "fol": ("and", "or", "imp", "iff"),
}
CONSTS = {
    "pl": (("true",), ("false",)),
    "ltl": (("true",), ("false",), ("ptrue",), ("pfalse",)),
    "pltl": (("true",), ("false",), ("ptrue",), ("pfalse",)),
    "ldl": (("true",), ("false",)),
    "fol": (("true",), ("false",)),
}

X, Yv, K = ("var", "x"), ("var", "y"), ("const", "c", None)
PX, PY, PK, Q0 = ("pred", "P", X), ("pred", "P", Yv), ("pred", "P", K), ("pred", "Q")
RXY = ("pred", "R", X, Yv)
PFX = ("pred", "P", ("fun", "f", X))


def leaves(logic, atoms=("a", "b"), consts=True):
    if logic == "fol":
        base = [PX, Q0] if len(atoms) <= 2 else [PX, PK, Q0]
    elif logic == "ldl":
        base = []
    else:
        base = [("atom", n) for n in atoms]
    return tuple(base) + (CONSTS[logic] if consts is True else tuple(consts))


@lru_cache(None)
def terms(logic, n, lv, max_arity=3):
    """All raw terms with exactly n nodes (leaves lv)."""
    out = []
    if n == 1:
        return tuple(lv)
    for op in UNARY[logic]:
        out.extend((op, t) for t in terms(logic, n - 1, lv, max_arity))
    if logic == "fol":
        for q in ("forall", "exists"):
            for v in (X, Yv):
                out.extend((q, v, t) for t in terms(logic, n - 1, lv, max_arity))
    if logic == "ldl":
        for k in range(1, n - 1):
            for r in regexes(k, lv, max_arity):
                for t in terms(logic, n - 1 - k, lv, max_arity):
                    out.append(("dia", r, t))
                    out.append(("box", r, t))
    for ar in range(2, max_arity + 1):
        for split in compositions(n - 1, ar):
            for ops in itertools.product(*[terms(logic, k, lv, max_arity) for k in split]):
                out.extend((op,) + ops for op in NARY[logic])
    return tuple(out)


RE_LEAVES = (("prop", A), ("prop", ("not", A)), ("prop", ("true",)))


@lru_cache(None)
def regexes(n, lv, max_arity=3):
    """Regular expressions; a propositional expression counts as one node."""
    if n == 1:
        return RE_LEAVES
    out = [("star", r) for r in regexes(n - 1, lv, max_arity)]
    out.extend(("test", t) for t in terms("ldl", n - 1, lv, max_arity))
    for ar in range(2, max_arity + 1):
        for split in compositions(n - 1, ar):
            for ops in itertools.product(*[regexes(k, lv, max_arity) for k in split]):
                out.append(("seq",) + ops)
                out.append(("union",) + ops)
    return tuple(out)


def compositions(n, k):
    if k == 1:
        if n >= 1:
            yield (n,)
        return
    for i in range(1, n - k + 2):
        for rest in compositions(n - i, k - 1):
            yield (i,) + rest


def upto(logic, n, lv, max_arity=3):
    for k in range(1, n + 1):
        yield from terms(logic, k, lv, max_arity)


def count_upto(logic, n, lv, max_arity=3):
    return sum(len(terms(logic, k, lv, max_arity)) for k in range(1, n + 1))


def wide(ops_pool, tags, max_arity, min_arity=2):
    """All operator applications of the given arities to a pool of operands."""
    for ar in range(min_arity, max_arity + 1):
        for ops in itertools.product(ops_pool, repeat=ar):
            for tag in tags:
                yield (tag,) + ops


def chains(unary, depth, inner):
    """All chains of unary operators up to a depth on the given innermost terms."""
    for d in range(1, depth + 1):
        for ch in itertools.product(unary, repeat=d):
            for t in inner:
                for op in reversed(ch):
                    t = (op, t)
                yield t


@lru_cache(None)
def terms_over(n, lv, unary, nary, max_arity=3):
    """All terms with exactly n nodes over explicit operators (leaves count as one node)."""
    if n == 1:
        return tuple(lv)
    out = [(op, t) for op in unary for t in terms_over(n - 1, lv, unary, nary, max_arity)]
    for ar in range(2, max_arity + 1):
        for split in compositions(n - 1, ar):
            for ops in itertools.product(*[terms_over(k, lv, unary, nary, max_arity) for k in split]):
                out.extend((op,) + ops for op in nary)
    return tuple(out)


def upto_over(n, lv, unary, nary, max_arity=3):
    for k in range(1, n + 1):
        yield from terms_over(k, lv, unary, nary, max_arity)


# operands of every shape, per logic, to combine with connectives
DIA = ("dia", ("prop", A), ("true",))
BOX = ("box", ("prop", A), ("false",))
POOL = {
    "pl": (A, Bq, ("not", A), ("true",), ("false",), ("and", A, Bq), ("or", A, Bq), ("imp", A, Bq), ("iff", A, Bq)),
    "ltl": (A, Bq, ("not", A), ("true",), ("false",), ("ptrue",), ("pfalse",), ("X", A), ("U", A, Bq), ("and", A, Bq), ("or", A, Bq)),
    "pltl": (A, Bq, ("not", A), ("true",), ("false",), ("ptrue",), ("pfalse",), ("Y", A), ("S", A, Bq), ("and", A, Bq), ("or", A, Bq)),
    "ldl": (DIA, BOX, ("not", DIA), ("true",), ("false",), ("and", DIA, BOX), ("or", DIA, BOX)),
    "fol": (PX, PY, Q0, ("not", PX), ("true",), ("false",), ("forall", X, PX), ("and", PX, Q0), ("or", PX, Q0)),
}
