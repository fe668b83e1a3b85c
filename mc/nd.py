"""Natural deduction: term-level proofs, reference consequence, valid proof corpora, edits.

Items: ('L', row, term, rule, cites)  or  ('B', row, variable-or-None, items); the first line of a box carries the
box's own row label.
"""
import itertools
from functools import lru_cache

from pylogics_modalities.deduction.fol.nd import NaturalDeduction as ND

from mc import space as S
from mc import terms as T

RULES = ("and_e1", "and_e2", "and_i", "assumption", "bot_e", "copy", "dneg_e", "dneg_i", "exists_e", "exists_i", "forall_e",
         "forall_i", "impl_e", "impl_i", "MT", "neg_e", "neg_i", "or_e", "or_i1", "or_i2", "premise")
ARITY = {"premise": 0, "assumption": 0, "and_i": 2, "impl_e": 2, "MT": 2, "neg_e": 2, "or_e": 3, "exists_e": 2}
PROP_RULES = tuple(r for r in RULES if not r.startswith(("forall", "exists")))
arity = lambda r: ARITY.get(r, 1)
FALSE, TRUE = ("false",), ("true",)


def neg(t):
    return ("not", t)


def imp(a, b):
    """The implication the checker works with (>>)."""
    return ("or", ("not", a), b)


def conj(a, b):
    return ("and", a, b)


def disj(a, b):
    return ("or", a, b)


@lru_cache(200000)
def lib(t, logic):
    return T.build(t, logic)


@lru_cache(2000)
def libt(t):
    return T.build_term(t)


def rule(name):
    return getattr(ND.rule, name)


def flat(items, logic, fresh=False):
    """The nested list ND.Proof takes."""
    b = T.build if fresh else lib
    bt = T.build_term if fresh else libt
    out = []
    for it in items:
        if it[0] == "L":
            _, row, t, r, cites = it
            out += [row, b(t, logic) if not hasattr(t, "logic") else t, [rule(r) if type(r) is str else r] + list(cites)]
        else:
            _, row, var, sub = it
            inner = flat(sub, logic, fresh)[1:]
            out += [row, ([bt(var)] if var is not None else []) + inner]
    return out


def check(items, logic):
    return ND.check(ND.Proof(flat(items, logic)))


def accepted(items, logic):
    return check(items, logic) is True


def L(row, t, r, *cites):
    return ("L", row, t, r, tuple(cites))


def Bx(row, var, *items):
    return ("B", row, var, tuple(items))


# ---- reference consequence ---------------------------------------------------------------------------
@lru_cache(None)
def norm(t):
    return T.norm(t)


def atoms(t, acc):
    if t[0] == "atom":
        acc.add(t[1])
    for x in t[1:]:
        if isinstance(x, tuple):
            atoms(x, acc)
    return acc


@lru_cache(None)
def _sets(names):
    return [frozenset(c) for r in range(len(names) + 1) for c in itertools.combinations(names, r)]


@lru_cache(500000)
def models_pl(t, names):
    """Bit mask of the assignments satisfying t."""
    m = 0
    for i, s in enumerate(_sets(names)):
        if T.ev_pl(t, s):
            m |= 1 << i
    return m


NAMES = ("a", "b", "c", "d")


def entails_pl(premises, concl):
    m = -1
    for p in premises:
        m &= models_pl(p, NAMES)
    return m & ((1 << (1 << len(NAMES))) - 1) & ~models_pl(concl, NAMES) == 0


@lru_cache(200000)
def entails_fol(premises, concl, budget=30000):
    """No counter-structure with 1..3 elements (3 only if the space is small); premises is a tuple."""
    sig = T.fol_signature(list(premises) + [concl])
    pred, fun, const, var = sig
    for n in (1, 2, 3):
        cnt = 1
        for a in pred.values():
            cnt *= 2 ** (n ** a)
        for a in fun.values():
            cnt *= n ** (n ** a)
        cnt *= n ** (len(const) + len(var))
        if cnt > budget and n > 1:
            if n == 2 and cnt <= 40 * budget:
                pass
            else:
                break
        for st, env in T.structures(sig, n):
            if all(T.ev_fol(p, st, env) for p in premises) and not T.ev_fol(concl, st, env):
                return False
    return True


def entails(premises, concl, logic):
    ps = tuple(sorted(set(norm(p) for p in premises), key=repr))
    return entails_pl(ps, norm(concl)) if logic == "pl" else entails_fol(ps, norm(concl))


def outside(items):
    return [it for it in items if it[0] == "L"]


def unsound_line(items, logic):
    """The first line outside boxes that does not follow from the premises."""
    premises = tuple(it[2] for it in outside(items) if it[3] == "premise")
    for it in outside(items):
        if it[3] != "premise" and not entails(premises, it[2], logic):
            return it
    return None


# ---- substitution ------------------------------------------------------------------------------------
def subst_term(t, x, s):
    if t == x:
        return s
    if t[0] == "fun":
        return t[:2] + tuple(subst_term(u, x, s) for u in t[2:])
    return t


def occurs_term(x, t):
    return t == x or (t[0] == "fun" and any(occurs_term(x, u) for u in t[2:]))


def occurs(x, t):
    """Does the term occur anywhere (also as a quantified variable)?"""
    if t[0] == "pred":
        return any(occurs_term(x, u) for u in t[2:])
    if t[0] in ("forall", "exists"):
        return t[1] == x or occurs(x, t[2])
    return any(occurs(x, u) for u in t[1:] if isinstance(u, tuple))


def free_in(x, t):
    if t[0] == "pred":
        return any(occurs_term(x, u) for u in t[2:])
    if t[0] in ("forall", "exists"):
        return t[1] != x and free_in(x, t[2])
    return any(free_in(x, u) for u in t[1:] if isinstance(u, tuple))


class Capture(Exception):
    pass


def subst(t, x, s):
    """Replace the free occurrences of x; raises Capture if s is not free for x in t."""
    if t[0] == "pred":
        return t[:2] + tuple(subst_term(u, x, s) for u in t[2:])
    if t[0] in ("forall", "exists"):
        if t[1] == x or not free_in(x, t[2]):
            return t
        if occurs_term(t[1], s):
            raise Capture()
        return (t[0], t[1], subst(t[2], x, s))
    return (t[0],) + tuple(subst(u, x, s) if isinstance(u, tuple) else u for u in t[1:])


def naive(t, x, s, everywhere=False):
    """Every result of replacing some occurrences of x in t by s, ignoring capture and binding."""
    if t[0] == "pred":
        opts = [_naive_term(u, x, s) for u in t[2:]]
        return [t[:2] + c for c in itertools.product(*opts)]
    if t[0] in ("forall", "exists"):
        return [(t[0], v, b) for v in ({t[1], s} if t[1] == x and s[0] == "var" else {t[1]}) for b in naive(t[2], x, s)]
    if len(t) == 1:
        return [t]
    return [(t[0],) + c for c in itertools.product(*[naive(u, x, s) for u in t[1:]])]


def _naive_term(u, x, s):
    if u == x:
        return [u, s]
    if u[0] == "fun":
        return [u[:2] + c for c in itertools.product(*[_naive_term(v, x, s) for v in u[2:]])]
    return [u]


def binary(t):
    """Does building t keep its top connective with exactly the given operands?"""
    return norm(t) == (t[0],) + tuple(norm(x) for x in t[1:])


def plain(t):
    """Does building t change nothing at all?"""
    return norm(t) == t


# ---- rule instances (all correct) --------------------------------------------------------------------
def pl_instances(A, B, C):
    """Correct proofs using each propositional rule on arbitrary formulas: (name, items)."""
    P = lambda row, t: L(row, t, "premise")
    H = lambda row, t: L(row, t, "assumption")
    yield "premise", (P(1, A),)
    yield "copy", (P(1, A), L(2, A, "copy", 1))
    yield "and_i", (P(1, A), P(2, B), L(3, conj(A, B), "and_i", 1, 2))
    yield "and_i", (P(1, A), P(2, B), L(3, conj(B, A), "and_i", 2, 1))
    yield "and_i", (P(1, A), L(2, conj(A, A), "and_i", 1, 1))
    if binary(conj(A, B)):
        yield "and_e1", (P(1, conj(A, B)), L(2, A, "and_e1", 1))
        yield "and_e2", (P(1, conj(A, B)), L(2, B, "and_e2", 1))
    if binary(disj(A, B)):
        yield "or_i1", (P(1, A), L(2, disj(A, B), "or_i1", 1))
        yield "or_i2", (P(1, B), L(2, disj(A, B), "or_i2", 1))
    yield "bot_e", (P(1, FALSE), L(2, A, "bot_e", 1))
    yield "dneg_i", (P(1, A), L(2, neg(neg(A)), "dneg_i", 1))
    yield "dneg_e", (P(1, neg(neg(A))), L(2, A, "dneg_e", 1))
    yield "neg_e", (P(1, A), P(2, neg(A)), L(3, FALSE, "neg_e", 1, 2))
    yield "impl_e", (P(1, A), P(2, imp(A, B)), L(3, B, "impl_e", 1, 2))
    yield "impl_e", (P(1, imp(A, B)), P(2, A), L(3, B, "impl_e", 2, 1))
    yield "MT", (P(1, imp(A, B)), P(2, neg(B)), L(3, neg(A), "MT", 1, 2))
    yield "impl_i", (Bx(1, None, H(1, A)), L(2, imp(A, A), "impl_i", 1))
    yield "impl_i", (P(1, B), Bx(2, None, H(2, A), L(3, B, "copy", 1)), L(4, imp(A, B), "impl_i", 2))
    yield "impl_i", (P(1, imp(A, B)), P(2, imp(B, C)),
                     Bx(3, None, H(3, A), L(4, B, "impl_e", 3, 1), L(5, C, "impl_e", 4, 2)), L(6, imp(A, C), "impl_i", 3))
    yield "neg_i", (P(1, neg(A)), Bx(2, None, H(2, A), L(3, FALSE, "neg_e", 2, 1)), L(4, neg(A), "neg_i", 2))
    yield "neg_i", (P(1, imp(A, B)), P(2, neg(B)),
                    Bx(3, None, H(3, A), L(4, B, "impl_e", 3, 1), L(5, FALSE, "neg_e", 4, 2)), L(6, neg(A), "neg_i", 3))
    yield "neg_i", (Bx(1, None, H(1, FALSE)), L(2, neg(FALSE), "neg_i", 1))
    yield "or_e", (P(1, disj(A, B)), P(2, C), Bx(3, None, H(3, A), L(4, C, "copy", 2)), Bx(5, None, H(5, B), L(6, C, "copy", 2)),
                   L(7, C, "or_e", 1, 3, 5))
    yield "or_e", (P(1, disj(A, B)), P(2, imp(A, C)), P(3, imp(B, C)), Bx(4, None, H(4, A), L(5, C, "impl_e", 4, 2)),
                   Bx(6, None, H(6, B), L(7, C, "impl_e", 6, 3)), L(8, C, "or_e", 1, 4, 6))
    yield "or_e", (P(1, disj(A, A)), Bx(2, None, H(2, A)), Bx(3, None, H(3, A)), L(4, A, "or_e", 1, 2, 3))
    if binary(disj(A, B)) and binary(disj(B, A)):
        yield "or_e", (P(1, disj(A, B)), Bx(2, None, H(2, A), L(3, disj(B, A), "or_i2", 2)),
                       Bx(4, None, H(4, B), L(5, disj(B, A), "or_i1", 4)), L(6, disj(B, A), "or_e", 1, 2, 4))
    yield "nested", (Bx(1, None, H(1, A), Bx(2, None, H(2, B), L(3, A, "copy", 1)), L(4, imp(B, A), "impl_i", 2)),
                     L(5, imp(A, imp(B, A)), "impl_i", 1))
    yield "nested", (P(1, imp(A, C)), Bx(2, None, H(2, A), Bx(3, None, H(3, B), Bx(4, None, H(4, neg(C)), L(5, C, "impl_e", 2, 1),
                     L(6, FALSE, "neg_e", 5, 4)), L(7, neg(neg(C)), "neg_i", 4), L(8, C, "dneg_e", 7)), L(9, imp(B, C), "impl_i", 3)),
                     L(10, imp(A, imp(B, C)), "impl_i", 2))
    # the same box cited twice, and a box followed by another one reusing nothing
    yield "reuse", (P(1, B), Bx(2, None, H(2, A), L(3, B, "copy", 1)), L(4, imp(A, B), "impl_i", 2), L(5, imp(A, B), "impl_i", 2),
                    Bx(6, None, H(6, C), L(7, B, "copy", 1), L(8, imp(A, B), "copy", 4)), L(9, imp(C, imp(A, B)), "impl_i", 6))


V = {n: ("var", n) for n in "xyzuvw"}
K = ("const", "c", None)
CK = {n: ("const", n, None) for n in "cde"}


def fol_instances(phi, x, t, chi, ctx=None):
    """Correct uses of the quantifier rules: phi a body, x a variable, t a term, chi a side formula."""
    P = lambda row, f: L(row, f, "premise")
    try:
        inst = subst(phi, x, t)
    except Capture:
        return
    if not (plain(phi) and plain(inst)):
        return
    fa, ex = ("forall", x, phi), ("exists", x, phi)
    yield "forall_e", (P(1, fa), L(2, inst, "forall_e", 1))
    yield "exists_i", (P(1, inst), L(2, ex, "exists_i", 1))
    yield "forall_e+exists_i", (P(1, fa), L(2, inst, "forall_e", 1), L(3, ex, "exists_i", 2))
    vars_ = (t,) if t[0] == "var" else ()
    for a in vars_:
        # the box term must be new: it occurs in no visible line
        if not (occurs(a, fa) or occurs(a, chi)):
            yield "forall_i", (P(1, fa), Bx(2, a, L(2, inst, "forall_e", 1)), L(3, fa, "forall_i", 2))
            yield "forall_i", (P(1, fa), P(2, chi), Bx(3, a, L(3, inst, "forall_e", 1), L(4, chi, "copy", 2), L(5, inst, "copy", 3)),
                               L(6, fa, "forall_i", 3))
            both = conj(phi, chi)
            if plain(both) and plain(conj(inst, chi)) and not free_in(x, chi):
                yield "forall_i", (P(1, fa), P(2, chi), Bx(3, a, L(3, inst, "forall_e", 1), L(4, conj(inst, chi), "and_i", 3, 2)),
                                   L(5, ("forall", x, both), "forall_i", 3))
            yield "exists_e", (P(1, ex), P(2, chi), Bx(3, a, L(3, inst, "assumption"), L(4, chi, "copy", 2)), L(5, chi, "exists_e", 1, 3))
            yield "exists_e", (P(1, ex), Bx(2, a, L(2, inst, "assumption"), L(3, ex, "exists_i", 2)), L(4, ex, "exists_e", 1, 2))
            if not free_in(x, chi) and plain(imp(phi, chi)) and plain(imp(inst, chi)):
                yield "exists_e", (P(1, ex), P(2, ("forall", x, imp(phi, chi))), Bx(3, a, L(3, inst, "assumption"),
                                   L(4, imp(inst, chi), "forall_e", 2), L(5, chi, "impl_e", 3, 4)), L(6, chi, "exists_e", 1, 3))
        # the box term may be the quantified variable itself
        if (a == x or not occurs(a, phi)) and not occurs(a, chi) and not free_in(x, chi):
            f, g = imp(phi, chi), imp(inst, chi)
            if plain(f) and plain(g):
                yield "forall_i", (P(1, chi), Bx(2, a, L(2, chi, "copy", 1), Bx(3, None, L(3, inst, "assumption"), L(4, chi, "copy", 1)),
                                                 L(5, g, "impl_i", 3)), L(6, ("forall", x, f), "forall_i", 2))


def rows_of(items, acc=None):
    acc = [] if acc is None else acc
    for it in items:
        acc.append(it[1])
        if it[0] == "B":
            rows_of(it[3], acc)
    return acc


def relabel(items, f):
    out = []
    for it in items:
        if it[0] == "L":
            out.append(("L", f(it[1]), it[2], it[3], tuple(f(c) for c in it[4])))
        else:
            out.append(("B", f(it[1]), it[2], relabel(it[3], f)))
    return tuple(out)


LABELS = {
    "numbers": lambda r: r, "offset": lambda r: r + 100, "zero": lambda r: r - 1, "negative": lambda r: -r, "strings": lambda r: "r%d" % r,
    "pairs": lambda r: (r, "x"), "reversed": lambda r: 1000 - r, "floats": lambda r: r + 0.5, "dotted": lambda r: "%d.%d" % (r // 2, r),
    "scrambled": lambda r: r * 7919 % 101, "same beginning": lambda r: "line number %d" % r, "same end": lambda r: "%d. line of the proof" % r, "prefixes": lambda r: "a" * r,
    "case": lambda r: "".join("aA"[r >> k & 1] for k in range(9)), "blanks": lambda r: " " * r, "number and text": lambda r: r if r % 2 else str(r + 1), "leading zeros": lambda r: ("%d" if r % 2 else "0%d") % (r // 2),
    "empty": lambda r: {1: "", 2: (), 3: 0, 4: None, 5: frozenset(), 6: b""}.get(r, r), "huge": lambda r: r + 2 ** 64, "sets": lambda r: frozenset({r, "x"}), "nested": lambda r: (1, (2, r)),
}


def no_premises(items):
    """The same derivation with premises turned into assumptions of nested boxes (each box holds the rest)."""
    prem = [it for it in items if it[0] == "L" and it[3] == "premise"]
    rest = [it for it in items if not (it[0] == "L" and it[3] == "premise")]
    if [it for it in items[: len(prem)] if not (it[0] == "L" and it[3] == "premise")]:
        return None
    if not rest:
        rest = [L(max(rows_of(items)) + 1, prem[-1][2], "copy", prem[-1][1])]
    for p in reversed(prem):
        rest = [Bx(p[1], None, L(p[1], p[2], "assumption"), *rest)]
    return tuple(rest)


def in_box(items, side, var=None):
    """The premises stay outside; everything else moves into a box with an unrelated assumption or variable."""
    k = 0
    while k < len(items) and items[k][0] == "L" and items[k][3] == "premise":
        k += 1
    rest = items[k:]
    if not rest:
        return None
    r = 500
    if var is None:
        return items[:k] + (Bx(r, None, L(r, side, "assumption"), *rest),)
    return items[:k] + (L(r + 1, side, "premise"), Bx(r, var, L(r, side, "copy", r + 1), *rest))


# ---- edits -------------------------------------------------------------------------------------------
def paths(items, pre=()):
    for i, it in enumerate(items):
        yield pre + (i,), it
        if it[0] == "B":
            yield from paths(it[3], pre + (i,))


def replace_at(items, path, new):
    """new: a list of items replacing the item at the path."""
    i = path[0]
    if len(path) == 1:
        return items[:i] + tuple(new) + items[i + 1:]
    b = items[i]
    return items[:i] + (b[:3] + (replace_at(b[3], path[1:], new),),) + items[i + 1:]


def proper(items):
    """Is the item list expressible in the proof format (first line of a box labelled like the box)?"""
    for it in items:
        if it[0] == "B":
            sub = it[3]
            if not sub or sub[0][1] != it[1] or not proper(sub):
                return False
            if it[2] is not None and sub[0][0] != "L":
                return False
            if it[2] is None and sub[0][0] == "B":
                return False
    return True


def edits(items, pool, terms, extra_rows=(), rules=RULES, logic="pl"):
    """All proofs one edit away: another formula, rule, citation list, box variable; deleted, duplicated, moved or unboxed items."""
    rows = list(dict.fromkeys(rows_of(items))) + list(extra_rows)
    all_items = list(paths(items))
    for path, it in all_items:
        if it[0] == "L":
            _, row, t, r, cites = it
            for f in pool:
                if f != t:
                    yield replace_at(items, path, [("L", row, f, r, cites)])
            for q in rules:
                if q != r:
                    yield replace_at(items, path, [("L", row, t, q, cites)])
            for k in range(len(cites)):
                for c in rows:
                    if c != cites[k]:
                        yield replace_at(items, path, [("L", row, t, r, cites[:k] + (c,) + cites[k + 1:])])
            if len(cites) > 1:
                yield replace_at(items, path, [("L", row, t, r, cites[::-1])])
                yield replace_at(items, path, [("L", row, t, r, cites[1:])])
                yield replace_at(items, path, [("L", row, t, r, cites[1:] + cites[:1])])
            for c in rows:
                yield replace_at(items, path, [("L", row, t, r, cites + (c,))])
            if cites:
                yield replace_at(items, path, [("L", row, t, r, ())])
            for c in rows:  # the row label of another item
                if c != row:
                    yield replace_at(items, path, [("L", c, t, r, cites)])
        else:
            _, row, var, sub = it
            for v in list(terms) + [None]:
                if v != var:
                    yield replace_at(items, path, [("B", row, v, sub)])
            yield replace_at(items, path, list(sub))  # unboxed
            for c in rows:  # the row label of another item
                if c != row and sub[0][0] == "L":
                    yield replace_at(items, path, [("B", c, var, (("L", c) + sub[0][2:],) + sub[1:])])
            for k in range(1, len(sub)):
                yield replace_at(items, path, [("B", row, var, sub[:k])] + list(sub[k:]))  # closed too early
                yield replace_at(items, path, [("B", row, var, sub[:k])])
        yield replace_at(items, path, [])
        others = [p for p, _ in all_items if len(p) == len(path) and p[:-1] == path[:-1] and p[-1] == path[-1] + 1]
        for p in others:  # swap with the next item, or swallow the next item into the box
            nxt = dict(all_items)[p]
            swapped = replace_at(items, path, [nxt])
            yield replace_at(swapped, p, [it])
            if it[0] == "B":
                yield replace_at(replace_at(items, p, []), path, [("B", it[1], it[2], it[3] + (nxt,))])


def edits_proper(*a, **k):
    for e in edits(*a, **k):
        if e and proper(e):
            yield e


# ---- long and deep proofs ----------------------------------------------------------------------------
def long_valid(n, A, B, C, fol=False):
    """Correct proofs of about n lines: (name, items, paths of interest or None for all)."""
    nn = lambda i, t: t if i % 2 == 0 else neg(neg(t))
    chain = [L(1, A, "premise"), L(2, B, "premise"), L(3, conj(A, B), "and_i", 1, 2)]
    for i in range(4, n + 1):
        k = i % 6
        chain.append((L(i, A, "copy", 1), L(i, B, "and_e2", 3), L(i, conj(A, B), "and_i", 1, i - 1), L(i, neg(neg(A)), "dneg_i", 1),
                      L(i, disj(A, C), "or_i1", 1), L(i, B, "and_e2", 3))[k] if k != 2 else L(i, A, "and_e1", 3))
    yield "chain", tuple(chain)
    # one line built on the previous one all the way
    up = [L(1, A, "premise")]
    for i in range(2, n + 1):
        up.append(L(i, neg(neg(A)), "dneg_i", i - 1) if i % 2 == 0 else L(i, A, "dneg_e", i - 1))
    yield "alternation", tuple(up)
    # many boxes one after the other
    boxes = [L(1, B, "premise")]
    r = 2
    while r < n:
        boxes += [Bx(r, None, L(r, A, "assumption"), L(r + 1, B, "copy", r - 1 if r == 2 else 1)), L(r + 2, imp(A, B), "impl_i", r)]
        r += 3
    yield "boxes", tuple(boxes)
    # boxes inside each other, each discharged
    def nest(k, d):
        here = (L(k, A if k % 2 else C, "assumption"),)
        if d > 1:
            sub = nest(k + 1, d - 1)
            inner = sub[3]
            last = inner[-1]
            return Bx(k, None, *here, sub, L(1000 + k, imp(inner[0][2], last[2]), "impl_i", k + 1))
        return Bx(k, None, *here, L(1000 + k, B, "copy", 1))
    for d in (4, 9, 17, min(40, max(2, n // 5))):
        b = nest(2, d)
        yield "nest %d" % d, (L(1, B, "premise"), b, L(2000, imp(b[3][0][2], b[3][-1][2]), "impl_i", 2))
    # a long box, and a long list of premises
    body = [L(2, A, "assumption")] + [L(i, B if i % 2 else A, "copy", 1 if i % 2 else 2) for i in range(3, n)]
    yield "long box", (L(1, B, "premise"), Bx(2, None, *body), L(n, imp(A, body[-1][2]), "impl_i", 2))
    yield "premises", tuple(L(i, C if i % 3 else A, "premise") for i in range(1, n)) + (L(n, conj(C, A), "and_i", n - 1 if (n - 1) % 3 else n - 2, 3), L(n + 1, C, "copy", 1))


def long_breaks(items, wrong):
    """One wrong line at every place: an underivable formula, an unavailable row, a premise or assumption where none may be."""
    rows = rows_of(items)
    for path, it in list(paths(items)):
        if it[0] == "L":
            _, row, t, r, cites = it
            if r not in ("premise", "assumption"):
                yield "underivable formula", replace_at(items, path, [L(row, wrong, r, *cites)])
                yield "row that does not exist", replace_at(items, path, [L(row, t, r, *([77777] + list(cites[1:])))])
                yield "own row", replace_at(items, path, [L(row, t, "copy", row)])
                yield "wrong copy", replace_at(items, path, [L(row, wrong, "copy", rows[0])])
                yield "assumption outside", replace_at(items, path, [L(row, wrong, "assumption")])
                if len(path) > 1:
                    yield "premise in a box", replace_at(items, path, [L(row, wrong, "premise")])
        else:
            _, row, var, sub = it
            inside = [q for q in rows_of(sub) if q != row]
            nxt = path[:-1] + (path[-1] + 1,)
            if inside:
                yield "row of a closed box", replace_at(items, path, [it, L(88888, sub[-1][2] if sub[-1][0] == "L" else FALSE, "copy", inside[-1])])
            yield "box copied", replace_at(items, path, [it, L(88888, sub[0][2] if sub[0][0] == "L" else FALSE, "copy", row)])
            yield "wrong line in the box", replace_at(items, path, [("B", row, var, sub + (L(88888, wrong, "copy", row),))])


def exported(items, path):
    """The proof cut behind the item at the path, with every open box closed and its last line exported by impl_i; None if that is not a line."""
    def cut(its, p):
        i = p[0]
        if len(p) == 1:
            return its[: i + 1]
        b = its[i]
        sub = cut(b[3], p[1:])
        if sub is None or sub[-1][0] != "L" or b[2] is not None:
            return None
        return its[:i] + (("B", b[1], None, sub), L(60000 + len(p), imp(sub[0][2], sub[-1][2]), "impl_i", b[1]))
    return cut(items, path)


def wrong_lines(items, wrong):
    """Proofs in which every line in turn is replaced by one that does not follow, and its consequence exported from all boxes."""
    rows = rows_of(items)
    for path, it in list(paths(items)):
        after = path[:-1] + (path[-1] + 1,)
        inside = [q for q in rows_of(it[3]) if q != it[1]] if it[0] == "B" else []
        if it[0] == "L" and it[3] not in ("premise", "assumption"):
            for line in (L(it[1], wrong, it[3], *it[4]), L(it[1], wrong, "copy", rows[0]), L(it[1], wrong, "assumption"), L(it[1], wrong, "copy", it[1])) + \
                    ((L(it[1], wrong, "premise"),) if len(path) > 1 else ()):
                e = exported(replace_at(items, path, [line]), path)
                if e:
                    yield "wrong line", e
        elif it[0] == "B":
            last = it[3][-1]
            for line in (L(88888, it[3][0][2], "copy", it[1]), L(88888, wrong, "copy", it[1])) + \
                    ((L(88888, last[2], "copy", inside[-1]),) if inside and last[0] == "L" else ()):
                e = exported(replace_at(items, path, [it, line]), after)
                if e:
                    yield "box left", e
                for q in (rows[0], rows[-1], it[1] - 1 if isinstance(it[1], int) else 0):
                    if q in rows and q != it[1] and it[3][0][0] == "L":
                        # the box carries the label of another item
                        e = exported(replace_at(items, path, [("B", q, it[2], (("L", q) + it[3][0][2:],) + it[3][1:]), line]), after)
                        if e:
                            yield "box left, label used twice", e


def aliased(items, side):
    """The same derivation after an unrelated premise or closed box, with each of its boxes (and each of its lines) carrying that item's label."""
    for path, it in list(paths(items)):
        r = it[1]
        if path[-1] == 0 and len(path) > 1:
            continue  # labelled like its box
        q = relabel(items, lambda v: 6000 if v == r else v)
        yield (L(6000, side, "premise"),) + q
        if it[0] == "B":
            yield (Bx(6000, None, L(6000, side, "assumption"), L(6001, side, "copy", 6000)),) + q


def rename(t, names):
    """Other names for variables, constants, functions and predicates."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ("var", "const", "fun", "pred"):
        return (t[0], names(t[1], t[0])) + tuple(rename(u, names) for u in t[2:])
    return tuple(rename(u, names) for u in t)


def renamed(items, names):
    return tuple(("L", it[1], rename(it[2], names)) + it[3:] if it[0] == "L" else ("B", it[1], rename(it[2], names) if it[2] is not None else None, renamed(it[3], names)) for it in items)


NAMINGS = {
    "long": lambda n, k: "%s_is_quite_a_long_name_for_a_%s_0123456789" % (n, k),
    "upper": lambda n, k: (n.upper() if n.islower() else n.lower()) + k[0].upper(),
    "digits": lambda n, k: "%s%d" % (k[0], sum(map(ord, n)) * (1 if n.islower() else 3)),
    "prefixes": lambda n, k: "a" * (ord(n[0]) - 48) + k[0],
    "marked": lambda n, k: "%s'%s" % (n, k[:2]),
}
