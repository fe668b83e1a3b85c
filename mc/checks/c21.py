"""C21: every sequence of operations up to a depth, then every probe; the process itself is the state (one fork per sequence)."""
import copy
import itertools
import pickle

from pylogics_modalities.helpers import misc
from pylogics_modalities.parsers import parse_ldl, parse_ltl, parse_pl, parse_pltl
from pylogics_modalities.semantics.pl import evaluate_pl
from pylogics_modalities.syntax import base as B_
from pylogics_modalities.syntax import fol as F
from pylogics_modalities.syntax import ldl as D
from pylogics_modalities.syntax import ltl as LT
from pylogics_modalities.syntax import pl as PL
from pylogics_modalities.syntax.base import get_cache_context, reset_cache
from pylogics_modalities.utils.to_string import to_string

from mc import nd
from mc import sched
from mc import space as S
from mc import terms as T
from mc.core import Violation, chunked
from mc.nd import CK, V, Bx, L

ASSUMPTIONS = ["a fresh state is a process that has only imported the library (and built the old formulas)"]
A, B, C = S.A, S.Bq, S.C
x, y, c = V["x"], V["y"], CK["c"]
P = lambda *t: ("pred", "P") + t
FORMULAS = {
    "pl": [A, ("and", A, B), ("and", B, A), ("or", ("not", B), A), ("imp", A, ("not", B)), ("iff", B, A, C), ("and", A, ("not", A)), ("true",), ("or", ("and", B, A), ("and", A, B))],
    "ltl": [A, ("U", A, B), ("U", A, B, C), ("X", ("and", B, A)), ("and", B, A), ("F", ("ptrue",)), ("R", B, A), ("not", ("X!", A))],
    "pltl": [A, ("S", A, B), ("Y", ("or", B, A)), ("T", B, A), ("H", ("pfalse",))],
    "ldl": [("dia", ("seq", ("prop", B), ("star", ("prop", A))), ("true",)), ("box", ("union", ("prop", B), ("prop", A)), ("false",)), ("and", S.BOX, S.DIA),
            ("dia", ("test", S.BOX), ("true",)), ("box", ("prop", ("and", B, A)), ("not", S.DIA))],
    "fol": [P(x), P(c), ("forall", x, P(x)), ("and", P(y), P(x)), ("exists", x, ("or", P(("fun", "f", x)), P(y))), ("pred", "x"), P(("const", "x", None))],
}
TEXTS = {
    "pl": ["b & a", "a & b", "a -> b | !c", "(a <-> b) & true", "a & & b", "a b", "", "!!a"],
    "ltl": ["b U a R c", "X[!] X a & b", "F G a", "last & end", "tt | b", "a U", "X[!]"],
    "pltl": ["b S a", "Y O a | H b", "start & first", "a S (b", "Z Z a"],
    "ldl": ["<b;a*>tt", "[a+<b>tt?]ff", "<a>end & [b]last", "{a}tt", "<a", "<a & b>tt", "[true]<a>tt"],
}
PARSE = {"pl": parse_pl, "ltl": parse_ltl, "pltl": parse_pltl, "ldl": parse_ldl}
PROOF = (L(1, ("and", A, B), "premise"), L(2, B, "and_e2", 1), Bx(3, None, L(3, C, "assumption"), L(4, B, "copy", 2)), L(5, nd.imp(C, B), "impl_i", 3))
FPROOF = (L(1, ("forall", x, P(x)), "premise"), Bx(2, y, L(2, P(y), "forall_e", 1)), L(3, ("forall", x, P(x)), "forall_i", 2), L(4, ("exists", x, P(x)), "exists_i", 1))


def show(f):
    if isinstance(f, B_.Formula):
        return T.read(f), to_string(f) if f.logic.value not in ("fol", "re") else None, str(f), f.logic.value
    return f


def attempt(fn):
    try:
        return "ok", show(fn())
    except Exception as e:
        return "err", type(e).__name__, str(e)[:80] if not isinstance(e, TypeError) else ""


def proof(items, logic):
    return nd.ND.check(nd.ND.Proof(nd.flat(items, logic, fresh=True)))


OPS = {
    "reset": reset_cache,
    "build pl": lambda: [T.build(t, "pl") for t in FORMULAS["pl"]],
    "build pl mirrored": lambda: [T.build(t, "pl") for t in (("and", B, A), ("or", A, ("not", B)), ("iff", C, A, B), ("imp", B, A))],
    "build ltl": lambda: [T.build(t, "ltl") for t in FORMULAS["ltl"]],
    "build ltl mirrored": lambda: [T.build(t, "ltl") for t in (("and", A, B), ("X", ("and", A, B)), ("U", B, A), ("R", A, B))],
    "build pltl": lambda: [T.build(t, "pltl") for t in FORMULAS["pltl"]],
    "build ldl": lambda: [T.build(t, "ldl") for t in FORMULAS["ldl"]],
    "build ldl mirrored": lambda: [T.build(t, "ldl") for t in (("box", ("union", ("prop", A), ("prop", B)), ("false",)), ("and", S.DIA, S.BOX), ("box", ("prop", ("and", A, B)), S.DIA))],
    "build fol": lambda: [T.build(t, "fol") for t in FORMULAS["fol"] + [P(("var", "c")), ("forall", y, P(y)), ("and", P(x), P(y))]],
    "parse pl": lambda: [PARSE["pl"](s) for s in TEXTS["pl"][:3]],
    "parse ltl": lambda: [PARSE["ltl"](s) for s in TEXTS["ltl"][:4]],
    "parse pltl": lambda: [PARSE["pltl"](s) for s in TEXTS["pltl"][:3]],
    "parse ldl": lambda: [PARSE["ldl"](s) for s in TEXTS["ldl"][:3]],
    "parse errors": lambda: [attempt(lambda: PARSE[k](s)) for k in TEXTS for s in TEXTS[k]],
    "refused": lambda: [attempt(f) for f in (lambda: T.build(A, "pl") & T.build(A, "ltl"), lambda: B_.And(), lambda: LT.Until(T.build(A, "pl")), lambda: PL.Atomic("0"),
                                             lambda: D.Diamond(T.build(A, "pl"), T.build(("true",), "ldl")), lambda: F.ForAll(1, 2), lambda: B_.Not(3))],
    "print": lambda: [show(T.build(t, k)) for k in FORMULAS for t in FORMULAS[k]],
    "evaluate": lambda: [evaluate_pl(T.build(t, "pl"), s) for t in FORMULAS["pl"] for s in ({"a"}, {"b": True}, set())],
    "evaluate errors": lambda: [attempt(lambda: evaluate_pl(T.build(A, "pl"), 3)), attempt(lambda: evaluate_pl(T.build(A, "ltl"), {"a"}))],
    "proofs": lambda: [proof(PROOF, "pl"), proof(FPROOF, "fol"), proof(PROOF[1:], "pl"), proof(FPROOF[1:], "fol")],
    "serialize": lambda: [pickle.loads(pickle.dumps(T.build(t, k))) for k in FORMULAS for t in FORMULAS[k]] + [copy.deepcopy(T.build(t, "pl")) for t in FORMULAS["pl"]],
    "hash": lambda: [hash(T.build(t, k)) for k in FORMULAS for t in FORMULAS[k]],
}
OLD = {}


def old_formulas():
    for k in FORMULAS:
        OLD[k] = [T.build(t, k) for t in FORMULAS[k]]


def with_old(logic, i):
    """Old and new formulas together."""
    def go():
        f = OLD[logic][i]
        g = T.build(FORMULAS[logic][i], logic)
        other = OLD[logic][(i + 1) % len(OLD[logic])]
        out = [f == g, g == f, hash(f) == hash(g), f in {g}, g in {f: 1}, T.read(f), show(B_.And(f, other)), show(B_.Or(other, g)), show(B_.Not(f)), show(B_.And(g, f)),
               show(B_.Implies(f, other)), show(B_.Equivalence(f, other)), pickle.loads(pickle.dumps(f)) == g, copy.deepcopy(g) == f, f != other, f.logic == g.logic,
               B_.And(f, other) == B_.And(g, T.build(FORMULAS[logic][(i + 1) % len(OLD[logic])], logic)), B_.Not(f) == B_.Not(g), hash(B_.Or(f, other)) == hash(B_.Or(g, other))]
        if logic == "pl":
            out += [evaluate_pl(f, s) for s in ({"a"}, {"b"}, {"a", "b", "c"}, set())]
        if logic in ("pl", "fol"):
            out.append(nd.ND.check(nd.ND.Proof([1, f, [nd.ND.rule.premise], 2, B_.Not(B_.Not(g)), [nd.ND.rule.dneg_i, 1], 3, f, [nd.ND.rule.dneg_e, 2]])))
        if logic == "ltl":
            out += [show(LT.Until(f, other)), show(LT.Next(g)), LT.Next(g) == LT.Next(f)]
        if logic == "ldl":
            out += [show(D.Diamond(D.Test(f), g)), D.Diamond(D.Test(f), g) == D.Diamond(D.Test(g), f)]
        ctx = get_cache_context()
        out.append(all(k.logic == lg for lg, d in ctx.items() for k in d))
        return out
    return go


def probes():
    for k in FORMULAS:
        for i, t in enumerate(FORMULAS[k]):
            yield "build %s %r" % (k, t), lambda t=t, k=k: T.build(t, k)
            yield "old and new %s %r" % (k, t), with_old(k, i)
    for k in TEXTS:
        for s in TEXTS[k]:
            yield "parse_%s(%r)" % (k, s), lambda s=s, k=k: PARSE[k](s)
    for name in ("refused", "evaluate", "evaluate errors", "proofs"):
        yield name, lambda name=name: OPS[name]()
    yield "proofs again", lambda: [proof(PROOF, "pl"), proof(FPROOF[:1] + FPROOF[2:], "fol"), proof(PROOF[:2] + PROOF[3:], "pl")]
    yield "make_boolean", lambda: [show(B_.make_boolean(b, lg)) for b in (True, False) for lg in B_.Logic]
    yield "atom names", lambda: [attempt(lambda n=n: PL.Atomic(n)) for n in ("a", "A", "", "a b", '"a b"', "true", "a-b", "_")]


PROBES = list(probes())


def run_probes(order):
    return [(i, attempt(PROBES[i][1])) for i in order]


def fresh_results():
    return {i: sched.forked(lambda: (old_formulas(), attempt(PROBES[i][1]))[1]) for i in range(len(PROBES))}


def node(history, depth, ops, order, want, stats):
    """We are the process that has executed the history. Probe in a child, extend in further children."""
    def probing():
        for i, r in run_probes(order):
            if r != want[i]:
                return {"probe": PROBES[i][0], "got": r, "fresh": want[i], "history": history}
        return None

    bad = sched.forked(probing)
    stats[0] += 1
    stats[1] += len(order)
    if bad:
        return bad
    if depth == 0:
        return None

    def extend(op):
        def go():
            r = attempt(OPS[op])
            if r[0] != "ok":
                return {"probe": "operation " + op, "got": r, "fresh": "-", "history": history + [op]}, (0, 0)
            sub = [0, 0]
            return node(history + [op], depth - 1, ops, order, want, sub), sub
        return go

    for op in ops:
        bad, sub = sched.forked(extend(op))
        stats[0] += sub[0]
        stats[1] += sub[1]
        if bad:
            return bad
    return None


# ---- all ordered pairs of single calls ---------------------------------------------------------------
NEAR = {
    "pl": ["ab & c", "a b & c", "a&b", "a & b", "a & b ", " a & b", "(a & b)", "((a) & b)", "a && b", "A & b", "a & B", "a | b", "b & a", "a->b", "a >> b", "a - > b", "a -> b -> c", "(a -> b) -> c", "a -> (b -> c)",
           "!a", "~a", "! a", "!!a", "!!!a", '"a"', '"a" & b', '"a & b"', '"A"', '" a"', '"a "', "true", "tru e", "truE", "true & a", "true1 & a", "a-b", "a - b", "a -b", "a_b", "a <-> b", "a < -> b", "a <-> b <-> a",
           "a & b & c", "(a & b) & c", "a & (b & c)", "a & b | c", "a & (b | c)", "a & !a", "a & ! a & b", "a\tb", "a\t& b", "a & b # c", "a & b\n", "", " ", "(", "()", "a)", "(a"],
    "ltl": ["X a", "X(a)", 'X"a"', "Xa", "X[!] a", "X [!] a", "X[!](a)", "a U b", "a Ub", "aU b", "a U(b)", "a U b U c", "(a U b) U c", "a U (b U c)", "G F a", "GF a", "F G a", "last", "las t", "last1", "tt", "t t",
            "true", "tt & a", "true & a", "a & b", "b & a", "a R b", "a M b", "a W b", "!X a", "X !a", "! X a", "a & & b", '"X a"', "a U b | c", "a U (b | c)"],
    "pltl": ["Y a", "Z a", "Y(a)", "Ya", "O a", "H a", "a S b", "a S b S c", "(a S b) S c", "a T b", "start", "star t", "start1", "tt", "true", "a & b", "b & a", "a S", "Y Y a", "YY a", "O H a", "H O a"],
    "ldl": ["<a>tt", "< a > tt", "[a]tt", "<a>ff", "<b>tt", "<a;b>tt", "<a ; b>tt", "<(a;b)>tt", "<b;a>tt", "<a+b>tt", "<b+a>tt", "<a*>tt", "<(a)*>tt", "<(a*)*>tt", "<a**>tt", "<a & b>tt", "<b & a>tt", "<tt?>tt", "<(tt)?>tt",
            "<tt>tt", "<true>tt", "<tr ue>tt", "last", "end", "<true>end", "[true]ff", "!<a>tt", "<!a>tt", "<a>tt & <b>tt", "<b>tt & <a>tt", "<a>(tt & <b>tt)", "<(a;b);c>tt", "<a;(b;c)>tt", "<a;b;c>tt", "a", "<a>", "<ab>tt", "<a b>tt"],
}
SMALL_TERMS = {
    "pl": [A, B, ("not", A), ("and", A, B), ("and", B, A), ("or", A, B), ("or", B, A), ("imp", A, B), ("imp", B, A), ("iff", A, B), ("iff", B, A), ("and", A, B, C), ("and", ("or", A, B), C), ("and", ("or", B, A), C),
           ("not", ("and", A, B)), ("not", ("and", B, A)), ("imp", ("and", A, B), C), ("imp", ("and", B, A), C), ("imp", A, B, C), ("imp", A, ("imp", B, C)), ("true",), ("false",), ("atom", "true"), ("atom", '"a"')],
    "ltl": [A, ("true",), ("ptrue",), ("false",), ("pfalse",), ("X", A), ("X!", A), ("F", A), ("G", A), ("U", A, B), ("U", B, A), ("R", A, B), ("W", A, B), ("M", A, B), ("and", A, B), ("and", B, A), ("X", ("and", A, B)),
            ("X", ("and", B, A)), ("not", ("true",)), ("not", ("ptrue",)), ("U", ("or", A, B), A), ("U", ("or", B, A), A), ("and", ("true",), ("ptrue",)), ("not", A)],
    "pltl": [A, ("true",), ("ptrue",), ("Y", A), ("Z", A), ("O", A), ("H", A), ("S", A, B), ("S", B, A), ("T", A, B), ("and", A, B), ("and", B, A), ("O", ("and", B, A)), ("O", ("and", A, B))],
    "ldl": [("true",), ("false",), S.DIA, S.BOX, ("not", S.DIA), ("dia", ("star", ("prop", A)), ("true",)), ("dia", ("union", ("prop", A), ("prop", B)), ("true",)), ("dia", ("union", ("prop", B), ("prop", A)), ("true",)),
            ("dia", ("seq", ("prop", A), ("prop", B)), ("true",)), ("dia", ("seq", ("prop", B), ("prop", A)), ("true",)), ("box", ("test", ("true",)), ("false",)), ("and", S.DIA, S.BOX), ("and", S.BOX, S.DIA)],
    "fol": [P(x), P(y), P(c), P(x, y), P(y, x), ("pred", "P"), P(("var", "c")), P(("fun", "f", x)), P(("fun", "f", y)), P(("const", "c", 1)), P(("const", "c", None)), ("forall", x, P(x)), ("forall", y, P(y)), ("exists", x, P(x)), ("not", P(x)),
            ("and", P(x), P(y)), ("and", P(y), P(x)), ("forall", x, ("and", P(x), P(y))), ("forall", x, ("and", P(y), P(x)))],
}


def proofs():
    """Small right and wrong proofs, many with the same text or shape."""
    D = ("imp", A, B)
    yield "copy", (L(1, A, "premise"), L(2, A, "copy", 1)), "pl"
    yield "copy other", (L(1, A, "premise"), L(2, B, "copy", 1)), "pl"
    yield "copy closed", (Bx(1, None, L(1, A, "assumption")), L(2, A, "copy", 1)), "pl"
    yield "and_i", (L(1, A, "premise"), L(2, B, "premise"), L(3, ("and", A, B), "and_i", 1, 2)), "pl"
    yield "and_i mirrored", (L(1, A, "premise"), L(2, B, "premise"), L(3, ("and", B, A), "and_i", 1, 2)), "pl"
    yield "and_e1", (L(1, ("and", B, A), "premise"), L(2, B, "and_e1", 1)), "pl"
    yield "and_e1 mirrored", (L(1, ("and", A, B), "premise"), L(2, B, "and_e1", 1)), "pl"
    yield "or_i1", (L(1, A, "premise"), L(2, ("or", A, B), "or_i1", 1)), "pl"
    yield "or_i1 mirrored", (L(1, A, "premise"), L(2, ("or", B, A), "or_i1", 1)), "pl"
    yield "impl_e", (L(1, A, "premise"), L(2, nd.imp(A, B), "premise"), L(3, B, "impl_e", 1, 2)), "pl"
    yield "impl_e real", (L(1, A, "premise"), L(2, D, "premise"), L(3, B, "impl_e", 1, 2)), "pl"
    yield "all_e", (L(1, ("forall", x, P(x)), "premise"), L(2, P(c), "forall_e", 1)), "fol"
    yield "all_e var", (L(1, ("forall", x, P(x)), "premise"), L(2, P(("var", "c")), "forall_e", 1)), "fol"
    yield "all_i bad", (L(1, P(y), "premise"), Bx(2, y, L(2, P(y), "copy", 1)), L(3, ("forall", x, P(x)), "forall_i", 2)), "fol"
    yield "all_i", FPROOF, "fol"
    yield "all_i assumed", (Bx(2, y, L(2, P(y), "assumption")), L(3, ("forall", x, P(x)), "forall_i", 2)), "fol"
    yield "prop", PROOF, "pl"
    yield "prop cut", PROOF[1:], "pl"


def single_calls():
    for k in PARSE:
        for s in dict.fromkeys(NEAR[k] + TEXTS[k]):
            yield "parse_%s(%r)" % (k, s), lambda s=s, k=k: PARSE[k](s)
    for k in SMALL_TERMS:
        for t in SMALL_TERMS[k]:
            yield "build %s %r" % (k, t), lambda t=t, k=k: T.build(t, k)
            yield "build and keep %s %r" % (k, t), lambda t=t, k=k: (KEEP.append(T.build(t, k)), KEEP[-1])[1]
    for t in SMALL_TERMS["pl"]:
        for i in ({"a"}, {"b"}, {"a", "b"}, set(), {"a": True, "b": False}, {"a": False, "b": True}):
            yield "evaluate %r in %r" % (t, i), lambda t=t, i=i: evaluate_pl(T.build(t, "pl"), copy.copy(i))
    for name, items, k in proofs():
        yield "proof " + name, lambda items=items, k=k: proof(items, k)
    for n in ("a", "A", "", "a b", '"a b"', "true", "a-b", "a-", "_", '"a"', "X", "last"):
        for m in (PL, LT):
            yield "%s.Atomic(%r)" % (m.__name__, n), lambda n=n, m=m: m.Atomic(n)
    for k in SMALL_TERMS:
        for t in SMALL_TERMS[k]:
            yield "negate and combine %s %r" % (k, t), lambda t=t, k=k: [show(f) for f in (lambda f, g: (~f, f & g, g | f, f >> g, B_.Implies(g, f), B_.Equivalence(f, g)))(T.build(t, k), T.build(SMALL_TERMS[k][0], k))]
    yield "reset", reset_cache
    yield "mixed", OPS["refused"]


KEEP = []
CALLS = list(single_calls())


def call(i):
    return attempt(CALLS[i][1])


def pairs_after(i, seconds, want):
    """In a process that has just made call i: each of the second calls, from the very state after the first one."""
    r = call(i)
    if r != want[i]:
        return {"history": [], "probe": CALLS[i][0], "got": r, "fresh": want[i]}
    if isinstance(seconds, tuple):
        # one history: all the others, one after the other
        done = [i]
        for j in seconds:
            r = call(j)
            if r != want[j]:
                return {"history": [CALLS[k][0] for k in done][:1] + ["..."] + [CALLS[k][0] for k in done][-3:], "probe": CALLS[j][0], "got": r, "fresh": want[j]}
            done.append(j)
        return None
    snap = None
    for j in seconds:
        def second(j=j):
            r = call(j)
            if r != want[j]:
                return {"history": [CALLS[i][0]], "probe": CALLS[j][0], "got": r, "fresh": want[j]}
            return None
        snap = sched.forked(second)
        if snap:
            return snap
    return None


def pair_work(chunk, part):
    for i, seconds, want in chunk:
        part.states += 1 + len(seconds)
        part.transitions += 2 * len(seconds)
        part.traces += len(seconds)
        bad = sched.forked(lambda: pairs_after(i, seconds, want))
        if bad:
            raise Violation("after %s, %s gives %r; in a fresh state it gives %r" % (bad["history"], bad["probe"], bad["got"], bad["fresh"]), history=bad["history"], probe=bad["probe"])
    part.sample([CALLS[chunk[0][0]][0], len(chunk[0][1])])


def related(i, j):
    """Pairs that get a process of their own in the quick tier: two parses in the same logic, or two proofs."""
    a, b = CALLS[i][0].split(), CALLS[j][0].split()
    return a[0][:9] == b[0][:9] and a[0][:5] in ("parse", "proof")


# ---- the same text in two languages, the same structure in two logics -----------------------------------
def twins(can):
    """(label, first call, second call)"""
    for s in dict.fromkeys(s for k in PARSE for s in NEAR[k] + TEXTS[k]):
        for k, m in itertools.permutations(PARSE, 2):
            yield "parse_%s and parse_%s of %r" % (k, m, s), lambda s=s, k=k: PARSE[k](s), lambda s=s, m=m: PARSE[m](s)
    ts = list(dict.fromkeys(t for k in SMALL_TERMS for t in SMALL_TERMS[k]))
    for t in ts:
        for k, m in itertools.permutations(SMALL_TERMS, 2):
            if {(t, k), (t, m)} <= can:
                def make(l, t=t):
                    f = T.build(t, l)
                    return [show(g) for g in (f, ~f, f & f, f | ~f)]
                yield "build %r in %s and in %s" % (t, k, m), lambda k=k, make=make: make(k), lambda m=m, make=make: make(m)


def buildable(t, l):
    try:
        T.build(t, l)
        return True
    except Exception:
        return False


TWINS = []


def twin_work(chunk, part):
    for i in chunk:
        label, a, b = TWINS[i]
        part.states += 1
        part.transitions += 3
        part.traces += 1

        def go():
            attempt(a)
            return attempt(b)

        want, got = sched.forked(lambda: attempt(b)), sched.forked(go)
        if want != got:
            raise Violation("%s: after the first the second gives %r; in a fresh state it gives %r" % (label, got, want))
    part.sample([TWINS[chunk[0]][0]])


# ---- long histories: thousands of different calls in one process, each with the result known by construction ---------
def at(i):
    return ("atom", "p%d" % i)


def long_calls(kind, n):
    """(label, call, expected value) for i < n; all different."""
    nd_rule = nd.ND.rule
    for i in range(n):
        a, b, k = at(i), at(i + 1), "p%d" % i
        j = "p%d" % (i + 1)
        if kind == "pl":
            s, t = (("%s & %s" % (k, j), ("and", a, b)), ("%s -> !%s" % (k, j), ("imp", a, ("not", b))), ("%s | (%s & q)" % (j, k), ("or", b, ("and", a, ("atom", "q")))),
                    ("%s" % k, a), ('"%s %s"' % (k, j), ("atom", '"%s %s"' % (k, j))))[i % 5]
        elif kind == "ltl":
            s, t = (("%s U %s" % (k, j), ("U", a, b)), ("X %s" % k, ("X", a)), ("G F %s" % k, ("G", ("F", a))), ("X[!] %s & %s" % (k, j), ("and", ("X!", a), b)), ("%s R !%s" % (k, j), ("R", a, ("not", b))))[i % 5]
        elif kind == "pltl":
            s, t = (("%s S %s" % (k, j), ("S", a, b)), ("Y %s" % k, ("Y", a)), ("H O %s" % k, ("H", ("O", a))), ("%s & %s" % (k, j), ("and", a, b)))[i % 4]
        elif kind == "ldl":
            s, t = (("<%s>tt" % k, ("dia", ("prop", a), ("true",))), ("[%s;%s]ff" % (k, j), ("box", ("seq", ("prop", a), ("prop", b)), ("false",))),
                    ("<%s*>tt" % k, ("dia", ("star", ("prop", a)), ("true",))), ("!<%s & %s>tt" % (k, j), ("not", ("dia", ("prop", ("and", a, b)), ("true",)))))[i % 4]
        if kind in PARSE:
            yield s, (lambda s=s: T.read(PARSE[kind](s))), T.read(T.build(t, kind))
        elif kind == "bad texts":
            lg = list(PARSE)[i % 4]
            bad = ("%s & & %s" % (k, j), "(%s" % k, "%s)" % k, "%s %s" % (k, j))[i // 4 % 4]
            yield bad, (lambda bad=bad, lg=lg: outcome_kind(lambda: PARSE[lg](bad))), "err"
        elif kind == "print":
            t, want = (("and", a, b), {"(%s) & (%s)" % (k, j), "(%s) & (%s)" % (j, k)}) if i % 2 else (("imp", a, b), {"(%s) -> (%s)" % (k, j)})
            yield "print %r" % (t,), (lambda t=t, want=want: to_string(T.build(t, "pl")).replace("(", "").replace(")", "") in {w.replace("(", "").replace(")", "") for w in want}), True
        elif kind == "evaluate":
            t, v = (("and", a, ("not", b)), i % 2 == 0) if i % 3 else (("imp", a, b), i % 2 == 1)
            yield "evaluate %r" % (t,), (lambda t=t, i=i: evaluate_pl(T.build(t, "pl"), {"p%d" % i} if i % 2 == 0 else ({"p%d" % (i + 1)} if i % 3 == 0 else set()))), v
        elif kind == "proof":
            good = (L(1, a, "premise"), L(2, b, "premise"), L(3, ("and", a, b), "and_i", 1, 2), L(4, b, "and_e2", 3))
            wrong = (L(1, a, "premise"), L(2, ("or", a, b), "or_i1", 1), L(3, b, "copy", 2))
            lost = (L(1, a, "premise"), Bx(2, None, L(2, b, "assumption"), L(3, a, "copy", 1)), L(4, b, "copy", 2 + i % 2))
            box = (L(1, a, "premise"), Bx(2, None, L(2, b, "assumption"), L(3, a, "copy", 1)), L(4, nd.imp(b, a), "impl_i", 2))
            pr, v = ((good, True), (wrong, False), (box, True), (lost, False))[i % 4]
            yield "proof %r" % (pr,), (lambda pr=pr: proof(pr, "pl")), v
        elif kind == "fol proof":
            v0, ph = ("var", "y%d" % i), ("pred", "P%d" % (i % 50), x)
            inst = nd.subst(ph, x, v0)
            good = (L(1, ("forall", x, ph), "premise"), Bx(2, v0, L(2, inst, "forall_e", 1)), L(3, ("forall", x, ph), "forall_i", 2))
            wrong = (L(1, inst, "premise"), Bx(2, v0, L(2, inst, "copy", 1)), L(3, ("forall", x, ph), "forall_i", 2))
            pr, v = ((good, True), (wrong, False))[i % 2]
            yield "proof %r" % (pr,), (lambda pr=pr: proof(pr, "fol")), v
        elif kind == "build":
            f, g = ("and", a, b), ("or", ("not", a), b)
            yield "build %r" % (f,), (lambda f=f, g=g, a=a, b=b: (T.build(f, "pl") == T.build(("and", b, a), "pl"), T.build(f, "pl") == T.build(g, "pl"), T.build(a, "pl") == T.build(b, "pl"), T.read(T.build(g, "pl")),
                                                               T.build(f, "pl") in {T.build(f, "pl")}, T.read(B_.Not(T.build(g, "pl"))) == T.read(T.build(("not", g), "pl")))), \
                (True, False, False, T.read(T.build(g, "pl")), True, True)


def outcome_kind(fn):
    try:
        fn()
        return "ok"
    except Exception:
        return "err"


LONG = ("pl", "ltl", "pltl", "ldl", "bad texts", "print", "evaluate", "proof", "fol proof", "build")


def long_history(kind, n, resets):
    """Every call, then every call again forwards, and again backwards, in this process."""
    calls = list(enumerate(long_calls(kind, n)))
    done, odd = 0, []
    for turn, seq in enumerate((calls, calls, calls[::-1])):
        for i, (s, fn, want) in seq:
            r = long_outcome(fn)
            done += 1
            if r != ("ok", want) and len(odd) < 2000:
                odd.append((done, i, r))
            if resets and done % resets == 0:
                reset_cache()
    return done, odd


def long_outcome(fn):
    try:
        return "ok", fn()
    except Exception as e:
        return "err", type(e).__name__


def long_work(chunk, part):
    for kind, n, resets in chunk:
        done, odd = sched.forked(lambda: long_history(kind, n, resets))
        part.states += done
        part.transitions += done
        part.traces += 1
        if odd:
            # a wrong result may be wrong in a fresh state too, and is then another property's business
            calls = list(long_calls(kind, n))
            alone = {}
            for k, i, r in odd:
                if i not in alone:
                    alone[i] = sched.forked(lambda: long_outcome(calls[i][1]))
                if alone[i] != r:
                    raise Violation("call %d of a long history (%s): %s gives %r; in a fresh state it gives %r" % (k, kind, calls[i][0], r, alone[i]), kind=kind, calls=n, resets=resets)
            part.count("wrong_but_not_by_history", len(odd))
    part.sample(list(chunk[0]))


def work(chunk, part):
    for prefix, depth, ops, order, want in chunk:
        def go():
            old_formulas()
            for op in prefix:
                r = attempt(OPS[op])
                if r[0] != "ok":
                    return {"probe": "operation " + op, "got": r, "fresh": "-", "history": prefix}, (0, 0)
            stats = [0, 0]
            return node(list(prefix), depth, ops, order, want, stats), stats

        bad, stats = sched.forked(go)
        part.states += stats[0]
        part.transitions += stats[1]
        part.traces += stats[0]
        if bad:
            raise Violation("after %s, %s gives %r; in a fresh state it gives %r" % (bad["history"], bad["probe"], bad["got"], bad["fresh"]), history=bad["history"], probe=bad["probe"])
    part.sample([chunk[0][0], chunk[0][1]])


def run(check):
    q = check.quick
    want = sched.forked(fresh_results)
    for i, r in want.items():
        if r[0] == "err" and not PROBES[i][0].startswith("parse"):
            check.violation("the probe %s fails in a fresh state: %r" % (PROBES[i][0], r))
            return
    ops = list(OPS)
    order = list(range(len(PROBES)))
    depth = 3 if q else 4
    todo = [((), 0, ops, order, want), ((), 0, ops, order[::-1], want)]
    # sequences of up to 2 operations in front: split the work
    for a in ops:
        todo.append(((a,), 0, ops, order[::-1], want))
        for b in ops:
            todo.append(((a, b), 0, ops, order[::-1], want))
    todo += [((a,), 0, ops, order, want) for a in ops]
    small = [o for o in ops if o in ("reset", "build pl mirrored", "build ltl mirrored", "parse errors", "refused", "serialize", "proofs", "build fol", "parse ldl")]
    if q:
        todo += [((a, b), 0, ops, order, want) for a in ops for b in ops]
        todo += [((a, b, d), 0, small, order, want) for a in small for b in small for d in small]
    else:
        todo += [((a, b), 1, ops, order, want) for a in ops for b in ops]
        todo += [((a, b, d), 1, small, order, want) for a in small for b in small for d in small]
    first = {i: sched.forked(lambda: call(i)) for i in range(len(CALLS))}
    every = list(range(len(CALLS)))
    rows = [(i, [j for j in every if not q or related(i, j)], first) for i in every]
    # all others in one history, starting behind i, forwards and backwards
    rows += [(i, tuple(every[i + 1:] + every[:i + 1]), first) for i in every[:: 3 if q else 1]] + [(i, tuple((every[i:] + every[:i])[::-1]), first) for i in every[1:: 3 if q else 1]]
    can = sched.forked(lambda: [(t, l) for t in dict.fromkeys(t for k in SMALL_TERMS for t in SMALL_TERMS[k]) for l in SMALL_TERMS if buildable(t, l)])  # not here: no state is to be left behind
    TWINS[:] = list(twins(set(can)))
    check.note("twin_calls", len(TWINS))
    check.run_parallel(twin_work, chunked(list(range(len(TWINS))), 128))
    check.note("single_calls", len(CALLS))
    check.note("ordered_pairs_of_calls", sum(len(r[1]) for r in rows if isinstance(r[1], list)))
    check.run_parallel(pair_work, chunked(rows, 200))
    n = 4500 if q else 70000
    check.note("long_history_calls", 3 * n)
    check.run_parallel(long_work, [[(k, n, r)] for k in LONG for r in (0, 97)])
    check.note("operations", len(ops))
    check.note("probes", len(PROBES))
    check.note("depth", depth)
    import random

    random.Random(0).shuffle(todo)  # even load only
    check.run_parallel(work, chunked(todo, 200))
