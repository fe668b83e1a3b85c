"""C14: every constructor against every combination of operand kinds up to three operands."""
import itertools

from pylogics_modalities.parsers import parse_ldl, parse_ltl, parse_pl, parse_pltl
from pylogics_modalities.syntax.base import get_cache_context, make_boolean, reset_cache

from mc import population as POP
from mc import space as S
from mc import terms as T
from mc.core import Violation, chunked, outcome

ASSUMPTIONS = ["mixing a formula with a constant of another formalism, and constants of the regular-expression formalism, are left open"]
B, L, Y, D, F, P = T.B, T.L, T.Y, T.D, T.F, T.P
REP = {
    "pl": [S.A, ("not", S.A), ("and", S.A, S.Bq), ("imp", S.A, S.Bq)],
    "ltl": [S.A, ("ptrue",), ("U", S.A, S.Bq), ("X", S.A), ("or", S.A, ("F", S.Bq))],
    "pltl": [S.A, ("pfalse",), ("S", S.A, S.Bq), ("Y", S.A), ("iff", S.A, ("H", S.Bq))],
    "ldl": [S.DIA, ("not", S.BOX), ("and", S.DIA, S.BOX)],
    "re": [("prop", S.A), ("star", ("prop", S.A)), ("seq", ("prop", S.A), ("prop", S.A)), ("union", ("prop", S.A), ("prop", S.Bq)), ("test", S.DIA)],
    "fol": [S.PX, ("forall", S.X, S.PX), ("not", S.Q0), ("or", S.PX, S.Q0)],
}


class NotFormula:
    logic = T.Logic.PL


class NotFormulaRE:
    logic = T.Logic.RE


class NotFormulaLDL:
    logic = T.Logic.LDL


class NotFormulaFOL:
    logic = T.Logic.FOL


class NotFormulaLTL:
    logic = T.Logic.LTL


def kinds(wide=True):
    """(label, kind, logic, maker)."""
    out = []
    for l, ts in REP.items():
        for t in ts if wide else ts[:2]:
            out.append((l + ":" + t[0], "const" if t[0] in T.DUAL else "formula", l, (lambda t=t, l=l: T.build(t, l))))
    for l in ("pl", "ltl", "pltl", "ldl", "fol"):
        for v in (True, False):
            out.append(("%s:%s" % (l, v), "const", l, (lambda v=v, l=l: make_boolean(v, T.LOGIC[l]))))
    x = lambda: F.Variable("x")
    terms = [("variable", x), ("constant", lambda: F.Constant("c")), ("function", lambda: F.Function("f", [x()]))]
    for n, mk in terms if wide else terms[:1]:
        out.append((n, "term", None, mk))
    junk = [("None", lambda: None), ("str", lambda: "a"), ("int", lambda: 1), ("list", lambda: [P.Atomic("a")]), ("class", lambda: P.Atomic),
            ("duck", NotFormula), ("duckRE", NotFormulaRE), ("duckLDL", NotFormulaLDL), ("duckFOL", NotFormulaFOL), ("duckLTL", NotFormulaLTL), ("logic", lambda: T.Logic.LTL)]
    for n, mk in junk if wide else junk[1:10:3]:
        out.append((n, "junk", None, mk))
    return out


OK, ERR, OPEN = "accept", "refuse", "open"


def exp_bool(ops):
    if not ops or any(k in ("term", "junk") for _, k, _, _ in ops):
        return ERR, None
    ls = {l for _, k, l, _ in ops if k == "formula"}
    if "re" in ls or len(ls) > 1:
        return ERR, None
    cs = {l for _, k, l, _ in ops if k == "const"}
    if len(ls | cs) > 1:
        return OPEN, None
    return OK, (ls | cs).pop()


def exp_only(logic, arity, result):
    def exp(ops):
        if not arity(len(ops)) or any(k in ("term", "junk") for _, k, _, _ in ops):
            return ERR, None
        return (OK, result) if all(l == logic for _, _, l, _ in ops) else (ERR, None)
    return exp


def exp_not(ops):
    return exp_bool(ops) if len(ops) == 1 else (ERR, None)


def exp_modal(ops):
    if len(ops) != 2 or any(k in ("term", "junk") for _, k, _, _ in ops):
        return ERR, None
    return (OK, "ldl") if ops[0][2] == "re" and ops[1][2] == "ldl" else (ERR, None)


def exp_quant(ops):
    if len(ops) != 2 or ops[0][0] != "variable" or ops[1][1] in ("term", "junk"):
        return ERR, None
    return (OK, "fol") if ops[1][2] == "fol" else (ERR, None)


one, many = (lambda n: n == 1), (lambda n: n >= 2)
CONS = {"And": (B.And, exp_bool), "Or": (B.Or, exp_bool), "Implies": (B.Implies, exp_bool), "Equivalence": (B.Equivalence, exp_bool),
        "Not": (B.Not, exp_not), "Seq": (D.Seq, exp_only("re", many, "re")), "Union": (D.Union, exp_only("re", many, "re")),
        "Star": (D.Star, exp_only("re", one, "re")), "Test": (D.Test, exp_only("ldl", one, "re")), "Prop": (D.Prop, exp_only("pl", one, "re")),
        "Diamond": (D.Diamond, exp_modal), "Box": (D.Box, exp_modal), "ForAll": (F.ForAll, exp_quant), "Exists": (F.Exists, exp_quant)}
for _l, _d in T.UN_CLS.items():
    for _c in _d.values():
        CONS[_c.__name__ + "/" + _l] = (_c, exp_only(_l, one, _l))
for _l, _d in T.BIN_CLS.items():
    for _c in _d.values():
        CONS[_c.__name__ + "/" + _l] = (_c, exp_only(_l, many, _l))


def exp_bin(ops):
    if ops[0][1] in ("term", "junk"):
        return OPEN, None  # not the formula's operator
    return exp_bool(ops)


OPERATORS = {"&": (lambda f, g: f & g, exp_bin), "|": (lambda f, g: f | g, exp_bin), ">>": (lambda f, g: f >> g, exp_bin)}


def ill_formed():
    """Is a formula registered that mixes formalisms or has improper parts?"""
    for l, d in get_cache_context().items():
        for f in d:
            try:
                if f.logic != l:
                    return "%r is registered under %s" % (f, l)
                if l in (T.Logic.PLDL, T.Logic.MSO):
                    continue
                bad = homogeneous(f, l.value)
            except (T.Malformed, AttributeError, KeyError) as e:
                bad = "%s is malformed: %r" % (type(f).__name__, e)
            if bad:
                return bad
    return None


def homogeneous(f, logic):
    """Does every part of an accepted formula belong to the right formalism?"""
    r = T.read_logic(f)

    def go(t, l):
        tag = t[0]
        if t[1] != l:
            return "%r reports %s, not %s" % (t, t[1], l)
        sub = {"prop": "pl", "test": "ldl"}.get(tag, l)
        for i, x in enumerate(t[2:]):
            if isinstance(x, tuple) and x and x[0] not in ("var", "const", "fun"):
                want = sub
                if tag in ("dia", "box"):
                    want = "re" if i == 0 else "ldl"
                elif tag in ("test",):
                    want = "ldl"
                bad = go(x, want)
                if bad:
                    return bad
        return None

    return go(r, logic)


def judge(name, fn, exp, ops, part):
    want, logic = exp(ops)
    labels = [o[0] for o in ops]
    part.states += 1
    if want == OPEN:
        part.count("left_open")
        return
    args = [mk() for _, _, _, mk in ops]
    r = outcome(lambda: fn(*args))
    part.transitions += 1
    part.traces += 1
    if r[0] == "ok" and not isinstance(r[1], B.Formula):
        raise Violation("%s%s returns %r" % (name, labels, r[1]), constructor=name, operands=labels)
    if want == OK:
        if r[0] == "err":
            raise Violation("%s%s is refused: %r" % (name, labels, r[1]), constructor=name, operands=labels)
        f = r[1]
        if f.logic != T.LOGIC[logic]:
            raise Violation("%s%s reports %s instead of %s" % (name, labels, f.logic, logic), constructor=name, operands=labels)
        bad = homogeneous(f, logic)
        if bad:
            raise Violation("%s%s mixes formalisms: %s" % (name, labels, bad), constructor=name, operands=labels)
    else:
        if r[0] == "ok":
            raise Violation("%s%s is accepted as %s" % (name, labels, r[1]), constructor=name, operands=labels)
        bad = ill_formed()
        if bad:
            raise Violation("%s%s is refused but leaves a formula in the cache: %s" % (name, labels, bad), constructor=name, operands=labels)


def work(chunk, part):
    reset_cache()
    for name, k, idx in chunk:
        fn, exp = CONS.get(name) or OPERATORS[name]
        ks = kinds(k <= 2)
        judge(name, fn, exp, [ks[i] for i in idx], part)
        if part.states % 20 == 0:
            reset_cache()
    part.sample({"constructor": name, "operands": [ks[i][0] for i in idx]})
    reset_cache()


def plenty(logic, n):
    """n different good operands of a formalism, as kinds."""
    a = lambda i: ("atom", "a%d" % i)
    make = {"pl": a, "ltl": a, "pltl": a, "ldl": lambda i: ("dia", ("prop", a(i)), ("true",)), "re": lambda i: ("prop", a(i)), "fol": lambda i: ("pred", "P%d" % i, S.X)}[logic]
    return [("%s:%d" % (logic, i), "formula", logic, (lambda i=i: T.build(make(i), logic))) for i in range(n)]


def wide_work(chunk, part):
    """Many good operands and one (or two) of another kind, at every position."""
    ks = kinds()
    for name, logic, n, two in chunk:
        reset_cache()
        fn, exp = CONS[name]
        judge(name, fn, exp, plenty(logic, n), part)
        for p in range(n) if n < 40 else sorted({0, 1, n // 3, n - 2, n - 1}):
            for k in ks if n < 300 else ks[::4]:
                ops = plenty(logic, n)
                ops[p] = k
                judge(name, fn, exp, ops, part)
            reset_cache()
        if two:
            for p in range(n):
                for r in range(p + 1, n):
                    for k in ks[::7]:
                        ops = plenty(logic, n)
                        ops[p] = ops[r] = k
                        judge(name, fn, exp, ops, part)
                reset_cache()
    part.sample({"constructor": name, "operands": n, "logic": logic})
    reset_cache()


def wide_application(check):
    """Applications with up to 12 arguments: every number of arguments, and one bad argument at every position."""
    top = 8 if check.quick else 12
    x = F.Variable("x")
    good = [F.Variable("v%d" % i) if i % 3 else F.Function("f", [x, F.Constant("k%d" % i)]) for i in range(top + 4)]
    bad = [None, "x", 1, F.Predicate("P", [x]), P.Atomic("a"), [x], F.Term, B.Not(F.Predicate("P", [x]))]
    good += [F.Variable("w%d" % i) for i in range(1200)]
    for n in [*range(top + 1), 47, 320] + ([] if check.quick else [130, 1100]):
        for kind in (F.Predicate, F.Function):
            base = kind("s", good[:n][::-1])
            for k in range(top + 4) if n <= top else (0, 1, n - 1, n, n + 1):
                rows = [(good[:k], k == n)] + [(good[:p] + [b] + good[p + 1:k], False) for p in (range(k) if k < 40 else (0, 1, k // 3, k - 2, k - 1)) for b in bad]
                for ops, legal in rows:
                    check.states += 1
                    check.transitions += 1
                    r = outcome(lambda: base(*ops))
                    if (r[0] == "ok") != legal:
                        check.violation("%s/%d applied to %r is %s" % (kind.__name__, n, ops, "accepted" if r[0] == "ok" else "refused"))
                        return
                    if legal and (type(r[1]) is not kind or list(r[1].operands) != list(ops)):
                        check.violation("%s/%d applied to %r gives %r" % (kind.__name__, n, ops, r[1]))
                        return


def application(check):
    x, y = F.Variable("x"), F.Variable("y")
    args = [x, y, F.Constant("c"), F.Function("f", [x]), None, "x", 1, F.Predicate("P", [x]), P.Atomic("a"), [x]]
    for n in range(0, 4):
        for base, kind in ((F.Predicate("P", [F.Variable("v%d" % i) for i in range(n)]), F.Predicate),
                           (F.Function("f", [F.Variable("v%d" % i) for i in range(n)]), F.Function)):
            for k in range(0, 4 if check.quick else 5):
                for ops in itertools.product(args, repeat=k):
                    legal = k == n and all(isinstance(o, F.Term) for o in ops)
                    r = outcome(lambda: base(*ops))
                    check.states += 1
                    check.transitions += 1
                    if (r[0] == "ok") != legal:
                        check.violation("%s/%d applied to %r is %s" % (kind.__name__, n, ops, "accepted" if r[0] == "ok" else "refused"))
                        return
                    if legal:
                        g = r[1]
                        if type(g) is not kind or g.name != base.name or list(g.operands) != list(ops) or g.logic != T.Logic.FOL:
                            check.violation("%s/%d applied to %r gives %r" % (kind.__name__, n, ops, g))
                            return
                    elif check.states % 97 == 0 and ill_formed():
                        check.violation("a refused application leaves a formula in the cache: %s" % ill_formed())
                        return


def run(check):
    application(check)
    wide_application(check)
    wide = []
    for name, (fn, exp) in CONS.items():
        for logic in ("pl", "ltl", "pltl", "ldl", "fol", "re"):
            for n in (4, 5, 6, 9) if check.quick else range(4, 17):
                if exp(plenty(logic, n))[0] == OK:
                    wide.append((name, logic, n, n < 6 or not check.quick))
            for n in (47, 320) if check.quick else (47, 130, 320, 1100):
                if exp(plenty(logic, n))[0] == OK:
                    wide.append((name, logic, n, False))
    check.run_parallel(wide_work, chunked(wide, 64))
    todo = []
    for name in list(CONS) + list(OPERATORS):
        for k in ((2,) if name in OPERATORS else (0, 1, 2, 3)):
            n = len(kinds(k <= 2))
            todo += [(name, k, idx) for idx in itertools.product(range(n), repeat=k)]
    if not check.quick:
        n = len(kinds(False))
        todo += [(name, 4, idx) for name in ("And", "Or", "Implies", "Equivalence") for idx in itertools.product(range(n), repeat=4)]
    check.note("constructors", len(CONS) + len(OPERATORS))
    check.note("operand_kinds", len(kinds()))
    check.run_parallel(work, chunked(todo, 64))
    # constants and parsed formulas report their formalism, in every part
    for l in T.Logic:
        for v in (True, False):
            f = make_boolean(v, l)
            check.states += 1
            if f.logic is not l or type(f) is not (B.TrueFormula if v else B.FalseFormula) or (~f).logic is not l:
                check.violation("make_boolean(%s, %s) is %r" % (v, l, f))
    for l, t in POP.everything():
        bad = homogeneous(T.build(t, l), l)
        check.states += 1
        if bad:
            check.violation("%r: %s" % (t, bad))
    for parse, l, texts in ((parse_pl, "pl", ["a & !b -> true <-> c | a"]), (parse_ltl, "ltl", ["G(a U b) & last | F(tt) <-> X[!](true)"]),
                            (parse_pltl, "pltl", ["H(a S b) & start | O(ff) <-> Z(false)"]),
                            (parse_ldl, "ldl", ["<(a&!b;tt?)*+true>(end & [a]last) <-> !<<a>tt?>ff"])):
        for s in texts:
            bad = homogeneous(parse(s), l)
            if bad:
                check.violation("parsing %r: %s" % (s, bad))
