"""C17: soundness of accepted first-order proofs, judged in all structures of 1 to 3 elements."""
import itertools

from mc import nd
from mc import terms as T
from mc.core import Violation, chunked
from mc.nd import Bx, CK, FALSE, L, V

ASSUMPTIONS = ["different symbols have different names", "counter-models have at most three elements (two when the signature is large)"]
x, y, z, w, u = V["x"], V["y"], V["z"], V["w"], V["u"]
c, d = CK["c"], CK["d"]
f = lambda *t: ("fun", "f") + t
P = lambda *t: ("pred", "P") + t
Q = ("pred", "Q")
R = lambda *t: ("pred", "R") + t
S_ = lambda *t: ("pred", "S") + t
ALL = lambda v, t: ("forall", v, t)
EX = lambda v, t: ("exists", v, t)
AND, OR, IFF, IMP, NOT = (lambda *t: ("and",) + t), (lambda *t: ("or",) + t), (lambda *t: ("iff",) + t), (lambda *t: ("imp",) + t), nd.neg
TERMS = (x, y, z, c, f(x), f(y), f(c), f(f(x)))

# bodies over x: every formula shape and every way a variable can occur
BODIES = [P(x), P(f(x)), P(y), Q, R(x, y), R(y, x), R(x, x), R(x, c), R(f(x), y), NOT(P(x)), AND(P(x), S_(x)), AND(P(x), P(y)), OR(P(x), Q),
          OR(NOT(P(x)), S_(x)), IMP(P(x), S_(y)), IMP(P(x), P(y)), IFF(P(x), S_(x)), IFF(P(x), S_(y)),
          EX(y, R(x, y)), ALL(y, R(x, y)), EX(y, R(y, y)), EX(x, P(x)), AND(P(x), ALL(x, S_(x))), OR(EX(x, P(x)), S_(x)), EX(y, AND(P(x), P(y))),
          ALL(y, IMP(R(x, y), R(y, x))), EX(y, ALL(z, R(x, z))), NOT(EX(y, R(x, y))), EX(y, R(f(x), y)), AND(P(x), EX(y, R(x, y))),
          R(x, f(x)), P(f(f(x))), IFF(P(x), EX(y, R(x, y))), EX(y, NOT(R(x, y))), ALL(y, OR(P(x), P(y))), R(f(x), f(y)), P(c), AND(P(c), P(x))]


def judge(items, part, what):
    part.states += 1
    part.transitions += 1
    r = nd.check(items, "fol")
    if r is True:
        part.traces += 1
        bad = nd.unsound_line(items, "fol")
        if bad:
            raise Violation("%s: the accepted proof derives %r in line %r, which does not follow" % (what, bad[2], bad[1]), proof=items)
    return r


def variants(t, terms, v=x):
    """Formulas reachable from t by (possibly wrong) replacement of occurrences of v or other variables."""
    out = [t]
    for s in terms:
        out += nd.naive(t, v, s)
    for a, b in ((y, x), (x, y), (y, z), (z, x), (c, x), (x, c)):
        out += nd.naive(t, a, b)
    return list(dict.fromkeys(out))


def quantifier_steps(phi, terms, part):
    """One elimination/introduction step from a quantified premise, all conclusions of the shape of the body."""
    concl = variants(phi, terms)
    for v in (x, y, z):
        for q in (ALL, EX):
            prem = L(1, q(v, phi), "premise")
            for g in concl:
                for rule in ("forall_e", "exists_i", "forall_i", "exists_e", "copy", "and_e1", "dneg_e", "bot_e", "or_i1"):
                    judge((prem, L(2, g, rule, 1)), part, "quantifier step")
                judge((prem, L(2, g, "forall_e", 1), L(3, ALL(v, g), "forall_i", 1)), part, "quantifier step")
    for g in concl:
        prem = L(1, g, "premise")
        for v in (x, y, z):
            for q in (ALL, EX):
                for h in (phi,) + tuple(concl[: 4 * len(terms)]):
                    for rule in ("exists_i", "forall_i", "forall_e", "exists_e"):
                        judge((prem, L(2, q(v, h), rule, 1)), part, "quantifier introduction")


def contexts(phi, a):
    """Ways in which a line about a can be visible when a box with the term a is opened: (prefix items, row, closing)."""
    yield "premise", lambda inner: (L(1, phi, "premise"),) + inner
    yield "assumption", lambda inner: (Bx(1, None, L(1, phi, "assumption"), *inner),)
    yield "nested", lambda inner: (Bx(50, None, L(50, Q, "assumption"), Bx(1, None, L(1, phi, "assumption"), *inner)),)
    if a[0] != "var":
        yield "derived", lambda inner: (L(70, AND(phi, Q), "premise"), L(1, phi, "and_e1", 70)) + inner
        return
    yield "exists", lambda inner: (L(60, EX(a, phi), "premise"), Bx(1, a, L(1, phi, "assumption"), *inner))
    yield "derived", lambda inner: (L(70, AND(phi, Q), "premise"), L(1, phi, "and_e1", 70)) + inner
    yield "universal", lambda inner: (L(60, ALL(a, phi), "premise"), Bx(80, a, L(80, phi, "forall_e", 60), L(1, phi, "copy", 80), *inner))


def flush(items, last_row, part, what):
    """Also judge what can be exported from the boxes around the last line."""
    judge(items, part, what)
    # close the outermost box by exporting its last item, repeatedly
    q = items
    if q and q[-1][0] == "B":
        b = q[-1]
        inner = b[3]
        while inner and inner[-1][0] == "B":
            inner = inner[-1][3]
        exported = close(q, 300)
        if exported:
            judge(exported, part, what + " (exported)")


def close(items, row):
    """Turn trailing boxes inside-out: append the discharging step for the last item if it is a box."""
    if not items or items[-1][0] != "B":
        return items
    b = items[-1]
    sub = close(b[3], row + 1)
    if sub is None or sub[-1][0] != "L":
        return None
    concl = sub[-1][2]
    box = b[:3] + (sub,)
    if b[2] is None:
        return items[:-1] + (box, L(row, nd.imp(sub[0][2], concl), "impl_i", b[1]))
    hyp = [it for it in items[:-1] if it[0] == "L" and it[2][0] == "exists"]
    if sub[0][3] == "assumption" and hyp:
        return items[:-1] + (box, L(row, concl, "exists_e", hyp[-1][1], b[1]))
    return items[:-1] + (box, L(row, ALL(w, nd.subst(concl, b[2], w)) if not nd.occurs(w, concl) else concl, "forall_i", b[1]))


def freshness(phi, part):
    """Generalise over, or eliminate into, a term that is not arbitrary."""
    for a in (x, y, c, f(x)):
        try:
            body = nd.subst(phi, x, a) if a != x else phi
        except nd.Capture:
            continue
        for name, ctx in contexts(body, a):
            for v in (x, z):
                for g in dict.fromkeys((ALL(v, phi), ALL(v, body), ALL(a, body) if a[0] == "var" else ALL(v, body), ALL(v, nd.naive(body, a, v)[-1]))):
                    for just in ((L(2, body, "copy", 1),), (L(2, body, "assumption"),), (L(2, AND(body, body), "and_i", 1, 1),),
                                 (L(2, Q, "assumption"), L(3, body, "copy", 1)),
                                 (L(2, body, "copy", 1), L(3, body, "copy", 2)), (L(2, body, "assumption"), L(3, body, "copy", 2)),
                                 (L(2, body, "assumption"), L(3, AND(body, body), "and_i", 2, 2), L(4, Q, "copy", 2), L(5, body, "copy", 3)),
                                 (L(2, Q, "assumption"), L(3, body, "bot_e", 2))):
                        inner = (Bx(2, a, *just), L(9, g, "forall_i", 2))
                        flush(ctx(inner), 9, part, "generalisation (%s)" % name)
                        # the box is opened inside a box for the same term
                        inner = (Bx(4, a, L(4, Q, "assumption"), Bx(2, a, *just), L(9, g, "forall_i", 2)),)
                        flush(ctx(inner), 9, part, "generalisation in a box (%s)" % name)
            # existential elimination into a box whose term is known
            for v in (x, z):
                for h in (S_(v), R(v, c), phi if v == x else P(v)):
                    ex = EX(v, h)
                    try:
                        inst = nd.subst(h, v, a)
                    except nd.Capture:
                        continue
                    both = AND(inst, body)
                    for goal in (EX(z, AND(nd.subst(h, v, z), nd.naive(body, a, z)[-1])) if not (nd.occurs(z, h) or nd.occurs(z, body)) else Q,):
                        box = Bx(2, a, L(2, inst, "assumption"), L(3, both, "and_i", 2, 1), L(4, goal, "exists_i", 3))
                        flush((L(90, ex, "premise"),) + ctx((box, L(9, goal, "exists_e", 90, 2))), 9, part, "elimination (%s)" % name)
                    box = Bx(2, a, L(2, inst, "assumption"), L(3, body, "copy", 1))
                    flush((L(90, ex, "premise"),) + ctx((box, L(9, body, "exists_e", 90, 2))), 9, part, "elimination of a known term (%s)" % name)


def hiding_places(a, hi):
    """Formulas in which the term a occurs, at every place of ever larger surroundings: (label, formula)."""
    o = [CK["d"], CK["e"]]
    for k in range(1, hi + 1):
        for i in range(k):
            args = [o[j % 2] for j in range(k)]
            args[i] = a
            yield "predicate %d/%d" % (i, k), ("pred", "W%d" % k) + tuple(args)
            yield "function %d/%d" % (i, k), ("pred", "V", ("fun", "g%d" % k) + tuple(args))
            ops = [("pred", "T%d" % j) for j in range(k)]
            ops[i] = ("pred", "V", a)
            if k > 1:
                for op in ("and", "or", "iff", "imp"):
                    yield "%s %d/%d" % (op, i, k), (op,) + tuple(ops)
    t = a
    for k in range(1, hi + 3):
        t = ("fun", "g", t)
        yield "term depth %d" % k, ("pred", "V", t)
    g = ("pred", "V", a)
    for k in range(1, hi + 2):
        g = (("exists", ("var", "q%d" % k), g), NOT(g), OR(g, ("pred", "T%d" % k)), ("forall", ("var", "q%d" % k), g), IMP(("pred", "T%d" % k), g), ("and", ("pred", "T%d" % k), g),
             ("iff", g, ("pred", "T%d" % k)))[(k * 3) % 7]
        yield "formula depth %d" % k, g
    for k in range(1, 4):
        g = ("pred", "V", a)
        for op in (("forall", ("var", "q")), ("exists", ("var", "r"))):
            yield "quantifier", op + (g,)
    yield "negation", NOT(("pred", "V", a))
    yield "double negation", NOT(NOT(("pred", "V", a)))


def refuse(items, part, what):
    """Not accepted; used where the last step is wrong for a reason that needs no counter-model (each case is justified below)."""
    part.states += 1
    part.transitions += 1
    if nd.check(items, "fol") is True:
        part.traces += 1
        raise Violation("%s is accepted" % what, proof=items)


def freshness_places(a, hi, part):
    """Generalisation over (or elimination into) a term that occurs in a visible line, whatever the place: from psi(a) follow
    neither forall v psi(v) nor, with exists v S(v), S(a); psi is satisfiable and falsifiable, so each conclusion fails in some structure."""
    for place, psi in hiding_places(a, hi):
        general = ALL(z, nd.naive(psi, a, z)[-1])
        r = 300
        known = {
            "premise": lambda inner: (L(1, psi, "premise"),) + inner,
            "assumption": lambda inner: (Bx(1, None, L(1, psi, "assumption"), *inner), L(r, None, "impl_i", 1)),
            "late": lambda inner: tuple(L(400 + i, Q, "premise") for i in range(30)) + (L(1, psi, "premise"),) + tuple(L(500 + i, Q, "copy", 400) for i in range(30)) + inner,
            "early": lambda inner: (L(1, psi, "premise"),) + tuple(L(400 + i, Q, "premise") for i in range(60)) + inner,
            "nested": lambda inner: (Bx(50, None, L(50, Q, "assumption"), Bx(1, None, L(1, psi, "assumption"), *inner)),),
            "after boxes": lambda inner: tuple(Bx(400 + i, None, L(400 + i, Q, "assumption")) for i in range(25)) + (L(1, psi, "premise"),) + inner,
        }
        for name, ctx in known.items():
            inner = (Bx(2, a, L(2, psi, "copy", 1)), L(9, general, "forall_i", 2))
            items = ctx(inner)
            if name == "assumption":
                items = items[:-1]
            refuse(items, part, "generalising over %r, which occurs in a visible line (%s, %s)," % (a, place, name))
            ex = EX(z, ("pred", "E", z))
            ea = ("pred", "E", a)
            both = AND(ea, psi)
            goal = EX(z, nd.naive(both, a, z)[-1])
            inner = (L(3, ex, "premise"),) if name not in ("assumption", "nested") else ()
            step = (Bx(2, a, L(2, ea, "assumption"), L(4, both, "and_i", 2, 1), L(5, goal, "exists_i", 4)), L(9, goal, "exists_e", 3, 2))
            items = ctx(inner + step) if inner else (L(3, ex, "premise"),) + (ctx(step)[:-1] if name == "assumption" else ctx(step))
            refuse(items, part, "eliminating an existential into %r, which occurs in a visible line (%s, %s)," % (a, place, name))
        # the conclusion of an elimination, and the body of an elimination or generalisation, must not mention the term
        for body in (psi,):
            ex = EX(w, nd.naive(body, a, w)[-1])
            refuse((L(1, ex, "premise"), Bx(2, a, L(2, body, "assumption"), L(3, body, "copy", 2)), L(9, body, "exists_e", 1, 2)), part,
                   "an elimination whose conclusion mentions the term %r (%s)" % (a, place))
            two = AND(body, ("pred", "E", w))
            refuse((L(1, ALL(x, ALL(y, Q)), "premise"), L(3, EX(w, two), "premise"), Bx(2, a, L(2, AND(body, ("pred", "E", a)), "assumption"), L(4, EX(w, AND(nd.naive(body, a, w)[-1], ("pred", "E", w))), "exists_i", 2)),
                    L(9, EX(w, AND(nd.naive(body, a, w)[-1], ("pred", "E", w))), "exists_e", 3, 2)), part, "an elimination into a term that the formula mentions (%r, %s)" % (a, place))
            refuse((L(1, ALL(w, two), "premise"), Bx(2, a, L(2, AND(body, ("pred", "E", a)), "forall_e", 1)), L(9, ALL(w, AND(nd.naive(body, a, w)[-1], ("pred", "E", w))), "forall_i", 2)), part,
                   "generalising over a term that the formula mentions (%r, %s)" % (a, place))


def late_boxes(part, hi):
    """Wrong steps in boxes that open behind many lines or inside many boxes, exported to the top level."""
    for n in (3, 10, 24, 40, 70)[:hi]:
        many = tuple(L(100 + i, Q, "premise") for i in range(n))
        deep = lambda inner: inner
        for name in ("behind lines", "inside boxes", "behind boxes"):
            for phi in (P(x), R(x, y), OR(P(x), Q)):
                for what, inner in (("assumption generalised", (Bx(2, z, L(2, nd.subst(phi, x, z), "assumption")), L(9, ALL(x, phi), "forall_i", 2))),
                                    ("wrong copy", (Bx(2, z, L(2, P(z), "copy", 100)), L(9, ALL(x, P(x)), "forall_i", 2))),
                                    ("wrong instance", (Bx(2, z, L(2, nd.subst(phi, x, z), "forall_e", 100)), L(9, ALL(x, phi), "forall_i", 2))),
                                    ("unjustified", (Bx(2, None, L(2, Q, "assumption"), L(3, P(c), "and_e1", 100)), L(9, IMP(Q, P(c)), "impl_i", 2))),
                                    ("premise in the box", (Bx(2, None, L(2, Q, "assumption"), L(3, P(c), "premise")), L(9, IMP(Q, P(c)), "impl_i", 2)))):
                    if name == "behind lines":
                        items = many + inner
                    elif name == "behind boxes":
                        items = many[:1] + tuple(Bx(200 + i, None, L(200 + i, Q, "assumption")) for i in range(n)) + inner
                    else:
                        items = inner
                        for i in range(min(n, 40)):
                            hyp = L(300 + i, ("pred", "T%d" % (i % 3)), "assumption")
                            items = (Bx(300 + i, None, hyp, *items), L(700 + i, IMP(hyp[2], items[-1][2]), "impl_i", 300 + i))
                        items = many[:1] + items
                    judge(items, part, "late box (%s, %s)" % (name, what))


def assumed(g):
    """Derivations from the assumption g in line 2."""
    yield (L(3, g, "copy", 2),)
    yield (L(3, nd.conj(g, g), "and_i", 2, 2),)
    yield (L(3, OR(g, Q), "or_i1", 2),)
    yield (L(3, NOT(NOT(g)), "dneg_i", 2), L(4, g, "dneg_e", 3))
    yield (L(3, EX(w, g), "exists_i", 2),)
    yield (L(3, g, "copy", 2), L(4, g, "copy", 3))
    yield (Bx(3, None, L(3, Q, "assumption"), L(4, g, "copy", 2)), L(5, IMP(Q, g), "impl_i", 3))


def eliminations(phi, part):
    """Existential elimination with every box term, assumed instance and conclusion."""
    insts = variants(phi, (x, y, z, c, f(x)))
    for v in (x, y):
        for prem in ((L(1, EX(v, phi), "premise"),), (L(1, EX(v, phi), "premise"), L(11, R(x, y), "premise")), (L(1, ALL(v, phi), "premise"),)):
            for a in (x, y, z, c, f(z)):
                for g in insts:
                    for more, last in (((), g), ((L(3, EX(z, P(z)), "exists_i", 2),), EX(z, P(z))), ((L(3, OR(g, Q), "or_i1", 2),), OR(g, Q)),
                                       ((L(3, EX(z, g), "exists_i", 2),), EX(z, g)), ((L(3, EX(y, g), "exists_i", 2),), EX(y, g))):
                        for just in ("assumption",):
                            box = Bx(2, a, L(2, g, just), *more)
                            judge(prem + (box, L(9, last, "exists_e", 1, 2)), part, "elimination")
                    judge(prem + (Bx(2, a, L(2, g, "forall_e", 1)), L(9, g, "exists_e", 1, 2)), part, "elimination without assumption")
                    for v2 in (x, y, z):
                        judge(prem + (Bx(2, a, L(2, g, "forall_e", 1)), L(9, ALL(v2, g), "forall_i", 2)), part, "generalisation of an instance")
                        judge(prem + (Bx(2, a, L(2, g, "assumption")), L(9, ALL(v2, g), "forall_i", 2)), part, "generalisation of an assumption")
                        for der in assumed(g):
                            back = nd.naive(der[-1][2], a, v2)[-1] if a[0] != "fun" else der[-1][2]
                            judge(prem + (Bx(2, a, L(2, g, "assumption"), *der), L(9, ALL(v2, back), "forall_i", 2)), part, "generalisation of a consequence of an assumption")
                        judge(prem + (Bx(2, a, L(2, g, "forall_e", 1)), L(9, ALL(v2, phi), "forall_i", 2)), part, "generalisation of an instance")
                        judge(prem + (Bx(2, a, L(2, g, "forall_e", 1)), L(9, ALL(v2, nd.naive(g, a, v2)[-1]) if a[0] != "fun" else Q, "forall_i", 2)), part, "generalisation of an instance")


def nested_boxes(part, bodies):
    """Two boxes with the same or different terms inside each other."""
    for phi in bodies:
        for a, b in itertools.product((x, y, c), repeat=2):
            try:
                pa, pb = nd.subst(phi, x, a), nd.subst(phi, x, b)
            except nd.Capture:
                continue
            for g in (ALL(x, phi), ALL(a, pa) if a[0] == "var" else Q, ALL(b, pb) if b[0] == "var" else Q):
                for h in (ALL(x, phi), EX(x, phi), ALL(z, phi), g):
                    for jo in ("assumption", "forall_e", "copy"):
                        for ji in (L(4, pb, "copy", 3), L(4, pa, "copy", 3), L(4, pb, "forall_e", 1), L(4, pb, "assumption")):
                            for prem in (ALL(x, phi), EX(x, phi), pa):
                                items = (L(1, prem, "premise"), Bx(3, a, L(3, pa, jo, *(() if jo == "assumption" else (1,))), Bx(4, b, ji), L(5, g, "forall_i", 4)))
                                judge(items, part, "nested boxes")
                                judge(items + (L(9, g, "exists_e", 1, 3),), part, "nested boxes")
                                judge(items + (L(9, h, "forall_i", 3),), part, "nested boxes")


def many_variables(n):
    """Long first-order proofs: n boxes with variables, after each other and inside each other, and long terms."""
    fx = ("forall", x, P(x))
    items = [L(1, fx, "premise")]
    for i in range(n):
        a, r = ("var", "b%d" % i), 10 * i + 10
        items += [Bx(r, a, L(r, P(a), "forall_e", 1)), L(r + 1, fx, "forall_i", r)]
    yield "one after the other", tuple(items)
    items = [L(1, fx, "premise"), L(2, ("exists", y, S_(y)), "premise"), L(3, Q, "premise")]
    for i in range(n):
        a, r = ("var", "b%d" % i), 10 * i + 10
        items += [Bx(r, a, L(r, S_(a), "assumption"), L(r + 1, P(a), "forall_e", 1), L(r + 2, ("exists", x, P(x)), "exists_i", r + 1)), L(r + 3, ("exists", x, P(x)), "exists_e", 2, r)]
    yield "eliminations", tuple(items)

    def inner(k, d):
        a, r = ("var", "b%d" % k), 10 * k + 10
        if d == 1:
            return Bx(r, a, L(r, P(a), "forall_e", 1), L(r + 1, P(a), "copy", r))
        return Bx(r, a, L(r, P(a), "forall_e", 1), inner(k + 1, d - 1), L(r + 1, fx, "forall_i", r + 10), L(r + 2, P(a), "copy", r))
    for d in (2, 5, min(n, 30)):
        yield "inside each other", (L(1, fx, "premise"), inner(0, d), L(5, fx, "forall_i", 10))
    term = c
    for i in range(min(n, 40)):
        term = f(term)
        yield "deep term", (L(1, fx, "premise"), L(2, P(term), "forall_e", 1), L(3, ("exists", z, P(z)), "exists_i", 2))
    for k in range(1, min(n, 12)):
        wide = ("pred", "W%d" % k) + tuple(V["xyz"[i % 3]] if i % 4 else f(c) for i in range(k))
        for i in range(k):
            body = wide[:2 + i] + (u,) + wide[3 + i:]
            yield "wide predicate", (L(1, ("forall", u, body), "premise"), L(2, wide, "forall_e", 1), L(3, ("exists", u, body), "exists_i", 2))
            a = ("var", "fresh")
            inst = wide[:2 + i] + (a,) + wide[3 + i:]
            yield "wide predicate", (L(1, ("forall", u, body), "premise"), Bx(2, a, L(2, inst, "forall_e", 1)), L(3, ("forall", u, body), "forall_i", 2))


def many(n, k, of, part):
    """Correct proofs with many variable boxes, and with one wrong line at every place (every of-th case, starting at the k-th)."""
    i = 0
    for name, items in many_variables(n):
        for wrong in (P(w), ALL(x, S_(x))):
            for what, e in itertools.chain(nd.long_breaks(items, wrong), nd.wrong_lines(items, wrong)):
                i += 1
                if i % of == k and nd.proper(e):
                    judge(e, part, "long proof with variable boxes (%s, %s)" % (name, what))


def work(chunk, part):
    for kind, payload in chunk:
        if kind == "steps":
            quantifier_steps(*payload, part)
        elif kind == "fresh":
            freshness(payload, part)
        elif kind == "elim":
            eliminations(payload, part)
        elif kind == "places":
            freshness_places(*payload, part)
        elif kind == "late":
            late_boxes(part, payload)
        elif kind == "nested":
            nested_boxes(part, payload)
        elif kind == "many":
            many(*payload, part)
        else:
            items, pool, twice = payload
            for base in (items,) + tuple(nd.aliased(items, Q)):
                for what, e in itertools.chain(nd.long_breaks(base, P(w)), nd.wrong_lines(base, P(w))):
                    if nd.proper(e):
                        judge(e, part, "edited proof (%s)" % what)
            for e in nd.edits_proper(items, pool, (x, y, c, f(x), w), (99,)):
                judge(e, part, "edited proof")
                if twice:
                    for g in nd.edits_proper(e, pool[:3], (x,), (), rules=("forall_i", "exists_e", "forall_e", "exists_i", "copy", "assumption")):
                        judge(g, part, "twice edited proof")
    part.sample([kind, payload])


def classics():
    """Textbook first-order proofs."""
    im = nd.imp
    Pr = lambda r, t: L(r, t, "premise")
    As = lambda r, t: L(r, t, "assumption")
    yield (Pr(1, ALL(x, im(P(x), S_(x)))), Pr(2, ALL(x, P(x))),
           Bx(3, y, L(3, im(P(y), S_(y)), "forall_e", 1), L(4, P(y), "forall_e", 2), L(5, S_(y), "impl_e", 4, 3)), L(6, ALL(x, S_(x)), "forall_i", 3))
    yield (Pr(1, ALL(x, P(x))), L(2, P(y), "forall_e", 1), L(3, EX(x, P(x)), "exists_i", 2))
    yield (Pr(1, ALL(x, im(P(x), S_(x)))), Pr(2, EX(x, P(x))),
           Bx(3, y, As(3, P(y)), L(4, im(P(y), S_(y)), "forall_e", 1), L(5, S_(y), "impl_e", 3, 4), L(6, EX(x, S_(x)), "exists_i", 5)),
           L(7, EX(x, S_(x)), "exists_e", 2, 3))
    yield (Pr(1, EX(x, P(x))), Pr(2, ALL(x, ALL(y, im(P(x), S_(y))))),
           Bx(4, u, L(4, ALL(x, ALL(y, im(P(x), S_(y)))), "copy", 2),
              Bx(5, w, As(5, P(w)), L(6, ALL(y, im(P(w), S_(y))), "forall_e", 2), L(7, im(P(w), S_(u)), "forall_e", 6), L(8, S_(u), "impl_e", 5, 7)),
              L(9, S_(u), "exists_e", 1, 5)), L(10, ALL(y, S_(y)), "forall_i", 4))
    yield (Pr(1, NOT(EX(x, P(x)))), Bx(2, y, L(2, NOT(EX(x, P(x))), "copy", 1),
           Bx(3, None, As(3, P(y)), L(4, EX(x, P(x)), "exists_i", 3), L(5, FALSE, "neg_e", 4, 2)), L(6, NOT(P(y)), "neg_i", 3)), L(7, ALL(x, NOT(P(x))), "forall_i", 2))
    yield (Pr(1, EX(x, NOT(P(x)))), Bx(2, None, As(2, ALL(x, P(x))), Bx(3, y, As(3, NOT(P(y))), L(4, P(y), "forall_e", 2), L(5, FALSE, "neg_e", 4, 3)),
           L(6, FALSE, "exists_e", 1, 3)), L(7, NOT(ALL(x, P(x))), "neg_i", 2))
    yield (Pr(1, EX(x, ALL(y, R(x, y)))), Bx(2, z, L(2, EX(x, ALL(y, R(x, y))), "copy", 1),
           Bx(3, u, As(3, ALL(y, R(u, y))), L(4, R(u, z), "forall_e", 3), L(5, EX(x, R(x, z)), "exists_i", 4)), L(6, EX(x, R(x, z)), "exists_e", 1, 3)),
           L(7, ALL(y, EX(x, R(x, y))), "forall_i", 2))
    yield (Pr(1, P(c)), Pr(2, ALL(x, im(P(x), P(f(x))))), L(3, im(P(c), P(f(c))), "forall_e", 2), L(4, P(f(c)), "impl_e", 1, 3), L(5, EX(x, P(f(x))), "exists_i", 4))
    yield (Pr(1, ALL(x, AND(P(x), S_(x)))), Bx(2, y, L(2, AND(P(y), S_(y)), "forall_e", 1), L(3, P(y), "and_e1", 2)), L(4, ALL(x, P(x)), "forall_i", 2),
           Bx(5, z, L(5, AND(P(z), S_(z)), "forall_e", 1), L(6, S_(z), "and_e2", 5)), L(7, ALL(x, S_(x)), "forall_i", 5),
           L(8, AND(ALL(x, P(x)), ALL(x, S_(x))), "and_i", 4, 7))
    yield (Pr(1, EX(x, OR(P(x), S_(x)))), Bx(2, y, As(2, OR(P(y), S_(y))),
           Bx(3, None, As(3, P(y)), L(4, EX(x, P(x)), "exists_i", 3), L(5, OR(EX(x, P(x)), EX(x, S_(x))), "or_i1", 4)),
           Bx(6, None, As(6, S_(y)), L(7, EX(x, S_(x)), "exists_i", 6), L(8, OR(EX(x, P(x)), EX(x, S_(x))), "or_i2", 7)),
           L(9, OR(EX(x, P(x)), EX(x, S_(x))), "or_e", 2, 3, 6)), L(10, OR(EX(x, P(x)), EX(x, S_(x))), "exists_e", 1, 2))
    yield (Pr(1, OR(ALL(x, P(x)), Q)), Bx(2, y, L(2, OR(ALL(x, P(x)), Q), "copy", 1),
           Bx(3, None, As(3, ALL(x, P(x))), L(4, P(y), "forall_e", 3), L(5, OR(P(y), Q), "or_i1", 4)),
           Bx(6, None, As(6, Q), L(7, OR(P(y), Q), "or_i2", 6)), L(8, OR(P(y), Q), "or_e", 2, 3, 6)), L(9, ALL(x, OR(P(x), Q)), "forall_i", 2))


def corpus(q):
    seen = []
    for it in classics():
        seen.append(it)
        b = nd.in_box(it, Q) or it
        seen.append(b)
    bodies = BODIES if not q else BODIES[:30:3] + BODIES[19:24]
    for phi in bodies:
        for t in ((y, z, c, f(y)) if not q else (z, f(y))):
            for chi in (Q, EX(u, R(u, y))) if not q else (Q,):
                for name, items in nd.fol_instances(phi, x, t, chi):
                    seen.append(items)
                    if not q:
                        v = nd.in_box(items, Q, w)
                        if v:
                            seen.append(v)
    return [it for it in dict.fromkeys(seen) if nd.proper(it)]


def run(check):
    q = check.quick
    todo = []
    for phi in BODIES:
        todo.append(("steps", (phi, TERMS if not q else (y, z, c, f(y), f(x)))))
        todo.append(("fresh", phi))
        todo.append(("elim", phi))
    todo += [("nested", [phi]) for phi in BODIES]
    todo += [("places", (a, h)) for a in (x, z, c) for h in ((5,) if q else (5, 9))] + [("late", 4 if q else 5)]
    todo += [("many", (n, k, of)) for n, of, ks in (((6, 8, range(8)), (40, 160, range(0, 160, 5)), (130, 811, range(5, 811, 50))) if q else
                                                    ((6, 8, range(8)), (40, 64, range(64)), (130, 600, range(0, 600, 6)))) for k in ks]
    items = corpus(q)
    for it in items:
        if not nd.accepted(it, "fol"):
            check.note("not_accepted", check.notes.get("not_accepted", 0) + 1)
        fs = list(dict.fromkeys(i[2] for _, i in nd.paths(it) if i[0] == "L"))
        pool = [P(x), P(y), Q, FALSE, ALL(x, P(x)), EX(x, P(x)), S_(y), ALL(y, S_(y))] + fs
        for g in fs[:4]:
            pool += nd.naive(g, y, x)[-1:] + nd.naive(g, x, z)[-1:]
        todo.append(("edit", (it, list(dict.fromkeys(pool)), False)))
    small = sorted(items, key=lambda it: len(nd.rows_of(it)))
    todo += [("edit", (it, [P(x), P(y), Q], True)) for it in small[: 12 if q else 200]]
    check.note("bodies", len(BODIES))
    check.note("valid_proofs_edited", len(items))
    import random

    random.Random(0).shuffle(todo)  # even load only
    check.run_parallel(work, chunked(todo, 256))
