"""C18: completeness of the checker for single rules: every correct instance of every rule schema is accepted, in every context."""
import itertools

from mc import nd
from mc import space as S
from mc import terms as T
from mc.checks import c17
from mc.core import Violation, chunked
from mc.nd import CK, FALSE, TRUE, V, Bx, L

ASSUMPTIONS = ["implications are written with >>", "operands keep the cited connective binary and are not merged by a substitution",
               "the variable of a box occurs in no visible line"]
A, B, C = S.A, S.Bq, S.C
x, y, z, w, u, v = (V[n] for n in "xyzwuv")
c, d = CK["c"], CK["d"]
f = lambda *t: ("fun", "f") + t
P, R, S_ = c17.P, c17.R, c17.S_
Q = c17.Q

PL_POOL = [A, B, nd.neg(A), FALSE, TRUE, ("and", A, B), ("or", A, B), nd.imp(A, B), nd.neg(nd.neg(B)), nd.neg(("and", A, B)), ("imp", A, B),
           ("iff", A, B), ("and", ("or", A, B), C), nd.imp(nd.imp(A, B), C), ("or", A, ("and", B, nd.neg(C))), nd.neg(FALSE), ("or", A, B, C), C,
           ("atom", "aa"), ("atom", '"a b"'), ("and", B, A), ("imp", B, A), ("iff", nd.neg(A), C), ("imp", A, B, C)]
FOL_POOL = [P(x), Q, R(x, y), ("forall", x, P(x)), ("exists", y, R(x, y)), P(f(c)), nd.neg(P(x)), ("and", P(x), Q), ("or", P(c), S_(y)), FALSE,
            ("forall", x, ("exists", y, R(x, y))), nd.imp(P(x), ("forall", y, S_(y))), R(y, x), ("iff", P(x), S_(x)), ("imp", Q, P(d))]


def accept(items, logic, part, what):
    part.states += 1
    part.transitions += len(nd.rows_of(items))
    r = nd.check(items, logic)
    if r is not True:
        raise Violation("a correct proof by %s is not accepted (the checker returned %r)" % (what, r), proof=items)
    part.traces += 1


def contexts(items, side, deep, var=None):
    """The same steps in other surroundings."""
    yield "top level", items
    n = nd.no_premises(items)
    if n:
        yield "premises assumed", n
    b = nd.in_box(items, side)
    if b:
        yield "inside a box", b
        if deep:
            b2 = nd.in_box(b, side, None) if b[-1][1] != 500 else nd.in_box(shift(b), side)
            yield "inside two boxes", b2
            n2 = nd.no_premises(b)
            if n2:
                yield "assumed, inside a box", n2
    if var is not None:
        b = nd.in_box(items, side, var)
        if b and not any(nd.occurs(var, it[2]) for _, it in nd.paths(items) if it[0] == "L"):
            yield "inside a variable box", b
    if deep:
        # unrelated closed boxes and lines before and after
        pre = (Bx(700, None, L(700, side, "assumption"), L(701, side, "copy", 700)),)
        k = 0
        while k < len(items) and items[k][0] == "L" and items[k][3] == "premise":
            k += 1
        yield "after an unrelated box", items[:k] + pre + items[k:]
        yield "before an unrelated box", items + pre
        yield "premises after an unrelated box", pre + items


def shift(items):
    return nd.relabel(items, lambda r: r + 1000 if r >= 500 else r)


def work(chunk, part):
    for kind, payload in chunk:
        if kind == "pl":
            logic, triple, deep, labels = payload
            for name, items in nd.pl_instances(*triple):
                for ctx, p in contexts(items, triple[2], deep, w if logic == "fol" else None):
                    if not nd.proper(p):
                        continue
                    for lab in labels:
                        accept(nd.relabel(p, nd.LABELS[lab]), logic, part, "%s, %s, %s" % (name, ctx, lab))
        elif kind == "fol":
            phi, xs, t, chi, deep, labels = payload
            for name, items in nd.fol_instances(phi, xs, t, chi):
                for ctx, p in contexts(items, chi, deep, w):
                    if not nd.proper(p) or not fresh(p):
                        continue
                    for lab in labels:
                        accept(nd.relabel(p, nd.LABELS[lab]), "fol", part, "%s, %s, %s" % (name, ctx, lab))
                    for nam in nd.NAMINGS if len(labels) > 1 else ():
                        accept(nd.renamed(p, nd.NAMINGS[nam]), "fol", part, "%s, %s, %s names" % (name, ctx, nam))
        elif kind == "long":
            logic, n, triple, labels = payload
            for name, items in nd.long_valid(n, *triple):
                for lab in labels:
                    accept(nd.relabel(items, nd.LABELS[lab]), logic, part, "long proof: %s, %s" % (name, lab))
        elif kind == "many":
            for name, items in c17.many_variables(payload):
                accept(items, "fol", part, "many variable boxes: " + name)
        else:
            for ctx, p in contexts(payload, Q, True):
                if nd.proper(p) and fresh(p):
                    for lab in nd.LABELS:
                        accept(nd.relabel(p, nd.LABELS[lab]), "fol", part, "a textbook derivation, %s, %s" % (ctx, lab))
                    for nam in nd.NAMINGS:
                        accept(nd.renamed(p, nd.NAMINGS[nam]), "fol", part, "a textbook derivation, %s, %s names" % (ctx, nam))
    part.sample([kind, payload])


def fresh(items, visible=()):
    """The variable of every box occurs in no line visible where the box opens."""
    vis = list(visible)
    for it in items:
        if it[0] == "L":
            vis.append(it[2])
        else:
            if it[2] is not None and any(nd.occurs(it[2], t) for t in vis):
                return False
            if not fresh(it[3], vis):
                return False
    return True


def run(check):
    q = check.quick
    todo = []
    for n in (20, 70, 140, 400) if q else (20, 70, 150, 300, 600, 1200):
        for logic, triple in (("pl", (A, B, C)), ("pl", (("iff", A, B), nd.neg(A), B)), ("fol", (P(x), Q, ("forall", x, R(x, y))))):
            todo.append(("long", (logic, n, triple, ["numbers"] if n > 100 else list(nd.LABELS))))
    todo += [("many", n) for n in ((5, 40) if q else (5, 40, 150))]
    labels = list(nd.LABELS)
    pool = PL_POOL
    for n, triple in enumerate(itertools.product(pool[:12] if q else pool, repeat=3)):
        todo.append(("pl", ("pl", triple, True, ["numbers"])))
    for triple in itertools.product(pool[:4] if q else pool[:9], repeat=3):
        todo.append(("pl", ("pl", triple, True, labels)))
    if q:
        for a, b in itertools.product(pool, repeat=2):
            for k in (0, 1, 2):
                t = [a, b]
                t.insert(k, C)
                todo.append(("pl", ("pl", tuple(t), False, ["numbers"])))
    # every formula up to a size in every position
    for a in S.upto("pl", 3 if q else 4, S.leaves("pl")):
        a = T.norm(a)
        for k in (0, 1, 2):
            t = [C, ("atom", "d")]
            t.insert(k, a)
            todo.append(("pl", ("pl", tuple(t), False, ["numbers"])))
    for triple in itertools.product(FOL_POOL[:7] if q else FOL_POOL, repeat=3):
        todo.append(("pl", ("fol", triple, not q, ["numbers"])))
    # quantifier rules
    terms = (x, y, z, c, d, f(y), f(c), f(x), f(f(z)), f(y, c), ("fun", "g", z), ("fun", "h"))
    bodies = list(c17.BODIES)
    if not q:
        bodies += nested_bodies()
    else:
        bodies += nested_bodies()[::5]
    for phi in bodies:
        for xs in (x, y):
            for t in terms:
                for chi in (Q, ("exists", u, R(u, c)), S_(v)) if not q else (Q, S_(v)):
                    todo.append(("fol", (phi, xs, t, chi, True, ["numbers"])))
    for phi in c17.BODIES[:: 6 if q else 1]:
        for t in (z, f(y), c):
            todo.append(("fol", (phi, x, t, Q, True, labels)))
    todo += [("classic", it) for it in c17.classics()]
    check.note("propositional_operands", len(pool))
    check.note("bodies", len(bodies))
    check.note("terms", len(terms))
    check.note("labellings", len(labels))
    import random

    random.Random(0).shuffle(todo)  # even load only
    check.run_parallel(work, chunked(todo, 128))


def nested_bodies():
    """Connectives and quantifiers over atoms, two or three levels deep, in every position of the replaced variable."""
    at = [P(x), R(x, y), R(z, x), S_(c), Q]
    one = [nd.neg(a) for a in at] + [(o, a, b) for o in ("and", "or", "iff") for a in at for b in at if a != b] + [nd.imp(a, b) for a in at for b in at]
    qs = [(qf, vv, a) for qf in ("forall", "exists") for vv in (x, y, z) for a in at]
    two = [(qf, vv, t) for qf in ("forall", "exists") for vv in (x, y, z) for t in one[:45:4] + qs]
    mix = [(o, t, a) for o in ("and", "or") for t in qs for a in at[:3]] + [nd.neg(t) for t in qs] + [nd.imp(t, a) for t in qs for a in at[:2]]
    return [t for t in dict.fromkeys(one + qs + two + mix) if nd.plain(t)]
