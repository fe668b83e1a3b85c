"""A fixed population of formulas of every logic and every operator (including near misses)."""
from mc import space as S
from mc import terms as T

A, B_, C = S.A, S.Bq, S.C
X, Y, K = S.X, S.Yv, S.K
Z = ("var", "z")


def _bool(first, second, third, consts):
    out = [first, second, third] + list(consts)
    out += [("not", first), ("not", second), ("not", ("and", first, second)), ("not", ("imp", first, second))]
    for tag in T.BOOLS:
        out += [(tag, first, second), (tag, second, first), (tag, first, second, third), (tag, third, first, second),
                (tag, first, third), (tag, first, ("not", second)), (tag, ("not", first), second)]
    out += [("imp", first, first), ("imp", first, second, first), ("imp", first, ("imp", second, third)),
            ("imp", ("imp", first, second), third), ("imp", first, consts[0]), ("imp", consts[0], first),
            ("imp", first, consts[1]),
            ("iff", first, ("iff", second, third)), ("iff", ("iff", first, second), third), ("iff", first, consts[0]),
            ("iff", first, consts[1]),
            ("and", first, ("or", second, third)), ("or", first, ("and", second, third)), ("and", ("or", first, second), third),
            ("and", ("or", second, first), ("or", first, third)), ("or", ("and", second, first), ("not", third)),
            ("and", ("iff", first, second), ("iff", first, third)), ("or", ("imp", first, second), ("imp", second, first))]
    return out


def population(logic):
    """Raw terms of the logic (order is meaningful, simplest first)."""
    if logic == "pl":
        out = _bool(A, B_, C, S.CONSTS["pl"])
        out += [("atom", n) for n in ("aa", "a1", "_", "a-b", "a_b", "aB", '"a"', '"a b"', '"A"', '"-"', "true1", "b-a-c")]
        out += [("and", ("atom", "p"), ("atom", "q"), ("atom", "r"), ("atom", "s"), ("atom", "t"))]
        out += [("and", ("atom", "q"), ("atom", "p"), ("atom", "r"), ("atom", "s"), ("atom", "t"))]
        return out
    if logic in ("ltl", "pltl"):
        out = _bool(A, B_, C, S.CONSTS[logic])
        un = [u for u in S.UNARY[logic] if u != "not"]
        nar = [o for o in S.NARY[logic] if o not in T.BOOLS]
        out += [(u, A) for u in un] + [(u, B_) for u in un] + [(u, ("not", A)) for u in un]
        out += [(u, c) for u in un for c in S.CONSTS[logic]]
        out += [(u, (v, A)) for u in un for v in un]
        out += [("not", (u, A)) for u in un]
        out += [(u, ("and", A, B_)) for u in un] + [(u, ("and", B_, A)) for u in un]
        for o in nar:
            out += [(o, A, B_), (o, B_, A), (o, A, A), (o, A, B_, C), (o, C, B_, A), (o, A, (o, B_, C)), (o, (o, A, B_), C),
                    (o, A, ("not", B_)), ("not", (o, A, B_)), ("and", A, (o, A, B_)), (o, ("or", A, B_), C),
                    (o, ("or", B_, A), C), (o, A, S.CONSTS[logic][0]), (o, S.CONSTS[logic][3], B_)]
            out += [(o, (p, A, B_), C) for p in nar if p != o] + [(u, (o, A, B_)) for u in un]
        return out
    if logic == "ldl":
        tt, ff = ("true",), ("false",)
        out = _bool(S.DIA, S.BOX, ("dia", ("prop", B_), tt), S.CONSTS["ldl"])
        out += [("dia", r, tt) for r in population("re")] + [("box", r, ff) for r in population("re")[:14]]
        out += [("dia", ("prop", A), S.BOX), ("box", ("prop", A), S.DIA), ("dia", ("prop", A), ("not", S.DIA)),
                ("dia", ("prop", A), ("and", S.DIA, S.BOX)), ("dia", ("prop", A), ("and", S.BOX, S.DIA)),
                ("dia", ("prop", A), ("dia", ("prop", A), tt)), ("box", ("prop", A), ("box", ("prop", A), ff)),
                ("box", ("prop", A), tt), ("dia", ("prop", A), ff), ("box", ("prop", ("true",)), ff),
                ("dia", ("prop", ("true",)), ("box", ("prop", ("true",)), ff))]
        return out
    if logic == "re":
        p, q, r = ("prop", A), ("prop", B_), ("prop", ("and", A, B_))
        t1, t2 = ("test", S.DIA), ("test", ("true",))
        out = [p, q, r, ("prop", ("and", B_, A)), ("prop", ("not", A)), ("prop", ("true",)), ("prop", ("imp", A, B_)),
               ("star", p), ("star", ("star", p)), t1, t2, ("test", ("not", S.BOX)), ("star", t1)]
        for o in ("seq", "union"):
            out += [(o, p, q), (o, q, p), (o, p, p), (o, p, q, r), (o, r, q, p), (o, p, (o, q, r)), (o, (o, p, q), r),
                    (o, t1, p), (o, p, t2), ("star", (o, p, q)), (o, ("star", p), q), (o, p, ("star", q))]
        out += [("seq", ("union", p, q), r), ("union", ("seq", p, q), r), ("seq", p, ("union", q, r)),
                ("union", p, ("seq", q, r)), ("seq", ("union", q, p), r), ("test", ("dia", ("seq", p, q), ("true",)))]
        return out
    if logic == "fol":
        P = lambda *t: ("pred", "P") + t
        Q = lambda *t: ("pred", "Q") + t
        R = lambda *t: ("pred", "R") + t
        f = lambda *t: ("fun", "f") + t
        out = _bool(P(X), Q(), R(X, Y), S.CONSTS["fol"])
        out += [P(Y), P(Z), P(K), P(("const", "x", None)), P(("const", "c", 1)), P(("var", "c")), P(f(X)), P(f(Y)), P(f(f(X))), P(f(K)),
                P(("fun", "g", X)), P(f(X, Y)), P(f(Y, X)), P(("fun", "f")), P(("const", "f", None)), Q(X), P(), ("pred", "x"),
                R(Y, X), R(X, X), R(X, K), R(f(X), Y), R(X, f(Y)), P(X, Y), P(X, Y, Z)]
        for q in ("forall", "exists"):
            out += [(q, X, P(X)), (q, Y, P(Y)), (q, X, P(Y)), (q, Y, P(X)), (q, X, Q()), (q, X, (q, Y, R(X, Y))),
                    (q, Y, (q, X, R(X, Y))), (q, X, ("not", P(X))), ("not", (q, X, P(X))), (q, X, ("imp", P(X), Q(X))),
                    (q, X, ("and", P(X), Q(X))), (q, X, ("and", Q(X), P(X))), (q, X, ("or", ("not", P(X)), Q(X))),
                    ("and", (q, X, P(X)), Q(X)), (q, X, P(f(X))), (q, X, ("iff", P(X), Q(X)))]
        out += [("forall", X, ("exists", Y, R(X, Y))), ("exists", X, ("forall", Y, R(X, Y))),
                ("forall", X, ("exists", X, P(X)))]
        return out
    raise ValueError(logic)


ALL = ("pl", "ltl", "pltl", "ldl", "re", "fol")


def everything(logics=ALL):
    return [(l, t) for l in logics for t in dict.fromkeys(population(l))]


TERMS = [X, Y, Z, K, ("const", "x", None), ("const", "c", 1), ("const", "d", None), ("var", "c"), ("fun", "f"), ("fun", "f", X),
         ("fun", "f", Y), ("fun", "f", X, Y), ("fun", "f", Y, X), ("fun", "f", ("fun", "f", X)), ("fun", "g", X),
         ("fun", "f", K), ("const", "f", None), ("var", "f"), ("fun", "x", X), ("fun", "f", ("const", "c", 1))]


# ---- families of large formulas and their near misses -------------------------------------------------
def _variants(parts, other):
    """A list of parts and everything that differs from it in one place (replaced, dropped, doubled, swapped)."""
    yield tuple(parts)
    n = len(parts)
    for k in range(n):
        yield tuple(parts[:k]) + (other,) + tuple(parts[k + 1:])
        yield tuple(parts[:k]) + tuple(parts[k + 1:])
        yield tuple(parts[:k]) + (other,) + tuple(parts[k:])
        if k + 1 < n:
            yield tuple(parts[:k]) + (parts[k + 1], parts[k]) + tuple(parts[k + 2:])


def _sparse(parts, other):
    """The same for very many parts, at selected places."""
    n = len(parts)
    yield tuple(parts)
    for k in sorted({0, n // 3, n - 2, n - 1}):
        yield tuple(parts[:k]) + (other,) + tuple(parts[k + 1:])
        yield tuple(parts[:k]) + tuple(parts[k + 1:])
        yield tuple(parts[:k]) + (other,) + tuple(parts[k:])
        if k + 1 < n:
            yield tuple(parts[:k]) + (parts[k + 1], parts[k]) + tuple(parts[k + 2:])


def _nest(build, levels, inner):
    for x in reversed(levels):
        inner = build(x, inner)
    return inner


def _names(n):
    """A name of n characters and its near misses: one character replaced or dropped, at every position."""
    base = ("n" + "abcdefghij0123456789KLMNOP_" * (n // 27 + 1))[:n - 1] + "z"
    out = [base, base + "z"]
    for k in range(n) if n < 300 else (1, n // 3, n - 2, n - 1):
        out.append(base[:k] + "q" + base[k + 1:])
        if n > 1:
            out.append(base[:k] + base[k + 1:] if base[k + 1:k + 2].islower() or k else "n" + base[k + 2:])
    return [x for x in dict.fromkeys(out) if x and (x[0].islower() or x[0] == "_")]


NEAR_NAMES = ("a", "a1", "a01", "a10", "a1_", "a_1", "_a1", "a1a", "aA1", "aa1", "a_", "_a", "__a", "a__", "a__1", "aA", "a1b", "a001",
              "ab", "aB", "ba", "b", "b1", "a0", "a00", "a0x1", "a1e1", "a_b", "a_B", "_", "__", "_1", "_01", "true1", "truea", "l1", "li", "o0", "oo")
NEAR_DASHED = ("a-b", "a_b", "ab", "a--b", "a-_b", "a_-b", "a-b1", "a-1", "a-01", "a-b-c", "a-b_c", "a_b-c", "a-B")
NEAR_QUOTED = ('"a"', 'a', '" a"', '"a "', '"A"', '"a b"', '"a  b"', '"ab"', '"a-b"', '"a.b"', "\"'a'\"", '"1"', '"01"', '"1.0"', '"true"',
               '"True"', '"TRUE"', '" "', '"  "', '"_"', '"not a"', '"~a"', '"!a"', '"a&b"', '"b&a"', '"a & b"', '"(a)"', '"\\"', '"\\a"',
               '"%s"', '"{}"', '"{0}"', '"#a"', '"a;"', '"a,b"', '"b,a"')
VALUES = (None, 0, 1, -1, 2, "", "a", "0", "1", " ", "None", (), (1,), (1, 2), (2, 1), ("py", "[]"), ("py", "[1]"), ("py", "[1, 2]"), ("py", "[2, 1]"),
          ("py", "{'k': 1}"), ("py", "{'k': 2}"), ("py", "{}"), ("py", "{1}"), 1.5, -1.5, 10 ** 20, 10 ** 20 + 1, 2 ** 61 - 1, 2 ** 61, b"a", ("x", "y"))


def near():
    """Names and values that a sloppy comparison takes for one another, in every place a name or value can stand."""
    names = NEAR_NAMES + NEAR_DASHED[3:]
    out = {}
    for logic in ("pl", "ltl", "pltl"):
        atoms = [("atom", n) for n in names + NEAR_QUOTED if n != "a" or logic]
        out["near names " + logic] = [(logic, t) for t in dict.fromkeys(atoms)]
        out["near names under not " + logic] = [(logic, ("not", t)) for t in dict.fromkeys(atoms)]
        out["near names in and " + logic] = [(logic, ("and", t, ("atom", "zz"))) for t in dict.fromkeys(atoms)]
        if logic != "pl":
            for u in S.UNARY[logic][1:]:
                out["near names under %s %s" % (u, logic)] = [(logic, (u, t)) for t in dict.fromkeys(atoms)]
            for o in [o for o in S.NARY[logic] if o not in T.BOOLS]:
                out["near names in %s %s" % (o, logic)] = [(logic, (o, t, ("atom", "zz"))) for t in dict.fromkeys(atoms)]
    props = [("prop", ("atom", n)) for n in names + NEAR_QUOTED]
    out["near names re"] = [("re", t) for t in props]
    out["near names ldl"] = [("ldl", (m, t, ("true",))) for m in ("dia", "box") for t in props]
    sym = NEAR_NAMES + ("P", "P1", "P01", "p", "PP", "Pa", "PA", "\u00c9", "E", "E\u0301", "x'", "x''", "x ", " x", "x", "X", "1", "01", "-1", "")
    out["near predicates"] = [("fol", ("pred", n) + a) for n in sym for a in ((), (X,))]
    out["near terms"] = [("term", t) for n in sym for t in (("var", n), ("const", n, None), ("fun", n), ("fun", n, X))]
    out["near values"] = [("term", ("const", n, v)) for n in ("c", "d") for v in VALUES]
    out["near values in functions"] = [("term", ("fun", "f", ("const", "c", v))) for v in VALUES] + [("term", ("fun", "f", ("const", "c", v), X)) for v in VALUES]
    out["near values in predicates"] = [("fol", ("pred", "P", ("const", "c", v))) for v in VALUES] + [("fol", ("exists", X, ("pred", "R", X, ("fun", "f", ("const", "c", v))))) for v in VALUES]
    out["near bound names"] = [("fol", (q, ("var", n), ("pred", "P", X))) for n in sym for q in ("forall", "exists")]
    return out


def families(quick=True):
    """{name: [(logic, term)]}: large formulas together with all their one-place variations."""
    widths = (4, 6, 9, 17) if quick else (4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18, 24, 33, 40, 65)
    depths = (5, 12) if quick else (4, 5, 6, 7, 8, 10, 12, 16, 24, 40)
    lengths = (9, 33, 70) if quick else (5, 9, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 70, 100, 128, 129, 256, 257)
    return _families(widths, depths, lengths, _variants)


def huge(quick=True):
    """Families far beyond the sizes anybody writes by hand, with variations at selected places."""
    return _families((47, 320) if quick else (47, 130, 320, 1100), (50,) if quick else (50, 130), (320,) if quick else (320, 1100, 5000), _sparse)


def _families(widths, depths, lengths, variants):
    out = {}

    def add(name, logic, terms):
        out[name] = [(logic, t) for t in dict.fromkeys(terms)]

    for w in widths:
        atoms = [("atom", "p%d" % i) for i in range(w)]
        other = ("atom", "z")
        wrap = {"pl": lambda a: a, "ltl": lambda a: a, "pltl": lambda a: a, "ldl": lambda a: ("dia", ("prop", a), ("true",)),
                "fol": lambda a: ("pred", "P" + a[1]), "re": lambda a: ("prop", a)}
        for logic, wr in wrap.items():
            for tag in (("seq", "union") if logic == "re" else S.NARY[logic]):
                add("%s %s %d" % (logic, tag, w), logic, ((tag,) + v for v in variants([wr(a) for a in atoms], wr(other)) if len(v) > 1))
        vs = [("var", "x%d" % i) for i in range(w)]
        for name, z in (("variable", ("var", "z")), ("constant", ("const", "x1", None))):
            add("pred %s %d" % (name, w), "fol", (("pred", "P") + v for v in variants(vs, z)))
            add("fun %s %d" % (name, w), "term", (("fun", "f") + v for v in variants(vs, z)))
            add("fun in pred %s %d" % (name, w), "fol", (("pred", "P", ("fun", "f") + v) for v in variants(vs, z)))
    for d in depths:
        for logic in ("ltl", "pltl"):
            us = [u for u in S.UNARY[logic] if u != "not"]
            for u in us:
                for inner in (A, ("and", A, B_)):
                    add("%s %s depth %d" % (logic, u, d) + inner[0], logic,
                        [_nest(lambda x, t: (x, t), v, inner) for z in us[:2] + ["not"] for v in variants([u] * d, z)]
                        + [_nest(lambda x, t: (x, t), [u] * d, B_)])
            mixed = [us[i % len(us)] for i in range(d)]
            add("%s unary depth %d" % (logic, d), logic, [_nest(lambda x, t: (x, t), v, A) for v in variants(mixed, us[0])])
            for o in [o for o in S.NARY[logic] if o not in T.BOOLS]:
                names = [("atom", "p%d" % i) for i in range(d)]
                add("%s %s right depth %d" % (logic, o, d), logic, [_nest(lambda x, t: (o, x, t), v, C) for v in variants(names, B_)])
                add("%s %s left depth %d" % (logic, o, d), logic, [_nest(lambda x, t: (o, t, x), v, C) for v in variants(names, B_)])
        names = [("atom", "p%d" % i) for i in range(d)]
        for tag in ("imp", "iff"):
            add("pl %s right depth %d" % (tag, d), "pl", [_nest(lambda x, t: (tag, x, t), v, C) for v in variants(names, B_)])
            add("pl %s left depth %d" % (tag, d), "pl", [_nest(lambda x, t: (tag, t, x), v, C) for v in variants(names, B_)])
        add("pl and-or depth %d" % d, "pl", [_nest(lambda x, t: ("and", x[0], ("or", x[1], t)), v, C)
                                          for v in variants([(n, ("atom", "q%d" % i)) for i, n in enumerate(names)], (A, B_))])
        mods = [("dia", ("prop", n)) if i % 2 else ("box", ("star", ("prop", n))) for i, n in enumerate(names)]
        for z in (("dia", ("prop", B_)), ("box", ("prop", names[1])), ("dia", ("star", ("prop", names[0])))):
            add("ldl modalities depth %d %r" % (d, z), "ldl", [_nest(lambda x, t: x + (t,), v, ("true",)) for v in variants(mods, z)])
        add("re nested tests %d" % d, "re", [_nest(lambda x, t: ("test", ("dia", ("seq", ("prop", x), t), ("true",))), v, ("prop", C)) for v in variants(names, B_)])
        add("re stars %d" % d, "re", [_nest(lambda x, t: ("star", t) if x else ("seq", ("prop", A), t), v, ("prop", A)) for v in variants([i % 3 for i in range(d)], 0)])
        qs = [(("forall", "exists")[i % 2], ("var", "x%d" % i)) for i in range(d)]
        for z in (("forall", ("var", "x0")), ("exists", ("var", "z")), ("exists", ("var", "x2"))):
            add("quantifiers depth %d %r" % (d, z), "fol", [_nest(lambda x, t: x + (t,), v, ("pred", "P", ("var", "x0"), ("var", "x1"))) for v in variants(qs, z)])
        for z in ("g", "x"):
            add("functions depth %d %s" % (d, z), "term", [_nest(lambda x, t: ("fun", x, t), v, X) for v in variants(["f"] * d, z)]
                + [_nest(lambda x, t: ("fun", x, t), ["f"] * d, t) for t in (Y, K, ("const", "x", None), ("fun", "x"))])
    for n in lengths:
        ns = _names(n)
        for logic in ("pl", "ltl", "pltl"):
            add("%s names %d" % (logic, n), logic, [("atom", x) for x in ns])
            add("%s quoted names %d" % (logic, n), logic, [("atom", '"%s"' % x) for x in ns])
        add("dashed names %d" % n, "pl", [("atom", x[:k] + c + x[k + 1:]) for x in ns[:1] for k in (range(1, n - 1) if n < 300 else (1, n // 3, n - 2)) for c in "-_aA0"])
        add("predicate names %d" % n, "fol", [("pred", x, X) for x in ns])
        add("term names %d" % n, "term", [t for x in ns for t in (("var", x), ("const", x, None), ("fun", x, X))])
    return out
