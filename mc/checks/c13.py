"""C13: printing and parsing are inverse on every formula of the bounded term spaces."""
import itertools

from pylogics_modalities.utils.to_string import to_string

from mc import grammar as G
from mc import parsing
from mc import population as POP
from mc import space as S
from mc import terms as T
from mc.core import Violation, chunked, outcome
from mc.parsing import PARSE

ASSUMPTIONS = ["atom names are no reserved words of the logic"]


def trip(f, logic, part, info):
    """f, printed and parsed, is f again; the text is a fixed point."""
    part.states += 1
    part.transitions += 2
    r = outcome(lambda: to_string(f))
    if r[0] == "err" or not isinstance(r[1], str):
        raise Violation("to_string fails on %r: %r" % (T.read(f), r[1]), term=info, logic=logic)
    s = r[1]
    r = outcome(lambda: PARSE[logic](s))
    if r[0] == "err":
        raise Violation("the text %r printed for %r is refused: %s" % (s, T.read(f), type(r[1]).__name__), term=info, logic=logic)
    g = r[1]
    part.traces += 1
    if not (g == f and f == g) or T.canon(T.read(f)) != T.canon(T.read(g)) or hash(f) != hash(g) or g.logic != f.logic:
        raise Violation("%r prints as %r, which parses to %r" % (T.read(f), s, T.read(g)), term=info, logic=logic)
    if T.read(f) != T.read(g):
        raise Violation("%r prints as %r, which parses in another operand order" % (T.read(f), s), term=info, logic=logic)
    if to_string(g) != s:
        raise Violation("the text of %r changes from %r to %r after a round trip" % (T.read(f), s, to_string(g)), term=info, logic=logic)
    return s


def unnormal(t):
    """Raw terms to build: the constructors normalise them."""
    return t


def work(chunk, part):
    for kind, logic, payload in chunk:
        texts = {}
        if kind == "space":
            n, lv, k, m = payload
            it = itertools.islice(S.terms(logic, n, lv), k, None, m)
        elif kind == "texts":
            for s in payload:
                f = PARSE[logic](s)
                trip(f, logic, part, s)
            continue
        else:
            it = payload
        for t in it:
            f = T.build(t, logic)
            s = trip(f, logic, part, t)
            k = T.canon(T.read(f))
            if texts.setdefault(s, k) != k:
                raise Violation("two different formulas print as %r" % s, term=t, logic=logic)
        if kind != "space":
            # the reference grammar agrees on what the text means
            for t in itertools.islice(payload, 0, None, 7):
                f = T.build(t, logic)
                ref = G.reference(to_string(f), logic)
                if ref is None or T.norm(ref) != T.read(f):
                    raise Violation("the text %r printed for %r means %r in the documented grammar" % (to_string(f), T.read(f), ref), term=t, logic=logic)
    part.sample([kind, logic, payload if kind == "space" else payload[0]])


def pools(logic, quick):
    """Wide and deep terms: every connective over operands of every shape."""
    pool = S.POOL[logic]
    yield from S.wide(pool, S.NARY[logic], 2 if quick else 3)
    yield from S.wide(pool[:5], S.NARY[logic], 3)
    inner = pool[:4] + pool[-3:]
    yield from S.chains(S.UNARY[logic], 4 if quick else 5, inner[:3])
    yield from parsing.prec_terms(logic)
    yield from parsing.wide_deep(logic, 8)
    if logic != "ldl":
        for name in ("a-b", '"a b"', '"->"', '"("', '"A U b"', "truth", "false_1", "tt0", "last-1", "starts", "_", "x-1-y"):
            for u in S.UNARY[logic]:
                yield (u, ("atom", name))
            for o in S.NARY[logic]:
                yield (o, ("atom", name), ("atom", "b"))
                yield (o, ("atom", "b"), ("atom", name), ("not", ("atom", name)))
    else:
        rs = list(dict.fromkeys(POP.population("re")))
        for r in rs:
            for m in ("dia", "box"):
                for tail in (("true",), ("false",), S.DIA, ("not", S.BOX), ("and", S.DIA, S.BOX), ("imp", S.DIA, ("false",)), ("iff", S.DIA, S.BOX)):
                    yield (m, r, tail)
        for r, q in itertools.product(rs, repeat=2):
            for o in ("seq", "union"):
                yield ("dia", (o, r, q), ("true",))
                yield ("box", ("star", (o, r, q)), ("false",))
                yield ("dia", (o, r, q, r), ("true",))
        for t in POP.population("ldl"):
            yield ("dia", ("test", t), ("true",))
            yield ("box", ("star", ("test", t)), ("false",))
            yield ("dia", ("seq", ("test", t), ("prop", S.A)), ("true",))
        for p in S.upto("pl", 3 if quick else 4, S.leaves("pl")):
            yield ("dia", ("prop", p), ("true",))
            yield ("box", ("star", ("prop", p)), ("false",))
        for name in ("a-b", '"a b"', '"*"', '">"', '"tt?"', "ends", "tt0"):
            yield ("dia", ("prop", ("atom", name)), ("true",))
            yield ("dia", ("star", ("prop", ("not", ("atom", name)))), ("true",))


def run(check):
    todo = []
    sizes = {"pl": (5, 6), "ltl": (4, 5), "pltl": (4, 5), "ldl": (7, 8)}
    for logic, (q, th) in sizes.items():
        lv = S.leaves(logic)
        for n in range(1, check.pick(q, th) + 1):
            cnt = len(S.terms(logic, n, lv))
            m = max(1, min(64, cnt // 200))
            todo += [("space", logic, (n, lv, k, m)) for k in range(m)]
            check.note("terms_%s_%d" % (logic, n), cnt)
        lvc = S.leaves(logic, ("a",), consts=S.CONSTS[logic][:1])
        if logic != "ldl":
            n = check.pick({"pl": 6, "ltl": 5, "pltl": 5}[logic], {"pl": 7, "ltl": 6, "pltl": 6}[logic])
            m = 64
            todo += [("space", logic, (n, lvc, k, m)) for k in range(m)]
            check.note("terms_%s_%d_one_atom" % (logic, n), len(S.terms(logic, n, lvc)))
        items = list(dict.fromkeys(list(pools(logic, check.quick)) + POP.population(logic)))
        check.note("pool_" + logic, len(items))
        todo += [("terms", logic, c) for c in chunked(items, 32)]
        texts = [s.replace("( ", "(") for s in parsing.SHORT[logic]] + [{"pl": "a", "ltl": "last", "pltl": "start", "ldl": "last & end"}[logic]]
        todo.append(("texts", logic, texts))
    # large formulas and their one-place variations: within a family, different formulas have different texts
    for name, items in [*POP.families(check.quick).items(), *POP.huge(check.quick).items()]:
        logic = items[0][0]
        if logic == "re":
            todo.append(("terms", "ldl", [("dia", t, ("true",)) for _, t in items]))
        elif logic in PARSE:
            todo.append(("terms", logic, [t for _, t in items]))
    check.run_parallel(work, [[t] for t in todo])
    # injectivity across the whole population of each logic
    for logic in PARSE:
        texts = {}
        for t in dict.fromkeys(POP.population(logic)):
            f = T.build(t, logic)
            k = T.canon(T.read(f))
            check.states += 1
            if texts.setdefault(to_string(f), k) != k:
                check.violation("two different formulas print as %r" % to_string(f), logic=logic, term=t)
    # no concrete syntax: refused
    for t in dict.fromkeys(POP.population("fol")):
        f = T.build(t, "fol")
        if any(x[0] in ("pred", "forall", "exists") for x in T.subterms(T.read(f))):
            check.states += 1
            r = outcome(lambda: to_string(f))
            if r[0] == "ok":
                check.violation("to_string gives %r for a first-order formula" % r[1], term=t)
    for x in (None, "a", 5, T.F.Variable("x"), T.LOGIC["pl"]):
        if outcome(lambda: to_string(x))[0] == "ok":
            check.violation("to_string accepts %r" % (x,))
