"""C26: the work of every operation is polynomial in the size of its input, and a hash is computed once."""
import copy
import pickle
import signal
import sys

from pylogics_modalities.semantics.pl import evaluate_pl
from pylogics_modalities.syntax import base as B_
from pylogics_modalities.syntax import fol as F
from pylogics_modalities.utils.to_string import to_string

from mc import nd
from mc import space as S
from mc import terms as T
from mc.checks import c21
from mc.core import Violation, chunked
from mc.nd import Bx, L
from mc.sched import PKG

ASSUMPTIONS = ["work is the number of executed statements of the library (exact and repeatable); what Lark, pickle and the interpreter do is only limited by a generous time limit",
               "the bound is degree four: doubling the size multiplies the work by at most 16, up to a constant"]
DEGREE_FACTOR, SLACK, SECONDS = 16, 4000, 60

MON = sys.monitoring
COUNT, LIMIT = [0], [None]
TOOL = 4


class TooMuch(BaseException):
    pass


def event(code, *_):
    if not code.co_filename.startswith(PKG):
        return MON.DISABLE
    COUNT[0] += 1
    if LIMIT[0] is not None and COUNT[0] > LIMIT[0]:
        LIMIT[0] = None
        raise TooMuch()


def work_of(fn, limit=None):
    """(statements executed, result); TooMuch beyond the limit."""
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "work")
        for e in (MON.events.PY_START, MON.events.LINE):
            MON.register_callback(TOOL, e, event)
    COUNT[0], LIMIT[0] = 0, limit
    MON.set_events(TOOL, MON.events.PY_START | MON.events.LINE)
    try:
        r = fn()
    except Exception as e:
        r = e
    finally:
        MON.set_events(TOOL, 0)
        LIMIT[0] = None
    return COUNT[0], r


def at(i):
    return ("atom", "p%d" % i)


def nest(step, n, x):
    for i in range(n):
        x = step(x, i)
    return x


SEED = {"pl": S.A, "ltl": S.A, "pltl": S.A, "ldl": ("true",), "fol": ("pred", "P", ("var", "x0"), ("var", "x1")), "re": ("prop", S.A)}


def leaf(logic, i):
    if logic == "ldl":
        return ("dia", ("prop", at(i)), ("true",))
    if logic == "fol":
        return ("pred", "P%d" % i)
    if logic == "re":
        return ("prop", at(i))
    return at(i)


def shapes():
    """{name: (logic, size -> term)}"""
    out = {}
    for logic in ("pl", "ltl", "pltl", "ldl", "fol", "re"):
        nary = S.NARY.get(logic, ("seq", "union"))
        unary = S.UNARY.get(logic, ("star",))
        for o in nary:
            out["%s %s nested right" % (logic, o)] = logic, lambda n, o=o, lg=logic: nest(lambda x, i: (o, leaf(lg, i), x), n, SEED[lg])
            out["%s %s nested left" % (logic, o)] = logic, lambda n, o=o, lg=logic: nest(lambda x, i: (o, x, leaf(lg, i)), n, SEED[lg])
            out["%s %s wide" % (logic, o)] = logic, lambda n, o=o, lg=logic: (o,) + tuple(leaf(lg, i) for i in range(n))
            out["%s %s of the same" % (logic, o)] = logic, lambda n, o=o, lg=logic: nest(lambda x, i: (o, x, leaf(lg, i % 2)), n, SEED[lg])
            for p in nary:
                if p != o:
                    out["%s %s in %s right" % (logic, o, p)] = logic, lambda n, o=o, p=p, lg=logic: nest(lambda x, i: ((o, p)[i % 2], leaf(lg, i), x), n, SEED[lg])
                    out["%s %s in %s left" % (logic, o, p)] = logic, lambda n, o=o, p=p, lg=logic: nest(lambda x, i: ((o, p)[i % 2], x, leaf(lg, i)), n, SEED[lg])
            for u in unary:
                out["%s %s under %s" % (logic, o, u)] = logic, lambda n, o=o, u=u, lg=logic: nest(lambda x, i: (u, (o, leaf(lg, i), x)), n, SEED[lg])
                out["%s %s over %s" % (logic, o, u)] = logic, lambda n, o=o, u=u, lg=logic: nest(lambda x, i: (o, (u, x), leaf(lg, i)), n, SEED[lg])
                out["%s %s wide of %s" % (logic, o, u)] = logic, lambda n, o=o, u=u, lg=logic: (o,) + tuple((u, leaf(lg, i)) for i in range(n))
        for u in unary:
            for v in unary:
                out["%s %s and %s" % (logic, u, v)] = logic, lambda n, u=u, v=v, lg=logic: nest(lambda x, i: ((u, v)[i % 2], x), n, SEED[lg])
    for m, k in (("dia", "box"), ("dia", "dia"), ("box", "box")):
        out["ldl %s %s" % (m, k)] = "ldl", lambda n, m=m, k=k: nest(lambda x, i: ((m, k)[i % 2], ("prop", at(i)), x), n, ("true",))
        out["ldl tests %s %s" % (m, k)] = "ldl", lambda n, m=m, k=k: nest(lambda x, i: ((m, k)[i % 2], ("test", x), ("true",)), n, S.DIA)
        out["ldl stars %s %s" % (m, k)] = "ldl", lambda n, m=m, k=k: (m, nest(lambda x, i: ("star", ("seq", x, ("prop", at(i)))), n, ("prop", S.A)), (k, ("prop", S.A), ("true",)))
    for q, r in (("forall", "exists"), ("forall", "forall"), ("exists", "exists")):
        out["fol %s %s" % (q, r)] = "fol", lambda n, q=q, r=r: nest(lambda x, i: ((q, r)[i % 2], ("var", "x%d" % i), x), n, SEED["fol"])
        out["fol %s %s over and" % (q, r)] = "fol", lambda n, q=q, r=r: nest(lambda x, i: ((q, r)[i % 2], ("var", "x%d" % i), ("and", ("pred", "P%d" % i, ("var", "x%d" % i)), x)), n, SEED["fol"])
    out["fol terms deep"] = "fol", lambda n: ("pred", "P", nest(lambda x, i: ("fun", "f", x), n, ("var", "x")))
    out["fol terms deep twice"] = "fol", lambda n: ("pred", "P", nest(lambda x, i: ("fun", "f", x, ("var", "x%d" % i)), n, ("var", "x")), ("var", "y"))
    out["fol terms wide"] = "fol", lambda n: ("pred", "P") + tuple(("fun", "f", ("var", "x%d" % i)) for i in range(n))
    for logic in ("pl", "ltl", "pltl"):
        out["%s long name" % logic] = logic, lambda n: ("atom", "p" + "ab_c" * n)
        out["%s long dashed name" % logic] = logic, lambda n: ("atom", "p" + "-a" * n)
        out["%s long quoted name" % logic] = logic, lambda n: ("atom", '"' + "a (b" * n + '"')
    return out


def operations(logic, t):
    """(label, preparation, operation): the work of the operation alone is measured."""
    build = lambda: T.build(t, logic)
    two = lambda: (build(), build())
    yield "building", lambda: None, lambda _: build()
    yield "hashing", build, hash
    yield "comparing equal formulas", two, lambda p: (p[0] == p[1], p[0] != p[1])
    yield "the native text", build, str
    yield "repr", build, repr
    yield "pickling", build, lambda f: pickle.loads(pickle.dumps(f))
    yield "pickling and hashing", build, lambda f: hash(pickle.loads(pickle.dumps(f)))
    yield "copying", build, lambda f: (copy.copy(f), hash(copy.deepcopy(f)))
    if logic != "re":
        yield "negating", build, lambda f: ~f
        yield "combining", two, lambda p: (p[0] & p[1], p[0] | ~p[1], p[0] >> p[1], B_.Implies(p[0], p[1], p[0]), B_.Equivalence(p[0], ~p[1]))
    if logic in c21.PARSE:
        yield "printing", build, to_string
        yield "parsing", lambda: to_string(build()), c21.PARSE[logic]
        yield "parsing a broken text", lambda: to_string(build()) + " &", c21.PARSE[logic]
        yield "parsing a text with an extra bracket", lambda: to_string(build()) + ")", c21.PARSE[logic]
    if logic == "pl":
        for s in (set(), {"a"}, {"p%d" % i for i in range(200)}, {"p%d" % i: i % 2 == 0 for i in range(200)}):
            yield "evaluating", build, lambda f, s=s: evaluate_pl(f, s)
    if logic in ("pl", "fol"):
        yield "checking a proof about it", build, lambda f: nd.ND.check(nd.ND.Proof([1, f, [nd.ND.rule.premise], 2, ~~f, [nd.ND.rule.dneg_i, 1], 3, f & f, [nd.ND.rule.and_i, 1, 2], 4, f, [nd.ND.rule.copy, 1]]))
    if logic == "fol":
        x, y = F.Variable("x0"), F.Variable("zz")
        yield "instantiating it", build, lambda f: nd.ND.check(nd.ND.Proof([1, F.ForAll(x, f), [nd.ND.rule.premise], 2, f, [nd.ND.rule.forall_e, 1], 3, F.Exists(y, f), [nd.ND.rule.exists_i, 2]]))


def families():
    """name -> (size -> list of (label, preparation, operation))"""
    out = {}
    for name, (logic, make) in shapes().items():
        out[name] = lambda n, logic=logic, make=make: operations(logic, make(n))
    for logic, (open_, x, close, un, op) in {"pl": ("(", "a", ")", "!", " & "), "ltl": ("(", "a", ")", "X ", " U "), "pltl": ("(", "a", ")", "Y ", " S "), "ldl": ("(", "tt", ")", "<a>", " -> ")}.items():
        texts = {
            "brackets": lambda n, o=open_, x=x, c=close: o * n + x + c * n, "brackets not closed": lambda n, o=open_, x=x, c=close: o * n + x + c * (n - 1), "brackets closed too often": lambda n, o=open_, x=x, c=close: o * n + x + c * (n + 1),
            "prefixes": lambda n, u=un, x=x: u * n + x, "negations": lambda n, x=x: "!" * n + x, "chain": lambda n, op=op, x=x: op.join([x] * n), "chain cut off": lambda n, op=op, x=x: op.join([x] * n) + op,
            "blanks": lambda n, x=x: " " * n + x + "\t" * n, "words": lambda n, x=x: " ".join([x] * n), "alternating": lambda n, x=x: x + " <-> (a -> (a | a & " * n + x + "))" * n if x == "a" else x + " -> (tt & " * n + x + ")" * n,
            "letters": lambda n: "a" * n + "$", "dashes": lambda n: "a" + "-" * n + "$", "quotes": lambda n: '"' * n, "quoted": lambda n: '"' + "a" * n, "stars": lambda n: "<a" + "*" * n + ">tt", "tests": lambda n: "<tt" + "?" * n + ">tt",
        }
        for k, v in texts.items():
            out["%s text: %s" % (logic, k)] = lambda n, v=v, logic=logic: [("parsing", lambda: v(n), c21.PARSE[logic])]
    A, B, C = S.A, S.Bq, S.C
    from pylogics_modalities.syntax import ltl, pl, pltl

    for cls in (pl.Atomic, ltl.Atomic, pltl.Atomic):
        for k, v in {"letters": lambda n: "a" * n, "letters and a mark": lambda n: "a" * n + "!", "dashes": lambda n: "a" + "-" * n, "dashed": lambda n: "a-" * n, "dashed well": lambda n: "a-" * n + "b", "underscores": lambda n: "_" * n + "-",
                     "quoted": lambda n: '"' + "a " * n + '"', "not closed": lambda n: '"' + "a " * n, "quotes": lambda n: '"' * n, "mixed": lambda n: "a_-A0" * n + "\n"}.items():
            out["%s.Atomic of %s" % (cls.__module__, k)] = lambda n, v=v, cls=cls: [("creating an atom", lambda: v(n), cls), ("creating an atom", lambda: v(4 * n), cls)]
    # a proof of n lines of each kind
    for k in range(len(list(nd.long_valid(12, A, B, C)))):
        name = [x[0] for x in nd.long_valid(12, A, B, C)][k]
        if name.startswith("nest"):
            continue

        def proof(n, k=k):
            items = list(nd.long_valid(n + 4, A, B, C))[k][1]
            p = nd.ND.Proof(nd.flat(items, "pl"))
            return [("checking", lambda: p, nd.ND.check), ("building a proof", lambda: nd.flat(items, "pl"), nd.ND.Proof)]
        out["proof: " + name] = proof

    def boxes(n):
        def box(k, d):
            if d == 0:
                return (L(k, A, "copy", 1),)
            inner = box(k + 1, d - 1)
            if isinstance(inner[0], tuple) and inner[0][0] == "box":
                return (Bx(k, None, L(k, B, "assumption"), inner[0], L(1000 + k, A, "copy", 1)),)
            return (Bx(k, None, L(k, B, "assumption"), L(k + 1, A, "copy", 1)),)
        items = (L(1, A, "premise"),) + box(2, n)
        p = nd.ND.Proof(nd.flat(items, "pl"))
        return [("checking", lambda: p, nd.ND.check), ("building a proof", lambda: nd.flat(items, "pl"), nd.ND.Proof)]
    out["proof: boxes in boxes"] = boxes

    def fresh(n):
        items = [L(1, ("forall", ("var", "x"), ("pred", "P", ("var", "x"))), "premise")]
        for i in range(n):
            v = ("var", "y%d" % i)
            items += [Bx(2 + 2 * i, v, L(2 + 2 * i, ("pred", "P", v), "forall_e", 1)), L(3 + 2 * i, ("forall", ("var", "x"), ("pred", "P", ("var", "x"))), "forall_i", 2 + 2 * i)]
        p = nd.ND.Proof(nd.flat(tuple(items), "fol"))
        return [("checking", lambda: p, nd.ND.check)]
    out["proof: many quantifier boxes"] = fresh

    # rows about a big formula or term, every quantifier rule, with the variable found at the very end or not at all
    x, y, z = ("var", "x"), ("var", "y"), ("var", "z")
    P = lambda *t: ("pred", "P") + t
    fns = {"unary": lambda t, i: ("fun", "f", t), "left": lambda t, i: ("fun", "f", t, ("var", "v%d" % i)), "right": lambda t, i: ("fun", "f", ("var", "v%d" % i), t)}
    tms = {"or right": lambda t, i: ("or", ("pred", "Q%d" % i), t), "or left": lambda t, i: ("or", t, ("pred", "Q%d" % i)), "and not": lambda t, i: ("and", ("pred", "Q%d" % i), ("not", t)),
           "implies": lambda t, i: ("imp", ("pred", "Q%d" % i), t), "equivalence": lambda t, i: ("iff", ("pred", "Q%d" % i), t), "forall": lambda t, i: ("forall", ("var", "v%d" % i), t), "exists or": lambda t, i: ("exists", ("var", "v%d" % i), ("or", P(("var", "v%d" % i)), t))}
    for k, step in fns.items():
        def go(n, step=step):
            for end in (x, y, z, ("const", "c")):
                t = nest(step, n, end)
                yield "forall_e", (L(1, ("forall", x, P(x)), "premise"), L(2, P(t), "forall_e", 1))
                yield "forall_e under a quantifier", (L(1, ("forall", x, ("exists", y, ("pred", "R", x, y))), "premise"), L(2, ("exists", y, ("pred", "R", t, y)), "forall_e", 1))
                yield "forall_e in the term", (L(1, ("forall", x, P(t)), "premise"), L(2, P(nest(step, n, ("const", "c") if end == x else end)), "forall_e", 1))
                yield "exists_i", (L(1, P(t), "premise"), L(2, ("exists", x, P(x)), "exists_i", 1))
                yield "exists_i under a quantifier", (L(1, ("exists", y, ("pred", "R", t, y)), "premise"), L(2, ("exists", x, ("exists", y, ("pred", "R", x, y))), "exists_i", 1))
                yield "forall_i", (L(1, ("forall", x, P(t)), "premise"), Bx(2, y, L(2, P(nest(step, n, y if end == x else end)), "forall_e", 1)), L(3, ("forall", x, P(t)), "forall_i", 2))
                yield "exists_e", (L(1, ("exists", x, P(x)), "premise"), L(2, P(t), "premise"), Bx(3, y, L(3, P(y), "assumption"), L(4, P(t), "copy", 2)), L(5, P(t), "exists_e", 1, 3))
        out["proof: terms nested " + k] = lambda n, go=go: proof_ops(go(n))
    for k, step in tms.items():
        def go(n, step=step):
            for end in (P(x), P(y), ("pred", "R", y, x), ("pred", "Z")):
                f = nest(step, n, end)
                with_c = nest(step, n, tuple(("const", "c") if u == x else u for u in end))
                with_y = nest(step, n, tuple(y if u == x else u for u in end))
                yield "forall_e", (L(1, ("forall", x, f), "premise"), L(2, with_c, "forall_e", 1))
                yield "exists_i", (L(1, with_c, "premise"), L(2, ("exists", x, f), "exists_i", 1))
                yield "forall_i", (L(1, ("forall", x, f), "premise"), Bx(2, y, L(2, with_y, "forall_e", 1)), L(3, ("forall", x, f), "forall_i", 2))
                yield "exists_e", (L(1, ("exists", x, f), "premise"), L(2, with_y, "premise"), Bx(3, y, L(3, with_y, "assumption"), L(4, with_y, "copy", 2)), L(5, with_y, "exists_e", 1, 3))
                yield "propositional", (L(1, f, "premise"), L(2, ("or", f, ("pred", "Z")), "or_i1", 1), Bx(3, None, L(3, f, "assumption"), L(4, f, "copy", 1)), L(5, nd.imp(f, f), "impl_i", 3), L(6, f, "impl_e", 1, 5), L(7, ("not", ("not", f)), "dneg_i", 1), L(8, f, "dneg_e", 7))
        out["proof: formulas nested " + k] = lambda n, go=go: proof_ops(go(n))
    return out


def proof_ops(named):
    for k, (name, items) in enumerate(named):
        p = nd.ND.Proof(nd.flat(items, "fol"))
        yield "checking %s (%d)" % (name, k), lambda p=p: p, nd.ND.check


def measure(label, fam, prep, op, limit, part):
    x = prep()

    def late(*_):
        raise TooMuch()

    signal.signal(signal.SIGALRM, late)
    signal.alarm(SECONDS)
    try:
        n, r = work_of(lambda: op(x), limit)
    except TooMuch:
        return None, None
    finally:
        signal.alarm(0)
    part.transitions += 1
    return n, r


def explore(chunk, part):
    for name, sizes in chunk:
        make = families_()[name]
        last = {}
        for n in sizes:
            for k, (label, prep, op) in enumerate(make(n)):
                part.states += 1
                limit = None
                if k in last:
                    factor = DEGREE_FACTOR ** (n / (2 * last[k][0]))
                    limit = int(last[k][1] * max(DEGREE_FACTOR, factor) + SLACK)
                elif n == sizes[0]:
                    limit = 3_000_000
                w, r = measure(label, name, prep, op, limit, part)
                if w is None:
                    raise Violation("%s: %s of size %d takes more than %s steps or %d s; size %s takes %s" % (name, label, n, limit, SECONDS, *(last.get(k, ("-", "-")))), family=name, operation=label, size=n)
                if n == sizes[0] or w > 0:
                    last[k] = (n, max(w, 1))
                part.traces += 1
        hashes(name, sizes, part)
    part.sample([chunk[-1][0], list(chunk[-1][1])])


def hashes(name, sizes, part):
    """The hash is computed once: afterwards it costs the same few steps whatever the size, and so on every object."""
    sh = shapes().get(name)
    if sh is None:
        return
    logic, make = sh
    costs = []
    for n in sizes:
        f = T.build(make(n), logic)
        objects = {"built": f, "copied": copy.copy(f), "restored": pickle.loads(pickle.dumps(f)), "deep copy": copy.deepcopy(f)}
        if logic != "re":
            objects["negated"] = ~f  # and a formula just derived from it
        for k, g in objects.items():
            hash(g)
            for again in range(2):
                w, _ = work_of(lambda: hash(g))
                part.transitions += 1
                costs.append((w, n, k))
                # a comparison, a text or a copy in between must not make it forget
                g == f, str(g)
            parts = list(getattr(g, "operands", ()) or ()) + [x for x in (getattr(g, "argument", None),) if x is not None]
            for o in parts[:3] + parts[-1:]:
                if isinstance(o, F.Term):
                    continue
                hash(o)
                costs.append((work_of(lambda: hash(o))[0], n, k + "'s operand"))
    low = [w for w, n, _ in costs if n == sizes[0]]
    for w, n, k in costs:
        if w > max(low) + 2 or w > 30:
            raise Violation("%s: hashing once more the %s formula of size %d takes %d steps (size %d: %d)" % (name, k, n, w, sizes[0], max(low)), family=name)


def families_():
    global _FAM
    try:
        return _FAM
    except NameError:
        _FAM = families()
        return _FAM


def run(check):
    sizes = (8, 16, 32) if check.quick else (6, 8, 12, 16, 24, 32, 48, 64, 96)
    fams = families_()
    check.note("families", len(fams))
    check.note("sizes", list(sizes))
    check.run_parallel(explore, chunked([(k, sizes) for k in fams], 128))
