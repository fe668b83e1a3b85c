"""C05: invariants of the hash-consing registry in every state reachable by bounded histories."""
from pylogics_modalities.parsers import parse_ldl, parse_ltl, parse_pl, parse_pltl
from pylogics_modalities.syntax.base import Formula, get_cache_context, reset_cache

from mc import population as POP
from mc import terms as T
from mc.core import Violation, chunked, outcome

ASSUMPTIONS = ["the registry is read through get_cache_context()"]
A, B, C = POP.A, POP.B_, POP.C


def rec_build(t, logic, log):
    """Build bottom-up, recording every object a constructor returned."""
    sub = {"prop": "pl", "test": "ldl", "star": "re", "seq": "re", "union": "re"}.get(t[0], logic)
    if t[0] in ("dia", "box"):
        f = (T.D.Diamond if t[0] == "dia" else T.D.Box)(rec_build(t[1], "re", log), rec_build(t[2], "ldl", log))
    elif t[0] in ("atom", "true", "false", "ptrue", "pfalse", "pred"):
        f = T.build(t, logic)
    elif t[0] in ("forall", "exists"):
        f = (T.F.ForAll if t[0] == "forall" else T.F.Exists)(T.build_term(t[1]), rec_build(t[2], "fol", log))
    else:
        ops = [rec_build(x, sub, log) for x in t[1:]]
        cls = [c for c, (tag, l) in T._TAG.items() if tag == t[0] and l in (None, logic)][0]
        f = cls(*ops)
    log.append(f)
    return f


def all_parts(f, acc):
    acc.append(f)
    for x in getattr(f, "operands", ()) or ():
        if isinstance(x, Formula):
            all_parts(x, acc)
    for n in ("argument", "regular_expression", "tail_formula", "formula"):
        x = getattr(f, n, None)
        if isinstance(x, Formula):
            all_parts(x, acc)
    return acc


def bld(logic, t):
    def op(st):
        f = rec_build(t, logic, st["log"])
        st["res"].append(f)
    return ("build %s %r" % (logic, t), op)


def prs(parse, s):
    def op(st):
        f = parse(s)
        all_parts(f, st["log"])
        st["res"].append(f)
    return ("parse %r" % s, op)


def comb(name, fn):
    def op(st):
        if len(st["res"]) >= 2 and st["res"][-1].logic == st["res"][-2].logic and st["res"][-1].logic != T.Logic.RE:
            f = fn(st["res"][-2], st["res"][-1])
            # a simplification may hand back an operand (or a part of one) from before a reset
            if not any(f is g for g in st["old"]):
                st["log"].append(f)
            st["res"].append(f)
    return (name, op)


def fail(name, fn):
    def op(st):
        if outcome(fn)[0] == "ok":
            raise Violation("%s did not fail" % name, op=name)
    return (name, op)


def do_reset(st):
    reset_cache()
    st["log"].clear()
    st["old"] = [g for f in st["res"] for g in all_parts(f, [])]
    left = sum(len(d) for d in get_cache_context().values())
    if left:
        raise Violation("reset left %d entries" % left)


OPS = [
    bld("pl", A), bld("pl", ("and", A, B)), bld("pl", ("and", B, A)), bld("pl", ("not", ("not", A))),
    bld("pl", ("imp", ("false",), A)), bld("ltl", A), bld("ltl", ("U", A, ("X", B))),
    bld("pltl", ("not", ("Y", ("true",)))), bld("ldl", POP.S.DIA), bld("re", ("union", ("prop", A), ("prop", B))),
    bld("fol", ("forall", POP.X, ("pred", "P", POP.X))), bld("ltl", ("ptrue",)), bld("ltl", ("true",)),
    prs(parse_pl, "a & b | !a"), prs(parse_ltl, "F(a) -> X[!](b)"), prs(parse_pltl, "a S b & a"), prs(parse_ldl, "<a;b*>tt & [a]ff"),
    comb("and last two", lambda f, g: f & g), comb("or last two", lambda f, g: g | f), comb("negate last", lambda f, g: ~g),
    fail("parse error", lambda: parse_pl("a & ")), fail("bad atom", lambda: T.build(("atom", "A b"), "pl")),
    ("reset", do_reset),
]


def invariants(st, hist):
    ctx = get_cache_context()
    for logic, entries in ctx.items():
        seen = {}
        for f in entries:
            if f.logic is not logic and f.logic != logic:
                raise Violation("%r registered under %s" % (f, logic), history=hist)
            k = T.canon(T.read(f))
            if k in seen:
                raise Violation("%r has two entries" % (k,), history=hist)
            seen[k] = f
    for f in st["log"]:
        entries = ctx.get(f.logic, {})
        if f not in entries:
            raise Violation("%r was built but is not registered" % (T.read(f),), history=hist)
        if sum(1 for g in entries if g == f) != 1:
            raise Violation("%r is not registered exactly once" % (T.read(f),), history=hist)
    for f, snap in st["snaps"]:
        if T.read_logic(f) != snap:
            raise Violation("an existing formula changed", history=hist)


def run_history(hist, part):
    reset_cache()
    st = {"log": [], "res": [], "snaps": [], "old": []}
    for step, i in enumerate(hist):
        names = [OPS[j][0] for j in hist[: step + 1]]
        try:
            OPS[i][1](st)
        except Violation as e:
            raise Violation(e.what, history=names)
        part.transitions += 1
        st["snaps"] = [(f, T.read_logic(f)) for f in st["res"]]
        if step == len(hist) - 1:
            invariants(st, names)
            part.states += 1
            part.traces += 1
    reset_cache()


def work(chunk, part):
    for hist in chunk:
        run_history(hist, part)
    part.sample([OPS[i][0] for i in chunk[-1]])


def at(i):
    return ("atom", "p%d" % i)


# long histories: the i-th step builds one more distinct formula of the shape
LONG = {
    "pl atom": ("pl", lambda i: at(i)), "pl and": ("pl", lambda i: ("and", at(i), ("not", at(i + 1)))),
    "pl equiv": ("pl", lambda i: ("iff", at(i), at(i + 1))), "ltl until": ("ltl", lambda i: ("U", at(i), ("X", at(i)))),
    "pltl since": ("pltl", lambda i: ("S", at(i), ("Y", at(i)))), "ldl": ("ldl", lambda i: ("dia", ("prop", at(i)), ("true",))),
    "ldl test": ("ldl", lambda i: ("box", ("test", ("dia", ("star", ("prop", at(i))), ("true",))), ("false",))),
    "fol": ("fol", lambda i: ("forall", POP.X, ("pred", "P%d" % i, POP.X))),
}


def long_work(chunk, part):
    """After every one of n steps the formula is registered; at every power of two and at the end all of them are."""
    for name, n in chunk:
        logic, shape = LONG[name]
        reset_cache()
        log, kept = [], []
        for i in range(n):
            before = len(log)
            rec_build(shape(i), logic, log)
            kept.extend(log[before:])
            part.transitions += 1
            ctx = get_cache_context()
            for f in log[before:]:
                if f not in ctx.get(f.logic, {}):
                    raise Violation("%r was built but is not registered" % (T.read(f),), history="%d distinct formulas: %s" % (i + 1, name))
            if (i + 1) & i == 0 or i + 1 == n:
                for f in kept:
                    if f not in ctx.get(f.logic, {}):
                        raise Violation("%r is no longer registered" % (T.read(f),), history="%d distinct formulas: %s" % (i + 1, name))
                for l, d in ctx.items():
                    if any(f.logic != l for f in d):
                        raise Violation("a formula is registered under a foreign logic", history="%d steps of %s" % (i + 1, name))
                part.states += 1
        part.traces += 1
        part.sample([name, n])
        reset_cache()


def run(check):
    import itertools

    depth = check.pick(4, 5)
    hists = [h for d in range(1, depth + 1) for h in itertools.product(range(len(OPS)), repeat=d)]
    check.note("operations", len(OPS))
    check.note("depth", depth)
    check.run_parallel(work, chunked(hists, 64))
    size = check.pick(20000, 150000)
    check.note("long_history_steps", size)
    check.run_parallel(long_work, [[(name, size)] for name in LONG])
    # every formula kind: registered exactly once, under its own logic, however often and in whatever order it is rebuilt
    reset_cache()
    items = POP.everything()
    log = []
    for rnd in range(3):
        for l, t in (items if rnd != 1 else reversed(items)):
            rec_build(t, l, log)
            check.transitions += 1
    invariants({"log": log[-len(log) // 3:], "snaps": []}, ["three rounds over the population"])
    total = sum(len(d) for d in get_cache_context().values())
    keys = {(f.logic, T.canon(T.read(f))) for f in log}
    if total < len(keys):
        check.violation("%d entries for %d distinct formulas" % (total, len(keys)))
    check.note("population_entries", total)
    # known finding: rebuilding does not return the registered object
    for name, make in [
        ("atom", lambda: T.build(A, "pl")), ("constant", lambda: T.build(("true",), "pl")),
        ("not", lambda: T.B.Not(T.build(A, "pl"))), ("and", lambda: T.build(("and", A, B), "pl")),
        ("temporal", lambda: T.build(("U", A, B), "ltl")), ("predicate", lambda: T.build(POP.S.PX, "fol")),
    ]:
        reset_cache()
        if make() is not make():
            check.violation("rebuilding a registered formula (%s) returns a second object" % name, key="identity " + name)
    reset_cache()
