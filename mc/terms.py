"""Terms (nested tuples), the library builder/reader, the reference normaliser and reference semantics.

A term is ('tag', part, ...).  Nothing in here relies on how the library works internally: formulas are
built with the public constructors and read back with the public accessors.
"""
import ast
import itertools

from pylogics_modalities.syntax import base as B
from pylogics_modalities.syntax import fol as F
from pylogics_modalities.syntax import ldl as D
from pylogics_modalities.syntax import ltl as L
from pylogics_modalities.syntax import pl as P
from pylogics_modalities.syntax import pltl as Y

Logic = B.Logic
LOGIC = {"pl": Logic.PL, "ltl": Logic.LTL, "pltl": Logic.PLTL, "ldl": Logic.LDL, "fol": Logic.FOL, "re": Logic.RE}

ATOM_CLS = {"pl": P.Atomic, "ltl": L.Atomic, "pltl": Y.Atomic}
BOOL_CLS = {"and": B.And, "or": B.Or, "imp": B.Implies, "iff": B.Equivalence}
UN_CLS = {
    "ltl": {"X": L.WeakNext, "X!": L.Next, "F": L.Eventually, "G": L.Always},
    "pltl": {"Y": Y.Before, "Z": Y.WeakBefore, "O": Y.Once, "H": Y.Historically},
}
BIN_CLS = {
    "ltl": {"U": L.Until, "W": L.WeakUntil, "R": L.Release, "M": L.StrongRelease},
    "pltl": {"S": Y.Since, "T": Y.Triggers},
}
CONST_CLS = {
    "ltl": {"ptrue": L.PropositionalTrue, "pfalse": L.PropositionalFalse},
    "pltl": {"ptrue": Y.PropositionalTrue, "pfalse": Y.PropositionalFalse},
}
COMM = ("and", "or", "iff", "union")
BOOLS = ("and", "or", "imp", "iff")

_TAG = {}  # exact class -> (tag, logic or None)
for _t, _c in BOOL_CLS.items():
    _TAG[_c] = (_t, None)
_TAG[B.Not] = ("not", None)
_TAG[B.TrueFormula] = ("true", None)
_TAG[B.FalseFormula] = ("false", None)
for _l, _c in ATOM_CLS.items():
    _TAG[_c] = ("atom", _l)
for _tab in (UN_CLS, BIN_CLS, CONST_CLS):
    for _l, _d in _tab.items():
        for _t, _c in _d.items():
            _TAG[_c] = (_t, _l)
for _t, _c in {"dia": D.Diamond, "box": D.Box}.items():
    _TAG[_c] = (_t, "ldl")
for _t, _c in {"prop": D.Prop, "seq": D.Seq, "union": D.Union, "star": D.Star, "test": D.Test}.items():
    _TAG[_c] = (_t, "re")
for _t, _c in {"pred": F.Predicate, "forall": F.ForAll, "exists": F.Exists}.items():
    _TAG[_c] = (_t, "fol")


# ---- building ----------------------------------------------------------------------------------------
def build(t, logic):
    """Build a term with the public constructors, bottom-up, exactly as written."""
    tag = t[0]
    if tag == "atom":
        return ATOM_CLS[logic](t[1])
    if tag == "true":
        return B.TrueFormula(logic=LOGIC[logic])
    if tag == "false":
        return B.FalseFormula(logic=LOGIC[logic])
    if tag == "not":
        return B.Not(build(t[1], logic))
    if tag in BOOL_CLS:
        return BOOL_CLS[tag](*[build(x, logic) for x in t[1:]])
    if logic in UN_CLS:
        if tag in UN_CLS[logic]:
            return UN_CLS[logic][tag](build(t[1], logic))
        if tag in BIN_CLS[logic]:
            return BIN_CLS[logic][tag](*[build(x, logic) for x in t[1:]])
        if tag in CONST_CLS[logic]:
            return CONST_CLS[logic][tag]()
    if tag == "dia":
        return D.Diamond(build(t[1], "re"), build(t[2], "ldl"))
    if tag == "box":
        return D.Box(build(t[1], "re"), build(t[2], "ldl"))
    if tag == "prop":
        return D.Prop(build(t[1], "pl"))
    if tag == "test":
        return D.Test(build(t[1], "ldl"))
    if tag == "star":
        return D.Star(build(t[1], "re"))
    if tag == "seq":
        return D.Seq(*[build(x, "re") for x in t[1:]])
    if tag == "union":
        return D.Union(*[build(x, "re") for x in t[1:]])
    if tag == "pred":
        return F.Predicate(t[1], [build_term(x) for x in t[2:]])
    if tag == "forall":
        return F.ForAll(build_term(t[1]), build(t[2], "fol"))
    if tag == "exists":
        return F.Exists(build_term(t[1]), build(t[2], "fol"))
    raise ValueError("cannot build %r in %s" % (t, logic))


def _value(v):
    """Values that cannot be part of a term (not hashable) are written ("py", text)."""
    return ast.literal_eval(v[1]) if isinstance(v, tuple) and v[:1] == ("py",) else v


def build_term(t):
    if t[0] == "var":
        return F.Variable(t[1])
    if t[0] == "const":
        return F.Constant(t[1], _value(t[2])) if len(t) > 2 else F.Constant(t[1])
    if t[0] == "fun":
        return F.Function(t[1], [build_term(x) for x in t[2:]])
    raise ValueError(t)


# ---- reading -----------------------------------------------------------------------------------------
class Malformed(Exception):
    """The object read is not a well-formed formula of the library."""


def read_term(x):
    c = type(x)
    if c is F.Variable:
        return ("var", x.name)
    if c is F.Constant:
        return ("const", x.name, ("py", repr(x.value)) if isinstance(x.value, (list, dict, set)) else x.value)
    if c is F.Function:
        return ("fun", x.name) + tuple(read_term(o) for o in x.operands)
    raise Malformed("not a first-order term: %r" % (x,))


def read(f):
    """Read a formula back as a term (using public accessors only)."""
    try:
        tag, logic = _TAG[type(f)]
    except KeyError:
        raise Malformed("not a formula: %r of type %s" % (f, type(f)))
    if tag in ("true", "false", "ptrue", "pfalse"):
        return (tag,)
    if tag == "atom":
        return ("atom", f.name)
    if tag in ("not", "X", "X!", "F", "G", "Y", "Z", "O", "H", "prop", "star", "test"):
        return (tag, read(f.argument))
    if tag in ("dia", "box"):
        return (tag, read(f.regular_expression), read(f.tail_formula))
    if tag == "pred":
        return ("pred", f.name) + tuple(read_term(o) for o in f.operands)
    if tag in ("forall", "exists"):
        return (tag, read_term(f.variable), read(f.formula))
    return (tag,) + tuple(read(o) for o in f.operands)


def read_logic(f):
    """The term together with the logic of every node."""
    tag, _ = _TAG[type(f)]
    if tag in ("not", "X", "X!", "F", "G", "Y", "Z", "O", "H", "prop", "star", "test"):
        sub = (read_logic(f.argument),)
    elif tag in ("dia", "box"):
        sub = (read_logic(f.regular_expression), read_logic(f.tail_formula))
    elif tag in ("forall", "exists"):
        sub = (read_term(f.variable), read_logic(f.formula))
    elif tag == "pred":
        sub = (f.name,) + tuple(read_term(o) for o in f.operands)
    elif tag == "atom":
        sub = (f.name,)
    elif tag in ("true", "false", "ptrue", "pfalse"):
        sub = ()
    else:
        sub = tuple(read_logic(o) for o in f.operands)
    return (tag, f.logic.value) + sub


# ---- structure ---------------------------------------------------------------------------------------
_CANON = {}


def canon(t):
    """Canonical form: operand order (and repetition) ignored for the commutative operators."""
    r = _CANON.get(t)
    if r is None:
        if not isinstance(t, tuple):
            return t
        if t[0] in COMM:
            r = (t[0], frozenset(canon(x) for x in t[1:]))
        else:
            r = (t[0],) + tuple(canon(x) for x in t[1:])
        if len(_CANON) > 400000:
            _CANON.clear()
        _CANON[t] = r
    return r


def size(t):
    return 1 + sum(size(x) for x in t[1:] if isinstance(x, tuple))


def subterms(t, acc=None):
    """All subformulas (not first-order terms, not names)."""
    if acc is None:
        acc = []
    acc.append(t)
    for x in t[1:]:
        if isinstance(x, tuple) and x[0] not in ("var", "const", "fun"):
            subterms(x, acc)
    return acc


def has_tag(t, tags):
    return any(s[0] in tags for s in subterms(t))


# ---- reference normaliser: the documented simplifications -------------------------------------------
DUAL = {"true": "false", "false": "true", "ptrue": "pfalse", "pfalse": "ptrue"}


def n_not(t):
    if t[0] == "not":
        return t[1]
    if t[0] in DUAL:
        return (DUAL[t[0]],)
    return ("not", t)


def n_mono(tag, ops):
    """Conjunction/disjunction of normalised operands."""
    absorbing, identity = (("false",), ("true",)) if tag == "and" else (("true",), ("false",))
    flat = []
    for o in ops:
        flat.extend(o[1:] if o[0] == tag else (o,))
    res, seen = [], set()
    for o in flat:
        k = canon(o)
        if o == identity or k in seen:
            continue
        seen.add(k)
        res.append(o)
    if absorbing in res or any(canon(n_not(o)) in seen for o in res):
        return absorbing
    if not res:
        return identity
    if len(res) == 1:
        return res[0]
    return (tag,) + tuple(res)


def n_imp(ops):
    if len(ops) == 1:
        return ops[0]
    for i, o in enumerate(ops[:-1]):
        if o == ("false",):  # a -> false -> b is a -> true
            return n_imp(list(ops[:i]) + [("true",)])
    return ("imp",) + tuple(ops)


def n_iff(ops):
    res, seen = [], set()
    for o in ops:
        if canon(o) not in seen:
            seen.add(canon(o))
            res.append(o)
    return res[0] if len(res) == 1 else ("iff",) + tuple(res)


def n_con(tag, ops):
    if tag in ("and", "or"):
        return n_mono(tag, ops)
    if tag == "imp":
        return n_imp(ops)
    if tag == "iff":
        return n_iff(ops)
    if tag == "not":
        return n_not(ops[0])
    return (tag,) + tuple(ops)


def norm(t):
    """The normal form the documented constructors yield for a raw term."""
    if not isinstance(t, tuple) or t[0] in ("atom", "pred", "var", "const", "fun"):
        return t
    if t[0] in ("forall", "exists"):
        return (t[0], t[1], norm(t[2]))
    return n_con(t[0], [norm(x) for x in t[1:]])


def iff_repeats(t):
    """Does an equivalence with repeated operands occur (known finding)?"""
    if t[0] == "iff":
        ops = [canon(norm(x)) for x in t[1:]]
        if len(set(ops)) < len(ops):
            return True
    return any(iff_repeats(x) for x in t[1:] if isinstance(x, tuple) and x[0] not in ("var", "const", "fun"))


# ---- semantics ---------------------------------------------------------------------------------------
def ev_bool(t, val):
    """Classical truth functions; everything else is looked up with val(t)."""
    tag = t[0]
    if tag in ("true", "ptrue"):
        return True
    if tag in ("false", "pfalse"):
        return False
    if tag == "not":
        return not ev_bool(t[1], val)
    if tag == "and":
        return all([ev_bool(x, val) for x in t[1:]])
    if tag == "or":
        return any([ev_bool(x, val) for x in t[1:]])
    if tag == "imp":
        r = ev_bool(t[-1], val)
        for x in t[-2:0:-1]:
            r = (not ev_bool(x, val)) or r
        return r
    if tag == "iff":
        r = ev_bool(t[1], val)
        for x in t[2:]:
            r = r == ev_bool(x, val)
        return r
    return val(t)


def ev_pl(t, true_atoms):
    return ev_bool(t, lambda a: a[1] in true_atoms)


def ev_ltl(t, trace, i=0):
    """LTLf on a non-empty finite trace (a tuple of sets of names)."""
    n = len(trace)

    def two(op, x, rest, j):
        # n-ary chains are read as right-nested
        y = rest[0] if len(rest) == 1 else (op,) + tuple(rest)
        a = [ev_ltl(x, trace, k) for k in range(j, n)]
        b = [ev_ltl(y, trace, k) for k in range(j, n)]
        m = n - j
        until = any(b[k] and all(a[:k]) for k in range(m))
        if op == "U":
            return until
        if op == "W":
            return until or all(a)
        srel = any(a[k] and all(b[: k + 1]) for k in range(m))
        if op == "M":
            return srel
        return srel or all(b)

    def val(u):
        tag = u[0]
        if tag == "atom":
            return u[1] in trace[i]
        if tag == "last":
            return i + 1 == n
        if tag == "X!":
            return i + 1 < n and ev_ltl(u[1], trace, i + 1)
        if tag == "X":
            return i + 1 >= n or ev_ltl(u[1], trace, i + 1)
        if tag == "F":
            return any(ev_ltl(u[1], trace, k) for k in range(i, n))
        if tag == "G":
            return all(ev_ltl(u[1], trace, k) for k in range(i, n))
        return two(tag, u[1], u[2:], i)

    return ev_bool(t, val)


def ev_pltl(t, trace, i):
    """Past LTL at position i of a finite trace."""

    def two(op, x, rest):
        y = rest[0] if len(rest) == 1 else (op,) + tuple(rest)
        a = [ev_pltl(x, trace, k) for k in range(i, -1, -1)]
        b = [ev_pltl(y, trace, k) for k in range(i, -1, -1)]
        if op == "S":
            return any(b[k] and all(a[:k]) for k in range(i + 1))
        return any(a[k] and all(b[: k + 1]) for k in range(i + 1)) or all(b)

    def val(u):
        tag = u[0]
        if tag == "atom":
            return u[1] in trace[i]
        if tag == "start":
            return i == 0
        if tag == "Y":
            return i > 0 and ev_pltl(u[1], trace, i - 1)
        if tag == "Z":
            return i == 0 or ev_pltl(u[1], trace, i - 1)
        if tag == "O":
            return any(ev_pltl(u[1], trace, k) for k in range(i + 1))
        if tag == "H":
            return all(ev_pltl(u[1], trace, k) for k in range(i + 1))
        return two(tag, u[1], u[2:])

    return ev_bool(t, val)


def re_reach(r, trace, i):
    """Positions reachable from i by reading a word of the regular expression (0..len(trace))."""
    tag = r[0]
    if tag == "prop":
        return {i + 1} if i < len(trace) and ev_pl(r[1], trace[i]) else set()
    if tag == "test":
        return {i} if ev_ldl(r[1], trace, i) else set()
    if tag == "union":
        return set().union(*[re_reach(x, trace, i) for x in r[1:]])
    if tag == "seq":
        cur = {i}
        for x in r[1:]:
            cur = set().union(*[re_reach(x, trace, k) for k in cur]) if cur else set()
        return cur
    if tag == "star":
        seen, todo = {i}, [i]
        while todo:
            for k in re_reach(r[1], trace, todo.pop()):
                if k not in seen:
                    seen.add(k)
                    todo.append(k)
        return seen
    raise ValueError(r)


def ev_ldl(t, trace, i=0):
    """LDLf at position i (i == len(trace): the whole trace has been consumed)."""

    def val(u):
        if u[0] == "last":
            return i + 1 == len(trace)
        if u[0] == "end":
            return i == len(trace)
        if u[0] == "dia":
            return any(ev_ldl(u[2], trace, k) for k in re_reach(u[1], trace, i))
        if u[0] == "box":
            return all(ev_ldl(u[2], trace, k) for k in re_reach(u[1], trace, i))
        raise ValueError(u)

    return ev_bool(t, val)


def traces(atoms, max_len, min_len=1):
    letters = [frozenset(c) for r in range(len(atoms) + 1) for c in itertools.combinations(atoms, r)]
    return [tr for n in range(min_len, max_len + 1) for tr in itertools.product(letters, repeat=n)]


def ev_fol_term(t, st, env):
    if t[0] == "var":
        return env[t[1]]
    if t[0] == "const":
        return st["const"][t[1]]
    return st["fun"][t[1]][tuple(ev_fol_term(x, st, env) for x in t[2:])]


def ev_fol(t, st, env):
    def val(u):
        if u[0] == "pred":
            return tuple(ev_fol_term(x, st, env) for x in u[2:]) in st["pred"][u[1]]
        res = (ev_fol(u[2], st, dict(env, **{u[1][1]: d})) for d in range(st["n"]))
        return all(res) if u[0] == "forall" else any(res)

    return ev_bool(t, val)


def fol_signature(terms_):
    """Symbols: predicates {name: arity}, functions, constants, free-able variables."""
    pred, fun, const, var = {}, {}, set(), set()

    def term(x):
        if x[0] == "var":
            var.add(x[1])
        elif x[0] == "const":
            const.add(x[1])
        else:
            fun[x[1]] = len(x) - 2
            for y in x[2:]:
                term(y)

    def go(t):
        if t[0] == "pred":
            pred[t[1]] = len(t) - 2
            for y in t[2:]:
                term(y)
        elif t[0] in ("forall", "exists"):
            term(t[1])
            go(t[2])
        else:
            for y in t[1:]:
                if isinstance(y, tuple):
                    go(y)

    for t in terms_:
        go(t)
    return pred, fun, sorted(const), sorted(var)


def structures(sig, n):
    """All structures with universe range(n) and all assignments of the variables."""
    pred, fun, const, var = sig
    dom = range(n)
    pnames, fnames = sorted(pred), sorted(fun)
    prels = [
        [frozenset(c) for r in range(n ** pred[p] + 1)
         for c in itertools.combinations(list(itertools.product(dom, repeat=pred[p])), r)]
        for p in pnames
    ]
    ffuns = []
    for f in fnames:
        args = list(itertools.product(dom, repeat=fun[f]))
        ffuns.append([dict(zip(args, vals)) for vals in itertools.product(dom, repeat=len(args))])
    for ps in itertools.product(*prels):
        for fs in itertools.product(*ffuns):
            for cs in itertools.product(dom, repeat=len(const)):
                st = {"n": n, "pred": dict(zip(pnames, ps)), "fun": dict(zip(fnames, fs)),
                      "const": dict(zip(const, cs))}
                for vs in itertools.product(dom, repeat=len(var)):
                    yield st, dict(zip(var, vs))
