"""C22: the helper functions on all small inputs."""
import copy
import itertools
import pickle
import re

from pylogics_modalities.exceptions import ParsingError, PylogicsError
from pylogics_modalities.helpers import misc as M

from pylogics_modalities.parsers import parse_ldl, parse_ltl, parse_pl
from pylogics_modalities.syntax import base as B

from mc.core import Violation, chunked, outcome

ASSUMPTIONS = ["sequences of length up to 4 (thorough: 6) over three kinds of elements, strings up to length 4 (6)"]
SENT = object()


class Odd:
    """Truth value independent of its type."""

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return self.v

    def __repr__(self):
        return "Odd(%s)" % self.v


def seqs(n):
    for k in range(n + 1):
        for s in itertools.product((0, None, "x"), repeat=k):
            yield list(s)
            yield tuple(s)
        for s in itertools.product("ab\n", repeat=k):
            yield "".join(s)
        yield range(k)
        yield range(5, 5 - k, -1)
        yield bytes(range(k))


def expect(part, what, got, want, **info):
    part.states += 1
    part.transitions += 1
    if got[0] != "ok":
        raise Violation("%s raises %s" % (what, type(got[1]).__name__), **info)
    if not (got[1] is want or (got[1] == want and type(got[1]) is type(want))):
        raise Violation("%s returns %r instead of %r" % (what, got[1], want), **info)
    part.traces += 1


def sequences(chunk, part):
    for s in chunk:
        items = list(s)
        n = len(items)
        before = list(items)
        for i in range(-n - 3, n + 4):
            for default in ((), (None,), (0,), ("d",), (SENT,)):
                want = items[i] if -n <= i < n else (default[0] if default else None)
                expect(part, "safe_get(%r, %d, %r)" % (s, i, default), outcome(lambda: M.safe_get(s, i, *default)), want)
        values = [0, None, "x", "zz", 1, 7, "a", "b"] if not isinstance(s, (str, bytes)) else (["a", "b", "ab", "", "z", "\n"] if isinstance(s, str) else [0, 1, 200, b"", b"\x01"])
        for v in values:
            if isinstance(s, (str, bytes)):
                want = s.find(v)
                want = None if want < 0 else want
            else:
                want = next((k for k in range(n) if items[k] is v or items[k] == v), None)
            expect(part, "safe_index(%r, %r)" % (s, v), outcome(lambda: M.safe_index(s, v)), want)
            if not isinstance(s, (str, bytes, range)):
                for lo in range(n + 2):
                    want = next((k for k in range(lo, n) if items[k] is v or items[k] == v), None)
                    expect(part, "safe_index(%r, %r, %d)" % (s, v, lo), outcome(lambda: M.safe_index(s, v, lo)), want)
                    for hi in range(n + 2):
                        want = next((k for k in range(lo, min(hi, n)) if items[k] is v or items[k] == v), None)
                        expect(part, "safe_index(%r, %r, %d, %d)" % (s, v, lo, hi), outcome(lambda: M.safe_index(s, v, lo, hi)), want)
        alphabet = list(dict.fromkeys(items)) + ["other"]
        for hit in itertools.product((False, True), repeat=len(alphabet)):
            yes = [a for a, h in zip(alphabet, hit) if h]
            want = next((k for k in range(n) if items[k] in yes), -1)
            for name, cond in (("bool", lambda e: e in yes), ("object", lambda e: Odd(e in yes)), ("number", lambda e: 5 if e in yes else 0)):
                expect(part, "find(%r, in %r as %s)" % (s, yes, name), outcome(lambda: M.find(s, cond)), want)
        # positions, not elements, decide
        for k in range(n):
            calls = []

            def nth(e):
                calls.append(e)
                return len(calls) == k + 1

            expect(part, "find(%r, the call number %d)" % (s, k + 1), outcome(lambda: M.find(s, nth)), k)
        for default in (None, 0, "d", SENT):
            expect(part, "ensure(%r, %r)" % (s, default), outcome(lambda: M.ensure(s, default)), s)
        for imm in ((), (True,), (False,)):
            mut = imm == (False,)
            expect(part, "ensure_set(%r, %r)" % (s, imm), outcome(lambda: M.ensure_set(s, *imm)), (set if mut else frozenset)(items))
            expect(part, "ensure_set of a set %r" % (s,), outcome(lambda: M.ensure_set(set(items), *imm)), (set if mut else frozenset)(items))
            expect(part, "ensure_set of a frozenset %r" % (s,), outcome(lambda: M.ensure_set(frozenset(items), *imm)), (set if mut else frozenset)(items))
            expect(part, "ensure_sequence(%r, %r)" % (s, imm), outcome(lambda: M.ensure_sequence(s, *imm)), (list if mut else tuple)(items))
            if imm:
                expect(part, "ensure_sequence(%r, immutable=%r)" % (s, imm), outcome(lambda: M.ensure_sequence(s, immutable=imm[0])), (list if mut else tuple)(items))
                expect(part, "ensure_set(%r, immutable=%r)" % (s, imm), outcome(lambda: M.ensure_set(s, immutable=imm[0])), (set if mut else frozenset)(items))
        if list(s) != before:
            raise Violation("a helper changed its argument %r" % (before,))


# languages with membership decided here by hand, next to the expression given to the library
LANGS = [
    (r"a*", lambda s: all(c == "a" for c in s)),
    (r"a|ab", lambda s: s in ("a", "ab")),
    (r"ab?", lambda s: s in ("a", "ab")),
    (r"(ab)+", lambda s: len(s) > 0 and s == "ab" * (len(s) // 2)),
    (r"[ab]*b", lambda s: s.endswith("b") and set(s) <= {"a", "b"}),
    (r"", lambda s: s == ""),
    (r"a|b\n", lambda s: s in ("a", "b\n")),
    (r".", lambda s: len(s) == 1 and s != "\n"),
    (r"(?s:.)b", lambda s: len(s) == 2 and s[1] == "b"),
    (r"a*?", lambda s: all(c == "a" for c in s)),
    (r"\"[ -!#-~]+?\"", lambda s: len(s) > 2 and s[0] == s[-1] == '"' and all(" " <= c <= "~" and c != '"' for c in s[1:-1])),
]


def make(expr):
    return type("Constrained", (M.RegexConstrainedString,), {"REGEX": re.compile(expr)})


CLASSES = [make(e) for e, _ in LANGS]
for _k, _c in enumerate(CLASSES):
    _c.__name__ = _c.__qualname__ = "Constrained%d" % _k
    _c.__module__ = __name__
    globals()[_c.__name__] = _c


def strings(chunk, part):
    for s in chunk:
        r = outcome(lambda: M.RegexConstrainedString(s))
        if r[0] != "ok" or r[1] != s:
            raise Violation("the unconstrained string refuses or changes %r" % s)
        for (expr, member), cls in zip(LANGS, CLASSES):
            part.states += 1
            part.transitions += 1
            r = outcome(lambda: cls(s))
            if (r[0] == "ok") != member(s):
                raise Violation("a string constrained by %r %s %r" % (expr, "accepts" if r[0] == "ok" else "refuses", s))
            if r[0] == "err":
                if not isinstance(r[1], ValueError):
                    raise Violation("refusing %r raises %s instead of ValueError" % (s, type(r[1]).__name__))
                continue
            part.traces += 1
            c = r[1]
            same = [c == s, s == c, hash(c) == hash(s), len(c) == len(s), str(c) == s, type(str(c)) is str or str(c) == s, c + "z" == s + "z", {s: 1}.get(c) == 1, {c: 1}.get(s) == 1,
                    isinstance(c, cls), isinstance(c, str), not (c != s), list(c) == list(s), c.upper() == s.upper(), cls(c) == c, type(cls(c)) is cls, sorted([c, "aa"]) == sorted([s, "aa"]),
                    repr(c) == repr(s), pickle.loads(pickle.dumps(c)) == c, copy.deepcopy(c) == c, "%s" % c == s, cls(value=s) == s]
            if not all(same):
                raise Violation("the constrained string for %r does not behave like the string (%d)" % (s, same.index(False)), expression=expr)
            # a constrained string of another class is checked again
            for (e2, m2), cls2 in zip(LANGS, CLASSES):
                r = outcome(lambda: cls2(c))
                if (r[0] == "ok") != m2(s):
                    raise Violation("a string constrained by %r %s %r made with %r" % (e2, "accepts" if r[0] == "ok" else "refuses", s, expr))
                if r[0] == "ok" and type(r[1]) is not cls2:
                    raise Violation("constraining %r by %r gives a %s" % (s, e2, type(r[1]).__name__))


def conditions(part):
    class Own(Exception):
        pass

    class Two(PylogicsError):
        pass

    conds = [True, False, 0, 1, "", "x", None, [], [0], (), (1,), Odd(True), Odd(False), 0.0, {}, {1}]
    for c in conds:
        for msg in (None, "", "m", "a longer\nmessage"):
            for exc in (None, AssertionError, ValueError, TypeError, KeyError, PylogicsError, ParsingError, Own, Two, Exception):
                for kw in (False, True):
                    part.states += 1
                    args, kws = [c], {}
                    if kw:
                        if msg is not None:
                            kws["message"] = msg
                        if exc is not None:
                            kws["exception_cls"] = exc
                    else:
                        if msg is None and exc is not None:
                            continue
                        args += [msg] if msg is not None else []
                        args += [exc] if exc is not None else []
                    r = outcome(lambda: M.enforce(*args, **kws))
                    part.transitions += 1
                    if bool(c):
                        if r[0] != "ok" or r[1] is not None:
                            raise Violation("enforce fails on the true condition %r" % (c,))
                        continue
                    part.traces += 1
                    want = exc or AssertionError
                    if r[0] == "ok" or type(r[1]) is not want:
                        raise Violation("enforce(%r, %r, %r) gives %r" % (c, msg, exc, r))
                    if r[1].args != ((msg or ""),):
                        raise Violation("enforce(%r, %r, %r) raises with %r" % (c, msg, exc, r[1].args))
    for v in conds:
        for d in (None, 1, "d", SENT):
            expect(part, "ensure(%r, %r)" % (v, d), outcome(lambda: M.ensure(v, d)), v if v is not None else d)
    for imm in (True, False):
        expect(part, "ensure_set(None, %s)" % imm, outcome(lambda: M.ensure_set(None, imm)), frozenset() if imm else set())
        expect(part, "ensure_sequence(None, %s)" % imm, outcome(lambda: M.ensure_sequence(None, imm)), () if imm else [])
    expect(part, "ensure_set(None)", outcome(lambda: M.ensure_set(None)), frozenset())
    expect(part, "ensure_sequence(None)", outcome(lambda: M.ensure_sequence(None)), ())
    # formulas
    some = [parse_pl("a"), parse_pl("false"), parse_pl("true"), parse_ltl("a U b"), parse_ltl("ff"), parse_ldl("<a>tt"), parse_ldl("ff"), B.Not(parse_pl("a"))]
    for none_true in (True, False):
        for f in some:
            expect(part, "ensure_formula(%s, %s)" % (f, none_true), outcome(lambda: B.ensure_formula(f, none_true)), f)
        r = outcome(lambda: B.ensure_formula(None, none_true))
        part.states += 1
        if r[0] != "ok" or type(r[1]) is not (B.TrueFormula if none_true else B.FalseFormula) or r[1] != B.make_boolean(none_true, B.Logic.PL):
            raise Violation("ensure_formula(None, %s) gives %r" % (none_true, r[1]))
    # mutable defaults are not shared between calls
    a = M.ensure_set(None, False)
    a.add(1)
    b = M.ensure_sequence(None, False)
    b.append(1)
    if M.ensure_set(None, False) or M.ensure_sequence(None, False):
        raise Violation("the default collection is shared between calls")
    # the exceptions
    for e, base in ((PylogicsError, Exception), (ParsingError, PylogicsError)):
        if not issubclass(e, base) or str(e("m")) != "m":
            raise Violation("%s is not a %s with a message" % (e.__name__, base.__name__))
    if str(ParsingError()) != "parsing error":
        raise Violation("ParsingError() has the message %r" % str(ParsingError()))
    part.sample(["enforce", repr(conds)])


def work(chunk, part):
    for kind, payload in chunk:
        {"seq": sequences, "str": strings}.get(kind, lambda c, p: conditions(p))(payload, part)
    part.sample([chunk[0][0], repr(chunk[0][1])[:200]])


def run(check):
    n = check.pick(4, 6)
    ss = list(seqs(n))
    st = ["".join(t) for k in range(check.pick(5, 7)) for t in itertools.product('ab\n"', repeat=k)] + ["A", "é", "a b", "\0", "a\r", "ab ", " a", "a\u2028", '"a b"', '"~"', '"é"']
    todo = [("seq", c) for c in chunked(ss, 32)] + [("str", c) for c in chunked(st, 16)] + [("cond", None)]
    check.note("sequences", len(ss))
    check.note("strings", len(st))
    check.run_parallel(work, [[t] for t in todo])
