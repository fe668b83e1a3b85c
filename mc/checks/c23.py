"""C23: native texts identify formulas; the same text in every process."""
import copy
import hashlib
import itertools
import json
import os
import pickle
import re
import subprocess
import sys

from pylogics_modalities.syntax.base import reset_cache

from mc import population as POP
from mc import space as S
from mc import terms as T
from mc.core import VERIF, Violation, chunked

ASSUMPTIONS = ["different symbols have different names, without blanks, commas or brackets, and are no reserved words"]
A, B, C = S.A, S.Bq, S.C
X, Y, K = S.X, S.Yv, S.K
ADDRESS = re.compile(r"0x[0-9a-fA-F]{4,}|object at|<function|<class|<module|<bound")


def text(f, t, logic, part):
    part.states += 1
    s = str(f)
    part.transitions += 1
    if not isinstance(s, str) or str(f) != s:
        raise Violation("the text of %r changes from %r to %r" % (t, s, str(f)), logic=logic)
    if ADDRESS.search(s):
        raise Violation("the text %r of %r depends on the identity of an object" % (s, t), logic=logic)
    return s


def space(logic, q):
    """Normalised terms (what the constructors build), no duplicates."""
    if logic == "pl":
        n, lv = (4, 6)[not q], (A, B, ("atom", "ab"), ("true",), ("false",))
        yield from S.upto("pl", 4 if q else 5, lv)
        yield from S.wide((A, B, C, ("not", A), ("and", A, B), ("or", B, A), ("true",)), ("and", "or", "imp", "iff"), 3 if q else 4)
        yield from S.upto("pl", 5 if q else 6, (A, B), 2)
        names = ("a", "b", "ab", "a_b", "a-b", "a1", "aa", "aB", "_", "__", '"a"', '"a b"', '"("', '"(not a)"', '"A"', "and", "not", "or", "implies", "equivalence", "x")
        for u, v in itertools.product(names, repeat=2):
            for o in T.BOOLS:
                yield (o, ("atom", u), ("atom", v))
            yield ("not", ("atom", u))
            yield ("or", ("not", ("atom", u)), ("atom", v))
            yield ("not", ("and", ("atom", u), ("atom", v)))
    elif logic in ("ltl", "pltl"):
        yield from S.upto(logic, 4 if q else 5, (A, B), 3)
        pool = tuple(t for t in S.POOL[logic] if not T.has_tag(t, ("true", "false", "ptrue", "pfalse")))
        yield from S.wide(pool, S.NARY[logic], 3)
        yield from S.chains(S.UNARY[logic], 4 if q else 6, (A, ("and", A, B)))
    elif logic == "ldl":
        yield from S.upto("ldl", 5 if q else 6, (("true",), ("false",)), 2)
        yield from S.upto("ldl", 4 if q else 5, (("true",), ("false",)), 3)
        yield from (t for t in POP.population("ldl"))
        for r in S.upto_over(4 if q else 5, S.RE_LEAVES + (("prop", B), ("test", S.DIA)), ("star",), ("seq", "union"), 3):
            yield ("dia", r, ("true",))
            yield ("box", r, ("false",))
    elif logic == "fol":
        P = lambda *t: ("pred", "P") + t
        f = lambda *t: ("fun", "f") + t
        yield from S.upto("fol", 3 if q else 4, (P(X), P(Y), ("pred", "Q"), ("pred", "R", X, Y), ("true",), ("false",)), 3)
        yield from S.upto("fol", 4 if q else 5, (P(X), P(f(X))), 2)
        ts = terms_(q)
        for t in ts:
            yield P(t)
            for u in ts[: 40 if q else 160]:
                yield P(t, u)
                yield ("pred", "R", u, t)
                yield ("and", P(t), P(u))
            for v in (X, Y):
                yield ("forall", v, P(t))
                yield ("exists", v, ("not", P(t)))
        yield from S.wide(S.POOL["fol"], ("and", "or", "imp", "iff"), 3)
        for ar in range(0, 5):
            for n in ("P", "PQ", "P1", "x1", "Fx"):
                for args in itertools.product((("var", "v1"), ("var", "v2")), repeat=ar):
                    yield ("pred", n) + args


def terms_(q):
    lv = [X, Y, K, ("const", "k2", None), ("var", "xy"), ("var", "x1")]
    one = lv + [("fun", "f", a) for a in lv] + [("fun", "f", a, b) for a in lv for b in lv] + [("fun", "g", a) for a in lv] + [("fun", "fx", a) for a in lv]
    two = one + [("fun", "f", a) for a in one[len(lv):]] + [("fun", "g", a, b) for a in one[len(lv): len(lv) + 12] for b in lv[:4]] + [("fun", "f", b, a) for a in one[len(lv): len(lv) + 12] for b in lv[:4]]
    out = list(dict.fromkeys(two))
    if not q:
        out += [("fun", "h", a, b, c) for a in lv[:4] for b in lv[:4] for c in lv[:4]] + [("fun", "f", ("fun", "g", a, b), c) for a in lv[:4] for b in lv[:4] for c in lv[:4]]
    return out


def all_terms(logic, q):
    seen = set()
    for t in space(logic, q):
        if T.iff_repeats(t):
            continue  # known finding of another property: the constructor loses operands
        if t not in seen:
            seen.add(t)
            yield t


def texts_of(logic, q, part):
    """text -> structure over the whole space (the property is about all pairs)."""
    by_text, by_term, digest = {}, {}, hashlib.sha256()
    for k, t in enumerate(all_terms(logic, q)):
        f = T.build(t, logic)
        s = text(f, t, logic, part)
        r = T.read(f)
        if by_text.setdefault(s, r) != r:
            raise Violation("%r and %r have the same text %r" % (by_text[s], r, s), logic=logic)
        if by_term.setdefault(r, s) != s:
            raise Violation("%r has the texts %r and %r" % (r, by_term[r], s), logic=logic)
        part.traces += 1
        digest.update(s.encode() + b"\0")
        if k % 7 == 0:  # another object with the same structure
            for g in (pickle.loads(pickle.dumps(f)), copy.deepcopy(f), copy.copy(f)):
                if str(g) != s:
                    raise Violation("a copy of %r has the text %r instead of %r" % (r, str(g), s), logic=logic)
        if k % 5000 == 4999:
            reset_cache()
    # the structures once more, built from what was read, in the opposite order
    for r, s in list(by_term.items())[:: -3]:
        if str(T.build(r, logic)) != s:
            raise Violation("%r has the text %r when built from its parts, and %r before" % (r, str(T.build(r, logic)), s), logic=logic)
    part.count("formulas_" + logic, len(by_term))
    return digest.hexdigest()


def term_texts(q, part):
    by = {}
    digest = hashlib.sha256()
    for t in terms_(q):
        x = T.build_term(t)
        s = str(x)
        part.states += 1
        part.transitions += 1
        if by.setdefault(s, t) != t:
            raise Violation("the terms %r and %r have the same text %r" % (by[s], t, s))
        if str(T.build_term(t)) != s or ADDRESS.search(s):
            raise Violation("the text %r of the term %r is not determined by its structure" % (s, t))
        digest.update(s.encode() + b"\0")
    return digest.hexdigest()


def symbols(t):
    """(kind, name) of every symbol in a term."""
    if t[0] in ("atom", "var", "const", "fun", "pred"):
        yield t[0] + (str(len(t)) if t[0] in ("fun", "pred") and len(t) == 2 else ""), t[1]
    for x in t[1:]:
        if isinstance(x, tuple):
            yield from symbols(x)


def family_texts(name, items, part):
    """Within a family of large formulas: equal text exactly for equal structure (operand order included)."""
    by_text, by_key, kinds = {}, {}, {}
    for l, t in items:
        used = set(symbols(t))
        if any(kinds.get(n, k) != k for k, n in used):
            continue  # the names must determine the symbols
        kinds.update((n, k) for k, n in used)
        f = T.build_term(t) if l == "term" else T.build(t, l)
        k = T.read_term(f) if l == "term" else T.read(f)
        s = str(f)
        part.states += 1
        part.transitions += 1
        if by_text.setdefault(s, k) != k or by_key.setdefault(k, s) != s:
            raise Violation("%s: %r and %r have the texts %r and %r" % (name, by_text[s], k, s, by_key.get(k)), logic=l)
    part.traces += len(items)


def population_digest(reverse=False, warm=False):
    """Digest of all texts of the population of every logic."""
    out = []
    todo = POP.everything()
    if warm:
        for l, t in todo[::-1]:
            hash(T.build(t, l))
    for l, t in todo[::-1] if reverse else todo:
        out.append((l, repr(t), str(T.build(t, l)), str(T.build(t, l))))
    return sorted(out)


def work(chunk, part):
    for kind, logic, q in chunk:
        if kind == "inj":
            texts_of(logic, q, part)
        elif kind == "terms":
            term_texts(q, part)
        elif kind == "family":
            family_texts(logic, q, part)
        else:
            seed, mode = logic
            mine = population_digest()
            code = ("import sys, json; sys.path.insert(0, %r); sys.setrecursionlimit(4000)\n"
                    "from mc.checks import c23\nprint(json.dumps(c23.population_digest(*%r)))" % (VERIF, mode))
            env = dict(os.environ, PYTHONHASHSEED=seed)
            r = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True, timeout=300)
            if r.returncode:
                raise Violation("printing fails in another process", stderr=r.stderr[-500:])
            theirs = [tuple(e) for e in json.loads(r.stdout)]
            for a, b in zip(mine, theirs):
                part.states += 1
                part.transitions += 1
                part.traces += 1
                if a != b:
                    raise Violation("%s has the text %r in this process and %r in one with hash seed %s" % (a[1], a[2:], b[2:], seed), logic=a[0])
    part.sample(chunk[0])


def run(check):
    q = check.quick
    todo = [("inj", l, q) for l in ("pl", "ltl", "pltl", "ldl", "fol")] + [("terms", None, q)]
    todo += [("family", n, v) for pop in (POP.families(q), POP.huge(q)) for n, v in pop.items() if '"' not in v[0][1][1]]
    seeds = ("0", "1", "2", "random") if q else tuple(str(i) for i in range(0, 24)) + ("random",)
    todo += [("proc", (s, m), q) for s in seeds for m in ((False, False), (True, True))]
    check.note("hash_seeds", len(seeds))
    check.run_parallel(work, [[t] for t in todo])
