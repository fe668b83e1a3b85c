"""C27: renaming symbols one-to-one renames the results and changes nothing else; renaming rows changes no verdict."""
import itertools
import re

from pylogics_modalities.semantics.pl import evaluate_pl
from pylogics_modalities.syntax import base as B_
from pylogics_modalities.syntax.base import reset_cache
from pylogics_modalities.utils.to_string import to_string

from mc import nd
from mc import population as POP
from mc import space as S
from mc import terms as T
from mc.checks import c16, c17, c21
from mc.core import Violation, chunked

ASSUMPTIONS = ["the new names are legal symbols, no reserved words, and pairwise different; in proofs different symbols have different plain names"]

BASE = ("pv", "qv", "rv")  # names that are no part of any other text of the library
# one-to-one namings of up to three atoms
ATOMS = {
    "rotated": ("qv", "rv", "pv"), "reversed order": ("zz", "mm", "aa"), "one letter": ("c", "b", "a"), "same beginning": ("x" * 40 + "1", "x" * 40 + "2", "x" * 40), "same end": ("a" + "x" * 40, "b" + "x" * 40, "x" * 41),
    "case": ("aB", "ab", "aBB"), "prefixes": ("a", "aa", "aaa"), "digits": ("a1", "a10", "a01"), "underscores": ("_", "__", "_a_"), "dashes": ("a-b", "a_b", "a--b"), "quoted": ('"a b"', '"a  b"', '"A"'),
    "quoted operators": ('"a & b"', '"!a"', '"("'), "quoted and plain": ("a", '"a"', '" a"'), "almost keywords": ("true1", "not_", "xtt"), "words": ("and", "or", "implies"), "more words": ("not_a", "forall", "falsehood"),
    "long quoted": ('"' + "a b " * 20 + '"', '"' + "a b " * 20 + '1"', '"' + "a b " * 19 + '"'), "python": ("self", "none", "__init__"), "format": ('"%s"', '"{0}"', '"\\\\n"'), "operators": ("u", "v", "x"), "numbers": ("n9", "n10", "n11"),
}
WORD = re.compile("pv|qv|rv")


def ren(t, m):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "atom":
        return ("atom", m.get(t[1], t[1]))
    return tuple(ren(u, m) for u in t)


def retext(s, m):
    return WORD.sub(lambda k: m[k.group()], s)


BASES = {"a": "pv", "b": "qv", "c": "rv"}
WIDE = tuple("pv%s" % d for d in "bcdefghi")  # for formulas with more atoms
WIDE_NAMES = {
    "rotated": WIDE[3:] + WIDE[:3], "reversed": WIDE[::-1], "reversed letters": tuple("zyxwvuts"), "digits": ("n10", "n9", "n8", "n11", "n1", "n100", "n2", "n09"), "prefixes": tuple("a" * k for k in (3, 1, 2, 8, 7, 4, 6, 5)),
    "same beginning": tuple("x" * 40 + d for d in "73150624"), "case": ("ab", "aB", "a_", "aBB", "abb", "aBb", "abB", "a_b"), "quoted": tuple('"%s b"' % d for d in "(!&a|ABz"), "underscores": tuple("_" * k for k in (4, 2, 8, 1, 3, 7, 5, 6)),
    "words": ("or", "and", "not_", "implies", "equivalence", "next_", "until", "release"),
}
WORD8 = re.compile("pv[b-i]")


def widely(logic, quick):
    """Formulas with four and more different operands, in every order of four of them."""
    at = lambda n: ("atom", n) if logic != "ldl" else ("dia", ("prop", ("atom", n)), ("true",))
    un = {"pl": ("not",), "ltl": ("not", "X", "F"), "pltl": ("not", "Y", "O"), "ldl": ("not",)}[logic]
    for op in S.NARY[logic]:
        for n in ((4, 5) if quick else (4, 5, 6)):
            for p in itertools.permutations(range(4)):
                names = [WIDE[k] for k in p] + list(WIDE[4:n])
                yield (op,) + tuple(map(at, names))
        for n in (6, 8):
            yield (op,) + tuple(map(at, WIDE[:n]))
            yield (op,) + tuple(map(at, WIDE[:n][::-1]))
            for u in un:
                yield (op,) + tuple((u, at(w)) if k % 2 else at(w) for k, w in enumerate(WIDE[:n]))
                yield (u, (op,) + tuple((u, at(w)) for w in WIDE[:n]))
            for o2 in S.NARY[logic]:
                yield (op,) + tuple((o2, at(WIDE[k]), at(WIDE[(k + 3) % n])) for k in range(n))
                yield (op, (o2,) + tuple(map(at, WIDE[:n])), at(WIDE[2]), at(WIDE[0]))


def wide_formulas(logic, ts, part):
    for t in ts:
        f, base = facts(t, logic)
        sets = [set(WIDE[i::3]) for i in range(3)] + [set(WIDE[:k]) for k in range(9)] + [set(WIDE) - {w} for w in WIDE] if logic == "pl" else []
        vals = [evaluate_pl(f, s) for s in sets]
        back = say(lambda: T.read(c21.PARSE[logic](base["text"])))
        for name, names in WIDE_NAMES.items():
            m = dict(zip(WIDE, names))
            part.states += 1
            part.transitions += 3
            g, got = facts(ren(t, m), logic)
            want = {k: (ren(v, m) if k == "structure" else WORD8.sub(lambda x: m[x.group()], v)) for k, v in base.items()}
            if got != want:
                k = next(k for k in want if got[k] != want[k])
                raise Violation("with the atoms called %s the %s of %r is %r; the names apart it is %r" % (", ".join(names), k, t, got[k], want[k]), term=t, naming=names, logic=logic)
            there = [evaluate_pl(g, {m[x] for x in s}) for s in sets]
            if there != vals:
                raise Violation("with the atoms called %s the values of %r are %r instead of %r" % (", ".join(names), t, there, vals), term=t)
            again = say(lambda: T.read(c21.PARSE[logic](got["text"])))
            if again != (back[0], ren(back[1], m) if back[0] == "ok" else back[1]):
                raise Violation("%r parses as %r, %r parses as %r" % (base["text"], back, got["text"], again), term=t)
            part.traces += 1
        reset_cache() if part.states % 4000 < 10 else None
    part.sample([logic, ts[-1]])


# ---- first-order formulas: predicates, functions, variables and constants, each renamed one-to-one ---------
FOL_BASE = {"var": ("xv", "yv", "zv"), "const": ("cv", "dv"), "fun": ("fv", "gv"), "pred": ("Pv", "Qv", "Rv", "Sv", "Tv")}
FOL_NAMES = {
    "rotated": {"var": ("yv", "zv", "xv"), "const": ("dv", "cv"), "fun": ("gv", "fv"), "pred": ("Qv", "Rv", "Sv", "Tv", "Pv")},
    "reversed": {"var": ("z", "y", "x"), "const": ("d", "c"), "fun": ("g", "f"), "pred": ("Z", "Y", "X", "W", "V")},
    "prefixes": {"var": ("x", "xx", "xxx"), "const": ("kkk", "k"), "fun": ("ff", "f"), "pred": ("PP", "P", "PPPP", "PPPPP", "PPP")},
    "digits": {"var": ("x10", "x9", "x1"), "const": ("c2", "c10"), "fun": ("f2", "f11"), "pred": ("P10", "P9", "P1", "P2", "P11")},
    "long": {"var": tuple("x" * 50 + d for d in "312"), "const": tuple("c" * 50 + d for d in "21"), "fun": tuple("f" * 50 + d for d in "21"), "pred": tuple("P" * 50 + d for d in "52314")},
    "case": {"var": ("ab", "aB", "aBB"), "const": ("cD", "cd"), "fun": ("fG", "fg"), "pred": ("Ab", "AB", "ABB", "ABb", "Abb")},
    "underscores": {"var": ("a_", "a__", "a_b"), "const": ("c_", "c_c"), "fun": ("f__", "f_"), "pred": ("P_", "P__", "P_P", "P_Q", "Q_")},
    "words": {"var": ("forall", "exists", "not_"), "const": ("true_", "false_"), "fun": ("and_", "or_"), "pred": ("And", "Or", "Not", "ForAll", "Exists")},
}
WORDF = re.compile("[xyz]v|[cd]v|[fg]v|[PQRST]v")


def frename(t, m):
    if not isinstance(t, tuple):
        return t
    if t and t[0] in m:
        return (t[0], m[t[0]].get(t[1], t[1])) + tuple(frename(u, m) for u in t[2:])
    return tuple(frename(u, m) for u in t)


def fol_terms(quick):
    v, c = [("var", n) for n in FOL_BASE["var"]], [("const", n) for n in FOL_BASE["const"]]
    f, g = FOL_BASE["fun"]
    P, Q, R, S_, U = FOL_BASE["pred"]
    ts = v[:2] + c + [("fun", f, v[0]), ("fun", g, v[1]), ("fun", f, v[1], c[0]), ("fun", g, ("fun", f, v[2]))]
    atoms = [("pred", P, t) for t in ts] + [("pred", R, a, b) for a, b in itertools.product(ts[:6], repeat=2)] + [("pred", S_), ("pred", U, *v), ("pred", Q, v[0])]
    yield from atoms
    some = [atoms[0], atoms[1], atoms[4], atoms[10], ("pred", S_), ("pred", Q, v[0])]
    for a in some:
        yield ("not", a)
        for x in v:
            yield ("forall", x, a)
            yield ("exists", x, ("not", a))
            for y in v:
                yield ("forall", x, ("exists", y, a))
        for b in some:
            for op in ("and", "or", "imp", "iff"):
                yield (op, a, b)
                yield ("forall", v[0], (op, a, b))
                yield (op, ("exists", v[1], a), ("not", b))
    for op in ("and", "or", "imp", "iff"):
        for n in (4, 5):
            for p in itertools.permutations(FOL_BASE["pred"][:4]):
                yield (op,) + tuple(("pred", q, v[0]) for q in p) + ((("pred", U, v[1]),) if n == 5 else ())


def fol_formulas(ts, part):
    for t in ts:
        if T.iff_repeats(t):
            continue
        f = T.build(t, "fol")
        base = {"structure": T.read(f), "native text": str(f)}
        near = [("not", t), ("exists", ("var", "xv"), t)]
        for name, names in FOL_NAMES.items():
            m = {k: dict(zip(FOL_BASE[k], names[k])) for k in FOL_BASE}
            flat = {k: v for d in m.values() for k, v in d.items()}
            part.states += 1
            part.transitions += 3
            g = T.build(frename(t, m), "fol")
            got = {"structure": T.read(g), "native text": str(g)}
            want = {"structure": frename(base["structure"], m), "native text": WORDF.sub(lambda k: flat[k.group()], base["native text"])}
            if got != want:
                k = next(k for k in want if got[k] != want[k])
                raise Violation("with the symbols called %s the %s of %r is %r; the names apart it is %r" % (names, k, t, got[k], want[k]), term=t, naming=name)
            for u in near:
                h, h2 = T.build(u, "fol"), T.build(frename(u, m), "fol")
                if (g == h2) is not (f == h) or T.read(h2) != frename(T.read(h), m):
                    raise Violation("%r and %r compare differently with the symbols called %s" % (t, u, names), term=t)
            part.traces += 1
        reset_cache() if part.states % 4000 < 10 else None


def fol_pairs(ts, name, part):
    m = {k: dict(zip(FOL_BASE[k], FOL_NAMES[name][k])) for k in FOL_BASE}
    fs = [T.build(t, "fol") for t in ts]
    gs = [T.build(frename(t, m), "fol") for t in ts]
    for i, j in itertools.product(range(len(ts)), repeat=2):
        part.transitions += 1
        if (fs[i] == fs[j]) is not (gs[i] == gs[j]):
            raise Violation("%r and %r are %s, but with the symbols called %s they are not" % (ts[i], ts[j], "equal" if fs[i] == fs[j] else "different", FOL_NAMES[name]), left=ts[i], right=ts[j])
    part.states += len(ts)
    part.traces += 1


def say(fn):
    try:
        return "ok", fn()
    except Exception as e:
        return "err", type(e).__name__


def facts(t, logic):
    """What the library says about a term: structure, texts."""
    f = T.build(t, logic)
    out = {"structure": T.read(f), "native text": str(f)}
    if logic in c21.PARSE:
        out["text"] = to_string(f)
    return f, out


def renamed_facts(facts_, m):
    return {k: (ren(v, m) if k == "structure" else retext(v, m)) for k, v in facts_.items()}


def formulas(logic, ts, namings, part):
    for t in ts:
        t = ren(t, BASES)
        f, base = facts(t, logic)
        neighbours = [T.build(u, logic) for u in (t, ("not", t), ("and", t, t)) if logic != "re"]
        vals = None
        if logic == "pl":
            sets = [set(s) for k in range(4) for s in itertools.combinations(BASE, k)]
            vals = [evaluate_pl(f, s) for s in sets]
        text = base.get("text")
        parsed = say(lambda: T.read(c21.PARSE[logic](text))) if text is not None else None
        for name in namings:
            m = dict(zip(BASE, ATOMS[name]))
            part.states += 1
            part.transitions += 3
            g, got = facts(ren(t, m), logic)
            want = renamed_facts(base, m)
            if got != want:
                k = next(k for k in want if got[k] != want[k])
                raise Violation("with the atoms called %s the %s of %r is %r; the names apart it is %r" % (", ".join(ATOMS[name]), k, t, got[k], want[k]), term=t, naming=ATOMS[name], logic=logic)
            if vals is not None:
                part.transitions += 2 * len(sets)
                there = [evaluate_pl(g, {m[x] for x in s}) for s in sets]
                also = [evaluate_pl(g, {m[x]: x in s for x in BASE}) for s in sets]
                if there != vals or also != vals:
                    raise Violation("with the atoms called %s the values of %r are %r / %r instead of %r" % (", ".join(ATOMS[name]), t, there, also, vals), term=t, naming=ATOMS[name])
            if parsed is not None:
                there = say(lambda: T.read(c21.PARSE[logic](retext(text, m))))
                if there != (parsed[0], ren(parsed[1], m) if parsed[0] == "ok" else parsed[1]):
                    raise Violation("the text %r gives %r; with the atoms called %s it gives %r" % (text, parsed, ", ".join(ATOMS[name]), there), logic=logic)
            for h, u in zip(neighbours, (t, ("not", t), ("and", t, t)) if logic != "re" else ()):
                g2 = T.build(ren(u, m), logic)
                if (g == g2) is not (f == h) or (g2 == g) is not (h == f) or (f == h and hash(g) != hash(g2)):
                    raise Violation("%r and %r compare differently with the atoms called %s" % (t, u, ", ".join(ATOMS[name])), term=t)
            part.traces += 1
        reset_cache() if part.states % 5000 < 20 else None
    part.sample([logic, ts[-1]])


def pairs(logic, ts, namings, part):
    """All pairs: equal under one naming, equal under all."""
    ts = [ren(t, BASES) for t in ts]
    fs = [T.build(t, logic) for t in ts]
    eq = [[f == g for g in fs] for f in fs]
    for name in namings:
        m = dict(zip(BASE, ATOMS[name]))
        gs = [T.build(ren(t, m), logic) for t in ts]
        hs = [T.build(ren(t, m), logic) for t in ts]
        part.states += len(ts)
        for i, g in enumerate(gs):
            for j, h in enumerate(hs):
                part.transitions += 1
                if (g == h) is not eq[i][j]:
                    raise Violation("%r and %r are %s, but with the atoms called %s they are not" % (ts[i], ts[j], "equal" if eq[i][j] else "different", ", ".join(ATOMS[name])), left=ts[i], right=ts[j])
        if len(set(gs)) != len(set(fs)):
            raise Violation("a set of %d formulas has %d elements, with other names %d" % (len(fs), len(set(fs)), len(set(gs))), naming=ATOMS[name])
        part.traces += 1


SPACED = re.compile(r"(?<![a-zA-Z0-9_\"-])([abc])(?![a-zA-Z0-9_\"-])")


WORDS = re.compile(r"[A-Za-z0-9_-]*[A-Za-z0-9_]")
PLAIN = set("abcURMWXGFSTYZOH") | {"true", "false", "tt", "ff", "last", "start", "end"}


def texts(logic, ss, namings, part):
    """Arbitrary texts, wrong ones included; atoms are put at a distance from letters, as names of more letters are."""
    for s in ss:
        if '"' in s or not set(WORDS.findall(s)) <= PLAIN:
            continue
        base_text = SPACED.sub(lambda k: BASES[k.group(1)], s)
        base = say(lambda: T.read(c21.PARSE[logic](base_text)))
        for name in namings:
            m = dict(zip(BASE, ATOMS[name]))
            part.states += 1
            part.transitions += 1
            got = say(lambda: T.read(c21.PARSE[logic](retext(base_text, m))))
            want = (base[0], ren(base[1], m) if base[0] == "ok" else base[1])
            if got[0] != want[0] or (got[0] == "ok" and got != want):
                raise Violation("the text %r gives %r; %r gives %r" % (base_text, base, retext(base_text, m), got), logic=logic)
            part.traces += 1


def text_space(logic, quick):
    """Every sequence of words of the logic up to a length, atoms included."""
    words = {"pl": ["a", "b", "&", "|", "->", "<->", "!", "(", ")", "true"], "ltl": ["a", "b", "&", "U", "R", "X", "X[!]", "G", "!", "(", ")", "tt", "last"],
             "pltl": ["a", "b", "&", "S", "T", "Y", "H", "!", "(", ")", "tt", "start"], "ldl": ["a", "b", "<", ">", "[", "]", "tt", "?", "*", ";", "+", "&", "!", "(", ")", "end"]}[logic]
    n = {"pl": 4, "ltl": 4, "pltl": 4, "ldl": 4}[logic] + (not quick)
    for k in range(1, n + 1):
        for ws in itertools.product(words, repeat=k):
            if "a" in ws or "b" in ws:
                yield " ".join(ws)


def more(logic):
    yield from c21.NEAR.get(logic, ())
    yield from c21.TEXTS.get(logic, ())


# ---- proofs --------------------------------------------------------------------------------------------
def atoms_in_proof(items, m):
    return tuple(("L", it[1], ren(it[2], m)) + it[3:] if it[0] == "L" else ("B", it[1], it[2], atoms_in_proof(it[3], m)) for it in items)


PROOF_NAMES = ("reversed order", "same beginning", "prefixes", "case", "underscores", "almost keywords", "numbers")


def verdicts(items, logic, which, part):
    base = nd.accepted(items, logic)
    for kind, name in which:
        part.states += 1
        part.transitions += 1
        if kind == "rows":
            other = nd.relabel(items, lambda r: nd.LABELS[name](r) if isinstance(r, int) else r)
        elif logic == "pl":
            other = atoms_in_proof(items, {k: v for k, v in zip("abc", ATOMS[name])})
        else:
            other = nd.renamed(items, nd.NAMINGS[name])
        if nd.accepted(other, logic) is not base:
            raise Violation("a proof is %s; with %s (%s) it is not" % ("accepted" if base else "rejected", "its rows relabelled" if kind == "rows" else "its symbols renamed", name), proof=items, other=other)
    part.traces += 1


def proofs(logic, items, edit, part):
    every = [("rows", k) for k in nd.LABELS if k != "numbers"] + [("names", k) for k in (PROOF_NAMES if logic == "pl" else nd.NAMINGS)]
    verdicts(items, logic, every, part)
    if not edit:
        return
    pool = [S.A, S.Bq, ("false",), ("not", S.A), ("and", S.A, S.Bq)] if logic == "pl" else [c17.P(c17.x), c17.P(c17.y), c17.Q, ("forall", c17.x, c17.P(c17.x))]
    for k, e in enumerate(nd.edits_proper(items, pool, () if logic == "pl" else (c17.y, c17.c), (99,), logic=logic)):
        verdicts(e, logic, [every[(k + j) % len(every)] for j in range(0, len(every), 5)] if edit == "few" else every, part)


def rules(logic, pool, second, part):
    """Every rule applied to every pair of rows: all premises, conclusions and citations over a pool of close formulas."""
    every = [("rows", k) for k in ("same beginning", "number and text", "empty")] + [("names", k) for k in (ATOMS if logic == "pl" else nd.NAMINGS)]
    for f, g in itertools.product(pool, second):
        for h in pool:
            for r in ("copy", "and_i", "and_e1", "and_e2", "or_i1", "or_i2", "impl_e", "MT", "neg_e", "dneg_i", "dneg_e", "bot_e", "forall_e", "exists_i"):
                if r.startswith(("forall", "exists")) and logic == "pl":
                    continue
                for cites in ((1, 2), (2, 1)) if nd.arity(r) == 2 else ((1,),):
                    verdicts((nd.L(1, f, "premise"), nd.L(2, g, "premise"), nd.L(3, h, r, *cites)), logic, every, part)


def work(chunk, part):
    for kind, logic, payload, extra in chunk:
        if kind == "formulas":
            formulas(logic, payload, extra, part)
        elif kind == "pairs":
            pairs(logic, payload, extra, part)
        elif kind == "wide":
            wide_formulas(logic, payload, part)
        elif kind == "rules":
            rules(logic, payload, extra, part)
        elif kind == "fol":
            fol_formulas(payload, part)
        elif kind == "fol pairs":
            fol_pairs(payload, extra, part)
        elif kind == "texts":
            texts(logic, payload, extra, part)
        else:
            proofs(logic, payload, extra, part)


def run(check):
    q = check.quick
    todo = []
    names = list(ATOMS)
    plain = [n for n in names if not any('"' in x for x in ATOMS[n])]
    for logic in ("pl", "ltl", "pltl", "ldl"):
        lv = S.leaves(logic)
        if logic == "ldl":
            ts = list(S.upto("ldl", 5 if q else 6, lv)) + POP.population("ldl")
        else:
            ts = list(S.upto(logic, {"pl": 4, "ltl": 3, "pltl": 3}[logic] + (not q), lv)) + POP.population(logic)
            ts += [t for t in S.wide(S.POOL[logic], S.NARY[logic], 2 if q else 3)]
        ts = [t for t in dict.fromkeys(ts) if set(atom_names(t)) <= set(BASES) and set(atom_names(t)) and not T.iff_repeats(t)]
        check.note("formulas_" + logic, len(ts))
        todo += [("formulas", logic, c, names) for c in chunked(ts, 32)]
        wd = list(widely(logic, q))
        check.note("wide_formulas_" + logic, len(wd))
        todo += [("wide", logic, c, None) for c in chunked(wd, 12)]
        small = ts[:60] + ts[-140:] if q else ts[:200] + ts[-400:]
        todo += [("pairs", logic, small, [n]) for n in names]
        # quotes end a word and letters do not, so quoted and plain names are exchangeable only where blanks separate
        ss = list(dict.fromkeys(text_space(logic, q)))
        check.note("texts_" + logic, len(ss))
        todo += [("texts", logic, c, names[k % 3::3] if q else names) for k, c in enumerate(chunked(ss, 48))]
        todo += [("texts", logic, list(more(logic)), plain)]
    ft = list(dict.fromkeys(fol_terms(q)))
    check.note("formulas_fol", len(ft))
    todo += [("fol", "fol", c, None) for c in chunked(ft, 12)]
    some = [t for t in ft if not T.iff_repeats(t)]
    todo += [("fol pairs", "fol", some[::3] if q else some, n) for n in FOL_NAMES]
    triples = [(S.A, S.Bq, S.C), (("or", S.A, S.Bq), S.C, S.A), (("not", S.A), S.Bq, ("and", S.A, S.C))]
    pl = list(c16.corpus(triples))
    fol = [it for it in c17.corpus(True)]
    check.note("proofs", len(pl) + len(fol))
    todo += [("proofs", "pl", it, ("few" if k % (4 if q else 1) == 0 else None) if q else "all") for k, it in enumerate(pl)]
    todo += [("proofs", "fol", it, ("few" if k % (6 if q else 1) == 0 else None)) for k, it in enumerate(fol)]
    pool = [S.A, S.Bq, ("not", S.A), ("not", ("not", S.Bq)), ("and", S.A, S.Bq), ("or", S.Bq, S.A), nd.imp(S.A, S.Bq)] + ([("false",), ("and", S.Bq, S.A), ("not", S.Bq), ("or", S.A, S.C)] if not q else [])
    todo += [("rules", "pl", pool, [g]) for g in pool]
    x, y, Q = c17.x, c17.y, c17.Q
    pool = [c17.P(x), c17.P(y), ("forall", x, c17.P(x)), ("exists", y, c17.P(y)), ("forall", x, ("pred", "R", x, y)), ("pred", "R", y, y)] + ([("exists", x, ("pred", "R", x, y)), Q, ("and", Q, c17.P(x))] if not q else [])
    todo += [("rules", "fol", pool, [g]) for g in pool]
    import random

    random.Random(0).shuffle(todo)  # even load only
    check.run_parallel(work, chunked(todo, 160))


def atom_names(t):
    if isinstance(t, tuple):
        if t and t[0] == "atom":
            yield t[1]
        else:
            for u in t:
                yield from atom_names(u)
