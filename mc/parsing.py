"""Shared exploration of a parser against the reference grammar (checks C08-C11)."""
import itertools

from pylogics_modalities.parsers import parse_ldl, parse_ltl, parse_pl, parse_pltl

from mc import grammar as G
from mc import space as S
from mc import terms as T
from mc.core import Violation, chunked

PARSE = {"pl": parse_pl, "ltl": parse_ltl, "pltl": parse_pltl, "ldl": parse_ldl}

BASE = ["a", "b", "(", ")", "&", "|", "->", "<->", "!"]
VOCAB = {
    "pl": BASE + ["true", "false"],
    "ltl": BASE + ["true", "tt", "last", "U", "W", "R", "M", "X", "X[!]", "F", "G"],
    "pltl": BASE + ["true", "tt", "start", "S", "T", "Y", "Z", "O", "H"],
    "ldl": ["a", "true", "tt", "last", "end", "(", ")", "[", "]", "<", ">", "+", ";", "*", "?", "&", "|", "->", "<->", "!"],
}
# a smaller vocabulary, enumerated deeper
CORE = {
    "pl": ["a", "(", ")", "&", "|", "->", "!"],
    "ltl": ["a", "(", ")", "&", "U", "X", "!"],
    "pltl": ["a", "(", ")", "&", "S", "Y", "!"],
    "ldl": ["a", "tt", "(", ")", "<", ">", ";", "*", "?"],
}
CHARS = {
    "pl": "ab-_\"A1 ()&|<>!~",
    "ltl": "aUX[!] ()&\"t-",
    "pltl": "aSY ()&\"t-!",
    "ldl": "at<>[]()*?;+ &-!",
}


def judge(text, logic, part, what):
    ref = G.reference(text, logic)
    part.states += 1
    part.transitions += len(text)
    try:
        f = PARSE[logic](text)
    except Exception:
        f = None
        if ref is not None:
            raise Violation("%s: %r is a sentence but it is refused" % (what, text), text=text, logic=logic)
        return False
    if ref is None:
        raise Violation("%s: %r is not a sentence but it is accepted as %s" % (what, text, f), text=text, logic=logic)
    want = T.norm(G.abbreviations(ref, logic))
    got = T.read(f)
    if got != want:
        raise Violation("%s: %r parsed to %r instead of %r" % (what, text, got, want), text=text, logic=logic)
    if f.logic != T.LOGIC[logic]:
        raise Violation("%s: %r has logic %s" % (what, text, f.logic), text=text, logic=logic)
    part.traces += 1
    return True


# ---- the pieces of the space -------------------------------------------------------------------------
def sequences(logic, vocab, k, head, part):
    """All token sequences of length k starting with head."""
    for rest in itertools.product(vocab, repeat=k - len(head)):
        judge(" ".join(head + rest), logic, part, "token sequence")


def prec_terms(logic):
    """All combinations of two or three binary operators with prefix operators, in every bracketing."""
    atoms = {"pl": S.A, "ltl": S.A, "pltl": S.A, "ldl": S.DIA}
    x, y, z, w = (("atom", n) for n in "abcd")
    if logic == "ldl":
        x, y, z, w = S.DIA, S.BOX, ("true",), ("dia", ("prop", S.Bq), ("false",))
    ops = [t for t, _ in G.LEVELS[logic]]
    un = list(G.PREFIX.get(logic, {"!": "not"}).values())
    for o in ops:
        for p in ops:
            yield (o, x, (p, y, z))
            yield (o, (p, x, y), z)
            yield (o, x, (p, y, z), w)
            for u in un:
                yield (o, x, (u, (p, y, z)))
                yield (u, (o, x, (p, y, z)))
                yield (o, (u, x), (p, (u, y), z))
            for q in ops:
                yield (o, x, (p, y, (q, z, w)))
                yield (o, (p, x, y), (q, z, w))
                yield (o, (p, (q, x, y), z), w)
                yield (o, (p, x, (q, y, z)), w)
                yield (o, x, (p, (q, y, z), w))
    if logic == "ldl":
        p, q, r = ("prop", S.A), ("prop", ("or", S.A, S.Bq)), ("test", ("and", S.DIA, S.BOX))
        ro = ("seq", "union")
        for o in ro:
            for u in ro:
                for a in (p, q, r, ("star", p), ("star", r), ("star", ("seq", p, r))):
                    for b in (p, r, ("star", q)):
                        for c in (p, r):
                            for reg in ((o, a, (u, b, c)), (o, (u, a, b), c), ("star", (o, a, (u, b, c))), (o, a, ("star", (u, b, c)))):
                                for m in ("dia", "box"):
                                    yield (m, reg, ("true",))
                                    yield (m, reg, ("not", ("dia", p, ("and", ("true",), S.DIA))))


def wide_deep(logic, n):
    """n-ary chains and towers of prefix operators."""
    names = ["a%d" % i for i in range(n)]
    leaf = (lambda i: ("atom", names[i])) if logic != "ldl" else (lambda i: ("dia", ("prop", ("atom", names[i])), ("true",)))
    for tag, _ in G.LEVELS[logic]:
        for k in range(2, n + 1):
            yield (tag,) + tuple(leaf(i) for i in range(k))
            yield (tag,) + tuple(leaf(k - 1 - i) for i in range(k))
            yield (tag, leaf(0)) + tuple(("not", leaf(i)) for i in range(1, k))
    un = list(G.PREFIX.get(logic, {"!": "not"}).values())
    for u in un:
        t = leaf(0)
        for _ in range(n):
            t = (u, t)
            yield t
    for u, v in itertools.product(un, repeat=2):
        t = leaf(0)
        for i in range(n // 2):
            t = (u, (v, t))
        yield t
    if logic == "ldl":
        for tag in ("seq", "union"):
            for k in range(2, n + 1):
                for m in ("dia", "box"):
                    yield (m, (tag,) + tuple(("prop", ("atom", names[i])) for i in range(k)), ("true",))
                    yield (m, (tag,) + tuple(("star", ("prop", ("atom", names[i]))) for i in range(k)), ("false",))
                    yield (m, (tag,) + tuple(("test", leaf(i)) for i in range(k)), ("false",))
        for m in ("dia", "box"):
            t, r = ("true",), ("prop", S.A)
            for i in range(n):
                t = (m, ("prop", S.A), t)
                r = ("test", (m, r, ("true",))) if i % 2 else ("star", r)
                yield t
                yield (m, r, ("true",))
        for tag, _ in G.BOOL_LEVELS:
            for k in range(2, n + 1):
                yield ("dia", ("prop", (tag,) + tuple(("atom", names[i]) for i in range(k))), ("true",))


def written(t, logic):
    """The same sentence in several spellings."""
    a, b = G.toks_min(t, logic), G.toks_min(t, logic, G.SPELL2)
    yield G.spaced(a)
    yield G.compact(b)
    yield "( " + " ".join(b) + " )"
    if logic != "ldl":
        from mc import text
        yield text.full(t, logic)


def sentence(t, logic, part):
    for s in written(t, logic):
        ref = G.reference(s, logic)
        if ref is None or T.norm(ref) != T.norm(t):
            raise Violation("internal: printer and reference grammar disagree on %r" % s, text=s, got=ref, want=t)
        judge(s, logic, part, "sentence")


def edits(text, chars):
    """All texts one character away."""
    yield text
    for i in range(len(text)):
        yield text[:i] + text[i + 1:]
        for c in chars:
            if c != text[i]:
                yield text[:i] + c + text[i + 1:]
    for i in range(len(text) + 1):
        for c in chars:
            yield text[:i] + c + text[i:]


def token_edits(toks, vocab):
    for i in range(len(toks)):
        yield toks[:i] + toks[i + 1:]
        for v in vocab:
            yield toks[:i] + [v] + toks[i + 1:]
        if i:
            yield toks[: i - 1] + [toks[i], toks[i - 1]] + toks[i + 1:]
    for i in range(len(toks) + 1):
        for v in vocab:
            yield toks[:i] + [v] + toks[i:]


def gaps(toks, ws):
    for fill in itertools.product(ws, repeat=len(toks) - 1):
        yield toks[0] + "".join(w + t for w, t in zip(fill, toks[1:]))


SHORT = {
    "pl": ["a & b", "! a", "a -> b", "a <-> b", "( a ) || b", "a >> ! b", "true & a", "a-b -> b-c", '"a b" & c', "~ ~ a", "a | b & c"],
    "ltl": ["a U b", "X a", "X[!] a", "F ! a", "G ( a )", "a & X b", "X X[!] a", "a R b U c", "last & tt", 'F "a" U b', "a W F b", "! ( a M b )", "ff -> X a"],
    "pltl": ["a S b", "Y a", "Z a", "O ! a", "H ( a )", "a & Y b", "Y Z a", "a T b S c", "start & tt", 'O "a" S b', "! ( a T b )", "a -> O b"],
    "ldl": ["< a > tt", "[ a ] ff", "< a ; b > tt", "< a + b > tt", "< a * > tt", "< tt ? > tt", "! tt & ff", "< a > [ b ] tt",
            "< ( a ; b ) * > end", "< tt ? * > last", "< ! a > tt", "< a & b > tt", "< a -> b > ff"],
}


# texts into which every short string is spliced
CONTEXTS = {
    "pl": [("a", "b"), ("a ", " b"), ("", "a"), ("a", ""), ("!", "a"), ("(a)", "(b)"), ('"a"', '"b"'), ("a & (b", ")"), ('"', '"'), ('"a', 'b" & c')],
    "ltl": [("a", "b"), ("a ", " b"), ("", "a"), ("a", ""), ("X", " a"), ("a U", " b"), ("G", "(a)"), ('"a"', '"b"'), ("X[!", "] a"), ('X "', '"'), ('"a', 'b" U c')],
    "pltl": [("a", "b"), ("a ", " b"), ("", "a"), ("a", ""), ("Y", " a"), ("a S", " b"), ("H", "(a)"), ('"a"', '"b"'), ('Y "', '"'), ('"a', 'b" S c')],
    "ldl": [("<a", ">tt"), ("<a", "b>tt"), ("<a>", "tt"), ("", "tt"), ("tt", ""), ("tt ", " ff"), ("<tt?", ">tt"), ("[a*", "]ff"), ("<tt", ">tt"), ("<", "a>tt"), ("<(a)", "(b)>end"), ('<"', '">tt'), ('<"a', 'b";c>tt')],
}
PRINTABLE = "".join(map(chr, range(32, 127)))
ALIEN = "\t\n\r\x0b\x0c\x00\x1c\x7f\xa0\xe9\xb5\xac\u03bb\u0430\u0661\u2003\u2192\u2227\u2228\u22a4\u25a1\u25c7\uff41\ufeff\u200b\u2028\x85\x1f\x80\xad\U0001d41a"
PUNCT = "".join(c for c in PRINTABLE if not c.isalnum())
WORDS = ["and", "or", "not", "xor", "iff", "implies", "equiv", "until", "release", "next", "always", "eventually", "globally", "finally", "since", "once", "before", "True", "False", "TRUE",
         "FALSE", "tt", "ff", "true", "false", "last", "start", "Tt", "TT", "FF", "Last", "Start", "top", "bot", "N", "WX", "X[]", "X[!]", "X[!]X", "FG", "GF", "XX", "VV", "V", "U", "R", "W", "M",
         "S", "T", "H", "O", "Y", "Z", "E", "A", "EX", "AX", "P", "Q", "=>", "<=>", "===", "==", "<->", "<-->", "-->", "->", ">>", ">>>", "&&&", "|||", "/\\", "\\/", "//", "/*", "#", "# a", "--", "%", "**",
         "??", "++", ";;", "{", "}", "{a}", "()", "[]", "<>", "[*]", "<*>", "[+]", ".", "..", ":", "::", "a.b", "a:b", "a'", "'a'", "0", "1", "01", "1a", "a1", "_", "__", "-", "a-", "-a", "a--b", "a-b",
         "A", "aA", "Aa", "a_b", "true1", "1true", "_true", "true_", "true-", "-true", "true-a", "tta", "att", "\"", "\"\"", "\"a", "a\"", "\" \"", "\"\\\"\"", "\"true\"", "\"&\"", "\\", "`", "~", "~~", "!!", "!~"]


def splices(logic, ctx, kind):
    """Every string of the kind inside the context."""
    a, b = ctx
    skip = unspecified(logic)
    if kind == "words":
        fill = WORDS + [x + y for x in WORDS for y in WORDS] + [x + " " + y for x in WORDS for y in WORDS]
    elif kind == "punct":
        fill = ("".join(c) for c in itertools.product(PUNCT, repeat=3))
    else:
        one = PRINTABLE + ALIEN
        fill = itertools.chain([""], one, (kind + c for c in one))
    for s in fill:
        s = a + s + b
        if not skip or skip not in s:
            yield s


def long_texts(logic, quick):
    """Long chains, deep brackets and prefix towers, long symbols and long white space, each with every one-place mistake."""
    lens = (10, 20, 37, 70) if quick else (9, 10, 12, 16, 17, 20, 24, 31, 32, 33, 36, 48, 64, 65, 70, 100, 130)
    atom = (lambda i: "p%d" % i) if logic != "ldl" else (lambda i: "<p%d>tt" % i)
    one = atom(0)
    infix = [op for _, op in G.LEVELS[logic]] + ["&&", "||", ">>"]
    prefix = [k for k in G.PREFIX.get(logic, {"!": 0})] + (["<a>", "[b*]"] if logic == "ldl" else [])
    regex = [";", "+"] if logic == "ldl" else []
    for n in (141, 320) if quick else (141, 142, 260, 320, 321, 1100):  # nobody writes these by hand
        for op in infix + regex:
            ops = [atom(i) if op not in regex else "p%d" % i for i in range(n)]
            for x in ops[-1], ops[-1] + " " + ops[0], "":
                yield ("%s" if op not in regex else "<%s>tt") % (" %s " % op).join(ops[:-1] + [x])
            if op in infix and not infix.index(op) % 3:
                yield (" %s " % op).join(ops[:-1]) + " " + infix[1] + " " + ops[-1]
        for p in prefix:
            for k in (n, n + 1):
                yield (p + " ") * k + one
            yield (p + " ") * n
            if n < 300:
                yield (p + "(") * n + one + ")" * n
        for k in (n, n + 1):
            yield "(" * n + one + ")" * k
        for ws in " \n":
            yield ws * n + one + ws * n + infix[0] + ws * n + one + ws * n
        for c in "z9_":
            for x in ("n" + c * n, '"n%s"' % (c * n), '"n%s' % (c * n)):
                yield x if logic != "ldl" else "<%s>tt" % x
    for n in lens:
        where = range(n) if n <= 20 or not quick else (0, 1, n // 2, n - 2, n - 1)
        for op in infix + regex:
            at, wrap = (atom, "%s") if op not in regex else ((lambda i: "p%d" % i), "<%s>tt")
            ops = [at(i) for i in range(n)]
            yield wrap % (" %s " % op).join(ops)
            for k in where:
                for x in ("", "(%s)" % ops[k], "! %s" % ops[k], "(%s" % ops[k], "%s)" % ops[k], "%s %s" % (ops[k], op), "%s %s" % (ops[k], ops[k])):
                    yield wrap % (" %s " % op).join(ops[:k] + [x] + ops[k + 1:])
                for other in infix[:3] if op in infix else [r for r in regex if r != op]:
                    if 0 < k:
                        yield wrap % ((" %s " % op).join(ops[:k]) + " %s " % other + (" %s " % op).join(ops[k:]))
        for p in prefix:
            yield (p + " ") * n + one
            yield (p + "(") * n + one + ")" * n
            for k in where:
                for q in prefix[:3] + ["", "(", ")", one]:
                    yield (p + " ") * k + q + " " + (p + " ") * (n - k - 1) + one
        yield "(" * n + one + ")" * n
        yield "(" * n + one + ")" * (n - 1)
        yield "(" * (n - 1) + one + ")" * n
        for k in where:
            yield "(" * n + one + ")" * k + " " + infix[0] + " " + one + ")" * (n - k)
            yield ("(%s " % infix[-1]).join([one] * k + [one]) + ")" * k
            yield ("( " + one + " " + infix[-1]) * k + one + ")" * k
        for ws in " \n\t\r\x0b\x0c\xa0":
            yield ws * n + one + (" " + infix[0] + ws * n + one) * 2 + ws * n
            yield one + infix[0] + ws * n
        if logic == "ldl":
            for tail in ("*", "?", " *", "* *"):
                yield "<" + "(" * n + "a" + (")" + tail) * n + ">tt"
            yield "<" * n + "a" + ">tt?" * (n - 1) + ">tt"
            yield "<a;" * n + "b" + ">tt" * n
            yield "[(" * n + "a" + ")*]ff?" * n + "]tt"
            yield "<" + "(" * n + "tt" + "?)" * n + "*>ff"
        for c in "zA9_-":
            name = "n" + c * n
            for x in (name, name + "z", '"%s"' % name, '"%s' % name, name + "-", name + ".", name + '"'):
                x = x if logic != "ldl" else "<%s>tt" % x
                yield x
                yield one + " " + infix[0] + " " + x
                yield x + " " + infix[0] + " " + one


def pieces(logic, quick):
    """The chunks of work: (kind, payload)."""
    out = []
    longs = list(dict.fromkeys(long_texts(logic, quick)))
    out += [("long", c) for c in chunked(longs, 32)]
    full = {"pl": (5, 6), "ltl": (4, 5), "pltl": (4, 5), "ldl": (4, 5)}[logic][0 if quick else 1]
    core = {"pl": (6, 8), "ltl": (6, 8), "pltl": (6, 8), "ldl": (5, 7)}[logic][0 if quick else 1]
    for voc, top in ((VOCAB[logic], full), (CORE[logic], core)):
        out.append(("seq", (voc, 0, ())))
        for k in range(1, top + 1):
            for head in itertools.product(voc, repeat=min(2, k)):
                out.append(("seq", (voc, k, head)))
    size, lv = {"pl": (4, S.leaves("pl")), "ltl": (3, S.leaves("ltl")), "pltl": (3, S.leaves("pltl")), "ldl": (5, S.leaves("ldl"))}[logic]
    if not quick:
        size += 1
    items = list(S.upto(logic, size, lv))
    if logic == "ldl":
        items = [t for t in items if True]
    items += list(dict.fromkeys(prec_terms(logic))) + list(wide_deep(logic, 8))
    items = list(dict.fromkeys(items))
    out += [("term", c) for c in chunked(items, 64)]
    ws = ("", " ", "\n") if quick else ("", " ", "\t", "\n", "  ")
    for s in SHORT[logic]:
        toks = s.split(" ")
        if "a" in toks and '"a' in toks:
            toks = s.replace('"a b"', '"a_b"').split(" ")
        out.append(("gaps", (toks, ws)))
        out.append(("edit", s))
        out.append(("tedit", toks))
    for i, ctx in enumerate(CONTEXTS[logic]):
        out += [("splice", (ctx, c)) for c in PRINTABLE + ALIEN]
        if i < (5 if quick else 99):
            out.append(("splice", (ctx, "words")))
        if i < (3 if quick else 99):
            out.append(("splice", (ctx, "punct")))
    extra = prec_terms(logic)
    some = list(dict.fromkeys(extra))
    step = max(1, len(some) // (40 if quick else 400))
    out += [("tedit", G.toks_min(t, logic)) for t in some[::step]]
    out += [("edit", G.compact(G.toks_min(t, logic))) for t in some[::step * 4]]
    return out


def worker(logic):
    def work(chunk, part):
        for kind, payload in chunk:
            if kind == "seq":
                voc, k, head = payload
                sequences(logic, voc, k, head, part) if k else judge("", logic, part, "empty text")
            elif kind == "term":
                for t in payload:
                    sentence(t, logic, part)
            elif kind == "gaps":
                for s in gaps(*payload):
                    judge(s, logic, part, "whitespace")
            elif kind == "long":
                for s in payload:
                    judge(s, logic, part, "long text")
            elif kind == "splice":
                for s in splices(logic, *payload):
                    judge(s, logic, part, "spliced text")
            elif kind == "edit":
                for s in edits(payload, CHARS[logic]):
                    judge(s, logic, part, "edited text")
            else:
                for toks in token_edits(payload, VOCAB[logic]):
                    judge(" ".join(toks), logic, part, "edited sentence")
        part.sample([kind, payload])
    return work


def unspecified(logic):
    """Inputs the documentation leaves open."""
    return {"ltl": "end", "pltl": "first"}.get(logic)


def run(check, logic):
    ps = pieces(logic, check.quick)
    check.note("pieces", len(ps))
    for kind in ("seq", "term", "gaps", "edit", "tedit", "splice", "long"):
        check.note("pieces_" + kind, sum(1 for k, _ in ps if k == kind))
    for bad in (None, 1, ["a"], object()):
        try:
            PARSE[logic](bad)
        except Exception:
            continue
        check.violation("a non-string %r is accepted" % (bad,))
    check.run_parallel(worker(logic), chunked(ps, 96))
