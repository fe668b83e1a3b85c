"""Reference lexer and parser of the four concrete syntaxes, written from docs/grammars.md.

Independent of Lark and of the library: text -> tokens -> term (or None when the text is no sentence).
"""
import re
from functools import lru_cache

from mc import terms as T

SYMBOL = re.compile(r'[a-z_](?:[a-zA-Z0-9_-]*[a-zA-Z0-9_])?|"[ !#-~]+"')
WS = re.compile(r"\s+")

KEYWORDS = {
    "pl": {"true": ("true",), "false": ("false",)},
    "ltl": {"true": ("ptrue",), "false": ("pfalse",), "tt": ("true",), "ff": ("false",), "last": ("last",)},
    "pltl": {"true": ("ptrue",), "false": ("pfalse",), "tt": ("true",), "ff": ("false",), "start": ("start",)},
    "ldl": {"true": ("true",), "false": ("false",), "tt": ("true",), "ff": ("false",), "last": ("last",), "end": ("end",)},
}
COMMON = {"<->": "<->", "->": "->", ">>": "->", "||": "|", "|": "|", "&&": "&", "&": "&", "!": "!", "~": "!",
          "(": "(", ")": ")"}
OPERATORS = {
    "pl": COMMON, "ltl": COMMON, "pltl": COMMON,
    "ldl": dict(COMMON, **{x: x for x in ("[", "]", "<", ">", "+", ";", "?", "*")}),
}
LETTERS = {"pl": (), "ltl": ("X[!]", "U", "R", "G", "F", "X", "W", "M"), "pltl": ("S", "T", "H", "O", "Y", "Z"), "ldl": ()}
BOOL_LEVELS = (("iff", "<->"), ("imp", "->"), ("or", "|"), ("and", "&"))
LEVELS = {
    "pl": BOOL_LEVELS,
    "ltl": BOOL_LEVELS + (("W", "W"), ("U", "U"), ("R", "R"), ("M", "M")),
    "pltl": BOOL_LEVELS + (("S", "S"), ("T", "T")),
    "ldl": BOOL_LEVELS,
}
PREFIX = {
    "pl": {"!": "not"},
    "ltl": {"!": "not", "X": "X", "X[!]": "X!", "F": "F", "G": "G"},
    "pltl": {"!": "not", "Y": "Y", "Z": "Z", "O": "O", "H": "H"},
}


class NoSentence(Exception):
    pass


def lex(text, logic):
    """Tokens: ('sym', name), ('kw', word), ('op', canonical spelling)."""
    out, i = [], 0
    ops = sorted(OPERATORS[logic], key=len, reverse=True)
    while i < len(text):
        m = WS.match(text, i)
        if m:
            i = m.end()
            continue
        m = SYMBOL.match(text, i)
        if m:
            w = m.group()
            out.append(("kw", w) if w in KEYWORDS[logic] else ("sym", w))
            i = m.end()
            continue
        for o in LETTERS[logic]:
            if text.startswith(o, i) and text[i + len(o): i + len(o) + 1] in (" ", '"', "("):
                out.append(("op", o))
                i += len(o)
                break
        else:
            for o in ops:
                if text.startswith(o, i):
                    out.append(("op", OPERATORS[logic][o]))
                    i += len(o)
                    break
            else:
                raise NoSentence(i)
    return tuple(out)


def parse_tokens(toks, logic):
    """Deterministic recursive descent for pl, ltl, pltl."""
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else None

    def level(k):
        nonlocal pos
        if k == len(LEVELS[logic]):
            return unary()
        tag, op = LEVELS[logic][k]
        args = [level(k + 1)]
        while peek() == ("op", op):
            pos += 1
            args.append(level(k + 1))
        return args[0] if len(args) == 1 else (tag,) + tuple(args)

    def unary():
        nonlocal pos
        t = peek()
        if t is None:
            raise NoSentence(pos)
        pos += 1
        if t[0] == "op" and t[1] in PREFIX[logic]:
            return (PREFIX[logic][t[1]], unary())
        if t == ("op", "("):
            r = level(0)
            if peek() != ("op", ")"):
                raise NoSentence(pos)
            pos += 1
            return r
        if t[0] == "sym":
            return ("atom", t[1])
        if t[0] == "kw":
            return KEYWORDS[logic][t[1]]
        raise NoSentence(pos)

    r = level(0)
    if pos != len(toks):
        raise NoSentence(pos)
    return r


def parse_ldl_tokens(toks):
    """All parses of an LDL token sequence (the grammar is ambiguous in brackets; the trees must agree)."""
    n = len(toks)
    op = lambda i, o: i < n and toks[i] == ("op", o)

    def chain(tag, o, sub, i):
        """(end, tree) for  sub (o sub)*."""
        done, todo, seen = set(), {(j, (t,)) for j, t in sub(i)}, set()
        while todo:
            j, args = todo.pop()
            if (j, args) in seen:
                continue
            seen.add((j, args))
            done.add((j, args[0] if len(args) == 1 else (tag,) + args))
            if op(j, o):
                todo |= {(k, args + (t,)) for k, t in sub(j + 1)}
        return frozenset(done)

    def leveled(levels, base):
        fn = base
        for tag, o in reversed(levels):
            fn = (lambda tag, o, sub: lru_cache(None)(lambda i: chain(tag, o, sub, i)))(tag, o, fn)
        return fn

    @lru_cache(None)
    def prop_unary(i):
        if i >= n:
            return frozenset()
        t = toks[i]
        if t == ("op", "!"):
            return frozenset((j, ("not", x)) for j, x in prop_unary(i + 1))
        if t == ("op", "("):
            return frozenset((j + 1, x) for j, x in prop(i + 1) if op(j, ")"))
        if t[0] == "sym":
            return frozenset([(i + 1, ("atom", t[1]))])
        if t in (("kw", "true"), ("kw", "false")):
            return frozenset([(i + 1, (t[1],))])
        return frozenset()

    prop = leveled(BOOL_LEVELS, prop_unary)

    @lru_cache(None)
    def ldl_unary(i):
        if i >= n:
            return frozenset()
        t = toks[i]
        if t == ("op", "!"):
            return frozenset((j, ("not", x)) for j, x in ldl_unary(i + 1))
        if t == ("op", "("):
            return frozenset((j + 1, x) for j, x in ldl(i + 1) if op(j, ")"))
        for o, c, tag in (("<", ">", "dia"), ("[", "]", "box")):
            if t == ("op", o):
                return frozenset((k, (tag, r, x)) for j, r in regex(i + 1) if op(j, c) for k, x in ldl_unary(j + 1))
        if t[0] == "kw" and t[1] in ("tt", "ff", "last", "end"):
            return frozenset([(i + 1, KEYWORDS["ldl"][t[1]])])
        return frozenset()

    ldl = leveled(BOOL_LEVELS, ldl_unary)

    @lru_cache(None)
    def re_test(i):
        out = {(j + 1, ("test", x)) for j, x in ldl(i) if op(j, "?")}
        out |= {(j, ("prop", x)) for j, x in prop(i)}
        if op(i, "("):
            out |= {(j + 1, x) for j, x in regex(i + 1) if op(j, ")")}
        return frozenset(out)

    @lru_cache(None)
    def re_star(i):
        out = set()
        for j, x in re_test(i):
            out.add((j, x))
            if op(j, "*"):
                out.add((j + 1, ("star", x)))
        return frozenset(out)

    regex = leveled((("union", "+"), ("seq", ";")), re_star)
    return {x for j, x in ldl(0) if j == n}


def abbreviations(t, logic):
    """Replace last/start/end by what the API constructor denotes."""
    if t in (("last",), ("start",), ("end",)):
        if logic == "ltl":
            return T.read(T.L.Last())
        if logic == "pltl":
            return T.read(T.Y.Start())
        return T.read(T.D.Last() if t == ("last",) else T.D.End())
    return (t[0],) + tuple(abbreviations(x, logic) if isinstance(x, tuple) else x for x in t[1:])


def reference(text, logic):
    """The raw term of a sentence, or None if the text is not in the language."""
    try:
        toks = lex(text, logic)
        if logic != "ldl":
            return parse_tokens(toks, logic)
    except NoSentence:
        return None
    trees = parse_ldl_tokens(toks)
    if not trees:
        return None
    if len({T.norm(t) for t in trees}) > 1:
        raise ValueError("ambiguous sentence %r: %r" % (text, trees))
    return trees.pop()


# ---- printers ----------------------------------------------------------------------------------------
SPELL1 = {"iff": "<->", "imp": "->", "or": "|", "and": "&", "not": "!"}
SPELL2 = {"iff": "<->", "imp": ">>", "or": "||", "and": "&&", "not": "~"}
CONST = {
    "pl": {"true": "true", "false": "false"},
    "ltl": {"true": "tt", "false": "ff", "ptrue": "true", "pfalse": "false"},
    "pltl": {"true": "tt", "false": "ff", "ptrue": "true", "pfalse": "false"},
    "ldl": {"true": "tt", "false": "ff"},
}


def toks_min(t, logic, spell=SPELL1):
    """Token list with the fewest brackets."""
    levels = {tag: k for k, (tag, _) in enumerate(LEVELS[logic])}

    def go(u, k):
        tag = u[0]
        if tag == "atom":
            return [u[1]]
        if tag in CONST[logic]:
            return [CONST[logic][tag]]
        if tag in levels:
            j = levels[tag]
            s = spell.get(tag, tag)
            out = go(u[1], j + 1)
            for x in u[2:]:
                out += [s] + go(x, j + 1)
            return out if j >= k else ["("] + out + [")"]
        if tag in ("dia", "box"):
            o, c = ("<", ">") if tag == "dia" else ("[", "]")
            return [o] + rx(u[1], 0) + [c] + go(u[2], 99)
        name = {"X!": "X[!]", "not": spell["not"]}.get(tag, tag)
        return [name] + go(u[1], 99)

    def rx(r, k):
        # 0 union, 1 seq, 2 star, 3 test/prop
        tag = r[0]
        if tag == "prop":
            return toks_min(r[1], "pl", spell)
        if tag in ("union", "seq"):
            j = 0 if tag == "union" else 1
            out = rx(r[1], j + 1)
            for x in r[2:]:
                out += ["+" if tag == "union" else ";"] + rx(x, j + 1)
            return out if j >= k else ["("] + out + [")"]
        if tag == "star":
            return (rx(r[1], 3) + ["*"]) if k <= 2 else ["("] + rx(r[1], 3) + ["*", ")"]
        return go(r[1], 0) + ["?"]

    return go(t, 0)


def spaced(toks):
    return " ".join(toks)


def compact(toks):
    """As little whitespace as the lexical rules allow."""
    out = ""
    for i, t in enumerate(toks):
        if out:
            prev = toks[i - 1]
            word = lambda s: s[0].isalnum() or s[0] in '_"'
            letter_op = prev[0] in "UWRMXFGSTHOYZ" and prev[0].isupper()
            if letter_op:
                if t[0] not in '("':
                    out += " "
            elif word(t) and word(prev):
                out += " "
        out += t
    return out
