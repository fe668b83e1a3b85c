"""C12: symbols and keywords, on every string over critical alphabets up to a length."""
import itertools
import re

from pylogics_modalities.helpers.misc import RegexConstrainedString
from pylogics_modalities.syntax.base import AtomName

from mc import grammar as G
from mc import terms as T
from mc.core import Violation, chunked, outcome
from mc.parsing import PARSE, judge

ASSUMPTIONS = ["'end' in LTL and 'first' in PLTL are left open by the documentation and not judged"]
NAME = re.compile(r'[a-z_]([a-zA-Z0-9_-]*[a-zA-Z0-9_])?|"[ !#-~]+"')
OPEN = {"ltl": "end", "pltl": "first", "pl": None, "ldl": None}
CLS = dict(T.ATOM_CLS)

# the places where a symbol can stand, with the path to the atom in the resulting term
PLACES = {
    "pl": ["%s", "(%s)", "! %s", "%s & x", "x & %s", "x->%s", "%s->x", "(x | %s)<->x"],
    "ltl": ["%s", "(%s)", "! %s", "%s & x", "x & %s", "x U %s", "F(%s)", "X[!] %s", "G %s"],
    "pltl": ["%s", "(%s)", "! %s", "%s & x", "x & %s", "x S %s", "O(%s)", "Z %s", "H %s"],
    "ldl": ["<%s>tt", "[%s]tt", "<(%s)>tt", "<! %s>tt", "<%s & x>tt", "<x & %s>tt", "<x;%s>tt", "<%s*>tt", "<%s;x>tt", "<(x+%s)*>ff",
            "<x -> %s>tt", "<<%s>tt?>tt", "%s"],
}
WORDS = ("true", "false", "tt", "ff", "last", "end", "start", "first")
LETTERS = tuple("URGFXWMSTHOYZ")


def atoms_in(t):
    return [s for s in _all(t) if s[0] == "atom"]


def _all(t):
    out = [t]
    for x in t[1:]:
        if isinstance(x, tuple):
            out += _all(x)
    return out


def name_text(text, logic, part):
    if OPEN[logic] and re.search(r"(?<![a-zA-Z0-9_-])%s(?![a-zA-Z0-9_-])" % OPEN[logic], text):
        return
    judge(text, logic, part, "symbol")


def constructors(name, part):
    """The atom constructors accept exactly the names matching the symbol syntax, and keep them."""
    legal = NAME.fullmatch(name) is not None
    for l, cls in CLS.items():
        r = outcome(lambda: cls(name))
        part.states += 1
        part.transitions += 1
        if (r[0] == "ok") != legal:
            raise Violation("%s atom named %r is %s" % (l, name, "accepted" if r[0] == "ok" else "refused"), name=name, logic=l)
        if legal:
            f = r[1]
            if f.name != name or str(f) != name or f.logic != T.LOGIC[l] or type(f) is not cls:
                raise Violation("%s atom %r is called %r" % (l, name, f.name), name=name, logic=l)
            part.traces += 1
        elif not isinstance(r[1], ValueError):
            raise Violation("%s atom named %r is refused with %r" % (l, name, r[1]), name=name, logic=l)
    r = outcome(lambda: AtomName(name))
    if (r[0] == "ok") != legal or (legal and (r[1] != name or not isinstance(r[1], RegexConstrainedString))):
        raise Violation("AtomName(%r) gives %r" % (name, r), name=name)


def work(chunk, part):
    for kind, payload in chunk:
        if kind == "strings":
            alphabet, n, head = payload
            for rest in itertools.product(alphabet, repeat=n - len(head)):
                s = "".join(head + rest)
                constructors(s, part)
                for l in PARSE:
                    name_text(s, l, part)
                name_text("<%s>tt" % s, "ldl", part)
        else:
            for s in payload:
                constructors(s, part)
                for l in PARSE:
                    for place in PLACES[l]:
                        name_text(place % s, l, part)
    part.sample([kind, payload if kind == "strings" else payload[:5]])


def names(quick):
    """Names around the keywords, the operator letters and the quoting rules."""
    out = list(WORDS) + ["a", "_", "ab", "a1", "a_", "a-b", "a--b", "a-", "-a", "1a", "A", "aB", "Aa", "", " ", "a.b", "a b", "é", "aé", "a\n", "\na"]
    aff = [c for c in "ax1_-A\"( &!"]
    for w in WORDS + LETTERS:
        for c in aff:
            out += [w + c, c + w, w + c + "a", "a" + c + w, "_" + w + c, w + w, w + c + w]
        for c, d in itertools.product(aff, repeat=2):
            out += [w + c + d, c + d + w, c + w + d]
        out += [w.upper(), w.capitalize(), w[:-1], w[:-1] + w[-1].upper(), '"%s"' % w, '"%s' % w, '%s"' % w, '" %s"' % w, w + "\t", "\n" + w]
    chars = [chr(i) for i in range(0, 128)] + ["\x80", "\xa0", "é", "ß", "²", "١", "ａ", "—", "\u2028", "𝐚"]
    for c in chars:
        out += ['"%s"' % c, "a" + c, c + "a", c, "a%sa" % c, '"a%sa"' % c, '"%s%s"' % (c, c), "a" + c + "1", "_" + c]
    for c, d in itertools.product(" a\"-A1_\\'", repeat=2):
        out += ['"%s%s"' % (c, d), '"a%s%sb"' % (c, d), '"a"%s"%s"' % (c, d), 'a"%s%s"' % (c, d), '"%s"%s' % (c, d)]
    if not quick:
        for c, d in itertools.product(chars, repeat=2):
            out += ["a%s%s" % (c, d), c + d, '"%s%s"' % (c, d), c + "a" + d]
        for w in WORDS + LETTERS:
            for c, d, e in itertools.product(aff, repeat=3):
                out += [w + c + d + e, c + w + d + e, c + d + w + e]
    return list(dict.fromkeys(out))


def long_names(quick):
    """Long symbols: legal ones and ones with a single illegal character, in every position."""
    out = []
    for n in (9, 17, 33, 66, 320) if quick else (5, 7, 8, 9, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 320, 1100, 5000):
        base = ("n" + "abcdefghij0123456789KLMNOP_-" * (n // 28 + 1))[:n - 1] + "z"
        for k in range(n) if n <= 70 else (0, 1, 2, n // 2, n - 2, n - 1):
            for c in "A-1_. \"\xe9":
                x = base[:k] + c + base[k + 1:]
                out += [x, '"%s"' % x] if n <= 40 or k % 8 == 1 else [x]
        out += [base, '"%s"' % base, '"' + base, base + '"', "true" * n, "true" + "-" * n + "a", "true" + "-" * n, "-" * n, "_" * n, "1" * n, '"' + " " * n + '"', "last" + "1" * n]
    return list(dict.fromkeys(out))


def run(check):
    todo = []
    n = check.pick(5, 6)
    for alphabet, top in (("aA1_-\" ", n), ("tfF (-", n), ("aX[!]\" (", n - 1)):
        for k in range(0, top + 1):
            for head in itertools.product(alphabet, repeat=min(1, k)):
                todo.append(("strings", (alphabet, k, head)))
    ns = names(check.quick)
    todo += [("names", c) for c in chunked(ns + long_names(check.quick), 96)]
    check.note("critical_names", len(ns))
    todo.reverse()
    check.run_parallel(work, [[t] for t in todo])
    # different names, different atoms
    legal = [s for s in ns if NAME.fullmatch(s)][: check.pick(400, 1500)]
    for l, cls in CLS.items():
        objs = [cls(s) for s in legal]
        for i, f in enumerate(objs):
            for j, g in enumerate(objs):
                if (f == g) != (i == j):
                    check.violation("%s atoms %r and %r compare %s" % (l, legal[i], legal[j], f == g), names=[legal[i], legal[j]])
                    return
        check.states += len(objs) ** 2
    for bad in (None, 5, b"a", 1.5, ["a"], ("a",), True):
        for l, cls in CLS.items():
            r = outcome(lambda: cls(bad))
            if r[0] == "ok":
                check.violation("%s atom named %r is accepted" % (l, bad), name=repr(bad))
