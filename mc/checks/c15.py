"""C15: last, end and start evaluated on every trace and position up to a length."""
from pylogics_modalities.parsers import parse_ldl, parse_ltl, parse_pltl
from pylogics_modalities.syntax.base import reset_cache

from mc import grammar as G
from mc import terms as T
from mc.core import Violation, chunked

ASSUMPTIONS = ["standard semantics of LTLf, PLTLf and LDLf on non-empty finite traces"]
EV = {"ltl": T.ev_ltl, "pltl": T.ev_pltl, "ldl": T.ev_ldl}
PARSE = {"ltl": parse_ltl, "pltl": parse_pltl, "ldl": parse_ldl}
API = {"ltl": {"last": T.L.Last}, "pltl": {"start": T.Y.Start}, "ldl": {"last": T.D.Last, "end": T.D.End}}

TEXTS = {
    "ltl": ["last", "!last", "last & a", "a -> last", "X last", "X[!] last", "F last", "G last", "F(last & a)", "G(last -> a)", "a U last",
            "last R a", "last W a", "a M last", "X[!] X[!] last", "!X last", "last <-> a", "last | X[!](last)", "G(!last)", "F(last & X tt)",
            "F(last & X[!] tt)", "!(last) U (last & !a)", "last & last", "last -> last", "(last)"],
    "pltl": ["start", "!start", "start & a", "a -> start", "Y start", "Z start", "O start", "H start", "O(start & a)", "H(start -> a)",
             "a S start", "start T a", "Y Y start", "!Y start", "start <-> a", "start | Y(start)", "H(!start)", "O(start & Y tt)",
             "O(start & Z ff)", "!(start) S (start & !a)", "start & start", "(start)"],
    "ldl": ["last", "end", "!last", "!end", "last & end", "last | end", "<a>last", "<a>end", "[a]end", "[true]last", "<true>end", "<true*>last",
            "<true*>end", "[true*]last", "[true*](end | <true>tt)", "<a;true>end", "<last?>tt", "<end?>tt", "<true;end?>tt", "<(true;last?)*>last",
            "<last?;a>end", "[last?]<a>tt", "<true*;end?>tt", "last -> <a>tt", "last <-> <a>end", "!<true>!end", "<(a;a)*>last",
            "<(!last?;true)*>last", "[a]last & <true*>(end)"],
}


def reference_terms(logic):
    out = []
    for s in TEXTS[logic]:
        if logic == "ldl":
            (t,) = {x for x in G.parse_ldl_tokens(G.lex(s, logic))}
        else:
            t = G.parse_tokens(G.lex(s, logic), logic)
        out.append((s, t))
    return out


def positions(logic, tr):
    return range(len(tr) + (1 if logic == "ldl" else 0))


def compare(logic, what, got, want, trs, part):
    for tr in trs:
        for i in positions(logic, tr):
            part.states += 1
            part.transitions += 1
            g, w = EV[logic](got, tr, i), EV[logic](want, tr, i)
            if g != w:
                raise Violation("%s (%s): %s is %s at position %d of %s, but should be %s"
                                % (what, logic, got, g, i, [sorted(x) for x in tr], w), formula=what, position=i, trace=tr)
    part.traces += 1


def work(chunk, part):
    for kind, logic, name, n in chunk:
        trs = T.traces(("a",), n) + T.traces(("a", "b"), min(n, 3))
        if kind == "api":
            for f in (API[logic][name](), API[logic][name](), PARSE[logic](name)):
                compare(logic, name, T.read(f), (name,), trs, part)
                if f.logic != T.LOGIC[logic]:
                    raise Violation("%s reports %s" % (name, f.logic))
            reset_cache()
            f, g = API[logic][name](), PARSE[logic](" ( %s ) " % name)
            if not (f == g and g == f) or hash(f) != hash(g) or T.read(f) != T.read(g):
                raise Violation("keyword and constructor of %s differ: %r, %r" % (name, T.read(g), T.read(f)), formula=name)
        else:
            for s, t in reference_terms(logic):
                if s == name:
                    compare(logic, s, T.read(PARSE[logic](s)), t, trs, part)
    part.sample([kind, logic, name, n])


def run(check):
    n = check.pick(7, 11)
    todo = [("api", l, k, n) for l, d in API.items() for k in d]
    todo += [("text", l, s, check.pick(5, 7)) for l, ss in TEXTS.items() for s in ss]
    check.note("max_trace_length", n)
    check.run_parallel(work, [[t] for t in todo])
