"""C19: the proof checker is total, scoped, prefix-closed, monotone and repeatable."""
import itertools

from mc import nd
from mc import space as S
from mc import terms as T
from mc.checks import c17
from mc.core import Violation, chunked
from mc.nd import CK, FALSE, TRUE, V, Bx, L, ND

ASSUMPTIONS = ["row labels are distinct unless stated", "well-shaped: rows, formulas and justification lists in the documented nesting"]
A, B, C = S.A, S.Bq, S.C
N = nd.neg
x, y, z, c = V["x"], V["y"], V["z"], CK["c"]
P, R, Q, f = c17.P, c17.R, c17.Q, c17.f
POOL = [A, N(A), FALSE, TRUE, ("and", A, B), ("or", A, B), nd.imp(A, B), ("imp", A, B), ("iff", A, B), N(N(A)), ("and", A, B, C)]
FPOOL = [P(x), Q, FALSE, TRUE, ("forall", x, P(x)), ("exists", x, P(x)), ("forall", x, R(x, y)), ("and", P(x), Q), nd.imp(P(x), Q), N(P(x)),
         ("iff", P(x), Q), ("exists", x, ("iff", P(x), P(y))), ("forall", x, ("imp", P(x), P(y))), ("exists", x, Q), ("exists", x, R(x, f(x)))]
OTHER = [("ltl", ("X", A)), ("ltl", ("U", A, B)), ("pltl", ("Y", A)), ("ldl", S.DIA), ("ldl", ("true",)), ("fol", P(x)), ("pl", A), ("ltl", A), ("ltl", FALSE)]
JUNK = ["and_i", "", None, 0, "unknown", 3.5, (), ("and_i",), frozenset(), True]


def verdict(proof, part, what, flat=None):
    part.transitions += 1
    try:
        r = ND.check(proof)
    except RecursionError:
        raise
    except Exception as e:
        raise Violation("%s: the checker raised %s: %s" % (what, type(e).__name__, str(e)[:200]), proof=repr(flat)[:1500])
    if r is not True and r is not False:
        raise Violation("%s: the checker returned %r" % (what, r), proof=repr(flat)[:1500])
    return r


def snap(p, deep):
    return tuple((i[0], snap(i[1], deep) if isinstance(i[1], list) else (id(i[1]), deep and str(i[1])), tuple(i[2]) if isinstance(i[2], list) else i[2])
                 if isinstance(i, tuple) else repr(i) for i in p)


def run1(items, logic, part, what, deep=False):
    """Check one proof: total, repeatable, input untouched."""
    part.states += 1
    fl = nd.flat(items, logic)
    before = repr_flat(fl)
    p = ND.Proof(fl)
    s = snap(p, deep)
    r = verdict(p, part, what, fl)
    if deep and verdict(p, part, what, fl) is not r:
        raise Violation("%s: checking the same proof again gives another result" % what, proof=items, first=r)
    if snap(p, deep) != s:
        raise Violation("%s: checking changed the proof" % what, proof=items)
    if repr_flat(fl) != before:
        raise Violation("%s: the list given to Proof was changed" % what, proof=items)
    return r


def repr_flat(fl):
    return tuple(repr_flat(v) if isinstance(v, list) else (id(v), type(v).__name__) for v in fl)


def prefixes(items):
    """All proper non-empty prefixes, also cutting inside the last box."""
    for k in range(len(items), 0, -1):
        last = items[k - 1]
        if k < len(items):
            yield items[:k]
        if last[0] == "B":
            for sub in prefixes(last[3]):
                yield items[: k - 1] + (("B", last[1], last[2], sub),)


def extensions(items, pool):
    rows = nd.rows_of(items)
    new = 900
    for g in pool:
        yield items + (L(new, g, "premise"),)
        yield items + (Bx(new, None, L(new, g, "assumption")),)
        yield items + (L(new, g, "copy", rows[0]),)
        yield items + (L(new, g, "copy", rows[-1]),)
        yield items + (Bx(new, None, L(new, g, "assumption"), L(901, g, "copy", new)), L(902, nd.imp(g, g), "impl_i", new))
        yield items + (Bx(new, V["v"], L(new, g, "copy", rows[0])),)
        yield (items + (L(new, FALSE, "premise"), L(901, g, "bot_e", new)))
    # repeating rows of the proof as premises must not repair it
    for g in pool[:2]:
        for r in rows:
            yield items + (L(r, g, "premise"),)


def closure(items, logic, part, pool, deep=False):
    r = run1(items, logic, part, "proof", deep)
    if r:
        part.traces += 1
        for p in prefixes(items):
            if nd.proper(p) and run1(p, logic, part, "prefix") is not True:
                raise Violation("a prefix of an accepted proof is rejected", proof=items, prefix=p)
    else:
        if deep:
            run1(items, logic, part, "rejected proof", True)
        for e in extensions(items, pool):
            if run1(e, logic, part, "extension") is not False:
                raise Violation("an extension of a rejected proof is accepted", proof=items, extension=e)
    return r


def invisible(items, logic, part, terms, pool):
    """Every citation of every line, replaced by one that is not visible there, must be rejected; so must missing ones."""
    everything = list(dict.fromkeys(nd.rows_of(items)))
    for path, it in list(nd.paths(items)):
        if it[0] != "L":
            continue
        _, row, t, r, cites = it
        vis = visible_at(items, path)
        rules = [r] + [q for q in nd.RULES if q != r]
        hidden = [q for q in everything if q not in vis] + ["nowhere", -77, None, 10 ** 9, (), ("r", 0)]
        for q in rules:
            n = nd.arity(q)
            for k in range(n):
                base = list(cites[:n]) + [vis[0] if vis else row] * max(0, n - len(cites))
                for h in hidden if q == r else hidden[:6]:
                    new = list(base)
                    new[k] = h
                    for g in ([t] + pool if q != r else [t]):
                        e = nd.replace_at(items, path, [("L", row, g, q, tuple(new))])
                        if run1(e, logic, part, "invisible citation") is not False:
                            raise Violation("a line citing a row that is not visible (%r) is accepted" % (h,), proof=e)
                # too few citations
                e = nd.replace_at(items, path, [("L", row, t, q, tuple(base[:k]))])
                if run1(e, logic, part, "missing citation") is not False:
                    raise Violation("a line by %s with %d instead of %d citations is accepted" % (q, k, n), proof=e)
            # additional citations of rows that do not exist or are not visible
            for h in hidden[:3]:
                e = nd.replace_at(items, path, [("L", row, t, q, tuple(cites) + (h,))])
                if run1(e, logic, part, "additional citation") is not False:
                    raise Violation("a line citing a row that is not visible (%r) is accepted" % (h,), proof=e)
        for j in JUNK + [[]]:
            for cs in (cites, ()):
                e = nd.replace_at(items, path, [("L", row, t, j if not isinstance(j, str) else Str(j), cs)])
                if run1(e, logic, part, "unknown rule") is not False:
                    raise Violation("a line with the unknown rule %r is accepted" % (j,), proof=e)
        e = nd.flat(items, logic)
        # an empty justification
        target = locate(e, path, items)
        if target is not None:
            lst, pos = target
            for just in ([], [None], [[]], ["x", "y"]):
                keep = lst[pos]
                lst[pos] = just
                part.states += 1
                if verdict(ND.Proof(e), part, "odd justification", e) is not False:
                    raise Violation("a line with the justification %r is accepted" % (just,), proof=items)
                lst[pos] = keep


class Str(str):
    """A rule given by an arbitrary string (kept as is by the proof builder)."""


def visible_at(items, path):
    """Rows that may be cited by the line at the path: earlier items of the enclosing levels (open boxes are not items yet)."""
    vis = []
    for depth in range(len(path)):
        i = path[depth]
        vis += [it[1] for it in items[:i]]
        if depth + 1 < len(path):
            items = items[i][3]
    return vis


def locate(fl, path, items):
    """(list, index of the justification) of the line at the path in the flat list."""
    lst = fl
    for depth, i in enumerate(path):
        pos = 0
        for k, it in enumerate(items):
            size = 3 if it[0] == "L" else 2
            if k == i:
                break
            pos += size
        last = depth == len(path) - 1
        if depth > 0:
            # inside a box the first row label is implicit, and a variable may precede
            pos += (1 if var is not None else 0) - 1
        if last:
            return lst, pos + 2
        var = items[i][2]
        lst = lst[pos + 1]
        items = items[i][3]


def odd_formulas(items, part, logic):
    """Formulas of other logics, in place of any formula of the proof: a verdict, no exception."""
    fl = nd.flat(items, logic)
    for path, it in nd.paths(items):
        if it[0] != "L":
            continue
        lst, pos = locate(fl, path, items)
        keep = lst[pos - 1]
        for lg, t in OTHER:
            lst[pos - 1] = nd.lib(t, lg)
            part.states += 1
            r = verdict(ND.Proof(fl), part, "formula of another logic", fl)
            if verdict(ND.Proof(fl), part, "formula of another logic", fl) is not r:
                raise Violation("the result changed on the second check", proof=items, formula=t)
        lst[pos - 1] = keep


def schemas(logic, pool, part, hi):
    """Every rule with every citation list over every kind of visible item, at top level and in a box: total; prefix closed."""
    prem = tuple(L(i + 1, g, "premise") for i, g in enumerate(pool))
    k = len(pool)
    box = (Bx(20, None, L(20, pool[0], "assumption"), L(21, pool[0], "copy", 20)),)
    vbox = (Bx(30, V["v"], L(30, pool[0], "copy", 1), L(31, pool[0], "copy", 30)),) if logic == "fol" else ()
    nest = (Bx(40, None, L(40, pool[0], "assumption"), Bx(41, None, L(41, pool[0], "assumption")), L(42, pool[0], "copy", 41)),)
    base = prem + box + vbox + nest[:0]
    rows = [1, 2, 20, 21] + ([30, 31] if vbox else []) + [99]
    for r in nd.RULES:
        for n in range(hi + 1):
            for cites in itertools.product(rows, repeat=n):
                for g in pool[: 4 if n > 1 else 99]:
                    line = L(50, g, r, *cites)
                    ok = run1(base + (line,), logic, part, "every rule")
                    if ok and any(q in cites for q in (21, 31, 99)):
                        raise Violation("a line citing a row that is not visible is accepted", proof=base + (line,))
                    run1(base + (Bx(60, None, L(60, pool[1], "assumption"), line),), logic, part, "every rule")
                    if logic == "fol":
                        run1(base + (Bx(60, V["w"], line[:1] + (60,) + line[2:]),), logic, part, "every rule")


def corpora(q):
    pl, fol = [], []
    for a, b, cc in [(A, B, C), (A, ("and", A, B), FALSE)] if q else [(A, B, C), (A, ("and", A, B), FALSE), (N(A), ("or", A, B), B), (FALSE, A, A)]:
        for _, it in nd.pl_instances(a, b, cc):
            for v in (it, nd.no_premises(it), nd.in_box(it, C)):
                if v and nd.proper(v):
                    pl.append(v)
    for it in c17.classics():
        fol.append(it)
        b = nd.in_box(it, Q)
        if b:
            fol.append(b)
    for phi in c17.BODIES[:: 10 if q else 2]:
        for t in (z, f(y)):
            for _, it in nd.fol_instances(phi, x, t, Q):
                fol.append(it)
    return list(dict.fromkeys(pl)), [it for it in dict.fromkeys(fol) if nd.proper(it)]


def histories(chunk_pairs, part):
    """Check p, then q: q's result is the one it has alone (also for fresh proofs over re-created formulas)."""
    one = ND()  # and with a single checker for all of them
    for (lp, p), (lq, q_), want in chunk_pairs:
        part.states += 1
        one.check_proof(one.proof(nd.flat(p, lp)))
        r = one.check_proof(one.proof(nd.flat(q_, lq)))
        if r is not want:
            raise Violation("the result of a check depends on what the same checker object checked before", first=p, second=q_, alone=want, after=r)
        ND.check(ND.Proof(nd.flat(p, lp)))
        r = ND.check(ND.Proof(nd.flat(q_, lq)))
        if r is not want:
            raise Violation("the result of a check depends on an earlier check", first=p, second=q_, alone=want, after=r)


HIDDEN = ("row that does not exist", "own row", "row of a closed box")


def long_proofs(n, k, of, part):
    """Long proofs: total and repeatable; unavailable rows are refused at every place; prefixes; extensions of a rejected proof."""
    for logic, triple, wrong in (("pl", (A, B, C), ("atom", "d")), ("fol", (P(x), Q, ("forall", x, R(x, y))), P(z))):
        i = 0
        for name, items in nd.long_valid(n, *triple):
            if k == 0:
                ok = run1(items, logic, part, "long proof", True)
                for p in prefixes(items) if ok else ():
                    if nd.proper(p) and run1(p, logic, part, "prefix of a long proof") is not True:
                        raise Violation("a prefix of an accepted proof is rejected", proof=items, prefix=p)
            for what, e in nd.long_breaks(items, wrong):
                i += 1
                if i % of != k or not nd.proper(e):
                    continue
                r = run1(e, logic, part, "long proof (%s)" % what, i % 9 == 0)
                if r and what in HIDDEN:
                    raise Violation("a line citing a row that is not visible is accepted (%s)" % what, proof=e)
                if not r and i % 7 == 0:
                    for ext in extensions(e, [triple[0]]):
                        if run1(ext, logic, part, "extension of a long proof") is not False:
                            raise Violation("an extension of a rejected proof is accepted", proof=e, extension=ext)
                        part.traces += 1
                        break


def work(chunk, part):
    for kind, payload in chunk:
        if kind == "long":
            long_proofs(*payload, part)
            continue
        if kind == "schemas":
            schemas(*payload, part, 2) if len(payload) == 2 else schemas(payload[0], payload[1], part, payload[2])
        elif kind == "closure":
            logic, items, pool, terms, deep = payload
            closure(items, logic, part, pool, True)
            for e in nd.edits_proper(items, pool if deep else pool[:4], terms, (99,)):
                closure(e, logic, part, pool[:1] if not deep else pool[:2], deep)
        elif kind == "invisible":
            logic, items, pool = payload
            for base in nd.aliased(items, pool[0]):
                run1(base, logic, part, "label used twice")
                for what, e in nd.long_breaks(base, pool[0]):
                    if nd.proper(e) and run1(e, logic, part, "label used twice (%s)" % what) and what == "row of a closed box" \
                            and not any(it[1] == 88888 and 6000 in it[4] for _, it in nd.paths(e)):
                        raise Violation("a line citing a row inside a closed box is accepted", proof=e)
            invisible(items, logic, part, (), pool)
            odd_formulas(items, part, logic)
        else:
            histories(payload, part)
    part.sample([kind, repr(payload)[:400]])


def run(check):
    q = check.quick
    todo = []
    if q:
        for p in (POOL[:4], POOL[4:8]):
            todo.append(("schemas", ("pl", p)))
        for p in (FPOOL[:5], FPOOL[4:8], FPOOL[9:14]):
            todo.append(("schemas", ("fol", p)))
    else:
        for a, b in itertools.permutations(POOL, 2):
            todo.append(("schemas", ("pl", [a, b] + POOL[:2])))
        for a, b in itertools.permutations(FPOOL, 2):
            todo.append(("schemas", ("fol", [a, b] + FPOOL[:2])))
        todo += [("schemas", ("pl", POOL[:3], 3)), ("schemas", ("fol", FPOOL[3:6], 3))]
    for n in (20, 90) if q else (20, 90, 250, 500):
        todo += [("long", (n, k, 32)) for k in range(32)]
    todo += [("long", (420, k, 801)) for k in range(3, 801, 100)]
    pl, fol = corpora(q)
    for logic, items, pool, terms in [("pl", it, POOL, (x,)) for it in pl] + [("fol", it, FPOOL, (x, y, c, f(x))) for it in fol]:
        if not nd.accepted(items, logic):
            check.note("not_accepted", check.notes.get("not_accepted", 0) + 1)  # completeness is another property
        fs = [i[2] for _, i in nd.paths(items) if i[0] == "L"]
        own = list(dict.fromkeys(fs + pool))
        todo.append(("closure", (logic, items, own[: 6 if q else 12], terms, not q)))
        todo.append(("invisible", (logic, items, [FALSE] if q else [FALSE, pool[0], pool[4]])))
    # histories: every ordered pair of a set of accepted and rejected proofs
    probe = []
    for logic, items in [("pl", it) for it in pl[:: 3 if q else 1]] + [("fol", it) for it in fol[:: 3 if q else 1]]:
        probe.append((logic, items))
        es = list(nd.edits_proper(items, (POOL if logic == "pl" else FPOOL)[:2], (x,), ()))
        probe += [(logic, e) for e in es[:: max(1, len(es) // (2 if q else 4))]]
    probe = list(dict.fromkeys(probe))
    alone = {p: ND.check(ND.Proof(nd.flat(p[1], p[0]))) for p in probe}
    again = {p: ND.check(ND.Proof(nd.flat(p[1], p[0], fresh=True))) for p in reversed(probe)}
    for p in probe:
        if alone[p] is not again[p]:
            check.violation("the result of a check depends on earlier checks", proof=p, first=alone[p], later=again[p])
    pairs = [(p, r, alone[r]) for p in probe for r in probe]
    for ch in chunked(pairs, 64):
        todo.append(("histories", ch))
    check.note("proofs", len(pl) + len(fol))
    check.note("probes", len(probe))
    import random

    random.Random(0).shuffle(todo)  # even load only
    check.run_parallel(work, chunked(todo, 256))
