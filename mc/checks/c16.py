"""C16: soundness of accepted propositional proofs: all single steps, all short proofs, all edits of valid proofs."""
import itertools

from mc import nd
from mc import space as S
from mc import terms as T
from mc.core import Violation, chunked
from mc.nd import FALSE, TRUE, Bx, L

ASSUMPTIONS = ["atoms are not named like the constants"]
A, B, C = S.A, S.Bq, S.C
N = nd.neg

# formulas of every shape, including merged and n-ary ones
POOL = [A, B, N(A), N(B), ("and", A, B), ("or", A, B), nd.imp(A, B), nd.imp(B, A), ("imp", A, B), ("iff", A, B), FALSE, TRUE,
        N(("and", A, B)), N(("or", A, B)), ("and", A, B, C), ("or", A, B, C), ("or", ("and", A, B), C), ("and", N(A), N(B)),
        ("and", B, A), ("or", B, A), ("or", N(A), N(B)), ("imp", A, FALSE), N(("imp", A, B)), ("imp", A, B, C), ("and", A, ("or", B, C)),
        nd.imp(A, ("and", B, C)), nd.imp(("and", A, B), C), C, ("imp", B, A), ("iff", A, B, C), ("imp", ("imp", A, B), C), ("imp", N(B), N(A))]
MID = [A, B, N(A), ("and", A, B), ("or", A, B), nd.imp(A, B), FALSE, ("imp", A, B), N(("and", A, B)), ("or", A, B, C)]
SMALL = [A, B, N(A), nd.imp(A, B), FALSE, ("or", A, B)]


def judge(items, part, what):
    part.states += 1
    part.transitions += 1
    r = nd.check(items, "pl")
    if r is True:
        part.traces += 1
        bad = nd.unsound_line(items, "pl")
        if bad:
            raise Violation("%s: the accepted proof derives %r in line %r, which does not follow" % (what, bad[2], bad[1]), proof=items)
    return r


def cite_tuples(rows, lo, hi):
    for k in range(lo, hi + 1):
        yield from itertools.product(rows, repeat=k)


def premises(fs):
    return tuple(L(i + 1, f, "premise") for i, f in enumerate(fs))


def single(fs, concl_pool, part, hi=2, exact=False):
    """One step from the given premises (exact: only with the rule's own number of citations)."""
    ps = premises(fs)
    rows = [i + 1 for i in range(len(fs))]
    for rule in nd.RULES:
        if rule == "premise":
            continue
        top = max(hi, nd.arity(rule)) if rule == "or_e" else hi
        for cites in cite_tuples(rows, nd.arity(rule) if exact else 0, nd.arity(rule) if exact else top):
            for f in concl_pool:
                judge(ps + (L(9, f, rule, *cites),), part, "single step")


def boxes(fs, concl_pool, inner, cases, part):
    """One step from boxes: each box assumes a formula and ends with a copied or derived line."""
    ps = premises(fs)
    n = len(fs)
    bodies = []
    for h in inner:
        bodies.append((L(10, h, "assumption"),))
        for i, f in enumerate(fs):
            bodies.append((L(10, h, "assumption"), L(11, f, "copy", i + 1)))
            bodies.append((L(10, h, "assumption"), L(11, ("and", h, f), "and_i", 10, i + 1)))
            bodies.append((L(10, h, "assumption"), L(11, FALSE, "neg_e", 10, i + 1)))
            bodies.append((L(10, h, "assumption"), L(11, f, "copy", i + 1), L(12, FALSE, "neg_e", i + 1, 10)))
        bodies.append((L(10, h, "assumption"), L(11, ("or", h, B), "or_i1", 10)))
    for h in (A, B):
        for g in (A, B, FALSE):  # the box ends with a box
            bodies.append((L(10, h, "assumption"), Bx(11, None, L(11, g, "assumption"))))
        bodies.append((L(10, h, "assumption"), Bx(11, None, L(11, A, "assumption"), L(12, A, "copy", 11), Bx(13, None, L(13, FALSE, "assumption")))))
    bodies = [b for b in bodies if nd.check(ps + (Bx(10, None, *b),), "pl") is True]
    rows = [i + 1 for i in range(n)] + [10, 11, 99]
    for b in bodies:
        for rule in nd.RULES:
            if rule in ("premise", "or_e"):
                continue
            for cites in cite_tuples(rows, 1, min(2, nd.arity(rule))):
                if 10 in cites or 11 in cites:
                    for f in concl_pool:
                        judge(ps + (Bx(10, None, *b), L(90, f, rule, *cites)), part, "step from a box")
    if cases:
        bodies = [b for b in bodies if len(b) == 1 or b[-1][0] == "B" or b[-1][3] in cases]
    second = [nd.relabel(b, lambda r: r + 20 if isinstance(r, int) and r >= 10 else r) for b in bodies]
    for b in bodies:
        for c in second:
            for i in rows[:n]:
                for cites in ((i, 10, 30), (i, 30, 10), (10, i, 30), (i, 10, 10)):
                    for f in concl_pool:
                        judge(ps + (Bx(10, None, *b), Bx(30, None, *c), L(90, f, "or_e", *cites)), part, "case distinction")


# ---- all short proofs: breadth-first over accepted prefixes ------------------------------------------
def steps(lines, all_rows, pool):
    rows = sorted(all_rows)
    for rule in nd.PROP_RULES:
        if rule in ("premise", "assumption"):
            continue
        for cites in itertools.product(rows, repeat=nd.arity(rule)):
            if rule == "or_e" and (cites[1] in lines or cites[2] in lines):
                continue  # a case distinction cites boxes
            for f in pool:
                yield f, rule, cites


def grow(done, open_boxes, row, depth, pool, part, n_prem):
    """done: closed items per nesting level; the innermost level is being extended."""
    def assemble(levels):
        items = levels[-1]
        for k in range(len(levels) - 2, -1, -1):
            b = levels[k + 1] if items is levels[k + 1] else items
            items = levels[k] + (Bx(b[0][1], None, *b),)
        return items

    levels = done
    proof = assemble(levels)
    all_rows = set(nd.rows_of(proof)) | {99}
    lines = {it[1] for lv in levels for it in lv if it[0] == "L"} | {99}
    if depth == 0:
        return

    def attempt(new_levels, export=False):
        p = assemble(new_levels)
        ok = judge(p, part, "short proof") is True
        if ok and len(new_levels) > 1:
            # what holds in the box may be exported by closing it
            q, r = p, 200
            chain = new_levels
            last = chain[-1][-1]
            while len(chain) > 1 and last[0] == "L":
                hyp = chain[-1][0][2]
                exported = L(r, nd.imp(hyp, last[2]), "impl_i", chain[-1][0][1])
                chain = chain[:-2] + (chain[-2] + (Bx(chain[-1][0][1], None, *chain[-1]), exported),)
                last = exported
                r += 1
            judge(assemble(chain), part, "exported from a box")
        return ok

    # extend with a line, by every rule
    for f, rule, cites in steps(lines, all_rows, pool):
        if attempt(levels[:-1] + (levels[-1] + (L(row, f, rule, *cites),),)):
            if depth > 1 and not any(it[0] == "L" and it[2] == f for it in levels[-1]):
                grow(levels[:-1] + (levels[-1] + (L(row, f, rule, *cites),),), open_boxes, row + 1, depth - 1, pool, part, n_prem)
    for f in pool:
        # misplaced premise or assumption lines, and opening a box
        for rule in ("premise", "assumption"):
            p = levels[:-1] + (levels[-1] + (L(row, f, rule),),)
            if len(levels) > 1 or rule == "assumption":
                attempt(p)
        if depth > 1 and len(levels) < 3:
            q = levels + ((L(row, f, "assumption"),),)
            if attempt(q):
                grow(q, open_boxes, row + 1, depth - 1, pool, part, n_prem)
    # close the innermost box
    if len(levels) > 1 and depth >= 1:
        b = levels[-1]
        closed = levels[:-2] + (levels[-2] + (Bx(b[0][1], None, *b),),)
        grow(closed, open_boxes, row, depth, pool, part, n_prem) if len(b) > 0 and row_open(b) else None


def row_open(b):
    return True


def long_proofs(n, k, of, part):
    """Proofs of n lines or many levels with one wrong line at every place (every of-th case, starting at the k-th)."""
    i = 0
    for name, items in nd.long_valid(n, A, B, C):
        if k == 0 and judge(items, part, "long proof (%s)" % name) is not True:
            part.count("long_not_accepted")  # completeness is another property
        for what, e in itertools.chain(nd.long_breaks(items, ("atom", "d")), nd.wrong_lines(items, ("atom", "d"))):
            i += 1
            if i % of == k:
                r = judge(e, part, "long proof (%s, %s)" % (name, what))
                if r is True:
                    part.count("long_accepted")


def work(chunk, part):
    for kind, payload in chunk:
        if kind == "long":
            long_proofs(*payload, part)
            continue
        if kind == "single":
            single(*payload[:2], part, *payload[2:])
        elif kind == "boxes":
            boxes(*payload, part)
        elif kind == "grow":
            fs, first, depth, pool = payload
            ps = premises(fs)
            grow((ps,) + ((first,) if first else ()), 0, len(fs) + 1 + (1 if first else 0), depth, pool, part, len(fs))
        else:
            items, pool, twice = payload
            for base in (items,) + tuple(nd.aliased(items, ("atom", "d"))):
                wrong = ("atom", "d") if base is items else ("atom", "c")
                for what, e in itertools.chain(nd.long_breaks(base, wrong), nd.wrong_lines(base, wrong)):
                    if nd.proper(e):
                        judge(e, part, "edited proof (%s)" % what)
            for e in nd.edits_proper(items, pool, (("var", "x"),), (99,)):
                judge(e, part, "edited proof")
                if twice:
                    for g in nd.edits_proper(e, pool[:4], (), (), rules=nd.PROP_RULES):
                        judge(g, part, "twice edited proof")
    part.sample([kind, payload])


def corpus(pool):
    seen = set()
    for a, b, c in pool:
        for name, items in nd.pl_instances(a, b, c):
            for v in (items, nd.no_premises(items), nd.in_box(items, C)):
                if v and v not in seen and nd.proper(v):
                    seen.add(v)
                    yield v


def run(check):
    q = check.quick
    todo = []
    # one premise, all formulas up to a size
    terms = []
    for t in S.upto("pl", 4, S.leaves("pl")):
        t = T.norm(t)
        if t not in terms:
            terms.append(t)
    concl = list(dict.fromkeys([T.norm(t) for t in S.upto("pl", 3, S.leaves("pl"))] + [T.norm(t) for t in POOL]))
    todo += [("single", ((f,), concl if q else terms, 1)) for f in terms]
    # no premise at all, two premises, three premises
    todo += [("single", ((), concl, 0))]
    todo += [("single", ((f, g), [T.norm(x) for x in (MID + POOL if not q else POOL)], 2)) for f in (MID if q else POOL) for g in (MID if q else POOL)]
    if q:
        npool = [T.norm(x) for x in POOL]
        todo += [("single", ((f, g), npool, 2, True)) for f in POOL for g in POOL if (f in MID) != (g in MID)]
        todo += [("single", ((f, g), [x for x in npool if x in (A, B, C, N(A), N(B), FALSE, f, g)], 2, True)) for f in POOL for g in POOL if f not in MID and g not in MID]
    todo += [("single", ((f, g, h), MID, 3)) for f in SMALL for g in SMALL for h in SMALL] if not q else \
            [("single", ((f, g, ("or", f, g)), SMALL, 2)) for f in SMALL for g in SMALL]
    # boxes
    todo += [("boxes", ((f, g), MID if not q else SMALL, SMALL[:3] if q else SMALL, ("copy",) if q else None)) for f in MID for g in (MID if not q else SMALL[1:4])]
    todo += [("boxes", ((f,), SMALL if q else POOL, SMALL if q else MID, ("copy", "or_i1"))) for f in POOL]
    # short proofs
    depth = check.pick(2, 3)
    pool = (SMALL if q else SMALL + [("and", A, B), nd.imp(B, A)])
    base = (A, N(A), nd.imp(A, B), FALSE, ("or", A, B))
    for k in (0, 1, 2):
        for fs in itertools.product(base, repeat=k):
            d, pl = (depth, pool) if k < 2 else (depth - 1, SMALL)
            if not q and k == 1:
                pl = SMALL
            todo.append(("grow", (fs, None, d, pl)))
            for h in (base if d > 1 and q or k < 2 else SMALL):
                todo.append(("grow", (fs, (L(k + 1, h, "assumption"),), d, pl)))
    # edits of valid proofs
    triples = [(A, B, C), (A, ("and", A, B), B), (("or", A, B), C, A), (N(A), B, FALSE), (nd.imp(A, B), A, B), (A, FALSE, B)]
    if not q:
        triples += list(itertools.product((A, B, N(A), ("or", A, B)), repeat=3))
    items = list(corpus(triples))
    edit_pool = [A, B, C, N(A), N(B), FALSE, TRUE, ("and", A, B), ("or", A, B), nd.imp(A, B), nd.imp(B, A), nd.imp(A, C), ("imp", A, B)]
    todo += [("edit", (it, edit_pool, False)) for it in items]
    todo += [("edit", (it, edit_pool[:8], True)) for it in items if len(nd.rows_of(it)) <= (3 if q else 4)][: 12 if q else 400]
    for n in (20, 70, 140) if q else (20, 70, 150, 300, 600):
        todo += [("long", (n, k, 16)) for k in range(16)]
    todo += [("long", (420, k, 401)) for k in range(3, 401, 50)]
    check.note("valid_proofs_edited", len(items))
    check.note("formulas", len(terms))
    check.note("conclusions", len(concl))
    check.note("depth", depth)
    import random

    random.Random(0).shuffle(todo)  # even load only; the space itself is enumerated completely
    check.run_parallel(work, chunked(todo, 128))
