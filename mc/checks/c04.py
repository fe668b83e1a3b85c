"""C04: == is structural equality on all pairs of the population, and hashes agree with it."""
from pylogics_modalities.syntax.base import reset_cache

from mc import population as POP
from mc import space as S
from mc import terms as T
from mc.core import chunked

ASSUMPTIONS = ["formulas are compared with their structure read back through public accessors",
               "the values given to constants are compared by an equivalence relation (a value that is not equal to itself makes no constant)"]


def key(f):
    """Structure with the logic of every node; operand order ignored where it is insignificant."""
    if isinstance(f, T.F.Term):
        return ("term", T.read_term(f))
    return _canon(T.read_logic(f))


def _canon(t):
    """canon() for terms that carry the logic in second position."""
    if not isinstance(t, tuple) or len(t) < 2:
        return t
    sub = [_canon(x) for x in t[2:]]
    if t[0] in T.COMM:
        # the logic of a connective is that of its operands
        return (t[0], frozenset(sub))
    return (t[0], t[1]) + tuple(sub)


def make(logic, t):
    return T.build_term(t) if logic == "term" else T.build(t, logic)


def spaces(check):
    items = POP.everything() + [("term", t) for t in POP.TERMS]
    for logic in ("pl", "ltl", "pltl", "ldl", "fol"):
        n = check.pick({"pl": 4, "ldl": 4}.get(logic, 3), {"pl": 5, "ldl": 5}.get(logic, 3))
        lv = S.leaves(logic, consts=S.CONSTS[logic][:2]) if logic != "pl" else S.leaves(logic)
        items += [(logic, t) for t in S.upto(logic, n, lv)][: check.pick(400, 3500)]
    return list(dict.fromkeys(items))


def family_pairs(chunk, part):
    for name, items in chunk:
        one, two = [make(l, t) for l, t in items], [make(l, t) for l, t in reversed(items)][::-1]
        # names and values are compared as they were given, everything else as it reads
        ks = list(items) if name.startswith("near ") else [key(f) for f in one]
        for i, f in enumerate(one):
            part.states += 1
            for j, g in enumerate(two):
                part.transitions += 1
                same = ks[i] == ks[j]
                if (f == g) is not same or (f != g) is same or (same and hash(f) != hash(g)):
                    part.violation("%s: %r and %r are %s but == says %r" % (name, items[i], items[j], "equal" if same else "different", f == g),
                                   left=items[i], right=items[j], expected=same)
                    return
            part.traces += 1
        if len(set(one) | set(two)) != len(set(ks)):
            part.violation("%s: a set of formulas has %d elements for %d classes" % (name, len(set(one) | set(two)), len(set(ks))))
    part.sample([name, items[-1]])


def run(check):
    items = spaces(check)
    first = [make(l, t) for l, t in items]
    hashes = [hash(f) for f in first]
    keys = [key(f) for f in first]
    reset_cache()
    second = [make(l, t) for l, t in items]
    if [key(f) for f in second] != keys:
        check.violation("building the same terms again gives different structures")
    n = len(items)
    check.note("formulas", n)
    check.note("classes", len(set(keys)))
    members = {}
    for f, k in zip(first, keys):
        members.setdefault(f, k)

    def pairs(rows, part):
        for i in rows:
            f, k, h = second[i], keys[i], hash(second[i])
            part.states += 1
            if h != hashes[i]:
                part.violation("two equal formulas have different hashes: %r" % (items[i],), item=items[i])
            for j in range(n):
                g = first[j]
                same = k == keys[j]
                part.transitions += 1
                if (f == g) is not same or (g == f) is not same or (f != g) is same or (g != f) is same:
                    part.violation(
                        "%r and %r are %s but == says %r / %r and != says %r / %r"
                        % (items[i], items[j], "equal" if same else "different", f == g, g == f, f != g, g != f),
                        left=items[i], right=items[j], expected=same)
                    return
                if same and hashes[j] != h:
                    part.violation("%r and %r are equal but their hashes differ" % (items[i], items[j]),
                                   left=items[i], right=items[j])
                    return
            if f not in members or members[f] != k or hash(f) != h or f not in {f} or f not in {first[i]}:
                part.violation("set/dictionary membership disagrees with equality for %r" % (items[i],), item=items[i])
            for other in (None, 0, "a", (), str(f), T, [f], (f,)):
                if f == other or not (f != other):
                    part.violation("%r equals the non-formula %r" % (items[i], other), item=items[i])
            part.traces += 1

    check.run_parallel(pairs, chunked(range(n), 64))
    # large formulas: all pairs of every family of one-place variations
    fam = dict(POP.families(check.quick), **POP.near())
    fam.update(("huge " + n, v) for n, v in POP.huge(check.quick).items())
    check.note("families", len(fam))
    check.note("family_formulas", sum(len(v) for v in fam.values()))
    check.run_parallel(family_pairs, chunked(list(fam.items()), 64))
    for f, h, it in zip(first, hashes, items):  # nothing done in this process may have changed a hash
        f == f, repr(f), str(f)
        if hash(f) != h:
            check.violation("the hash of %r changed" % (it,), item=it)
    # sets of everything have exactly one element per class
    for fs in (first, second, first + second, list(reversed(first)) + second):
        if len(set(fs)) != len(set(keys)) or len(dict.fromkeys(fs)) != len(set(keys)):
            check.violation("a set of formulas has %d elements for %d classes" % (len(set(fs)), len(set(keys))))
    check.sample([items[3], items[-1]])
