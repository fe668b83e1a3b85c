"""C06: pickling and copying, in every order with hashing, within a process and across processes."""
import copy
import functools
import os
import pickle
import subprocess
import sys

from pylogics_modalities.helpers.cache_hash import Hashable
from pylogics_modalities.syntax.base import get_cache_context
from pylogics_modalities.utils.to_string import to_string

from mc import population as POP
from mc import terms as T
from mc.core import Violation, chunked, outcome

ASSUMPTIONS = ["'another process' is a fresh interpreter of the same version importing the same tree"]


# ---- classes using the metaclass directly ------------------------------------------------------------
class Plain(metaclass=Hashable):
    calls = 0

    def __init__(self, x):
        self.x = x

    def __hash__(self):
        Plain.calls += 1
        return hash(("plain", self.x))

    def __eq__(self, other):
        return type(self) is type(other) and self.__dict__.get("x") == other.__dict__.get("x")


class Sub(Plain):
    def __init__(self, x):
        super().__init__(x)
        self.y = [x]


class SubSub(Sub):
    def __hash__(self):
        return hash(("subsub", self.x))


class Custom(metaclass=Hashable):
    def __init__(self, x):
        self.x = x
        self.junk = object

    def __hash__(self):
        return hash(("custom", self.x))

    def __eq__(self, other):
        return type(self) is type(other) and self.x == other.x

    def __getstate__(self):
        d = self.__dict__.copy()
        d["junk"] = None
        d["marked"] = True
        return d

    def __setstate__(self, state):
        self.__dict__.update(state)


class CustomSub(Custom):
    pass


class Slotless(metaclass=Hashable):
    """No attributes at all."""

    def __hash__(self):
        return hash("slotless")

    def __eq__(self, other):
        return type(self) is type(other)


def customs():
    return [Plain("a"), Sub("b"), SubSub("c"), Custom("d"), CustomSub("e"), Slotless()]


@functools.lru_cache(None)
def everything():
    """The population, two large formulas of every family, and the widest and longest ones."""
    return POP.everything() + [x for v in POP.families().values() for x in (v[0], v[-1])] + [v[0] for n, v in POP.huge().items() if n.endswith(" 320")]


def native(i):
    """The i-th object of the population, built from scratch."""
    items = everything()
    if i < len(items):
        l, t = items[i]
        return T.build_term(t) if l == "term" else T.build(t, l)
    i -= len(items)
    if i < len(POP.TERMS):
        return T.build_term(POP.TERMS[i])
    return customs()[i - len(POP.TERMS)]


def total():
    return len(everything()) + len(POP.TERMS) + len(customs())


def describe(i):
    items = everything()
    return repr(items[i]) if i < len(items) else "object %d" % i


def view(x):
    """Everything observable without identity."""
    if isinstance(x, T.B.Formula):
        s = outcome(lambda: to_string(x))
        return (T.read_logic(x), str(x), s[1] if s[0] == "ok" else type(s[1]).__name__)
    if isinstance(x, T.F.Term):
        return (T.read_term(x), str(x))
    return (type(x).__name__, getattr(x, "x", None), getattr(x, "y", None))


def ints_of(x, acc, depth=0):
    if isinstance(x, int) and not isinstance(x, bool):
        acc.append(x)
    elif isinstance(x, dict):
        for k, v in x.items():
            ints_of(k, acc, depth + 1)
            ints_of(v, acc, depth + 1)
    elif isinstance(x, (tuple, list, set, frozenset)):
        for v in x:
            ints_of(v, acc, depth + 1)
    return acc


def state_of(x, proto):
    r = x.__reduce_ex__(proto)
    return r if isinstance(r, str) else r[1:3]


OPS = {
    "hash": None, "compare": None, "pickle0": None, "pickle2": None, "pickle4": None, "pickle5": None, "copy": None, "deepcopy": None,
}


def apply(op, x):
    if op == "hash":
        hash(x)
        return x
    if op == "compare":
        x == x, x in {x}, str(x)
        return x
    if op == "copy":
        return copy.copy(x)
    if op == "deepcopy":
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, int(op[6:])))


def check_alive(objs, ref, h, v, hist, i, rehash):
    for x in objs:
        if view(x) != v:
            raise Violation("after %s a formula reads differently: %r" % (hist, view(x)), index=i, formula=describe(i))
        if rehash:
            if not (x == ref and ref == x) or x != ref:
                raise Violation("after %s the result is not equal to the original" % (hist,), index=i, formula=describe(i))
            if hash(x) != h or x not in {ref} or ref not in {x: 1}:
                raise Violation("after %s hash or membership differs" % (hist,), index=i, formula=describe(i))


def explore(i, depth, part):
    ref = native(i)
    h, v = hash(ref), view(ref)

    def go(x, objs, hist):
        part.states += 1
        keys = {p: state_of(x, p) for p in (2,)}
        if h in ints_of(list(keys.values()), []):
            raise Violation("after %s the serialized state contains the hash value" % (hist,), index=i, formula=describe(i))
        if len(hist) == depth:
            check_alive(objs, ref, h, v, hist, i, True)
            part.traces += 1
            return
        for op in OPS:
            part.transitions += 1
            # replay from scratch: the hash must not have been computed by the checks themselves
            go_from(hist + (op,))

    def go_from(hist):
        x = native(i)
        objs = [x]
        for op in hist:
            y = apply(op, x)
            if y is not x:
                objs.append(y)
            x = y
        check_alive(objs, ref, h, v, hist, i, False)
        # a value kept in the state (such as a text) is fine, a number that depends on the interpreter's seed is not
        before, after = _fields(native(i)), _fields(x)
        odd = sorted(str(k) for k in after if k not in before and any(abs(n) > 1 << 40 for n in ints_of(after[k], [])))
        if odd and not isinstance(x, Custom):
            raise Violation("after %s the serialized state has the hash-like fields %s" % (hist, odd), index=i, formula=describe(i))
        go(x, objs, hist)

    go_from(())


def _fields(x):
    s = state_of(x, 2)
    st = s[1] if isinstance(s, tuple) and len(s) > 1 else None
    return st if isinstance(st, dict) else {}


def work(chunk, part):
    for i, depth in chunk:
        explore(i, depth, part)
    part.sample({"object": describe(chunk[-1][0]), "operations": list(OPS), "depth": chunk[-1][1]})


# ---- across processes --------------------------------------------------------------------------------
CHILD = """
import sys, pickle
sys.path.insert(0, %r)
sys.setrecursionlimit(4000)
from mc.checks import c06
c06.child(sys.argv[1:])
"""


def child(args):
    """write FILE proto mode | check FILE OUT mode: runs in its own interpreter."""
    role, path, a, mode = args
    n = total()
    if role == "write":
        objs = [native(i) for i in range(n)]
        if mode in ("hashed", "registry"):
            for x in objs:
                hash(x)
        if mode == "registry":
            objs = [o for d in get_cache_context().values() for o in d]
        box = {"list": objs, "set": set(objs) if mode != "fresh" else None,
               "dict": {x: k for k, x in enumerate(objs)} if mode != "fresh" else None, "nested": [(x, frozenset([x])) for x in objs[:40]]}
        with open(path, "wb") as f:
            pickle.dump(box, f, int(a))
        return
    problems = []
    if mode == "native-first":
        twins = [native(i) for i in range(n)]
        for t in twins:
            hash(t)
    with open(path, "rb") as f:
        box = pickle.load(f)
    objs = box["list"]
    if mode != "native-first":
        twins = [native(i) for i in range(n)]
    if len(objs) == n and type(objs[-1]) is type(twins[-1]):
        pairs = list(zip(objs, twins))
    else:  # the registry: match by structure
        by = {}
        for t in twins:
            for s in _parts(t):
                by.setdefault(repr(view(s)), s)
        pairs = [(o, by[repr(view(o))]) for o in objs if repr(view(o)) in by]
    for i, (o, t) in enumerate(pairs):
        bad = None
        if view(o) != view(t):
            bad = "reads %r instead of %r" % (view(o), view(t))
        elif hash(o) != hash(t):
            bad = "hash differs from the natively built one"
        elif not (o == t and t == o) or o != t:
            bad = "is not equal to the natively built one"
        elif o not in {t} or t not in {o} or {t: 5}.get(o) != 5:
            bad = "set or dictionary membership fails"
        elif box["set"] is not None and t not in box["set"]:
            bad = "restored set does not contain the natively built one"
        elif box["dict"] is not None and (t not in box["dict"] or o not in box["dict"]):
            bad = "restored dictionary does not find the natively built one"
        if bad:
            problems.append("object %d %s: %s" % (i, view(t), bad))
    for o, fs in box["nested"]:
        if o not in fs:
            problems.append("restored frozenset lost its member %r" % (view(o),))
    with open(a, "wb") as f:
        pickle.dump(box if not problems else problems, f)
    print(len(pairs))
    print("\\n".join(problems[:3]))
    sys.stdout.flush()
    os._exit(1 if problems else 0)


def _parts(f):
    out = [f]
    for n in ("argument", "regular_expression", "tail_formula", "formula"):
        x = getattr(f, n, None)
        if isinstance(x, T.B.Formula):
            out += _parts(x)
    for x in getattr(f, "operands", ()) or ():
        if isinstance(x, T.B.Formula):
            out += _parts(x)
    return out


def spawn(args, seed):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    return subprocess.run([sys.executable, "-c", CHILD % here] + args, env=env, capture_output=True, text=True, timeout=300)


def cross(check):
    import tempfile

    seeds = check.pick((0, 1, 4242), (0, 1, 2, 3, 4242))
    protos = check.pick((0, 2, 5), (0, 1, 2, 3, 4, 5))
    with tempfile.TemporaryDirectory() as tmp:
        jobs = [(p, m) for p in protos for m in ("fresh", "hashed", "registry")]
        from concurrent.futures import ThreadPoolExecutor

        def one(job):
            p, m = job
            path = os.path.join(tmp, "%d%s.pickle" % (p, m))
            r = spawn(["write", path, str(p), m], seeds[1])
            if r.returncode:
                return [("writing with protocol %d (%s) failed: %s" % (p, m, r.stderr[-800:]), job)], 0
            res, n = [], 0
            for k, s in enumerate(seeds):
                out = path + ".%d" % s
                mode = "native-first" if k % 2 else "native-last"
                r = spawn(["check", path, out, mode], s)
                n += int(r.stdout.split("\n")[0] or 0) if r.stdout[:1].isdigit() else 0
                if r.returncode:
                    res.append(("restored in a process with hash seed %d: %s" % (s, (r.stdout + r.stderr)[-800:]), job))
                elif k < 2:  # a second hop: what was restored is serialized again and restored elsewhere
                    r = spawn(["check", out, out + "b", "native-last"], seeds[(k + 2) % len(seeds)])
                    n += int(r.stdout.split("\n")[0] or 0) if r.stdout[:1].isdigit() else 0
                    if r.returncode:
                        res.append(("restored after two hops: %s" % (r.stdout + r.stderr)[-800:], job))
            return res, n

        with ThreadPoolExecutor(8) as ex:
            for res, n in ex.map(one, jobs):
                check.traces += n
                check.transitions += n
                for what, job in res:
                    check.violation(what, protocol=job[0], mode=job[1])


def run(check):
    depth = check.pick(2, 3)
    n = total()
    small = len(POP.everything())
    items = [(i, depth if i < small or i >= len(everything()) else depth - 1) for i in range(n)]
    # the classes with their own state methods: one level deeper
    items += [(i, depth + 1) for i in range(n - len(customs()), n)]
    check.note("objects", n)
    check.note("depth", depth)
    check.run_parallel(work, chunked(items, 64))
    y = pickle.loads(pickle.dumps(Custom("z")))
    if getattr(y, "marked", None) is not True or y.junk is not None:
        check.violation("the class's own __getstate__ was not used")
    cross(check)
