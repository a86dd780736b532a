"""C22: broadcasting of pytree shapes follows the target tree."""
import collections
import itertools

from .. import trees as T

BOUNDS = ("every ordered pair of trees of up to 4 nodes over leaves, None, tuples, lists and dicts with every key set (2.5 - 5.9 "
          "million pairs); for every target of up to 5 (6) nodes, every source obtained from it by replacing subtrees by leaves, and "
          "every source that then differs in one node (kind, key, one child more or less, leaf against branch); dictionaries in "
          "both insertion orders; named tuples, ordered and default dictionaries, frozen and registered classes (also of the same name), keys of several types in all pairs; compiled "
          "and with array leaves; 71 deep, wide and full trees of up to 67 nodes with every subtree pruned and every one-node mutation")
ASSUMPTIONS = ["any exception counts as the refusal"]

SHARDS = 16


def tasks(tier):
    th = tier == "thorough"
    t = [dict(kind="pairs", n=4, none=th, shard=i, cost=8) for i in range(SHARDS)]
    t += [dict(kind="prune", n=6 if th else 5, shard=i, cost=8) for i in range(SHARDS)]
    t += [dict(kind="pairs", n=3, none=True, shard=i, cost=1) for i in range(2)]
    t += [dict(kind="big", shard=i, cost=6) for i in range(4)]
    t += [dict(kind="classes", cost=2), dict(kind="arrays", cost=4)]
    return t


def run(task, R):
    from src.jax_act.core import utils
    globals()["run_" + task["kind"]](task, R, utils)


def judge(R, utils, s, sv, t, tv, want=None):
    try:
        want = ("ok", T.ref_broadcast(s, sv, t))
    except T.No:
        want = ("no", None)
    try:
        got = ("ok", utils.broadcast_pytree_shape(sv, tv))
    except Exception as e:
        got = ("no", type(e).__name__)
    R.checks += 1
    if want[0] != got[0] or (want[0] == "ok" and not T.same(got[1], want[1], lambda a, b: a == b)):
        R.violation({"source": repr(sv), "target": repr(tv)}, "%r broadcast to %r gives %r, expected %r" % (sv, tv, got, want))
    return want[0]


def run_pairs(task, R, utils):
    all_ = T.upto(task["n"], task["none"])
    mine = [t for i, t in enumerate(all_) if i % (SHARDS if task["n"] == 4 else 2) == task["shard"]]
    tvs = [(t, T.build(t, lambda: 0)) for t in all_]
    ok = 0
    for s in mine:
        sv = T.numbered(s)
        for t, tv in tvs:
            ok += judge(R, utils, s, sv, t, tv) == "ok"
        R.state(s)
        R.trans(len(tvs))
        R.trace(len(tvs))
    R.note("accepted", ok)
    R.outcome(ok)
    R.sample({"trees": len(all_), "sources": len(mine)})


def prunings(t):
    """All trees obtained from t by replacing subtrees by leaves."""
    yield "L"
    if t == "L":
        return
    if t == "N" or not t[1]:
        yield t
        return
    for ch in itertools.product(*[tuple(prunings(c)) for c in T.children(t)]):
        if t[0] == "d":
            yield ("d", tuple((k, c) for (k, _), c in zip(t[1], ch)))
        else:
            yield (t[0], ch)


def mutants(t):
    """All trees that differ from t in one node."""
    if t == "L":
        yield from (("t", ()), ("l", ()), ("d", ()), ("t", ("L",)), ("l", ("L", "L")), ("d", (("a", "L"),)))
        return
    if t == "N":
        yield from (("t", ()), "L")
        return
    k, ch = t
    kids = T.children(t)
    for o in "tl":
        if o != k:
            yield (o, kids)
    if k == "d":
        for i, (kk, c) in enumerate(ch):
            yield ("d", ch[:i] + (("z", c),) + ch[i + 1:]) if kk == max(x for x, _ in ch) else ("d", ch[:i] + ch[i + 1:])
        yield ("d", ch + (("y", "L"),))
    else:
        if len(kids) <= 3:
            yield ("d", tuple(zip("abc", kids)))
        for i in range(len(kids)):
            yield (k, kids[:i] + kids[i + 1:])
        yield (k, kids + ("L",))
        yield (k, ("L",) + kids)
    for i, c in enumerate(kids):
        for m in mutants(c):
            if k == "d":
                yield ("d", ch[:i] + ((ch[i][0], m),) + ch[i + 1:])
            else:
                yield (k, kids[:i] + (m,) + kids[i + 1:])


def run_prune(task, R, utils):
    n = task["n"]
    last = T.exactly(n, False, T.KEYS if n == 5 else (("a",), ("a", "b"), ("b", "c"), ("a", "b", "c")))
    seen = 0
    for i, t in enumerate(last):
        if i % SHARDS != task["shard"]:
            continue
        if n == 6 and (i // SHARDS) % 3:
            srcs, muts = list(dict.fromkeys(prunings(t))), False
        else:
            srcs, muts = list(dict.fromkeys(prunings(t))), True
        tv = T.build(t, lambda: 0, rev=bool(i & 16))
        for j, s in enumerate(srcs):
            sv = T.numbered(s, rev=bool(j & 1))
            if judge(R, utils, s, sv, t, tv) != "ok":
                raise AssertionError("pruning refused by the reference")
            seen += 1
        if muts:
            # the full tree and the coarsest nontrivial one, with one node changed
            for s in {srcs[-1], srcs[1] if len(srcs) > 1 else srcs[-1]}:
                for m in mutants(s):
                    judge(R, utils, m, T.numbered(m), t, tv)
                    seen += 1
        R.add_states(1)
    R.trans(seen)
    R.trace(seen)
    R.outcome(seen)
    R.sample({"targets": len(last), "sources": seen})


def run_big(task, R, utils):
    """Deep and wide trees: every source with one subtree replaced by a leaf, every one-node mutation on either side."""
    for i, t in enumerate(T.big()):
        if i % 4 != task["shard"]:
            continue
        tv = T.build(t, lambda: 0, rev=bool(i & 8))
        for s in dict.fromkeys(list(T.pruned_once(t)) + [t]):
            if judge(R, utils, s, T.numbered(s), t, tv) != "ok":
                raise AssertionError("pruning refused by the reference")
            R.trans()
        for m in mutants(t):
            judge(R, utils, m, T.numbered(m), t, tv)
            judge(R, utils, t, T.numbered(t), m, T.build(m, lambda: 0))
            R.trans(2)
        R.state(t)
    R.trace(R.transitions)
    R.outcome(R.transitions)
    R.sample({"trees": len(T.big())})


def classes():
    """Constructors of nodes of two children, of many classes; equal only to themselves."""
    from flax.core import FrozenDict
    import jax
    P = collections.namedtuple("P", "x y")
    P2, P3 = collections.namedtuple("P", "x y"), collections.namedtuple("P", "u v")     # of the same name
    Q = collections.namedtuple("Q", "x y")
    OD, DD = collections.OrderedDict, collections.defaultdict

    def registered():
        @jax.tree_util.register_pytree_node_class
        class C:
            def __init__(self, a, b, aux):
                self.a, self.b, self.aux = a, b, aux

            def tree_flatten(self):
                return (self.a, self.b), self.aux

            @classmethod
            def tree_unflatten(cls, aux, ch):
                return cls(*ch, aux)

            def __eq__(self, o):
                return type(o) is type(self) and (self.a, self.b, self.aux) == (o.a, o.b, o.aux)

            def __repr__(self):
                return "C(%r, %r, %r)" % (self.a, self.b, self.aux)
        return C
    C, D = registered(), registered()

    class Key:
        """Keys of the same representation that are not equal."""
        def __init__(self, n):
            self.n = n

        def __lt__(self, o):
            return self.n < o.n

        def __repr__(self):
            return "key"
    k1, k2, k3 = Key(1), Key(2), Key(3)
    return {"P": P, "P2": P2, "P3": P3, "Q": Q, "OD": lambda a, b: OD(a=a, b=b), "OD2": lambda a, b: OD(b=a, a=b), "OD3": lambda a, b: OD(a=a, c=b),
            "DD": lambda a, b: DD(int, a=a, b=b), "DD2": lambda a, b: DD(float, a=a, b=b), "F": lambda a, b: FrozenDict(a=a, b=b),
            "F2": lambda a, b: FrozenDict(a=a, c=b), "C": lambda a, b: C(a, b, 1), "C2": lambda a, b: C(a, b, 2), "D": lambda a, b: D(a, b, 1), "t": lambda a, b: (a, b),
            "l": lambda a, b: [a, b], "d": lambda a, b: {"a": a, "b": b}, "d2": lambda a, b: {"a": a, "c": b}, "numbers": lambda a, b: {1: a, 2: b},
            "digits": lambda a, b: {"1": a, "2": b}, "tuples": lambda a, b: {(1, "a"): a, (1, "b"): b}, "keys": lambda a, b: {k1: a, k2: b}, "keys2": lambda a, b: {k1: a, k3: b}}


def run_classes(task, R, utils):
    """All pairs of nodes of other registered classes."""
    mk = classes()
    inner = [("L", lambda v: v), ("pair", lambda v: (v, v)), ("none", lambda v: None), ("list", lambda v: [v, [], (v,)])]
    for na, a in mk.items():
        for nb, b in mk.items():
            for (n1, f), (n2, g) in itertools.product(inner, repeat=2):
                src, tgt = a(1, 2), b(f(0), g(0))
                R.checks += 1
                R.trans()
                try:
                    got = utils.broadcast_pytree_shape(src, tgt)
                except Exception:
                    got = "refused"
                want = b(f(1), g(2)) if na == nb else "refused"
                if type(got) is not type(want) or got != want:
                    R.violation({"source": na, "target": nb, "children": [n1, n2]}, "%r broadcast to %r gives %r, expected %r" % (src, tgt, got, want))
                # a branch where the target has a leaf
                R.checks += 1
                try:
                    got = utils.broadcast_pytree_shape(b(f(0), g(0)), 5)
                except Exception:
                    got = "refused"
                if got != "refused":
                    R.violation({"source": nb, "target": "leaf"}, "broadcast of %r to a leaf gives %r" % (b(f(0), g(0)), got))
                # a leaf
                R.checks += 1
                got = utils.broadcast_pytree_shape(7, tgt)
                if got != b(f(7), g(7)):
                    R.violation({"source": "leaf", "target": nb}, "7 broadcast to %r gives %r" % (tgt, got))
                R.state((na, nb, n1, n2))
                R.outcome((na, nb))
    R.trace(R.transitions)
    R.sample({"classes": sorted(mk)})


def run_arrays(task, R, utils):
    """Array leaves of every kind, eagerly and compiled: the very values, shapes and dtypes."""
    import jax
    import numpy as np
    from jax import numpy as jnp
    mkl = [lambda i: jnp.asarray([i, i + 1], jnp.float32), lambda i: jnp.asarray(i, jnp.int32), lambda i: np.full((2, 3), i), lambda i: jnp.zeros((0,)),
           lambda i: jnp.asarray([[True], [bool(i % 2)]])]
    targets = [("t", ("L", ("l", ("L", "L")))), ("d", (("a", ("t", ("L", ("t", ())))), ("b", ("d", (("a", "L"), ("c", "L")))))), ("l", (("t", ("L", "L")), "L", ("d", (("a", "L"),)))), "L"]
    for t in targets:
        tv = T.build(t, lambda: jnp.ones((3,)))
        for s in dict.fromkeys(prunings(t)):
            i = itertools.count()
            sv = T.build(s, lambda: mkl[next(i) % 5](next(i)))
            want = T.ref_broadcast(s, sv, t)
            for how, f in (("eager", utils.broadcast_pytree_shape), ("jit", jax.jit(utils.broadcast_pytree_shape))):
                got = f(sv, tv)
                R.checks += 1
                eq = lambda a, b: jnp.asarray(a).shape == jnp.asarray(b).shape and jnp.asarray(a).dtype == jnp.asarray(b).dtype and np.array_equal(np.asarray(a), np.asarray(b))
                if not T.same(got, want, eq):
                    R.violation({"source": repr(sv), "target": repr(tv), "how": how}, "gives %r, expected %r" % (got, want))
                R.trans()
                R.trace()
            R.state((t, s))
            R.outcome(T.nleaves(s))
    R.sample({"targets": [repr(t) for t in targets]})
