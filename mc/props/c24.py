"""C24: merging and comparing pytrees."""
import itertools

from .. import trees as T

BOUNDS = ("merge: every ordered pair of trees of up to 4 nodes with equally many leaves, every pair of an equally large pair of trees of up "
          "to 5 (6) nodes of the same structure in both insertion orders, array leaves of several shapes and dtypes, compiled; comparison: "
          "every ordered pair of trees of up to 4 nodes, in both insertion orders, with leaves of 7 kinds, every one-node mutation of every "
          "tree of 5 nodes; equality of values: every subset of differing leaves, every ordered pair of 34 leaves of 11 types and several shapes; every ordered pair of 23 classes of nodes (same-named classes, dictionaries with keys of several types); 71 deep, wide and full trees of up to 67 nodes")
ASSUMPTIONS = ["None stands for a leaf in comparisons (the code compares trees after replacing leaves by None), so it is not among the trees",
               "the merging function is pure; how often it is called is not looked at"]
SHARDS = 8


def tasks(tier):
    th = tier == "thorough"
    t = [dict(kind="merge", n=4, shard=i, cost=6) for i in range(SHARDS)]
    t += [dict(kind="equal", n=4, few=not th, shard=i, cost=9) for i in range(SHARDS)]
    t += [dict(kind="deep", n=6 if th else 5, shard=i, cost=8) for i in range(SHARDS)]
    t += [dict(kind="big", shard=i, cost=6) for i in range(4)]
    t += [dict(kind="arrays", cost=5), dict(kind="leaves", cost=3), dict(kind="classes", cost=3), dict(kind="values", cost=8), dict(kind="large", cost=5), dict(kind="inside", cost=6)]
    return t


def run(task, R):
    from src.jax_act.core import utils
    globals()["run_" + task["kind"]](task, R, utils)


FEW = (("a",), ("b",), ("a", "b"), ("a", "b", "c"))


def ref_merge(f, t, pv, u, av):
    it = iter([f(x, y) for x, y in zip(T.leaves(pv, t), T.leaves(av, u))])
    return T.build(t, lambda: next(it))


def run_merge(task, R, utils):
    all_ = T.upto(task["n"], keys=(("a",), ("a", "b"), ("b", "c"), ("a", "b", "c")))
    by = {}
    for t in all_:
        by.setdefault(T.nleaves(t), []).append(t)
    f = lambda p, a: 1000 * p + a
    i = 0
    for n, group in sorted(by.items()):
        # only empty trees: nothing to merge
        part = group if n else group[:60]
        for t in part:
            i += 1
            if i % SHARDS != task["shard"]:
                continue
            for j, u in enumerate(part):
                pv, av = T.numbered(t, rev=bool(j & 1)), T.numbered(u, 101, rev=bool(j & 2))
                judge(R, utils, f, t, pv, u, av)
            R.state(t)
    R.trace(R.transitions)
    R.outcome(R.transitions)
    R.sample({"trees": len(all_), "pairs": R.transitions})


def judge(R, utils, f, t, pv, u, av):
    got = utils.merge_pytrees(f, pv, av)
    want = ref_merge(f, t, pv, u, av)
    R.checks += 1
    R.trans()
    if not T.same(got, want, lambda x, y: x == y):
        R.violation({"primary": repr(pv), "auxiliary": repr(av)}, "1000 * p + a gives %r, expected %r" % (got, want))


def run_equal(task, R, utils):
    all_ = T.upto(task["n"], keys=FEW if task["few"] else T.KEYS)
    vals = [(t, T.numbered(t, 7, rev=bool(i & 1))) for i, t in enumerate(all_)]
    eq = 0
    for i, t in enumerate(all_):
        if i % SHARDS != task["shard"]:
            continue
        v = T.numbered(t)
        for u, w in vals:
            got = utils.are_pytree_structure_equal(v, w)
            R.checks += 1
            if bool(got) != (t == u):
                R.violation({"one": repr(v), "two": repr(w)}, "reported %s" % got)
            eq += t == u
        R.trans(len(vals))
        R.state(t)
    R.trace(R.transitions)
    R.outcome(eq)
    R.sample({"trees": len(all_)})


def run_deep(task, R, utils):
    from .c22 import mutants
    last = T.exactly(task["n"], False, FEW)
    f = lambda p, a: 1000 * p + a
    for i, t in enumerate(last):
        if i % SHARDS != task["shard"]:
            continue
        v, w = T.numbered(t, rev=bool(i & 8)), T.numbered(t, 101, rev=bool(i & 16))
        judge(R, utils, f, t, v, t, w)
        R.checks += 1
        if not utils.are_pytree_structure_equal(v, w):
            R.violation({"one": repr(v), "two": repr(w)}, "the same structure is reported as different")
        if task["n"] == 5 or (i // SHARDS) % 4 == 0:
            for m in mutants(t):
                if m == t:
                    continue
                R.checks += 1
                R.trans()
                x = T.numbered(m)
                if utils.are_pytree_structure_equal(v, x) or utils.are_pytree_structure_equal(x, v):
                    R.violation({"one": repr(v), "two": repr(x)}, "different structures are reported as the same")
        R.add_states(1)
    R.trace(R.transitions)
    R.outcome(R.transitions)
    R.sample({"trees": len(last)})


def run_big(task, R, utils):
    """Deep and wide trees: merged, compared with all their one-node mutations; values that differ in one leaf."""
    from .c22 import mutants
    f = lambda p, a: 1000 * p + a
    for i, t in enumerate(T.big()):
        if i % 4 != task["shard"]:
            continue
        v, w = T.numbered(t, rev=bool(i & 8)), T.numbered(t, 2001, rev=bool(i & 16))
        judge(R, utils, f, t, v, t, w)
        R.checks += 1
        if not utils.are_pytree_structure_equal(v, w):
            R.violation({"one": repr(v), "two": repr(w)}, "the same structure is reported as different")
        for m in mutants(t):
            if m == t:
                continue
            R.checks += 1
            R.trans()
            x = T.numbered(m)
            if utils.are_pytree_structure_equal(v, x) or utils.are_pytree_structure_equal(x, v):
                R.violation({"one": repr(v), "two": repr(x)}, "different structures are reported as the same")
        n = T.nleaves(t)
        for k in range(n + 1):          # leaf k differs; n: none
            x = T.numbered(t)
            it = iter([j + 1 + 100 * (j == k) for j in range(n)])
            y = T.build(t, lambda: next(it))
            for exact in (True, False):
                R.checks += 1
                R.trans()
                if bool(utils.are_pytrees_equal(x, y, not exact)) != (k == n) or bool(utils.are_pytrees_equal(y, x, not exact)) != (k == n):
                    R.violation({"one": repr(x), "two": repr(y)}, "trees that differ in %s are reported as %s" % ("leaf %d" % k if k < n else "nothing", "equal" if k < n else "different"))
        R.state(t)
    R.trace(R.transitions)
    R.outcome(R.transitions)
    R.sample({"trees": len(T.big())})


def run_arrays(task, R, utils):
    """Array leaves of different shapes and dtypes; compiled; all insertion orders."""
    import numpy as np
    import jax
    from jax import numpy as jnp
    mk = [lambda k: jnp.asarray(k, jnp.float32), lambda k: jnp.asarray([k, -k], jnp.int32), lambda k: jnp.full((2, 2), k, jnp.float16), lambda k: jnp.zeros((0, 2))]
    f = lambda p, a: 3 * p - a.sum()
    ts = [t for t in T.upto(4, keys=(("a",), ("a", "b"))) if T.nleaves(t) == 2] + [t for t in T.upto(4, keys=FEW) if T.nleaves(t) == 3]
    jf = jax.jit(lambda p, a: utils.merge_pytrees(f, p, a))
    for i, t in enumerate(ts):
        u = ts[-1 - i] if T.nleaves(ts[-1 - i]) == T.nleaves(t) else t
        for o in range(4):
            c1, c2 = itertools.count(), itertools.count()
            pv = T.build(t, lambda: mk[(next(c1) + o) % 4](next(c1)))
            av = T.build(u, lambda: mk[(3 * next(c2) + o + 1) % 4](next(c2)))
            want = ref_merge(lambda p, a: np.asarray(f(p, a)), t, pv, u, av)
            for how in ("eager", "jit") if i % 8 == 0 else ("eager",):
                if how == "jit" and any(x.dtype == jnp.float16 for x in jax.tree_util.tree_leaves((pv, av))):
                    continue
                got = (jf if how == "jit" else lambda p, a: utils.merge_pytrees(f, p, a))(pv, av)
                R.checks += 1
                R.trans()
                eq = lambda x, y: np.asarray(x).shape == y.shape and np.asarray(x).dtype == y.dtype and np.allclose(np.asarray(x, np.float64), y.astype(np.float64))
                if not T.same(got, want, eq):
                    R.violation({"tree": repr(t), "aux": repr(u), "how": how}, "gives %r, expected %r" % (got, want))
        R.state((t, u))
        R.outcome(T.nleaves(t))
    # the keys of dictionaries in every insertion order
    for n in (2, 3, 4):
        keys = list("abcd"[:n])
        for o1 in itertools.permutations(keys):
            for o2 in itertools.permutations(keys):
                p, a = {k: 10 + keys.index(k) for k in o1}, {k: 100 * (1 + keys.index(k)) for k in o2}
                got = utils.merge_pytrees(lambda x, y: (x, y)[0] * 10000 + y, p, a)
                want = {k: p[k] * 10000 + a[k] for k in keys}
                R.checks += 2
                R.trans()
                if got != want:
                    R.violation({"primary": repr(p), "aux": repr(a)}, "gives %r" % (got,))
                if not utils.are_pytree_structure_equal(p, a):
                    R.violation({"one": repr(p), "two": repr(a)}, "insertion order made structures differ")
                # a tuple is merged with the dictionary by depth first order, that is by sorted keys
                got = utils.merge_pytrees(lambda x, y: x * 10000 + y, tuple(range(n)), a)
                if got != tuple(k * 10000 + 100 * (1 + k) for k in range(n)):
                    R.violation({"primary": "tuple", "aux": repr(a)}, "gives %r" % (got,))
    # the operands are not changed
    p, a = {"x": [1, 2], "y": 3}, {"x": [4, 5], "y": 6}
    utils.merge_pytrees(lambda x, y: x + y, p, a)
    R.check((p, a) == ({"x": [1, 2], "y": 3}, {"x": [4, 5], "y": 6}), {"mutation": True}, "the operands were changed")
    R.trace(R.transitions)
    R.sample({"trees": len(ts)})


def run_leaves(task, R, utils):
    """The contents of leaves do not matter to structure."""
    import numpy as np
    from jax import numpy as jnp
    kinds = [0, 1.5, "x", jnp.ones((2,)), jnp.zeros((), jnp.int32), np.ones((3, 0)), True, jnp.full((2, 2), jnp.nan)]
    ts = T.upto(3, keys=(("a",), ("b",), ("a", "b")))
    for t in ts:
        for u in ts:
            for k1, k2 in itertools.product(range(len(kinds)), repeat=2):
                if t != u and (k1 + k2) % 3:
                    continue
                i, j = itertools.count(k1), itertools.count(k2)
                a, b = T.build(t, lambda: kinds[next(i) % 8]), T.build(u, lambda: kinds[next(j) % 8])
                got = utils.are_pytree_structure_equal(a, b)
                R.checks += 1
                R.trans()
                if bool(got) != (t == u):
                    R.violation({"one": repr(a), "two": repr(b)}, "reported %s" % got)
        R.state(t)
    R.trace(R.transitions)
    R.outcome(R.transitions)
    R.sample({"trees": len(ts), "leaves": [repr(k) for k in kinds]})


def run_classes(task, R, utils):
    """All pairs of nodes of other classes, alone, in a tree, and around one."""
    import jax
    from .c22 import classes
    mk = classes()
    wraps = [lambda f, a, b: f(a, b), lambda f, a, b: [f(a, (b,)), 3], lambda f, a, b: {"q": (f([], f(a, b)), 4)}, lambda f, a, b: f({"x": a}, [b, b])]
    open_ = ({"OD", "OD2"}, {"DD", "DD2"}, {"C", "C2"})       # the same kind and keys, but for order or further data: not settled
    for na, f in mk.items():
        for nb, g in mk.items():
            for w in wraps:
                one, two = w(f, 1, 2), w(g, 7, 8)
                case = {"one": repr(one), "two": repr(two), "kinds": [na, nb]}
                R.trans()
                R.state((na, nb))
                if {na, nb} not in open_:
                    got = utils.are_pytree_structure_equal(one, two)
                    R.check(bool(got) == (na == nb), case, "structures reported equal: %s" % got)
                got = utils.merge_pytrees(lambda p, a: 100 * p + a, one, two)
                ls = jax.tree_util.tree_leaves
                want = w(f, 1, 2)
                R.check(jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(want) and type(got) is type(want), case, "merged into %r" % (got,))
                R.check(ls(got) == [100 * p + a for p, a in zip(ls(one), ls(two))], case, "merged into %r" % (got,))
                if na == nb:
                    R.check(bool(utils.are_pytrees_equal(one, w(g, 1, 2))) and not utils.are_pytrees_equal(one, two), case, "equality of values")
    R.trace(R.transitions)
    R.outcome(R.transitions)
    R.sample({"classes": sorted(mk)})


def run_values(task, R, utils):
    """are_pytrees_equal: true exactly when no leaf differs."""
    import numpy as np
    from jax import numpy as jnp
    variants = [  # leaf, the same value, a close one or None, different ones
        (lambda: jnp.asarray([1.0, -2.0]), lambda: jnp.asarray([1.0, -2.0 + 1e-6]), [lambda: jnp.asarray([1.0, 2.0]), lambda: jnp.asarray([1.5, -2.0])]),
        (lambda: np.asarray([[3, 4]]), None, [lambda: np.asarray([[3, 5]]), lambda: np.asarray([[4, 3]])]),
        (lambda: 5, None, [lambda: 6, lambda: "5"]),
        (lambda: "s", None, [lambda: "t"]),
        (lambda: jnp.asarray(True), None, [lambda: jnp.asarray(False)])]
    ts = [t for t in T.upto(4, keys=(("a",), ("a", "b"))) if T.nleaves(t) <= 3 and T.depth(t) <= 2][::3] + [("d", (("a", ("l", ("L", "L"))), ("b", ("t", ("L", "L")))))]
    # every ordered pair of leaves of all kinds, alone and in a tree
    leaves = [1, True, 1.0, 0, False, 0.0, "1", "", 1j, b"1", np.int64(1), np.float32(1), np.float64(1), np.bool_(True)]
    arrays = [f(x) for f in (jnp.asarray, np.asarray) for x in (np.ones((), np.float32), np.ones(1, np.float32), np.ones(2, np.float32), np.ones(3, np.float32),
                                                               np.ones((1, 2), np.float32), np.ones((2, 1), np.float32), np.zeros(2, np.float32),
                                                               np.zeros((0,), np.float32), np.zeros((0, 2), np.float32), np.array([1, 0], np.float32))]
    pairs = []
    for one in leaves + arrays:
        for two in leaves + arrays:
            if type(one) is not type(two):
                want = False
            elif any(one is x for x in arrays):
                want = one.shape == two.shape and bool((np.asarray(one) == np.asarray(two)).all())
            else:
                want = bool(one == two)
            pairs.append((one, two, (want, want)))
    # close ones, also around zero, and far ones
    for f in (jnp.asarray, np.asarray):
        for x, y, near in ((0.0, 1e-9, True), (0.0, -1e-9, True), (1e-9, 5e-9, True), (1.0, 1 + 2e-6, True), (1e6, 1e6 + 1, True), (0.0, 1e-4, False), (1.0, 1.001, False),
                           (1e-3, 1.1e-3, False), (-1.0, 1.0, False), (1e6, 1.01e6, False), (float("inf"), 1.0, False), (float("inf"), -float("inf"), False), (float("nan"), float("nan"), False), (float("nan"), 1.0, False), (float("inf"), float("nan"), False)):
            for shape in ((), (1,), (2,), (2, 2)):
                one, two = np.full(shape, 3.0, np.float32), np.full(shape, 3.0, np.float32)
                one.reshape(-1)[-1], two.reshape(-1)[-1] = x, y
                for a, b in ((one, two), (two, one)):
                    pairs.append((f(a), f(b), (near, False)))
    for one, two, wants in pairs:
        for allclose in (True, False):
            for wrap in (lambda x: x, lambda x: {"b": [x], "a": (3, {"c": "s"})}, lambda x: (x, x, 5)):
                got = utils.are_pytrees_equal(wrap(one), wrap(two), allclose)
                R.checks += 1
                R.trans()
                want = wants[not allclose]
                if bool(got) != want:
                    R.violation({"one": repr(wrap(one)), "two": repr(wrap(two)), "allclose": allclose}, "reported %s, expected %s" % (got, want))
    for ti, t in enumerate(ts):
        n = T.nleaves(t)
        for subset in itertools.product((0, 1, 2, 3), repeat=n):
            for allclose in (True, False):
                i = itertools.count(ti)
                a = T.build(t, lambda: variants[next(i) % 5][0]())
                j, k = itertools.count(ti), iter(subset)
                close = False

                def other():
                    v, s = variants[next(j) % 5], next(k)
                    nonlocal close
                    if s == 1 and v[1] is not None:
                        close = True
                        return v[1]()
                    return v[0]() if s < 2 else v[2][(s - 2) % len(v[2])]()
                b = T.build(t, other)
                want = not any(s >= 2 for s in subset) and (allclose or not close)
                got = utils.are_pytrees_equal(a, b, allclose) if not allclose or ti % 2 else utils.are_pytrees_equal(a, b)
                R.checks += 1
                R.trans()
                if bool(got) != want:
                    R.violation({"one": repr(a), "two": repr(b), "allclose": allclose}, "reported %s, expected %s" % (got, want))
        R.state(t)
        R.outcome(n)
    R.trace(R.transitions)
    R.sample({"trees": len(ts)})


def run_large(task, R, utils):
    """Leaves of more than a thousand elements that differ in one, wherever it is."""
    import numpy as np
    from jax import numpy as jnp
    for shape in ((1100,), (34, 33), (3, 19, 20)):
        one = np.arange(int(np.prod(shape)), dtype=np.float32).reshape(shape) % 7
        for f in (np.asarray, jnp.asarray):
            a = f(one)
            for k in range(one.size + 1):          # the last: none
                two = one.copy()
                if k < one.size:
                    two.reshape(-1)[k] += 1
                b = f(two)
                for x, y, allclose in (([a, 1], [b, 1], True), ({"k": b}, {"k": a}, False)):
                    R.checks += 1
                    R.trans()
                    if bool(utils.are_pytrees_equal(x, y, allclose)) != (k == one.size):
                        R.violation({"shape": shape, "element": k, "allclose": allclose, "type": type(a).__name__},
                                    "arrays that differ in %s are reported %s" % (k if k < one.size else "nothing", "equal" if k < one.size else "different"))
                R.state((shape, k))
            a2, b2 = f(one), f(-one)
            got = utils.merge_pytrees(lambda p, q: 2 * p + q, (a2, [b2]), {"x": b2, "y": a2})
            R.check(np.array_equal(np.asarray(got[0]), one) and np.array_equal(np.asarray(got[1][0]), -one), {"shape": shape}, "merging large leaves gives something else")
        R.trace(one.size)
        R.outcome(shape)
    R.sample({"shapes": 3})


def run_inside(task, R, utils):
    """Merging functions that merge, compare and fail to merge other trees before they return; and the merges after that."""
    ts = [t for t in T.upto(4, keys=(("a",), ("a", "b"))) if T.nleaves(t) and T.depth(t) <= 2]
    by = {}
    for t in ts:
        by.setdefault(T.nleaves(t), []).append(t)
    f = lambda p, a: 1000 * p + a

    def failing(p, a):
        raise ZeroDivisionError()
    for t, u in itertools.product(ts, repeat=2):
        pv, uv = T.numbered(t), T.numbered(u, 101)
        inner = ref_merge(f, u, T.numbered(u, 7), u, uv)

        def g(p, a):
            if utils.merge_pytrees(f, T.numbered(u, 7), uv) != inner:
                raise RuntimeError("inside")
            return 1000 * p + a

        def h(p, a):
            for bad, x, y in ((failing, uv, uv), (f, uv, [uv, 1])):
                try:
                    utils.merge_pytrees(bad, x, y)
                except Exception:
                    pass
            if utils.are_pytree_structure_equal(pv, uv) != (t == u) or not utils.are_pytrees_equal(uv, uv):
                raise RuntimeError("inside")
            return 1000 * p + a

        # raising in the middle, merging afterwards
        calls = []

        def late(p, a):
            calls.append(p)
            if len(calls) == T.nleaves(t):
                raise ZeroDivisionError()
            return 0
        try:
            utils.merge_pytrees(late, pv, pv)
        except ZeroDivisionError:
            pass
        for k in (g, h, f):
            judge(R, utils, k, t, pv, t, T.numbered(t, 201))
        R.state((t, u))
    R.trace(R.transitions)
    R.outcome(len(ts))
    R.sample({"trees": len(ts)})
