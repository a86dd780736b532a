"""C23: binary operators over pytrees."""
import itertools

from .. import trees as T

BOUNDS = ("every ordered pair of trees of up to 4 nodes (2 - 5 key sets) with a non-commutative operator; every target of 5 (6) nodes "
          "with every source that broadcasts to it, in both operand orders; every ordered pair of leaf shapes up to rank 3 over the "
          "dimensions 1-3 (thorough: rank 4 over 1-2, rank 3 over 0-3), alone and as leaves of trees with mixed ranks; operators that "
          "raise on the k-th of up to 4 pairs; operators that return anything; 5 dtypes; compiled; 71 deep, wide and full trees of up to 67 nodes, also with leaves and results of 7 dtypes and 6 shapes; operators that apply operators, in vain too")
ASSUMPTIONS = ["the operator is defined on arrays; which exception class other than RuntimeError is raised is not looked at: the documented class is RuntimeError"]
SHARDS = 8


def tasks(tier):
    th = tier == "thorough"
    t = [dict(kind="pairs", n=4, few=not th, shard=i, cost=9) for i in range(SHARDS)]
    t += [dict(kind="both", n=6 if th else 5, shard=i, cost=6) for i in range(SHARDS)]
    for i in range(SHARDS):
        t.append(dict(kind="shapes", dims=[1, 2, 3], rank=3, shard=i, cost=6))
        if th:
            t.append(dict(kind="shapes", dims=[1, 2], rank=4, shard=i, cost=6))
            t.append(dict(kind="shapes", dims=[0, 2, 3], rank=3, shard=i, cost=6))
    t += [dict(kind="big", shard=i, cost=6) for i in range(4)]
    t += [dict(kind="mixed", cost=8), dict(kind="raising", cost=4), dict(kind="jit", cost=6), dict(kind="inside", cost=6), dict(kind="kinds", cost=8)]
    return t


def run(task, R):
    from src.jax_act.core import utils
    globals()["run_" + task["kind"]](task, R, utils)


def ref_tree(a, av, b, bv):
    """Pairs of corresponding leaves as a tree, or No."""
    try:
        x, y, t = T.ref_broadcast(a, av, b), bv, b
    except T.No:
        x, y, t = av, T.ref_broadcast(b, bv, a), a
    it = iter(zip(T.leaves(x, t), T.leaves(y, t)))
    return T.build(t, lambda: next(it))


def attempt(f):
    try:
        return "ok", f()
    except Exception as e:
        return "no", e


def judge(R, utils, np, a, av, b, bv, k=""):
    """av, bv: trees of ints; the code gets one-element arrays."""
    try:
        want = ("ok", ref_tree(a, av, b, bv))
    except T.No:
        want = ("no", None)
    arr = lambda t, v: T.build(t, lambda it=iter(T.leaves(v, t)): np.asarray([float(next(it))]))
    got = attempt(lambda: utils.execute_binary_operator(lambda x, y: 1000 * x + y, arr(a, av), arr(b, bv), "context"))
    R.checks += 1
    R.trans()
    if want[0] == "ok":
        def mapped(v):
            if isinstance(v, dict):
                return {k: mapped(x) for k, x in v.items()}
            if isinstance(v, list):
                return [mapped(x) for x in v]
            if isinstance(v, tuple) and not (len(v) == 2 and all(isinstance(x, int) for x in v)):
                return tuple(mapped(x) for x in v)
            return v if v is None else np.asarray([1000.0 * v[0] + v[1]])
        good = got[0] == "ok" and T.same(got[1], mapped(want[1]), lambda x, y: np.asarray(x).shape == y.shape and bool((np.asarray(x) == y).all()))
    else:
        good = got[0] == "no" and isinstance(got[1], RuntimeError)
    if not good:
        R.violation({"a": repr(av), "b": repr(bv)}, "1000 * a + b on a = %r, b = %r gives %r, expected %r of leaf pairs" % (av, bv, got[1], want))
    return want[0]


def run_pairs(task, R, utils):
    import numpy as np
    all_ = T.upto(task["n"], keys=(("a",), ("a", "b")) if task["few"] else (("a",), ("b",), ("a", "b"), ("a", "c"), ("a", "b", "c")))
    ok = 0
    for i, a in enumerate(all_):
        if i % SHARDS != task["shard"]:
            continue
        av = T.numbered(a)
        for b in all_:
            ok += judge(R, utils, np, a, av, b, T.numbered(b, 101)) == "ok"
        R.state(a)
    R.trace(R.transitions)
    R.outcome(ok)
    R.note("accepted", ok)
    R.sample({"trees": len(all_), "accepted": ok})


def run_both(task, R, utils):
    import numpy as np
    from .c22 import prunings
    last = T.exactly(task["n"], False, (("a",), ("a", "b"), ("b", "c"), ("a", "b", "c")))
    for i, t in enumerate(last):
        if i % SHARDS != task["shard"]:
            continue
        for j, s in enumerate(dict.fromkeys(prunings(t))):
            sv, tv = T.numbered(s, rev=bool(j & 1)), T.numbered(t, 101, rev=bool(i & 1))
            judge(R, utils, np, s, sv, t, tv)
            judge(R, utils, np, t, tv, s, sv)
        R.state(t)
    R.trace(R.transitions)
    R.outcome(R.transitions)
    R.sample({"targets": len(last)})


def run_big(task, R, utils):
    import numpy as np
    from .c22 import mutants
    for i, t in enumerate(T.big()):
        if i % 4 != task["shard"]:
            continue
        tv = T.numbered(t, 1001, rev=bool(i & 8))
        for s in dict.fromkeys(list(T.pruned_once(t)) + [t]):
            sv = T.numbered(s)
            judge(R, utils, np, s, sv, t, tv)
            judge(R, utils, np, t, tv, s, sv)
        for j, m in enumerate(mutants(t)):
            if j % 3 == i % 3:
                judge(R, utils, np, m, T.numbered(m), t, tv)
        R.state(t)
    R.trace(R.transitions)
    R.outcome(R.transitions)
    R.sample({"trees": len(T.big())})


def run_kinds(task, R, utils):
    """Large trees whose leaves, and whose results, are all of different shapes and dtypes."""
    import numpy as np
    from jax import numpy as jnp
    dts = (jnp.float32, jnp.int32, jnp.bool_, jnp.float16, jnp.complex64, jnp.uint8, jnp.bfloat16)
    shs = ((), (2,), (1, 3), (2, 1, 1), (0,), (3, 2))
    ops = (("first", lambda x, y: x), ("second", lambda x, y: y), ("first as it was", lambda x, y: jnp.asarray(x).astype(x.dtype)), ("shape", lambda x, y: jnp.zeros(x.shape + (1,), y.dtype)),
           ("sum", lambda x, y: 2 * x.astype(jnp.complex64) + y))
    eq = lambda x, y: x.dtype == y.dtype and x.shape == y.shape and np.array_equal(np.asarray(x.astype(jnp.complex64)), np.asarray(y.astype(jnp.complex64)))
    for i, t in enumerate(T.big() + [("t", ("L",) * 70), ("l", (("d", (("a", ("t", ("L",) * 40)), ("b", "L"))), ("l", ("L",) * 30)))]):
        if not T.nleaves(t):
            continue
        mk = lambda n, m: T.build(t, lambda it=itertools.count(i): jnp.full(shs[(k := next(it)) % len(shs)], k % 5 + n, dts[k % m]))
        for m in (1, 2, 7):
            a, b, one = mk(1, m), mk(2, 7 - m % 7), jnp.ones((), jnp.int32)
            for name, op in ops:
                for x, y, what in ((a, b, "both"), (one, b, "left a leaf"), (a, one, "right a leaf")):
                    # how a scalar is aligned shows in operators that do not broadcast; it is left open
                    if not (what == "both" or name == "sum" or name == {"left a leaf": "second", "right a leaf": "first"}[what]):
                        continue
                    flat = lambda z: T.leaves(z, t) if z is not one else [one] * T.nleaves(t)
                    want = [op(p, q) for p, q in zip(flat(x), flat(y))]
                    want = T.build(t, lambda it=iter(want): next(it))
                    got = attempt(lambda: utils.execute_binary_operator(op, x, y, "context"))
                    R.checks += 1
                    R.trans()
                    if got[0] != "ok" or not T.same(got[1], want, eq):
                        R.violation({"tree": repr(t), "operator": name, "operands": what, "dtypes": m}, "gives %s instead of %s" % (str(got[1])[:300], str(want)[:300]))
        R.state(t)
    R.trace(R.transitions)
    R.outcome(R.transitions)
    R.sample({"trees": len(T.big()) + 2})


def shapes(dims, rank):
    return [s for r in range(rank + 1) for s in itertools.product(dims, repeat=r)]


def ref_align(np, x, y):
    """Left alignment: trailing unit dimensions on the one of lower rank."""
    n = max(x.ndim, y.ndim)
    return [v.reshape(v.shape + (1,) * (n - v.ndim)) for v in (x, y)]


def op_table(jnp):
    return [("sub", lambda a, b: a - b), ("mix", lambda a, b: 2 * a + jnp.multiply(a, b) - 3 * b), ("where", lambda a, b: jnp.where(a > b, a, -b))]


def run_shapes(task, R, utils):
    import numpy as np
    from jax import numpy as jnp
    sh = shapes(task["dims"], task["rank"])
    mk = lambda s, salt: ((np.arange(int(np.prod(s, dtype=int))) * 7 + salt) % 11 - 4).astype(np.float32).reshape(s)
    op = lambda a, b: 2 * a + a * b - 3 * b
    for i, s1 in enumerate(sh):
        if i % SHARDS != task["shard"]:
            continue
        x = mk(s1, 3)
        xj = jnp.asarray(x) if i % 2 else x
        for j, s2 in enumerate(sh):
            y = mk(s2, 8)
            try:
                want = ("ok", op(*ref_align(np, x, y)))
            except ValueError:
                want = ("no", None)
            # numpy leaves in bulk, jax leaves for a part of them
            a, b = (xj, jnp.asarray(y)) if (i + 3 * j) % 16 == 0 else (x, y)
            tree = (i + j) % 3
            f = {0: lambda: utils.execute_binary_operator(op, a, b, "c"), 1: lambda: utils.execute_binary_operator(op, a, [b], "c")[0],
                 2: lambda: utils.execute_binary_operator(op, {"k": (a,)}, {"k": b}, "c")["k"][0]}[tree]
            got = attempt(f)
            R.checks += 1
            R.trans()
            if want[0] == "ok":
                g = np.asarray(got[1]) if got[0] == "ok" else None
                # scalars may stay scalars: the shape is the broadcast one in any case
                good = g is not None and g.shape == want[1].shape and np.array_equal(g, want[1])
            else:
                good = got[0] == "no" and isinstance(got[1], RuntimeError)
            if not good:
                R.violation({"shapes": [s1, s2]}, "operator on shapes %s and %s gives %r, expected %r" % (s1, s2, got[1], want))
        R.state(s1)
        R.outcome(s1)
    R.trace(R.transitions)
    R.sample({"shapes": len(sh)})


def run_mixed(task, R, utils):
    """Trees whose leaves need different alignments, and trees broadcast to trees of higher rank."""
    import numpy as np
    from jax import numpy as jnp
    mk = lambda s, salt, dt=np.float32: ((np.arange(int(np.prod(s, dtype=int))) * 5 + salt) % 13 - 6).astype(dt).reshape(s)
    sel = [(), (2,), (2, 2), (2, 1, 2)]
    trees = [("t", ("L", "L")), ("d", (("a", "L"), ("b", ("l", ("L",))))), ("l", ("L", ("t", ("L",)), ("t", ())))]
    for t in trees:
        n = T.nleaves(t)
        for sa in itertools.product(sel, repeat=n):
            for sb in itertools.product(sel, repeat=n):
                it = iter(range(n))
                av = T.build(t, lambda: mk(sa[next(it)], 1))
                it2 = iter(range(n))
                bv = T.build(t, lambda: mk(sb[next(it2)], 4))
                pairs = iter([a - 2 * b for a, b in (ref_align(np, x, y) for x, y in zip(T.leaves(av, t), T.leaves(bv, t)))])
                want = T.build(t, lambda: next(pairs))
                check(R, np, attempt(lambda: utils.execute_binary_operator(lambda a, b: a - 2 * b, av, bv, "c")), want, {"tree": repr(t), "a": sa, "b": sb})
        # one leaf of each shape against the tree, both orders
        for s in sel:
            for sb in itertools.product(sel, repeat=n):
                it2 = iter(range(n))
                bv = T.build(t, lambda: jnp.asarray(mk(sb[next(it2)], 4)))
                x = jnp.asarray(mk(s, 1))
                for order in (0, 1):
                    f = (lambda: utils.execute_binary_operator(lambda a, b: a - 2 * b, x, bv, "c")) if order == 0 else (lambda: utils.execute_binary_operator(lambda a, b: a - 2 * b, bv, x, "c"))
                    res = []
                    for l in T.leaves(bv, t):
                        a, b = ref_align(np, np.asarray(x), np.asarray(l))
                        res.append(a - 2 * b if order == 0 else b - 2 * a)
                    it3 = iter(res)
                    check(R, np, attempt(f), T.build(t, lambda: next(it3)), {"tree": repr(t), "leaf": s, "others": sb, "order": order})
        R.state(t)
    # dtypes: the operator sees the leaves in their own dtype
    for d1, d2 in itertools.product((np.float32, np.int32, np.bool_, np.float16, np.uint8, jnp.bfloat16), repeat=2):
        for s1, s2 in itertools.product(((), (2,), (2, 3), (1,), (2, 1, 1)), repeat=2):
            for as_jax in (False, True):
                seen = []
                a, b = np.ones(s1).astype(d1), np.zeros(s2).astype(d2)
                if as_jax:
                    a, b = jnp.asarray(a), jnp.asarray(b)

                def op(x, y):
                    seen.append((np.dtype(x.dtype), np.dtype(y.dtype)))
                    return x
                utils.execute_binary_operator(op, a, {"q": b}, "c")
                utils.execute_binary_operator(op, {"q": b}, a, "c")
                R.checks += 1
                R.trans(2)
                if seen != [(np.dtype(d1), np.dtype(d2)), (np.dtype(d2), np.dtype(d1))]:
                    R.violation({"dtypes": [str(d1), str(d2)], "shapes": [s1, s2]}, "the operator saw %s" % seen)
    # what the operator returns is what stands in the tree, whatever it is
    class Thing:
        pass
    makes = [Thing, lambda: 1.5, lambda: 3, lambda: "text", lambda: np.float32(2), lambda: np.arange(3), lambda: jnp.ones(2), lambda: (1, 2), lambda: [], lambda: {"r": 1}, lambda: True, lambda: Thing]
    for t in trees + ["L", ("t", (("l", ("L",)), "L", ("d", (("k", "L"),))))]:
        n = T.nleaves(t)
        for mk_ in makes:
            for order in (0, 1):
                for whole in (True, False):
                    made = []

                    def op(x, y):
                        made.append(mk_())
                        return made[-1]
                    i1 = iter(range(n))
                    tree = T.build(t, lambda: np.ones(next(i1) + 1))
                    i2 = iter(range(n))
                    other = np.ones(()) if whole else T.build(t, lambda: np.zeros((next(i2) + 1, 1)))
                    got = attempt(lambda: utils.execute_binary_operator(op, *((tree, other) if order else (other, tree)), "c"))
                    R.checks += 1
                    R.trans()
                    if got[0] != "ok" or len(made) != n:
                        R.violation({"tree": repr(t), "returns": repr(mk_())}, "gives %r" % (got[1],))
                        continue
                    it = iter(made)
                    if not placed(got[1], t, it):
                        R.violation({"tree": repr(t), "returns": repr(mk_())}, "gives %r, but the operator returned %r" % (got[1], made))
    R.trace(R.transitions)
    R.outcome(R.transitions)
    R.sample({"trees": [repr(t) for t in trees]})


def placed(v, t, it):
    """The results stand at the leaves of the tree, as they are."""
    if t == "L":
        return v is next(it)
    if t[0] == "d":
        return isinstance(v, dict) and set(v) == {k for k, _ in t[1]} and all(placed(v[k], x, it) for k, x in sorted(t[1]))
    return type(v) is {"t": tuple, "l": list}[t[0]] and len(v) == len(t[1]) and all(placed(x, y, it) for x, y in zip(v, t[1]))


def check(R, np, got, want, case):
    R.checks += 1
    R.trans()
    if got[0] != "ok" or not T.same(got[1], want, lambda x, y: np.asarray(x).shape == y.shape and np.array_equal(np.asarray(x), y)):
        R.violation(case, "gives %r, expected %r" % (got[1], want))


def run_raising(task, R, utils):
    """The operator fails on a subset of the pairs: RuntimeError exactly when it is not empty."""
    import numpy as np
    trees = [("t", ("L",) * 4), ("d", (("a", ("l", ("L", "L"))), ("b", "L"), ("c", ("t", ("L",))))), "L", ("l", (("t", ("L", "L")), "L"))]
    for t in trees:
        n = T.nleaves(t)
        for r in range(n + 1):
            for bad in itertools.combinations(range(n), r):
                for exc in (ValueError, TypeError, RuntimeError, KeyError, ZeroDivisionError, StopIteration, AssertionError):
                    arr = lambda base: T.build(t, lambda it=iter(range(n)): np.asarray([float(base + next(it))]))
                    a, b = arr(0), arr(50)

                    def op(x, y):
                        if int(x[0]) in bad:
                            raise exc("on purpose")
                        return x - y
                    got = attempt(lambda: utils.execute_binary_operator(op, a, b, "context"))
                    R.checks += 1
                    R.trans()
                    R.trace()
                    good = got[0] == "ok" if not bad else got[0] == "no" and isinstance(got[1], RuntimeError)
                    if not good:
                        R.violation({"tree": repr(t), "bad": bad, "exc": exc.__name__}, "gives %r" % (got[1],))
                    R.state((repr(t), bad))
                    R.outcome((len(bad), exc.__name__))
        # operators of the wrong arity
        for op in (lambda x: x, lambda: 1, lambda x, y, z: x):
            got = attempt(lambda: utils.execute_binary_operator(op, np.ones(2), np.ones(2), "c"))
            R.checks += 1
            if got[0] == "ok" or not isinstance(got[1], RuntimeError):
                R.violation({"arity": True}, "gives %r" % (got[1],))
    # the operands are not changed
    a = {"x": [np.ones(2)], "y": np.zeros((2, 2))}
    b = {"x": np.full((2, 3), 5.0), "y": np.full(2, 7.0)}
    utils.execute_binary_operator(lambda x, y: x + y, a, b, "c")
    R.check(list(a) == ["x", "y"] and len(a["x"]) == 1 and a["x"][0].shape == (2,) and a["y"].shape == (2, 2) and b["y"].shape == (2,)
            and (b["x"] == 5).all() and (a["x"][0] == 1).all(), {"mutation": True}, "the operands were changed")
    R.sample({"trees": [repr(t) for t in trees]})


def run_jit(task, R, utils):
    import numpy as np
    import jax
    from jax import numpy as jnp
    t = ("d", (("a", ("t", ("L", "L"))), ("b", ("l", ("L",)))))
    from .c22 import prunings
    mk = lambda s, salt: ((np.arange(int(np.prod(s, dtype=int))) * 5 + salt) % 13 - 6).astype(np.float32).reshape(s)
    for name, op in op_table(jnp):
        for s in dict.fromkeys(prunings(t)):
            for sa, sb in itertools.product([(), (2,), (2, 3)], [(2,), (2, 3), (2, 1, 2)]):
                if len(sa) == 2 and len(sb) == 3 and sa[1] != 1 and sb[1] != 1 and sa[1] != sb[1]:
                    continue
                i1, i2 = itertools.count(1), itertools.count(5)
                av, bv = T.build(s, lambda: mk(sa, next(i1))), T.build(t, lambda: mk(sb, next(i2)))
                for order in (0, 1):
                    x, y = (av, bv) if order == 0 else (bv, av)
                    ex = T.ref_broadcast(s, av, t)
                    res = []
                    for l, m in zip(T.leaves(ex, t), T.leaves(bv, t)):
                        p, q = ref_align(np, l, m)
                        res.append(np.asarray(op(p, q) if order == 0 else op(q, p)))
                    it = iter(res)
                    want = T.build(t, lambda: next(it))
                    got = attempt(lambda: jax.jit(lambda u, v: utils.execute_binary_operator(op, u, v, "c"))(x, y))
                    check(R, np, got, want, {"op": name, "tree": repr(s), "shapes": [sa, sb], "order": order})
                    R.trace()
            R.state((name, s))
        R.outcome(name)
    R.sample({"operators": [n for n, _ in op_table(jnp)]})


def run_inside(task, R, utils):
    """Operators that apply operators to other trees, also in vain, before they return; and the operators applied after one raised."""
    import numpy as np
    ts = [t for t in T.upto(4, keys=(("a",), ("a", "b"))) if T.nleaves(t) and T.depth(t) <= 2][::2]
    arr = lambda t, base: T.build(t, lambda it=itertools.count(base): np.asarray([float(next(it))]))
    op = lambda x, y: 1000 * x + y
    ok = lambda got, t, x, y: T.same(got, T.build(t, lambda it=itertools.count(0): np.asarray([1000.0 * (x + (i := next(it))) + y + i])), lambda p, q: np.array_equal(p, q))

    def boom(x, y):
        raise KeyError("x")
    for t, u in itertools.product(ts, repeat=2):
        n = T.nleaves(t)

        def inside(x, y):
            if not ok(utils.execute_binary_operator(op, arr(u, 5), arr(u, 50), "inner"), u, 5, 50):
                raise ValueError("inside")
            return op(x, y)

        def vain(x, y):
            for a, b, o in ((arr(u, 1), arr(u, 1), boom), ((arr(u, 1),), [arr(u, 1)], op)):
                try:
                    utils.execute_binary_operator(o, a, b, "inner")
                    raise ValueError("inside")
                except RuntimeError:
                    pass
            return op(x, y)
        calls = []

        def late(x, y):
            calls.append(x)
            if len(calls) == n:
                raise KeyError("x")
            return x
        R.check(attempt(lambda: utils.execute_binary_operator(late, arr(t, 1), arr(t, 1), "c"))[0] == "no", {"tree": repr(t)}, "an operator that raises is not noticed")
        for name, o in (("inside", inside), ("vain", vain), ("plain", op)):
            got = attempt(lambda: utils.execute_binary_operator(o, arr(t, 3), arr(t, 30), "context"))
            R.checks += 1
            R.trans()
            if got[0] != "ok" or not ok(got[1], t, 3, 30):
                R.violation({"tree": repr(t), "other": repr(u), "operator": name}, "gives %r" % (got[1],))
        R.state((t, u))
    R.trace(R.transitions)
    R.outcome(len(ts))
    R.sample({"trees": len(ts)})
