"""C25: functions compiled through jit_and_checkify return or raise exactly as their checks say."""
import itertools

BOUNDS = ("every sequence of up to 4 (thorough: 6) calls over 3-4 outcomes each (all checks hold, the first fails, another fails, all fail) "
          "on 6 functions; every interleaving of up to 4 (6) calls of two compiled functions; 9 ways to pass the arguments, 12 result "
          "trees; checks under scan, while, cond, vmap and in nested functions, over every failing step; retracing for new shapes and dtypes; 14 arrays and scalars x 12 scalars, with the dtypes of the results")
ASSUMPTIONS = ["any exception counts as raising; only checks written with checkify.check are meant (not NaN, index or division checks)"]


def tasks(tier):
    th = tier == "thorough"
    t = [dict(kind="history", fn=i, depth=6 if th else 4, cost=5) for i in range(6)]
    t += [dict(kind="inter", a=a, b=b, depth=6 if th else 4, cost=5) for a, b in ((0, 1), (1, 2), (0, 0), (3, 5), (4, 2))]
    t += [dict(kind="passing", cost=5), dict(kind="results", cost=5), dict(kind="control", n=5 if th else 4, cost=8), dict(kind="retrace", cost=4), dict(kind="floats", cost=3), dict(kind="large", cost=4), dict(kind="callables", cost=4), dict(kind="dtypes", cost=6)]
    return t


def run(task, R):
    import jax
    import numpy as np
    from jax import numpy as jnp
    from jax.experimental import checkify
    from src.jax_act.core import utils
    globals()["run_" + task["kind"]](task, R, jax, jnp, np, checkify, utils)


def functions(jnp, jax, checkify):
    """(function, inputs); an input is (x, expected result or None if it must raise)."""
    def f0(x):
        checkify.check(x > 0, "not positive")
        return x * 2

    def f1(x):
        checkify.check(x > 0, "not positive")
        checkify.check(x < 10, "too large")
        return {"a": x + 1, "b": (x, [x * x])}

    def f2(x):
        checkify.check(x != 3, "three: {x}", x=x)
        y = x - 3
        checkify.check(y != 2, "five: {y}", y=y)
        checkify.check(jnp.logical_and(x != 7, x != 3), "seven or three")
        return x, y

    def f3(x):
        return jnp.sqrt(x - 1.0)

    def f4(x):
        def body(c, i):
            checkify.check(c + i != 6, "reached")
            return c + i, c
        return jax.lax.scan(body, x, jnp.arange(3.0))

    def f5(x):
        checkify.check(jnp.all(jnp.stack([x, x + 1, x + 2]) != 2), "contains two")
        return [x > 1, jnp.stack([x, -x])]
    return [
        (f0, [(1.0, 2.0), (4.0, 8.0), (-1.0, None), (0.0, None)]),
        (f1, [(1.0, {"a": 2.0, "b": (1.0, [1.0])}), (9.0, {"a": 10.0, "b": (9.0, [81.0])}), (-2.0, None), (10.0, None)]),
        (f2, [(4.0, (4.0, 1.0)), (3.0, None), (5.0, None), (7.0, None)]),
        (f3, [(5.0, 2.0), (1.0, 0.0), (2.0, 1.0)]),
        (f4, [(0.0, (3.0, [0.0, 0.0, 1.0])), (6.0, None), (5.0, None), (3.0, None)]),
        (f5, [(3.0, [True, [3.0, -3.0]]), (2.0, None), (1.0, None), (0.0, None), (0.5, [False, [0.5, -0.5]])])]


def leaves(np, jax, v):
    if isinstance(v, list) and v and all(isinstance(x, float) for x in v):
        return np.asarray(v)
    return v


def same(np, got, want):
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(same(np, got[k], want[k]) for k in want)
    if isinstance(want, list) and all(isinstance(x, float) for x in want) and not isinstance(got, list):
        return np.asarray(got).shape == (len(want),) and np.allclose(np.asarray(got), want)
    if isinstance(want, (tuple, list)):
        return type(got) is type(want) and len(got) == len(want) and all(same(np, a, b) for a, b in zip(got, want))
    if want is None:
        return got is None
    g, w = np.asarray(got), np.asarray(want)
    return g.shape == w.shape and np.allclose(g, w, equal_nan=True) and (g.dtype == bool) == (w.dtype == bool)


def judge(R, np, f, args, kw, want, fails, case):
    R.checks += 1
    R.trans()
    try:
        got = f(*args, **kw)
    except Exception as e:
        if not fails:
            R.violation(case, "raised %s: %s" % (type(e).__name__, str(e)[:300]))
        return
    if fails:
        R.violation(case, "a failing check was not raised, but %r returned" % (got,))
    if not same(np, got, want):
        R.violation(case, "returned %r, expected %r" % (got, want))


def run_history(task, R, jax, jnp, np, checkify, utils):
    f, inputs = functions(jnp, jax, checkify)[task["fn"]]
    g = utils.jit_and_checkify(f)
    depth = task["depth"] if len(inputs) < 5 else min(task["depth"], 5)
    for n in range(1, depth + 1):
        for seq in itertools.product(range(len(inputs)), repeat=n):
            if n < depth and n > 1:
                continue                       # prefixes of the longer ones
            for k, i in enumerate(seq):
                x, want = inputs[i]
                judge(R, np, g, (jnp.asarray(x),), {}, want, want is None, {"fn": task["fn"], "calls": [inputs[j][0] for j in seq[:k + 1]]})
            R.trace()
            R.state(seq)
            R.outcome(tuple(inputs[i][1] is None for i in seq))
    # a fresh compilation, first used with a failing call
    for x, want in inputs:
        h = utils.jit_and_checkify(f)
        for y, w2 in [(x, want)] + inputs:
            judge(R, np, h, (jnp.asarray(y),), {}, w2, w2 is None, {"fn": task["fn"], "first": x, "then": y})
    R.sample({"fn": task["fn"], "inputs": [x for x, _ in inputs]})


def run_dtypes(task, R, jax, jnp, np, checkify, utils):
    """Arrays of every kind with Python and numpy scalars: results have the dtypes of the function called directly."""
    arrays = [jnp.arange(3, dtype=d) for d in (jnp.float32, jnp.bfloat16, jnp.int32, jnp.int8, jnp.uint8, jnp.complex64)] + [
        jnp.asarray([True, False, True]), np.arange(3, dtype=np.float32), np.arange(3, dtype=np.int8), jnp.bfloat16(2), 3, 2.0, np.float32(3), np.int32(2)]
    scalars = [2, 2.0, True, np.float32(2), np.int8(2), np.bool_(True), 1j, -1, 0.0, jnp.float32(2), jnp.asarray(2), jnp.bfloat16(2)]

    def f(x, k):
        checkify.check(jnp.all(k != 0), "zero")
        return x * k, {"sum": x + k, "same": x, "k": k}, jnp.where(x == k, x, k)

    def g(x, *, k=2):
        checkify.check(jnp.sum(jnp.real(x)) >= 0, "negative")
        return [x - k, jnp.asarray(k)]
    cf, cg = utils.jit_and_checkify(f), utils.jit_and_checkify(g)
    strong = lambda a: jnp.asarray(a) if isinstance(a, (np.ndarray, np.generic)) else a          # numpy has other rules of promotion
    for i, x in enumerate(arrays):
        for j, k in enumerate(scalars):
            X, K = strong(x), strong(k)
            for how, h, fun, bad in (("f", lambda: cf(x, k), lambda: f(X, K), bool(k == 0)), ("f, keyword", lambda: cf(x, k=k), lambda: f(X, K), bool(k == 0)),
                                     ("g", lambda: cg(x), lambda: g(X), False), ("g, keyword", lambda: cg(x, k=k), lambda: g(X, k=K), False), ("swapped", lambda: cf(k, x), lambda: f(K, X), not np.all(np.asarray(x) != 0))):
                case = {"x": repr(x), "k": repr(k), "how": how}
                R.checks += 1
                R.trans()
                try:
                    want = None if bad else jax.tree_util.tree_map(jnp.asarray, fun())
                except Exception:               # the function itself raises for these
                    bad = True
                try:
                    got = h()
                except Exception as e:
                    if not bad:
                        R.violation(case, "raised %s: %s" % (type(e).__name__, str(e)[:300]))
                    R.outcome("raised")
                    continue
                if bad:
                    R.violation(case, "a failing check was not raised")
                if jax.tree_util.tree_structure(got) != jax.tree_util.tree_structure(want):
                    R.violation(case, "returned %r, expected %r" % (got, want))
                for a, b in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)):
                    if jnp.asarray(a).dtype != b.dtype or not np.array_equal(np.asarray(a), np.asarray(b)):
                        R.violation(case, "returned %r, expected %r" % (a, b))
                R.state((i, j, how))
                R.outcome(tuple(str(b.dtype) for b in jax.tree_util.tree_leaves(want)))
        R.trace()
    R.sample({"arrays": len(arrays), "scalars": len(scalars)})


def run_inter(task, R, jax, jnp, np, checkify, utils):
    fs = functions(jnp, jax, checkify)
    pair = [fs[task["a"]], fs[task["b"]]]
    gs = [utils.jit_and_checkify(f) for f, _ in pair]
    moves = [(w, i) for w in (0, 1) for i in (0, 2)]            # a passing and (if it has one) a failing input of each
    for seq in itertools.product(moves, repeat=task["depth"]):
        for k, (w, i) in enumerate(seq):
            x, want = pair[w][1][i]
            judge(R, np, gs[w], (jnp.asarray(x),), {}, want, want is None, {"fns": [task["a"], task["b"]], "calls": seq[:k + 1]})
        R.trace()
        R.state(seq)
    R.outcome((task["a"], task["b"]))
    R.sample({"fns": [task["a"], task["b"]], "depth": task["depth"]})


def run_passing(task, R, jax, jnp, np, checkify, utils):
    """Positional and keyword arguments, defaults, trees as arguments."""
    def f(a, b, c=3.0, *, d=4.0, e=None):
        checkify.check(a < b, "order")
        checkify.check(d["x"] > 0 if isinstance(d, dict) else d > 0, "positive")
        dd = d["x"] if isinstance(d, dict) else d
        return (a + 10 * b + 100 * c + 1000 * dd, 0.0 if e is None else e[0] - e[1]["k"])
    g = utils.jit_and_checkify(f)
    for a, b, c, d in itertools.product((0.0, 1.0), (0.0, 1.0, 2.0), (None, 5.0), (None, 6.0, -1.0)):
        cc, dd = 3.0 if c is None else c, 4.0 if d is None else d
        fails = not a < b or not dd > 0
        for e in (None, (jnp.asarray(2.0), {"k": jnp.asarray(0.5)})):
            want = (a + 10 * b + 100 * cc + 1000 * dd, 0.0 if e is None else 1.5)
            kw = {} if d is None else {"d": d}
            if e is not None:
                kw["e"] = e
            kc = {} if c is None else {"c": c}
            forms = [((a, b) + (() if c is None else (c,)), kw), ((a, b), dict(kw, **kc)), ((a,), dict(kw, b=b, **kc)), ((), dict(kw, b=b, a=a, **kc))]
            if d is not None:
                forms.append(((a, b), dict(kw, d={"x": d}, **kc)))
            for i, (args, k) in enumerate(forms):
                judge(R, np, g, args, k, want, fails, {"args": args, "kwargs": k})
                R.state((a, b, c, d, e is None, i))
                R.trace()
        R.outcome(fails)
    def none():
        return 7.0
    judge(R, np, utils.jit_and_checkify(none), (), {}, 7.0, False, {"no arguments": True})
    # what is wrong with the call itself is raised too
    for args, k in (((), {}), ((1.0,), {}), ((1.0, 2.0, 3.0, 4.0), {}), ((1.0, 2.0), {"q": 1.0})):
        judge(R, np, g, args, k, None, True, {"bad call": [args, k]})
    judge(R, np, g, (1.0, 2.0), {}, (1.0 + 20 + 300 + 4000, 0.0), False, {"after": "bad calls"})

    def bad(x):
        raise ValueError("while tracing")
    judge(R, np, utils.jit_and_checkify(bad), (1.0,), {}, None, True, {"tracing error": True})
    R.sample({"signature": "f(a, b, c=3.0, *, d=4.0, e=None)"})


def run_results(task, R, jax, jnp, np, checkify, utils):
    forms = [lambda x: x, lambda x: (x,), lambda x: [x, x + 1], lambda x: {"k": x}, lambda x: {"a": [x, (x * 2,)], "b": {"c": {}}}, lambda x: (), lambda x: None,
             lambda x: (None, x), lambda x: jnp.stack([x, x, -x]), lambda x: (x > 0, x.astype(jnp.int32)), lambda x: (1.0, x), lambda x: ((), [], {"z": ()}, x)]
    for i, form in enumerate(forms):
        def f(x):
            checkify.check(x < 5, "small")
            return form(x)
        g = utils.jit_and_checkify(f)
        for x in (1.0, 7.0, 2.0, 5.0, 4.5, -3.0):
            want = form(jnp.asarray(x))
            judge(R, np, g, (jnp.asarray(x),), {}, want, not x < 5, {"result": i, "x": x})
            R.state((i, x))
            R.outcome(i)
        R.trace()
    # the real use: a controller as argument and result
    from src.jax_act import ControllerBuilder
    c = ControllerBuilder.new_builder([2]).define_accumulator_by_shape("a", [2, 3]).build()

    def step(c, h):
        checkify.check(jnp.all(h >= 0), "negative")
        return c.cache_update("a", jnp.ones((2, 3))).iterate_act(h)
    g = utils.jit_and_checkify(step)
    for seq in itertools.product(((0.25, 0.5), (-0.25, 0.5), (0.5, 0.75)), repeat=3):
        x, y = c, c
        for h in seq:
            R.checks += 1
            R.trans()
            try:
                x = g(x, jnp.asarray(h))
                ok = True
            except Exception:
                ok = False
            if ok != (min(h) >= 0):
                R.violation({"controller": True, "h": seq}, "ok is %s" % ok)
            if ok:
                y = step_plain(y, h, jnp)
            if any(not np.allclose(np.asarray(p), np.asarray(q)) for p, q in zip(jax.tree_util.tree_leaves(x), jax.tree_util.tree_leaves(y))):
                R.violation({"controller": True, "h": seq}, "differs from the eager computation")
        R.trace()
    R.sample({"results": len(forms)})


def step_plain(c, h, jnp):
    return c.cache_update("a", jnp.ones((2, 3))).iterate_act(jnp.asarray(h))


def run_control(task, R, jax, jnp, np, checkify, utils):
    """Checks inside control flow: raised exactly if some executed check fails, for every pattern of failing places."""
    n = task["n"]

    def scan(v):
        def body(c, x):
            checkify.check(x, "step")
            return c + 1, x
        return jax.lax.scan(body, 0, v)[0]

    def loop(v):
        def body(c):
            checkify.check(v[c], "step")
            return c + 1
        return jax.lax.while_loop(lambda c: c < n - 1, body, 0)

    def cond(v):
        def yes():
            checkify.check(v[1], "first branch")
            return 1

        def no():
            checkify.check(v[2], "second branch")
            return 2
        return jax.lax.cond(v[0], yes, no)

    def vm(v):
        def one(x):
            checkify.check(x, "element")
            return 1
        return jax.vmap(one)(v).sum()

    def nested(v):
        def inner(i):
            checkify.check(v[i], "inner {i}", i=i)
            return 1
        return sum(jax.jit(inner)(i) for i in range(n))

    def fori(v):
        def body(i, c):
            checkify.check(v[i], "step")
            return c + 1
        return jax.lax.fori_loop(0, n, body, 0)

    want = {"scan": (lambda v: all(v), n), "loop": (lambda v: all(v[:-1]), n - 1), "cond": (lambda v: v[1] if v[0] else v[2], None),
            "vm": (all, n), "nested": (all, n), "fori": (all, n)}
    fs = dict(scan=scan, loop=loop, cond=cond, vm=vm, nested=nested, fori=fori)
    for name, f in fs.items():
        g = utils.jit_and_checkify(f)
        for v in itertools.product((True, False), repeat=n):
            ok = want[name][0](v)
            res = want[name][1] if name != "cond" else (1 if v[0] else 2)
            judge(R, np, g, (jnp.asarray(v),), {}, res, not ok, {"control": name, "checks": v})
            R.state((name, v))
        R.trace(2 ** n)
        R.outcome(name)
    R.sample({"control": sorted(fs)})


def run_retrace(task, R, jax, jnp, np, checkify, utils):
    """One compiled function over shapes and dtypes, passing and failing in every order."""
    def f(x):
        checkify.check(jnp.all(x < 4), "four")
        return x + x, x.ndim, x.sum()
    g = utils.jit_and_checkify(f)
    base = [jnp.arange(3.0), jnp.arange(3), jnp.ones((2, 2)), jnp.asarray(1.0), jnp.zeros((0,)), jnp.ones((1, 1, 1), jnp.int8)]
    calls = [(b, b) for b in base] + [(b + 9, None) for b in base if b.size]
    for (x, w1), (y, w2) in itertools.product(calls, repeat=2):
        for v, w in ((x, w1), (y, w2)):
            judge(R, np, g, (v,), {}, None if w is None else (v + v, v.ndim, v.sum()), w is None, {"x": repr(x), "y": repr(y)})
        R.state((repr(x), repr(y)))
        R.trace()
    R.outcome(len(calls))
    R.sample({"calls": len(calls)})


def run_floats(task, R, jax, jnp, np, checkify, utils):
    """Only the function's own checks count."""
    def f(x, i):
        checkify.check(i < 100, "large")
        v = jnp.asarray([1.0, 2.0])
        return jnp.log(x), 1.0 / x, v.at[i].get(mode="clip"), x * jnp.nan
    g = utils.jit_and_checkify(f)
    for x, i in itertools.product((1.0, 0.0, -1.0, float("nan"), float("inf")), (0, 1, 5, 200)):
        e = lambda: f(jnp.asarray(x), jnp.asarray(i))
        fails = i >= 100
        want = None if fails else tuple(np.asarray(v) for v in e())
        judge(R, np, g, (jnp.asarray(x), jnp.asarray(i)), {}, want, fails, {"x": x, "i": i})
        R.state((repr(x), i))
        R.outcome(fails)
        R.trace()
    R.sample({"values": "nan, inf, division by zero, index out of range"})


def run_large(task, R, jax, jnp, np, checkify, utils):
    """Arguments of more than a thousand elements: every pair of calls; the checks fail at single elements."""
    def f(x, y):
        checkify.check(jnp.all(x >= 0), "negative")
        return x.sum(), {"d": y - x.reshape(-1)[:3].sum()}
    for shape in ((1500,), (40, 40), (2, 30, 30)):
        n = int(np.prod(shape))
        base = np.ones(shape, np.float32)
        calls = [(base, False)]
        for k in (0, 1, 3, n // 4, n // 2, n // 2 + 1, n - 4, n - 1):
            for v in (-1.0, 3.0):
                z = base.copy()
                z.reshape(-1)[k] = v
                calls.append((z, v < 0))
        g = utils.jit_and_checkify(f)
        for (x, fx), (y, fy) in itertools.product(calls, repeat=2):
            for v, fails in ((x, fx), (y, fy)):
                judge(R, np, g, (jnp.asarray(v), 1.0), {}, (v.sum(), {"d": 1.0 - v.reshape(-1)[:3].sum()}), fails, {"shape": shape, "where": np.argwhere(v != 1).tolist()})
            R.trace()
        for v, _ in calls:
            R.state((shape, v.tobytes()))
        R.outcome(shape)
    R.sample({"shapes": 3})


def run_callables(task, R, jax, jnp, np, checkify, utils):
    """All kinds of callables; several compiled from one code object; everything in every order of two calls."""
    import functools

    def base(k, x):
        checkify.check(x < k, "too large")
        return x * 10 + k

    class Thing:
        def __init__(self, k):
            self.k = k

        def method(self, x):
            return base(self.k, x)

        def __call__(self, x):
            return base(self.k, x)

        @classmethod
        def of_class(cls, x):
            return base(3.0, x)

        @staticmethod
        def static(x):
            return base(4.0, x)

    def made(k):
        def f(x):
            return base(k, x)
        return f
    kinds = [(k, n, f) for k in (2.0, 5.0) for n, f in (("closure", made(k)), ("method", Thing(k).method), ("object", Thing(k)), ("partial", functools.partial(base, k)),
                                                      ("lambda", lambda x, k=k: base(k, x)), ("jitted", jax.jit(made(k))), ("wrapped", functools.wraps(base)(made(k))))]
    kinds += [(3.0, "classmethod", Thing.of_class), (4.0, "staticmethod", Thing.static)]
    gs = [(k, n, utils.jit_and_checkify(f)) for k, n, f in kinds]
    xs = (1.0, 2.5, 4.5, 6.0)
    for (k, n, g), (l, m, h) in itertools.product(gs, repeat=2):
        for x, y in itertools.product(xs, repeat=2):
            judge(R, np, g, (jnp.asarray(x),), {}, 10 * x + k, not x < k, {"kind": n, "limit": k, "x": x})
            judge(R, np, h, (jnp.asarray(y),), {}, 10 * y + l, not y < l, {"kind": m, "limit": l, "x": y, "after": [n, k, x]})
            R.trace()
        R.state((k, n, l, m))
        R.outcome((n, m))
    R.sample({"callables": len(gs)})
