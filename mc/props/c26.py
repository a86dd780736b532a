"""C26: broadcast helpers."""
import itertools

BOUNDS = ("every ordered pair of shapes up to rank 4 over the dimensions 0-3 and rank 6 over 1-2 (thorough: rank 4 over 0-4), shapes of every pair of ranks to 20 for the right-"
          "broadcast test, judged against the actual broadcasting; every pair with ranks in order for the left setup, with the data compared "
          "element by element, in 6 dtypes, for numpy and jax arrays, and compiled; ranks out of order are refused")
ASSUMPTIONS = ["the left setup is only used for a tensor whose rank does not exceed that of the target (otherwise it raises); scalars are left alone"]
SHARDS = 8


def shapes(dims, rank):
    return [s for r in range(rank + 1) for s in itertools.product(dims, repeat=r)]


def tasks(tier):
    th = tier == "thorough"
    t = [dict(kind="right", dims=[0, 1, 2, 3, 4] if th else [0, 1, 2, 3], rank=4, shard=i, cost=6) for i in range(SHARDS)]
    t += [dict(kind="left", dims=[0, 1, 2, 3] if th else [1, 2, 3], rank=4, shard=i, cost=6) for i in range(SHARDS)]
    t += [dict(kind="right", dims=[1, 2], rank=6, shard=0, of=1, cost=6), dict(kind="left", dims=[1, 2], rank=5, shard=0, of=1, cost=6), dict(kind="high", cost=2)]
    if th:
        t += [dict(kind="right", dims=[1, 2], rank=6, shard=i, cost=6) for i in range(SHARDS)]
        t += [dict(kind="left", dims=[1, 2], rank=6, shard=i, cost=6) for i in range(SHARDS)]
    t += [dict(kind="dtypes", cost=4), dict(kind="dtypes", x64=True, cost=4), dict(kind="jit", cost=6)]
    return t


def run(task, R):
    import jax
    import numpy as np
    from jax import numpy as jnp
    from src.jax_act.core import utils
    globals()["run_" + task["kind"]](task, R, jax, jnp, np, utils)


def run_right(task, R, jax, jnp, np, utils):
    sh = shapes(task["dims"], task["rank"])
    arrs = [np.zeros(s) for s in sh]
    for i, s in enumerate(sh):
        if i % task.get("of", SHARDS) != task["shard"]:
            continue
        j = jnp.zeros(s)
        for k, t in enumerate(sh):
            try:
                want = np.broadcast_shapes(s, t) is not None
            except ValueError:
                want = False
            a, b = (arrs[i], arrs[k]) if k % 16 else (j, arrs[k])
            got = utils.can_right_broadcast(a, b)
            R.checks += 1
            if bool(got) != want:
                R.violation({"shapes": [s, t]}, "reported %s for shapes %s and %s" % (got, s, t))
        R.trans(len(sh))
        R.state(s)
        R.outcome(len(s))
    R.trace(R.transitions)
    R.sample({"shapes": len(sh)})


def run_left(task, R, jax, jnp, np, utils):
    sh = shapes(task["dims"], task["rank"])
    mk = lambda s: (np.arange(int(np.prod(s, dtype=int))) * 3 - 4.0).reshape(s)
    arrs = [mk(s) for s in sh]
    for i, s in enumerate(sh):
        if i % task.get("of", SHARDS) != task["shard"]:
            continue
        x, xj = arrs[i], jnp.asarray(arrs[i])
        for k, t in enumerate(sh):
            y = arrs[k]
            R.checks += 1
            R.trans()
            if len(s) > len(t) and len(s):
                try:
                    got = utils.setup_left_broadcast(x, y)
                except Exception:
                    continue
                R.violation({"shapes": [s, t]}, "a tensor of rank %d for a target of rank %d was accepted: %r" % (len(s), len(t), got.shape))
            got = utils.setup_left_broadcast(xj if k % 16 == 0 else x, y)
            want = () if not s else s + (1,) * (len(t) - len(s))
            g = np.asarray(got)
            if g.shape != want or not np.array_equal(g.ravel(), x.ravel()):
                R.violation({"shapes": [s, t]}, "shape %s set up for %s gives %s" % (s, t, g.shape))
            # it then broadcasts exactly if the leading dimensions fit
            fits = all(a == b or 1 in (a, b) for a, b in zip(s, t))
            try:
                np.broadcast_shapes(g.shape, t)
                ok = True
            except ValueError:
                ok = False
            if ok != fits:
                R.violation({"shapes": [s, t]}, "broadcasts: %s, the leading dimensions fit: %s" % (ok, fits))
        R.state(s)
        R.outcome(len(s))
    R.trace(R.transitions)
    R.sample({"shapes": len(sh)})


def run_high(task, R, jax, jnp, np, utils):
    """Ranks up to 20."""
    for r1, r2 in itertools.product(range(21), repeat=2):
        for odd in (None, 0, r1 // 2, r1 - 1):
            if odd is not None and not 0 <= odd < r1:
                continue
            s = tuple(2 if i == odd else 1 + (i % 7 == 3) for i in range(r1))
            for t in (tuple(1 + (i % 7 == 3) for i in range(r2)), tuple(3 if i == r2 - 2 else 1 for i in range(r2))):
                x, y = np.arange(float(int(np.prod(s, dtype=int)))).reshape(s), np.zeros(t)
                R.trans()
                R.checks += 2
                try:
                    want = np.broadcast_shapes(s, t) is not None
                except ValueError:
                    want = False
                if bool(utils.can_right_broadcast(x, y)) != want:
                    R.violation({"shapes": [s, t]}, "reported %s" % (not want))
                if r1 <= r2:
                    g = np.asarray(utils.setup_left_broadcast(jnp.asarray(x) if r1 % 5 == 1 else x, y))
                    if g.shape != (s + (1,) * (r2 - r1) if s else ()) or not np.array_equal(g.ravel(), x.ravel()):
                        R.violation({"shapes": [s, t]}, "shape %s set up for %s gives %s" % (s, t, g.shape))
        # One dimension that does not fit, in every position
        for k in range(1, min(r1, r2) + 1):
            for a, b in ((2, 3), (1, 3), (3, 1), (3, 3)):
                x = np.zeros(tuple(a if i == r1 - k else 1 for i in range(r1)))
                y = np.zeros(tuple(b if i == r2 - k else 1 for i in range(r2)))
                R.checks += 1
                if bool(utils.can_right_broadcast(x, y)) != (a == b or 1 in (a, b)):
                    R.violation({"shapes": [x.shape, y.shape]}, "reported %s" % (a != b and 1 not in (a, b)))
        R.state((r1, r2))
        R.outcome(r1 <= r2)
    R.trace(R.transitions)
    R.sample({"ranks": 20})


def run_dtypes(task, R, jax, jnp, np, utils):
    dts = [jnp.float32, jnp.float16, jnp.bfloat16, jnp.int32, jnp.bool_, jnp.uint8] + ([jnp.float64, jnp.int64] if task.get("x64") else [])
    sh = [(), (2,), (1,), (2, 3), (3, 1, 2), (0,)]
    for d1, d2 in itertools.product(dts, repeat=2):
        for s, t in itertools.product(sh, repeat=2):
            a, b = jnp.ones(s, d1), jnp.zeros(t, d2)
            R.trans()
            if len(s) <= len(t) or not s:
                got = utils.setup_left_broadcast(a, b)
                R.checks += 1
                if got.dtype != a.dtype or got.size != a.size or not bool((got == a.reshape(got.shape)).all()) or b.shape != t:
                    R.violation({"dtypes": [str(d1), str(d2)], "shapes": [s, t]}, "gives %r" % (got,))
                got = utils.setup_left_broadcast(tensor=a, target=b)
                R.checks += 1
                if got.dtype != a.dtype:
                    R.violation({"dtypes": [str(d1), str(d2)], "keywords": True}, "gives %r" % (got,))
            try:
                want = np.broadcast_shapes(s, t) is not None
            except ValueError:
                want = False
            for got in (utils.can_right_broadcast(a, b), utils.can_right_broadcast(b, a), utils.can_right_broadcast(array_a=a, array_b=b)):
                R.checks += 1
                if bool(got) != want:
                    R.violation({"dtypes": [str(d1), str(d2)], "shapes": [s, t]}, "reported %s" % got)
        R.state((str(d1), str(d2)))
        R.outcome(str(d1))
    R.trace(R.transitions)
    R.sample({"dtypes": [str(d) for d in dts]})


def run_jit(task, R, jax, jnp, np, utils):
    """Under jit and vmap, where the batch dimension of vmap does not count."""
    sh = shapes([1, 2], 3)
    for s, t in itertools.product(sh, repeat=2):
        if len(s) > len(t):
            continue
        x = (jnp.arange(float(int(np.prod(s, dtype=int)))) + 1).reshape(s)
        y = jnp.zeros(t)
        want = s + (1,) * (len(t) - len(s)) if s else ()
        got = jax.jit(utils.setup_left_broadcast)(x, y)
        vm = jax.vmap(utils.setup_left_broadcast)(jnp.stack([x, x + 5, -x]), jnp.stack([y] * 3))
        R.checks += 2
        R.trans(2)
        if got.shape != want or not np.array_equal(got.ravel(), x.ravel()):
            R.violation({"shapes": [s, t], "how": "jit"}, "gives %s" % (got.shape,))
        if vm.shape != (3,) + want or not np.array_equal(vm.ravel(), jnp.stack([x, x + 5, -x]).ravel()):
            R.violation({"shapes": [s, t], "how": "vmap"}, "gives %s" % (vm.shape,))
        seen = []
        jax.eval_shape(lambda a, b: seen.append(bool(utils.can_right_broadcast(a, b))), x, y)
        try:
            fits = np.broadcast_shapes(s, t) is not None
        except ValueError:
            fits = False
        R.checks += 1
        if seen != [fits]:
            R.violation({"shapes": [s, t], "how": "traced"}, "reported %s" % seen)
        R.state((s, t))
        R.outcome(want)
    R.trace(R.transitions)
    R.sample({"shapes": len(sh)})
