"""C14: the builder accepts exactly the valid definitions."""
import itertools
import numpy as np

BOUNDS = ("all leaf shapes of rank 0-3 (thorough 4) over dimensions {1, 2, 3} (and 0) against all batch shapes of rank 0-3 over "
          "{1, 2, 3}, directly and by shape; 18 dtypes; each of 13 faults and 7 leaves that are no tensors at each leaf of 14 trees, pairs of faults; all "
          "malformed shape trees of 16 kinds at each place of 10 shape trees; epsilon over 28 values x 20 core dtypes")
ASSUMPTIONS = ["leaves of direct definitions are jax arrays; by-shape leaves are lists of python integers >= 0",
               "if a definition is bad in two ways, either of the two error types will do"]


def tasks(tier):
    th = tier == "thorough"
    t = []
    dims = (1, 2, 3)
    batches = [()] + [b for r in (1, 2, 3) for b in itertools.product(dims, repeat=r)]
    if not th:
        batches = [b for i, b in enumerate(batches) if len(b) < 3 or i % 4 == 0]
    for i in range(0, len(batches), 4):
        t.append(dict(kind="shapes", batches=[list(b) for b in batches[i:i + 4]], rank=4 if th else 3, cost=5))
    for b in ([], [2], [2, 3], [1]):
        t.append(dict(kind="faults", batch=b, cost=4))
        t.append(dict(kind="malformed", batch=b, cost=2))
        t.append(dict(kind="dtypes", batch=b))
    t.append(dict(kind="dtypes", batch=[2], x64=True))
    t.append(dict(kind="new"))
    t.append(dict(kind="new", x64=True))
    return t


def attempt(f, *a, **k):
    try:
        return f(*a, **k), None
    except Exception as e:
        return None, e


class Judge:
    def __init__(self, R, lib, b0):
        self.R, self.lib, self.b0 = R, lib, b0
        self.o0 = lib.observe(b0)

    def __call__(self, case, kinds, f):
        """kinds: () = must be accepted, else the permitted exception types."""
        R = self.R
        R.checks += 1
        R.trans()
        out, e = attempt(f)
        if kinds and e is None:
            R.violation(case, "accepted, but must be refused with %s" % [k.__name__ for k in kinds])
        if not kinds and e is not None:
            R.violation(case, "must be accepted, but raised %s: %s" % (type(e).__name__, str(e)[:300]))
        if e is not None and not isinstance(e, kinds):
            R.violation(case, "raised %s (%s) instead of %s" % (type(e).__name__, str(e)[:300], [k.__name__ for k in kinds]))
        R.outcome((type(e).__name__,))
        return out


def run(task, R):
    import warnings
    warnings.simplefilter("ignore")
    import jax
    from .. import lib
    jnp = lib.jnp
    CB = lib.ControllerBuilder
    kind = task["kind"]
    if kind == "new":
        return run_new(task, R, lib)
    if kind == "shapes":
        dims = (1, 2, 3)
        shapes = [s for r in range(task["rank"] + 1) for s in itertools.product(dims, repeat=r)]
        shapes += [(0,), (2, 0), (0, 2), (2, 3, 0), (1, 0, 1)]
        for batch in task["batches"]:
            batch = tuple(batch)
            b0 = CB.new_builder(list(batch))
            J = Judge(R, lib, b0)
            for s in shapes:
                ok = s[:len(batch)] == batch
                kinds = () if ok else (ValueError,)
                case = {"batch": batch, "leaf": s}
                R.state((batch, s))
                b = J(dict(case, how="directly"), kinds, lambda: b0.define_accumulator_directly("x", jnp.ones(s)))
                c = J(dict(case, how="by shape"), kinds, lambda: b0.define_accumulator_by_shape("x", list(s), fill=1.0))
                if ok:
                    for how, z in (("directly", b), ("by shape", c)):
                        d = lib.differs({"acc": lib.observe(z)["acc"]}, {"acc": {"x": np.ones(s)}}, ["acc"])
                        if d:
                            R.violation(dict(case, how=how), d)
                # behind a good leaf, and before it
                for how, tree in (("first", (jnp.ones(s), jnp.ones(batch))), ("second", (jnp.ones(batch), jnp.ones(s)))):
                    J(dict(case, how=how), kinds, lambda: b0.define_accumulator_directly("x", tree))
            d = lib.same_obs(lib.observe(b0), J.o0)
            if d:
                R.violation({"batch": batch}, "the builder changed: %s" % d)
            R.trace()
        R.sample({"batches": task["batches"], "leaf shapes": len(shapes)})
        return
    batch = tuple(task["batch"])
    b0 = CB.new_builder(list(batch)).define_accumulator_directly("y", jnp.ones(batch + (2,)))
    J = Judge(R, lib, b0)
    if kind == "dtypes":
        names = ["float32", "float16", "bfloat16", "int32", "int8", "int16", "uint8", "uint16", "uint32", "bool", "complex64", "float64", "int64", "complex128", "uint64",
                 "float8_e4m3fn", "float8_e5m2", "float8_e4m3b11fnuz"]
        for n in names:
            import jax.numpy as jn
            dt = getattr(jn, n if n != "bool" else "bool_")
            if not task.get("x64") and n in ("int64", "float64", "complex128", "uint64"):
                real = {"int64": "int32", "float64": "float32", "complex128": "complex64", "uint64": "uint32"}[n]
            else:
                real = n
            good = "float" in real
            leaf = jnp.ones(batch + (2,)).astype(dt)
            R.state(n)
            J({"dtype": n, "how": "directly"}, () if good else (TypeError,), lambda: b0.define_accumulator_directly("x", leaf))
            J({"dtype": n, "how": "redefine"}, () if good else (TypeError,), lambda: b0.define_accumulator_directly("y", leaf))
            for spell in (dt, n if n != "bool" else "bool"):
                J({"dtype": n, "how": "by shape"}, () if good else (TypeError,),
                  lambda: b0.define_accumulator_by_shape("x", list(batch) + [2], dtype=spell))
                J({"dtype": n, "how": "by shape, tree"}, () if good else (TypeError,),
                  lambda: b0.define_accumulator_by_shape("x", {"q": list(batch), "a": (list(batch) + [1],)}, dtype=spell, fill=1))
            # both bad
            if not good and batch:
                J({"dtype": n, "how": "both bad"}, (TypeError, ValueError), lambda: b0.define_accumulator_directly("x", jnp.ones((7,)).astype(dt)))
        J({"how": "by shape, default dtype"}, (), lambda: b0.define_accumulator_by_shape("x", list(batch)))
        R.trace()
        R.sample({"dtypes": names})
        return unchanged(R, lib, b0, J)
    L = lib.Lf
    specs = [L(2), (L(),), [L(), L(2)], {"b": L(), "a": L(2)}, (L(), [L(2), {"k": L()}]), {"z": {"y": L(), "x": (L(2), L())}, "m": [L(2)]},
             (L(),) * 5, [[L()], [L()], [L()]], ((), L(), {}), {"a": {"b": {"c": {"d": L()}}}}, [(L(), L()), (L(), L())],
             {"10": L(), "9": L(), "Z": L(2), "": L()}, (L(2), (L(2), (L(2), (L(2),)))), [L(1), L(1, 1), L(1, 1, 1)],
             {"w": [L() if i % 4 else L(2) for i in range(24)], "v": {"k%d" % i: L() for i in range(12)}},
             lib.Rec(L(2), lib.Pt(L(), lib.Box([L(1), L(2)], "b"))), {"o": lib.OrderedDict([("z", L(2)), ("b", L())])}]
    if kind == "faults":
        def faults():
            f = {}
            if batch:
                f["fewer dims"] = (batch[:-1], "float32", ValueError)
                f["scalar"] = ((), "float32", ValueError)
                f["first dim"] = ((batch[0] + 1,) + batch[1:] + (2,), "float32", ValueError)
                f["last dim"] = (batch[:-1] + (batch[-1] + 1,), "float32", ValueError)
                f["zero dim"] = (batch[:-1] + (0, 2), "float32", ValueError)
                f["shifted"] = ((5,) + batch, "float32", ValueError)
                if batch[-1] != 1:
                    f["unit dim"] = (batch[:-1] + (1,), "float32", ValueError)
                if batch[::-1] != batch:
                    f["reversed"] = (batch[::-1], "float32", ValueError)
            for d in ("int32", "bool_", "complex64", "uint8", "int8"):
                f[d] = (batch + (2,), d, TypeError)
            return f
        F = faults()
        for si, spec in enumerate(specs):
            n = len(lib.leaf_specs(spec))
            good = lib.to_jax(lib.values(spec, batch, si), spec)
            leaves, td = jax.tree_util.tree_flatten(good)
            J({"tree": si, "fault": None}, (), lambda: b0.define_accumulator_directly("x", good))
            places = [(i,) for i in range(n)] + (list(itertools.combinations(range(n), 2)) if n < 9 else [])
            for pl in places:
                for fs in (itertools.product(F, repeat=1) if len(pl) == 1 else [(a, b) for a in F for b in F if a < b or (a == b and si < 4)]):
                    ls = list(leaves)
                    kinds = set()
                    for i, f in zip(pl, fs):
                        shp, dt, k = F[f]
                        ls[i] = jnp.ones(shp, getattr(jnp, dt))
                        kinds.add(k)
                    R.state((si, pl, fs))
                    J({"tree": si, "leaves": pl, "faults": fs}, tuple(kinds),
                      lambda: b0.define_accumulator_directly("xy"[len(pl) - 1], jax.tree_util.tree_unflatten(td, ls)))
            # leaves that are no tensors at all
            for i in range(n):
                for v in (1.0, 2, True, 1j, object(), [3], (0.5, 1)):
                    ls = list(leaves)
                    ls[i] = v
                    R.state((si, i, repr(type(v))))
                    J({"tree": si, "leaf": i, "no tensor": repr(type(v))}, (TypeError,) + ((ValueError,) if batch else ()),
                      lambda: b0.define_accumulator_directly("xy"[i % 2], jax.tree_util.tree_unflatten(td, ls)))
            # by shape: only shapes can be wrong in single leaves
            shapes = lib.map_specs(lambda l: list(batch) + list(l.extra), spec)
            isl = lambda x: isinstance(x, list) and all(isinstance(i, int) for i in x)
            sl, std = jax.tree_util.tree_flatten(shapes, is_leaf=isl)
            J({"tree": si, "by shape": None}, (), lambda: b0.define_accumulator_by_shape("x", shapes))
            for i in range(len(sl)):
                for f, (shp, dt, k) in F.items():
                    if k is ValueError:
                        ls = list(sl)
                        ls[i] = list(shp)
                        J({"tree": si, "by shape": f, "leaf": i}, (ValueError,),
                          lambda: b0.define_accumulator_by_shape("x", jax.tree_util.tree_unflatten(std, ls)))
        R.trace()
        R.sample({"faults": sorted(F), "trees": len(specs)})
        return unchanged(R, lib, b0, J)
    # malformed shape trees
    bl = list(batch)
    bad = {"tuple of ints": tuple(bl + [2]), "int": 2, "float": 2.5, "string": "2", "array": np.ones(2), "jax array": jnp.ones(2), "dtype": np.float32,
           "list with a float": bl + [2.0], "list with a string": bl + ["2"], "list with a tuple": bl + [(2,)],
           "list with numpy ints": [np.int64(x) for x in bl + [2]], "numpy int": np.int64(2), "object": object(), "complex": 1j,
           "list with a mixed list": [bl, 2], "int array": np.array(bl + [2])}
    shapes = [bl, (bl,), [bl, bl], {"b": bl, "a": bl + [2]}, (bl, [bl + [2], {"k": bl}]), {"z": {"y": bl, "x": (bl, bl)}},
              ((), bl, {}), [(bl,), (bl, bl)], {"a": {"b": (bl + [1],)}}, (bl, bl, bl)]
    isl = lambda x: isinstance(x, list) and all(isinstance(i, int) for i in x)
    for si, s in enumerate(shapes):
        ls, td = jax.tree_util.tree_flatten(s, is_leaf=isl)
        J({"shapes": si}, (), lambda: b0.define_accumulator_by_shape("x", s))
        for i in range(len(ls)):
            for k, v in bad.items():
                l2 = list(ls)
                l2[i] = v
                R.state((si, i, k))
                J({"shapes": si, "place": i, "malformed": k}, (ValueError,),
                  lambda: b0.define_accumulator_by_shape("x", jax.tree_util.tree_unflatten(td, l2)))
    R.trace()
    R.sample({"malformed": sorted(bad)})
    unchanged(R, lib, b0, J)


def unchanged(R, lib, b0, J):
    """Nothing of this, refused or accepted, changed the builder; it goes on."""
    R.checks += 1
    d = lib.same_obs(lib.observe(b0), J.o0)
    if d:
        R.violation({}, "the builder changed: %s" % d)
    c = b0.define_accumulator_directly("x", b0.accumulators["y"]).build()
    if set(c.accumulators) != {"x", "y"}:
        R.violation({}, "accumulators %s after refused definitions" % sorted(c.accumulators))


def run_new(task, R, lib):
    jnp = lib.jnp
    CB = lib.ControllerBuilder
    eps = [0.0, -0.0, 1.0, -1e-4, 1.0001, 2.0, -1.0, float("nan"), float("inf"), float("-inf"), 1e-300, 5e-324, -5e-324, 1e-30, 1e-9, 1e-4, 0.1, 0.25, 0.5, 0.9,
           0.999, float(np.nextafter(1.0, 0.0)), float(np.nextafter(1.0, 2.0)), 0, 1, 2, True, False]
    good = ["none", "default", jnp.float32, jnp.float16, jnp.bfloat16, "float32", "float16", "bfloat16", np.float32, np.dtype("float32"), np.float16, float, jnp.dtype("bfloat16"), jnp.float8_e4m3fn, "float8_e5m2"]
    bad = [jnp.int32, jnp.int8, "int32", np.int64, np.dtype("int32"), int, jnp.bool_, bool, "bool", jnp.uint8, jnp.complex64, complex, "complex64", np.uint16]
    if task.get("x64"):
        good += [jnp.float64, "float64"]
        bad += [jnp.int64, jnp.complex128]
    J = Judge(R, lib, CB.new_builder(2))
    for dt in good + bad:
        for e in eps:
            for b in (2, [2, 3], []):
                kinds = () if any(dt is g for g in good) and 0 < e < 1 else (ValueError,)
                kw = {} if isinstance(dt, str) and dt == "default" else {"core_dtype": None if isinstance(dt, str) and dt == "none" else dt}
                R.state((str(dt), repr(e), repr(b)))
                c = J({"core_dtype": str(dt), "epsilon": repr(e), "batch": b}, kinds, lambda: CB.new_builder(b, epsilon=e, **kw).build())
                if c is not None and "float" not in str(c.probabilities.dtype):
                    R.violation({"core_dtype": str(dt)}, "probabilities have dtype %s" % c.probabilities.dtype)
    for dt in good:
        J({"core_dtype": str(dt), "epsilon": "default"}, (), lambda: CB.new_builder(2, None if isinstance(dt, str) and dt in ("none", "default") else dt))
    R.trace()
    R.sample({"epsilons": [repr(e) for e in eps], "dtypes": [str(d) for d in good + bad]})
