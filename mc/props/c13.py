"""C13: a built controller is exactly what was defined."""
import itertools
import numpy as np

BOUNDS = ("all sequences of up to 3 definitions (thorough 4) over 2 names x 11 kinds of definition (with values that are not finite among them) and of up to 4 (5) over "
          "3 names x 3 kinds, without deduplication, of up to 2 over 16 names alike, for batch shapes of rank 0-3 given as int, list and tuple, core "
          "dtypes float32/float16/bfloat16/float64/default, epsilons and depression constants; each builder on the way is "
          "built, re-observed after its descendants were made, and its controller is run")
ASSUMPTIONS = ["definitions are trees of jax arrays; redefinition warnings are not part of the property"]

EPS = (1e-4, 0.25, 0.999, 1e-7)
DEP = (1.0, 0.5, 0.0, 2.0)


def tasks(tier):
    th = tier == "thorough"
    t = []
    batches = (2, [2], (2,), [], (), [1, 2], (2, 1), [2, 2], (1, 2, 1), 1)
    for i, b in enumerate(batches):
        cd = (None, "f4", "b2", "f2")[i % 4]
        t.append(dict(kind="seq", batch=b, bkind=type(b).__name__, core=cd, eps=EPS[i % 4], dep=DEP[(i // 2) % 4], names=["b", "a"], group="all",
                      depth=3 if th or i in (0, 5) else 2, cost=9 if i in (0, 5) else 2, may_crash_xla=cd == "f2"))
    for i, b in enumerate(((2,), [2, 1], 3)):
        t.append(dict(kind="seq", batch=b, bkind=type(b).__name__, core=None, eps=EPS[i], dep=DEP[i], names=["z", "m", "10"],
                      group="few%d" % (i % 2), depth=(5 if th and i == 0 else 4) if th or i < 1 else 3, cost=9))
    # names that are easily taken for one another, or for something else
    t.append(dict(kind="seq", batch=[2], bkind="list", core=None, eps=0.25, dep=0.5, names=["a", "a ", " a", "A", "", " ", "epsilon", "state", "1", "a.b", "\u00e4", "a\u0308", "K", "\u212a", "fi", "\ufb01"],
                  group="few1", depth=2, cost=4))
    t.append(dict(kind="seq", batch=[2], bkind="list", core=None, eps=0.25, dep=0.5, names=["b", "a"], group="x64", depth=3, cost=5, x64=True))
    t.append(dict(kind="seq", batch=[2], bkind="list", core="f8", eps=1e-9, dep=0.25, names=["b", "a"], group="x64", depth=2, x64=True))
    for i, b in enumerate((2, [], [2, 3])):
        t.append(dict(kind="fills", batch=b, bkind=type(b).__name__, cost=2))
    t.append(dict(kind="new"))
    t.append(dict(kind="new", x64=True))
    return t


def mk_batch(task):
    b = task["batch"]
    return {"int": int, "list": list, "tuple": tuple}[task["bkind"]](b) if task["bkind"] != "int" else int(b)


def as_shape(b):
    return (int(b),) if isinstance(b, int) else tuple(b)


# kinds of definitions: name -> (how, spec)
def kinds(group, lib):
    L = lib.Lf
    d = lambda s: ("direct", s, None, None)
    s = lambda s, dt=None, fill=None: ("shape", s, dt, fill)
    full = {"d_vec": d(L(2)), "d_tuple": d((L(), lib.Rec(L(3), {"k": L(2), "e": [L(1)]}), lib.OrderedDict([("z", L(2)), ("b", L())]))), "d_b2": d([L(2, dt="b2"), L(dt="f4")]),
            "d_f2": d({"y": L(dt="f2"), "x": L(2, 2)}), "d_empty": d((L(2), (), {})), "d_vec2": d(L(2)),
            "s_one": s(L(2)), "s_tree": s({"q": L(), "b": lib.Pt(L(2), lib.Box([L(1, 2)], 1))}, "b2", 2.5), "s_list": s([L(), L(2)], None, -1.0),
            "d_odd": ("odd", {"n": L(2), "i": (L(),)}, None, None),
            "s_pos": s((L(3),), "f4", None)}
    if group == "all":
        return full
    if group == "few0":
        return {k: full[k] for k in ("d_vec", "s_tree", "d_f2")}
    if group == "few1":
        return {k: full[k] for k in ("d_vec", "d_vec2", "s_list")}
    return {"d8": d(L(2, dt="f8")), "d4": d((L(2), {"a": L(dt="f8")})), "s_def": s([L(2), L(2)]), "s8": s({"x": L(2), "c": L()}, "f8", 0.1),
            "db2": d(L(1, dt="b2")), "s2": s(L(2), "f2", 0.5)}


class Defn:
    """A kind of definition, prepared: arguments for the code, and what must come of it."""

    def __init__(self, lib, batch, how, spec, dt, fill, salt):
        self.how = "direct" if how == "odd" else how
        if self.how == "direct":
            self.val = lib.values(spec, batch, salt)
            if how == "odd":            # not finite everywhere
                self.val = lib.tmap(lambda x: np.where((np.arange(x.size) % 2 == 1).reshape(x.shape), (np.nan, np.inf)[x.ndim % 2], x), self.val)
            self.arg = lib.to_jax(self.val, spec)
            self.dts = [l.dt for l in lib.leaf_specs(spec)]
            self.kw = {}
        else:
            f = 0.0 if fill is None else fill
            dd = dt or "f4"
            f = float(np.asarray(lib.jnp.asarray(f, lib.DT[dd])).astype(np.float64))
            self.val = lib.map_specs(lambda l: np.full(tuple(batch) + l.extra, f), spec)
            self.arg = lib.map_specs(lambda l: list(batch) + list(l.extra), spec)
            self.dts = [dd] * len(lib.leaf_specs(spec))
            self.kw = {}
            if dt:
                self.kw["dtype"] = lib.DT[dt]
            if fill is not None:
                self.kw["fill"] = fill
        self.same = [(lib.map_specs(lambda l: 0, spec))]

    def apply(self, b, name):
        if self.how == "direct":
            return b.define_accumulator_directly(name, self.arg)
        return b.define_accumulator_by_shape(name, self.arg, **self.kw)


SHORT = {"float32": "f4", "float16": "f2", "bfloat16": "b2", "float64": "f8"}


def dtypes_of(jax, tree):
    return [SHORT.get(str(l.dtype), str(l.dtype)) for l in jax.tree_util.tree_leaves(tree)]


def run(task, R):
    import warnings
    warnings.simplefilter("ignore")
    import jax
    from .. import lib
    if task["kind"] == "new":
        return run_new(task, R, lib, jax)
    if task["kind"] == "fills":
        return run_fills(task, R, lib, jax)
    CB = lib.ControllerBuilder
    raw = mk_batch(task)
    batch = as_shape(raw)
    core = task["core"]
    defs = []
    for i, nm in enumerate(task["names"]):
        for j, (k, (how, spec, dt, fill)) in enumerate(kinds(task["group"], lib).items()):
            defs.append((nm, k, Defn(lib, batch, how, spec, dt, fill, 3 * i + 7 * j)))
    coredt = core or ("f8" if task.get("x64") else "f4")
    args = [raw] + ([lib.DT[core]] if core else [])
    kw = dict(epsilon=task["eps"], depression_constant=task["dep"])
    root = CB.new_builder(*args, **kw)
    ran = {}

    def expect(st):
        z = np.zeros(batch)
        t = {nm: d.val for nm, (k, d) in st.items()}
        return {"p": z, "r": z, "n": z, "acc": t, "dft": t, "upd": {nm: None for nm in st}, "eps": task["eps"], "dep": task["dep"]}

    def examine(b, st, case):
        want = expect(st)
        R.checks += 4
        d = lib.differs({k: v for k, v in lib.observe(b).items() if k != "dep"}, want)
        if d:
            R.violation(case, "builder: %s" % d)
        c = b.build()
        d = lib.differs(lib.observe(c), want)
        if d:
            R.violation(case, "built controller: %s" % d)
        rep = lib.reports(c)
        if rep["halted"].any() or rep["cached"] or rep["all"] or rep["any"] or rep["ready"] != (not st):
            R.violation(case, "fresh controller reports %s" % rep)
        v = c.make_viewer()
        for what, dd in (("accumulators", c.accumulators), ("defaults", v.defaults)):
            if set(dd) != set(st):
                R.violation(case, "%s has names %s" % (what, sorted(dd)))
            for nm in st:
                if dtypes_of(jax, dd[nm]) != sorted_dts(st[nm][1]):
                    R.violation(case, "%s %r has dtypes %s, expected %s" % (what, nm, dtypes_of(jax, dd[nm]), sorted_dts(st[nm][1])))
        for what in ("probabilities", "residuals", "iterations"):
            if SHORT[str(getattr(c, what).dtype)] != coredt:
                R.violation(case, "%s has dtype %s" % (what, getattr(c, what).dtype))
        return c

    def sorted_dts(d):
        # tree_leaves orders dictionaries by key, as leaf_specs does
        return d.dts

    def go_on(c, st, case):
        """The built controller runs as any controller with these contents."""
        from ..model import Model, tmap
        key = tuple(sorted((nm, k) for nm, (k, d) in st.items()))
        if key in ran or len(ran) > 60:
            return
        ran[key] = 1
        m = Model.fresh(batch, task["eps"], task["dep"], {nm: d.val for nm, (k, d) in st.items()})
        h = np.array([1.0, 0.5, 0.25, 0.75] * 3)[:int(np.prod(batch, dtype=int))].reshape(batch)
        for step in range(2):
            u = {nm: tmap(lambda x: np.full(x.shape, 2.0 + step), d.val) for nm, (k, d) in st.items()}
            for nm, (k, d) in st.items():
                tree = jax.tree_util.tree_map(lambda x: lib.jnp.full(x.shape, 2 + step, x.dtype), c.accumulators[nm])
                c = c.cache_update(nm, tree)
            c = c.iterate_act(lib.jnp.asarray(h, lib.DT[coredt]))
            m = m.but(upd=u).iterate(h)
            R.checks += 1
            R.trans()
            d = lib.differs(lib.observe(c), lib.model_obs(m), tol=2e-2 if any("f4" != x for _, dd in st.values() for x in dd.dts) or coredt != "f4" else 1e-5)
            if d:
                R.violation(case, "running the built controller: %s" % d)
        c, m = c.reset_batches(), m.reset()
        d = lib.differs(lib.observe(c), lib.model_obs(m), tol=2e-2)
        R.checks += 1
        if d:
            R.violation(case, "resetting the built controller: %s" % d)

    def rec(b, st, hist):
        case = {"task": task, "definitions": [list(x) for x in hist]}
        c = examine(b, st, case)
        go_on(c, st, case)
        R.state(tuple(sorted((nm, k) for nm, (k, d) in st.items())))
        if len(hist) < task["depth"]:
            for nm, k, d in defs:
                st2 = dict(st)
                st2[nm] = (k, d)
                R.trans()
                rec(d.apply(b, nm), st2, hist + [(nm, k)])
            # forks: what was made from this builder, or built from it, did not change it
            R.checks += 2
            df = lib.differs({k: v for k, v in lib.observe(b).items() if k != "dep"}, expect(st)) or lib.differs(lib.observe(c), expect(st))
            if df:
                R.violation(case, "after its forks were defined: %s" % df)
        else:
            R.trace()
    rec(root, {}, [])
    R.outcome((task["group"], len(R.states)))
    R.sample({"definitions": [[d[0], d[1]] for d in defs], "batch": batch, "depth": task["depth"]})


def run_fills(task, R, lib, jax):
    """Fills, dtypes and shape trees of define_accumulator_by_shape."""
    raw = mk_batch(task)
    batch = as_shape(raw)
    L = lib.Lf
    b0 = lib.ControllerBuilder.new_builder(raw)
    specs = [L(), L(2), L(0), L(3, 1), (L(),), [L(2)], [L(), L()], {"a": L(2), "b": L(3)}, {"b": (L(), [L(2), {"c": L(1)}]), "a": L()},
             (), {}, ((L(), ()), {}), [[[L()]]], (L(1), L(2), L(3), L(4))]
    dts = {"default": "f4", "f4": "f4", "f2": "f2", "b2": "b2"}
    fills = [None, 0.0, 1, -2.5, 7.0, float("inf"), float("nan"), True]
    spell = {"f4": [lib.jnp.float32, "float32", np.float32, np.dtype("float32")], "f2": [lib.jnp.float16, "float16"],
             "b2": [lib.jnp.bfloat16, "bfloat16"], "default": [None]}
    for si, spec in enumerate(specs):
        arg = lib.map_specs(lambda l: list(batch) + list(l.extra), spec)
        if arg == [] and not isinstance(spec, L):
            continue
        for dt, exp in dts.items():
            for sp in spell[dt]:
                for fill in fills:
                    kw = {}
                    if dt != "default":
                        kw["dtype"] = sp
                    if fill is not None:
                        kw["fill"] = fill
                    b = b0.define_accumulator_by_shape("x", arg, **kw)
                    f = 0.0 if fill is None else float(fill)
                    want = {"x": lib.map_specs(lambda l: np.full(batch + l.extra, f), spec)}
                    case = {"spec": si, "dtype": str(sp), "fill": fill, "batch": list(batch)}
                    R.trans()
                    R.checks += 2
                    o = lib.observe(b.build())
                    for k in ("acc", "dft"):
                        d = lib.differs({k: o[k]}, {k: want}, [k], tol=0.0)
                        if d:
                            R.violation(case, "defined by shape %s: %s" % (arg, d))
                    got = dtypes_of(jax, dict(b.accumulators)["x"])
                    if any(x != exp for x in got):
                        R.violation(case, "dtypes %s, expected %s" % (got, exp))
                    R.state((si, dt, str(fill)))
    R.trace()
    R.outcome("fills")
    R.sample({"shape trees": len(specs)})


def run_new(task, R, lib, jax):
    """The new builder alone: every combination of its arguments."""
    CB = lib.ControllerBuilder
    x64 = bool(task.get("x64"))
    batches = [0, 1, 2, 3, [], (), [2], (3,), [1, 2], (2, 1), [2, 3, 1], (1, 1, 1, 1), [0], [2, 0]]
    cores = [("default", "f8" if x64 else "f4"), (None, "f8" if x64 else "f4"), (lib.jnp.float32, "f4"), ("float16", "f2"), (lib.jnp.bfloat16, "b2"),
             (np.float32, "f4"), (np.dtype("float16"), "f2")] + ([(lib.jnp.float64, "f8")] if x64 else [])
    for raw in batches:
        batch = as_shape(raw)
        for core, exp in cores:
            for eps in (None,) + EPS:
                for dep in (None,) + DEP + (1, lib.jnp.asarray(0.5)):
                    kw = {}
                    if core is not None and not isinstance(core, str) or isinstance(core, str) and core != "default":
                        kw["core_dtype"] = core
                    if eps is not None:
                        kw["epsilon"] = eps
                    if dep is not None:
                        kw["depression_constant"] = dep
                    b = CB.new_builder(raw, **kw)
                    c = b.build()
                    z = np.zeros(batch)
                    want = {"p": z, "r": z, "n": z, "acc": {}, "dft": {}, "upd": {}, "eps": 1e-4 if eps is None else eps,
                            "dep": 1.0 if dep is None else float(dep)}
                    case = {"batch": repr(raw), "core": str(core), "eps": eps, "dep": str(dep)}
                    R.trans()
                    R.checks += 2
                    d = lib.differs(lib.observe(c), want, tol=0.0)
                    if d:
                        R.violation(case, "new builder: %s" % d)
                    for t in (c.probabilities, c.residuals, c.iterations, b.probabilities, b.residuals, b.iterations):
                        if SHORT[str(t.dtype)] != exp:
                            R.violation(case, "dtype %s, expected %s" % (t.dtype, exp))
                    R.state((repr(raw), str(core), eps, str(dep)))
    R.trace()
    R.outcome("new")
    R.sample({"batches": [repr(b) for b in batches]})
