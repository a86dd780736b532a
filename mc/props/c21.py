"""C21: the Flax layer computes the bounded loop with its own parameters."""
import itertools
import numpy as np

BOUNDS = ("18 layer architectures (own parameters, parts in setup, parts with inline definitions, a part passed in, shared, without "
          "parameters, nested ACT layers, as submodule of inline and setup modules, twice in a row, called twice, parts and layers behind jit and remat of Flax, with read-only collections, with a tree as state), every setting of 5 parameters "
          "over 2-3 values (48) x every input of 2 elements over 4 values (16) x maxima 0-4 and 10 x 2 depression constants x checking on and off, "
          "compiled and mapped, against the model; a part of them eagerly; initialisation for every input, maximum and random key, eager and "
          "compiled; missing setup at every place")
ASSUMPTIONS = ["the iteration of the layer is a pure function of state and parameters; collections other than params are not changed in the loop"]

MAXES = (0, 1, 2, 3, 4, 10)
VARIANTS = ("own", "setup", "inline", "passed", "paramless", "in compact", "in setup", "inline in compact", "chain", "twice", "nested", "deep",
            "shared", "lifted", "lifted whole", "constants", "frozen", "state tree")


def tasks(tier):
    th = tier == "thorough"
    t = []
    for i, v in enumerate(VARIANTS):
        for dep in (1.0, 0.5):
            t.append(dict(kind="space", variant=v, dep=dep, check=(i + (dep == 1.0)) % 2 == 0, grid="large" if th else "small", cost=8))
            if th:
                t.append(dict(kind="space", variant=v, dep=dep, check=(i + (dep == 1.0)) % 2 == 1, grid="large", cost=8))
        t.append(dict(kind="init", variant=v, every=3 if th else 7, cost=8))
        t.append(dict(kind="eager", variant=v, stride=61 if th else 255, cost=12))
    t.append(dict(kind="refuse", cost=4))
    t.append(dict(kind="contract", cost=4))
    return t


def run(task, R):
    import jax
    from jax import numpy as jnp
    from .. import lib
    from src.jax_act.frameworks.flax import FlaxACTLayer
    from flax import linen as nn
    globals()["run_" + task["kind"]](task, R, jax, jnp, lib, nn, modules(jax, jnp, nn, FlaxACTLayer))


_cache = {}


def modules(jax, jnp, nn, FlaxACTLayer):
    if _cache:
        return _cache
    one = nn.initializers.normal(1.0)

    class Affine(nn.Module):
        """Own parameters."""
        def setup(self):
            self.w, self.b = self.param("w", one, ()), self.param("b", one, ())

        def __call__(self, x):
            return x * self.w + self.b

    class Inline(nn.Module):
        """Parts are defined inline, two levels of them."""
        @nn.compact
        def __call__(self, x):
            return Affine(name="inner")(x) if self.name != "gate" else InlineLeaf(name="inner")(x)

    class InlineLeaf(nn.Module):
        @nn.compact
        def __call__(self, x):
            return nn.Dense(1, name="d", kernel_init=one, bias_init=one)(x[..., None])[..., 0]

    class Base(FlaxACTLayer):
        eps: float = 0.25
        maximum: int = 10
        check: bool = True

        def setup(self):
            self.w, self.b = self.param("w", one, ()), self.param("b", one, ())
            self.v, self.c = self.param("v", one, ()), self.param("c", one, ())
            self.u = self.param("u", one, ())

        def move(self, x):
            return x * self.w + self.b

        def gate(self, x):
            return x * self.v + self.c

        def out(self, x):
            return (x * self.u)[..., None]

        def make_controller(self, state, depression_constant, *args, **kwargs):
            b = self.new_builder([2], None, self.eps, depression_constant)
            return b.define_accumulator_by_shape("o", [2, 1]).define_accumulator_by_shape("s", [2], fill=1.0).build()

        def run_iteration(self, controller, state):
            state = self.move(state)
            controller = controller.cache_update("o", self.out(state)).cache_update("s", state)
            return controller.iterate_act(self.gate(state)), state

        def __call__(self, x, dep=1.0, maximum=None):
            c, s = self.execute_act(x, dep, self.maximum if maximum is None else maximum, self.check)
            return result(c, s)

    def result(c, s):
        return dict(p=c.probabilities, r=c.residuals, n=c.iterations, acc=dict(c.accumulators), s=s, dep=c.depression_constant * jnp.ones(()), all=c.is_completely_halted)

    class Setup(Base):
        def setup(self):
            self.mover, self.gater = Affine(), nn.Dense(1, kernel_init=one, bias_init=one)
            self.u = self.param("u", one, ())

        def move(self, x):
            return self.mover(x)

        def gate(self, x):
            return self.gater(x[..., None])[..., 0]

    class WithInline(Base):
        def setup(self):
            self.mover, self.gater = Inline(), InlineLeaf()
            self.u = self.param("u", one, ())

        def move(self, x):
            return self.mover(x)

        def gate(self, x):
            return self.gater(x)

    class Passed(Base):
        mover: nn.Module = None

        def setup(self):
            self.gater = InlineLeaf()
            self.u = self.param("u", one, ())

        def move(self, x):
            return self.mover(x)

        def gate(self, x):
            return self.gater(x)

    class Paramless(Base):
        def setup(self):
            pass

        def move(self, x):
            return x * 0.5 + 0.25

        def gate(self, x):
            return x * 0.5 + 0.25

        def out(self, x):
            return (x * -2.0)[..., None]

    class InCompact(nn.Module):
        kw: tuple = ()

        @nn.compact
        def __call__(self, x, dep=1.0, maximum=None):
            return Setup(name="act", **dict(self.kw))(x, dep, maximum)

    class InlineInCompact(nn.Module):
        kw: tuple = ()

        @nn.compact
        def __call__(self, x, dep=1.0, maximum=None):
            return WithInline(name="act", **dict(self.kw))(x, dep, maximum)

    class InSetup(nn.Module):
        kw: tuple = ()

        def setup(self):
            self.act = Base(**dict(self.kw))

        def __call__(self, x, dep=1.0, maximum=None):
            return self.act(x, dep, maximum)

    class Chain(nn.Module):
        kw: tuple = ()

        @nn.compact
        def __call__(self, x, dep=1.0, maximum=None):
            a = WithInline(name="first", **dict(self.kw))(x, dep, maximum)
            return Base(name="second", **dict(self.kw))(a["s"], dep, maximum)

    class Twice(nn.Module):
        kw: tuple = ()

        def setup(self):
            self.act = WithInline(**dict(self.kw))

        def __call__(self, x, dep=1.0, maximum=None):
            return self.act(self.act(x, dep, maximum)["s"], dep, maximum)

    class Nested(Base):
        """The iteration itself runs an ACT layer, for at most two steps."""
        def setup(self):
            self.inner = WithInline(eps=self.eps, maximum=2, check=self.check)
            self.gater = nn.Dense(1, kernel_init=one, bias_init=one)
            self.u = self.param("u", one, ())

        def move(self, x):
            return self.inner(x)["s"]

        def gate(self, x):
            return self.gater(x[..., None])[..., 0]

    class Shared(Base):
        """One part used twice in each iteration."""
        def setup(self):
            self.part = Inline()
            self.u = self.param("u", one, ())

        def move(self, x):
            return self.part(x)

        def gate(self, x):
            return self.part(x)

    class Lifted(Base):
        """Parts behind transformations of Flax."""
        def setup(self):
            self.mover, self.gater = nn.remat(Inline)(), nn.jit(InlineLeaf)()
            self.u = self.param("u", one, ())

        def move(self, x):
            return self.mover(x)

        def gate(self, x):
            return self.gater(x)

    class LiftedWhole(nn.Module):
        kw: tuple = ()

        def setup(self):
            self.act = nn.jit(WithInline, static_argnums=())(**dict(self.kw))

        def __call__(self, x, dep=1.0, maximum=None):
            return self.act(x, dep, maximum)

    class Constants(Base):
        """Some of what the iteration needs is in another collection, which it only reads."""
        def setup(self):
            mk = lambda: one(self.make_rng("params"), ())
            self.cw, self.cv = self.variable("consts", "w", mk), self.variable("consts", "v", mk)
            self.b, self.c, self.u = self.param("b", one, ()), self.param("c", one, ()), self.param("u", one, ())

        def move(self, x):
            return x * self.cw.value + self.b

        def gate(self, x):
            return x * self.cv.value + self.c

    class Frozen(Base):
        """Without parameters, all in another collection."""
        def setup(self):
            mk = lambda: one(self.make_rng("params"), ())
            self.k = {n: self.variable("consts", n, mk) for n in "wbvcu"}

        def move(self, x):
            return x * self.k["w"].value + self.k["b"].value

        def gate(self, x):
            return x * self.k["v"].value + self.k["c"].value

        def out(self, x):
            return (x * self.k["u"].value)[..., None]

    class StateTree(WithInline):
        """The state is a tree, with counters and an unused array in it."""
        def run_iteration(self, controller, state):
            y = self.move(state["x"][0])
            controller = controller.cache_update("o", self.out(y)).cache_update("s", y)
            return controller.iterate_act(self.gate(y)), {"x": (y, state["x"][1] + 1), "k": state["k"]}

        def __call__(self, x, dep=1.0, maximum=None):
            s = {"x": (x, jnp.asarray(0)), "k": jnp.arange(3)}
            c, s = self.execute_act(s, dep, self.maximum if maximum is None else maximum, self.check)
            return result(c, s["x"][0] + 0 * (s["k"].sum() - 3))

    class Deep(nn.Module):
        kw: tuple = ()

        @nn.compact
        def __call__(self, x, dep=1.0, maximum=None):
            return InCompact(self.kw, name="x")(x, dep, maximum)

    kern = lambda a: a.reshape(a.shape + (1, 1))
    bias = lambda a: a.reshape(a.shape + (1,))
    own = lambda w, b, v, c, u: dict(w=w, b=b, v=v, c=c, u=u)
    dense = lambda w, b: dict(kernel=kern(w), bias=bias(b))
    aff = lambda w, b: dict(w=w, b=b)
    setup = lambda w, b, v, c, u: dict(mover=aff(w, b), gater=dense(v, c), u=u)
    inline = lambda w, b, v, c, u: dict(mover=dict(inner=aff(w, b)), gater=dict(d=dense(v, c)), u=u)

    def mk(cls):
        return lambda kw: cls(kw=tuple(sorted(kw.items())))
    table = {
        "own": (lambda kw: Base(**kw), own),
        "setup": (lambda kw: Setup(**kw), setup),
        "inline": (lambda kw: WithInline(**kw), inline),
        "passed": (lambda kw: Passed(mover=Affine(), **kw), lambda w, b, v, c, u: dict(mover=aff(w, b), gater=dict(d=dense(v, c)), u=u)),
        "paramless": (lambda kw: Paramless(**kw), None),
        "in compact": (mk(InCompact), lambda *a: dict(act=setup(*a))),
        "in setup": (mk(InSetup), lambda *a: dict(act=own(*a))),
        "inline in compact": (mk(InlineInCompact), lambda *a: dict(act=inline(*a))),
        "chain": (mk(Chain), lambda w, b, v, c, u: dict(first=inline(w, b, v, c, u), second=own(w, b, c + v, v, u))),
        "twice": (mk(Twice), lambda *a: dict(act=inline(*a))),
        "nested": (lambda kw: Nested(**kw), lambda w, b, v, c, u: dict(inner=inline(w, b, v, c, u), gater=dense(c, v), u=u)),
        "deep": (mk(Deep), lambda *a: dict(x=dict(act=setup(*a)))),
        "shared": (lambda kw: Shared(**kw), lambda w, b, v, c, u: dict(part=dict(inner=aff(w, b)), u=u)),
        "lifted": (lambda kw: Lifted(**kw), inline),
        "lifted whole": (mk(LiftedWhole), lambda *a: dict(act=inline(*a))),
        "state tree": (lambda kw: StateTree(**kw), inline),
        "constants": (lambda kw: Constants(**kw), lambda w, b, v, c, u: {"params": dict(b=b, c=c, u=u), "consts": dict(w=w, v=v)}),
        "frozen": (lambda kw: Frozen(**kw), lambda *a: {"consts": own(*a)}),
    }
    _cache.update(table=table, Base=Base, Setup=Setup, WithInline=WithInline, FlaxACTLayer=FlaxACTLayer, Affine=Affine)
    return _cache


# ------------------------------------------------------------------ reference

def loop(eps, dep, x, maximum, move, gate, out):
    """The bounded loop for all runs at once: x [K, 2]. Returns (model, state)."""
    from ..model import Model
    z = np.zeros(x.shape)
    d = {"o": np.zeros(x.shape + (1,)), "s": np.ones(x.shape)}
    m = Model(eps, dep, z, z, z, d, d, {"o": None, "s": None})
    for _ in range(maximum):
        going = ~m.halted.all(axis=1)
        if not going.any():
            break
        y = move(x)
        m = m.but(upd={"o": out(y)[..., None], "s": y}).iterate(gate(y))
        x = np.where(going[:, None], y, x)
    return m, x


def reference(variant, eps, dep, x, maximum, prm):
    w, b, v, c, u = [a[:, None] for a in prm]
    std = (lambda y: y * w + b, lambda y: y * v + c, lambda y: y * u)
    if variant == "paramless":
        return loop(eps, dep, x, maximum, lambda y: y * 0.5 + 0.25, lambda y: y * 0.5 + 0.25, lambda y: y * -2.0)
    if variant == "shared":
        return loop(eps, dep, x, maximum, std[0], std[0], std[2])
    if variant == "chain":
        _, s = loop(eps, dep, x, maximum, *std)
        return loop(eps, dep, s, maximum, std[0], lambda y: y * (c + v) + v, std[2])
    if variant == "twice":
        _, s = loop(eps, dep, x, maximum, *std)
        return loop(eps, dep, s, maximum, *std)
    if variant == "nested":
        return loop(eps, dep, x, maximum, lambda y: loop(eps, 1.0, y, 2, *std)[1], lambda y: y * c + v, std[2])
    return loop(eps, dep, x, maximum, *std)


def grid(size):
    if size == "large":
        vals = ((1.0, 0.5, -1.0), (0.0, 0.25), (0.5, 1.0, 0.0), (0.0, 0.25, 0.125), (1.0, -2.0))
        xs = (-0.5, 0.0, 0.25, 0.5, 1.0)
    else:
        vals = ((1.0, 0.5, -1.0), (0.0, 0.25), (0.5, 1.0), (0.0, 0.25), (1.0, -2.0))
        xs = (-0.5, 0.0, 0.25, 1.0)
    P = np.array(list(itertools.product(*vals)))
    X = np.array(list(itertools.product(xs, repeat=2)))
    i, j = np.meshgrid(np.arange(len(P)), np.arange(len(X)), indexing="ij")
    return P[i.ravel()], X[j.ravel()]


def compare(R, lib, o, m, s, case, rows=None):
    a = lambda x: np.asarray(x, dtype=np.float64)
    fields = [("probabilities", a(o["p"]), m.p), ("residuals", a(o["r"]), m.r), ("iterations", a(o["n"]), m.n), ("accumulator o", a(o["acc"]["o"]), m.acc["o"]),
              ("accumulator s", a(o["acc"]["s"]), m.acc["s"]), ("state", a(o["s"]), s)]
    R.checks += len(fields) + 1
    for name, x, y in fields:
        if x.shape != y.shape:
            R.violation(case(None), "%s has the shape %s, expected %s" % (name, x.shape, y.shape))
        bad = ~np.isclose(x, y, rtol=1e-5, atol=1e-5).reshape(len(x), -1).all(axis=1)
        if bad.any():
            i = int(np.argmax(bad))
            R.violation(case(i), "%s: %s, expected %s" % (name, x[i].tolist(), y[i].tolist()))
    if not np.array_equal(np.asarray(o["all"]), m.halted.all(axis=1)):
        R.violation(case(None), "completion is reported differently")


def variables(V, variant, prm, jnp):
    f = V["table"][variant][1]
    if f is None:
        return {}
    out = f(*[jnp.asarray(prm[..., k], jnp.float32) for k in range(5)])
    return out if "consts" in out else {"params": out}


def run_space(task, R, jax, jnp, lib, nn, V):
    variant, dep = task["variant"], task["dep"]
    mod = V["table"][variant][0](dict(eps=0.25, check=task["check"]))
    P, X = grid(task["grid"])
    f = jax.jit(jax.vmap(lambda p, x, d, mx: mod.apply(variables(V, variant, p, jnp), x, d, mx), (0, 0, None, None)))
    for mx in MAXES:
        o = jax.tree_util.tree_map(np.asarray, f(jnp.asarray(P, jnp.float32), jnp.asarray(X, jnp.float32), dep, mx))
        m, s = reference(variant, 0.25, dep, X, mx, P.T)
        compare(R, lib, o, m, s, lambda i: {"task": task, "maximum": mx, "parameters": None if i is None else P[i].tolist(), "input": None if i is None else X[i].tolist()})
        R.checks += 1
        if not np.allclose(o["dep"], dep):
            R.violation({"task": task}, "depression constant %s" % o["dep"][0])
        R.trans(int(m.n.max(axis=1).sum()) + len(X))
        R.trace(len(X))
        R.add_states(len(np.unique(np.concatenate([m.p, m.r, m.n, s], axis=1).round(5), axis=0)))
        R.outcome((variant, mx, int(m.n.sum())))
    R.sample({"variant": variant, "runs": len(X)})


def run_eager(task, R, jax, jnp, lib, nn, V):
    """Without compilation, several calling conventions; parameters stay as they are."""
    variant = task["variant"]
    P, X = grid("small")
    for k in range(0, len(P), task["stride"]):
        for mx in (0, 1, 3, None):
            dep = (1.0, 0.5)[k % 2]
            mod = V["table"][variant][0](dict(eps=0.25, maximum=4, check=bool(k % 2)))
            var = variables(V, variant, P[k], jnp)
            before = jax.tree_util.tree_map(np.array, var)
            x = jnp.asarray(X[k], jnp.float32)
            m, s = reference(variant, 0.25, dep, X[k:k + 1], 4 if mx is None else mx, P[k:k + 1].T)
            case = lambda how: lambda i: {"task": task, "parameters": P[k].tolist(), "input": X[k].tolist(), "maximum": mx, "how": how}
            forms = [("apply", lambda: (mod.apply(var, x, dep, mx), None)), ("apply, mutable params", lambda: mod.apply(var, x, dep, mx, mutable=["params"])),
                     ("jit", lambda: (jax.jit(mod.apply)(var, x, dep, 4 if mx is None else mx), None)), ("bind", lambda: (mod.bind(var)(x, dep, mx), None)),
                     ("keywords", lambda: (mod.apply(var, x, maximum=mx, dep=dep), None))]
            for how, f in forms if k % 2 == 0 else forms[:2]:
                try:
                    o, new = f()
                except Exception as e:
                    e.mc_case = case(how)(0)
                    raise
                o = jax.tree_util.tree_map(lambda a: np.asarray(a)[None], o)
                compare(R, lib, o, m, s, case(how))
                now = var if new is None else new
                R.checks += 1
                kept = before if new is None else {k: v for k, v in before.items() if k == "params"}
                if kept and not same_tree(jax, now, kept) or not same_tree(jax, var, before):
                    R.violation(case(how)(0), "the parameters were changed: %s" % lib.short(jax.tree_util.tree_map(np.asarray, now)))
                R.trans(int(m.n.max()) + 1)
                R.trace()
                R.state((k, mx, how))
        R.outcome(variant)
    R.sample({"variant": variant})


def same_tree(jax, a, b):
    a, b = plain(a), plain(b)
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    return ta == tb and all(np.shape(x) == np.shape(y) and np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(la, lb))


def plain(t):
    return {k: plain(v) for k, v in t.items()} if hasattr(t, "items") else t


def run_init(task, R, jax, jnp, lib, nn, V):
    """Initialisation makes every parameter, whatever the input and the maximum; its output is that of applying."""
    variant = task["variant"]
    want = plain(jax.tree_util.tree_map(np.shape, variables(V, variant, np.zeros(5), jnp)))
    vals = (-0.5, 0.25, 1.0)
    ref = {}
    i = 0
    for x in itertools.product(vals, repeat=2):
        for mx in (0, 1, 3):
            for key in (0, 1):
                for check in (True, False):
                    i += 1
                    if i % task["every"]:
                        continue
                    mod = V["table"][variant][0](dict(eps=0.25, maximum=mx, check=check))
                    how = ("jit", "lazy")[i % 2] if i % 5 == 0 else "eager"
                    case = {"variant": variant, "input": x, "maximum": mx, "key": key, "how": how}
                    arg = jnp.asarray(x, jnp.float32)
                    k = jax.random.PRNGKey(key)
                    try:
                        if how == "eager":
                            o, var = mod.init_with_output(k, arg)
                        else:
                            var = (jax.jit(mod.init) if how == "jit" else mod.init)(k, arg)
                            o = None
                    except Exception as e:
                        e.mc_case = case
                        raise
                    shapes = plain(jax.tree_util.tree_map(np.shape, var))
                    R.checks += 2
                    R.trans()
                    R.trace()
                    if shapes != want:
                        R.violation(case, "the parameters made are %s, expected %s" % (shapes, want))
                    # the values depend on the key only
                    v = [np.asarray(l) for l in jax.tree_util.tree_leaves(plain(var))]
                    r = ref.setdefault(key, v)
                    if any(not np.allclose(a, b) for a, b in zip(v, r)):
                        R.violation(case, "the parameters depend on more than the key")
                    if o is not None:
                        o2 = mod.apply(var, arg)
                        R.checks += 1
                        if any(not np.allclose(a, b, rtol=1e-4, atol=1e-5) for a, b in zip(jax.tree_util.tree_leaves(o), jax.tree_util.tree_leaves(o2))):
                            R.violation(case, "the output while initialising differs from the one of applying: %s, %s" % (lib.short(jax.tree_util.tree_map(np.asarray, o)), lib.short(jax.tree_util.tree_map(np.asarray, o2))))
                    R.state((x, mx, key, check))
    R.outcome((variant, len(jax.tree_util.tree_leaves(want, is_leaf=lambda t: isinstance(t, tuple)))))
    R.sample({"variant": variant, "parameters": str(want)})


def run_refuse(task, R, jax, jnp, lib, nn, V):
    """Layers that do not define setup."""
    F = V["FlaxACTLayer"]

    class NoSetup(F):
        def make_controller(self, state, dep):
            return self.new_builder([2], None, 0.25, dep).define_accumulator_by_shape("a", [2]).build()

        def run_iteration(self, controller, state):
            return controller.cache_update("a", state).iterate_act(state), state

        def __call__(self, x):
            return self.execute_act(x)[0].accumulators["a"]

    class Child(NoSetup):
        width: int = 3

    class HasSetup(NoSetup):
        def setup(self):
            pass

    class GrandChild(HasSetup):
        pass

    class Supering(NoSetup):
        def setup(self):
            super().setup()

    class In(nn.Module):
        cls: type = None

        @nn.compact
        def __call__(self, x):
            return self.cls()(x)

    class InS(nn.Module):
        cls: type = None

        def setup(self):
            self.part = self.cls()

        def __call__(self, x):
            return self.part(x)
    x = jnp.asarray([0.5, 1.0])
    for cls, ok in ((NoSetup, False), (Child, False), (HasSetup, True), (GrandChild, True), (Supering, False)):
        for place, mk in (("direct", cls), ("in compact", lambda: In(cls=cls)), ("in setup", lambda: InS(cls=cls))):
            for how, f in (("init", lambda: mk().init(jax.random.PRNGKey(0), x)), ("apply", lambda: mk().apply({}, x)), ("jit", lambda: jax.jit(mk().apply)({}, x)),
                           ("eval_shape", lambda: jax.eval_shape(mk().init, jax.random.PRNGKey(0), x)), ("init jit", lambda: jax.jit(mk().init)(jax.random.PRNGKey(0), x))):
                R.checks += 1
                R.trans()
                R.trace()
                R.state((cls.__name__, place, how))
                case = {"class": cls.__name__, "place": place, "how": how}
                try:
                    f()
                except NotImplementedError:
                    if ok:
                        R.violation(case, "a layer with setup was refused")
                    continue
                if not ok:
                    R.violation(case, "a layer without setup was accepted")
                R.outcome((ok, how))
    R.sample({"classes": 5, "places": 3})


def run_contract(task, R, jax, jnp, lib, nn, V):
    """Violations of the layer contract are reported from Flax layers too, when checking is on."""
    F = V["FlaxACTLayer"]

    class L(F):
        fault: str = ""
        check: bool = True

        def setup(self):
            self.w = self.param("w", nn.initializers.ones, ())

        def make_controller(self, state, dep):
            b = self.new_builder([2], None, 0.25, dep)
            if self.fault == "no controller":
                return b
            if self.fault == "no accumulators":
                return b.build()
            return b.define_accumulator_by_shape("a", [2]).define_accumulator_by_shape("b", [2]).build()

        def run_iteration(self, controller, state):
            c = controller.cache_update("a", state * self.w)
            d = c.cache_update("b", state).iterate_act(state * 0 + 0.5)
            return {"same": lambda: (controller, state), "uncommitted": lambda: (c, state), "list": lambda: [d, state], "three": lambda: (d, state, 1), "one": lambda: (d,),
                    "swapped": lambda: (state, d), "bare": lambda: d}.get(self.fault, lambda: (d, state))()

        def __call__(self, x):
            return self.execute_act(x, 1.0, 3, self.check)[0].accumulators["a"]
    want = {"": None, "no controller": TypeError, "no accumulators": RuntimeError, "same": RuntimeError, "uncommitted": RuntimeError, "list": TypeError, "three": RuntimeError,
            "one": RuntimeError, "swapped": TypeError, "bare": TypeError}
    x = jnp.asarray([0.5, 1.0])
    var = {"params": {"w": jnp.ones(())}}
    for fault, exc in want.items():
        for how, f in (("init", lambda m: m.init(jax.random.PRNGKey(0), x)), ("apply", lambda m: m.apply(var, x)), ("jit", lambda m: jax.jit(m.apply)(var, x))):
            case = {"fault": fault, "how": how}
            R.checks += 1
            R.trans()
            R.trace()
            R.state((fault, how))
            try:
                f(L(fault=fault))
                got = None
            except Exception as e:
                got = e
            if exc is None and got is not None or exc is not None and not isinstance(got, exc):
                R.violation(case, "gives %r, expected %s" % (got, exc and exc.__name__))
            R.outcome((fault, type(got).__name__))
    out = L(fault="", check=False).apply(var, x)
    R.check(np.allclose(out, [0.5, 1.0]), {"fault": "", "check": False}, "gives %s" % out)
    # checking off: a loop that never commits runs on to its maximum unreported
    out = L(fault="same", check=False).apply(var, x)
    R.check(np.allclose(out, 0.0), {"fault": "same", "check": False}, "gives %s" % out)
    R.sample({"faults": list(want)})
