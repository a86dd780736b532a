"""C20: reports of contract violations."""
import itertools
import numpy as np

BOUNDS = ("14 wrong factory results; 40+ wrong iteration results (non-tuples, lengths 0-5, wrong first items of 12 kinds, the same "
          "controller, every non-empty subset of uncommitted updates before and after a commit) x the iteration (1st-4th) in which "
          "they occur x 6 accumulator sets x called directly on the wrapper, through the python loop and through the compiled loop, and as a Flax layer (applied, compiled, initialised); "
          "16 kinds of valid layers; layers that are wrong only after they were right; layers that execute right and wrong layers, checked or not; all of them with checking off")
ASSUMPTIONS = ["a violation that occurs in one of several iterations depends on a python-level counter, so it exists only in uncompiled loops",
               "if a result violates the contract in two ways, either of the error types will do"]


def tasks(tier):
    th = tier == "thorough"
    t = []
    for i, a in enumerate(("one", "two", "tuple", "nested", "swap", "five", "hollow", "vec", "record", "kinds") if th else ("one", "two", "tuple", "swap", "five", "kinds")):
        b = ((2,), (), (1, 2), (3,))[i % 4]
        for how in ("wrapper", "python", "compiled", "jit"):
            t.append(dict(acc=a, batch=b, how=how, cost={"wrapper": 1, "python": 5, "compiled": 5, "jit": 5}[how], deep=th or a == "two"))
    # as Flax layers
    for a, b in (("one", (2,)), ("two", (1, 2)), ("kinds", ())) + ((("tuple", (3,)), ("five", (2,))) if th else ()):
        for how in ("flax", "flaxjit", "flaxinit"):
            t.append(dict(acc=a, batch=b, how=how, cost=6, deep=th or a == "two"))
    # nothing but scalars
    for how in ("wrapper", "python", "jit"):
        t.append(dict(acc="one", batch=(), how=how, cost=3, deep=False))
    return t


def run(task, R):
    import jax
    from collections import namedtuple
    from .. import lib
    from ..actlayer import Layer
    from src.jax_act import AbstractACTTemplate
    from src.jax_act.layers import ContractValidationWrapper
    jnp = lib.jnp
    cfg = lib.cfg_of(task, eps=0.25)
    how = task["how"]
    base = Layer(cfg, "tuple")
    table = cfg.h(np.full((4,) + cfg.batch, 0.125))
    CB, TE = lib.ControllerBuilder, lib.TensorEditor
    Pair = namedtuple("Pair", "controller state")

    class Sub(tuple):
        pass

    class L(AbstractACTTemplate):
        def __init__(self, make=None, it=None, at=1):
            self.make, self.it, self.at, self.n, self.last = make, it, at, 0, None

        def make_controller(self, s, dep, *a, **k):
            c = base.make_controller(s, dep, *a, **k)
            return c if self.make is None else self.make(c)

        def setup_lazy_parameters(self, c, s):
            pass

        def run_iteration(self, c, s):
            self.n += 1
            good = base.run_iteration(c, s)
            self.last = good if self.it is None or self.n != self.at and self.at else self.it(c, s, *good)
            return self.last

    s0 = base.initial(table)
    again = {}
    if how.startswith("flax"):
        from typing import Any
        from src.jax_act.frameworks.flax import FlaxACTLayer

        class F(FlaxACTLayer):
            inner: Any
            maximum: int
            check: bool

            def setup(self):
                self.w = self.param("w", lambda key: jnp.ones(()))

            def make_controller(self, s, dep, *a, **k):
                return self.inner.make_controller(s, dep, *a, **k)

            def run_iteration(self, c, s):
                self.w
                return self.inner.run_iteration(c, s)

            def __call__(self, s):
                return self.execute_act(s, 1.0, self.maximum, self.check)

    def execute(layer, check, mx=4):
        """Runs the layer in the way of this task; returns the result."""
        if how == "wrapper":
            w = ContractValidationWrapper(layer, check)
            c, s = w.make_controller(s0, 1.0), s0
            for _ in range(mx):
                out = w.run_iteration(c, s)
                if len(out) != 2 or lib.same_obs(lib.observe(out[0]), lib.observe(layer.last[0])) or any(
                        a is not b for a, b in zip(jax.tree_util.tree_leaves(out[1]), jax.tree_util.tree_leaves(layer.last[1]))):
                    R.violation({"task": task}, "the wrapper changed the result of the iteration")
                c, s = out
            return c, s
        if how == "python":
            with jax.disable_jit():
                return layer.execute_act(s0, 1.0, mx, check)
        if how == "jit":
            return jax.jit(lambda s: layer.execute_act(s, 1.0, mx, check))(s0)
        if how == "flax":
            return F(layer, mx, check).apply({"params": {"w": jnp.ones(())}}, s0)
        if how == "flaxjit":
            return jax.jit(F(layer, mx, check).apply)({"params": {"w": jnp.ones(())}}, s0)
        if how == "flaxinit":
            return F(layer, mx, check).init_with_output(jax.random.PRNGKey(0), s0)[0]
        return layer.execute_act(s0, 1.0, mx, check)

    def verdict(layer, kinds, case):
        R.trans()
        R.checks += 1
        R.state(str(case))
        if kinds:
            # the same layer, after it was executed while it still respected the contract
            f, g, layer.make, layer.it = layer.make, layer.it, None, None
            k = len(again) % 4
            if k == 1 or k and how == "wrapper":
                execute(layer, True)
            again[str(case)] = k
            layer.make, layer.it, layer.n = f, g, 0
        try:
            out, e = execute(layer, True), None
        except Exception as err:
            out, e = None, err
        R.outcome((type(e).__name__, str(case.get("violation"))[:40]))
        if kinds and e is None:
            R.violation(case, "not reported; expected %s" % [k.__name__ for k in kinds])
        if kinds and e is not None and not isinstance(e, kinds):
            R.violation(case, "reported as %s (%s) instead of %s" % (type(e).__name__, str(e)[:200], [k.__name__ for k in kinds]))
        if not kinds and e is not None:
            R.violation(case, "a layer that respects the contract was refused with %s: %s" % (type(e).__name__, str(e)[:400]))
        return out

    def cache(c, names, k=1):
        for nm in names:
            c = c.cache_update(nm, cfg.tree(nm, cfg.updates(k)[nm]))
        return c
    subsets = [x for r in range(1, len(cfg.names) + 1) for x in itertools.combinations(cfg.names, r)]
    if len(subsets) > 8 and not task["deep"]:
        subsets = subsets[:6] + subsets[-2:]

    verdict(L(), (), {"task": task, "respects": "first of all"})
    # ---- factories
    T, RE = TypeError, RuntimeError
    makes = {"None": lambda c: None, "builder": lambda c: CB.new_builder(list(cfg.batch)), "full builder": lambda c: CB.new_builder(list(cfg.batch)).define_accumulator_directly("q", jnp.ones(cfg.batch)),
             "viewer": lambda c: c.make_viewer(), "editor": lambda c: TE.edit_controller(c), "save": lambda c: c.save(), "array": lambda c: jnp.ones(cfg.batch), "number": lambda c: 1,
             "tuple": lambda c: (c, 1), "list": lambda c: [c], "dict": lambda c: {"controller": c}, "class": lambda c: type(c), "string": lambda c: "controller", "accumulators": lambda c: c.accumulators}
    for k, f in makes.items():
        verdict(L(make=f), (T,), {"task": task, "violation": "factory returns " + k})
    for k, f in {"empty": lambda c: CB.new_builder(list(cfg.batch)).build(), "empty, other batch": lambda c: CB.new_builder([7]).build(),
                 "empty, halted": lambda c: TE.edit_controller(CB.new_builder(list(cfg.batch)).build(), "silence").set_probabilities(jnp.ones(cfg.batch)).build()}.items():
        verdict(L(make=f), (RE,), {"task": task, "violation": "factory returns an " + k + " controller"})

    # ---- iterations
    its = {}
    for k, f in {"None": lambda c, s, c2, s2: None, "controller": lambda c, s, c2, s2: c2, "list": lambda c, s, c2, s2: [c2, s2], "dict": lambda c, s, c2, s2: {0: c2, 1: s2},
                 "state": lambda c, s, c2, s2: list(s2), "array": lambda c, s, c2, s2: jnp.ones((2,)), "string": lambda c, s, c2, s2: "cs", "number": lambda c, s, c2, s2: 2, "set": lambda c, s, c2, s2: {1, 2},
                 "iterator": lambda c, s, c2, s2: iter((c2, s2)), "list of three": lambda c, s, c2, s2: [c2, s2, 1], "viewer": lambda c, s, c2, s2: c2.make_viewer()}.items():
        its["returns a " + k] = (f, (T,))
    for k, f in {"empty tuple": lambda c, s, c2, s2: (), "one tuple": lambda c, s, c2, s2: (c2,), "three tuple": lambda c, s, c2, s2: (c2, s2, 1), "three tuple with None": lambda c, s, c2, s2: (c2, s2, None),
                 "state unpacked": lambda c, s, c2, s2: (c2,) + tuple(s2), "five": lambda c, s, c2, s2: (c2, s2, 1, 2, 3), "Sub of three": lambda c, s, c2, s2: Sub((c2, s2, 1))}.items():
        its["returns " + k] = (f, (RE,))
    for k, f in {"None": lambda c, c2: None, "state": lambda c, c2: s0, "builder": lambda c, c2: CB.new_builder(2), "viewer": lambda c, c2: c2.make_viewer(), "editor": lambda c, c2: TE.edit_controller(c2),
                 "save": lambda c, c2: c2.save(), "array": lambda c, c2: jnp.ones(cfg.batch), "tuple": lambda c, c2: (c2,), "list": lambda c, c2: [c2], "number": lambda c, c2: 0, "class": lambda c, c2: type(c2),
                 "accumulators": lambda c, c2: c2.accumulators}.items():
        its["first item is a " + k] = (lambda c, s, c2, s2, f=f: (f(c, c2), s2), (T,))
    its["swapped"] = (lambda c, s, c2, s2: (s2, c2), (T,))
    its["same controller"] = (lambda c, s, c2, s2: (c, s2), (RE,))
    its["same controller and state"] = (lambda c, s, c2, s2: (c, s), (RE,))
    its["same controller after work"] = (lambda c, s, c2, s2: (cache(c, cfg.names), c)[1:] + (s2,), (RE,))
    for sub in subsets:
        its["uncommitted %s" % (sub,)] = (lambda c, s, c2, s2, sub=sub: (cache(c, sub), s2), (RE,))
        its["uncommitted after the commit %s" % (sub,)] = (lambda c, s, c2, s2, sub=sub: (cache(c2, sub), s2), (RE,))
    its["uncommitted after a reset"] = (lambda c, s, c2, s2: (cache(c2.reset_batches(), cfg.names[-1:]), s2), (RE,))
    its["loaded with uncommitted"] = (lambda c, s, c2, s2: (lib.ACT_Controller.load(cache(c2, cfg.names[:1]).save()), s2), (RE,))
    its["edited to uncommitted"] = (lambda c, s, c2, s2: (TE.edit_controller(c2, "silence").set_updates(cfg.names[0], cfg.tree(cfg.names[0], cfg.updates(1)[cfg.names[0]])).build(), s2), (RE,))
    hollow = {nm for nm in cfg.names if not lib.leaf_specs(cfg.spec[nm])}
    for k, (f, kinds) in its.items():
        ats = (0, 1, 2, 4) if how in ("wrapper", "python") else (0,)
        if how == "python" and not task["deep"]:
            ats = (0, 3) if len(k) % 2 else (2, 4)
        for at in ats:
            verdict(L(it=f, at=at), kinds, {"task": task, "violation": k, "iteration": at or "every"})

    # ---- respected
    bump = lambda c: TE.edit_controller(c, "silence").set_residuals(c.residuals).build()
    oks = {"plain": lambda c, s, c2, s2: (c2, s2), "named tuple": lambda c, s, c2, s2: Pair(c2, s2), "tuple subclass": lambda c, s, c2, s2: Sub((c2, s2)), "reset": lambda c, s, c2, s2: (c2.reset_batches(), s2),
           "two commits": lambda c, s, c2, s2: (cache(c2, cfg.names).iterate_act(table[0]), s2), "edited": lambda c, s, c2, s2: (bump(c2), s2), "loaded": lambda c, s, c2, s2: (lib.ACT_Controller.load(c2.save()), s2),
           "other state": lambda c, s, c2, s2: (c2, s), "reversed order": lambda c, s, c2, s2: (cache(c, cfg.names[::-1]).iterate_act(table[1]), s2), "emptied": lambda c, s, c2, s2: (TE.edit_controller(cache(c2, cfg.names[:1]), "silence").set_updates(cfg.names[0], None).build(), s2),
           "halting": lambda c, s, c2, s2: (cache(c, cfg.names).iterate_act(table[1] + 1), s2), "flattened": lambda c, s, c2, s2: (jax.tree_util.tree_map(lambda x: x, c2), s2)}
    for k, f in oks.items():
        for at in (0,) if how not in ("wrapper", "python") else (0, 2):
            case = {"task": task, "respects": k, "iteration": at or "every"}
            out = verdict(L(it=f, at=at), (), case)
            R.checks += 1
            off = execute(L(it=f, at=at), False)
            d = lib.differs(lib.observe(out[0]), lib.observe(off[0]), tol=0.0)
            if d:
                R.violation(case, "checking changes the result: %s" % d)
    for k, f in {"as made": None, "halted": lambda c: TE.edit_controller(c, "silence").set_probabilities(jnp.ones_like(c.probabilities)).build(),
                 "loaded": lambda c: lib.ACT_Controller.load(c.save()), "run": lambda c: cache(c, cfg.names).iterate_act(table[0])}.items():
        verdict(L(make=f), (), {"task": task, "respects": "factory: " + k})

    # ---- controllers of classes of the user's own are controllers
    if how == "wrapper":
        class Mine(lib.ACT_Controller):
            def commits(self):
                return self.iterations

        class Ours(Mine):
            pass
        cast = lambda k, c: k(c.state)
        for k in (Mine, Ours):
            for f, g in ((True, True), (True, False), (False, True)):
                l = L(make=(lambda c: cast(k, c)) if f else None, it=(lambda c, s, c2, s2: (cast(k, c2), s2)) if g else None, at=0)
                verdict(l, (), {"task": task, "respects": "controllers of class %s: made %s, returned %s" % (k.__name__, f, g)})
            verdict(L(make=lambda c: cast(k, CB.new_builder(list(cfg.batch)).build())), (RE,), {"task": task, "violation": "factory returns an empty %s" % k.__name__})
            for sub in subsets[:4]:
                verdict(L(it=lambda c, s, c2, s2: (cast(k, cache(c2, sub)), s2), at=0), (RE,), {"task": task, "violation": "a %s with uncommitted %s" % (k.__name__, sub)})

    # ---- layers that execute other layers, checked or not
    same = lambda c, s, c2, s2: (c, s2)

    def nesting(inner_it, inner_check, outer_it, where):
        def it(c, s, c2, s2):
            inner = L(it=inner_it, at=0)
            if where == "before":
                inner.execute_act(base.initial(table), 1.0, 2, inner_check)
            out = (c2, s2) if outer_it is None else outer_it(c, s, c2, s2)
            if where == "after":
                inner.execute_act(base.initial(table), 1.0, 2, inner_check)
            return out
        return it
    if how != "wrapper":
        pend = its["uncommitted after the commit %s" % (subsets[0],)][0]
        for where in ("before", "after"):
            for ic in (True, False):
                for ib in (None, same):
                    for ob in (None, same, pend):
                        kinds = (RE,) if ob is not None or ib is not None and ic else ()
                        verdict(L(it=nesting(ib, ic, ob, where), at=0), kinds, {"task": task, ("violation" if kinds else "respects"): "executes a layer %s its own work; inner wrong %s, checked %s; outer wrong %s" % (
                            where, ib is not None, ic, None if ob is None else "same" if ob is same else "pending")})
                if ic:
                    # the outer layer is not checked, the inner one is
                    R.checks += 1
                    try:
                        execute(L(it=nesting(same, True, None, where), at=0), False)
                        R.violation({"task": task, "where": where}, "a layer that is wrong was executed with checks by one without checks, and not reported")
                    except RE:
                        pass

    # ---- checking off: none of the reports
    if how == "wrapper":
        for k, f in list(makes.items()) + [("empty", lambda c: CB.new_builder(list(cfg.batch)).build())]:
            R.checks += 1
            R.trans()
            try:
                ContractValidationWrapper(L(make=f), False).make_controller(s0, 1.0)
            except Exception as e:
                R.violation({"task": task, "violation": k}, "reported with checking off: %s" % e)
        for k, (f, _) in its.items():
            l = L(it=f, at=0)
            R.checks += 1
            R.trans()
            try:
                out = ContractValidationWrapper(l, False).run_iteration(base.make_controller(s0, 1.0), s0)
            except Exception as e:
                R.violation({"task": task, "violation": k}, "reported with checking off: %s" % e)
            if type(out) is not type(l.last):
                R.violation({"task": task, "violation": k}, "the result is not that of the layer")
    for k in ("same controller", "same controller and state"):
        l = L(it=its[k][0], at=0)
        R.checks += 1
        R.trans()
        try:
            c, s = execute(l, False)
        except Exception as e:
            R.violation({"task": task, "violation": k}, "reported with checking off: %s: %s" % (type(e).__name__, e))
        d = lib.differs(lib.observe(c), lib.observe(base.make_controller(s0, 1.0)))
        if d or int(base.unpack(s)[0]) != (4 if k == "same controller" else 0):
            R.violation({"task": task, "violation": k}, "with checking off the loop was not run as it is: %s" % d)
    # a wrong result is not reported when checking is off, whatever the loop then makes of it
    R.trace()
    R.sample({"factories": sorted(makes), "iterations": len(its), "how": how})
