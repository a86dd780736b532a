"""C11: saving, loading and pytree conversion lose nothing."""
import copy
import pickle

import numpy as np
from .. import kin

BOUNDS = ("every state reached by histories of caching, committing, resetting and edits to depth 2-4 over 17 accumulator "
          "sets and batch ranks 0-2; in each of them 10 kinds of copies of the controller and 4-6 kinds of the viewer, "
          "the editor (both error modes), the builder and the saved state; in each a tree map that must reach every "
          "tensor once; copied and pickled; and the continuation of every copy; every subset of the fields of a saved state replaced, and the fields kept by 20 operations")
ASSUMPTIONS = ["leaves taken out of a tree are put back as jax arrays"]
ALL = ("vec", "one", "mat", "hi", "unit", "two", "swap", "tuple", "list", "dict", "nested", "empties", "hollow", "five", "names", "record", "kinds")


def tasks(tier):
    th = tier == "thorough"
    t = [dict(family="states", acc=a, batch=b, cost=4) for a, b in (("two", (2,)), ("nested", ()), ("kinds", (1, 2)))]
    for i, a in enumerate(ALL + ("b2", "mixdt", "none")):
        batch = ((2,), (), (1, 2), (3,))[i % 4]
        ops = ("iter1", "reset") if a == "none" else ("cache", "commit", "reset", "edit1")
        kw = dict(batch=batch, acc=a, eps=(1e-4, 0.25)[i % 2], dep=(1.0, 0.5, 0.25)[i % 3],
                  dep_kind=("float", "array")[i // 2 % 2])
        deep = th or len(a) < 5 and a not in ("five", "swap", "list", "none")
        t += kin.hist(tier, ops, 2 if deep else 1, [kw])
        if not deep and a != "none":
            n = 1
            for b in batch:
                n *= b
            t += kin.hist(tier, ops, 1, [dict(kw, prefix=[["commit", [0.5, 1.0, 0.25][:n]]])])
    t += kin.hist(tier, ("cache", "commit", "iter1", "reset", "edit1"), 4 if th else 3,
                  [dict(batch=(), acc="one"), dict(batch=(2,), acc="vec", eps=0.5)])
    t += kin.hist(tier, ("cache", "odd", "commit"), 3 if th else 2, [dict(batch=(2,), acc="two"), dict(batch=(1, 2), acc="tuple", mode="jit")])
    t += kin.hist(tier, ("cache", "cache2", "commit", "reset", "edit"), 2,
                  [dict(batch=(2,), acc="two", eps=0.5), dict(batch=(2, 2), acc="tuple"), dict(batch=(2,), acc="swap", dep=0.5)][:3 if th else 1])
    for i, a in enumerate(("tall", "many", "wide", "deep", "vec", "huge")):
        t += kin.hist(tier, ("cacheall", "commit"), 1, [dict(batch=((2,), (), (1, 2), (2,), (2, 1, 1, 2, 1), (2,))[i], acc=a)])
    t += kin.alias("quick", ("cacheall", "commit"), 2 if th else 1)
    return t


class Monitor:
    def start(self, R, cfg, c, m):
        from src.jax_act import ControllerBuilder
        from .. import lib
        b = ControllerBuilder.new_builder(list(cfg.batch), lib.DT[cfg.dt], cfg.eps, cfg.depression())
        for nm in cfg.names:
            b = b.define_accumulator_directly(nm, cfg.tree(nm, cfg.defaults()[nm]))
        self.copies(R, cfg, c, m, {"history": []}, b)

    def step(self, R, x):
        from .. import lib
        d = lib.differs(x.post, lib.model_obs(x.mpost))
        R.checks += 1
        if d:
            R.violation(x.case(), "after %s: %s" % (x.op[0], d))
        key = x.mpost.key()
        if not hasattr(self, "seen"):
            self.seen = set()
        if key in self.seen:
            return
        self.seen.add(key)
        self.copies(R, x.cfg, x.cpost, x.mpost, x.case())

    def refused(self, R, x):
        if x.want is None:
            R.violation(x.case(), "%s raised %s: %s" % (x.op[0], type(x.exc).__name__, str(x.exc)[:400]))

    def copies(self, R, cfg, c, m, case, builder=None):
        import jax
        from jax import numpy as jnp
        from .. import lib, families
        from src.jax_act import ACT_Controller, ACTViewer, TensorEditor, ControllerBuilder
        tu = jax.tree_util
        ident = lib.jitted("id", lambda x: x)
        before = lib.observe(c)
        rep = lib.reports(c)

        def flat(o):
            ls, td = tu.tree_flatten(o)
            return tu.tree_unflatten(td, ls)

        def host(o):
            ls, td = tu.tree_flatten(o)
            return tu.tree_unflatten(td, [jnp.asarray(np.array(l)) for l in ls])

        def paths(o):
            ls, td = tu.tree_flatten_with_path(o)
            if len({tu.keystr(p) for p, _ in ls}) != len(ls):
                raise AssertionError("two leaves have the same path")
            return tu.tree_unflatten(td, [l for _, l in ls])

        def stacked(o):
            two = tu.tree_map(lambda *x: jnp.stack([jnp.asarray(v) for v in x]), o, o)
            return tu.tree_map(lambda x: x[1], two)

        def jit_stored(o):
            return lib.jitted("store", lambda x: {"k": [x, 1.0]})(o)["k"][0]

        def transposed(o):
            a = tu.tree_transpose(tu.tree_structure(o), tu.tree_structure([0, 0]), tu.tree_map(lambda x: [x, x], o))
            return a[1]
        generic = [("flatten", flat), ("tree map", lambda o: tu.tree_map(lambda x: x, o)), ("jit", ident), ("host", host),
                   ("stacked", stacked), ("jit in a tree", jit_stored), ("transposed", transposed), ("twice", lambda o: flat(flat(o))),
                   ("eval in vmap", lambda o: tu.tree_map(lambda x: x[0], jax.vmap(lambda x: x)(
                       tu.tree_map(lambda x: jnp.asarray(x)[None], o))))]
        generic.append(("paths", lambda o: _paths(o)))
        copied = [("copy.copy", copy.copy), ("copy.deepcopy", copy.deepcopy), ("pickle", lambda o: pickle.loads(pickle.dumps(o)))]

        def _paths(o):
            return paths(o) if _has_paths(tu) else flat(o)
        objs = [("controller", c, lambda o: o),
                ("viewer", c.make_viewer(), lambda o: ACT_Controller.load(o.save())),
                ("editor", TensorEditor.edit_controller(c), lambda o: o.build()),
                ("silent editor", TensorEditor.edit_controller(c, "silence"), lambda o: o.build()),
                ("save", c.save(), lambda o: ACT_Controller.load(o))]
        if builder is not None:
            objs.append(("builder", builder, lambda o: o.build()))
        special = {
            "controller": [("save/load", lambda o: ACT_Controller.load(o.save())),
                           ("save/load twice", lambda o: ACT_Controller.load(ACT_Controller.load(o.save()).save()))],
            "viewer": [("save/load", lambda o: ACTViewer.load(o.save())),
                       ("through the controller", lambda o: ACT_Controller.load(o.save()).make_viewer())],
            "editor": [("edit save", lambda o: TensorEditor.edit_save(o.save())),
                       ("rebuild", lambda o: TensorEditor.edit_controller(o.build()))],
            "silent editor": [("edit save", lambda o: TensorEditor.edit_save(o.save(), "silence"))],
        }
        orig_next = None
        for kind, obj, back in objs:
            mine = None if kind == "save" else lib.observe(obj)
            few = (generic if kind in ("controller", "builder") else generic[:4]) + copied
            for label, f in few + special.get(kind, []):
                R.checks += 3
                R.trans()
                cs = dict(case, object=kind, copy=label)
                cp = f(obj)
                if type(cp) is not type(obj):
                    R.violation(cs, "%s of a %s gave a %s" % (label, kind, type(cp).__name__))
                if mine is not None:
                    d = lib.differs(lib.observe(cp), mine, tol=0.0)
                    if d:
                        R.violation(cs, "%s of a %s: %s" % (label, kind, d))
                    if _eps_dep(lib.observe(back(cp))) != _eps_dep(before):
                        R.violation(cs, "%s of a %s: epsilon, depression constant %s became %s" % (
                            label, kind, _eps_dep(before), _eps_dep(lib.observe(back(cp)))))
                b = back(cp)
                d = lib.differs(lib.observe(b), before, tol=0.0)
                if d:
                    R.violation(cs, "controller from the %s of a %s: %s" % (label, kind, d))
                rb = lib.reports(b)
                if any(not np.array_equal(rb[k], rep[k]) for k in rep if k != "thr") or abs(rb["thr"] - rep["thr"]) > 1e-6:
                    R.violation(cs, "%s of a %s reports %s instead of %s" % (label, kind, rb, rep))
                # dtypes
                da, db = [[str(jnp.asarray(l).dtype) for l in _tensors(o)] for o in (c, b)]
                if da != db:
                    R.violation(cs, "dtypes %s became %s" % (da, db))
                if "editor" in kind:
                    strict = _refuses(cp)
                    if strict != (kind == "editor"):
                        R.violation(cs, "%s of a %s: error mode lost" % (label, kind))
                # the process goes on from the copy as from the original
                if label in GO_ON.get(kind, ("flatten",)):
                    if orig_next is None:
                        orig_next = self.go_on(cfg, c, m)
                    R.trans(2)
                    for (n1, a), (n2, z) in zip(orig_next, self.go_on(cfg, b, m)):
                        d = lib.differs(z, a, tol=1e-6)
                        if d:
                            R.violation(cs, "going on (%s) from the %s of a %s: %s" % (n1, label, kind, d))
            # a tree map reaches every tensor exactly once
            if kind != "save":
                R.checks += 1
                got = lib.observe(tu.tree_map(lambda x: x * 2 + 1, obj))
                from ..model import tmap
                up = lambda t: tmap(lambda v: v * 2 + 1, t)
                want = {k: up(v) for k, v in mine.items() if k in ("p", "r", "n", "acc", "dft", "upd")}
                d = lib.differs({k: got[k] for k in want}, want, list(want), tol=1e-6)
                if d:
                    R.violation(dict(case, object=kind), "a tree map over a %s: %s" % (kind, d))
        R.state(m.key())
        R.trace()

    def go_on(self, cfg, c, m):
        """Observations of two short continuations."""
        from .. import lib, families
        out = []
        d = c
        for nm in cfg.names:
            if m.upd[nm] is None:
                d = d.cache_update(nm, cfg.tree(nm, cfg.updates(2)[nm]))
        out.append(("cache", lib.observe(d)))
        h = np.array([(0.5, 1.0, 0.25)[i % 3] for i in range(cfg.n)]).reshape(cfg.batch)
        try:
            m.but(upd={nm: cfg.updates(2)[nm] if m.upd[nm] is None else m.upd[nm] for nm in cfg.names}).iterate(h)
        except lib.Reject:
            return out
        d = d.iterate_act(cfg.h(h))
        out.append(("iterate", lib.observe(d)))
        out.append(("reset", lib.observe(d.reset_batches())))
        return out


GO_ON = {"controller": ("jit", "host", "save/load"), "viewer": ("through the controller",), "editor": ("edit save",)}


def _eps_dep(o):
    return tuple(float(np.float32(o[k])) for k in ("eps", "dep") if k in o)


def _has_paths(tu):
    return hasattr(tu, "tree_flatten_with_path")


def _tensors(c):
    import jax
    from src.jax_act import TensorEditor
    ed = TensorEditor.edit_controller(c)
    return [c.probabilities, c.residuals, c.iterations] + jax.tree_util.tree_leaves(
        [dict(ed.accumulators), dict(ed.defaults), dict(ed.updates)])


def _refuses(ed):
    try:
        ed.set_epsilon(-1.0)
    except Exception:
        return True
    return False


FIELDS = ("epsilon", "iterations", "residuals", "probabilities", "defaults", "accumulators", "updates", "depression_constant", "error_mode")


def run_states(task, R):
    """Every subset of the fields of a saved state replaced; every field kept by every operation."""
    import itertools
    from .. import lib
    from src.jax_act import ACT_Controller, TensorEditor, ControllerBuilder
    jnp, tu = lib.jnp, lib.jax.tree_util
    cfg = lib.cfg_of(task, eps=0.25, dep=0.5)
    get = lambda s: {f: getattr(s, f) for f in FIELDS}

    def alike(a, b):
        (x, tx), (y, ty) = tu.tree_flatten(a), tu.tree_flatten(b)
        return tx == ty and all(type(u) is type(v) and np.array_equal(np.asarray(u), np.asarray(v)) for u, v in zip(x, y))
    c = lib.cache_all(cfg.controller(), cfg, 1).iterate_act(cfg.h(np.full(cfg.batch, 0.5)))
    pending = c.cache_update(cfg.names[0], cfg.tree(cfg.names[0], cfg.updates(2)[cfg.names[0]]))
    for which, s in (("committed", c.save()), ("pending", pending.save()), ("with a mode", c.save().replace(error_mode="debug")), ("zeros", c.save().replace(epsilon=0.5, depression_constant=0.0, error_mode=""))):
        old = get(s)
        other = cfg.controller().save()
        new = dict(epsilon=0.125, iterations=cfg.h(np.full(cfg.batch, 3.0)), residuals=cfg.h(np.full(cfg.batch, 0.75)), probabilities=cfg.h(np.full(cfg.batch, 0.375)), defaults=dict(old["accumulators"]),
                   accumulators=dict(other.defaults), updates={nm: cfg.tree(nm, cfg.updates(4)[nm]) for nm in cfg.names}, depression_constant=0.25, error_mode="checkify")
        zero = dict(new, epsilon=0.0, iterations=jnp.zeros_like(old["iterations"]), depression_constant=0.0, error_mode="", updates={})
        for vals in (new, zero):
            for k in range(1 << len(FIELDS)):
                sub = [f for i, f in enumerate(FIELDS) if k >> i & 1]
                got = get(s.replace(**{f: vals[f] for f in sub}))
                R.trans()
                R.checks += 1
                for f in FIELDS:
                    if not alike(got[f], vals[f] if f in sub else old[f]):
                        R.violation({"task": task, "state": which, "replaced": sub}, "%s is %s, expected %s" % (f, lib.short(lib.tmap_any(str, got[f])), lib.short(lib.tmap_any(str, vals[f] if f in sub else old[f]))))
                if not alike(get(s), old):
                    R.violation({"task": task, "state": which, "replaced": sub}, "the state itself was changed")
                R.state((which, k))
        # operations carry every field that they do not change
        load = ACT_Controller.load(s)
        nm = cfg.names[-1]
        ed = TensorEditor.edit_save(s, "silence")
        ops = {"load": (lambda: load.save(), ()), "viewer": (lambda: load.make_viewer().save(), ()), "editor": (lambda: ed.save(), ()), "build": (lambda: ed.build().save(), ()),
               "builder": (lambda: ControllerBuilder(s).build().save(), ()),
               "transform": (lambda: load.make_viewer().transform(lambda x: x).save(), ()), "mask": (lambda: load.make_viewer().mask_data(jnp.ones(cfg.batch, bool)).save(), ()),
               "flatten": (lambda: tu.tree_unflatten(*reversed(tu.tree_flatten(s))), ()), "flatten the controller": (lambda: tu.tree_unflatten(*reversed(tu.tree_flatten(load))).save(), ()),
               "set epsilon": (lambda: ed.set_epsilon(0.5).save(), ("epsilon",)), "set iterations": (lambda: ed.set_iterations(new["iterations"]).save(), ("iterations",)),
               "set residuals": (lambda: ed.set_residuals(new["residuals"]).save(), ("residuals",)), "set probabilities": (lambda: ed.set_probabilities(new["probabilities"]).save(), ("probabilities",)),
               "set accumulator": (lambda: ed.set_accumulator(nm, new["accumulators"][nm]).save(), ("accumulators",)), "set defaults": (lambda: ed.set_defaults(nm, new["defaults"][nm]).save(), ("defaults",)),
               "set updates": (lambda: ed.set_updates(nm, new["updates"][nm]).save(), ("updates",)),
               "define": (lambda: ControllerBuilder(s).define_accumulator_directly("new", jnp.ones(cfg.batch)).state, ("accumulators", "defaults", "updates"))}
        if old["updates"][nm] is None:
            ops["cache"] = (lambda: load.cache_update(nm, new["updates"][nm]).save(), ("updates",))
        if all(v is None for v in old["updates"].values()):
            ops["reset"] = (lambda: load.reset_batches().save(), ("iterations", "residuals", "probabilities", "accumulators"))
            ops["iterate"] = (lambda: lib.cache_all(load, cfg, 2).iterate_act(cfg.h(np.full(cfg.batch, 0.25))).save(), ("iterations", "residuals", "probabilities", "accumulators"))
        for label, (f, changed) in ops.items():
            got = get(f())
            R.trans()
            R.checks += 1
            for k in FIELDS:
                if k not in changed and not alike(got[k], old[k]):
                    R.violation({"task": task, "state": which, "op": label}, "%s of the saved state is %s, expected %s" % (k, lib.short(lib.tmap_any(str, got[k])), lib.short(lib.tmap_any(str, old[k]))))
            R.state((which, label))
        R.outcome(which)
    R.trace(R.transitions)
    R.sample({"operations": sorted(ops)})


def run(task, R):
    if task["family"] == "states":
        return run_states(task, R)
    from .. import families
    families.dispatch(task, R, Monitor())
