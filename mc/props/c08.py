"""C08: controllers, builders, viewers and editors are persistent values."""
import itertools
import numpy as np
from .. import kin

BOUNDS = ("all histories of controller operations (caching, committing, resetting, edits, copies, protocol errors) to "
          "depth 4; all histories of operations over builders, controllers, viewers and editors to depth 3-4 starting "
          "from a builder; after every operation the object operated on, and at the end every object ever made, is "
          "observed again; every operation is performed twice; attribute assignment on every object")
ASSUMPTIONS = ["callers do not modify containers they handed in or were handed out"]


def tasks(tier):
    th = tier == "thorough"
    d = 4 if th else 3
    t = kin.hist(tier, ("cache", "iter", "reset", "edit1", "copy", "bad", "odd"), d,
                 [dict(batch=(2,), acc="two"), dict(batch=(3,), acc="nested", eps=0.5),
                  dict(batch=(2,), acc="five", mode="jit"), dict(batch=(), acc="empties"),
                  dict(batch=(2, 2), acc="list", dep=0.5)])
    t += kin.hist(tier, ("cacheall", "iter", "reset", "edit"), d,
                  [dict(batch=(2,), acc="tuple"), dict(batch=(3,), acc="dict", eps=0.25)])
    for first in range(12):
        for batch, acc in (((2,), "two"), ((), "tuple"), ((2, 2), "dict")):
            if batch != (2,) and first % 3:
                continue
            t.append(dict(kind="objects", first=first, depth=4 if th else 3, batch=batch, acc=acc, cost=9))
    for batch in ((2,), (1, 2), ()):
        for acc in ("one", "tuple", "list", "dict", "nested", "empties", "record", "kinds"):
            t.append(dict(kind="callers", batch=batch, acc=acc, cost=2))
    t += kin.duo(tier) + kin.alias(tier) + kin.arrays(tier)
    return t


NAMES = ("probabilities", "residuals", "iterations", "accumulators", "defaults", "updates", "epsilon",
         "depression_constant", "state", "error_mode", "something_new", "halted_batches", "_hidden", "__private", "_state", "_cache_")


def assign(R, obj, case):
    for nm in NAMES:
        R.checks += 1
        try:
            setattr(obj, nm, 1.0)
        except AttributeError:
            continue
        except Exception as e:
            R.violation(case, "assigning %s.%s raised %s" % (type(obj).__name__, nm, type(e).__name__))
        R.violation(case, "assigning %s.%s was possible" % (type(obj).__name__, nm))


class Monitor:
    def step(self, R, x):
        from .. import lib, families
        R.checks += 3
        case = x.case()
        d = lib.same_obs(lib.observe(x.cpre), x.pre)
        if d:
            R.violation(case, "%s changed the controller it was called on: %s" % (x.op[0], d))
        again = families.apply_real(x.cfg, x.cpre, x.op)
        d = lib.same_obs(lib.observe(again), x.post)
        if d:
            R.violation(case, "%s gives another result the second time: %s" % (x.op[0], d))
        d = lib.differs(x.post, lib.model_obs(x.mpost))
        if d:
            R.violation(case, "after %s: %s" % (x.op[0], d))
        assign(R, x.cpost, case)

    def refused(self, R, x):
        from .. import lib
        R.checks += 1
        d = lib.same_obs(lib.observe(x.cpre), x.pre)
        if d:
            R.violation(x.case(), "refused %s changed the controller: %s" % (x.op[0], d))
        if x.want is None and not x.cfg.given:            # nothing promises that numpy arrays are taken
            R.violation(x.case(), "%s raised %s: %s" % (x.op[0], type(x.exc).__name__, str(x.exc)[:400]))

    def finish(self, R, cfg, everything):
        from .. import lib
        for c, m, h in everything:
            R.checks += 1
            d = lib.differs(lib.observe(c), lib.model_obs(m))
            if d:
                R.violation({"history": h}, "a controller no longer shows what it did when it was made: %s" % d)
        for was, now in cfg.tampered():
            R.violation({"batch": cfg.batch, "acc": cfg.accname}, "an array handed over by the caller was changed from %s to %s" % (lib.short(was), lib.short(now)))


def run(task, R):
    from .. import families
    if "kind" in task:
        return {"objects": objects, "callers": callers}[task["kind"]](task, R)
    families.dispatch(task, R, Monitor())


# ------------------------------------------------------------ all object kinds

def object_ops(cfg, kind):
    """Operations on an object, as (label, function)."""
    import jax
    from jax import numpy as jnp
    from .. import lib, families
    from src.jax_act import ACT_Controller, ACTViewer, TensorEditor, ControllerBuilder
    nm0 = cfg.names[0]
    n = cfg.n
    tree = lambda nm, k: cfg.tree(nm, cfg.updates(k)[nm])
    mask = jnp.asarray((np.arange(n) % 2 == 0).reshape(cfg.batch))
    hp = lambda k: cfg.h(np.array([(0.25, 1.0), (0.5, 0.75)][k] * 4)[:n].reshape(cfg.batch))
    ev = lambda k, j=0: cfg.h(families.edit_values(cfg, k, j))
    flat = lambda o: jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(o), jax.tree_util.tree_leaves(o))
    ops = {
        "b": [("define", lambda o: o.define_accumulator_directly(nm0, tree(nm0, 4))),
              ("define new", lambda o: o.define_accumulator_directly("new", {"q": tree(nm0, 5)})),
              ("define by shape", lambda o: o.define_accumulator_by_shape(
                  "shape", [list(cfg.batch) + [2], list(cfg.batch)], fill=2.0)),
              ("redefine by shape", lambda o: o.define_accumulator_by_shape(nm0, list(cfg.batch) + [3], fill=1.0)),
              ("bad definition", lambda o: o.define_accumulator_directly(nm0, jnp.zeros((7, 7, 7)))),
              ("build", lambda o: o.build()), ("flatten", flat)],
        "c": [("cache", lambda o: o.cache_update(nm0, tree(nm0, 3))),
              ("cache all", lambda o: families.apply_real(cfg, o, ("cacheall", 1))),
              ("iterate", lambda o: o.iterate_act(hp(0))),
              ("cache and iterate", lambda o: families.apply_real(cfg, o, ("cacheall", 2)).iterate_act(hp(1))),
              ("reset", lambda o: o.reset_batches()),
              ("unknown", lambda o: o.cache_update("unknown", tree(nm0, 3))),
              ("view", lambda o: o.make_viewer()), ("edit", lambda o: TensorEditor.edit_controller(o)),
              ("edit silently", lambda o: TensorEditor.edit_controller(o, "silence")),
              ("save and edit", lambda o: TensorEditor.edit_save(o.save()))],
        "v": [("mask", lambda o: o.mask_data(mask)), ("mask none", lambda o: o.mask_data(jnp.zeros(cfg.batch, bool))),
              ("halted", lambda o: o.halted_only()), ("unhalted", lambda o: o.unhalted_only()),
              ("transform", lambda o: o.transform(lambda t: t * 2 + 1)),
              ("bad transform", lambda o: o.transform(lambda t: t.reshape((5, 5, 5)))),
              ("bad mask", lambda o: o.mask_data(jnp.ones((7,), bool))),
              ("load", lambda o: ACT_Controller.load(o.save())), ("reload", lambda o: ACTViewer.load(o.save()))],
        "e": [("set p", lambda o: o.set_probabilities(ev("setp"))), ("set r", lambda o: o.set_residuals(ev("setr"))),
              ("set n", lambda o: o.set_iterations(ev("setn"))), ("set eps", lambda o: o.set_epsilon(0.5)),
              ("bad eps", lambda o: o.set_epsilon(-1.0)),
              ("set acc", lambda o: o.set_accumulator(nm0, tree(nm0, 5))),
              ("set defaults", lambda o: o.set_defaults(nm0, tree(nm0, 6))),
              ("set updates", lambda o: o.set_updates(nm0, tree(nm0, 2))),
              ("empty updates", lambda o: o.set_updates(nm0, None)),
              ("bad acc", lambda o: o.set_accumulator(nm0, (jnp.zeros((5,)),) * 3)),
              ("build", lambda o: o.build()), ("flatten", flat)],
    }
    return ops[kind]


def kind_of(o):
    from src.jax_act import ACT_Controller, ACTViewer, TensorEditor, ControllerBuilder
    for k, t in (("b", ControllerBuilder), ("c", ACT_Controller), ("v", ACTViewer), ("e", TensorEditor)):
        if isinstance(o, t):
            return k
    return None


def objects(task, R):
    from .. import lib, families
    from src.jax_act import ControllerBuilder, TensorEditor
    cfg = lib.cfg_of(task)
    c0 = cfg.controller()
    ran = families.apply_real(cfg, c0, ("cacheall", 0)).iterate_act(
        cfg.h(np.array([1.0, 0.25, 0.5, 1.0])[:cfg.n].reshape(cfg.batch)))
    pend = families.apply_real(cfg, ran, ("cache", cfg.names[-1], 0))
    b0 = ControllerBuilder.new_builder(list(cfg.batch), None, cfg.eps, cfg.dep)
    d = cfg.defaults()
    b1 = b0.define_accumulator_directly(cfg.names[0], cfg.tree(cfg.names[0], d[cfg.names[0]]))
    starts = [b0, b1, c0, ran, pend, ran.make_viewer(), pend.make_viewer(), TensorEditor.edit_controller(pend),
              TensorEditor.edit_controller(ran, "silence"), TensorEditor.edit_controller(c0), c0.make_viewer(),
              b1.build()]
    o0 = starts[task["first"] % len(starts)]
    made = [(o0, lib.observe(o0), ["start %d" % task["first"]])]
    front = list(made)
    for depth in range(task["depth"]):
        nxt = []
        for o, snap, hist in front:
            for label, f in object_ops(cfg, kind_of(o)):
                case = {"task": task, "history": hist + [label]}
                R.trans()
                R.checks += 2
                out = []
                for _ in range(2):
                    try:
                        res = f(o)
                        out.append((res, None))
                    except Exception as e:
                        out.append((None, e))
                    diff = lib.same_obs(lib.observe(o), snap)
                    if diff:
                        R.violation(case, "%s changed the %s it was called on: %s" % (label, type(o).__name__, diff))
                (a, ea), (b, eb) = out
                if type(ea) is not type(eb):
                    R.violation(case, "%s: %r the first time, %r the second time" % (label, ea, eb))
                if a is None:
                    R.outcome((kind_of(o), label, type(ea).__name__))
                    continue
                if kind_of(a) is None:
                    R.violation(case, "%s returned a %s" % (label, type(a).__name__))
                so = lib.observe(a)
                diff = lib.same_obs(lib.observe(b), so)
                if diff:
                    R.violation(case, "%s gives another result the second time: %s" % (label, diff))
                assign(R, a, case)
                made.append((a, so, hist + [label]))
                nxt.append(made[-1])
                R.outcome((kind_of(o), label, kind_of(a)))
        front = nxt
        R.trace(len(nxt))
    for o, snap, hist in made:
        R.checks += 1
        diff = lib.same_obs(lib.observe(o), snap)
        if diff:
            R.violation({"task": task, "history": hist}, "a %s changed after it was made: %s" % (type(o).__name__, diff))
        R.state(tuple(hist))
    R.sample({"objects made": len(made), "history": made[-1][2]})


# ------------------------------------------------------------ caller's containers

def callers(task, R):
    """Trees handed in keep their structure and leaves, whatever happens next."""
    import jax
    from .. import lib, families
    from src.jax_act import ControllerBuilder, TensorEditor
    cfg = lib.cfg_of(task)
    d = cfg.defaults()
    given = []

    def give(t):
        ls, td = jax.tree_util.tree_flatten(t)
        given.append((t, list(ls), td, [lib.arr(l) for l in ls], skeleton(t)))
        return t

    def intact(case):
        for t, ls, td, vals, sk in given:
            R.checks += 1
            now, td2 = jax.tree_util.tree_flatten(t)
            if td2 != td or skeleton(t) != sk or any(a is not b for a, b in zip(now, ls)) or any(
                    not np.array_equal(lib.arr(a), v) for a, v in zip(now, vals)):
                R.violation(case, "a container of the caller was changed")

    h = cfg.h(np.array([0.5, 1.0, 0.25])[:cfg.n].reshape(cfg.batch) if cfg.n <= 3 else np.full(cfg.batch, 0.5))
    orders = list(itertools.permutations(("iterate", "reset", "view", "edit", "copy")))[::5]
    for order in orders:
        b = ControllerBuilder.new_builder(give(list(cfg.batch)))
        for nm in cfg.names:
            b = b.define_accumulator_directly(nm, give(cfg.tree(nm, d[nm])))
        b = b.define_accumulator_by_shape("by shape", give([list(cfg.batch), {"x": list(cfg.batch) + [2]}]))
        b = b.define_accumulator_directly(cfg.names[0], give(cfg.tree(cfg.names[0], d[cfg.names[0]])))
        c = b.build()
        for k, op in enumerate(order):
            R.trans()
            case = {"task": task, "operations": list(order[:k + 1])}
            if op == "iterate":
                for nm in cfg.names:
                    c = c.cache_update(nm, give(cfg.tree(nm, cfg.updates(k)[nm])))
                c = c.cache_update("by shape", give([jax.numpy.ones(cfg.batch), {"x": jax.numpy.ones(cfg.batch + (2,))}]))
                c = c.iterate_act(h)
            elif op == "reset":
                c = c.reset_batches()
            elif op == "view":
                c.make_viewer().halted_only().transform(lambda x: x + 1)
            elif op == "copy":
                c = jax.tree_util.tree_map(lambda x: x, c)
            else:
                ed = TensorEditor.edit_controller(c)
                nm = cfg.names[0]
                ed = ed.set_accumulator(nm, give(cfg.tree(nm, cfg.updates(5)[nm])))
                ed = ed.set_defaults(nm, give(cfg.tree(nm, cfg.updates(6)[nm])))
                ed = ed.set_updates(nm, give(cfg.tree(nm, cfg.updates(7)[nm]))).set_updates(nm, None)
                ed = ed.set_probabilities(give(cfg.h(np.full(cfg.batch, 0.5))))
                c = ed.build()
            intact(case)
            R.state((op, order[:k]))
        R.trace()
    R.outcome(len(given))
    R.sample({"containers": len(given)})


def skeleton(t):
    if isinstance(t, dict):
        return {k: skeleton(v) for k, v in t.items()}
    if isinstance(t, (list, tuple)):
        return (type(t).__name__, [skeleton(v) for v in t])
    return 0
