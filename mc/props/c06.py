"""C06: update protocol."""
import numpy as np
from .. import kin

BOUNDS = ("all histories of caching each accumulator (two values), committing, resetting, emptying a slot by edit and "
          "every protocol error, to depth 4-7, for 0-5 accumulators, eager and compiled; every single bad leaf (6 kinds "
          "of mismatch in every position) of every accumulator tree")
ASSUMPTIONS = ["a mismatched update is put in place either by cache_update or by a silent editor"]


def tasks(tier):
    th = tier == "thorough"
    t = kin.hist(tier, ("cache", "iter1", "reset", "bad"), 6 if th else 5,
                 [dict(batch=(2,), acc="one"), dict(batch=(2,), acc="two"), dict(batch=(2,), acc="hollow"),
                  dict(batch=(), acc="two"), dict(batch=(2, 2), acc="tuple"), dict(batch=(0,), acc="vec"),
                  dict(batch=(2,), acc="none"), dict(batch=(2,), acc="two", mode="jit"),
                  dict(batch=(1,), acc="mat"), dict(batch=(3,), acc="unit")])
    t += kin.hist(tier, ("cache", "iter1", "reset"), 8 if th else 7,
                  [dict(batch=(2,), acc="five"), dict(batch=(2,), acc="names")])
    t += kin.hist(tier, ("cache", "cache2", "iter1", "iter", "reset", "edit1", "copy"), 5 if th else 4,
                  [dict(batch=(2,), acc="two"), dict(batch=(3,), acc="swap", eps=0.5)])
    t += kin.hist(tier, ("cache", "iter1", "reset", "bad", "copy"), 4, [dict(batch=(2,), acc="nested")])
    t += kin.hist(tier, ("cache", "odd", "iter1", "reset", "bad"), 5 if th else 4,
                  [dict(batch=(2,), acc="two"), dict(batch=(2, 2), acc="tuple"), dict(batch=(), acc="vec", mode="jit"), dict(batch=(3,), acc="one")])
    for acc in ("one", "vec", "mat", "hi", "tuple", "list", "dict", "nested", "empties", "two", "five", "unit", "record", "kinds", "tall", "many", "deep", "huge"):
        for batch in ((2,), (3, 2), ()):
            t.append(dict(kind="leaf", acc=acc, batch=batch, cost=4))
    t += kin.duo(tier) + kin.alias(tier)
    return t


class Monitor:
    def flags(self, R, x):
        R.checks += 2
        rep, m = x.rep, x.mpost
        if rep["ready"] != m.ready or rep["cached"] != m.cached:
            R.violation(x.case(), "flags ready=%s cached=%s, expected %s %s" % (rep["ready"], rep["cached"], m.ready, m.cached))

    def step(self, R, x):
        from .. import lib
        self.flags(R, x)
        R.checks += 1
        d = lib.differs(x.post, lib.model_obs(x.mpost), ("upd",))
        if d:
            R.violation(x.case(), "slots after %s: %s" % (x.op[0], d))

    def refused(self, R, x):
        from .. import lib
        R.checks += 2
        if x.want is None:
            R.violation(x.case(), "%s raised %s where the protocol allows it: %s" % (
                x.op[0], type(x.exc).__name__, str(x.exc)[:400]))
        elif x.exc is None:
            R.violation(x.case(), "%s was accepted, expected %s" % (x.op[0], [k.__name__ for k in x.want]))
        elif not isinstance(x.exc, x.want):
            R.violation(x.case(), "%s raised %s, expected %s" % (
                x.op[0], type(x.exc).__name__, [k.__name__ for k in x.want]))
        d = lib.same_obs(lib.observe(x.cpre), x.pre)
        if d:
            R.violation(x.case(), "a refused operation changed the controller: %s" % d)


def leaf_task(task, R):
    """Every position of one bad leaf; every other slot filled properly."""
    import jax
    from jax import numpy as jnp
    from .. import lib, families
    from src.jax_act import TensorEditor
    cfg = lib.cfg_of(task)
    c0, m0 = cfg.controller(), cfg.model()
    h = cfg.h(np.full(cfg.batch, 0.5))
    nb = len(cfg.batch)

    def kinds(l):
        s = l.shape
        out = [("extra axis", jnp.zeros(s + (1,), l.dtype)), ("leading axis", jnp.zeros((1,) + s, l.dtype))]
        if len(s):
            out.append(("longer last", jnp.zeros(s[:-1] + (s[-1] + 1,), l.dtype)))
            out.append(("longer first", jnp.zeros((s[0] + 1,) + s[1:], l.dtype)))
            if s[-1] != 1:
                out.append(("unit last", jnp.zeros(s[:-1] + (1,), l.dtype)))
            if s[0] != 1:
                out.append(("unit first", jnp.zeros((1,) + s[1:], l.dtype)))
            out.append(("axis missing", jnp.zeros(s[:-1], l.dtype)))
            out.append(("scalar", jnp.zeros((), l.dtype)))
            if s != s[::-1]:
                out.append(("transposed", jnp.zeros(s[::-1], l.dtype)))
        out.append(("none", None))
        return out

    # the proper update is accepted first, from the initial and from an iterated state
    starts = [("initial", c0)]
    starts.append(("iterated", lib.cache_all(c0, cfg, 0).iterate_act(h)))
    for sname, c in starts:
        R.check(bool(lib.cache_all(c, cfg, 1).iterate_act(h).has_cached_updates) == bool(False), {"task": task}, "slots not emptied")
        for nm in cfg.names:
            good = cfg.tree(nm, cfg.updates(1)[nm])
            leaves, td = jax.tree_util.tree_flatten(good)
            for i, l in enumerate(leaves):
                for kname, bad in kinds(l):
                    ls = list(leaves)
                    ls[i] = bad
                    item = jax.tree_util.tree_unflatten(td, ls)
                    if item is None:
                        continue
                    case = {"task": task, "start": sname, "accumulator": nm, "leaf": i, "mismatch": kname}
                    R.trans()
                    R.state((sname, nm, i, kname))
                    d = c
                    pre = None
                    try:
                        for other in cfg.names:
                            d = d.cache_update(other, item if other == nm else cfg.tree(other, cfg.updates(1)[other]))
                        pre = lib.reports(d)
                        d.iterate_act(h)
                        exc = None
                    except Exception as e:
                        exc = e
                    R.check(isinstance(exc, RuntimeError), case,
                            lambda: "committing a mismatched update (%s, %s for %s): %s" % (
                                kname, getattr(bad, "shape", None), l.shape,
                                "accepted" if exc is None else "%s instead of RuntimeError" % type(exc).__name__))
                    if pre is not None:
                        R.check(
                                all(np.array_equal(lib.reports(d)[k], pre[k]) for k in pre), case,
                                "the refused commit changed the controller")
                    R.outcome((kname, type(exc).__name__))
            R.trace()
        # halting probabilities of another shape
        for s in {cfg.batch + (1,), (1,) + cfg.batch, cfg.batch[:-1], cfg.batch[1:], cfg.batch[::-1] , (),
                  tuple(1 for _ in cfg.batch), tuple(x + 1 for x in cfg.batch)} - {cfg.batch}:
            full = lib.cache_all(c, cfg, 1)
            R.trans()
            R.state((sname, "h", s))
            try:
                full.iterate_act(jnp.full(s, 0.5, lib.DT[cfg.dt]))
                exc = None
            except Exception as e:
                exc = e
            R.check(isinstance(exc, ValueError), {"task": task, "halting shape": s},
                    "halting probabilities of shape %s for batch %s: %s" % (s, cfg.batch, type(exc).__name__))
            R.check(bool(full.updates_ready_to_commit), {"task": task, "halting shape": s}, "refused commit emptied the slots")
    R.sample({"leaf mismatches for": task["acc"], "batch": list(cfg.batch)})


def run(task, R):
    from .. import families
    if task.get("kind") == "leaf":
        return leaf_task(task, R)
    families.dispatch(task, R, Monitor())
