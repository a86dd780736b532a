"""C15: masked views."""
import itertools
import numpy as np
from .. import kin

BOUNDS = ("every boolean mask, and every pair of masks, of batches of up to 4 elements (thorough 6), rank 0-3, in every state "
          "reached by histories of caching, committing, resetting and edits to depth 2-4 (all subsets of pending updates), "
          "17 accumulator sets, non-finite contents in every tensor; halted and unhalted views of all states of 5^4 "
          "elements; every wrong mask shape of rank 0-3 over {1,2,3} and wrong dtype")
ASSUMPTIONS = ["masks are jax or numpy arrays"]
ALL = ("vec", "one", "mat", "hi", "unit", "two", "swap", "tuple", "list", "dict", "nested", "empties", "hollow", "five", "names", "record", "kinds")


def tasks(tier):
    th = tier == "thorough"
    t = []
    small = ((2,), (), (1, 2), (3,), (2, 2), (1,), (2, 1, 2), (4,))
    for i, a in enumerate(ALL + ("b2", "mixdt", "none")):
        for j in range(3 if th else 1):
            b = small[(i + 3 * j) % len(small)]
            ops = ("iter1", "reset") if a == "none" else ("cacheall", "commit", "reset", "edit1")
            t += kin.hist(tier, ops, 2 if th or len(a) < 5 and a not in ("five", "list", "mat") else 1, [dict(batch=b, acc=a, eps=(1e-4, 0.25, 0.5, 0.75, 0.99)[i % 5], dep=(1.0, 0.5)[i % 2])], special=False)
            if a != "none":
                t += kin.hist(tier, ("cacheall", "commit"), 1, [dict(batch=b, acc=a, eps=(1e-4, 0.25, 0.75)[i % 3])], special=True)
    t += kin.hist(tier, ("cache", "commit", "reset", "iter1"), 4 if th else 3, [dict(batch=(2,), acc="two"), dict(batch=(3,), acc="swap", eps=0.5)], special=False)
    t += kin.hist(tier, ("cache", "commit", "reset"), 3 if th else 2, [dict(batch=(2, 2), acc="tuple"), dict(batch=(2, 1), acc="five")], special=False)
    if th:
        t += kin.hist(tier, ("cacheall", "commit", "reset"), 3, [dict(batch=(2, 3), acc="vec"), dict(batch=(5,), acc="tuple")], special=False)
    for i, a in enumerate(ALL):
        t.append(dict(family="wide", alphabet=(0.0, 0.25, 0.5, 0.75, 1.0), depth=4 if i < 3 or th else 3, acc=a, eps=(1e-4, 0.25, 0.5, 0.75, 0.9)[i % 5],
                      layout=("flat", "two", "col", "row")[i % 4], resets=(1,) if i % 2 else (), mode=("eager", "jit")[i % 2], special=("nan", None, "inf")[i % 3]))
    t.append(dict(family="wide", alphabet=(0.0, 0.25, 0.5, 0.75, 1.0), depth=4, acc="vec", dt="b2", eps=1e-4))
    t.append(dict(family="wide", alphabet=(0.0, 0.25, 0.5, 0.75, 1.0), depth=4, acc="f8", dt="f8", eps=1e-9, x64=True))
    t += [x for x in kin.big(tier) if x["family"] == "wide"] + kin.orders(tier)
    t += [dict(x, special=False) for x in kin.alias("quick", ("cacheall", "commit", "reset"), 2)]
    for b in ((), (1,), (2,), (3,), (1, 2), (2, 2), (2, 1, 3)):
        t.append(dict(family="bad", batch=b))
    return t


def poisoned(cfg, c, m):
    """The same controller with non-finite values strewn over every tensor of accumulators, defaults and updates."""
    from .. import lib
    from ..model import tmap
    sp = np.array([np.nan, np.inf, -np.inf])

    def strew(salt):
        def f(x):
            x = np.array(x, dtype=np.float64)
            i = np.arange(x.size).reshape(x.shape) + salt
            return np.where(i % 2 == 0, sp[i // 2 % 3], x)
        return f
    ed = lib.TensorEditor.edit_controller(c, "silence")
    acc, dft, upd = {}, {}, {}
    for i, nm in enumerate(cfg.names):
        acc[nm], dft[nm] = tmap(strew(i), m.acc[nm]), tmap(strew(i + 1), m.dft[nm])
        upd[nm] = None if m.upd[nm] is None else tmap(strew(i + 3), m.upd[nm])
        ed = ed.set_accumulator(nm, cfg.tree(nm, acc[nm])).set_defaults(nm, cfg.tree(nm, dft[nm]))
        if upd[nm] is not None:
            ed = ed.set_updates(nm, cfg.tree(nm, upd[nm]))
    return ed.build(), m.but(acc=acc, dft=dft, upd=upd)


class Monitor:
    def __init__(self, task):
        self.task = task
        self.seen = set()

    def start(self, R, cfg, c, m):
        self.visit(R, cfg, c, m, {"history": []})

    def step(self, R, x):
        from .. import lib
        R.checks += 1
        d = lib.differs(x.post, lib.model_obs(x.mpost))
        if d:
            R.violation(x.case(), "after %s: %s" % (x.op[0], d))
        if self.task["family"] == "wide":
            self.views(R, x.cfg, x.cpost, x.mpost, x.case())
            n = x.cfg.n
            for k, pat in enumerate((np.arange(n) % 2 == 0, np.arange(n) % 3 == 1, np.arange(n) < n // 2, np.arange(n) == n - 1)):
                self.mask(R, x.cfg, x.cpost, x.mpost, pat.reshape(x.cfg.batch), dict(x.case(), mask_pattern=k))
        elif x.mpost.key() not in self.seen:
            self.visit(R, x.cfg, x.cpost, x.mpost, x.case())

    def refused(self, R, x):
        if x.want is None:
            R.violation(x.case(), "%s raised %s: %s" % (x.op[0], type(x.exc).__name__, str(x.exc)[:400]))

    def compare(self, R, view, want, eps, case, what):
        from .. import lib
        R.checks += 1
        R.trans()
        o = lib.observe(view)
        o.pop("eps"), o.pop("dep", None)
        d = lib.differs(o, want, [f for f in lib.FIELDS if f in o], tol=0.0)
        if d:
            R.violation(case, "%s: %s" % (what, d))
        if abs(float(lib.arr(view.halt_threshold)) - (1 - eps)) > 1e-6:
            R.violation(case, "%s: halt threshold is %s" % (what, view.halt_threshold))

    def truth(self, c):
        """The observed state as a Model, so that masks are compared exactly."""
        from .. import lib
        from ..model import Model
        o = lib.observe(c)
        return Model(o["eps"], o["dep"], o["p"], o["r"], o["n"], o["dft"], o["acc"], o["upd"])

    def mask(self, R, cfg, c, m, mask, case, jit=False):
        from .. import lib
        t = self.truth(c)
        v = c.make_viewer()
        mm = lib.jnp.asarray(mask)
        got = lib.jitted("mask", lambda v, k: v.mask_data(k))(v, mm) if jit else v.mask_data(mm)
        self.compare(R, got, lib.model_obs(t.mask(mask)), m.eps, case, "masked view")
        return v, t, got

    def views(self, R, cfg, c, m, case):
        from .. import lib
        t = self.truth(c)
        v = c.make_viewer()
        self.compare(R, v, lib.model_obs(t), m.eps, case, "view")
        R.checks += 1
        if not np.array_equal(lib.arr(v.halted_batches), m.halted):
            R.violation(case, "halted batches of the view are %s, expected %s" % (lib.short(lib.arr(v.halted_batches)), lib.short(m.halted)))
        self.compare(R, v.halted_only(), lib.model_obs(t.mask(m.halted)), m.eps, case, "halted only view")
        self.compare(R, v.unhalted_only(), lib.model_obs(t.mask(~m.halted)), m.eps, case, "unhalted only view")

    def visit(self, R, cfg, c, m, case):
        from .. import lib
        if self.task["family"] == "wide":
            return
        self.seen.add(m.key())
        if self.task.get("special"):
            c, m = poisoned(cfg, c, m)
        n = cfg.n
        before = lib.observe(c)
        self.views(R, cfg, c, m, case)
        masks = [np.array(b, dtype=bool).reshape(cfg.batch) for b in itertools.product((False, True), repeat=n)]
        views = []
        t = self.truth(c)
        for i, k in enumerate(masks):
            cs = dict(case, mask=k.tolist())
            v, _, got = self.mask(R, cfg, c, m, k, cs, jit=i % 3 == 2)
            views.append((k, got))
        # masking twice is masking by the conjunction
        for k, got in views:
            for k2 in masks if n <= 3 else masks[len(self.seen) % 3::3]:
                self.compare(R, got.mask_data(lib.jnp.asarray(k2)), lib.model_obs(t.mask(k & k2)), m.eps,
                             dict(case, mask=k.tolist(), then=k2.tolist()), "view masked twice")
            if n > 4:
                break
        # one after the other gives the same again, and nothing changed
        got = v.mask_data(np.asarray(masks[-1]))
        self.compare(R, got, lib.model_obs(t), m.eps, case, "view masked by a numpy array")
        R.checks += 1
        d = lib.same_obs(lib.observe(c), before) or lib.differs({k: x for k, x in lib.observe(v).items() if k != "eps"}, before, [f for f in lib.FIELDS if f not in ("eps", "dep")], tol=0.0)
        if d:
            R.violation(case, "masking changed its source: %s" % d)
        R.state(m.key())
        R.trace()


def bad(task, R):
    from .. import lib
    cfg = lib.cfg_of(dict(batch=task["batch"], acc="two"))
    c = cfg.controller()
    c = lib.cache_all(c, cfg, 0).iterate_act(cfg.h(np.full(cfg.batch, 0.5)))
    v = c.make_viewer()
    before = lib.observe(v)
    shapes = [s for r in range(4) for s in itertools.product((1, 2, 3), repeat=r)] + [(0,), cfg.batch + (1,), (1,) + cfg.batch]
    jnp = lib.jnp
    for s in shapes:
        for dt in (jnp.bool_, jnp.int32, jnp.float32, jnp.uint8, jnp.bfloat16, jnp.complex64):
            ok = s == cfg.batch and dt is jnp.bool_
            for how in ("eager", "numpy", "jit"):
                mask = jnp.ones(s, dt)
                if how == "numpy":
                    if dt is jnp.bfloat16:
                        continue
                    mask = np.asarray(mask)
                R.trans()
                R.checks += 1
                R.state((s, str(dt), how))
                case = {"batch": cfg.batch, "mask shape": s, "dtype": str(dt), "how": how}
                try:
                    if how == "jit":
                        lib.jax.eval_shape(lambda v, k: v.mask_data(k), v, mask)
                    else:
                        v.mask_data(mask)
                    e = None
                except Exception as err:
                    e = err
                if ok and e is not None:
                    R.violation(case, "a good mask was refused: %s" % e)
                if not ok and not isinstance(e, ValueError):
                    R.violation(case, "a bad mask gave %r instead of ValueError" % (e,))
                R.outcome(type(e).__name__)
    R.checks += 1
    d = lib.same_obs(lib.observe(v), before)
    if d:
        R.violation({}, "refused masks changed the view: %s" % d)
    R.trace()
    R.sample({"batch": cfg.batch, "mask shapes": len(shapes)})


def run(task, R):
    if task["family"] == "bad":
        return bad(task, R)
    from .. import families
    t = dict(task)
    if t["family"] == "hist":
        t.pop("special", None)
    families.dispatch(t, R, Monitor(task))
