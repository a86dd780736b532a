"""C16: transforms of a view."""
import functools
import itertools
import operator
import numpy as np
from .. import kin

BOUNDS = ("25 functions and other callables, all pairs of the 7 composable ones, a function raising at each single tensor (8 exception types, by "
          "call number and by content) in every state reached by histories of caching, committing, resetting and edits to "
          "depth 1-3 (every subset of pending updates) over 20 accumulator sets and 7 batch shapes, eager and compiled")
ASSUMPTIONS = ["functions are deterministic and depend on the tensor only (raising on the k-th call excepted)"]
ALL = ("vec", "one", "mat", "hi", "unit", "two", "swap", "tuple", "list", "dict", "nested", "empties", "hollow", "five", "names", "b2", "mixdt", "none", "record", "kinds")


def tasks(tier):
    th = tier == "thorough"
    t = []
    small = ((2,), (), (1, 2), (3,), (2, 2), (1,), (2, 1, 2))
    for i, a in enumerate(ALL):
        for j in range(3 if th else 1):
            b = small[(i + 3 * j) % len(small)]
            ops = ("iter1", "reset") if a == "none" else ("cache", "commit", "reset", "edit1")
            t += kin.hist(tier, ops, 2 if th else 1, [dict(batch=b, acc=a, eps=(1e-4, 0.25, 0.5)[i % 3], dep=(1.0, 0.5)[i % 2])])
            if a != "none" and not th:
                n = int(np.prod(b, dtype=int))
                t += kin.hist(tier, ("cache", "edit1"), 1, [dict(batch=b, acc=a, prefix=[["commit", [0.5, 1.0, 0.25, 0.75][:n]]])])
    t += kin.hist(tier, ("cache", "commit", "reset"), 4 if th else 3, [dict(batch=(2,), acc="two")])
    t += kin.hist(tier, ("cache", "commit"), 4 if th else 2, [dict(batch=(2,), acc="swap"), dict(batch=(3,), acc="five")])
    # updates that do not fit can be pending too
    for i, a in enumerate(("two", "one", "tuple", "hollow", "kinds")):
        t += kin.hist(tier, ("odd", "commit", "reset"), 3 if th else 2, [dict(batch=small[i], acc=a), dict(batch=small[i + 2], acc=a, mode="jit")])
    for i, a in enumerate(("tall", "many", "wide", "deep", "vec", "huge")):
        t += kin.hist(tier, ("cacheall", "commit"), 1, [dict(batch=((2,), (), (1, 2), (2,), (2, 1, 1, 2, 1), (2,))[i], acc=a)])
    t += kin.alias("quick", ("cacheall", "commit"), 2 if th else 1)
    for x in t:
        x["cost"] = 4
    return t


def functions(jnp, cfg):
    """name -> (function for the code, the same on numpy arrays)."""
    nb = len(cfg.batch)
    f = {
        "affine": (lambda x: x * 2 + 1, lambda x: x * 2 + 1),
        "square": (lambda x: x * x, lambda x: x * x),
        "negate": (lambda x: -x, lambda x: -x),
        "reverse": (lambda x: x.reshape(-1)[::-1], lambda x: x.reshape(-1)[::-1]),
        "outer axis": (lambda x: x[None], lambda x: x[None]),
        "flatten batch": (lambda x: x.reshape((int(np.prod(x.shape[:nb], dtype=int)),) + x.shape[nb:]),) * 2,
        "identity": (lambda x: x, lambda x: x),
    }
    more = {
        "cumulative": (lambda x: jnp.cumsum(x.astype(jnp.float32), axis=-1) if x.ndim else x, lambda x: np.cumsum(x, axis=-1) if x.ndim else x),
        "sum": (lambda x: x.astype(jnp.float32).sum(), lambda x: np.asarray(x.sum())),
        "where": (lambda x: jnp.where(x > 0, x, -1.0), lambda x: np.where(x > 0, x, -1.0)),
        "cast": (lambda x: x.astype(jnp.int32), lambda x: np.trunc(x)),
    }
    # callables that are not plain functions
    from jax.tree_util import Partial
    more.update({
        "partial": (functools.partial(jnp.subtract, 2.0), lambda x: 2 - x),
        "tree partial": (Partial(jnp.subtract, jnp.float32(1.0)), lambda x: 1 - x),
        "nested partial": (Partial(functools.partial(jnp.where, True), 3.0), lambda x: np.full(x.shape, 3.0)),
        "partial with keywords": (functools.partial(lambda x, k, *, j: (x - k) * j, k=1.0, j=-2.0), lambda x: (x - 1) * -2),
        "empty tree partial": (Partial(jnp.negative), lambda x: -x),
        "compiled": (jnp.negative, lambda x: -x),
        "builtin": (operator.neg, lambda x: -x),
        "attribute getter": (operator.attrgetter("T"), lambda x: x.T),
        "bound method": (Scale(3.0).times, lambda x: x * 3),
        "callable object": (Scale(-2.0), lambda x: x * -2),
        "with defaults": (lambda x, y=2.0, *z, **k: x * y, lambda x: x * 2),
        "class": (Wrapped, lambda x: x + 2),
        "vmapped": (lambda x: jnp.abs(x), lambda x: np.abs(x)),
        "numpy": (lambda x: np.asarray(x, np.float32) - 1, lambda x: x - 1),
    })
    if cfg.batch:
        more["first"] = (lambda x: x[0] if x.ndim and len(x) else x,) * 2
    return f, more


class Scale:
    def __init__(self, k):
        self.k = k

    def times(self, x):
        return x * self.k

    __call__ = times


class Wrapped:
    """Calling the class itself gives an array."""
    def __new__(cls, x):
        return x + 2


class Boom(Exception):
    pass


class Monitor:
    def __init__(self, task):
        self.task = task
        self.seen = set()

    def start(self, R, cfg, c, m):
        if not self.task.get("prefix"):
            self.visit(R, cfg, c, m, {"history": []})

    def step(self, R, x):
        from .. import lib
        R.checks += 1
        d = lib.differs(x.post, lib.model_obs(x.mpost))
        if d:
            R.violation(x.case(), "after %s: %s" % (x.op[0], d))
        if x.mpost.key() not in self.seen:
            self.visit(R, x.cfg, x.cpost, x.mpost, x.case())

    def refused(self, R, x):
        if x.want is None:
            R.violation(x.case(), "%s raised %s: %s" % (x.op[0], type(x.exc).__name__, str(x.exc)[:400]))

    def visit(self, R, cfg, c, m, case):
        import jax
        from .. import lib
        from ..model import Model
        jnp = lib.jnp
        self.seen.add(m.key())
        o = lib.observe(c)
        truth = Model(o["eps"], o["dep"], o["p"], o["r"], o["n"], o["dft"], o["acc"], o["upd"])
        v = c.make_viewer()
        F, more = functions(jnp, cfg)

        low = cfg.dt in ("f2", "b2") or any(l.dt in ("f2", "b2") for n in cfg.names for l in lib.leaf_specs(cfg.spec[n]))

        def compare(view, want, cs, what, tol=2e-2 if low else 1e-6):
            R.checks += 1
            R.trans()
            ob = lib.observe(view)
            w = lib.model_obs(want)
            d = lib.differs(ob, w, ["p", "r", "n", "acc", "dft", "upd"], tol=tol)
            if d:
                R.violation(cs, "%s: %s" % (what, d))
            if abs(float(lib.arr(view.halt_threshold)) - (1 - m.eps)) > 1e-6:
                R.violation(cs, "%s: the halt threshold became %s" % (what, view.halt_threshold))
        for name, (f, g) in list(F.items()) + list(more.items()):
            cs = dict(case, function=name)
            compare(v.transform(f), truth.transform(g), cs, "transform by %s" % name)
        name = list(F)[len(self.seen) % 4]
        f, g = F[name]
        if cfg.accname not in ("f2", "mixdt"):
            compare(lib.jitted(("tr", cfg.accname, cfg.batch, name), lambda v, f=f: v.transform(f))(v), truth.transform(g), dict(case, function=name, how="jit"), "compiled transform by %s" % name)
            compare(lib.jitted(("trc", cfg.accname, cfg.batch, name), lambda c, f=f: c.make_viewer().transform(f))(c), truth.transform(g), dict(case, function=name, how="jit"), "compiled view and transform by %s" % name)
        # consecutive transforms compose
        for a, (fa, ga) in F.items():
            va, ta = v.transform(fa), truth.transform(ga)
            for b, (fb, gb) in F.items():
                if a == "reverse" and b == "flatten batch" or a == "outer axis" and b == "flatten batch":
                    continue
                compare(va.transform(fb), ta.transform(gb), dict(case, function=a, then=b), "transform by %s, then %s" % (a, b))
        # a masked view is transformed as any
        if all(l.ndim >= len(cfg.batch) and l.shape[:len(cfg.batch)] == cfg.batch for u in m.upd.values() for l in lib.tleaves(u)):
            compare(v.halted_only().transform(F["affine"][0]), truth.mask(m.halted).transform(F["affine"][1]), case, "transform of the halted only view")
        # raising, at each tensor
        tensors = [truth.p, truth.r, truth.n] + [l for d in (truth.acc, truth.dft, truth.upd) for k in d for l in lib.tleaves(d[k])]
        excs = [ValueError, TypeError, KeyError, AttributeError, RuntimeError, Boom, ZeroDivisionError, StopIteration, IndexError, AssertionError, NotImplementedError]
        for k in range(len(tensors)):
            for how in ("call", "content"):
                exc = excs[(k + len(self.seen)) % len(excs)]
                count = [0]

                def f(x):
                    count[0] += 1
                    if how == "call":
                        if count[0] == k + 1:
                            raise exc("x")
                    elif x.shape == tensors[k].shape and np.array_equal(lib.arr(x), tensors[k]):
                        raise exc("x")
                    return x
                R.checks += 1
                R.trans()
                try:
                    v.transform(f)
                    e = None
                except Exception as err:
                    e = err
                if not isinstance(e, RuntimeError):
                    R.violation(dict(case, raises=exc.__name__, at=k, how=how),
                                "a function raising %s at tensor %d made the transform give %r instead of RuntimeError" % (exc.__name__, k, e))
                R.outcome(("raise", exc.__name__))
        # functions that transform other views, also in vain, before they return; and transforms after some raised
        fa, ga = F["affine"]
        wanted = truth.transform(F["negate"][1])

        def inside(x):
            compare(v.transform(F["negate"][0]), wanted, dict(case, function="inside"), "transform inside a transform")
            try:
                v.transform(lambda y: {}[y.shape])
            except RuntimeError:
                pass
            return fa(x)
        for name, f in (("plain", fa), ("inside", inside), ("plain again", fa)):
            compare(v.transform(f), truth.transform(ga), dict(case, function=name), "%s transform after failed ones" % name)
        # the source did not change
        R.checks += 2
        d = lib.same_obs(lib.observe(c), o) or lib.differs(lib.observe(v), o, ["p", "r", "n", "acc", "dft", "upd"], tol=0.0)
        if d:
            R.violation(case, "transforming changed its source: %s" % d)
        R.state(m.key())
        R.trace()


def run(task, R):
    from .. import families
    families.dispatch(task, R, Monitor(task))
