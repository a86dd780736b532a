"""
Worker side: alphabets, configurations, the driver that applies operations to
the real code, and the observation of its public state.
Imports jax and the repository under test, so only workers import this module.
"""
import itertools
from collections import OrderedDict
import numpy as np
import jax
from jax import numpy as jnp

import src.jax_act as ja
from src.jax_act import (ACT_Controller, ControllerBuilder, ACTViewer, TensorEditor)
from . import model as M
from .nodes import Pt, Rec, Box
from .model import Model, tmap, tleaves, same_structure, left, Reject

DT = {"f4": jnp.float32, "f2": jnp.float16, "b2": jnp.bfloat16, "f8": jnp.float64}


# namedtuples and ordered dictionaries are known to jax
jax.tree_util.register_pytree_node(Rec, lambda r: ((r.second, r.first), r.tag), lambda tag, ch: Rec(*ch, tag))
jax.tree_util.register_pytree_node(Box, lambda b: (b.items, b.label), lambda label, ch: Box(ch, label))


# ---------------------------------------------------------------- accumulators

class Lf:
    """A leaf: trailing shape after the batch dimensions, and a dtype."""
    def __init__(self, *extra, dt="f4"):
        self.extra, self.dt = extra, dt


def chain(n):
    """Containers inside of containers, of every kind, with leaves on both sides."""
    t = Lf(2)
    for i in range(n):
        t = [(Lf(), t), [t, Lf(2)], {"b": t, "a": Lf()}, {"z": Lf(2), "y": t}, (t,)][i % 5]
    return t


def accs(name):
    """Catalogue of accumulator sets: name -> tree of Lf."""
    return {
        "one": {"a": Lf()},
        "vec": {"a": Lf(2)},
        "mat": {"a": Lf(2, 3)},
        "hi": {"a": Lf(2, 2, 2)},
        "unit": {"a": Lf(1), "b": Lf(1, 2, 1)},
        "two": {"state": Lf(2), "output": Lf(3)},
        "swap": {"b": Lf(2), "a": Lf(2)},
        "tuple": {"a": (Lf(), Lf(2))},
        "list": {"a": [Lf(2), Lf(2), Lf(2)]},
        "dict": {"attn": {"normalizer": Lf(2), "matrix": Lf(2, 2)}},
        "nested": {"z": {"q": [Lf(), (Lf(2), {"x": Lf(2), "b": Lf(2)})], "a": Lf(2)},
                   "m": (Lf(2), [Lf(1)], Lf())},
        "empties": {"e": (Lf(2), (), {"k": [], "j": Lf()}), "o": Lf()},
        "hollow": {"nil": (), "a": Lf(2)},
        "five": {"b": Lf(), "a": Lf(2), "10": Lf(), "9": Lf(2), "Z": Lf()},
        "names": {"": Lf(), "a b": Lf(2), "é": Lf(), "updates": Lf(2), "probabilities": Lf()},
        "f2": {"a": Lf(2, dt="f2")},
        "b2": {"a": Lf(2, dt="b2")},
        "mixdt": {"h": Lf(2, dt="f2"), "f": (Lf(2), Lf(dt="b2"))},
        "f8": {"d": Lf(2, dt="f8"), "f": Lf(2)},
        "record": {"s": Rec(Lf(2), Lf()), "o": Lf(2)},
        "kinds": {"k": Pt(Box([Lf(2), Lf()], "lab"), OrderedDict([("z", Rec(Lf(), [Lf(2)], "in")), ("a", Lf(2))])), "j": Lf()},
        "tall": {"a": Lf(1, 2, 1, 2, 1, 2), "b": (Lf(2, 1, 1, 2, 2), Lf())},
        "many": {"n%d" % i: Lf() if i % 3 else Lf(2) for i in (10, 3, 0, 12, 7, 1, 11, 2, 9, 4, 8, 5, 6)},
        "wide": {"w": [Lf() if i % 4 else Lf(2) for i in range(24)], "v": {"k%d" % i: Lf() for i in range(12)}},
        "deep": {"d": chain(14)},
        "crowd": {"c%d" % (i * 37 % 70): Lf() for i in range(70)},
        "huge": {"h": Lf(1100), "g": (Lf(33, 33), Lf())},
        "none": {},
    }[name]


leaf_specs, map_specs = tleaves, tmap


def values(tree, batch, salt, lo=-4, span=9):
    """
    A tree of float64 arrays with small integer values that differ between
    names, leaves, batch elements and features, so that nothing can be
    confused with anything else unnoticed.
    """
    n = int(np.prod(batch, dtype=int))
    counter = itertools.count()

    def mk(l):
        i = next(counter)
        m = int(np.prod(l.extra, dtype=int))
        b = np.arange(n)[:, None]
        f = np.arange(m)[None, :]
        v = (5 * b + 3 * f + 7 * i + 11 * salt + (b * f) + (b // 3) * (i + 1) + (salt * b) // 2) % span + lo
        return v.astype(np.float64).reshape(tuple(batch) + tuple(l.extra))
    return map_specs(mk, tree)


def name_salt(names, name, k):
    return 2 * sorted(names).index(name) + 5 * k


def to_jax(tree, spec):
    return tmap(lambda t, l: jnp.asarray(np.asarray(t), DT[l.dt]), tree, spec)


# ---------------------------------------------------------------- configuration

class Cfg:
    def __init__(self, batch=(2,), acc="vec", eps=1e-4, dep=1.0, dt="f4", mode="eager", dep_kind="float",
                 default_salt=1, default_special=None, uscale=1.0, dscale=1.0, alias=None,
                 given=None):
        self.batch = tuple(batch)
        self.accname, self.spec = acc, accs(acc)
        self.eps, self.dep, self.dt, self.mode, self.dep_kind = eps, dep, dt, mode, dep_kind
        self.names = list(self.spec)
        self.default_salt, self.default_special = default_salt, default_special
        self.uscale, self.dscale = uscale, dscale
        self.n = int(np.prod(self.batch, dtype=int))
        # alias: all updates, definitions or both of the same shape are one and the same array
        self.alias, self.interned = alias, {}
        # given: halting probabilities and updates handed over as numpy arrays, kept for a look at the end
        self.given, self.handed = given, []

    def values(self, k, salt, what):
        if self.alias in (what, "both"):
            return tmap(lambda l: values(l, self.batch, 5 * salt), self.spec[k])
        return values(self.spec[k], self.batch, name_salt(self.names, k, salt))

    def defaults(self):
        return {k: self.odd_values(tmap(lambda x: x * self.dscale, self.values(k, self.default_salt, "defaults"))) for k in self.names}

    def odd_values(self, tree):
        """With default_special, some defaults are not finite."""
        if not self.default_special:
            return tree
        v = {"nan": np.nan, "inf": np.inf, "ninf": -np.inf}[self.default_special]
        return tmap(lambda x: np.where((np.arange(x.size) % 3 == x.ndim % 3).reshape(x.shape), v, x), tree)

    def updates(self, k):
        return {nm: tmap(lambda x: x * self.uscale, self.values(nm, 3 + k, "updates")) for nm in self.names}

    def model(self):
        return Model.fresh(self.batch, self.eps, self.dep, self.defaults())

    def depression(self):
        if self.dep_kind == "array":
            return jnp.asarray(self.dep, DT[self.dt])
        if self.dep_kind == "int":
            return int(self.dep)
        return self.dep

    def controller(self):
        b = ControllerBuilder.new_builder(list(self.batch), DT[self.dt], self.eps, self.depression())
        d = self.defaults()
        for k in self.names:
            b = b.define_accumulator_directly(k, to_jax(d[k], self.spec[k]) if self.given else self.tree(k, d[k]))
        return b.build()

    def h(self, x):
        return self.hand(jnp.asarray(np.asarray(x, dtype=np.float64), DT[self.dt]))

    def hand(self, x):
        if self.given != "numpy":
            return x
        x = np.array(x)
        self.handed.append((x, x.copy()))
        return x

    def tampered(self):
        """Arrays the caller handed over that are no longer what they were."""
        return [(was, now) for now, was in self.handed if not np.array_equal(now, was)]

    def tree(self, name, t):
        t = tmap(self.hand, to_jax(t, self.spec[name]))
        return tmap(self.intern, t) if self.alias else t

    def intern(self, x):
        if isinstance(x, jax.core.Tracer):
            return x
        return self.interned.setdefault((x.shape, str(x.dtype), np.asarray(x).tobytes()), x)


def cfg_of(task, **kw):
    keys = ("batch", "acc", "eps", "dep", "dt", "mode", "dep_kind", "default_salt", "default_special", "uscale", "dscale", "alias", "given")
    d = {k: task[k] for k in keys if k in task}
    d.update(kw)
    return Cfg(**d)


# ---------------------------------------------------------------- observation

def arr(x):
    """A tensor of the code under test as a float64 (or bool) numpy array."""
    a = np.asarray(x)
    if a.dtype == np.bool_:
        return a
    return a.astype(np.float64)


FIELDS = ("p", "r", "n", "acc", "dft", "upd", "eps", "dep")


def observe(c):
    """Everything public that a controller (or builder, viewer, editor) shows."""
    ed = c if not isinstance(c, ACT_Controller) else TensorEditor.edit_controller(c)
    o = {"p": arr(c.probabilities), "r": arr(c.residuals), "n": arr(c.iterations),
         "acc": tmap_any(arr, c.accumulators),
         "dft": tmap_any(arr, ed.defaults), "upd": tmap_any(arr, ed.updates)}
    if isinstance(c, ACTViewer):
        o["eps"], o["eps_slack"] = 1 - float(arr(c.halt_threshold)), 1e-6
    else:
        o["eps"] = float(arr(ed.epsilon))
    if isinstance(c, ACT_Controller):
        o["dep"] = float(arr(c.depression_constant))
    return o


def reports(c):
    return {"halted": arr(c.halted_batches), "all": bool(arr(c.is_completely_halted)),
            "any": bool(arr(c.is_any_halted)), "thr": float(arr(c.halt_threshold)),
            "ready": bool(c.updates_ready_to_commit), "cached": bool(c.has_cached_updates)}


def tmap_any(f, t):
    return tmap(f, t)


def close(a, b, tol):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    with np.errstate(all="ignore"):
        ok = (np.abs(a - b) <= tol * (1 + np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))
    return bool(ok.all())


def tree_close(a, b, tol):
    if a is None or b is None:
        return a is None and b is None
    if not same_structure(a, b):
        return False
    return all(close(x, y, tol) for x, y in zip(tleaves(a), tleaves(b)))


def model_obs(m):
    return {"p": m.p, "r": m.r, "n": m.n, "acc": m.acc, "dft": m.dft, "upd": m.upd,
            "eps": m.eps, "dep": m.dep}


def differs(o, want, fields=FIELDS, tol=1e-6):
    """None, or a description of the first field in which observation and model differ."""
    for f in fields:
        if f not in o:
            continue
        a, b = o[f], want[f]
        if f in ("eps", "dep"):
            ok = abs(a - b) <= (1e-6 if f == "eps" else 2e-3) * abs(b) + o.get(f + "_slack", 0.0)
        elif isinstance(b, dict):
            ok = set(a) == set(b) and all(tree_close(a[k], b[k], tol) for k in b)
        else:
            ok = close(a, b, tol)
        if not ok:
            return "%s is %s, expected %s" % (f, short(a), short(b))
    return None


def same_obs(a, b):
    """Exact equality of two observations."""
    return differs(a, b, [f for f in FIELDS if f in a], tol=0.0)


def short(x):
    s = repr(tmap_any(lambda v: np.asarray(v).tolist(), x) if not isinstance(x, float) else x)
    return s if len(s) < 700 else s[:700] + "..."


# ---------------------------------------------------------------- driver

def cache_all(c, cfg, k):
    u = cfg.updates(k)
    for nm in cfg.names:
        c = c.cache_update(nm, cfg.tree(nm, u[nm]))
    return c


def model_cache_all(m, cfg, k):
    return m.but(upd=cfg.updates(k))


_jits = {}


def jitted(key, f):
    if key not in _jits:
        _jits[key] = jax.jit(f)
    return _jits[key]


def j_iterate(c, h):
    return jitted("iterate", lambda c, h: c.iterate_act(h))(c, h)


def j_reset(c):
    return jitted("reset", lambda c: c.reset_batches())(c)


def iterate(c, h, mode):
    return j_iterate(c, h) if mode == "jit" else c.iterate_act(h)


def reset(c, mode):
    return j_reset(c) if mode == "jit" else c.reset_batches()


# alphabets of halting probabilities (dyadic: exact in every dtype used)
H5 = (0.0, 0.25, 0.5, 0.75, 1.0)
H7 = (-0.5, 0.0, 0.25, 0.5, 0.75, 1.0, 1.5)


def grid(alphabet, depth):
    """All sequences: array [depth, len(alphabet)**depth]."""
    g = np.array(list(itertools.product(alphabet, repeat=depth)), dtype=np.float64)
    return g.T.copy() if g.size else g.reshape(depth, 0)
