"""C09: clamping and the depression constant."""
import numpy as np
from .. import kin, lib_const as K

BOUNDS = ("all sequences of 3-5 iterations over alphabets with values under zero, over one, huge, tiny and infinite, for "
          "10 depression constants (0 to 2, exact and inexact), 3 epsilons and 3 dtypes, run against the real code with "
          "the constant one and the probabilities clamped and multiplied beforehand; the constant observed after every "
          "operation of all histories to depth 3-4")
ASSUMPTIONS = ["halting probabilities are numbers or infinities, not NaN; the constant is not negative"]
WILD = (-np.inf, -1.0, 0.0, 0.25, 0.75, 1.0, 1.5, np.inf)
WILD2 = (-1e30, -1e-3, 0.3, 0.7, 1.0 + 1e-3, 1e30)
DEPS = (1.0, 0.5, 0.25, 0.0, 2.0, 1.5, 0.1, 0.3, 0.9, 1e-3)


def tasks(tier):
    th = tier == "thorough"
    t = []
    for dep in DEPS:
        for eps in (1e-4, 0.25, 0.5):
            for alpha in ("WILD", "WILD2"):
                t.append(dict(kind="pair", alpha=alpha, depth=5 if th else 3, eps=eps, dep=dep, acc="one",
                              resets=[1] if eps == 0.25 else []))
    for dep in (1.0, 0.5, 0.25, 0.0, 2.0):
        for dt in ("b2", "f8", "f2"):
            t.append(dict(kind="pair", alpha="WILD", depth=3, eps=0.25, dep=dep, acc="one", dt=dt, x64=dt == "f8",
                          may_crash_xla=dt == "f2", resets=[0]))
        t.append(dict(kind="pair", alpha="WILD", depth=3, eps=1e-4, dep=dep, acc="tuple", mode="jit", resets=[1]))
        for k in ("int", "array") if dep in (0.0, 1.0, 2.0) else ("array",):
            t.append(dict(kind="pair", alpha="WILD", depth=3, eps=0.25, dep=dep, acc="vec", dep_kind=k, resets=[]))
    # against the model, exact
    for dep in (1.0, 0.5, 0.25, 0.0, 2.0, 1.5):
        t.append(dict(family="wide", alphabet=K.H7, depth=5 if th else 4, dep=dep, eps=0.25, acc="tuple"))
    # carried through everything
    for dep, kind in ((0.5, "float"), (0.0, "float"), (1.0, "int"), (0.25, "array"), (2.0, "int"), (0.1, "float"), (0.3, "array")):
        t += kin.hist(tier, ("cacheall", "iter1", "reset", "edit1", "copy"), 4 if th else 3,
                      [dict(batch=(2,), acc="two", dep=dep, dep_kind=kind)])
        t += kin.hist(tier, ("cacheall", "iter", "reset", "copy"), 3, [dict(batch=(), acc="one", dep=dep, dep_kind=kind,
                                                                             mode="jit")])
    t += kin.duo(tier)[:1]
    return t


class Monitor:
    def step(self, R, x):
        from .. import lib
        R.checks += 2
        if "dep" in x.post:
            want = float(np.float32(x.cfg.dep))
            if abs(x.post["dep"] - want) > 1e-7 * max(1.0, abs(want)) and x.post["dep"] != x.cfg.dep:
                R.violation(x.case(), "depression constant %r after %s, expected %r" % (x.post["dep"], x.op[0], x.cfg.dep))
        if x.cfg.dep in (1.0, 0.5, 0.25, 0.0, 2.0, 1.5):
            d = lib.differs(x.post, lib.model_obs(x.mpost), ("p", "r", "n", "acc"))
            if d:
                R.violation(x.case(), "after %s with depression %s: %s" % (x.op[0], x.cfg.dep, d))
        if x.op[0] == "iter" and x.cfg.dep == 0 and not np.array_equal(x.post["p"], x.pre["p"]):
            R.violation(x.case(), "probabilities progress with depression constant zero")

    def refused(self, R, x):
        if x.want is None:
            R.violation(x.case(), "%s raised %s: %s" % (x.op[0], type(x.exc).__name__, str(x.exc)[:400]))


def run(task, R):
    if "family" in task:
        from .. import families
        return families.dispatch(task, R, Monitor())
    import jax
    from jax import numpy as jnp
    from .. import lib
    hs = lib.grid(WILD if task["alpha"] == "WILD" else WILD2, task["depth"])
    n = hs.shape[1]
    A = lib.cfg_of(task, batch=(n,))
    B = lib.cfg_of(task, batch=(n,), dep=1.0, dep_kind="float")
    a, b = A.controller(), B.controller()
    npdt = np.asarray(A.h(0.0)).dtype
    tol = 0.0 if task["alpha"] == "WILD" else 1e-6
    states = []
    for t in range(task["depth"]):
        h = np.asarray(A.h(hs[t]))
        hb = (np.asarray(task["dep"], dtype=npdt) * np.clip(h, 0, 1)).astype(npdt)
        pa = lib.observe(a)
        a = lib.iterate(lib.cache_all(a, A, t), jnp.asarray(h), A.mode)
        b = lib.iterate(lib.cache_all(b, B, t), jnp.asarray(hb), B.mode)
        oa, ob = lib.observe(a), lib.observe(b)
        R.trans(2 * n)
        R.checks += 3
        d = lib.differs(oa, ob, ("p", "r", "n", "acc", "dft"), tol=tol)
        if d:
            f = d.split(" ")[0]
            bad = np.flatnonzero(np.abs(oa["p"] - ob["p"]) > tol) if f == "p" else np.arange(min(n, 3))
            R.violation({"task": task, "step": t, "histories": hs[:t + 1, bad[:3]].T.tolist()},
                        "depression %s differs from depressing beforehand: %s" % (task["dep"], d))
        if not np.array_equal(lib.arr(a.halted_batches), lib.arr(b.halted_batches)):
            R.violation({"task": task, "step": t}, "halting differs from depressing beforehand")
        want = float(np.float32(task["dep"]))
        got = float(lib.arr(a.depression_constant))
        if abs(got - want) > (1e-7 if A.dt in ("f4", "f8") else 1e-2):
            R.violation({"task": task, "step": t}, "depression constant became %r" % got)
        if task["dep"] == 0 and not np.array_equal(oa["p"], pa["p"]):
            R.violation({"task": task, "step": t}, "probabilities progress with depression constant zero")
        states.append(np.stack([oa["p"], oa["r"], oa["n"]], 1))
        if t in task["resets"]:
            a, b = lib.reset(a, A.mode), lib.reset(b, B.mode)
    R.add_states(len(np.unique(np.round(np.concatenate(states), 6), axis=0)))
    R.trace(n)
    R.outcome((task["dep"], task["eps"], round(float(oa["p"].sum()), 3)))
    R.sample({"dep": task["dep"], "h": [str(v) for v in hs[:, n // 2]], "p": float(oa["p"][n // 2])})
