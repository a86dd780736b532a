"""C05: batch elements are independent of each other and of their layout."""
import itertools
import numpy as np
from .. import kin

BOUNDS = ("all pairs and triples of element histories (27-125 histories each) run jointly and alone; all permutations of "
          "4-element batches; 10 batch layouts (to rank 6) of the same elements; a non-finite update or probability in every "
          "position; joint lockstep exploration of small batches")
ASSUMPTIONS = ["dyadic values: results are compared exactly"]


def tasks(tier):
    t = []
    th = tier == "thorough"
    H3, H4 = (0.0, 0.5, 1.0), (0.25, 0.5, 0.75, 1.0)
    for acc in ("one", "vec", "hi", "nested", "swap", "kinds"):
        for resets in ((), (0,), (1,), (1, 2)):
            t.append(dict(kind="tuples", k=2, alphabet=(0.0, 0.25, 0.75, 1.0), depth=3, acc=acc, resets=resets,
                          eps=(1e-4, 0.25)[len(resets) % 2], cost=4))
        t.append(dict(kind="tuples", k=3, alphabet=H3, depth=3 if th else 2, acc=acc, resets=(1,), cost=6))
        t.append(dict(kind="tuples", k=4, alphabet=(0.5, 1.0), depth=3, acc=acc, resets=(0, 1), cost=6))
        t.append(dict(kind="tuples", k=2, alphabet=H4, depth=3, acc=acc, resets=(), eps=0.5, dep=0.5, cost=4))
        for mode in ("eager", "jit"):
            t.append(dict(kind="perm", acc=acc, alphabet=H3, depth=3, resets=(1,), mode=mode, cost=3))
            t.append(dict(kind="layout", acc=acc, alphabet=H3, depth=3, resets=(1,), mode=mode, cost=3))
        for bad in ("nan", "inf"):
            for where in ("upd", "h") if bad == "nan" else ("upd",):
                t.append(dict(kind="poison", acc=acc, alphabet=H3, depth=3, bad=bad, where=where, resets=(1,), cost=2))
    t += kin.big(tier) + kin.joint(tier, accs=("vec", "hi")) + kin.oddstart(tier, ("vec", "nested", "kinds"))
    t += kin.hist(tier, ("cacheall", "iter", "reset"), 5 if th else 4,
                  [dict(batch=(2,), acc="two"), dict(batch=(3,), acc="nested", mode="jit", eps=0.25),
                   dict(batch=(2, 2), acc="vec", eps=0.5), dict(batch=(0,), acc="vec"), dict(batch=(2, 0), acc="one")])
    return t


class Monitor:
    def step(self, R, x):
        from .. import lib
        R.checks += 1
        d = lib.differs(x.post, lib.model_obs(x.mpost), ("p", "r", "n", "acc"))
        if d:
            R.violation(x.case(), "element of a joint batch after %s: %s" % (x.op[0], d))


def element_values(spec, ids, t):
    """Update values that belong to history `ids` (any shape) at step t."""
    from .. import lib
    cnt = itertools.count()

    def mk(l):
        i = next(cnt)
        m = int(np.prod(l.extra, dtype=int))
        f = np.arange(m)
        v = (5 * ids[..., None] + 3 * f + 7 * i + 11 * t + ids[..., None] * f) % 9 - 4
        return v.astype(np.float64).reshape(ids.shape + l.extra)
    return lib.map_specs(mk, spec)


def runner(cfg):
    """Compiled real operations mapped over many independent controllers."""
    import jax
    from .. import families
    B = families.Batched(cfg)

    def build(arrs):
        it = iter(arrs)
        return jax.tree_util.tree_unflatten(B.treedef, [next(it) if a else l for a, l in zip(B.isarr, B.leaves0)])

    def split(c):
        ls, _ = jax.tree_util.tree_flatten(c)
        return [l for a, l in zip(B.isarr, ls) if a]

    def start(dft):
        from src.jax_act import ControllerBuilder
        from .. import lib
        b = ControllerBuilder.new_builder(list(cfg.batch), lib.DT[cfg.dt], cfg.eps, cfg.dep)
        for nm in cfg.names:
            b = b.define_accumulator_directly(nm, dft[nm])
        return split(b.build())

    def it(arrs, h, us):
        c = build(arrs)
        for nm in cfg.names:
            c = c.cache_update(nm, us[nm])
        return split(c.iterate_act(h))

    def see(arrs):
        c = build(arrs)
        return dict(p=c.probabilities, r=c.residuals, n=c.iterations, acc=dict(c.accumulators), halted=c.halted_batches)
    return (jax.jit(jax.vmap(start)), jax.jit(jax.vmap(it)), jax.jit(jax.vmap(lambda a: split(build(a).reset_batches()))),
            jax.jit(jax.vmap(see)))


def run_many(task, ids, hs):
    """ids: [K, *batch] history numbers; returns observations after every step."""
    import jax
    from .. import lib
    cfg = lib.cfg_of(task, batch=ids.shape[1:])
    start, it, rs, see = runner(cfg)
    jt = lambda t: {k: to_jax(t[k], cfg.spec[k]) for k in cfg.names}
    to_jax = lib.to_jax
    c = start(jt({k: element_values(cfg.spec[k], ids, 17 + i) for i, k in enumerate(cfg.names)}))
    out = []
    for t in range(hs.shape[0]):
        us = jt({k: element_values(cfg.spec[k], ids, t + 5 * i) for i, k in enumerate(cfg.names)})
        c = it(c, cfg.h(hs[t][ids]), us)
        out.append(jax.tree_util.tree_map(np.asarray, see(c)))
        if t in task["resets"]:
            c = rs(c)
            out.append(jax.tree_util.tree_map(np.asarray, see(c)))
    return out


def run(task, R):
    if "family" in task:
        from .. import families
        return families.dispatch(task, R, Monitor())
    import jax
    from .. import lib
    hs = lib.grid(tuple(task["alphabet"]), task["depth"])
    S = hs.shape[1]
    {"tuples": tuples, "perm": layouts, "layout": layouts, "poison": poison}[task["kind"]](task, R, hs, S)


def tuples(task, R, hs, S):
    import jax
    k = task["k"]
    alone = run_many(task, np.arange(S)[:, None], hs)
    ids = np.array(list(itertools.product(range(S), repeat=k)))
    shapes = [ids] + ([ids.reshape(-1, 2, 2)] if k == 4 else [])
    for ii in shapes:
        joint = run_many(task, ii, hs)
        for t, (a, j) in enumerate(zip(alone, joint)):
            fa, td = jax.tree_util.tree_flatten(a)
            fj, _ = jax.tree_util.tree_flatten(j)
            R.trans(len(ii))
            for x, y in zip(fa, fj):
                want = x[:, 0][ii]
                R.checks += 1
                if want.shape != y.shape or not np.array_equal(want, y):
                    bad = 0
                    if want.shape == y.shape:
                        bad = int(np.argwhere(want != y)[0][0])
                    R.violation({"task": task, "observation": t, "elements": ii[bad].tolist(),
                                 "histories": hs[:, ii[bad].ravel()].T.tolist()},
                                "an element run in a batch differs from the element run alone: %s instead of %s"
                                % (y[bad].tolist(), want[bad].tolist()))
        R.trace(len(ii))
        R.add_states(len(np.unique(np.stack([j["p"].reshape(len(ii), -1) for j in joint], 1).reshape(len(ii), -1), axis=0)))
    R.outcome((task["k"], task["acc"], round(float(joint[-1]["p"].sum()), 3)))
    R.sample({"joint histories of": k, "histories": S, "tuples": len(ids)})


def run_one(task, batch, ids, hs, poison_=None):
    """One real run; ids has the batch shape. Returns list of (obs dict of flat arrays)."""
    from .. import lib
    from src.jax_act import ControllerBuilder
    cfg = lib.cfg_of(task, batch=batch)
    b = ControllerBuilder.new_builder(list(batch), lib.DT[cfg.dt], cfg.eps, cfg.dep)
    for i, nm in enumerate(cfg.names):
        b = b.define_accumulator_directly(nm, lib.to_jax(element_values(cfg.spec[nm], ids, 17 + i), cfg.spec[nm]))
    c = b.build()
    out = []
    for t in range(hs.shape[0]):
        h = hs[t][ids]
        for i, nm in enumerate(cfg.names):
            u = element_values(cfg.spec[nm], ids, t + 5 * i)
            if poison_ and poison_[0] == "upd" and poison_[2] == t:
                def put(x):
                    x = x.copy()
                    x[poison_[1]] = poison_[3]
                    return x
                u = lib.tmap(put, u)
            c = c.cache_update(nm, lib.to_jax(u, cfg.spec[nm]))
        if poison_ and poison_[0] == "h" and poison_[2] == t:
            h = h.copy()
            h[poison_[1]] = poison_[3]
        c = lib.iterate(c, cfg.h(h), cfg.mode)
        out.append(lib.observe(c))
        if t in task["resets"]:
            c = lib.reset(c, cfg.mode)
            out.append(lib.observe(c))
    return out


def flat(o, nb):
    from .. import lib
    ls = [o["p"], o["r"], o["n"]] + [l for k in sorted(o["acc"]) for l in lib.tleaves(o["acc"][k])]
    return [l.reshape((-1,) + l.shape[nb:]) for l in ls]


def layouts(task, R, hs, S):
    """The same elements permuted, or laid out in other batch shapes."""
    if task["kind"] == "layout":
        ids = np.arange(24) % S
        base = run_one(task, (24,), ids, hs)
        variants = [(b, np.arange(24)) for b in ((24, 1), (1, 24), (2, 12), (4, 6), (2, 3, 4), (2, 2, 6), (1, 4, 6), (2, 2, 2, 3), (2, 1, 2, 1, 6), (1, 2, 2, 2, 1, 3))]
    else:
        ids = np.array([3, 9, 14, 26]) % S
        base = run_one(task, (4,), ids, hs)
        variants = [((4,), np.array(p)) for p in itertools.permutations(range(4))]
        variants += [((2, 2), np.array(p)) for p in itertools.permutations(range(4))]
    for b, perm in variants:
        got = run_one(task, b, ids[perm].reshape(b), hs)
        for t, (x, y) in enumerate(zip(base, got)):
            R.trans()
            R.state((b, tuple(perm), t))
            for p, q in zip(flat(x, 1), flat(y, len(b))):
                R.checks += 1
                if p[perm].shape != q.shape or not np.array_equal(p[perm], q):
                    R.violation({"task": task, "batch": b, "permutation": perm.tolist(), "observation": t},
                                "elements laid out as %s differ: %s instead of %s" % (b, q.tolist(), p[perm].tolist()))
        R.trace()
    R.outcome(tuple(base[-1]["n"].tolist()))
    R.sample({"layouts": [list(b) for b, _ in variants][:4]})


def poison(task, R, hs, S):
    """A non-finite value for one element must leave all others bitwise alone."""
    n = 6
    ids = np.array([0, 5, 9, 14, 22, 26]) % S
    base = run_one(task, (n,), ids, hs)
    bad = {"nan": np.nan, "inf": np.inf}[task["bad"]]
    for e in range(n):
        for t in range(hs.shape[0]):
            got = run_one(task, (n,), ids, hs, (task["where"], e, t, bad))
            keep = np.arange(n) != e
            for k, (x, y) in enumerate(zip(base, got)):
                R.trans()
                R.state((e, t, k))
                for p, q in zip(flat(x, 1), flat(y, 1)):
                    R.checks += 1
                    if p.shape != q.shape or not np.array_equal(p[keep], q[keep], equal_nan=True):
                        R.violation({"task": task, "element": e, "step": t, "observation": k},
                                    "%s in element %d changed other elements: %s instead of %s"
                                    % (task["bad"], e, q[keep].tolist(), p[keep].tolist()))
            R.trace()
    R.outcome(("poison", task["bad"]))
    R.sample({"poisoned positions": n * hs.shape[0]})
