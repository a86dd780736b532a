"""C12: gradients of the ACT process."""
import itertools
import numpy as np

BOUNDS = ("all sequences of 3-5 iterations over 3 probabilities strictly inside (0, 1), with every pattern of resets, 12 "
          "accumulator sets, epsilons, depression constants, batch layouts; derivatives of accumulators, residuals and "
          "probabilities in every halting probability, every update leaf, every definition leaf and the depression "
          "constant, in reverse and forward mode, eager, compiled, through scan and under vmap")
ASSUMPTIONS = ["dyadic probabilities: no element is within rounding of the threshold",
               "all updates finite; derivatives at probabilities zero and one (the ends of the clamp) are not specified"]
A3 = (0.125, 0.3125, 0.5625)
B3 = (0.0625, 0.4375, 0.6875)


def tasks(tier):
    th = tier == "thorough"
    t = []
    T = 4 if th else 3
    accs = ("one", "vec", "hi", "two", "swap", "tuple", "list", "nested", "empties", "five", "mat", "unit", "record", "kinds")
    for i, a in enumerate(accs):
        for j, (eps, dep) in enumerate(((1e-4, 1.0), (0.25, 0.5), (0.5, 1.0), (0.25, 0.75), (0.5, 0.25), (1e-4, 1.5))):
            if not th and (i + j) % 3:
                continue
            t.append(dict(acc=a, alpha=("A3", "B3")[(i + j) % 2], depth=T, eps=eps, dep=dep, resets=[], cost=3))
    for k in range(T + 1):
        for p in itertools.combinations(range(T), k):
            t.append(dict(acc="tuple", alpha="A3", depth=T, eps=(0.25, 0.5)[k % 2], dep=1.0, resets=list(p), cost=3))
    for lay in ("two", "col", "row"):
        t.append(dict(acc="vec", alpha="A3", depth=3, eps=0.25, layout=lay, resets=[1], cost=3))
    t.append(dict(acc="f8", dt="f8", alpha="A3", depth=3, eps=0.25, resets=[], x64=True, cost=3))
    t.append(dict(acc="f8", dt="f4", alpha="A3", depth=3, eps=0.25, dep=0.5, resets=[], x64=True, cost=3))
    t.append(dict(acc="vec", alpha="A3", depth=5 if th else 4, eps=0.25, dep=0.5, resets=[], cost=3))
    return t


def closed_form(cfg, hs, us, resets):
    """
    Per element: current segment start s, halting step (or None), weights.
    Returns arrays over [T, *batch]: weight of each update, alive (before halting
    in the last segment), in segment; and the halting step index array (-1: none).
    """
    T = hs.shape[0]
    m = cfg.model()
    s = np.zeros(cfg.batch, int)
    halt = -np.ones(cfg.batch, int)
    w = np.zeros(hs.shape)
    for t in range(T):
        wt, newly = m.weights(hs[t])
        w[t] = wt
        halt = np.where(newly, t, halt)
        m = m.but(upd=us[t]).iterate(hs[t])
        if resets[t]:
            z = m.halted
            m = m.reset()
            s = np.where(z, t + 1, s)
            halt = np.where(z, -1, halt)
    tt = np.arange(T).reshape((T,) + (1,) * len(cfg.batch))
    inseg = tt >= s[None]
    w = np.where(inseg, w, 0.0)
    before = inseg & ((halt[None] < 0) | (tt < halt[None]))
    return m, w, before, halt


def run(task, R):
    import jax
    from jax import numpy as jnp
    from jax import lax
    from .. import lib
    from ..model import left, tleaves, tmap
    from src.jax_act import ControllerBuilder
    alpha = {"A3": A3, "B3": B3}[task["alpha"]]
    T = task["depth"]
    hs = lib.grid(alpha, T)
    N = hs.shape[1]
    lay = task.get("layout", "flat")
    batch = {"flat": (N,), "two": (3, N // 3), "col": (N, 1), "row": (1, N)}[lay]
    cfg = lib.cfg_of(task, batch=batch)
    hs = hs.reshape((T,) + batch)
    resets = [t in task["resets"] for t in range(T)]
    us = [cfg.updates(t) for t in range(T)]
    m, w, before, halt = closed_form(cfg, hs, us, resets)
    dt = lib.DT[cfg.dt]
    jt = lambda d: {k: cfg.tree(k, d[k]) for k in cfg.names}
    U = [jt(u) for u in us]
    D = jt(cfg.defaults())
    Hs = [cfg.h(h) for h in hs]
    dep = jnp.asarray(cfg.dep, dt)
    # a fixed functional of everything: integer weights
    cot = jt({k: lib.values(cfg.spec[k], batch, 31 + i, lo=-2, span=5) for i, k in enumerate(cfg.names)})
    al = jnp.asarray((np.arange(N) % 3 + 1).reshape(batch), dt)
    be = jnp.asarray((np.arange(N) % 4 - 2).reshape(batch), dt)

    def process(D, Hs, U, dep, scan=False, batch=batch):
        b = ControllerBuilder.new_builder(list(batch), dt, cfg.eps, dep)
        for nm in cfg.names:
            b = b.define_accumulator_directly(nm, D[nm])
        c = b.build()

        def step(c, h, u, rs):
            for nm in cfg.names:
                c = c.cache_update(nm, u[nm])
            c = c.iterate_act(h)
            return c.reset_batches() if rs is True else (c if rs is False else lax.cond(
                rs, lambda c: c.reset_batches(), lambda c: c, c))
        if scan:
            st = lambda *x: jnp.stack(x)
            xs = (jnp.stack(Hs), jax.tree_util.tree_map(st, *U), jnp.asarray(resets))
            c, _ = lax.scan(lambda c, x: (step(c, *x), None), c, xs)
        else:
            for t in range(T):
                c = step(c, Hs[t], U[t], resets[t])
        return dict(acc=dict(c.accumulators), r=c.residuals, p=c.probabilities)

    def loss(D, Hs, U, dep, scan=False):
        o = process(D, Hs, U, dep, scan)
        s = (o["r"] * al).sum() + (o["p"] * be).sum()
        for x, y in zip(jax.tree_util.tree_leaves(o["acc"]), jax.tree_util.tree_leaves(cot)):
            s = s + (x * y).astype(s.dtype).sum()
        return s

    nb = len(batch)
    rowsum = lambda x: np.asarray(x, dtype=np.float64).reshape(batch + (-1,)).sum(-1)
    flat = lambda d: [np.asarray(l, dtype=np.float64) for l in jax.tree_util.tree_leaves(d)]
    fc = flat(cot)
    fu = [flat(u) for u in U]
    uN = [sum_take(fu, halt, i, nb) for i in range(len(fc))]
    # derivative in d*h_t, per element
    g = np.zeros((T,) + batch)
    for t in range(T):
        s = sum(rowsum(c * (u - z)) for c, u, z in zip(fc, fu[t], uN)) if fc else np.zeros(batch)
        s = s + np.where(halt >= 0, -np.asarray(al), np.asarray(be))
        g[t] = np.where(before[t], s, 0.0)
    want = (flat(cot), [cfg.dep * g[t] for t in range(T)],
            [[c * left(w[t], c.ndim) for c in fc] for t in range(T)],
            (g * np.clip(hs, 0, 1)).sum())

    tol = 1e-5

    def near(mode, what, got, exp):
        R.checks += 1
        got, exp = np.asarray(got, dtype=np.float64), np.asarray(exp, dtype=np.float64)
        case = {"task": task, "mode": mode, "derivative": what}
        if not np.isfinite(got).all():
            R.violation(case, "%s: derivative of %s is not finite" % (mode, what))
        if got.shape != exp.shape or not lib.close(got, exp, tol):
            i = tuple(int(v) for v in np.argwhere(~(np.abs(got - exp) <= tol * (1 + np.abs(exp))))[0]) if got.shape == exp.shape else ()
            e = int(np.ravel_multi_index(i[:nb], batch)) if len(i) >= nb else 0
            R.violation({**case, "history": hs.reshape(T, -1)[:, e].tolist(), "halted at": int(halt.ravel()[e])},
                        "%s: derivative in %s is %s, expected %s" % (mode, what, got[i] if i else got, exp[i] if i else exp))

    def compare(mode, gr):
        gD, gH, gU, gdep = gr
        for x, y in zip(flat(gD), want[0]):
            near(mode, "a definition", x, y)
        for t in range(T):
            near(mode, "halting probability %d" % t, gH[t], want[1][t])
            for x, y in zip(flat(gU[t]), want[2][t]):
                near(mode, "update %d" % t, x, y)
        near(mode, "the depression constant", gdep, want[3])
        R.trans(N * T)
        R.trace(N)

    argn = (0, 1, 2, 3)
    compare("reverse mode", jax.grad(loss, argn)(D, Hs, U, dep))
    compare("reverse mode, compiled", jax.jit(jax.grad(loss, argn))(D, Hs, U, dep))
    compare("reverse mode, through scan", jax.jit(jax.grad(lambda *a: loss(*a, scan=True), argn))(D, Hs, U, dep))

    # the derivatives in the halting probabilities have derivatives themselves: they are linear in updates and constant
    slope = lambda U, dep: sum(x.sum() for x in jax.grad(loss, 1)(D, Hs, U, dep))
    for mode, f in (("second derivative, reverse mode", jax.jit(jax.grad(slope, (0, 1)))),):
        gU, gdep = f(U, dep)
        every = before.sum(0)
        for t in range(T):
            k = cfg.dep * (before[t].astype(float) - np.where(halt == t, every, 0))
            for x, c in zip(flat(gU[t]), fc):
                near(mode, "a halting probability and update %d" % t, x, c * left(k, c.ndim))
        near(mode, "a halting probability and the depression constant", gdep, g.sum())
        R.trans(N * T)
    bend = jax.jit(lambda H: jax.jvp(lambda H: jax.grad(loss, 1)(D, H, U, dep), (H,), ([jnp.ones_like(h) for h in H],))[1])(Hs)
    for t in range(T):
        near("second derivative, forward over reverse mode", "halting probabilities, %d among them" % t, bend[t], np.zeros(batch))

    # forward mode: the derivative of every output in h_t, for all elements at once
    zero = lambda x: jax.tree_util.tree_map(jnp.zeros_like, x)
    fwd = jax.jit(lambda tan: jax.jvp(process, (D, Hs, U, dep), tan)[1])
    fwd_scan = jax.jit(lambda tan: jax.jvp(lambda *a: process(*a, scan=True), (D, Hs, U, dep), tan)[1])
    eager = lambda tan: jax.jvp(process, (D, Hs, U, dep), tan)[1]
    for t in range(T):
        tanH = [jnp.ones_like(h) if i == t else jnp.zeros_like(h) for i, h in enumerate(Hs)]
        tan = (zero(D), tanH, zero(U), jnp.zeros_like(dep))
        for mode, f in (("forward mode, compiled", fwd), ("forward mode, through scan", fwd_scan)) + (
                (("forward mode", eager),) if t == T // 2 else ()):
            o = f(tan)
            near(mode, "residual in h%d" % t, o["r"], np.where(before[t] & (halt >= 0), -cfg.dep, 0.0))
            near(mode, "probability in h%d" % t, o["p"], np.where(before[t] & (halt < 0), cfg.dep, 0.0))
            for x, u, z in zip(flat(o["acc"]), fu[t], uN):
                near(mode, "accumulator in h%d" % t, x, cfg.dep * left(before[t].astype(float), u.ndim) * (u - z))
            R.trans(N)
        # in update t
        tan = (zero(D), zero(Hs), [jax.tree_util.tree_map(jnp.ones_like, u) if i == t else zero(u) for i, u in enumerate(U)],
               jnp.zeros_like(dep))
        o = fwd(tan)
        for x in flat(o["acc"]):
            near("forward mode, compiled", "accumulator in update %d" % t, x, np.broadcast_to(left(w[t], x.ndim), x.shape))
        near("forward mode, compiled", "residual in update %d" % t, o["r"], np.zeros(batch))
    o = fwd((jax.tree_util.tree_map(jnp.ones_like, D), zero(Hs), zero(U), jnp.zeros_like(dep)))
    for x in flat(o["acc"]):
        near("forward mode, compiled", "accumulator in its starting value", x, np.ones_like(x))

    # under vmap: every element as a controller of its own
    if lay == "flat":
        def one(D, H, U):
            return jax.grad(lambda H: process(D, [H[t] for t in range(T)], [jax.tree_util.tree_map(lambda x: x[t], U)
                                                                         for t in range(T)], dep, batch=())["r"])(H)
        Us = jax.tree_util.tree_map(lambda *x: jnp.stack(x, 1), *U)
        gr = np.asarray(jax.jit(jax.vmap(one))(D, jnp.stack(Hs, 1), Us))
        for t in range(T):
            near("reverse mode under vmap", "residual in h%d" % t, gr[:, t], np.where(before[t] & (halt >= 0), -cfg.dep, 0.0))
    R.add_states(len(np.unique(np.concatenate([hs.reshape(T, -1), halt.reshape(1, -1)]).T, axis=0)))
    R.outcome((task["acc"], task["eps"], int((halt >= 0).sum())))
    R.sample({"history": hs.reshape(T, -1)[:, N // 2].tolist(), "halted at": int(halt.ravel()[N // 2]),
              "dL/dh": [float(want[1][t].ravel()[N // 2]) for t in range(T)]})


def sum_take(fu, halt, i, nb):
    """The update of leaf i in each element's halting iteration; zero where it has not halted."""
    from ..model import left
    out = np.zeros_like(fu[0][i])
    for t in range(len(fu)):
        out = np.where(np.broadcast_to(left(halt == t, out.ndim), out.shape), fu[t][i], out)
    return out
