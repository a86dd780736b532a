"""
Exhaustive exploration families.  Every family drives the real controller and
the reference model in lockstep and calls
    monitor.step(R, x)
after every transition, where x is a Step.

wide   all halting-probability sequences over an alphabet up to a depth, one
       per batch element, with resets at chosen steps; many configurations
joint  all joint actions of a small batch, breadth first with deduplication
       on the model state, executed by vmap over the compiled real step
edited wide, started from all combinations of edited probabilities, residuals and
       iteration counts, edited accumulators and defaults, with edits of epsilon
       on the way
long   long runs of small dyadic probabilities
marathon  very long runs (thousands of iterations) in a compiled loop, looked at around the powers of two
hist   all histories of the object-level operations (cache, commit, reset,
       save/load, pytree, edit, protocol errors), breadth first with
       deduplication, on real objects
"""
import itertools
import numpy as np
import jax
from jax import numpy as jnp

from . import lib
from .lib import (Cfg, ACT_Controller, TensorEditor, ControllerBuilder, observe, model_obs, reports,
                  tmap, tleaves, arr, differs)
from .model import Model, Reject, left


class Step:
    """One transition of the lockstep execution."""

    def __init__(self, cfg, op, pre, post, mpre, mpost, case, rep=None, cpre=None, cpost=None, axes=None):
        self.cfg, self.op = cfg, op          # op: ("iter", h) | ("reset",) | other
        self.pre, self.post = pre, post      # observations of the real controller
        self.mpre, self.mpost = mpre, mpost  # models
        self.case = case                     # callable -> description of the history
        self.rep = rep                       # reports of the real controller after
        self.cpre, self.cpost = cpre, cpost
        self.axes = axes                     # batch axes to reduce over (None: all)


class FieldMonitor:
    """Agreement of some fields with the model, on every step."""
    fields = lib.FIELDS

    def step(self, R, x):
        R.checks += 1
        d = differs(x.post, model_obs(x.mpost), self.fields, tol=getattr(x, "tol", 1e-6))
        if d:
            R.violation(x.case(), "after %s: %s" % (x.op[0], d))


def uniq_rows(arrs):
    """Number of distinct rows of stacked flat arrays."""
    m = np.concatenate([np.round(np.asarray(a, dtype=np.float64).reshape(a.shape[0], -1), 6) for a in arrs], axis=1)
    return len(np.unique(m, axis=0))


def special_updates(cfg, m, tree, kind):
    """Replaces update values of halted elements by non-finite ones."""
    v = {"nan": np.nan, "inf": np.inf, "ninf": -np.inf}[kind]

    def f(u):
        return np.where(np.broadcast_to(left(m.halted, u.ndim), u.shape), v, u)
    return {k: tmap(f, t) for k, t in tree.items()}


# ---------------------------------------------------------------- wide

def wide(task, R, monitor):
    """
    task: alphabet, depth, batch ("flat" or explicit trailing layout), acc, eps,
    dep, dt, mode, resets (steps after which a reset happens), special.
    """
    hs = lib.grid(tuple(task["alphabet"]), task["depth"])       # [depth, N]
    starts = task.get("starts")
    if starts:                                                  # every start times every sequence
        st = np.array(list(itertools.product(*starts)), dtype=np.float64)       # [S, 3]
        st = np.repeat(st, hs.shape[1], axis=0)
        hs = np.tile(hs, (1, len(st) // hs.shape[1]))
    n = hs.shape[1]
    layout = task.get("layout", "flat")
    if layout == "flat":
        batch = (n,)
    elif layout == "col":
        batch = (n, 1)
    elif layout == "row":
        batch = (1, n)
    else:                                                       # split by alphabet size
        a = len(task["alphabet"])
        batch = {"two": (a, n // a), "three": (a, a, n // (a * a))}.get(layout) or (a, 1, a, 1, n // (a * a), 1)
    cfg = lib.cfg_of(task, batch=batch)
    pattern = set(task.get("resets", ()))
    c, m = cfg.controller(), cfg.model()
    if starts:
        p0, r0, n0 = (st[:, i].reshape(batch) for i in range(3))
        ed = TensorEditor.edit_controller(c).set_probabilities(cfg.h(p0)).set_residuals(cfg.h(r0)).set_iterations(cfg.h(n0))
        m = m.but(p=p0, r=r0, n=n0)
        for i, nm in enumerate(cfg.names):
            a, d = cfg.updates(5 + i)[nm], cfg.odd_values(cfg.updates(7 + i)[nm])
            ed = ed.set_accumulator(nm, cfg.tree(nm, a)).set_defaults(nm, cfg.tree(nm, d))
            m = m.but(acc=dict(m.acc, **{nm: a}), dft=dict(m.dft, **{nm: d}))
        c = ed.build()
    if hasattr(monitor, "start"):
        monitor.start(R, cfg, c, m)
    seen = [np.zeros((1, 3))]
    rounds = task.get("rounds", 1)
    seq = list(range(task["depth"])) * rounds
    for t, hi in enumerate(seq):
        e = dict(task.get("eps_at", ())).get(t)
        if e is not None:
            c, m = TensorEditor.edit_controller(c).set_epsilon(e).build(), m.but(eps=e)
        h = hs[hi].reshape(batch)
        u = cfg.updates(t)
        if task.get("special"):
            u = special_updates(cfg, m, u, task["special"])
        if task.get("poison_step") == t:
            v = {"nan": np.nan, "inf": np.inf, "ninf": -np.inf}[task["poison"]]
            part = lambda x: (np.arange(x.size) % 3 == t % 3).reshape(x.shape) if task.get("poison_part") else True
            u = {k: tmap(lambda x: np.where(part(x), np.full(x.shape, v), x), x) for k, x in u.items()}
        pre = observe(c)
        cc = c
        for nm in cfg.names:
            cc = cc.cache_update(nm, cfg.tree(nm, u[nm]))
        mc = m.but(upd=u)
        c2 = lib.iterate(cc, cfg.h(h), cfg.mode)
        m2 = mc.iterate(h)
        case = lambda t=t: {"family": task["family"], "task": task, "step": t, "op": "iterate"}
        monitor.step(R, Step(cfg, ("iter", h), pre, observe(c2), m, m2, case, reports(c2), c, c2))
        R.trans(n)
        c, m = c2, m2
        seen.append(np.stack([m.p.ravel(), m.r.ravel(), m.n.ravel()], axis=1))
        if t in pattern:
            pre = observe(c)
            c2 = lib.reset(c, cfg.mode)
            m2 = m.reset()
            case = lambda t=t: {"family": task["family"], "task": task, "step": t, "op": "reset"}
            monitor.step(R, Step(cfg, ("reset",), pre, observe(c2), m, m2, case, reports(c2), c, c2))
            R.trans(n)
            c, m = c2, m2
    allst = np.concatenate(seen)
    R.add_states(len(np.unique(np.round(allst, 6), axis=0)))
    R.trace(n)
    R.outcome(("wide", int(m.halted.sum()), round(float(m.r.sum()), 3), float(m.n.sum())))
    R.sample({"family": "wide", "h": hs[:, min(n - 1, n // 2)].tolist(), "eps": cfg.eps, "dep": cfg.dep,
              "p": m.p.ravel()[min(n - 1, n // 2)], "residual": m.r.ravel()[min(n - 1, n // 2)]})


# ---------------------------------------------------------------- joint

class Batched:
    """The real step function, compiled once and mapped over many controllers."""

    def __init__(self, cfg):
        self.cfg = cfg
        c0 = cfg.controller()
        self.leaves0, self.treedef = jax.tree_util.tree_flatten(c0)
        self.isarr = [hasattr(l, "shape") and getattr(l, "ndim", 0) > 0 or hasattr(l, "aval") for l in self.leaves0]
        cfgq = cfg

        def build(arrs):
            it = iter(arrs)
            return jax.tree_util.tree_unflatten(
                self.treedef, [next(it) if a else l for a, l in zip(self.isarr, self.leaves0)])

        def split(c):
            ls, td = jax.tree_util.tree_flatten(c)
            if td != self.treedef:
                raise AssertionError("tree structure of the controller changed: %s" % td)
            return [l for a, l in zip(self.isarr, ls) if a]

        def view(c):
            v = c.make_viewer()
            return dict(p=c.probabilities, r=c.residuals, n=c.iterations, acc=dict(c.accumulators),
                        dft=dict(v.defaults), halted=c.halted_batches, all=c.is_completely_halted,
                        any=c.is_any_halted)

        def it(arrs, h, us):
            c = build(arrs)
            for nm in cfgq.names:
                c = c.cache_update(nm, us[nm])
            c = c.iterate_act(h)
            return split(c), view(c)

        def rs(arrs):
            c = build(arrs).reset_batches()
            return split(c), view(c)

        self.view1 = jax.jit(jax.vmap(lambda arrs: view(build(arrs))))
        self.it = jax.jit(jax.vmap(it, in_axes=(0, 0, None)))
        self.rs = jax.jit(jax.vmap(rs))
        self.start = [np.asarray(l)[None] for a, l in zip(self.isarr, self.leaves0) if a]


CHUNK = 4096


def _chunks(f, arrs, *more):
    """Applies a compiled function to stacked inputs in padded chunks of few sizes."""
    k = arrs[0].shape[0]
    out = None
    i = 0
    while i < k:
        size = CHUNK if k - i > 64 else 64
        j = min(i + size, k)
        pad = size - (j - i)
        g = lambda a: np.concatenate([a[i:j], np.repeat(a[j - 1:j], pad, axis=0)]) if pad else a[i:j]
        res = jax.tree_util.tree_map(np.asarray, f([g(a) for a in arrs], *[g(x) for x in more]))
        res = jax.tree_util.tree_map(lambda a: a[:j - i], res)
        out = res if out is None else jax.tree_util.tree_map(lambda x, y: np.concatenate([x, y]), out, res)
        i = j
    return out


def joint(task, R, monitor):
    cfg = lib.cfg_of(task)
    B = Batched(cfg)
    acts = np.array(list(itertools.product(task["alphabet"], repeat=cfg.n)), dtype=np.float64)
    acts = acts.reshape((len(acts),) + cfg.batch)
    npdt = np.asarray(cfg.h(0.0)).dtype
    ups = [cfg.updates(k) for k in range(task.get("variants", 1))]
    jups = [{k: cfg.tree(k, u[k]) for k in cfg.names} for u in ups]

    def model_of(v, K):
        f = lambda x: np.asarray(x).astype(np.float64)
        d = cfg.defaults()
        big = lambda t: tmap(lambda x: np.broadcast_to(x, (K,) + x.shape), t)
        return d, big

    m0 = cfg.model()
    rep = lambda t, K: tmap(lambda x: np.repeat(x[None], K, axis=0), t)
    M1 = Model(cfg.eps, cfg.dep, m0.p[None], m0.r[None], m0.n[None],
               {k: rep(v, 1) for k, v in m0.dft.items()}, {k: rep(v, 1) for k, v in m0.acc.items()},
               {k: None for k in cfg.names})
    arrs = B.start
    front = M1
    axes = tuple(range(1, 1 + len(cfg.batch)))
    keyset = set()

    def rows(m):
        K = m.p.shape[0]
        cols = [m.p.reshape(K, -1), m.r.reshape(K, -1), m.n.reshape(K, -1)]
        cols += [l.reshape(K, -1) for k in sorted(m.acc) for l in tleaves(m.acc[k])]
        return np.round(np.concatenate(cols, axis=1), 5) + 0.0

    def obs(view):
        t = lambda d: {k: lib.tmap_any(arr, v) for k, v in d.items()}
        return ({"p": arr(view["p"]), "r": arr(view["r"]), "n": arr(view["n"]), "acc": t(view["acc"]),
                 "dft": t(view["dft"])},
                {"halted": view["halted"], "all": view["all"], "any": view["any"]})

    pick = lambda m, idx: Model(m.eps, m.dep, m.p[idx], m.r[idx], m.n[idx],
                                {k: tmap(lambda x: x[idx], v) for k, v in m.dft.items()},
                                {k: tmap(lambda x: x[idx], v) for k, v in m.acc.items()},
                                {k: None for k in cfg.names})

    for r in rows(front):
        keyset.add(r.tobytes())
    start_view = obs(_chunks(B.view1, arrs))[0]
    pre_obs = start_view
    for depth in range(task["depth"]):
        K = front.p.shape[0]
        nxt_arrs, nxt_models, nxt_obs = [], [], []

        def take(new, view, m2, op, pre_o, mpre, actlist):
            o, rp = obs(view)
            case = lambda: {"family": "joint", "task": task, "depth": depth, "op": op[0],
                            "actions_tried": "all joint actions from all states of this depth"}
            st = Step(cfg, op, pre_o, o, mpre, m2, case, rp, axes=axes)
            st.actlist = actlist
            monitor.step(R, st)
            rr = rows(m2)
            _, first = np.unique(rr, axis=0, return_index=True)
            keep = [i for i in np.sort(first) if rr[i].tobytes() not in keyset]
            for i in keep:
                keyset.add(rr[i].tobytes())
            if keep:
                keep = np.array(keep)
                nxt_arrs.append([a[keep] for a in new])
                nxt_models.append(pick(m2, keep))
                nxt_obs.append(tree_take(o, keep))
            R.trans(len(rr))
            R.trace(len(rr))

        # iterate with every joint action
        idx = np.repeat(np.arange(K), len(acts))
        H = np.tile(acts, (K,) + (1,) * len(cfg.batch))
        pm = pick(front, idx)
        po = tree_take(pre_obs, idx)
        big = [a[idx] for a in arrs]
        for u, ju in zip(ups, jups):
            new, view = _chunks(lambda A, h: B.it(A, h, ju), big, H.astype(npdt))
            mm = pm.but(upd={k: tmap(lambda x: np.broadcast_to(x, (len(idx),) + x.shape), u[k]) for k in cfg.names})
            take(new, view, mm.iterate(H), ("iter", H), po, pm, H)
        # reset
        new, view = _chunks(B.rs, arrs)
        take(new, view, front.reset(), ("reset",), pre_obs, front, None)
        if not nxt_arrs:
            break
        arrs = [np.concatenate(x) for x in zip(*nxt_arrs)]
        front = cat_models(nxt_models, cfg)
        pre_obs = cat_obs(nxt_obs)
        cap = task.get("cap")
        if cap and front.p.shape[0] > cap:
            # explicit bound: the deeper level is explored from the first `cap` states only
            R.note("frontier_capped")
            sel = np.arange(cap)
            arrs = [a[sel] for a in arrs]
            front = pick(front, sel)
            pre_obs = tree_take(pre_obs, sel)
    R.add_states(len(keyset))
    R.outcome(("joint", len(keyset)))
    R.sample({"family": "joint", "batch": cfg.batch, "alphabet": list(task["alphabet"]), "states": len(keyset),
              "last_state_p": front.p[-1].ravel().tolist()})


def tree_take(o, idx):
    return {k: ({n: tmap(lambda x: x[idx], t) for n, t in v.items()} if isinstance(v, dict) else v[idx])
            for k, v in o.items()}


def cat_obs(os):
    out = {}
    for k, v in os[0].items():
        if isinstance(v, dict):
            out[k] = {n: tmap(lambda *xs: np.concatenate(xs), *[o[k][n] for o in os]) for n in v}
        else:
            out[k] = np.concatenate([o[k] for o in os])
    return out


def cat_models(ms, cfg):
    c = lambda *xs: np.concatenate(xs)
    return Model(ms[0].eps, ms[0].dep, c(*[m.p for m in ms]), c(*[m.r for m in ms]), c(*[m.n for m in ms]),
                 {k: tmap(c, *[m.dft[k] for m in ms]) for k in cfg.names},
                 {k: tmap(c, *[m.acc[k] for m in ms]) for k in cfg.names},
                 {k: None for k in cfg.names})


# ---------------------------------------------------------------- long

def long(task, R, monitor):
    """Long runs: element i gets probability (i % 9) * unit in every step."""
    n = task.get("n", 27)
    cfg = lib.cfg_of(task, batch=(n,))
    unit = task["unit"]
    h = (np.arange(n) % 9) * unit
    c, m = cfg.controller(), cfg.model()
    every = task.get("reset_every")
    for t in range(task["steps"]):
        u = cfg.updates(t % 5)
        pre = observe(c)
        cc = c
        for nm in cfg.names:
            cc = cc.cache_update(nm, cfg.tree(nm, u[nm]))
        c2 = lib.iterate(cc, cfg.h(h), cfg.mode)
        m2 = m.but(upd=u).iterate(h)
        case = lambda: {"family": "long", "task": task, "step": t}
        x = Step(cfg, ("iter", h), pre, observe(c2), m, m2, case, reports(c2), c, c2)
        monitor.step(R, x)
        R.trans(n)
        R.state((t, m2.p.tobytes(), m2.n.tobytes()))
        c, m = c2, m2
        if every and (t + 1) % every == 0:
            pre = observe(c)
            c2, m2 = lib.reset(c, cfg.mode), m.reset()
            monitor.step(R, Step(cfg, ("reset",), pre, observe(c2), m, m2, case, reports(c2), c, c2))
            R.trans(n)
            c, m = c2, m2
    R.trace(n)
    R.outcome(("long", float(m.n.sum())))


def marathon(task, R, monitor):
    """
    Very long runs, inside one compiled scan: element i gets probability i * unit in every step. Looked at around
    the powers of two and at the end.
    """
    n, T = task.get("n", 5), task["steps"]
    cfg = lib.cfg_of(task, batch=(n,))
    h = np.arange(n) * task["unit"]
    u = cfg.updates(1)
    uj = {nm: cfg.tree(nm, u[nm]) for nm in cfg.names}
    marks = sorted({k for e in range(3, 32) for k in ((1 << e) - 2, (1 << e) - 1, 1 << e) if 0 < k < T} | {T - 1, T // 3})

    def step(c, hj):
        for nm in cfg.names:
            c = c.cache_update(nm, uj[nm])
        return c.iterate_act(hj)

    def run(c, hj, k):
        return jax.lax.fori_loop(0, k, lambda i, c: step(c, hj), c)
    run, one = jax.jit(run), jax.jit(step)
    m, t = cfg.model(), 0
    c0 = cfg.controller()
    for k in marks:
        while t < k:
            m = m.but(upd=u).iterate(h)
            t += 1
        c = run(c0, cfg.h(h), k)
        c2 = one(c, cfg.h(h))
        m2 = m.but(upd=u).iterate(h)
        case = lambda: {"family": "marathon", "task": task, "step": t}
        monitor.step(R, Step(cfg, ("iter", h), observe(c), observe(c2), m, m2, case, reports(c2), c, c2))
        R.state((t, m2.p.tobytes(), m2.n.tobytes()))
    R.trans(n * T)
    R.trace(n)
    R.outcome(("marathon", float(m.n.sum())))


# ---------------------------------------------------------------- hist

def hist_ops(cfg, which):
    """
    The object-level operations, simplest first.  `which` selects groups.
    """
    n = cfg.n
    pat = lambda vals: [vals[i % len(vals)] for i in range(n)]
    ops = []
    if "cache" in which:
        for nm in cfg.names:
            ops.append(("cache", nm, 0))
    if "cache2" in which:
        for nm in cfg.names:
            ops.append(("cache", nm, 1))
    if "cacheall" in which:
        ops.append(("cacheall", 0))
        ops.append(("cacheall", 1))
    if "iter" in which:
        ops += [("iter", pat([0.25, 0.75])), ("iter", pat([1.0, 0.5])), ("iter", pat([0.0, 1.0, 0.25]))]
    if "iter1" in which:
        ops += [("iter", pat([0.5, 1.0]))]
    if cfg.given and ("iter1" in which or "iter" in which):
        ops += [("iter", pat([1.5, -0.5]))]
    if cfg.given and "commit" in which:
        ops += [("commit", pat([1.5, -0.5]))]
    if "commit" in which:
        ops += [("commit", pat([0.5, 1.0, 0.25])), ("commit", pat([0.25, 0.75]))]
    if "reset" in which:
        ops.append(("reset",))
    if "copy" in which:
        ops += [("saveload",), ("flat",), ("treemap",), ("jitid",), ("viewload",)]
    if "edit" in which:
        ops += [("eps", 0.5), ("eps", 0.25), ("setp", 0), ("setr", 0), ("setn", 0)]
        for nm in cfg.names[:2]:
            ops += [("seta", nm, 5), ("setd", nm, 6), ("setu", nm, 1), ("setu", nm, None)]
    if "edit1" in which:
        nm = cfg.names[0]
        ops += [("eps", 0.5), ("setp", 0), ("setd", nm, 6), ("setu", nm, 1), ("setu", nm, None)]
    if "odd" in which:          # anything can be cached, but not everything committed
        ops += [("odd", cfg.names[0], k) for k in range(2)]
    if "bad" in which:
        ops += [("badname",), ("badh", 0), ("badh", 1)]
        for nm in cfg.names:
            ops += [("badshape", nm), ("badcount", nm)]
    return ops


def edit_values(cfg, kind, k=0):
    n = cfg.n
    i = np.arange(n)
    if kind == "setp":
        return np.array([0.25, 1.0, 0.5, 0.0])[(i + k) % 4].reshape(cfg.batch)
    if kind == "setr":
        return np.array([0.5, 0.0, 0.25])[(i + k) % 3].reshape(cfg.batch)
    if kind == "setn":
        return np.array([3.0, 0.0, 7.0])[(i + k) % 3].reshape(cfg.batch)


def odd_update(cfg, k):
    """Updates that do not fit any accumulator: too few dimensions, another tree."""
    if k == 0:
        return np.array(5.0)
    return {"q": [np.array([1.0, 2.0, 3.0, 4.0, 5.0]), (np.array(-2.0), np.zeros((0, 2)))], "p": np.arange(1.0, 10.0).reshape(3, 1, 3)}


def break_shape(cfg, name, t):
    """The update with the last leaf of a wrong shape; None if there is none to break."""
    ls = tleaves(t)
    if not ls:
        return None
    last = ls[-1]
    return tmap(lambda x: np.concatenate([x, x[..., :1]], axis=-1) if x is last else x, t) if last.ndim else None


def apply_model(cfg, m, op):
    k = op[0]
    if k == "cache":
        return m.cache(op[1], cfg.updates(op[2])[op[1]])
    if k == "cacheall":
        for nm in cfg.names:
            m = m.cache(nm, cfg.updates(op[1])[nm])
        return m
    if k == "odd":
        return m.cache(op[1], odd_update(cfg, op[2]))
    if k == "iter":
        return m.iterate(np.array(op[1]).reshape(cfg.batch))
    if k == "commit":
        return apply_model(cfg, apply_model(cfg, m, ("cacheall", 0)), ("iter", op[1]))
    if k == "reset":
        return m.reset()
    if k in ("saveload", "flat", "treemap", "jitid", "viewload"):
        return m
    if k == "eps":
        return m.but(eps=op[1])
    if k == "setp":
        return m.but(p=edit_values(cfg, k, op[1]))
    if k == "setr":
        return m.but(r=edit_values(cfg, k, op[1]))
    if k == "setn":
        return m.but(n=edit_values(cfg, k, op[1]))
    if k in ("seta", "setd", "setu"):
        f = {"seta": "acc", "setd": "dft", "setu": "upd"}[k]
        d = dict(getattr(m, f))
        d[op[1]] = None if op[2] is None else cfg.updates(op[2])[op[1]]
        return m.but(**{f: d})
    if k == "badname":
        raise Reject(ValueError)
    if k == "badh":
        raise Reject(ValueError)
    if k in ("badshape", "badcount"):
        # the real driver fills the other slots, puts the broken update and commits
        raise Reject(RuntimeError)
    raise KeyError(k)


def apply_real(cfg, c, op):
    """Returns the new controller; raises what the code under test raises."""
    k = op[0]
    jit = cfg.mode == "jit"
    if k == "cache":
        item = cfg.tree(op[1], cfg.updates(op[2])[op[1]])
        if jit:
            return lib.jitted(("cache", op[1]), lambda c, t, nm=op[1]: c.cache_update(nm, t))(c, item)
        return c.cache_update(op[1], item)
    if k == "cacheall":
        for nm in cfg.names:
            c = apply_real(cfg, c, ("cache", nm, op[1]))
        return c
    if k == "odd":
        item = lib.tmap_any(jnp.float32, odd_update(cfg, op[2]))
        return lib.jitted(("cache", op[1]), lambda c, t, nm=op[1]: c.cache_update(nm, t))(c, item) if jit else c.cache_update(op[1], item)
    if k == "iter":
        return lib.iterate(c, cfg.h(np.array(op[1]).reshape(cfg.batch)), cfg.mode)
    if k == "commit":
        return apply_real(cfg, apply_real(cfg, c, ("cacheall", 0)), ("iter", op[1]))
    if k == "reset":
        return lib.reset(c, cfg.mode)
    if k == "saveload":
        return ACT_Controller.load(c.save())
    if k == "viewload":
        return ACT_Controller.load(c.make_viewer().save())
    if k == "flat":
        ls, td = jax.tree_util.tree_flatten(c)
        return jax.tree_util.tree_unflatten(td, ls)
    if k == "treemap":
        return jax.tree_util.tree_map(lambda x: x, c)
    if k == "jitid":
        return lib.jitted("id", lambda c: c)(c)
    if k in ("badname", "badh", "badshape", "badcount"):
        if k == "badname":
            return c.cache_update("no such accumulator", jnp.zeros(cfg.batch))
        if k == "badh":
            shape = cfg.batch + (1,) if op[1] == 0 else (cfg.batch[:-1] + (cfg.batch[-1] + 1,) if cfg.batch else (1,))
            return c.iterate_act(jnp.full(shape, 0.5, lib.DT[cfg.dt]))
        ed = TensorEditor.edit_controller(c, "silence")
        for nm in cfg.names:
            t = cfg.updates(0)[nm]
            if nm == op[1]:
                if k == "badcount":
                    bad = (cfg.tree(nm, t), jnp.zeros(cfg.batch))
                else:
                    bad = broken_real(cfg, nm)
                ed = ed.set_updates(nm, bad)
            else:
                ed = ed.set_updates(nm, cfg.tree(nm, t))
        return ed.build().iterate_act(jnp.full(cfg.batch, 0.5, lib.DT[cfg.dt]))
    ed = TensorEditor.edit_controller(c)
    if k == "eps":
        return ed.set_epsilon(op[1]).build()
    if k == "setp":
        return ed.set_probabilities(cfg.h(edit_values(cfg, k, op[1]))).build()
    if k == "setr":
        return ed.set_residuals(cfg.h(edit_values(cfg, k, op[1]))).build()
    if k == "setn":
        return ed.set_iterations(cfg.h(edit_values(cfg, k, op[1]))).build()
    f = {"seta": ed.set_accumulator, "setd": ed.set_defaults, "setu": ed.set_updates}[k]
    return f(op[1], None if op[2] is None else cfg.tree(op[1], cfg.updates(op[2])[op[1]])).build()


def broken_real(cfg, nm):
    """A real update tree whose last leaf has a trailing size too many, or None."""
    t = cfg.tree(nm, cfg.updates(0)[nm])
    leaves, td = jax.tree_util.tree_flatten(t)
    leaves = list(leaves)
    last = leaves[-1]
    leaves[-1] = jnp.zeros(last.shape + (1,), last.dtype) if last.ndim == len(cfg.batch) else \
        jnp.zeros(last.shape[:-1] + (last.shape[-1] + 1,), last.dtype)
    return jax.tree_util.tree_unflatten(td, leaves)


def hist(task, R, monitor):
    cfg = lib.cfg_of(task)
    ops = hist_ops(cfg, task["ops"])
    ops = [o for o in ops if not (o[0] == "badshape" and not lib.leaf_specs(cfg.spec[o[1]]))]
    c0, m0 = cfg.controller(), cfg.model()
    if hasattr(monitor, "start"):
        monitor.start(R, cfg, c0, m0)
    seen = {m0.key()}
    front = [(c0, m0, [])]
    for pre_op in task.get("prefix", []):
        pre_op = tuple(pre_op)
        front = [(apply_real(cfg, c0, pre_op), apply_model(cfg, m0, pre_op), [pre_op])]
        c0, m0, _ = front[0]
    everything = list(front)
    for depth in range(task["depth"]):
        nxt = []
        for c, m, h in front:
            pre = observe(c)
            for op in ops:
                case = lambda: {"family": "hist", "task": task, "history": h + [op]}
                want = None
                try:
                    m2 = apply_model(cfg, m, op)
                except Reject as e:
                    m2, want = None, e.kinds
                try:
                    c2, exc = apply_real(cfg, c, op), None
                except Exception as e:
                    c2, exc = None, e
                R.trans()
                x = Step(cfg, op, pre, None, m, m2, case, cpre=c, cpost=c2)
                x.exc, x.want = exc, want
                if exc is None and c2 is not None:
                    x.post, x.rep = observe(c2), reports(c2)
                if want is not None or exc is not None:
                    # refused by one of them
                    if hasattr(monitor, "refused"):
                        monitor.refused(R, x)
                    elif want is None:
                        R.violation(case(), "%s raised %s: %s" % (op[0], type(exc).__name__, str(exc)[:500]))
                    R.outcome(("refused", op[0], type(exc).__name__))
                    continue
                monitor.step(R, x)
                key = m2.key()
                if key in seen:
                    R.trace()
                    continue
                seen.add(key)
                R.outcome((op[0], int(m2.halted.sum()), round(float(m2.p.sum()), 3)))
                nxt.append((c2, m2, h + [op]))
                everything.append(nxt[-1])
        front = nxt
        if not front:
            break
    R.trace(len(front))
    R.add_states(len(seen))
    if front:
        R.sample({"family": "hist", "batch": cfg.batch, "acc": cfg.accname, "history": front[-1][2]})
    if hasattr(monitor, "finish"):
        monitor.finish(R, cfg, everything)


# ---------------------------------------------------------------- orders

def orders(task, R, monitor):
    """
    Saved states whose dictionaries hold the accumulators, defaults and updates in
    every combination of orders: names decide what belongs together.
    """
    cfg = lib.cfg_of(task)
    perms = list(itertools.permutations(cfg.names)) if len(cfg.names) <= 3 else [tuple(cfg.names), tuple(reversed(cfg.names)), tuple(sorted(cfg.names)),
                                                                               tuple(cfg.names[1:] + cfg.names[:1])]
    hs = [np.array([(0.25, 1.0, 0.5)[(i + k) % 3] for i in range(cfg.n)]).reshape(cfg.batch) for k in range(3)]
    for triple in itertools.product(perms, repeat=3):
        c, m = cfg.controller(), cfg.model()
        for k, h in enumerate(hs):
            u = cfg.updates(k)
            cc = c
            for nm in triple[k % 3]:
                cc = cc.cache_update(nm, cfg.tree(nm, u[nm]))
            s = cc.save()
            od = lambda d, names: {nm: d[nm] for nm in names}
            # the fields that are left out of replace keep their order
            cc = ACT_Controller.load(s.replace(accumulators=od(s.accumulators, triple[0]), updates=od(s.updates, triple[1]), defaults=od(s.defaults, triple[2])))
            for op, f, g in ((("iter", h), lambda x: lib.iterate(x, cfg.h(h), cfg.mode), lambda x: x.iterate(h)),
                             (("reset",), lambda x: lib.reset(x, cfg.mode), lambda x: x.reset())):
                mc = m.but(upd=u) if op[0] == "iter" else m
                pre, mpre = observe(cc), mc
                c2, m2 = f(cc), g(mc)
                case = lambda: {"family": "orders", "task": task, "orders": triple, "step": k, "op": op[0]}
                monitor.step(R, Step(cfg, op, pre, observe(c2), mpre, m2, case, reports(c2), cc, c2))
                R.trans()
                cc, m = c2, m2
                s = cc.save()
                if op[0] == "iter":
                    cc = ACT_Controller.load(s.replace(accumulators=od(s.accumulators, triple[2]), updates=od(s.updates, triple[0]), defaults=od(s.defaults, triple[1])))
            c = cc
            R.state((triple, k))
        R.trace()
    R.outcome((task["acc"], len(perms)))
    R.sample({"family": "orders", "acc": task["acc"], "orders": len(perms) ** 3})


# ---------------------------------------------------------------- duo

def programs(cfg):
    """Short programs; some of their operations are refused."""
    n, nm = cfg.n, cfg.names[0]
    pat = lambda *vals: [vals[i % len(vals)] for i in range(n)]
    a, b = ("commit", pat(0.5, 1.0, 0.25)), ("commit", pat(0.75, 0.25))
    cache, it, reset = ("cacheall", 0), ("iter", pat(1.0, 0.5)), ("reset",)
    return [(cache, it, reset), (cache, ("cacheall", 1), it), (a, reset, b), (a, b, reset), (b, ("eps", 0.5), a), (a, ("setd", nm, 6), reset),
            (("setu", nm, 1), it, a), (("seta", nm, 5), b, b)]


def duo(task, R, monitor):
    """
    Two controllers that have nothing to do with each other but names, shapes or values:
    every interleaving of their programs.
    """
    cfgs = [lib.cfg_of(dict(mode=task["mode"], **task[k])) for k in ("one", "other")]
    progs = [programs(c) for c in cfgs]
    steps = len(progs[0][0])
    # what must come of each program does not depend on the other
    lines = []
    for cfg, ps in zip(cfgs, progs):
        lines.append([])
        for ops in ps:
            ms = [(cfg.model(), None)]
            for op in ops:
                try:
                    ms.append((apply_model(cfg, ms[-1][0], op), None))
                except Reject as e:
                    ms.append((ms[-1][0], e.kinds))
            lines[-1].append(ms)
    for i, j in itertools.product(range(len(progs[0])), range(len(progs[1]))):
        if (i + j) % task["of"] != task["shard"]:
            continue
        for where in itertools.combinations(range(2 * steps), steps):
            at = [0, 0]
            cs = [cfgs[0].controller(), cfgs[1].controller()]
            done = []
            for t in range(2 * steps):
                w = 0 if t in where else 1
                cfg, k = cfgs[w], (i, j)[w]
                op = progs[w][k][at[w]]
                m, (m2, want) = lines[w][k][at[w]][0], lines[w][k][at[w] + 1]
                at[w] += 1
                done.append((w, op))
                case = lambda: {"family": "duo", "task": task, "history": list(done)}
                c, pre = cs[w], observe(cs[w])
                try:
                    c2, exc = apply_real(cfg, c, op), None
                except Exception as e:
                    c2, exc = None, e
                R.trans()
                x = Step(cfg, op, pre, None, m, None if want else m2, case, cpre=c, cpost=c2)
                x.exc, x.want = exc, want
                if exc is None:
                    x.post, x.rep = observe(c2), reports(c2)
                if want is not None or exc is not None:
                    if hasattr(monitor, "refused"):
                        monitor.refused(R, x)
                    elif want is None:
                        R.violation(case(), "%s raised %s: %s" % (op[0], type(exc).__name__, str(exc)[:500]))
                    continue
                monitor.step(R, x)
                cs[w] = c2
                R.state((w, k, at[w]))
            R.trace()
        R.outcome((i, j))
    R.sample({"family": "duo", "programs": [len(p) for p in progs], "steps": steps})


def dispatch(task, R, monitor):
    {"duo": duo, "wide": wide, "edited": wide, "joint": joint, "long": long, "marathon": marathon, "hist": hist, "orders": orders}[task["family"]](task, R, monitor)
